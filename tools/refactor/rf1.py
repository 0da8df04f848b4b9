import re,sys
R='/tmp/rf/'
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        if s.count(a)<1: print('SKIP',f,repr(a[:70])); continue
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
ed('xprotocol/stream.go',('''	magic := make([]byte, 4)
	if _, err := io.ReadFull(s.reader, magic); err != nil {
		return nil, err
	}
	if !bytes.Equal(magic, s.magic) {
		return nil, fmt.Errorf("stream.read.magic.mismatch")
	}
	command := make([]byte, 12)
	if _, err := io.ReadFull(s.reader, command); err != nil {
		return nil, err
	}
	var size uint32
	if err := binary.Read(s.reader, binary.LittleEndian, &size); err != nil {
		return nil, err
	}
	if size > maxPayloadSize {
		return nil, fmt.Errorf("stream.read.payload.size[%v].exceeds[%v]", size, maxPayloadSize)
	}
	check := make([]byte, 4)
	if _, err := io.ReadFull(s.reader, check); err != nil {
		return nil, err
	}
	data := make([]byte, size)
	if _, err := io.ReadFull(s.reader, data); err != nil {
		return nil, err
	}
	if !bytes.Equal(check, checksum(data)) {
		return nil, fmt.Errorf("stream.read.payload.checksum.mismatch")
	}

	cmdStr := string(bytes.TrimRight(command, "\\x00"))
	msg := makeEmptyMessage(cmdStr)
	if err := msg.Decode(data); err != nil {
		return nil, err
	}
	return msg, nil
}
''','''	var hdr [24]byte
	if _, err := io.ReadFull(s.reader, hdr[:]); err != nil {
		return nil, err
	}
	head, err := s.parseHeader(hdr[:])
	if err != nil {
		return nil, err
	}
	payload, err := readPayload(s.reader, head)
	if err != nil {
		return nil, err
	}
	msg := makeEmptyMessage(head.command)
	if err = msg.Decode(payload); err == nil {
		return msg, nil
	}
	return nil, err
}

type frameHeader struct {
	command string
	size    uint32
	check   [4]byte
}

func (s *Stream) parseHeader(raw []byte) (h frameHeader, err error) {
	for i, m := range s.magic {
		if raw[i] != m {
			return h, fmt.Errorf("stream.read.magic.mismatch")
		}
	}
	h.size = binary.LittleEndian.Uint32(raw[16:])
	if h.size > maxPayloadSize {
		return h, fmt.Errorf("stream.read.payload.size[%v].exceeds[%v]", h.size, maxPayloadSize)
	}
	h.command = string(bytes.TrimRight(raw[4:16], "\\x00"))
	copy(h.check[:], raw[20:24])
	return h, nil
}

func readPayload(r io.Reader, h frameHeader) ([]byte, error) {
	data := make([]byte, h.size)
	if _, err := io.ReadFull(r, data); err != nil {
		return nil, err
	}
	if !bytes.Equal(h.check[:], checksum(data)) {
		return nil, fmt.Errorf("stream.read.payload.checksum.mismatch")
	}
	return data, nil
}
'''),('''	var b bytes.Buffer
	b.Write(s.magic)
	command := make([]byte, 12)
	copy(command, []byte(msg.Command()))
	b.Write(command)

	datas := msg.Encode()
	if err := binary.Write(&b, binary.LittleEndian, uint32(len(datas))); err != nil {
		return err
	}

	b.Write(checksum(datas))
	b.Write(datas)

	if _, err := s.writer.Write(b.Bytes()); err != nil {
		return err
	}
	return s.writer.Flush()
''','''	datas := msg.Encode()
	frame := framePool.Get().(*bytes.Buffer)
	defer framePool.Put(frame)
	frame.Reset()
	frame.Write(s.magic)
	var fixed [12]byte
	copy(fixed[:], msg.Command())
	frame.Write(fixed[:])
	frame.Write(binary.LittleEndian.AppendUint32(nil, uint32(len(datas))))
	frame.Write(checksum(datas))
	frame.Write(datas)

	if _, err := s.writer.Write(frame.Bytes()); err != nil {
		return err
	}
	return s.writer.Flush()
'''),('''func checksum(''','''var framePool = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func checksum('''))
ed('xprotocol/connection.go',('''	for {
		msg, err := c.stream.ReadMessage()
		if err != nil {
			fmt.Printf("connection.ReadLoop.error:%+v\\n", err)
			break
		}
		c.onReceive(c, msg)
	}
	c.onDisconnect(c)
''','''	err := c.pump()
	fmt.Printf("connection.ReadLoop.error:%+v\\n", err)
	c.onDisconnect(c)
'''),('''// RemoteAddress --''','''// pump -- hands messages over until reading fails.
func (c *Connection) pump() error {
	var (
		msg Message
		err error
	)
	for msg, err = c.stream.ReadMessage(); err == nil; msg, err = c.stream.ReadMessage() {
		c.onReceive(c, msg)
	}
	return err
}

// RemoteAddress --'''))
ed('xprotocol/message.go',('''func makeEmptyMessage(command string) Message {
	switch command {
	case CommandVersion:
		return &MsgVersion{}
	case CommandVersionAck:
		return &MsgVerAck{}
	case CommandInventory:
		return &MsgInv{}
	case CommandGetData:
		return &MsgGetData{}
	case CommandGetHeaders:
		return &MsgGetHeaders{}
	case CommandTx:
		return &MsgTx{}
	case CommandHeaders:
		return &MsgHeaders{}
	case CommandPing:
		return &MsgPing{}
	case CommandPong:
		return &MsgPong{}
	case CommandReject:
		return &MsgReject{}
	}
	return &MsgUnhandle{command: command}
}''','''var factories = map[string]func() Message{
	CommandVersion:    func() Message { return &MsgVersion{} },
	CommandVersionAck: func() Message { return &MsgVerAck{} },
	CommandInventory:  func() Message { return &MsgInv{} },
	CommandGetData:    func() Message { return &MsgGetData{} },
	CommandGetHeaders: func() Message { return &MsgGetHeaders{} },
	CommandTx:         func() Message { return &MsgTx{} },
	CommandHeaders:    func() Message { return &MsgHeaders{} },
	CommandPing:       func() Message { return &MsgPing{} },
	CommandPong:       func() Message { return &MsgPong{} },
	CommandReject:     func() Message { return &MsgReject{} },
}

func makeEmptyMessage(command string) Message {
	if f, ok := factories[command]; ok {
		return f()
	}
	return &MsgUnhandle{command: command}
}'''))
ed('xrpc/client.go',('''	url := fmt.Sprintf("http://%v/", c.rpcHost)
	param := &Request{
		Method: method,
		Params: params,
	}
	enc, err := json.Marshal(param)
	if err != nil {
		return nil, err
	}
	req, err := http.NewRequest("POST", url, bytes.NewReader(enc))
	if err != nil {
		return nil, err
	}
	req.SetBasicAuth(c.rpcUser, c.rpcPass)

	// 5s timeout.
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(5)*time.Second)
	req = req.WithContext(ctx)
	defer cancel()

	rawResp, err := c.httpClient.Do(req)
	if err != nil {
		return nil, err
	}
	defer rawResp.Body.Close()

	resp := &Response{}
	if err := json.NewDecoder(rawResp.Body).Decode(resp); err != nil {
		return nil, err
	}
''','''	ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(5*time.Second))
	defer cancel()
	req, err := c.request(ctx, method, params)
	if err != nil {
		return nil, err
	}
	rawResp, err := c.httpClient.Do(req)
	if err != nil {
		return nil, err
	}
	body, err := io.ReadAll(rawResp.Body)
	rawResp.Body.Close()
	if err != nil {
		return nil, err
	}

	resp := new(Response)
	if err := json.Unmarshal(body, resp); err != nil {
		return nil, err
	}
'''),('func (c *Client) call(','''func (c *Client) request(ctx context.Context, method string, params []interface{}) (*http.Request, error) {
	enc, err := json.Marshal(&Request{Method: method, Params: params})
	if err != nil {
		return nil, err
	}
	req, err := http.NewRequestWithContext(ctx, http.MethodPost, "http://"+c.rpcHost+"/", bytes.NewReader(enc))
	if err == nil {
		req.SetBasicAuth(c.rpcUser, c.rpcPass)
	}
	return req, err
}

func (c *Client) call('''),('"fmt"\n','"fmt"\n\t"io"\n'))
s=open(R+'xrpc/method.go').read()
s=re.sub(r'''	rawResp, err := c.call\("getblock", hash, 3\)
	if err != nil \{
		return nil, err
	\}

	resp := &BlockResult\{\}
	if err = json.Unmarshal\(\*rawResp.Result, resp\); err != nil \{
		return nil, err
	\}
	return resp, nil''','''	return ask[BlockResult](c, "getblock", hash, 3)''',s)
s=re.sub(r'''	rawResp, err := c.call\("getblockheader", hash\)
	if err != nil \{
		return nil, err
	\}

	resp := &BlockHeaderResult\{\}
	if err = json.Unmarshal\(\*rawResp.Result, resp\); err != nil \{
		return nil, err
	\}
	return resp, nil''','''	return ask[BlockHeaderResult](c, "getblockheader", hash)''',s)
s+='''
func ask[T any](c *Client, method string, params ...interface{}) (*T, error) {
	raw, err := c.call(method, params...)
	if err != nil {
		return nil, err
	}
	var v T
	if err := json.Unmarshal(*raw.Result, &v); err != nil {
		return nil, err
	}
	return &v, nil
}
'''
open(R+'xrpc/method.go','w').write(s)
