#!/usr/bin/env python3
"""plant.py ID [ID...]: validate a planted bug. With edits on stdin (one ID), first write its patch.diff.
Edits: 'FILE path' lines followed by '<<<' old '===' new '>>>' blocks."""
import sys, os, re, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOFLAGS="-mod=readonly", CGO_ENABLED="1")

def sh(cmd, cwd, t=600):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")

def one(id, edits):
    S = f"{V}/seeded/{id}"
    W = f"/tmp/plant.{id}"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])
    try:
        if edits:
            cur = None
            for m in re.finditer(r"^FILE (\S+)$|^<<<\n(.*?)\n===\n(.*?)\n?>>>$", edits, re.M | re.S):
                if m.group(1):
                    cur = f"{W}/{m.group(1)}"
                    continue
                s = open(cur).read()
                if s.count(m.group(2)) != 1:
                    return f"{id}: edit matches {s.count(m.group(2))} times: {m.group(2)[:60]!r}"
                open(cur, "w").write(s.replace(m.group(2), m.group(3)))
            r = sh("git diff --name-only | xargs gofmt -l", W)
            if r.stdout.strip() or r.returncode:
                print(f"{id}: gofmt {r.stdout} {r.stderr}")
            open(f"{S}/patch.diff", "w").write(sh("git diff", W).stdout)
        else:
            r = sh(f"git apply {S}/patch.diff", W)
            if r.returncode: return f"{id}: does not apply: {r.stderr}"
        pk = "$(go list -e ./... | grep -v '/examples$')"
        r = sh(f"go build {pk}", W)
        if r.returncode: return f"{id}: build: {r.stderr[-1500:]}"
        r = sh(f"go test -json -race -vet=off -count=1 {pk}", W)
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
        fails = sorted({(j.get("Package","")+":"+j.get("Test","")) for j in map(json.loads, filter(lambda l: l.startswith("{"), r.stdout.split("\n"))) if j.get("Action") == "fail" and j.get("Test")})
        if fails: return f"{id}: tests fail: {fails[:6]}"
        for f in sorted(os.listdir(W + "/examples")):
            if f.endswith(".go"):
                r = sh(f"timeout 60 go run examples/{f}", W)
                if r.returncode: return f"{id}: example {f} fails {r.stderr[-300:]}"
        a = sh(f"timeout 300 bash {S}/demo.sh", "/repo")
        b = sh(f"timeout 300 bash {S}/demo.sh", W)
        ok = a.returncode == 0 and b.returncode not in (0, 124) and "panic: test timed out" not in b.stderr
        bo = (b.stdout + b.stderr)
        return f"{id}: {'OK' if ok else 'BAD'} clean={a.returncode} patched={b.returncode}\n   " + (a.stdout + a.stderr)[-300 if a.returncode else -60:].strip() + "\n   " + bo[-250:].strip()
    finally:
        shutil.rmtree(W, ignore_errors=True)

ids = sys.argv[1:]
ed = sys.stdin.read() if len(ids) == 1 and not sys.stdin.isatty() else ""
for i in ids:
    print(one(i, ed), flush=True)
