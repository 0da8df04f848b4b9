package hmain

import (
	"testing"

	"vsim/core"

	_ "github.com/keyfuse/tokucore/vsites"
)

func TestWorker(t *testing.T) {
	core.Main(t)
}
