package sym

import (
	"io"
	"os/signal"
	"syscall"
)

// EOF is io.EOF.
var EOF = io.EOF

func ignoreXFSZ() { signal.Ignore(syscall.SIGXFSZ) }

func setFsize(n uint64) error {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		return err
	}
	l.Cur = n
	if l.Cur > l.Max {
		l.Cur = l.Max
	}
	return syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}
