// Package tty runs the test in a process that has a terminal of its own, which
// nobody looks at.
package tty

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"syscall"
	"testing"
	"unsafe"
)

const mark = "VERIF_TTY"

func ioctl(fd, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

// Own tells if this process has a terminal of its own. One that has none runs the test again in a
// process that has, and goes on when that has ended.
func Own(t *testing.T, cols, rows int) bool {
	if os.Getenv(mark) != "" {
		return true
	}
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Fatal("TROUBLE: no terminals: ", err)
	}
	defer m.Close()
	var n uint32
	var zero int32
	if err := ioctl(m.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		t.Fatal("TROUBLE: ", err)
	}
	if err := ioctl(m.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err != nil {
		t.Fatal("TROUBLE: ", err)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Fatal("TROUBLE: ", err)
	}
	defer s.Close()
	ws := [4]uint16{uint16(rows), uint16(cols)}
	if err := ioctl(m.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws)); err != nil {
		t.Fatal("TROUBLE: ", err)
	}
	go io.Copy(io.Discard, m)
	c := exec.Command(os.Args[0], os.Args[1:]...)
	c.Stdin, c.Stdout, c.Stderr = os.Stdin, os.Stdout, os.Stderr
	c.Env = append(os.Environ(), mark+"=1", "TERM=xterm")
	c.ExtraFiles = []*os.File{s}
	c.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 3, Pdeathsig: syscall.SIGKILL}
	if err := c.Run(); err != nil {
		if e, ok := err.(*exec.ExitError); ok && e.ExitCode() > 0 {
			os.Exit(e.ExitCode())
		}
		t.Fatal("TROUBLE: ", err)
	}
	return false
}
