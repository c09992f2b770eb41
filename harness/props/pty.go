package props

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

func ioctl(f *os.File, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, arg); e != 0 {
		return e
	}
	return nil
}

// openPty opens a pseudo-terminal: what is written to the second file can be
// read from the first.
func openPty() (master, slave *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var n, unlock int32
	if err := ioctl(m, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); err != nil {
		panic("harness: unlock pty: " + err.Error())
	}
	if err := ioctl(m, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err != nil {
		panic("harness: pty number: " + err.Error())
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	// What is written comes out as it is.
	t := termios(s)
	t.Oflag &^= syscall.OPOST
	t.Lflag &^= syscall.ECHO
	if err := ioctl(s, syscall.TCSETS, uintptr(unsafe.Pointer(&t))); err != nil {
		panic("harness: " + err.Error())
	}
	return m, s
}

func termios(f *os.File) (t syscall.Termios) {
	if err := ioctl(f, syscall.TCGETS, uintptr(unsafe.Pointer(&t))); err != nil {
		panic("harness: tcgets: " + err.Error())
	}
	return t
}

// readPty reads n bytes, or until the other side is closed, to a channel.
func readPty(m *os.File) chan []byte {
	c := make(chan []byte, 1)
	go func() {
		var out []byte
		buf := make([]byte, 65536)
		for {
			n, err := m.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil {
				break
			}
		}
		c <- out
	}()
	return c
}
