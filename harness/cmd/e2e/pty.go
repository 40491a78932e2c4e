package main

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

func ioctl(f *os.File, req uintptr, p unsafe.Pointer) error {
	// Not through Fd, which would make reads block a close.
	sc, err := f.SyscallConn()
	if err != nil {
		return err
	}
	if e := sc.Control(func(fd uintptr) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
			err = e
		}
	}); e != nil {
		return e
	}
	return err
}

func termios(f *os.File) (t syscall.Termios, err error) {
	err = ioctl(f, syscall.TCGETS, unsafe.Pointer(&t))
	return
}

// openPty opens a pseudo terminal. The slave is held open, too, and starts
// with a baud rate other than 9600.
func openPty() (m, s *os.File, name string, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
	if err != nil {
		return
	}
	m = os.NewFile(uintptr(fd), "/dev/ptmx")
	var n uint32
	var unlock int32
	if err = ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return
	}
	if err = ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		return
	}
	name = fmt.Sprintf("/dev/pts/%d", n)
	s, err = os.OpenFile(name, os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	t, err := termios(s)
	if err != nil {
		return
	}
	t.Cflag = t.Cflag&^0x100F | syscall.B38400
	t.Lflag &^= syscall.ECHO
	err = ioctl(s, syscall.TCSETS, unsafe.Pointer(&t))
	return
}
