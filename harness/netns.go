package main

import (
	"net"
	"os"
	"os/exec"
	"sync"
	"syscall"
	"unsafe"
)

// Workers that open TCP ports get a network namespace of their own, inside a
// user namespace, so that the ports of one never meet those of another.

func addNetNS(a *syscall.SysProcAttr) {
	a.Cloneflags = syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET
	a.UidMappings = []syscall.SysProcIDMap{{ContainerID: os.Getuid(), HostID: os.Getuid(), Size: 1}}
	a.GidMappings = []syscall.SysProcIDMap{{ContainerID: os.Getgid(), HostID: os.Getgid(), Size: 1}}
}

var nsOnce sync.Once
var nsOK bool

// netNSWorks tries it with a child that only checks its loopback.
func netNSWorks() bool {
	nsOnce.Do(func() {
		cmd := exec.Command(os.Args[0], "probe")
		cmd.SysProcAttr = &syscall.SysProcAttr{}
		addNetNS(cmd.SysProcAttr)
		nsOK = cmd.Run() == nil
	})
	return nsOK
}

// loopbackUp brings up lo and says if this process has a network of its own.
func loopbackUp() bool {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return false
	}
	defer syscall.Close(fd)
	var req [40]byte
	copy(req[:], "lo")
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCGIFFLAGS, uintptr(unsafe.Pointer(&req[0]))); e != 0 {
		return false
	}
	flags := (*uint16)(unsafe.Pointer(&req[16]))
	*flags |= syscall.IFF_UP
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req[0]))); e != 0 {
		return false
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return false
	}
	defer l.Close()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// ownNet is set in workers that have a network of their own.
var ownNet bool
