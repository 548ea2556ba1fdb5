// Package simapp puts a program of the repository under the simulator: its
// files, its standard output, its clock and its HTTP clients are those the
// simulator gives it, one operation at a time, over a pipe.
package simapp

/*
int vsim_register(void);
*/
import "C"

import (
	"os"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Operations. Those of storage are also in vfs.c.
const (
	opHello = 1
	opOut   = 2
	OpServe = 3
	OpReply = 4
	OpDone  = 5
	opWrite = 13
	OpSleep = 22
	opTime  = 24
)

const wait = 1 << 20 // the answer of an output that blocks

const (
	fdIn  = 3
	fdOut = 4
)

var (
	callMu  sync.Mutex
	nowNS   int64
	clockOn bool
)

// A server with tasks of its own sets these.
var (
	Task  func() (int32, int32)      // the task and its request at work
	Yield func(op int, a int64) bool // before every operation on storage; it may be all there is to do
	After func()                     // after every operation
	Wait  func(ns int64)             // how to wait
)

// Raw: no other goroutine goes on while the simulator is asked.
var Raw = os.Getenv("VSIM_SEED") != ""

//go:norace
func sys(trap, a, b, c uintptr) (uintptr, uintptr, syscall.Errno) {
	if Raw {
		return syscall.RawSyscall(trap, a, b, c)
	}
	return syscall.Syscall(trap, a, b, c)
}

func Fatal(msg string) {
	os.Stderr.WriteString("SIMAPP " + msg + "\n")
	syscall.Exit(97)
}

// The system calls are made directly and nothing here is seen by the race
// detector: talking to the simulator must not order what it does not order.
//
//go:norace
func readFull(p []byte) {
	for len(p) > 0 {
		n, _, err := sys(syscall.SYS_READ, fdIn, uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)))
		if err == syscall.EINTR {
			continue
		}
		if err != 0 || n == 0 {
			syscall.Exit(96) // the simulator is gone
		}
		p = p[n:]
	}
}

//go:norace
func writeFull(p []byte) {
	for len(p) > 0 {
		n, _, err := sys(syscall.SYS_WRITE, fdOut, uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)))
		if err == syscall.EINTR {
			continue
		}
		if err != 0 {
			syscall.Exit(96)
		}
		p = p[n:]
	}
}

//go:norace
func put(b []byte, v uint64, n int) {
	for i := 0; i < n; i++ {
		b[i] = byte(v >> (8 * i))
	}
}

//go:norace
func get(b []byte, n int) (v uint64) {
	for i := 0; i < n; i++ {
		v |= uint64(b[i]) << (8 * i)
	}
	return
}

// Call makes one operation and waits until the simulator lets it happen.
//
//go:norace
func Call(op int, a, b, c int64, name string, data []byte) (rc, val int64, out []byte) {
	rc, val, out = call(op, a, b, c, name, data)
	if After != nil {
		After()
	}
	return
}

// Now is the time the simulator told last.
//
//go:norace
func Now() int64 { return nowNS }

//go:norace
func call(op int, a, b, c int64, name string, data []byte) (rc, val int64, out []byte) {
	task, n := int32(-1), int32(0)
	if Task != nil {
		task, n = Task() // the scheduler lets one task run at a time
	} else {
		callMu.Lock() // threads of its own wait for each other
		defer callMu.Unlock()
	}
	buf := make([]byte, 48+len(name)+len(data))
	put(buf[0:], uint64(op), 4)
	put(buf[4:], uint64(a), 8)
	put(buf[12:], uint64(b), 8)
	put(buf[20:], uint64(c), 8)
	put(buf[28:], uint64(len(name)), 4)
	put(buf[32:], uint64(len(data)), 4)
	put(buf[36:], uint64(task), 4)
	put(buf[40:], uint64(n), 4)
	for i := 0; i < len(name); i++ {
		buf[48+i] = name[i]
	}
	for i := 0; i < len(data); i++ {
		buf[48+len(name)+i] = data[i]
	}
	writeFull(buf)
	rep := make([]byte, 28)
	readFull(rep)
	rc = int64(get(rep[0:], 8))
	val = int64(get(rep[8:], 8))
	nowNS = int64(get(rep[16:], 8))
	if n := get(rep[24:], 4); n > 0 {
		out = make([]byte, n)
		readFull(out)
	}
	return
}

//export vsimOp
func vsimOp(op C.int, h, a, b C.longlong, name unsafe.Pointer, nlen C.int, data unsafe.Pointer, dlen C.longlong, out *C.longlong) C.int {
	if int(op) == opTime {
		now, _ := simNow()
		*out = C.longlong(now)
		return 0
	}
	if Yield != nil && Yield(int(op), int64(a)) {
		return 0
	}
	var d []byte
	if data != nil && int(op) == opWrite {
		d = unsafe.Slice((*byte)(data), int(dlen))
	}
	rc, val, rep := Call(int(op), int64(h), int64(a), int64(b), C.GoStringN((*C.char)(name), nlen), d)
	if data != nil && int(op) != opWrite {
		dst := unsafe.Slice((*byte)(data), int(dlen))
		n := copy(dst, rep)
		for i := n; i < len(dst); i++ {
			dst[i] = 0
		}
	}
	if out != nil {
		*out = C.longlong(val)
	}
	return C.int(rc)
}

//go:norace
func simNow() (int64, bool) { return nowNS, clockOn }

func init() {
	if os.Getenv("VSIM_APP") == "" {
		return
	}
	_, _, rep := Call(opHello, 0, 0, 0, "", nil)
	_ = rep
	C.vsim_register()
	clockOn = true
	time.SimNow = simNow
	syscall.SimWrite = func(fd int, p []byte) (int, error, bool) {
		if fd != 1 {
			return 0, nil, false
		}
		rc, val, _ := Call(opOut, int64(fd), 0, 0, "", p)
		for again := int64(1); rc == wait; again++ { // it does not take anything yet
			if Wait != nil {
				Wait(val)
			} else {
				Call(OpSleep, 0, val/1000, 0, "", nil)
			}
			rc, val, _ = Call(opOut, int64(fd), again, 0, "", p)
		}
		if rc != 0 {
			return -1, syscall.Errno(rc), true
		}
		return int(val), nil, true
	}
}
