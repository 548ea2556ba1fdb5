// Package simmongo runs a client of a MongoDB server under the simulator: its
// connections, its clock and the order of its goroutines are the simulator's.
//
// The program runs in a bubble of testing/synctest: its time stands still
// while any of its goroutines can go on, and jumps to the next timer when none
// can. One goroutine runs at a time, and which comes next is drawn from a seed.
package simmongo

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"vsim.local/simapp"
)

const (
	opDial = 30
	opSend = 31
	opShut = 32
	opHang = 33
)

// What becomes of a message (rc), besides the answer.
const (
	reset  = 1 // the connection breaks after what arrives of the answer
	pieces = 2 // the answer comes in pieces
	silent = 4 // nothing comes, ever
)

type conn struct {
	id     int64
	addr   string
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte // arrived and not read
	out    []byte // written and not yet a message
	closed bool
	broken error
	until  time.Time // of reading
	timer  *time.Timer
}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func opErr(op, addr string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: simAddr(addr), Err: err}
}

type simAddr string

func (simAddr) Network() string  { return "tcp" }
func (a simAddr) String() string { return string(a) }

func dial(ctx context.Context, network, addr string) (net.Conn, error) {
	rc, id, _ := simapp.Call(opDial, 0, 0, 0, addr, nil)
	delay := time.Duration(id>>32) * time.Millisecond
	id &= 0xffffffff
	if delay > 0 {
		t := time.NewTimer(delay)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			return nil, opErr("dial", addr, ctx.Err())
		}
	}
	if rc != 0 {
		return nil, opErr("dial", addr, syscall.Errno(rc))
	}
	c := &conn{id: id, addr: addr}
	c.cond = sync.NewCond(&c.mu)
	return c, nil
}

func (c *conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, opErr("write", c.addr, net.ErrClosed)
	}
	if c.broken != nil {
		return 0, opErr("write", c.addr, c.broken)
	}
	c.out = append(c.out, p...)
	for len(c.out) >= 4 {
		n := int(binary.LittleEndian.Uint32(c.out))
		if n < 16 || n > len(c.out) {
			break
		}
		msg := c.out[:n]
		c.out = append([]byte{}, c.out[n:]...)
		rc, ms, rep := simapp.Call(opSend, c.id, 0, 0, "", msg)
		if rc&silent != 0 {
			continue
		}
		time.AfterFunc(time.Duration(ms)*time.Millisecond, func() { c.arrive(rep, rc) })
	}
	return len(p), nil
}

func (c *conn) arrive(b []byte, rc int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if rc&pieces != 0 && len(b) > 1 {
		k := 1 + len(b)/3
		c.in = append(c.in, b[:k]...)
		time.AfterFunc(time.Millisecond, func() { c.arrive(b[k:], rc) })
	} else {
		c.in = append(c.in, b...)
		if rc&reset != 0 {
			c.broken = syscall.ECONNRESET
			if len(b) > 0 {
				c.broken = io.EOF
			}
		}
	}
	c.cond.Broadcast()
}

func (c *conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		switch {
		case c.closed:
			return 0, opErr("read", c.addr, net.ErrClosed)
		case len(c.in) > 0:
			n := copy(p, c.in)
			c.in = c.in[n:]
			return n, nil
		case c.broken == io.EOF:
			return 0, io.EOF
		case c.broken != nil:
			return 0, opErr("read", c.addr, c.broken)
		case !c.until.IsZero() && !time.Now().Before(c.until):
			return 0, opErr("read", c.addr, timeout{})
		}
		c.cond.Wait()
	}
}

func (c *conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("close", c.addr, net.ErrClosed)
	}
	c.closed = true
	simapp.Call(opShut, c.id, 0, 0, "", nil)
	c.cond.Broadcast()
	return nil
}

func (c *conn) LocalAddr() net.Addr  { return simAddr("client:" + strconv.Itoa(int(c.id))) }
func (c *conn) RemoteAddr() net.Addr { return simAddr(c.addr) }

func (c *conn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

func (c *conn) SetWriteDeadline(time.Time) error { return nil }

func (c *conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.until = t
	if c.timer != nil {
		c.timer.Stop()
	}
	if !t.IsZero() {
		c.timer = time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
	c.cond.Broadcast()
	return nil
}

// Main runs a program's main function.
func Main(f func()) {
	if os.Getenv("VSIM_APP") == "" {
		f()
		return
	}
	time.SimNow = nil // the bubble has a clock of its own
	seed, _ := strconv.ParseUint(os.Getenv("VSIM_SEED"), 10, 64)
	runtime.SimSeed(seed)
	synctest.SimRun(func() {
		net.SimDial = dial
		time.AfterFunc(24*time.Hour, func() {
			buf := make([]byte, 1<<16)
			simapp.Call(opHang, 0, 0, 0, "", buf[:runtime.Stack(buf, true)])
			fmt.Fprintln(os.Stderr, "SIMAPP does not end")
			syscall.Exit(95)
		})
		f()
		os.Exit(0)
	})
}
