// Package simserve lets simulated clients call the handler of a server.
package simserve

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"syscall"
	"time"

	"vsim.local/simapp"
	"vsim.local/simrt"
	"vsim.local/simrt/simcontext"
)

// request is one call of a client.
type request struct {
	Path  string
	Query string // of the parameter "query"
	Raw   string // a raw query string instead
	Drop  int    // the client goes away after so many bytes of the answer, if > 0
}

type load struct {
	Tasks [][]request
	Seed  uint64
	Mean  int64
	Sync  int
	Op    int
}

var current []int32 // the request each task is at

type recorder struct {
	h    http.Header
	buf  bytes.Buffer
	code int
	drop int
	gone func()
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(p []byte) (int, error) {
	r.WriteHeader(200)
	if r.drop > 0 && r.buf.Len()+len(p) > r.drop {
		n := max(r.drop-r.buf.Len(), 0)
		r.buf.Write(p[:n])
		r.gone()
		return n, fmt.Errorf("the client is gone")
	}
	return r.buf.Write(p)
}

// serve stands in for listening: the simulator's clients call the handler.
func serve(srv *http.Server) error {
	h := srv.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	for {
		rc, _, rep := simapp.Call(simapp.OpServe, int64(goroutines()), 0, 0, srv.Addr, nil)
		if rc != 0 {
			return &net.OpError{Op: "listen", Net: "tcp", Err: syscall.Errno(rc)}
		}
		var l load
		if err := json.Unmarshal(rep, &l); err != nil {
			simapp.Fatal("bad load: " + err.Error())
		}
		if len(l.Tasks) == 0 {
			os.Exit(0)
		}
		current = make([]int32, len(l.Tasks))
		var bodies []func()
		for t := range l.Tasks {
			t := t
			bodies = append(bodies, func() {
				simrt.SetTag(int32(t) + 1) // and all its goroutines
				for i, q := range l.Tasks[t] {
					setAt(t, i)
					one(h, t, i, q)
					simrt.OpPoint()
				}
			})
		}
		res := simrt.Sub(simrt.Config{Seed: l.Seed, Mean: l.Mean, SyncPct: l.Sync, OpPct: l.Op, MaxSteps: 50_000_000}, bodies)
		st, _ := json.Marshal(res)
		simapp.Call(simapp.OpDone, 0, 0, 0, "", st)
	}
}

// goroutines counts them once those that are ending have ended.
func goroutines() int {
	n := runtime.NumGoroutine()
	for i, same := 0, 0; i < 400 && same < 8; i++ {
		time.Sleep(250 * time.Microsecond)
		if k := runtime.NumGoroutine(); k == n {
			same++
		} else {
			n, same = k, 0
		}
	}
	return n
}

func one(h http.Handler, t, i int, q request) {
	ctx, cancel := simcontext.WithCancel(context.Background())
	rec := &recorder{h: http.Header{}, drop: q.Drop, gone: cancel}
	u := &url.URL{Path: q.Path, RawQuery: q.Raw}
	if q.Raw == "" {
		u.RawQuery = url.Values{"query": {q.Query}}.Encode()
	}
	req := (&http.Request{Method: "GET", URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody, Host: "localhost:8080", RequestURI: u.RequestURI(), RemoteAddr: "127.0.0.1:1"})
	func() {
		defer func() {
			if e := recover(); e != nil { // as net/http does
				rec.code = -1
				rec.buf.WriteString(fmt.Sprintf("panic: %v", e))
			}
		}()
		h.ServeHTTP(rec, req.WithContext(ctx))
	}()
	cancel() // as net/http does
	simapp.Call(simapp.OpReply, int64(t), int64(i), int64(rec.code), "", rec.buf.Bytes())
}

//go:norace
func at() (int32, int32) {
	t := simrt.Tag() - 1
	if t >= 0 && int(t) < len(current) {
		return t, current[t]
	}
	return -1, 0
}

//go:norace
func setAt(t, i int) { current[t] = int32(i) }

func init() {
	if os.Getenv("VSIM_APP") == "" {
		return
	}
	simapp.Task = at
	http.SimServe = serve
	net.SimListen = true
}
