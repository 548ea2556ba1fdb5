package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vsim.local/simrt"
	"vsim.local/simrt/plan"
)

// appSim runs whole programs of the repository as the processes of one
// simulated machine. Every program waits for the simulator before each
// operation on storage, on its standard output and on its clock, so exactly
// one of them runs at any time and the plan's seed decides which, what each
// operation yields and where the machine stops.
type appSim struct {
	target string
	bin    string // directory of the programs
	sbin   string // directory of the servers
	mu     sync.Mutex
	refs   map[string]*appRef
}

// appRef is what one invocation does alone on one disk.
type appRef struct {
	once   sync.Once
	exit   int
	out    string
	stderr string
	check  sync.Once
	wrong  string
	counts map[string]int
	disk   image
	err    string
}

const (
	aHello = 1
	aOut   = 2
	aServe = 3
	aReply = 4
	aDone  = 5

	aOpen     = 10
	aClose    = 11
	aRead     = 12
	aWrite    = 13
	aTrunc    = 14
	aSync     = 15
	aSize     = 16
	aLock     = 17
	aUnlock   = 18
	aReserved = 19
	aDelete   = 20
	aAccess   = 21
	aSleep    = 22
	aRandom   = 23

	aDial = 30
	aSend = 31
	aShut = 32
	aHang = 33
)

var aNames = map[int]string{aHello: "start", aOut: "out", aServe: "serve", aReply: "answer", aDone: "done", aOpen: "open", aClose: "close", aRead: "read", aWrite: "write", aTrunc: "truncate", aSync: "sync", aSize: "size", aLock: "lock", aUnlock: "unlock", aReserved: "reserved?", aDelete: "delete", aAccess: "access", aSleep: "sleep", aRandom: "random", aDial: "dial", aSend: "send", aShut: "shut", aHang: "hang"}

// aClass groups operations for faults.
func aClass(op int) string {
	switch op {
	case aOut:
		return "out"
	case aOpen, aRead, aWrite, aTrunc, aSync, aSize, aLock, aDelete, aAccess:
		return aNames[op]
	case aClose, aUnlock, aReserved, aShut:
		return "quiet" // counted for crashes, never failed
	case aDial:
		return "dial"
	case aSend:
		return "net"
	}
	return ""
}

type request struct {
	op      int
	a, b, c int64
	name    string
	data    []byte
	task    int
	n       int
}

type fault struct {
	kind  string
	class string
	at    int // the at-th operation of the class, from 1
	span  int // how many; 0: all from there on
	seen  int
	mode  int
}

type proc struct {
	id      int
	task    int // -1: server
	opi     int
	op      plan.Op
	args    []string
	cmd     *exec.Cmd
	in      *os.File
	out     *os.File
	stdout  bytes.Buffer
	stray   bytes.Buffer
	stderr  bytes.Buffer
	pend    *request
	wakeAt  int64
	faults  []*fault
	counts  map[string]int
	fired   []string // faults that fired, not harmless
	started int64
	ended   int64
	dead    bool
	killed  bool
	exit    int
	sig     syscall.Signal
	done    chan struct{}
	server  bool
	told    bool
	ops     int64

	listening bool
}

// event is one thing a client or an operator did, for the history.
type event struct {
	ep, task, opi int
	pid           int
	op            plan.Op
	start, end    int64
	exit          int
	out, stderr   string
	sig           syscall.Signal
	killed        bool
	fired         []string
	get           bool
	listened      bool
	status        int64
}

type machine struct {
	a         *appSim
	p         *plan.Plan
	d         *disk
	r         *prng
	now       int64
	step      int64
	procs     []*proc
	live      map[int]*proc // by task; -1 the server
	hash      uint64
	trace     []string
	events    []event
	power     []int64
	rep       *plan.Report
	ep        int
	current   int // task that ran last
	server    *proc
	handles   []int64 // of the server, whenever it waits for work
	routine   []int64
	viol      []plan.Violation
	mongo     *mongod
	gets      map[[2]int]*getState
	getCounts map[string]int
	stalls    [][2]int64 // episodes and steps in which the disk stood still for seconds
}

type getState struct {
	start  int64
	faults []*fault
	fired  []string
	counts map[string]int
}

func (m *machine) mix(parts ...interface{}) {
	for _, x := range parts {
		s := fmt.Sprint(x)
		for i := 0; i < len(s); i++ {
			m.hash = (m.hash ^ uint64(s[i])) * 0x100000001b3
		}
		m.hash = (m.hash ^ 0xff) * 0x100000001b3
	}
}

func (m *machine) log(format string, a ...interface{}) {
	if debugApps {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
	if m.p.Trace && len(m.trace) < 4000 {
		m.trace = append(m.trace, fmt.Sprintf(format, a...))
	}
}

func (m *machine) violate(class string, e *event, format string, a ...interface{}) {
	v := plan.Violation{Class: class, Msg: fmt.Sprintf(format, a...), Episode: m.ep}
	if e != nil {
		v.Episode, v.Task, v.Op = e.ep, e.task, e.opi
	}
	m.viol = append(m.viol, v)
}

var debugApps = os.Getenv("VSIM_TRACE") != ""

type simError struct{ msg string }

func simFail(format string, a ...interface{}) { panic(simError{fmt.Sprintf(format, a...)}) }

// argsOf says how a program is called for an operation of a plan.
func (a *appSim) argsOf(p *plan.Plan, op plan.Op) []string {
	text := ""
	if len(p.Texts) > 0 {
		text = p.Texts[op.T%len(p.Texts)]
	}
	f := strings.Split(op.K, ".")
	switch f[0] {
	case "load", "read":
		args := []string{"tsl_" + f[1], "-f", "./books.db", "-i", text}
		if f[0] == "load" {
			args = append(args, "-p")
		}
		return args
	case "serve":
		args := []string{"tsl_graphql", "-f", "./books.db"}
		if op.A == 1 {
			args = append(args, "-p")
		}
		return args
	case "cli":
		args := []string{f[1]}
		if f[1] == "tsl" {
			return append(args, text)
		}
		args = append(args, "-i", text)
		if formats := cliFormats(a.target, f[1]); len(formats) > 0 {
			args = append(args, "-o", formats[op.A%len(formats)])
		}
		return args
	case "mongo":
		args := append([]string{"tsl_mongo", "-i", text}, mongoSpaces[op.A%len(mongoSpaces)].args...)
		if f[1] == "load" {
			args = append(args, "-p")
		}
		return args
	case "books":
		return []string{"tsl_mem", "-i", "title is not null", "-o", "json"}
	case "age":
		return []string{"hsql", "./books.db", "age", fmt.Sprint(op.A)}
	case "fsck":
		return []string{"hsql", "./books.db", "check"}
	}
	simFail("unknown operation %q", op.K)
	return nil
}

func cliFormats(target, app string) []string {
	switch app {
	case "tsl_parser":
		if target == "v6" {
			return []string{"json", "yaml", "sql", "dot", "bogus"}
		}
		return []string{"json", "prettyjson", "yaml", "sql", "dot", "bogus"}
	case "tsl_mem":
		if target == "v6" {
			return []string{"json", "yaml", "bogus"}
		}
		return []string{"json", "prettyjson", "yaml", "bogus"}
	}
	return nil
}

// start spawns a program and waits for its first operation.
func (m *machine) start(task, opi int, op plan.Op, faults []*fault) *proc {
	p := &proc{id: len(m.procs), task: task, opi: opi, op: op, args: m.a.argsOf(m.p, op), counts: map[string]int{}, faults: faults, started: m.step, done: make(chan struct{}), server: task == -1}
	m.procs = append(m.procs, p)
	dir := m.a.bin
	if p.server {
		dir = m.a.sbin
	}
	p.cmd = exec.Command(filepath.Join(dir, p.args[0]), p.args[1:]...)
	p.cmd.Env = []string{"VSIM_APP=1", "GOGC=off", "GOMAXPROCS=3", "HOME=/nonexistent", "GOTRACEBACK=single", "GORACE=atexit_sleep_ms=0"}
	o := newPrng("tasks", m.p.Seed, m.ep, p.id)
	p.cmd.Env = append(p.cmd.Env, fmt.Sprintf("VSIM_SCHED=%d %d %d", o.u64()>>1, o.pickInt(5, 30, 200, 1000), o.pickInt(0, 10, 40)))
	p.cmd.Dir = "/"
	for k, v := range m.p.Env {
		p.cmd.Env = append(p.cmd.Env, k+"="+v)
	}
	if p.args[0] == "tsl_mongo" {
		p.cmd.Env = append(p.cmd.Env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", fmt.Sprintf("VSIM_SEED=%d", newPrng("order", m.p.Seed, m.ep, p.id).u64()>>1))
	}
	r1, w1, err := os.Pipe()
	if err != nil {
		simFail("%v", err)
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		simFail("%v", err)
	}
	p.cmd.ExtraFiles = []*os.File{r1, w2}
	p.cmd.Stdout, p.cmd.Stderr = &p.stray, &p.stderr
	if err := p.cmd.Start(); err != nil {
		simFail("%v", err)
	}
	r1.Close()
	w2.Close()
	p.in, p.out = w1, r2
	m.live[task] = p
	m.mix("start", task, opi, strings.Join(p.args, " "))
	m.log("%6d %s starts: %s", m.step, m.who(p), strings.Join(p.args, " "))
	m.next(p)
	return p
}

func (m *machine) who(p *proc) string {
	if p.server {
		return "server"
	}
	return fmt.Sprintf("%s[%d.%d]", p.args[0], p.task, p.opi)
}

// next waits until the running program makes its next operation or ends.
func (m *machine) next(p *proc) {
	p.pend = nil
	var hdr [48]byte
	p.out.SetReadDeadline(time.Now().Add(60 * time.Second))
	if _, err := io.ReadFull(p.out, hdr[:]); err != nil {
		if os.IsTimeout(err) {
			p.cmd.Process.Kill()
			p.cmd.Wait()
			simFail("%s made no operation for 60 s", m.who(p))
		}
		m.ended(p)
		return
	}
	q := &request{op: int(binary.LittleEndian.Uint32(hdr[0:])), a: int64(binary.LittleEndian.Uint64(hdr[4:])), b: int64(binary.LittleEndian.Uint64(hdr[12:])), c: int64(binary.LittleEndian.Uint64(hdr[20:]))}
	name := make([]byte, binary.LittleEndian.Uint32(hdr[28:]))
	q.data = make([]byte, binary.LittleEndian.Uint32(hdr[32:]))
	q.task, q.n = int(int32(binary.LittleEndian.Uint32(hdr[36:]))), int(int32(binary.LittleEndian.Uint32(hdr[40:])))
	if _, err := io.ReadFull(p.out, name); err == nil {
		_, err = io.ReadFull(p.out, q.data)
		if err != nil {
			m.ended(p)
			return
		}
	}
	q.name = string(name)
	if q.op == aSend {
		q.name = cmdName(q.data)
	}
	p.pend = q
}

func (m *machine) ended(p *proc) {
	err := p.cmd.Wait()
	p.in.Close()
	p.out.Close()
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			p.sig, p.exit = ws.Signal(), 128+int(ws.Signal())
		} else {
			p.exit = ws.ExitStatus()
		}
	} else if err != nil {
		simFail("%s: %v", m.who(p), err)
	}
	p.dead = true
	p.ended = m.step
	m.d.drop(p.id)
	delete(m.live, p.task)
	if p.server {
		m.server = nil
	}
	if p.server && p.told && p.exit == 0 {
		return
	}
	if p.exit == 97 || p.exit == 96 && !p.killed {
		simFail("%s: %s", m.who(p), clipStr(p.stderr.String(), 6000))
	}
	if p.stray.Len() > 0 && !p.killed {
		simFail("%s wrote past the simulator: %q", m.who(p), clipStr(p.stray.String(), 200))
	}
	m.mix("end", p.task, p.opi, p.exit, p.stdout.String())
	m.log("%6d %s ends: exit %d, %d bytes written, says %q", m.step, m.who(p), p.exit, p.stdout.Len(), clipStr(strings.TrimSpace(p.stderr.String()), 200))
	m.events = append(m.events, event{ep: m.ep, task: p.task, opi: p.opi, pid: p.id, op: p.op, start: p.started, end: m.step, exit: p.exit, out: p.stdout.String(), stderr: p.stderr.String(), sig: p.sig, killed: p.killed, fired: p.fired, listened: p.listening})
	m.step++
}

func (m *machine) kill(p *proc) {
	if p.dead {
		return
	}
	p.killed = true
	p.cmd.Process.Kill()
	m.ended(p)
}

func (m *machine) reply(p *proc, rc, val int64, data []byte) {
	var rep [28]byte
	binary.LittleEndian.PutUint64(rep[0:], uint64(rc))
	binary.LittleEndian.PutUint64(rep[8:], uint64(val))
	binary.LittleEndian.PutUint64(rep[16:], uint64(simEpoch+m.now))
	binary.LittleEndian.PutUint32(rep[24:], uint32(len(data)))
	if _, err := p.in.Write(append(rep[:], data...)); err != nil {
		m.ended(p)
		return
	}
	m.next(p)
}

const aWait = 1 << 20 // the answer of an output that blocks

const simEpoch = int64(1_704_067_200_000_000_000)

// fire looks for a fault that hits this operation.
func (m *machine) fire(p *proc, q *request) *fault {
	class := aClass(q.op)
	if class == "" {
		return nil
	}
	sub := class
	if class == "net" {
		sub = q.name
		if sub == "ismaster" || sub == "hello" {
			class, sub = "hello", "hello"
		}
	}
	list, counts := p.faults, p.counts
	var g *getState
	if p.server && q.task >= 0 {
		g = m.gets[[2]int{q.task, q.n}]
		if g == nil {
			g = &getState{start: m.step, counts: map[string]int{}}
			m.gets[[2]int{q.task, q.n}] = g
			if t := m.getTasks()[q.task]; q.n < len(t) {
				op := t[q.n]
				g.faults = m.faultsOf(op)
			}
		}
		list, counts = g.faults, g.counts
	}
	counts[class]++
	counts["any"]++
	var hit *fault
	for _, f := range list {
		if f.class != class && f.class != sub && f.class != "any" {
			continue
		}
		if f.class == "any" && class == "out" || class == "quiet" && !strings.HasPrefix(f.kind, "kill") && f.kind != "power" {
			continue
		}
		f.seen++
		if hit == nil && f.seen >= f.at && (f.span == 0 || f.seen < f.at+f.span) {
			hit = f
		}
	}
	if hit != nil && !applies(hit.kind, class) {
		return nil
	}
	if hit != nil {
		m.rep.Faults[hit.kind+":"+class]++
		if !harmless(hit.kind) {
			if g != nil {
				g.fired = append(g.fired, hit.kind)
			} else {
				p.fired = append(p.fired, hit.kind)
			}
		}
	}
	return hit
}

func applies(kind, class string) bool {
	switch kind {
	case "enospc":
		return class == "write" || class == "out" || class == "sync"
	case "busy":
		return class == "lock"
	case "short", "eintr", "eagain", "epipe":
		return class == "out"
	case "kill-torn":
		return class == "write" || class == "out"
	}
	return true
}

// harmless faults are those a program must not even notice.
func harmless(kind string) bool {
	switch kind {
	case "short", "eintr", "slow", "lag", "pieces", "slowdial":
		return true
	}
	return false
}

// do carries out the operation a program waits for.
func (m *machine) do(p *proc) {
	q := p.pend
	m.step++
	p.ops++
	m.rep.Steps++
	m.now += 20_000
	if p.ops > 400_000 {
		m.violate("stuck", nil, "%s made 400000 operations and does not end", m.who(p))
		m.kill(p)
		return
	}
	f := m.fire(p, q)
	if f != nil {
		m.log("%6d %s %s %s: FAULT %s", m.step, m.who(p), aNames[q.op], q.name, f.kind)
		m.mix("fault", f.kind)
		switch f.kind {
		case "kill-before":
			m.kill(p)
			return
		case "kill-torn":
			q2 := *q
			k := m.r.n(len(q.data) + 1)
			q2.data = q.data[:k]
			if q.op == aWrite {
				if h := m.d.handles[q.a]; h != nil {
					m.d.write(h, q.b, q2.data)
				}
			} else {
				p.stdout.Write(q2.data)
			}
			m.kill(p)
			return
		case "kill-after":
			m.perform(p, q)
			m.kill(p)
			return
		case "power":
			m.powerOff(f.mode)
			return
		case "slow":
			d := []int64{20_000_000, 3_000_000_000, 40_000_000_000, 1_200_000_000_000}[m.r.n(4)]
			if q.op != aOut {
				m.now += d
				if d >= 3_000_000_000 {
					m.stalls = append(m.stalls, [2]int64{int64(m.ep), m.step})
				}
			} else if q.b == 0 {
				m.reply(p, aWait, d, nil)
				return
			}
		case "busy":
			m.reply(p, sqlBusy, 0, nil)
			return
		case "short":
			n := m.r.n(max(len(q.data), 1))
			if n == 0 && len(q.data) > 0 {
				n = 1
			}
			p.stdout.Write(q.data[:n])
			m.reply(p, 0, int64(n), nil)
			return
		case "eintr":
			m.reply(p, int64(syscall.EINTR), 0, nil)
			return
		case "eagain":
			if len(q.data) > 0 {
				m.reply(p, int64(syscall.EAGAIN), 0, nil)
				return
			}
		case "epipe":
			if len(q.data) > 0 { // nobody is told when nothing is written
				m.reply(p, int64(syscall.EPIPE), 0, nil)
				return
			}
		case "enospc", "eio":
			if q.op != aOut || len(q.data) > 0 {
				m.fail(p, q, f)
				return
			}
		}
	}
	if q.op == aDial || q.op == aSend {
		var rc, val int64
		var data []byte
		if q.op == aDial {
			rc, val = m.mongo.dial(p, f)
		} else {
			rc, val, data = m.mongo.send(p, q, f)
		}
		m.mix(p.task, q.op, q.a, q.name, len(q.data), rc, val, len(data))
		m.log("%6d %s %s %s a=%d -> %d %d %d", m.step, m.who(p), aNames[q.op], q.name, q.a, rc, val, len(data))
		m.reply(p, rc, val, data)
		return
	}
	rc, val, data := m.perform(p, q)
	m.mix(p.task, q.op, q.a, q.b, q.name, rc, val, len(data))
	if m.p.Trace || debugApps {
		m.log("%6d %s %s %s a=%d b=%d -> %d %d", m.step, m.who(p), aNames[q.op], q.name, q.a, q.b, rc, val)
	}
	if p.dead || p.pend != q {
		return
	}
	m.reply(p, rc, val, data)
}

func (m *machine) fail(p *proc, q *request, f *fault) {
	if q.op == aOut {
		e := syscall.EIO
		if f.kind == "enospc" {
			e = syscall.ENOSPC
			if len(q.data) > 1 && m.r.chance(50) { // some of it still fits
				n := m.r.n(len(q.data))
				if n > 0 {
					p.stdout.Write(q.data[:n])
					f.at, f.span = f.seen+1, 0 // and then nothing does
					m.reply(p, 0, int64(n), nil)
					return
				}
			}
		}
		m.reply(p, int64(e), 0, nil)
		return
	}
	code := int64(sqlIOErr)
	switch {
	case f.kind == "enospc" && q.op == aWrite:
		code = sqlFull
		if len(q.data) > 1 && m.r.chance(50) {
			if h := m.d.handles[q.a]; h != nil {
				m.d.write(h, q.b, q.data[:m.r.n(len(q.data))])
			}
		}
	case q.op == aRead:
		code = 266
	case q.op == aWrite:
		code = 778
		if m.r.chance(30) {
			if h := m.d.handles[q.a]; h != nil {
				m.d.write(h, q.b, q.data[:m.r.n(len(q.data)+1)])
			}
		}
	case q.op == aSync:
		code = 1034
	case q.op == aTrunc:
		code = 1546
	case q.op == aSize:
		code = 1802
	case q.op == aLock:
		code = 3850
	case q.op == aDelete:
		code = 2570
	case q.op == aAccess:
		code = 3338
	case q.op == aOpen:
		code = sqlCantOpen
	}
	m.reply(p, code, 0, nil)
}

// perform is the disk at work.
func (m *machine) perform(p *proc, q *request) (int64, int64, []byte) {
	d := m.d
	h := d.handles[q.a]
	if h == nil {
		switch q.op {
		case aRead, aWrite, aTrunc, aSync, aSize, aLock, aUnlock, aReserved:
			m.violate("bad-handle", nil, "%s uses a file it does not have open", m.who(p))
			return sqlIOErr, 0, nil
		}
	}
	switch q.op {
	case aHello:
		return 0, 0, nil
	case aOut:
		p.stdout.Write(q.data)
		return 0, int64(len(q.data)), nil
	case aOpen:
		rc, id := d.open(p.id, q.name, q.b)
		return rc, id, nil
	case aClose:
		d.close(q.a)
	case aRead:
		b, rc := d.read(h, q.b, q.c)
		return rc, 0, b
	case aWrite:
		d.write(h, q.b, q.data)
	case aTrunc:
		d.truncate(h, q.b)
	case aSync:
		d.sync(h)
	case aSize:
		return 0, int64(len(h.ino.cur)), nil
	case aLock:
		return d.lock(h, int(q.b)), 0, nil
	case aUnlock:
		d.unlock(h, int(q.b))
	case aReserved:
		return 0, d.reserved(h), nil
	case aDelete:
		if !d.remove(q.name, q.b != 0) {
			return 5898, 0, nil // IOERR_DELETE_NOENT
		}
	case aAccess:
		if _, ok := d.names[q.name]; ok {
			return 0, 1, nil
		}
	case aSleep:
		p.wakeAt = m.now + q.b*1000
		m.rep.Blocked++
	case aRandom:
		b := make([]byte, q.b)
		for i := range b {
			b[i] = byte(m.r.n(256))
		}
		return 0, 0, b
	case aDial:
		rc, val := m.mongo.dial(p, nil)
		return rc, val, nil
	case aSend:
		return m.mongo.send(p, q, nil)
	case aShut:
		if c := m.mongo.conns[q.a]; c != nil {
			c.dead = true
		}
	case aHang:
		m.violate("hang", nil, "%s waits for ever: %s", m.who(p), clipStr(string(q.data), 1500))
	case aReply:
		m.answer(p, q)
	case aDone:
		if q.a == 1 {
			m.violate(q.name, nil, "%s", string(q.data))
			return 0, 0, nil
		}
		var res simrt.Result
		json.Unmarshal(q.data, &res)
		m.mix(res.Hash)
		m.rep.Steps += res.Steps
		m.rep.SchedHash = append(m.rep.SchedHash, res.Hash)
		for _, x := range res.Decisions {
			if m.p.Trace {
				m.log("  decision %+v", x)
			}
			m.rep.Switches++
			if x.Kind == 0 {
				m.rep.Preempts++
			}
		}
	default:
		simFail("unknown operation %d", q.op)
	}
	return 0, 0, nil
}

func (m *machine) powerOff(mode int) {
	m.log("%6d POWER LOST (mode %d)", m.step, mode)
	m.power = append(m.power, m.step)
	var ts []int
	for t := range m.live {
		ts = append(ts, t)
	}
	sort.Ints(ts)
	for _, t := range ts {
		m.kill(m.live[t])
	}
	m.d.crash(m.r, mode)
	m.step++
}

// faultsOf reads the faults an operation carries: "kind:class", with the
// position drawn from N among the operations the call makes when it is alone.
func (m *machine) faultsOf(op plan.Op) (out []*fault) {
	if op.F == "" {
		return nil
	}
	n := op.N
	var ref *appRef
	if !strings.HasPrefix(op.K, "mongo.") {
		ref = m.a.ref(m.p, op)
	}
	for i, s := range strings.Fields(op.F) {
		f := strings.Split(s, ":")
		if len(f) < 2 {
			continue
		}
		class := strings.TrimSuffix(f[1], "~")
		x := &fault{kind: f[0], class: class, span: 1, mode: op.S}
		if op.D == 1 {
			x.span = 0
		} else if op.D > 1 {
			x.span = op.D
		}
		if x.kind == "eintr" && x.span == 0 {
			x.span = 3
		}
		c := 1
		if ref != nil {
			c = max(ref.counts[x.class], 1)
		} else if c = mongoPlaces[x.class]; c == 0 {
			c = 1
		}
		x.at = (n>>(8*i))%c + 1
		if class != f[1] {
			x.at = c - n%min(c, 4)
		}
		out = append(out, x)
	}
	return
}

func (m *machine) getTasks() [][]plan.Op {
	var out [][]plan.Op
	if m.ep >= len(m.p.Episodes) {
		return nil
	}
	for _, t := range m.p.Episodes[m.ep].Tasks {
		if len(t) > 0 && t[0].K == "get" {
			out = append(out, t)
		}
	}
	return out
}

// run executes the plan on a disk and leaves the history behind.
func (m *machine) run() {
	for e := range m.p.Episodes {
		m.ep = e
		ep := &m.p.Episodes[e]
		for k := 0; k < max(ep.Repeat, 1); k++ {
			m.episode(ep)
		}
	}
	if m.server != nil {
		m.idle(m.server)
		if m.server != nil && m.server.pend != nil && m.server.pend.op == aServe {
			m.sample(m.server)
			m.server.told = true
			m.reply(m.server, 0, 0, []byte("{}"))
		}
		if m.server != nil && !m.server.dead {
			m.kill(m.server)
		}
	}
}

// sample notes what the idle server holds.
func (m *machine) sample(p *proc) {
	m.handles = append(m.handles, int64(m.d.open4(p.id)))
	m.routine = append(m.routine, p.pend.a)
}

// idle lets a program run until it waits for work or ends.
func (m *machine) idle(p *proc) {
	for !p.dead && p.pend != nil && p.pend.op != aServe {
		if p.wakeAt > m.now {
			m.now = p.wakeAt
		}
		m.do(p)
	}
	if !p.dead && p.pend != nil {
		if p.op.F == "inuse:serve" && !p.listening {
			p.fired = append(p.fired, "inuse")
			m.rep.Faults["inuse:serve"]++
			m.reply(p, int64(syscall.EADDRINUSE), 0, nil)
			p.op.F = ""
			m.idle(p)
			return
		}
		m.serve(p)
	}
}

// serve is the moment a server starts to listen.
func (m *machine) serve(p *proc) {
	if !p.listening {
		p.listening = true
		if p.op.A == 1 {
			m.events = append(m.events, event{ep: m.ep, task: -1, op: p.op, start: p.started, end: m.step})
		}
		m.log("%6d %s listens", m.step, m.who(p))
	}
}

func (m *machine) episode(ep *plan.Episode) {
	m.r = newPrng("episode", m.p.Seed, m.ep, ep.Sched.Seed)
	var tasks [][]plan.Op
	for _, t := range ep.Tasks {
		if len(t) > 0 && t[0].K != "get" {
			tasks = append(tasks, t)
		}
	}
	pos := make([]int, len(tasks))
	gets := m.getTasks()
	if len(gets) > 0 {
		m.gets = map[[2]int]*getState{}
		if m.server == nil {
			var so plan.Op
			if len(ep.Setup) > 0 {
				so = ep.Setup[0]
			} else {
				so = plan.Op{K: "serve"}
			}
			if p := m.start(-1, 0, so, m.faultsOf(so)); !p.dead {
				m.server = p
				m.idle(p)
			}
		}
		if m.server != nil && !m.server.dead {
			m.sample(m.server)
			type rq struct {
				Path, Query, Raw string
				Drop             int
			}
			var l struct {
				Tasks [][]rq
				Seed  uint64
				Mean  int64
				Sync  int
				Op    int
			}
			for _, t := range gets {
				var rs []rq
				for _, o := range t {
					r := rq{Path: "/graphql", Query: m.a.query(m.p, o)}
					if r.Query == "" {
						r.Raw = "variables=x"
					}
					if o.F == "drop" {
						r.Drop = o.N%40 + 1
					}
					rs = append(rs, r)
				}
				l.Tasks = append(l.Tasks, rs)
			}
			l.Seed, l.Mean, l.Sync, l.Op = ep.Sched.Seed, ep.Sched.Mean, ep.Sched.SyncPct, ep.Sched.OpPct
			b, _ := json.Marshal(l)
			m.reply(m.server, 0, 0, b)
		}
	}
	burst := 0
	for {
		// who could go on
		var ready []int
		var soonest int64 = -1
		sleeping := false
		add := func(t int, p *proc) {
			if p != nil && p.wakeAt > m.now {
				sleeping = true
				if soonest < 0 || p.wakeAt < soonest {
					soonest = p.wakeAt
				}
				return
			}
			ready = append(ready, t)
		}
		if m.server != nil && len(gets) > 0 && m.server.pend != nil && m.server.pend.op != aServe {
			add(-1, m.server)
		}
		for t := range tasks {
			if p := m.live[t]; p != nil {
				add(t, p)
			} else if pos[t] < len(tasks[t]) {
				ready = append(ready, t)
			}
		}
		if len(ready) == 0 {
			if !sleeping {
				break
			}
			m.now = soonest
			continue
		}
		t := ready[0]
		found := false
		if burst > 0 {
			for _, x := range ready {
				if x == m.current {
					t, found = x, true
				}
			}
		}
		if !found {
			t = ready[m.r.n(len(ready))]
			if t != m.current {
				m.rep.Switches++
				if len(ready) > 1 {
					m.rep.Preempts++
				}
			}
			m.current = t
			burst = 1
			for ep.Sched.Mean > 0 && burst < 1000 && m.r.n(int(ep.Sched.Mean)+1) != 0 {
				burst++
			}
			if ep.Sched.Mean == 0 {
				burst = 1 << 30
			}
			m.mix("sched", t, burst)
		}
		burst--
		if t >= 0 && m.live[t] == nil {
			op := tasks[t][pos[t]]
			m.start(t, pos[t], op, m.faultsOf(op))
			pos[t]++
			m.rep.Ops++
			continue
		}
		m.do(m.live[t])
	}
	if len(gets) > 0 && m.server != nil {
		m.idle(m.server)
	}
}

func (m *machine) answer(p *proc, q *request) {
	t, n := int(q.a), int(q.b)
	g := m.gets[[2]int{t, n}]
	if g == nil {
		g = &getState{start: m.step, counts: map[string]int{}}
	}
	gt := m.getTasks()
	var op plan.Op
	if t < len(gt) && n < len(gt[t]) {
		op = gt[t][n]
	}
	m.rep.Ops++
	m.mix("answer", t, n, q.c, string(q.data))
	m.log("%6d answer to %d.%d: %d %q", m.step, t, n, q.c, clipStr(string(q.data), 160))
	m.events = append(m.events, event{ep: m.ep, task: t, opi: n, op: op, start: g.start, end: m.step, get: true, status: q.c, out: string(q.data), fired: g.fired})
	m.getCounts = g.counts
}
