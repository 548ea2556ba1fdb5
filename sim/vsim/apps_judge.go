package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"vsim.local/simrt/plan"
)

func newAppSim(b *builder, target string, apps, servers []string, race bool) (*appSim, error) {
	a := &appSim{target: target, refs: map[string]*appRef{}}
	var wg sync.WaitGroup
	var e1, e2 error
	if len(apps) > 0 {
		wg.Add(1)
		go func() { defer wg.Done(); a.bin, e1 = b.buildApps(target, apps, false, false) }()
	}
	if len(servers) > 0 {
		wg.Add(1)
		go func() { defer wg.Done(); a.sbin, e2 = b.buildApps(target, servers, true, race) }()
	}
	wg.Wait()
	if e1 == nil {
		e1 = e2
	}
	return a, e1
}

func (a *appSim) query(p *plan.Plan, op plan.Op) string {
	return graphqlQuery(p.Texts[op.T%len(p.Texts)], op.A)
}

func graphqlQuery(filter string, a int) string {
	q, _ := json.Marshal(filter)
	fields := []string{"title,author,spec{pages,rating}", "title", "author,spec{pages}"}
	switch a {
	case 3, 4: // two lists in one request
		return fmt.Sprintf("{first:books(filter:%s){%s} books(filter:\"title is not null\"){title}}", q, fields[a%2])
	case 5:
		return fmt.Sprintf("{books(filter:%s){", q) // broken off
	case 6:
		return "{books{title}}" // no filter
	case 7:
		return ""
	case 8:
		return fmt.Sprintf("{books(filter:%s){title,isbn}}", q)
	}
	return fmt.Sprintf("{books(filter:%s){%s}}", q, fields[a%len(fields)])
}

// imageOf names the disk a plan starts from.
func imageOf(p *plan.Plan) string {
	if p.Opts["image"] == "" {
		return "none"
	}
	return p.Opts["app"] + "/" + p.Opts["image"]
}

func (a *appSim) diskOf(key string) (image, error) {
	f := strings.Split(key, "/")
	switch {
	case key == "none" || len(f) == 2 && f[1] == "none":
		return image{}, nil
	case f[len(f)-1] == "N":
		r := a.solo(strings.Join(f[:len(f)-1], "/"), plan.Op{K: "load." + f[0]}, "title is not null")
		if r.err == "" && r.exit != 0 {
			r.err = fmt.Sprintf("preparing the collection alone exits %d: %s", r.exit, r.stderr)
		}
		if r.err != "" {
			return nil, fmt.Errorf("%s", r.err)
		}
		return r.disk, nil
	case strings.HasPrefix(f[1], "old"):
		var n int
		fmt.Sscan(f[1][3:], &n)
		r := a.solo(f[0]+"/none/N", plan.Op{K: "age", A: n}, "")
		if r.err != "" || r.exit != 0 {
			return nil, fmt.Errorf("aging a collection: exit %d %s", r.exit, r.err)
		}
		return r.disk, nil
	}
	return nil, fmt.Errorf("no such disk: %s", key)
}

// solo is an invocation alone, without faults, on a disk.
func (a *appSim) solo(disk string, op plan.Op, text string) *appRef {
	op.F, op.N, op.D, op.S, op.T = "", 0, 0, 0, 0
	key := fmt.Sprint(disk, "|", op.K, "|", op.A, "|", text)
	a.mu.Lock()
	r := a.refs[key]
	if r == nil {
		r = &appRef{}
		a.refs[key] = r
	}
	a.mu.Unlock()
	r.once.Do(func() {
		im, err := a.diskOf(disk)
		if err != nil {
			r.err = err.Error()
			return
		}
		p := &plan.Plan{Target: a.target, Texts: []string{text}, Episodes: []plan.Episode{{Tasks: [][]plan.Op{{op}}}}}
		m := a.machine(p, im)
		if err := m.guarded(); err != "" {
			r.err = err
			return
		}
		r.disk = m.d.save()
		for _, e := range m.events {
			if e.get == (op.K == "get") && e.task >= 0 {
				r.exit, r.out, r.stderr = e.exit, e.out, e.stderr
				if e.get {
					r.exit = int(e.status)
					r.counts = m.getCounts
				}
			}
		}
		if op.K != "get" && len(m.procs) > 0 {
			r.counts = m.procs[0].counts
		}
		if r.counts == nil {
			r.counts = map[string]int{}
		}
		if len(m.viol) > 0 {
			r.err = "alone: " + m.viol[0].Msg
		}
	})
	return r
}

// checked is solo held against the model.
func (a *appSim) checked(disk string, op plan.Op, text string) *appRef {
	r := a.solo(disk, op, text)
	if r.err == "" {
		r.check.Do(func() { r.wrong = a.wrongAlone(disk, op, text, r) })
	}
	return r
}

func (a *appSim) ref(p *plan.Plan, op plan.Op) *appRef {
	if op.K == "serve" {
		if op.A != 1 {
			return nil
		}
		op = plan.Op{K: "load.sqlite"}
		return a.solo(imageOf(p), op, "title is not null")
	}
	text := ""
	if len(p.Texts) > 0 {
		text = p.Texts[op.T%len(p.Texts)]
	}
	return a.checked(imageOf(p), op, text)
}

// refN is the invocation after the collection was prepared.
func (a *appSim) refN(p *plan.Plan, op plan.Op) *appRef {
	text := ""
	if len(p.Texts) > 0 {
		text = p.Texts[op.T%len(p.Texts)]
	}
	return a.checked(imageOf(p)+"/N", op, text)
}

func (a *appSim) machine(p *plan.Plan, im image) *machine {
	m := &machine{a: a, p: p, d: newDisk(), live: map[int]*proc{}, hash: 14695981039346656037, rep: &plan.Report{Faults: map[string]int64{}, Probes: map[string]int64{}}}
	m.d.load(im)
	m.mongo = newMongod(m)
	return m
}

// guarded runs the plan; what the simulator itself cannot do is an error.
func (m *machine) guarded() (errText string) {
	defer func() {
		for _, p := range m.procs {
			if !p.dead && p.cmd != nil && p.cmd.Process != nil {
				p.cmd.Process.Kill()
				p.cmd.Wait()
				p.in.Close()
				p.out.Close()
			}
		}
		if e := recover(); e != nil {
			se, ok := e.(simError)
			if !ok {
				panic(e)
			}
			errText = se.msg
		}
	}()
	m.run()
	return ""
}

func (a *appSim) run(p *plan.Plan) *outcome {
	t0 := time.Now()
	o := &outcome{}
	defer func() { o.wall = time.Since(t0) }()
	im, err := a.diskOf(imageOf(p))
	if err != nil {
		o.class, o.msg = "error", err.Error()
		return o
	}
	m := a.machine(p, im)
	if e := m.guarded(); e != "" {
		o.class, o.msg = "error", e
		return o
	}
	if e := m.judge(); e != "" {
		o.class, o.msg = "error", e
		return o
	}
	r := m.rep
	r.Done = true
	r.SimNanos = m.now
	r.Hash = m.hash
	r.SchedHash = append(r.SchedHash, m.hash)
	r.Trace = m.trace
	r.Violations = m.viol
	r.Probes["processes"] = int64(len(m.procs))
	r.Probes["power-losses"] = int64(len(m.power))
	o.rep = r
	if len(m.viol) > 0 {
		o.class, o.msg = m.viol[0].Class, m.viol[0].Msg
	}
	if os.Getenv("VSIM_TRACE") != "" {
		for _, t := range m.trace {
			fmt.Println(t)
		}
	}
	return o
}

type gqlAnswer struct {
	Data   map[string]json.RawMessage
	Errors []json.RawMessage
}

func graphqlAnswer(out string) (g gqlAnswer, ok bool) {
	err := json.Unmarshal([]byte(out), &g)
	return g, err == nil
}

func overlaps(a, b *event) bool { return a.start < b.end && b.start < a.end }

// judge holds the history against what each invocation does alone before and
// after the collection is prepared.
func (m *machine) judge() string {
	isLoad := func(e *event) bool { return strings.HasPrefix(e.op.K, "load.") || e.op.K == "serve" && e.op.A == 1 }
	crashBetween := func(a, b int64) bool {
		for _, c := range m.power {
			if c >= a && c <= b {
				return true
			}
		}
		return false
	}
	type seen struct {
		end int64
		n   bool
	}
	var reads []seen
	for i := range m.events {
		e := &m.events[i]
		what := strings.Join(m.a.argsOfSafe(m.p, e), " ")
		if e.op.K == "serve" {
			m.judgeServer(e)
			continue
		}
		if strings.HasPrefix(e.op.K, "mongo.") {
			if err := m.judgeMongo(i); err != "" {
				return err
			}
			continue
		}
		if e.op.K == "fsck" {
			if e.exit == 0 && e.out != "ok\n" {
				m.violate("corrupt", e, "the data base is corrupt: %s", clipStr(e.out, 300))
			}
			continue
		}
		o := m.a.ref(m.p, e.op)
		n := o
		if m.p.Opts["image"] != "" {
			n = m.a.refN(m.p, e.op)
		}
		if o.err != "" {
			return o.err
		}
		if n.err != "" {
			return n.err
		}
		for _, r := range []*appRef{o, n} {
			if r.wrong != "" {
				m.violate("wrong-answer", e, "alone and without a fault: %s", r.wrong)
				break
			}
		}
		if isLoad(e) {
			// whatever was there before, preparing ends the same way
			n = o
		}
		same := o.out == n.out && o.exit == n.exit
		// which of the two may be seen
		mayN, mustN := false, false
		if !same && !isLoad(e) {
			for j := range m.events {
				l := &m.events[j]
				if !isLoad(l) || l.start > e.end {
					continue
				}
				if l.exit != 0 && !l.killed && l.op.K != "serve" {
					continue // who fails leaves the old one
				}
				mayN = true
				if l.exit == 0 && !l.killed && l.end <= e.start && !crashBetween(l.end, e.start) {
					mustN = true
				}
			}
			for _, s := range reads {
				if s.n && s.end <= e.start && !crashBetween(s.end, e.start) {
					mustN = true
				}
			}
		}
		matches := func(r *appRef) bool {
			if e.get {
				return int(e.status) == r.exit && e.out == r.out
			}
			return e.exit == r.exit && (e.out == r.out || e.exit != 0)
		}
		prefix := func() bool {
			return strings.HasPrefix(o.out, e.out) || mayN && strings.HasPrefix(n.out, e.out)
		}
		excuse := ""
		if len(e.fired) > 0 {
			excuse = "fault"
		} else if m.stalled(e) {
			excuse = "stall"
		} else {
			for j := range m.events {
				x := &m.events[j]
				if j != i && overlaps(x, e) && (!e.get || !x.get) && x.op.K != "serve" && !strings.HasPrefix(x.op.K, "cli.") {
					excuse = "contention"
				}
			}
		}
		if e.get {
			if e.op.F == "drop" {
				if !prefix() && excuse == "" {
					m.violate("wrong-output", e, "a client that went away got %q of %q", clipStr(e.out, 200), clipStr(o.out, 200))
				}
				m.rep.Faults["client-gone"]++
				continue
			}
			if e.status == -1 {
				m.violate("panic", e, "the request %s panics: %s", what, clipStr(e.out, 300))
				continue
			}
			// each of the lists in an answer on its own
			lists := func(nulls bool) bool {
				g, ok := graphqlAnswer(e.out)
				x, _ := graphqlAnswer(o.out)
				y, _ := graphqlAnswer(n.out)
				if !ok || nulls != (len(g.Errors) > 0) {
					return false
				}
				for k, v := range g.Data {
					if !(nulls && string(v) == "null" || !mustN && string(v) == string(x.Data[k]) || mayN && string(v) == string(y.Data[k])) {
						return false
					}
				}
				return true
			}
			isErr := lists(true)
			switch {
			case len(o.out) > 0 && !same && mayN && e.op.A >= 3 && lists(false):
			case matches(o) && !mustN || matches(n) && mayN || same && matches(o):
				if matches(n) && !matches(o) {
					reads = append(reads, seen{e.end, true})
				}
			case excuse != "" && isErr:
				m.rep.Probes["request-failed-visibly"]++
			case excuse != "":
				m.violate("wrong-output", e, "the request %s, with %s (%s), is answered with neither an error nor the right list: %s", what, excuse, strings.Join(e.fired, ","), clipStr(e.out, 400))
			case matches(o) && mustN:
				m.violate("stale", e, "the request %s is answered with the collection as it was before it was prepared", what)
			default:
				m.violate("differs", e, "the request %s is answered with\n  %s\nand alone it is answered with\n  %s", what, clipStr(e.out, 400), clipStr(o.out, 400))
			}
			continue
		}
		if e.killed {
			continue
		}
		gorm := strings.HasSuffix(e.op.K, ".gorm")
		switch {
		case e.exit == 0 && same && matches(o):
		case e.exit == 0 && !same && matches(o) && !mustN:
		case e.exit == 0 && !same && matches(n) && mayN:
			reads = append(reads, seen{e.end, true})
		case e.exit == 0 && !same && matches(o) && mustN:
			m.violate("lost", e, "%s succeeds and shows the collection as it was before it was prepared, after that succeeded", what)
		case e.exit == 0 && o.exit != 0 && n.exit != 0:
			m.violate("false-success", e, "%s exits 0; alone it exits %d", what, o.exit)
		case e.exit == 0:
			if len(e.fired) > 0 {
				m.violate("false-success", e, "%s exits 0 after %s, and its output is not all there: it wrote\n  %q\nof\n  %q", what, strings.Join(e.fired, ","), clipStr(e.out, 300), clipStr(o.out, 300))
			} else {
				m.violate("wrong-output", e, "%s exits 0 with the output\n  %q\nand alone it is\n  %q", what, clipStr(e.out, 300), clipStr(o.out, 300))
			}
		default: // it failed
			m.rep.Probes["failed-visibly"]++
			expected := o.exit != 0 && !mustN || n.exit != 0 && mayN
			if excuse == "" && !expected {
				m.violate("fails", e, "%s exits %d with no fault and nobody else about: %s", what, e.exit, clipStr(e.stderr, 300))
			} else if e.sig == 0 && strings.TrimSpace(e.stderr) == "" {
				m.violate("silent", e, "%s exits %d and says nothing", what, e.exit)
			} else if strings.Contains(e.stderr, "goroutine ") && strings.Contains(e.stderr, "panic") || strings.Contains(e.stderr, "PANIC=") {
				m.violate("panic", e, "%s panics: %s", what, clipStr(e.stderr, 300))
			} else if !gorm && !prefix() {
				m.violate("wrong-output", e, "%s fails having written what is not the beginning of its output: %q of %q", what, clipStr(e.out, 300), clipStr(o.out, 300))
			}
		}
	}
	// what the server holds must not grow
	if n := len(m.handles); n >= 6 && m.p.Opts["leak"] != "" {
		for name, l := range map[string][]int64{"files open": m.handles, "goroutines": m.routine} {
			if l[n-1]-l[n/2] >= 2 && l[n/2]-l[1] >= 1 {
				m.violate("leak", nil, "the server has ever more %s: %v after each of the same rounds of requests", name, l)
			}
		}
	}
	m.rep.Probes["reads-of-the-new-collection"] += int64(len(reads))
	return ""
}

// stalled says whether the disk stood still for seconds while the event was
// under way, whoever waited for it: a program may give up then. A request is
// under way before it first touches the disk, so for one the episode counts.
func (m *machine) stalled(e *event) bool {
	for _, s := range m.stalls {
		if e.get && s[0] == int64(e.ep) || e.start <= s[1] && (s[1] <= e.end || e.end == 0) {
			return true
		}
	}
	return false
}

func (m *machine) judgeServer(e *event) {
	switch {
	case e.killed || e.end == 0:
	case strings.Contains(e.stderr, "DATA RACE"):
		m.violate("race", e, "data race in the server: %s", clipStr(e.stderr, 1500))
	case e.exit == 0 && e.listened && e.task == -1 && e.op.A == 1 && e.out == "":
		// the moment it started to listen
	case e.listened:
		m.violate("server-died", e, "the server ends with exit %d while it serves requests: %s", e.exit, clipStr(e.stderr, 300))
	case e.exit == 0 && e.op.A == 1 && e.stderr == "" && e.out == "":
	case e.exit == 0:
		m.violate("false-success", e, "the server exits 0 without serving")
	default:
		if len(e.fired) == 0 && !m.stalled(e) {
			busy := false
			for j := range m.events {
				if x := &m.events[j]; x != e && overlaps(x, e) {
					busy = true
				}
			}
			if !busy {
				m.violate("fails", e, "the server does not start, with no fault: %s", clipStr(e.stderr, 300))
			}
		}
	}
}

func (a *appSim) argsOfSafe(p *plan.Plan, e *event) (out []string) {
	if e.get {
		return []string{a.query(p, e.op)}
	}
	defer func() { recover() }()
	return a.argsOf(p, e.op)
}
