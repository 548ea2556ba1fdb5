// vsim builds the simulated programs from the current tree, searches seeded
// runs for violations of one property, minimises what it finds, and replays.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vsim.local/simrt/plan"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	workers  = 8
)

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func die(code int, format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", a...)
	cleanup()
	os.Exit(code)
}

var tmpDir string

func cleanup() {
	if tmpDir != "" && os.Getenv("VSIM_KEEP") == "" {
		os.RemoveAll(tmpDir)
	}
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "properties" {
		for _, p := range properties() {
			fmt.Println(p.ID, len(p.Scenarios), "scenarios")
		}
		return
	}
	if len(os.Args) < 3 {
		die(2, "usage: vsim check <property> | replay <file> | determinism <property> <runs>")
	}
	if d := os.Getenv("VSIM_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("VSIM_VERIF"); d != "" {
		verifDir = d
	}
	workers = envInt("VSIM_WORKERS", 8)
	var err error
	tmpDir, err = os.MkdirTemp("", "vsim")
	if err != nil {
		die(3, "%v", err)
	}
	code := 0
	switch os.Args[1] {
	case "check":
		code = check(os.Args[2])
	case "replay":
		code = replay(os.Args[2])
	case "diff":
		code = diffRuns(os.Args[2], os.Args[3], os.Args[4])
	case "determinism":
		code = determinism(os.Args[2], os.Args[3])
	default:
		die(2, "unknown command %q", os.Args[1])
	}
	cleanup()
	os.Exit(code)
}

// lab holds what the scenarios of one property share.
type lab struct {
	b     *builder
	mu    sync.Mutex
	progs map[string]program
	pools map[string]*genCtx
}

func newLab() *lab {
	return &lab{b: newBuilder(verifDir, repoDir, tmpDir), progs: map[string]program{}, pools: map[string]*genCtx{}}
}

func (l *lab) program(s *scenario) (program, error) {
	key := fmt.Sprintf("%s/%s/%v", s.Target, s.Harness, s.Race)
	l.mu.Lock()
	defer l.mu.Unlock()
	if p, ok := l.progs[key]; ok {
		return p, nil
	}
	p, err := makeProgram(l.b, s)
	if err != nil {
		return nil, err
	}
	l.progs[key] = p
	return p, nil
}

// refs computes, in a fresh process per text, what every call yields alone.
func refsFor(prog program, target string, texts []string) (map[string]plan.Ref, []*outcome) {
	refs := map[string]plan.Ref{}
	var bad []*outcome
	var mu sync.Mutex
	parallel(len(texts), func(i int) {
		p := &plan.Plan{Target: target, Texts: []string{texts[i]}, Names: renames, RefMode: true}
		o := prog.run(p)
		mu.Lock()
		defer mu.Unlock()
		if o.class != "" {
			o.msg = fmt.Sprintf("alone, with the text %q: %s", clipStr(texts[i], 200), o.msg)
			o.plan = p
			bad = append(bad, o)
			return
		}
		refs[texts[i]] = o.rep.Ref
	})
	sort.Slice(bad, func(i, j int) bool { return bad[i].msg < bad[j].msg })
	return refs, bad
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (l *lab) pool(prop string, s *scenario, seed int, size int) (*genCtx, []*outcome) {
	if g, ok := l.pools[s.Target]; ok {
		return g, nil
	}
	prog, err := l.program(&scenario{Target: s.Target, Harness: s.Harness, Race: false})
	if err != nil {
		die(3, "%v", err)
	}
	t := &texts{r: newPrng("pool", s.Target, prop, seed), v6: s.Target == "v6"}
	pool := t.pool(size)
	refs, bad := refsFor(prog, s.Target, pool)
	g := &genCtx{refs: refs}
	for _, x := range pool {
		if refs[x] != nil {
			g.texts = append(g.texts, x)
		}
	}
	at := map[string]int{}
	for i, x := range g.texts {
		at[x] = i
	}
	g.twins = map[string]int{}
	for a, b := range t.twins {
		if i, ok := at[b]; ok {
			g.twins[a] = i
		}
	}
	l.pools[s.Target] = g
	return g, bad
}

// subset draws the texts of one run.
func (g *genCtx) subset(r *prng, n, long int) *genCtx {
	c := &genCtx{r: r, refs: map[string]plan.Ref{}}
	perm := make([]int, len(g.texts))
	for i := range perm {
		perm[i] = i
	}
	for i := range perm {
		j := i + r.n(len(perm)-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	used := map[int]bool{}
	take := func(i int) {
		t := g.texts[i]
		if used[i] {
			return
		}
		used[i] = true
		if len(t) > 200 {
			if long--; long < 0 {
				return
			}
		}
		c.texts = append(c.texts, t)
		c.refs[t] = g.refs[t]
		k := len(c.texts) - 1
		if c.isValid(k) {
			c.valid = append(c.valid, k)
		} else {
			c.broken = append(c.broken, k)
		}
	}
	for _, i := range perm {
		if len(c.texts) >= n && len(c.valid) >= 3 && len(c.broken) >= 1 {
			break
		}
		take(i)
		if j, ok := g.twins[g.texts[i]]; ok && r.chance(50) {
			take(j)
		}
	}
	return c
}

func (l *lab) makePlan(prop *property, s *scenario, seed, i int) *plan.Plan {
	r := newPrng(prop.ID, "/", s.Name, "/", seed, "/", i)
	p := &plan.Plan{Property: prop.ID, Scenario: s.Name, Target: s.Target, Race: s.Race, Seed: r.s, Names: renames}
	if s.Texts {
		long := 2 // long texts, which take long
		switch s.Name[strings.Index(s.Name, "-")+1:] {
		case "storm", "cycle", "churn", "churned", "callbacks":
			long = 0
		}
		g := l.pools[s.Target].subset(r, 6+r.n(14), long)
		p.Texts, p.Refs = g.texts, g.refs
		s.Gen(g, p)
		if s.Target == "v6" {
			h := newPrng("heap/", prop.ID, "/", s.Name, "/", seed, "/", i)
			pct := 35
			switch {
			case prop.ID == "C07":
				pct = 0
			case prop.ID == "C08", prop.ID == "C09":
				pct = 20
			case long == 0:
				pct = 50
			case prop.ID == "C10":
				pct = 70
			}
			if h.chance(pct) {
				if p.Opts == nil {
					p.Opts = map[string]string{}
				}
				p.Opts["reuse"] = fmt.Sprint(h.pickInt(50, 90, 100, 100))
			}
		}
	} else {
		s.Gen(&genCtx{r: r}, p)
	}
	return p
}

type tally struct {
	runs, evals                                        int64
	steps, switches, preempts, blocked, syncs, ops, ns int64
	cacc, allocs                                       int64
	faults, probes                                     map[string]int64
	sched                                              map[uint64]bool
	distinct                                           map[uint64]bool
	samples                                            []interface{}
	perScenario                                        map[string]int64
	offTopic                                           int64
	detChecked, detBad                                 int64
	refRuns                                            int64
	runWall                                            time.Duration
}

func newTally() *tally {
	return &tally{faults: map[string]int64{}, probes: map[string]int64{}, sched: map[uint64]bool{}, distinct: map[uint64]bool{}, perScenario: map[string]int64{}}
}

func (t *tally) add(s *scenario, p *plan.Plan, o *outcome, seed, idx int) {
	t.runs++
	t.perScenario[s.Name]++
	t.runWall += o.wall
	r := o.rep
	if r == nil {
		return
	}
	t.steps += r.Steps
	t.switches += r.Switches
	t.preempts += r.Preempts
	t.blocked += r.Blocked
	t.syncs += r.SyncOps
	t.ops += r.Ops
	t.ns += r.SimNanos
	t.cacc += r.CAccesses
	t.allocs += r.Allocs
	for k, v := range r.Faults {
		t.faults[k] += v
	}
	for k, v := range r.Probes {
		t.probes[k] += v
	}
	for _, h := range r.SchedHash {
		t.sched[h] = true
	}
	if s.Nontrivial == nil || s.Nontrivial(p, r) {
		t.distinct[r.Hash] = true
	}
	if len(t.samples) < 3 && (idx == 1 || idx == 7 || idx == 20) {
		q := *p
		q.Refs = nil
		if len(q.Episodes) > 1 {
			q.Episodes = q.Episodes[:1]
		}
		for i := range q.Texts {
			q.Texts = append([]string{}, q.Texts...)
			q.Texts[i] = clipStr(q.Texts[i], 80)
		}
		t.samples = append(t.samples, map[string]interface{}{"scenario": s.Name, "verif_seed": seed, "run": idx, "plan_first_episode": q,
			"steps": r.Steps, "switches": r.Switches, "ops": r.Ops, "faults": r.Faults, "hash": fmt.Sprintf("%016x", r.Hash)})
	}
}

type found struct {
	s   *scenario
	idx int
	p   *plan.Plan
	o   *outcome
}

func check(id string) int {
	prop := findProperty(id)
	if prop == nil {
		die(2, "no such property: %s", id)
	}
	t0 := time.Now()
	seed := envInt("VERIF_SEED", 1)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	quickCap := time.Duration(envInt("VSIM_QUICK_S", 420)) * time.Second
	thoroughFor := time.Duration(envInt("VSIM_THOROUGH_S", 900)) * time.Second
	fmt.Printf("vsim: property %s tier %s VERIF_SEED=%d\n", id, tier, seed)
	os.Remove(filepath.Join(verifDir, "evidence", id+".json"))
	known, err := loadKnown()
	if err != nil {
		die(3, "%v", err)
	}

	l := newLab()
	// build everything first, in parallel where the targets differ
	var bwg sync.WaitGroup
	berr := make([]error, len(prop.Scenarios))
	seen := map[string]bool{}
	for i, s := range prop.Scenarios {
		key := s.Target + "/" + s.Harness
		if seen[key] {
			continue
		}
		seen[key] = true
		bwg.Add(1)
		go func(i int, key string) {
			defer bwg.Done()
			for _, s := range prop.Scenarios {
				if s.Target+"/"+s.Harness != key {
					continue
				}
				if _, err := makeProgramIn(l, s); err != nil {
					berr[i] = err
				}
			}
		}(i, key)
	}
	bwg.Wait()
	for _, e := range berr {
		if e != nil {
			die(3, "build: %v", e)
		}
	}
	buildS := time.Since(t0).Seconds()

	tl := newTally()
	var refBad []*outcome
	for _, s := range prop.Scenarios {
		if s.Texts {
			_, bad := l.pool(id, s, seed, prop.poolSize())
			refBad = append(refBad, bad...)
		}
	}
	for _, g := range l.pools {
		tl.refRuns += int64(len(g.texts))
	}
	for _, o := range refBad {
		if o.class == "error" {
			die(4, "computing references: %s", o.msg)
		}
	}

	total := func(s *scenario) int {
		n := s.Runs
		if v := envInt("VSIM_RUNS", 0); v > 0 {
			n = v
		}
		return n
	}
	type job struct {
		s   *scenario
		idx int
	}
	jobs := make(chan job, workers)
	stop := make(chan struct{})
	var once sync.Once
	halt := func() { once.Do(func() { close(stop) }) }
	var mu sync.Mutex
	var hits []found
	var errs []found
	start := time.Now()
	go func() {
		defer close(jobs)
		for i := 0; ; i++ {
			any := false
			for _, s := range prop.Scenarios {
				lim := total(s)
				if tier == "thorough" {
					if time.Since(start) > thoroughFor {
						return
					}
				} else if i >= lim {
					continue
				}
				any = true
				if tier == "quick" && time.Since(start) > quickCap {
					return
				}
				select {
				case jobs <- job{s, i}:
				case <-stop:
					return
				}
			}
			if !any {
				return
			}
		}
	}()
	knownHits := map[string]int{}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				p := l.makePlan(prop, j.s, seed, j.idx)
				prog, _ := l.program(j.s)
				o := prog.run(p)
				if j.s.Filter != nil {
					j.s.Filter(p, o)
				}
				det, detOK := false, true
				if o.class == "" && j.idx%23 == 5 && tier == "quick" || o.class == "" && j.idx%97 == 5 {
					det = true
					o2 := prog.run(p)
					if j.s.Filter != nil {
						j.s.Filter(p, o2)
					}
					detOK = o2.class == o.class && (o.rep == nil || o2.rep != nil && o2.rep.Hash == o.rep.Hash)
				}
				mu.Lock()
				tl.add(j.s, p, o, seed, j.idx)
				if det {
					tl.detChecked++
					if !detOK {
						tl.detBad++
						fmt.Fprintf(os.Stderr, "vsim: run %s/%d gave two different executions\n", j.s.Name, j.idx)
					}
				}
				f := found{j.s, j.idx, p, o}
				if o.violated() && !prop.concerns(o.class) {
					tl.offTopic++
				} else if o.class == "error" {
					errs = append(errs, f)
					halt()
				} else if o.violated() {
					if k := known.match(id, f); k != "" {
						knownHits[k]++
					} else {
						hits = append(hits, f)
						halt()
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(start).Seconds()

	violations := len(hits)
	for _, k := range known.open(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	ret := 0
	if len(refBad) > 0 && prop.RefCrash {
		violations += len(refBad)
	}
	writeEvidence(prop, tier, seed, tl, t0, buildS, searchS, violations, knownHits)
	if tl.detBad > 0 {
		fmt.Fprintf(os.Stderr, "vsim: %d of %d repeated runs differed\n", tl.detBad, tl.detChecked)
	}
	if len(hits) > 0 {
		sort.Slice(hits, func(i, j int) bool {
			if hits[i].idx != hits[j].idx {
				return hits[i].idx < hits[j].idx
			}
			return hits[i].s.Name < hits[j].s.Name
		})
		for _, h := range hits {
			file, ok := report(prop, l, h, seed)
			if ok {
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
				return 1
			}
		}
		fmt.Fprintf(os.Stderr, "vsim: a violation was seen but does not repeat: %s %s\n", hits[0].o.class, hits[0].o.msg)
		return 4
	}
	if len(refBad) > 0 {
		if prop.RefCrash && prop.concerns(refBad[0].class) {
			o := refBad[0]
			p := o.plan
			p.Property = id
			file := saveReplay(prop, &replayFile{Plan: p, Class: o.class, Msg: o.msg, Detail: o.detail, VerifSeed: seed})
			fmt.Printf("violation: %s\n", o.msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
			return 1
		}
		fmt.Printf("vsim: %d texts left out, a single call with them crashes\n", len(refBad))
	}
	if len(errs) > 0 {
		sort.Slice(errs, func(i, j int) bool { return errs[i].idx < errs[j].idx })
		fmt.Fprintf(os.Stderr, "vsim: run %s/%d: %s\n", errs[0].s.Name, errs[0].idx, errs[0].o.msg)
		return 4
	}
	fmt.Printf("vsim: %s held on %d runs (%d calls, %d steps, %d preemptions, %d distinct schedules), %.1fs\n", id, tl.runs, tl.ops, tl.steps, tl.preempts, len(tl.sched), time.Since(t0).Seconds())
	return ret
}

func makeProgramIn(l *lab, s *scenario) (program, error) {
	key := fmt.Sprintf("%s/%s/%v", s.Target, s.Harness, s.Race)
	l.mu.Lock()
	if p, ok := l.progs[key]; ok {
		l.mu.Unlock()
		return p, nil
	}
	l.mu.Unlock()
	p, err := makeProgram(l.b, s)
	if err != nil {
		return nil, err
	}
	l.mu.Lock()
	l.progs[key] = p
	l.mu.Unlock()
	if s.Texts && s.Race { // references always come from the plain build
		if _, err := makeProgramIn(l, &scenario{Target: s.Target, Harness: s.Harness}); err != nil {
			return nil, err
		}
	}
	return p, nil
}

// replayFile is a failing run, complete.
type replayFile struct {
	Property  string     `json:"property"`
	Class     string     `json:"class"`
	Msg       string     `json:"message"`
	Detail    string     `json:"detail,omitempty"`
	VerifSeed int        `json:"verif_seed"`
	Run       int        `json:"run"`
	Scenario  string     `json:"scenario"`
	Minimised int        `json:"minimiser_runs"`
	Trace     []string   `json:"trace,omitempty"`
	Sites     []string   `json:"preemption_sites,omitempty"`
	Plan      *plan.Plan `json:"plan"`
}

func saveReplay(prop *property, r *replayFile) string {
	r.Property = prop.ID
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	name := filepath.Join(dir, fmt.Sprintf("%s-%d-%s-%d.json", prop.ID, r.VerifSeed, r.Scenario, r.Run))
	q := *r.Plan
	q.Refs = nil
	c := *r
	c.Plan = &q
	b, _ := json.MarshalIndent(&c, "", " ")
	os.WriteFile(name, append(b, '\n'), 0o644)
	return name
}

func report(prop *property, l *lab, h found, seed int) (string, bool) {
	prog, _ := l.program(h.s)
	wrapped := &filtered{prog, h.s}
	repeats := false
	var o *outcome
	for i := 0; i < 8 && !repeats; i++ {
		o = wrapped.run(h.p)
		repeats = o.class == h.o.class
	}
	if !repeats {
		return "", false
	}
	m := &minimizer{prog: wrapped, class: h.o.class, deadline: time.Now().Add(time.Duration(envInt("VSIM_MIN_S", 45)) * time.Second), last: o}
	best := h.p
	if h.s.NoMinimize == false {
		best = m.shrink(h.p)
	}
	// the file must fail the same way in a fresh process
	last := wrapped.run(best)
	if last.class != h.o.class {
		best, last = h.p, o
	}
	// texts nobody uses any more
	best = dropTexts(best)
	rf := &replayFile{Class: last.class, Msg: last.msg, Detail: last.detail, VerifSeed: seed, Run: h.idx, Scenario: h.s.Name, Minimised: m.runs, Plan: best}
	tp := clonePlan(best)
	tp.Trace = true
	if to := wrapped.run(tp); to.rep != nil {
		rf.Trace = to.rep.Trace
		if len(rf.Trace) > 200 {
			rf.Trace = rf.Trace[:200]
		}
	}
	for _, e := range best.Episodes {
		if e.Sched.UseReplay {
			for _, d := range e.Sched.Replay {
				if int(d.Site) < len(l.b.sitesOf(best.Target)) {
					st := l.b.sitesOf(best.Target)[d.Site]
					rf.Sites = append(rf.Sites, fmt.Sprintf("step %d: task %d -> task %d (kind %d) at %s:%d", d.Step, d.From, d.To, d.Kind, st.File, st.Line))
				}
			}
		}
	}
	file := saveReplay(prop, rf)
	fmt.Printf("violation: %s: %s\n", last.class, last.msg)
	if last.detail != "" {
		fmt.Printf("%s\n", last.detail)
	}
	for _, t := range rf.Trace {
		if len(rf.Trace) <= 40 {
			fmt.Println("  " + clipStr(t, 300))
		}
	}
	return file, true
}

// dropTexts blanks the texts no operation names, keeping the numbering.
func dropTexts(p *plan.Plan) *plan.Plan {
	if len(p.Texts) == 0 {
		return p
	}
	used := map[int]bool{}
	for _, e := range p.Episodes {
		for _, l := range append([][]plan.Op{e.Setup, e.Final}, e.Tasks...) {
			for _, o := range l {
				used[o.T%len(p.Texts)] = true
			}
		}
	}
	q := clonePlan(p)
	for i := range q.Texts {
		if !used[i] {
			q.Texts[i] = "a"
		}
	}
	if _, ok := q.Refs["a"]; !ok {
		for i := range p.Texts {
			if !used[i] {
				q.Texts[i] = p.Texts[i]
			}
		}
	}
	return q
}

type filtered struct {
	p program
	s *scenario
}

func (f *filtered) run(p *plan.Plan) *outcome {
	o := f.p.run(p)
	if f.s.Filter != nil {
		f.s.Filter(p, o)
	}
	return o
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || rf.Plan == nil {
		die(2, "%s is no replay file: %v", file, err)
	}
	prop := findProperty(rf.Property)
	if prop == nil {
		die(2, "no such property: %s", rf.Property)
	}
	var s *scenario
	for _, x := range prop.Scenarios {
		if x.Name == rf.Scenario {
			s = x
		}
	}
	if rf.Plan.RefMode {
		for _, x := range prop.Scenarios {
			if x.Target == rf.Plan.Target {
				s = &scenario{Target: x.Target, Harness: x.Harness}
			}
		}
	}
	if s == nil {
		die(2, "no such scenario: %s", rf.Scenario)
	}
	l := newLab()
	prog, err := makeProgramIn(l, s)
	if err != nil {
		die(3, "build: %v", err)
	}
	p := rf.Plan
	if s.Texts {
		plain, err := makeProgramIn(l, &scenario{Target: s.Target, Harness: s.Harness})
		if err != nil {
			die(3, "build: %v", err)
		}
		refs, bad := refsFor(plain, s.Target, p.Texts)
		if len(bad) > 0 {
			fmt.Printf("violation: %s: %s\n", bad[0].class, bad[0].msg)
			return 1
		}
		p.Refs = refs
	}
	if os.Getenv("VSIM_STACK") != "" {
		p.Env = map[string]string{"VSIM_STACK": "1"}
	}
	o := (&filtered{prog, s}).run(p)
	if os.Getenv("VSIM_STACK") != "" {
		fmt.Println(o.stderr)
	}
	switch {
	case o.class == "error":
		fmt.Printf("error: %s\n", o.msg)
		return 4
	case o.violated():
		fmt.Printf("violation: %s: %s\n%s\n", o.class, o.msg, o.detail)
		same := "the same class as recorded"
		if o.class != rf.Class {
			same = "recorded as " + rf.Class
		}
		fmt.Printf("(%s)\nVIOLATION property=%s replay=%s\n", same, rf.Property, file)
		return 1
	}
	fmt.Println("the recorded run holds on this tree")
	return 0
}

// determinism runs many seeds twice at different worker counts and compares.
func determinism(id, count string) int {
	prop := findProperty(id)
	if prop == nil {
		die(2, "no such property: %s", id)
	}
	n, _ := strconv.Atoi(count)
	seed := envInt("VERIF_SEED", 1)
	l := newLab()
	bad, tot := 0, 0
	for _, s := range prop.Scenarios {
		if _, err := makeProgramIn(l, s); err != nil {
			die(3, "%v", err)
		}
		if s.Texts {
			l.pool(id, s, seed, prop.poolSize())
		}
		var res [3][]string
		for round, w := range []int{8, 3, 1} {
			workers = w
			res[round] = make([]string, n)
			parallel(n, func(i int) {
				p := l.makePlan(prop, s, seed, i)
				p.Trace = os.Getenv("DT") != ""
				prog, _ := l.program(s)
				o := prog.run(p)
				if s.Filter != nil {
					s.Filter(p, o)
				}
				h := uint64(0)
				if o.rep != nil {
					h = o.rep.Hash
				}
				res[round][i] = fmt.Sprintf("%s/%016x", o.class, h)
			})
		}
		for i := 0; i < n; i++ {
			tot++
			if res[0][i] != res[1][i] || res[0][i] != res[2][i] {
				bad++
				fmt.Printf("%s/%d differs: %s %s %s\n", s.Name, i, res[0][i], res[1][i], res[2][i])
			}
		}
	}
	fmt.Printf("determinism %s: %d runs three times each, %d differ\n", id, tot, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

// known findings

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // open or fixed
	Class    string `json:"class,omitempty"`
	Contains string `json:"contains,omitempty"` // part of the message
	Scenario string `json:"scenario,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type knownSet []knownFinding

func loadKnown() (knownSet, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var k struct {
		Findings knownSet `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		return nil, err
	}
	return k.Findings, nil
}

func (k knownSet) match(id string, f found) string {
	for _, x := range k {
		if x.Status == "open" && x.Property == id && x.Class == f.o.class && (x.Scenario == "" || x.Scenario == f.s.Name) && x.Contains != "" && strings.Contains(f.o.msg+"\n"+f.o.detail, x.Contains) {
			return x.What
		}
	}
	return ""
}

func (k knownSet) open(id string) (out []string) {
	for _, x := range k {
		if x.Status == "open" && x.Property == id {
			out = append(out, x.What)
		}
	}
	return
}

// diffRuns shows where repeated executions of one run part, for debugging the
// simulator.
func diffRuns(id, scen, idx string) int {
	prop := findProperty(id)
	n, _ := strconv.Atoi(idx)
	l := newLab()
	for _, s := range prop.Scenarios {
		if s.Name != scen {
			continue
		}
		if _, err := makeProgramIn(l, s); err != nil {
			die(3, "%v", err)
		}
		if s.Texts {
			l.pool(id, s, envInt("VERIF_SEED", 1), prop.poolSize())
		}
		p := l.makePlan(prop, s, envInt("VERIF_SEED", 1), n)
		p.Trace = true
		prog, _ := l.program(s)
		a := prog.run(p)
		bs := make([]*outcome, 24)
		parallel(len(bs), func(i int) { q := l.makePlan(prop, s, envInt("VERIF_SEED", 1), n); q.Trace = true; bs[i] = prog.run(q) }) // the load of one on the other is part of it
		for _, b := range bs {
			fmt.Printf("%s/%x %d\n", b.class, b.rep.Hash, len(b.rep.Trace))
			if a.rep == nil || b.rep == nil || a.rep.Hash == b.rep.Hash {
				continue
			}
			sites := l.b.sitesOf(s.Target)
			for e := range a.rep.Decisions {
				for i := range a.rep.Decisions[e] {
					if i >= len(b.rep.Decisions[e]) || a.rep.Decisions[e][i] != b.rep.Decisions[e][i] {
						fmt.Printf("episode %d decision %d: %+v %v | ", e, i, a.rep.Decisions[e][i], sites[a.rep.Decisions[e][i].Site])
						if i < len(b.rep.Decisions[e]) {
							fmt.Printf("%+v %v", b.rep.Decisions[e][i], sites[b.rep.Decisions[e][i].Site])
						}
						fmt.Println()
						return 1
					}
				}
			}
			for i := range a.rep.Trace {
				if i >= len(b.rep.Trace) || a.rep.Trace[i] != b.rep.Trace[i] {
					fmt.Printf("%s\n%s\n", a.rep.Trace[i], b.rep.Trace[i])
					return 1
				}
			}
		}
	}
	fmt.Println("no difference")
	return 0
}
