package main

import (
	"fmt"
	"strings"
	"syscall"

	"vsim.local/simrt/plan"
)

// scenario is one kind of simulated run.
type scenario struct {
	Name       string
	Target     string // v4, v5, v6
	Harness    string
	Race       bool
	Texts      bool // draws filter texts and references
	Runs       int  // in the quick tier
	Gen        func(g *genCtx, p *plan.Plan)
	Filter     func(p *plan.Plan, o *outcome) // judges outcomes the default classification cannot
	Nontrivial func(p *plan.Plan, r *plan.Report) bool
	NoMinimize bool
}

type property struct {
	ID        string
	Title     string
	Level     string
	Scenarios []*scenario
	Rule      string
	Real      []string
	Stub      []string
	Assume    []string
	Classes   []string // the classes of violation that concern this property; empty: all
	RefCrash  bool     // a single call alone that crashes violates this property
	Pool      int
}

func (p *property) concerns(class string) bool {
	for _, c := range p.Classes {
		if c == class {
			return true
		}
	}
	return len(p.Classes) == 0
}

func (p *property) level() string {
	if p.Level != "" {
		return p.Level
	}
	return "exploration"
}

func (p *property) poolSize() int {
	if p.Pool > 0 {
		return p.Pool
	}
	return 150
}

func makeProgram(b *builder, s *scenario) (program, error) {
	switch s.Harness {
	case "apps-cli":
		if s.Target == "v6" {
			return newAppSim(b, s.Target, []string{"tsl", "tsl_mem", "tsl_parser"}, nil, false)
		}
		return newAppSim(b, s.Target, []string{"tsl_mem", "tsl_parser"}, nil, false)
	case "apps-db":
		return newAppSim(b, s.Target, []string{"tsl_mem", "tsl_sqlite", "tsl_gorm", "hsql"}, nil, false)
	case "apps-mongo":
		return newAppSim(b, s.Target, []string{"tsl_mongo", "tsl_mem"}, nil, false)
	case "apps-web":
		return newAppSim(b, s.Target, []string{"tsl_mem", "tsl_sqlite", "hsql"}, []string{"tsl_graphql"}, s.Race)
	}
	bin, err := b.build(s.Target, s.Harness, s.Race)
	if err != nil {
		return nil, err
	}
	return &child{bin: bin}, nil
}

func findProperty(id string) *property {
	for _, p := range properties() {
		if p.ID == id {
			return p
		}
	}
	return nil
}

var realV6 = []string{"v6 flex/bison parser and AST (C, compiled from the current tree with memory-access instrumentation)", "v6 Go bindings and walkers (semantics, sql, ident, graphviz, marshalling)", "squirrel, yaml.v3, Go runtime and race detector"}
var realV45 = []string{"v4 and v5 ANTLR lexers, parsers and listeners (Go, instrumented)", "v4 and v5 walkers (semantics, sql, ident, graphviz, mongo)", "the ANTLR Go runtime (instrumented)", "squirrel, mongo bson, Go runtime and race detector"}
var stubV45 = []string{"scheduler (seeded token passing)", "sync package (model with the same semantics that yields to the scheduler)", "math/rand source", "clock"}
var stubV6 = []string{"scheduler (seeded token passing)", "sync package (model with the same semantics that yields to the scheduler)", "C heap (no reuse, poisoned, every access checked)", "math/rand source", "clock"}

func preempted(p *plan.Plan, r *plan.Report) bool {
	return r.Preempts > 0 || r.Switches > int64(4*len(p.Episodes))
}

var (
	quickTexts = []string{}
	_          = quickTexts
)

// one episode per call
func (g *genCtx) episode(c *opCfg, tasks, ops int) plan.Episode {
	ep := plan.Episode{Sched: g.sched(), Rand: g.rand()}
	for t := 0; t < tasks; t++ {
		ep.Tasks = append(ep.Tasks, g.ops(c, ops))
	}
	return ep
}

var allEvalFaults = []string{"missing", "reenter", "slow", "panic", "missing-value"}
var fewEvalFaults = []string{"reenter", "slow", "panic"}
var allIdentFaults = []string{"error", "panic", "reenter", "slow"}

func concMix(v6 bool) *mix {
	if v6 {
		return newMix("parse", 30, "free", 12, "eval", 14, "ident", 8, "sql", 6, "filter", 3, "render", 4, "json", 4, "yaml", 2, "dot", 4, "clone", 6, "hold", 2, "reheld", 3, "reerr", 5, "dump", 2, "gc", 1)
	}
	return newMix("parse", 30, "free", 8, "eval", 14, "ident", 8, "sql", 6, "filter", 3, "render", 4, "dot", 4, "mongo", 4, "hold", 2, "reheld", 3, "reerr", 5, "dump", 2)
}

func genConc(v6 bool) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		n := 3 + r.n(7)
		for e := 0; e < n; e++ {
			c := &opCfg{mix: concMix(v6), brokenPct: r.pickInt(0, 25, 60), limit: 3 + r.n(6), identFault: allIdentFaults, identPct: r.pickInt(0, 20), evalFault: allEvalFaults, evalPct: r.pickInt(0, 25)}
			k := 2 + r.n(8)
			if r.chance(35) { // parse once and then use: parsing orders the callers
				c.mix = c.mix.without("parse", "ident", "free")
				c.brokenPct = 0
				k += 4
			}
			gg := g
			if r.chance(30) {
				gg = g.narrow(1 + r.n(2))
			}
			p.Episodes = append(p.Episodes, gg.episode(c, 2+r.n(3), k))
		}
	}
}

// shared trees, read by several tasks at once
func genShared(m *mix) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		n := 2 + r.n(6)
		for e := 0; e < n; e++ {
			k := 1 + r.n(4)
			var setup []plan.Op
			var shared []int
			for i := 0; i < k; i++ {
				t := g.text(0)
				setup = append(setup, plan.Op{K: "parse", T: t, D: 100 + i})
				shared = append(shared, t)
			}
			c := &opCfg{mix: m, brokenPct: 20, limit: 4 + r.n(5), shared: shared, sharedPct: r.pickInt(60, 85, 100), evalFault: allEvalFaults, evalPct: r.pickInt(0, 15), identFault: allIdentFaults, identPct: r.pickInt(0, 20)}
			if r.chance(35) {
				c.mix = m.without("parse", "ident")
			}
			ep := g.episode(c, 2+r.n(3), 3+r.n(8))
			ep.Setup = setup
			p.Episodes = append(p.Episodes, ep)
		}
	}
}

// long histories of one caller
func genHistory(m *mix) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		n := 1 + r.n(3)
		for e := 0; e < n; e++ {
			c := &opCfg{mix: m, brokenPct: r.pickInt(20, 50, 80), limit: 2 + r.n(10), identFault: allIdentFaults, identPct: r.pickInt(0, 30, 60), evalFault: allEvalFaults, evalPct: r.pickInt(0, 30)}
			p.Episodes = append(p.Episodes, g.episode(c, 1, 20+r.n(60)))
		}
	}
}

// the same work over and over: memory must not grow
func genLeak(m *mix, tasks bool) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		c := &opCfg{mix: m, brokenPct: r.pickInt(0, 30, 60, 100), limit: 2 + r.n(8), identFault: append([]string{"badname"}, allIdentFaults...), identPct: r.pickInt(0, 40), evalFault: allEvalFaults, evalPct: r.pickInt(0, 30)}
		nt := 1
		if tasks && r.chance(40) {
			nt = 2
		}
		ep := g.episode(c, nt, 3+r.n(20))
		ep.Repeat = 6
		p.Episodes = append(p.Episodes, ep)
	}
}

// a storm: a small piece of work done a thousand times, then a history. What
// adds up over many calls (counters, caches, failures) must not change answers.
func genStorm(m *mix, v6 bool) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		c := &opCfg{mix: m, brokenPct: r.pickInt(0, 30, 100), limit: 1 + r.n(5), identFault: allIdentFaults, identPct: r.pickInt(0, 50, 100), evalFault: allEvalFaults, evalPct: r.pickInt(0, 50, 100)}
		if !v6 {
			c.evalFault = fewEvalFaults
		}
		if r.chance(50) { // the same failure every time
			c.evalFault = []string{c.evalFault[r.n(len(c.evalFault))]}
			c.identFault = []string{allIdentFaults[r.n(len(allIdentFaults))]}
			c.evalPct, c.identPct = 100, 100
		}
		if r.chance(60) { // one tree, used again and again
			c.shared, c.sharedPct = []int{g.text(0)}, 100
		}
		ep := g.episode(c, 1+r.n(2), 1+r.n(4))
		if len(c.shared) > 0 {
			ep.Setup = []plan.Op{{K: "parse", T: c.shared[0], D: 100}}
		}
		ep.Repeat = r.pickInt(300, 600, 1100, 1100)
		if !v6 {
			ep.Repeat = r.pickInt(60, 150)
		} else if len(ep.Tasks) > 1 {
			ep.Repeat = 300
		}
		ep.Sched.Mean = 0
		after := &opCfg{mix: m, brokenPct: 25, limit: 6}
		p.Episodes = append(p.Episodes, ep, g.episode(after, 1, 15))
	}
}

// ever new texts: memory must level off
func genChurn(g *genCtx, p *plan.Plan) {
	r := g.r
	ep := plan.Episode{Sched: g.sched(), Rand: g.rand(), Repeat: 40}
	var ops []plan.Op
	for i := 0; i < 60; i++ {
		ops = append(ops, plan.Op{K: "churn", T: g.text(15), A: r.n(4)})
	}
	ep.Sched.Mean = 0
	ep.Tasks = [][]plan.Op{ops}
	p.Episodes = append(p.Episodes, ep)
}

// genAfterChurn is a history in a process that has seen many other filters.
func genAfterChurn(m *mix, v6 bool) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		genChurn(g, p)
		if !v6 {
			p.Episodes[0].Repeat = 5
		} else if g.r.chance(10) {
			p.Episodes[0].Repeat = 120
		}
		p.Episodes = append(p.Episodes, g.episode(&opCfg{mix: m, brokenPct: 25, limit: 6}, 1, 40))
	}
}

func (g *genCtx) surgery(n int, m *mix) (ops []plan.Op) {
	r := g.r
	for i := 0; i < 3; i++ {
		ops = append(ops, plan.Op{K: "s.parse", T: g.text(0), D: r.n(6)})
	}
	for len(ops) < n {
		ops = append(ops, plan.Op{K: m.draw(r), T: g.text(0), S: r.n(6), D: r.n(6), N: r.n(64)})
	}
	return append(ops, plan.Op{K: "s.check"})
}

func genSurgery(m *mix, tasks int) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		for e := 0; e < 1+r.n(3); e++ {
			ep := plan.Episode{Sched: g.sched(), Rand: g.rand()}
			nt := 1 + r.n(tasks)
			for t := 0; t < nt; t++ {
				ep.Tasks = append(ep.Tasks, g.surgery(10+r.n(40), m))
			}
			if r.chance(25) {
				ep.Repeat = 5
			}
			p.Episodes = append(p.Episodes, ep)
		}
	}
}

// callbacks that fail, panic, stall or use the library again
func genCallbacks(m *mix, evalF, identF []string) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		p.Opts = map[string]string{"identmodel": "1"}
		r := g.r
		for e := 0; e < 1+r.n(4); e++ {
			c := &opCfg{mix: m, brokenPct: 10, limit: 4 + r.n(6), identFault: identF, identPct: r.pickInt(30, 70), evalFault: evalF, evalPct: r.pickInt(30, 70)}
			p.Episodes = append(p.Episodes, g.episode(c, 1+r.n(3), 6+r.n(20)))
		}
	}
}

func genAllocFail(g *genCtx, p *plan.Plan) {
	r := g.r
	c := &opCfg{mix: newMix("parse", 30, "clone", 12, "ident", 10, "eval", 6, "dump", 4, "free", 6, "sql", 3, "json", 3), brokenPct: r.pickInt(0, 25), limit: 6}
	ops := g.ops(c, 4+r.n(16))
	// arm the failure right before a call that allocates
	var at []int
	for i, o := range ops {
		if o.K == "parse" || o.K == "clone" || o.K == "ident" {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return
	}
	i := at[r.n(len(at))]
	k := r.n(r.pickInt(6, 20, 60))
	ops = append(ops[:i:i], append([]plan.Op{{K: "failalloc", N: k, A: r.pickInt(0, 0, 1, 5)}}, ops[i:]...)...)
	p.Episodes = append(p.Episodes, plan.Episode{Sched: g.sched(), Rand: g.rand(), Tasks: [][]plan.Op{ops}})
}

// failStop accepts that a program stops, visibly and on purpose, when it cannot
// get memory; it accepts no touch of memory it does not own.
func failStop(p *plan.Plan, o *outcome) {
	if !strings.Contains(o.stderr, "SIMFAULT allocation") || o.rep != nil {
		return
	}
	stopped := o.class == "crash" || o.class == "error" && o.code > 0 && o.code != 97 && o.code != 98
	if stopped && o.sig != syscall.SIGSEGV && o.sig != syscall.SIGBUS && !strings.Contains(o.stderr, "SIGSEGV") && !strings.Contains(o.stderr, "nil pointer") {
		o.class, o.msg = "", ""
		o.rep = &plan.Report{Done: true, Faults: map[string]int64{"allocation-fails": 1}, Probes: map[string]int64{"stopped-on-allocation-failure": 1}, Hash: fnv64(crashLine(o.stderr, o.sig) + fmt.Sprint(p.Seed))}
	}
}

func fnv64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func faultsFired(p *plan.Plan, r *plan.Report) bool {
	for _, v := range r.Faults {
		if v > 0 {
			return true
		}
	}
	return false
}

func properties() []*property { return append(libProperties(), appProperties()...) }

func libProperties() []*property {
	readMix := newMix("eval", 20, "sql", 8, "filter", 8, "render", 10, "json", 8, "yaml", 4, "dot", 8, "dump", 6, "recheck", 8, "clone", 8, "ident", 10, "hold", 4, "reheld", 4, "free", 6, "parse", 6)
	histMix := newMix("parse", 50, "free", 14, "reerr", 8, "eval", 8, "dump", 4, "clone", 4, "ident", 5, "sql", 3, "json", 2, "hold", 2, "reheld", 3, "gc", 1)
	outMix := newMix("parse", 16, "hold", 14, "reheld", 18, "free", 22, "filter", 10, "render", 14, "reerr", 8, "clone", 4, "eval", 4, "ident", 6, "gc", 6)
	lateMix := newMix("parse", 14, "filter", 18, "render", 24, "free", 12, "sql", 8, "eval", 4, "ident", 4, "clone", 2, "gc", 4)
	cloneMix := newMix("parse", 12, "clone", 22, "free", 16, "dump", 10, "eval", 10, "json", 6, "ident", 10, "sql", 6, "recheck", 6, "gc", 3)
	surgMix := newMix("s.parse", 8, "s.clone", 8, "s.pick", 9, "s.free", 7, "s.detach", 18, "s.attach", 20, "s.again", 6, "s.cycle", 8, "s.wrong", 6, "s.use", 6, "s.check", 3, "gc", 2)
	cbMix := newMix("parse", 12, "eval", 30, "ident", 30, "free", 6, "dump", 6, "clone", 4, "sql", 4)
	// on puts scenarios on a generation
	on := func(target string, ss ...*scenario) []*scenario {
		for _, s := range ss {
			s.Target, s.Texts = target, true
			s.Harness = "h45"
			if target == "v6" {
				s.Harness = "h6"
			}
			s.Name = target + "-" + s.Name
		}
		return ss
	}
	mk := func(id, rule string, ss []*scenario) *property {
		p := &property{ID: id, Rule: rule, Scenarios: ss}
		for _, s := range ss {
			if s.Target == "v6" {
				p.Real, p.Stub = addTo(p.Real, realV6), addTo(p.Stub, stubV6)
			} else {
				p.Real, p.Stub = addTo(p.Real, realV45), addTo(p.Stub, stubV45)
			}
		}
		return p
	}
	concRule := "a run is 3-9 episodes of 2-4 tasks parsing valid and broken texts and using their own trees (evaluate, rename, SQL, draw, marshal), every result compared with what the same call yields alone in a fresh process; non-trivial when at least one task was preempted inside the library; distinct by hash of all scheduling decisions and results"
	sharedRule := "a run is 2-7 episodes of 2-4 tasks reading 1-4 trees they share; every result is compared with what it is alone and the trees must come out unchanged; non-trivial when a task was preempted inside the library; distinct by hash of all scheduling decisions and results"
	histRule := "a run is 1-3 random histories of 20-80 calls of one caller over 6-20 generated texts, every result compared with what the call yields in a fresh process; every run is non-trivial; distinct by hash of all results"
	conc := func(v6 bool, runs, race int) []*scenario {
		return []*scenario{{Name: "plain", Runs: runs, Gen: genConc(v6), Nontrivial: preempted}, {Name: "race", Race: true, Runs: race, Gen: genConc(v6), Nontrivial: preempted}}
	}
	shared := func(m *mix, runs, race int) []*scenario {
		return []*scenario{{Name: "shared", Runs: runs, Gen: genShared(m), Nontrivial: preempted}, {Name: "shared-race", Race: true, Runs: race, Gen: genShared(m), Nontrivial: preempted}}
	}
	hist := func(m *mix, runs int) []*scenario {
		return []*scenario{{Name: "history", Runs: runs, Gen: genHistory(m)}}
	}
	storm := func(m *mix, v6 bool, runs int) []*scenario {
		return []*scenario{{Name: "storm", Runs: runs, Gen: genStorm(m, v6)}}
	}
	renameMix := newMix("ident", 40, "eval", 8, "dump", 8, "clone", 6, "sql", 6, "json", 4, "free", 6)
	cbs := func(e, i []string, runs int) []*scenario {
		return []*scenario{{Name: "callbacks", Runs: runs, Gen: genCallbacks(cbMix, e, i), Nontrivial: faultsFired}}
	}
	drawMix := newMix("parse", 14, "dot", 40, "dot2", 25, "ident", 5, "free", 6, "clone", 4, "reheld", 1)
	safeMix := newMix("parse", 30, "free", 18, "eval", 10, "ident", 8, "sql", 5, "filter", 4, "render", 4, "json", 4, "yaml", 3, "dot", 4, "clone", 10, "hold", 3, "reheld", 3, "reerr", 6, "dump", 4, "gc", 3)
	hostMix := newMix("parse", 24, "free", 6, "eval", 14, "ident", 6, "sql", 10, "json", 8, "yaml", 4, "dot", 10, "dump", 10, "clone", 4, "reerr", 4, "hold", 3, "reheld", 3)
	no6 := func(m *mix) *mix { return m.without("clone", "free", "recheck", "yaml") }
	// host puts a generator on a strange machine
	host := func(inner func(g *genCtx, p *plan.Plan)) func(g *genCtx, p *plan.Plan) {
		return func(g *genCtx, p *plan.Plan) {
			r := g.r
			p.Opts = map[string]string{}
			if r.chance(85) {
				off := r.pickInt(7200, 7200, 19800, -25200, -25200, 0, 3600, 45900, -34200, 7201)
				if r.chance(50) {
					p.Opts["localtimes"] = "1"
				}
				p.Opts["tz"] = fmt.Sprintf("%s:%d", r.pick("CEST", "IST", "PDT", "Local", "+02", "X Y", "UTC"), off)
			}
			if r.chance(60) {
				p.Opts["clock"] = fmt.Sprint([]int64{0, -1, 951782400, 1709164799, 2147483648, 4102444800, -62135596800, 253402300799}[r.n(8)])
			}
			if r.chance(40) {
				p.Opts["jitter"] = fmt.Sprint(r.n(1 << 30))
			}
			p.Env = map[string]string{"LANG": r.pick("C", "tr_TR.UTF-8", "de_DE.UTF-8", ""), "LC_ALL": r.pick("C", "tr_TR.UTF-8", "de_DE.UTF-8", ""), "GOMAXPROCS": r.pick("1", "2", "3", "7"), "GOGC": r.pick("1", "50", "off"), "TZ": r.pick("", "UTC", "Asia/Tokyo", "nonsense"), "HOSTNAME": r.pick("a", "b")}
			for _, k := range []string{"LC_NUMERIC", "LC_CTYPE", "LC_TIME", "LC_COLLATE", "LANGUAGE"} {
				if r.n(3) == 0 {
					p.Env[k] = r.pick("C", "tr_TR.UTF-8", "de_DE.UTF-8", "de")
				}
			}
			inner(g, p)
		}
	}
	pictures := func(ss []*scenario) []*scenario {
		for _, sc := range ss {
			inner := sc.Gen
			sc.Gen = func(g *genCtx, p *plan.Plan) {
				inner(g, p)
				if p.Opts == nil {
					p.Opts = map[string]string{}
				}
				p.Opts["pictures"] = "1"
			}
		}
		return ss
	}
	refCrash := func(p *property) *property { p.RefCrash = true; return p }
	only := func(p *property, classes ...string) *property { p.Classes = classes; return p }
	return []*property{
		mk("C01", concRule, on("v6", append(conc(true, 2500, 1500), storm(concMix(true), true, 80)...)...)),
		mk("C02", concRule, join(on("v4", conc(false, 900, 500)...), on("v5", conc(false, 900, 500)...))),
		mk("C03", sharedRule, on("v6", shared(readMix, 2500, 1500)...)),
		mk("C04", sharedRule, join(on("v4", shared(no6(readMix), 800, 500)...), on("v5", shared(no6(readMix), 800, 500)...))),
		mk("C05", "a run builds SQL conditions from trees, then frees, renames, re-parses and evaluates, and renders each condition late and repeatedly; every rendering is compared with the one made at once in a fresh process; distinct by hash of all results",
			join(on("v6", append(hist(lateMix, 1500), shared(lateMix, 1000, 500)...)...), on("v4", append(hist(no6(lateMix), 800), shared(no6(lateMix), 200, 100)...)...), on("v5", append(hist(no6(lateMix), 800), shared(no6(lateMix), 200, 100)...)...))),
		mk("C06", histRule+"; a storm repeats 1-4 calls up to 1100 times before a history", join(on("v6", append(hist(histMix, 2000), append(storm(histMix, true, 120), &scenario{Name: "churned", Runs: 40, Gen: genAfterChurn(histMix, true)})...)...), on("v5", append(hist(no6(histMix), 900), append(storm(no6(histMix), false, 24), &scenario{Name: "churned", Runs: 16, Gen: genAfterChurn(no6(histMix), false)})...)...), on("v4", append(hist(no6(histMix), 900), append(storm(no6(histMix), false, 24), &scenario{Name: "churned", Runs: 16, Gen: genAfterChurn(no6(histMix), false)})...)...))),
		only(mk("C07", "a run repeats a random piece of work of 3-20 calls (parsing, failing to parse, failing and panicking callbacks, renaming, cloning, evaluating) 6 times with everything freed after each, and the number of live C blocks must level off; churn runs use ever new texts; distinct by hash of all results",
			on("v6", &scenario{Name: "cycle", Runs: 5000, Gen: genLeak(concMix(true), true)}, &scenario{Name: "churn", Runs: 60, Gen: genChurn})), "leak"),
		only(refCrash(mk("C08", "a run is a history, a concurrent episode, a tree surgery or a storm of failing and panicking callbacks; every access the C code makes is checked against the blocks that are live; distinct by hash of all decisions and results",
			on("v6", &scenario{Name: "history", Runs: 1500, Gen: genHistory(safeMix)}, &scenario{Name: "plain", Runs: 1000, Gen: genConc(true), Nontrivial: preempted},
				&scenario{Name: "surgery", Runs: 1000, Gen: genSurgery(surgMix, 2)}, &scenario{Name: "callbacks", Runs: 700, Gen: genCallbacks(cbMix, allEvalFaults, append([]string{"badname"}, allIdentFaults...))}))), "heap", "crash"),
		mk("C09", "a run performs 10-50 random tree operations (parse, clone, free, detach, attach, attach again, replace array elements, attach and detach what does not fit, use, check) on 6 handles against a model of the trees, comparing every result and every remaining tree; distinct by hash of all results",
			on("v6", &scenario{Name: "alone", Runs: 5000, Gen: genSurgery(surgMix, 1)}, &scenario{Name: "together", Runs: 1500, Gen: genSurgery(surgMix, 3)})),
		mk("C10", "a run clones, frees, renames and mutates in random order, comparing originals and clones with what they were; distinct by hash of all results",
			on("v6", append(hist(cloneMix, 1500), shared(cloneMix, 1000, 500)...)...)),
		mk("C11", histRule, on("v6", hist(outMix, 4000)...)),
		mk("C12", "a run renames identifiers of generated trees with callbacks that answer, refuse, fail, panic or use the library again at a random call; the result is compared with a model of the renamed tree and the input must stay as it was; non-trivial when a fault fired",
			join(on("v6", append(cbs(nil, allIdentFaults, 2500), append(storm(cbMix, true, 80), shared(renameMix, 600, 200)...)...)...), on("v4", cbs(nil, allIdentFaults, 900)...), on("v5", cbs(nil, allIdentFaults, 900)...))),
		mk("C13", "a run evaluates and renames with lookups that are missing, fail, panic, stall or use the library again at a random call; non-trivial when a fault fired",
			join(on("v6", append(cbs(allEvalFaults, allIdentFaults, 2500), storm(cbMix, true, 120)...)...), on("v4", append(cbs(fewEvalFaults, allIdentFaults, 900), storm(no6(cbMix), false, 24)...)...), on("v5", append(cbs(fewEvalFaults, allIdentFaults, 900), storm(no6(cbMix), false, 24)...)...))),
		mk("C14", "a run performs 4-20 calls and one or two of the C allocations made from a random call on fail; the program must stop on purpose or report an error, and every answer it still gives must be right; non-trivial when an allocation failed",
			on("v6", &scenario{Name: "v6", Runs: 8000, Gen: genAllocFail, Filter: failStop, Nontrivial: faultsFired})),
		mk("C15", "a run draws generated trees 20-80 times, alone, in pairs and concurrently, with uniform, repeating, constant, cyclic and extreme random sequences; no name may stand for two nodes, in one drawing or in all of a process put together, and nodes, labels and edges must be the tree's; non-trivial when names were drawn from a degenerate sequence",
			pictures(join(on("v6", append(hist(drawMix, 1200), storm(drawMix, true, 60)...)...), on("v6", shared(drawMix, 600, 200)...), on("v5", hist(no6(drawMix), 500)...), on("v5", shared(no6(drawMix), 100, 60)...), on("v4", hist(no6(drawMix), 500)...), on("v4", shared(no6(drawMix), 100, 60)...)))),
		mk("C16", "a run is a history of 20-80 calls on a host with a random time zone, clock (with jumps), locale, CPU count and garbage-collection regime; every result is compared with the one in UTC; non-trivial when a host fault is in force",
			join(on("v6", &scenario{Name: "host", Runs: 4000, Gen: host(genHistory(hostMix)), Nontrivial: faultsFired}), on("v5", &scenario{Name: "host", Runs: 900, Gen: host(genHistory(no6(hostMix))), Nontrivial: faultsFired}), on("v4", &scenario{Name: "host", Runs: 900, Gen: host(genHistory(no6(hostMix))), Nontrivial: faultsFired}))),
	}
}

var realApps = []string{"the programs themselves, each a process of its own (main, flags, library, walkers)", "database/sql, go-sqlite3 and SQLite, gorm, graphql-go, encoding/json", "the Go runtime and net/http's multiplexer"}
var stubApps = []string{"disk (SQLite VFS: names, contents, locks, what survives a loss of power)", "standard output", "clock and sleeping", "process scheduling at every operation", "listening and connections (clients call the handler)", "randomness"}

func appProp(id, rule string, ss ...*scenario) *property {
	p := &property{ID: id, Rule: rule, Scenarios: ss, Real: realApps, Stub: stubApps}
	if ss[0].Harness == "apps-mongo" {
		p.Real = []string{"tsl_mongo itself, each call a process of its own (main, flags, library, walkers)", "the MongoDB Go driver with its connection pools, monitors, retries and cursors", "the Go runtime"}
		p.Stub = []string{"the MongoDB server (a model of its commands, cursors, retryable writes and filters)", "the network", "clock, timers and sleeping", "the order of goroutines and of processes", "standard output", "randomness"}
	}
	return p
}

func eachTarget(targets []string, f func(t string) *scenario) (out []*scenario) {
	for _, t := range targets {
		s := f(t)
		s.Target = t
		s.Name = t + "-" + s.Name
		out = append(out, s)
	}
	return
}

func appProperties() []*property {
	all := []string{"v6", "v5", "v4"}
	two := []string{"v5", "v4"}
	crashed := func(p *plan.Plan, r *plan.Report) bool { return faultsFired(p, r) }
	return []*property{
		appProp("C17", "a run starts 2-10 of the printing tools, alone and side by side, with standard output that fills up, breaks, stalls, is interrupted or takes a write in parts; exit status and output are held against the same call alone; non-trivial when a fault fired",
			eachTarget(all, func(t string) *scenario {
				return &scenario{Name: "cli", Harness: "apps-cli", Runs: 1500, Gen: genCLI(t), Nontrivial: faultsFired}
			})...),
		appProp("C18", "a run prepares and queries a collection with 1-3 processes at a time, kills them or takes away the power at a random operation, loses, tears and reorders what was not synced, and looks at what is there afterwards; non-trivial when a crash happened",
			eachTarget(two, func(t string) *scenario {
				return &scenario{Name: "crash", Harness: "apps-db", Runs: 1000, Gen: genDB(t, crashFaults, 55, 2, true), Nontrivial: crashed}
			})...),
		appProp("C19", "a run prepares and queries a collection with 1-3 processes at a time over a disk that fails, fills up, is slow or busy and a standard output that breaks; who reports success must have succeeded; non-trivial when a fault fired",
			eachTarget(two, func(t string) *scenario {
				return &scenario{Name: "faults", Harness: "apps-db", Runs: 1000, Gen: genDB(t, append(append([]string{}, diskFaults...), outFaults...), 70, 2, false), Nontrivial: faultsFired}
			})...),
		appProp("C20", "a run has 1-4 clients query a server at once while collections are prepared, over a disk that fails; each answer is held against the same request alone; non-trivial when a task was preempted or a fault fired",
			join(eachTarget(two, func(t string) *scenario {
				return &scenario{Name: "web", Harness: "apps-web", Runs: 500, Gen: genWeb(t, append(append([]string{}, diskFaults...), "kill-before:any", "power:any"), 30, true)}
			}), eachTarget(two, func(t string) *scenario {
				return &scenario{Name: "web-race", Harness: "apps-web", Race: true, Runs: 150, Gen: genWeb(t, diskFaults, 20, false)}
			}))...),
		appProp("C21", "a run repeats one round of requests, good, bad and over a failing disk, 8 times; files the server holds open and its goroutines must level off",
			eachTarget(two, func(t string) *scenario {
				return &scenario{Name: "web-leak", Harness: "apps-web", Runs: 200, Gen: genWebLeak(t)}
			})...),
		appProp("C22", "a run has 1-3 clients prepare and query a collection of a MongoDB server at once, over a network that refuses, breaks, delays and tears, with a server that fails commands, refuses writes, loses cursors and restarts; who reports success must have succeeded; non-trivial when a fault fired",
			eachTarget(two, func(t string) *scenario {
				return &scenario{Name: "mongo", Harness: "apps-mongo", Runs: 1000, Gen: genMongo(t), Nontrivial: faultsFired}
			})...),
	}
}

func addTo(l, more []string) []string {
next:
	for _, m := range more {
		for _, x := range l {
			if x == m {
				continue next
			}
		}
		l = append(l, m)
	}
	return l
}

func join(l ...[]*scenario) (out []*scenario) {
	for _, x := range l {
		out = append(out, x...)
	}
	return
}
