package main

import (
	"fmt"
	"strings"

	"vsim.local/simrt/plan"
)

// bookFilter makes a filter over the demo collection.
func bookFilter(r *prng, v string, depth int) string {
	if depth > 0 && r.chance(45) {
		switch r.n(3) {
		case 0:
			return bookFilter(r, v, depth-1) + " and " + bookFilter(r, v, depth-1)
		case 1:
			return "(" + bookFilter(r, v, depth-1) + " or " + bookFilter(r, v, depth-1) + ")"
		default:
			return "not (" + bookFilter(r, v, depth-1) + ")"
		}
	}
	oneill := "O''Neill"
	pages, rating := "spec.pages", "spec.rating"
	if v == "v6" {
		pages, rating = "pages", "rating"
		oneill = "ONeill" // v6 has no quote within quotes
	}
	if v == "v5" && r.chance(10) {
		return fmt.Sprintf("on_loan = %s", r.pick("true", "false"))
	}
	switch r.n(9) {
	case 0:
		return "title is not null"
	case 1:
		return fmt.Sprintf("author = '%s'", r.pick("Joe", "Jane", "Nobody", oneill))
	case 2:
		return fmt.Sprintf("%s %s %d", pages, r.pick("<", ">", "=", "<=", ">=", "!="), r.pickInt(0, 15, 50, 100, 200, 550))
	case 3:
		return fmt.Sprintf("%s %s %d", rating, r.pick("<", ">", "="), r.n(6))
	case 4:
		return fmt.Sprintf("title like '%s'", r.pick("%Other%", "%Book", "My%", "%", "x"))
	case 5:
		return fmt.Sprintf("%s between %d and %d", pages, r.n(100), 101+10*r.n(30))
	case 6:
		l, e := "(", ")"
		if v == "v6" {
			l, e = "[", "]"
		}
		return fmt.Sprintf("title in %s'Book', '%s'%s", l, r.pick("Good Book", "My Big Book", "none"), e)
	case 7:
		return fmt.Sprintf("author != '%s'", r.pick("Joe", "Jane"))
	default:
		return fmt.Sprintf("title = '%s'", r.pick("Book", "Good Book", "Some Other Book"))
	}
}

// appTexts draws filters: mostly good, some over unknown columns, some broken.
func appTexts(r *prng, v string, n int) (out []string) {
	for i := 0; i < n; i++ {
		switch {
		case i == 0:
			out = append(out, "title is not null")
		case r.chance(10):
			out = append(out, r.pick(append(brokenTexts, unknownTexts...)...))
		default:
			out = append(out, bookFilter(r, v, 2))
		}
	}
	return
}

// longText makes a filter whose output is long.
func longText(r *prng, v string) string {
	var l []string
	for i := 0; i < 20+r.n(120); i++ {
		l = append(l, bookFilter(r, v, 0))
	}
	return strings.Join(l, " or ")
}

var outFaults = []string{"enospc:out", "eio:out", "epipe:out", "eagain:out", "short:out", "eintr:out", "short:out eintr:out", "eintr:out enospc:out"}
var diskFaults = []string{"eio:read", "eio:write", "eio:sync", "eio:truncate", "eio:delete", "eio:open", "eio:lock", "eio:size", "eio:access", "eio:any", "enospc:write", "enospc:sync", "busy:lock", "slow:any", "enospc:write eio:delete", "eio:write eio:truncate"}
var crashFaults = []string{"kill-before:any", "kill-after:any", "kill-torn:write", "kill-before:write", "kill-after:sync", "power:any", "power:any", "power:write", "power:sync", "power:quiet", "power:delete", "power:truncate", "kill-before:quiet", "kill-before:out", "power:out"}

func (g *genCtx) faultInto(o *plan.Op, kinds []string) {
	r := g.r
	o.F = kinds[r.n(len(kinds))]
	o.N = r.n(1 << 16)
	o.D = r.pickInt(0, 1, 1, 2, 4)
	if r.chance(30) && !strings.Contains(o.F, " ") { // near the end of the call
		o.F += "~"
	}
	if strings.HasPrefix(o.F, "power") {
		o.S = r.n(4)
	}
}

// genCLI runs the filters through the tools that only print.
func genCLI(target string) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		p.Texts = appTexts(r, target, 6)
		p.Texts = append(p.Texts, longText(r, target))
		apps := []string{"tsl_mem", "tsl_parser"}
		if target == "v6" {
			apps = []string{"tsl", "tsl", "tsl_mem", "tsl_parser"}
		}
		ep := plan.Episode{Sched: plan.Sched{Seed: r.u64(), Mean: int64(r.n(4))}}
		for t := 0; t < 1+r.n(2); t++ {
			var ops []plan.Op
			for i := 0; i < 2+r.n(4); i++ {
				o := plan.Op{K: "cli." + r.pick(apps...), T: r.n(len(p.Texts)), A: r.n(64)}
				if r.chance(80) {
					g.faultInto(&o, outFaults)
				} else if r.chance(20) {
					g.faultInto(&o, []string{"kill-before:out", "kill-torn:out", "slow:out"})
				}
				ops = append(ops, o)
			}
			ep.Tasks = append(ep.Tasks, ops)
		}
		p.Episodes = append(p.Episodes, ep)
	}
}

// genDB prepares and queries collections, alone and together.
func genDB(target string, faults []string, pct int, tasks int, crash bool) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		app := r.pick("sqlite", "gorm")
		p.Opts = map[string]string{"app": app, "image": r.pick("none", "old0", "old2", "old6", "old9")}
		p.Texts = appTexts(r, target, 6)
		n := 1 + r.n(2)
		reads := !crash && r.chance(50) // queries of what is there
		for e := 0; e < n; e++ {
			ep := plan.Episode{Sched: plan.Sched{Seed: r.u64(), Mean: int64(r.pickInt(0, 1, 3, 10, 40))}}
			for t := 0; t < 1+r.n(tasks); t++ {
				var ops []plan.Op
				for i := 0; i < 1+r.n(3); i++ {
					o := plan.Op{K: "load." + app, T: r.n(len(p.Texts))}
					if i == 0 && t == 0 && !reads {
						o.T = 0
					} else if r.chance(55) {
						o.K = "read." + app
					}
					if r.chance(pct) {
						g.faultInto(&o, faults)
					}
					ops = append(ops, o)
				}
				ep.Tasks = append(ep.Tasks, ops)
			}
			p.Episodes = append(p.Episodes, ep)
		}
		// once all faults are over, everything must work
		last := []plan.Op{{K: "read." + app}, {K: "fsck"}, {K: "load." + app}, {K: "read." + app, T: r.n(len(p.Texts))}}
		p.Episodes = append(p.Episodes, plan.Episode{Tasks: [][]plan.Op{last}, Sched: plan.Sched{Seed: 1}})
	}
}

// genWeb lets clients query the server while collections are prepared.
func genWeb(target string, faults []string, pct int, loaders bool) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		p.Opts = map[string]string{"app": "sqlite", "image": r.pick("old0", "old0", "old2", "old5", "none")}
		p.Texts = appTexts(r, target, 7)
		n := 1 + r.n(3)
		for e := 0; e < n; e++ {
			ep := plan.Episode{Sched: plan.Sched{Seed: r.u64(), Mean: int64(r.pickInt(20, 100, 400, 2000, 10000)), SyncPct: r.pickInt(0, 10, 40), OpPct: 20}}
			so := plan.Op{K: "serve"}
			if r.chance(20) {
				so.A = 1
				if r.chance(pct) {
					g.faultInto(&so, faults)
				}
			}
			if r.chance(5) {
				so.F = "inuse:serve"
			}
			ep.Setup = []plan.Op{so}
			for t := 0; t < 1+r.n(4); t++ {
				var ops []plan.Op
				for i := 0; i < 1+r.n(4); i++ {
					o := plan.Op{K: "get", T: r.n(len(p.Texts)), A: r.n(3)}
					if r.chance(15) {
						o.A = 3 + r.n(6)
					}
					if r.chance(pct) {
						g.faultInto(&o, faults)
						if r.chance(10) {
							o.F = "drop"
						}
					}
					ops = append(ops, o)
				}
				ep.Tasks = append(ep.Tasks, ops)
			}
			if loaders && r.chance(60) {
				o := plan.Op{K: "load.sqlite"}
				if r.chance(pct) {
					g.faultInto(&o, append([]string{"kill-before:any", "kill-after:write"}, faults...))
				}
				ep.Tasks = append(ep.Tasks, []plan.Op{o})
			}
			p.Episodes = append(p.Episodes, ep)
		}
		p.Episodes = append(p.Episodes, plan.Episode{Tasks: [][]plan.Op{{{K: "get"}, {K: "get", T: r.n(len(p.Texts))}}}, Sched: plan.Sched{Seed: 1}})
	}
}

// genWebLeak repeats the same rounds of requests.
func genWebLeak(target string) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		genWeb(target, diskFaults, r.pickInt(0, 30, 60), false)(g, p)
		p.Opts["leak"] = "1"
		p.Episodes = p.Episodes[:1]
		p.Episodes[0].Repeat = 8
	}
}
