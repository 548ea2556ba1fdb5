package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"vsim.local/simrt/plan"
)

// mongoPlaces says among how many operations of a class a fault is placed.
var mongoPlaces = map[string]int{"net": 8, "hello": 3, "dial": 3, "insert": 1, "find": 1, "drop": 1, "delete": 1, "count": 1, "getmore": 5, "out": 8, "any": 12, "quiet": 3}

var mongoFaults = []string{"reset-before:net", "reset-after:net", "torn:net", "blackhole:net", "cmderr:net", "restart:net", "late:net", "lag:net", "pieces:net",
	"reset-before:hello", "torn:hello", "late:hello", "lag:hello", "cmderr:hello", "refused:dial", "unreachable:dial", "slowdial:dial",
	"writeerr:insert", "wcerr:insert", "cmderr:insert", "reset-after:insert", "reset-before:insert", "torn:insert", "restart:insert", "reset-after:drop", "cmderr:drop", "late:drop",
	"cmderr:find", "reset-after:find", "lostcursor:getmore", "cmderr:getmore", "reset-before:getmore", "reset-after:getmore", "torn:getmore", "restart:getmore", "blackhole:getmore",
	"kill-before:net", "kill-after:net", "kill-after:insert", "kill-after:drop", "eio:out", "enospc:out", "epipe:out", "short:out", "eintr:out", "eagain:out"}

func mongoFilter(r *prng, v string, depth int) string {
	if depth > 0 && r.chance(45) {
		if r.chance(50) {
			return mongoFilter(r, v, depth-1) + " and " + mongoFilter(r, v, depth-1)
		}
		return "(" + mongoFilter(r, v, depth-1) + " or " + mongoFilter(r, v, depth-1) + ")"
	}
	switch r.n(12) {
	case 0:
		return "title is not null"
	case 1:
		return fmt.Sprintf("author = '%s'", r.pick("Joe", "Jane", "Nobody", "O''Neill"))
	case 2:
		return fmt.Sprintf("spec.pages %s %d", r.pick("<", ">", "=", "<=", ">=", "!="), r.pickInt(0, 15, 50, 100, 200, 550))
	case 3:
		return fmt.Sprintf("spec.rating %s %d", r.pick("<", ">", "=", "<=", ">="), 1+r.n(5))
	case 4:
		return fmt.Sprintf("title ~= '%s'", r.pick("Other", "Book$", "^My", "o+", "x"))
	case 5:
		return fmt.Sprintf("spec.pages between %d and %d", r.pickInt(0, 15, 50, 77, 100), r.pickInt(100, 150, 200, 400))
	case 6:
		return fmt.Sprintf("title in ('Book', '%s')", r.pick("Good Book", "My Big Book", "none"))
	case 7:
		return fmt.Sprintf("author != '%s'", r.pick("Joe", "Jane"))
	case 8:
		return fmt.Sprintf("title ~! '%s'", r.pick("Other", "Book$", "^My"))
	case 9:
		return fmt.Sprintf("spec.pages %s", r.pick("not between 50 and 150", "in (15, 50, 100)", "not in (50, 100)", "not between 15 and 550"))
	case 10:
		return fmt.Sprintf("spec.rating is %s", r.pick("null", "not null"))
	default:
		if v == "v5" {
			return fmt.Sprintf("on_loan = %s", r.pick("true", "false"))
		}
		return "title = 'Some Other Book'"
	}
}

// genMongo prepares and queries a collection of a server, alone and together.
func genMongo(target string) func(g *genCtx, p *plan.Plan) {
	return func(g *genCtx, p *plan.Plan) {
		r := g.r
		p.Opts = map[string]string{"mdocs": fmt.Sprint(r.pickInt(0, 0, 3, 3, 9, 9, 17, 130)), "mbatch": fmt.Sprint(r.pickInt(1, 2, 3, 5, 101)), "mrs": r.pick("", "1")}
		p.Texts = []string{"title is not null"}
		for i := 0; i < 5; i++ {
			if r.chance(10) {
				p.Texts = append(p.Texts, r.pick(append(append([]string{}, brokenTexts...), unknownTexts...)...))
			} else {
				p.Texts = append(p.Texts, mongoFilter(r, target, 2))
			}
		}
		for e := 0; e < 1+r.n(2); e++ {
			ep := plan.Episode{Sched: plan.Sched{Seed: r.u64(), Mean: int64(r.pickInt(0, 1, 2, 5))}}
			for t := 0; t < 1+r.n(3); t++ {
				var ops []plan.Op
				for i := 0; i < 1+r.n(3); i++ {
					o := plan.Op{K: "mongo." + r.pick("load", "read"), T: r.n(len(p.Texts))}
					if r.chance(30) {
						o.A = r.n(len(mongoSpaces))
					}
					if r.chance(40) {
						o.T = 0
					}
					if r.chance(65) {
						g.faultInto(&o, mongoFaults)
					}
					ops = append(ops, o)
				}
				ep.Tasks = append(ep.Tasks, ops)
			}
			p.Episodes = append(p.Episodes, ep)
		}
		last := []plan.Op{{K: "mongo.read", T: r.n(len(p.Texts))}, {K: "mongo.load"}, {K: "mongo.read", T: r.n(len(p.Texts))}, {K: "mongo.read"}}
		p.Episodes = append(p.Episodes, plan.Episode{Tasks: [][]plan.Op{last}, Sched: plan.Sched{Seed: 1}})
	}
}

// bookOf is how a program prints a stored book, and what filters see of it.
func bookOf(d bdoc, loan bool) (printed, flat row) {
	printed, flat = row{}, row{"spec.pages": nil}
	for _, k := range []string{"title", "author"} {
		if s, ok := d.get(k).(string); ok {
			flat[k] = s
			if s != "" {
				printed[k] = s
			}
		}
	}
	spec := map[string]interface{}{}
	for _, k := range []string{"pages", "rating"} {
		if n, ok := bnum(d.path("spec." + k)); ok {
			flat["spec."+k] = n
			if n != 0 {
				spec[k] = n
			}
		}
	}
	printed["spec"] = spec
	if loan {
		b, _ := d.get("on-loan").(bool)
		printed["on-loan"], flat["on_loan"] = b, b
	}
	return
}

func jsonOf(l []row) (out []string) {
	for _, r := range l {
		t, _ := json.Marshal(r)
		out = append(out, string(t))
	}
	return
}

// judgeMongo holds one call of tsl_mongo against what the server saw of it.
func (m *machine) judgeMongo(i int) string {
	e := &m.events[i]
	what := strings.Join(m.a.argsOfSafe(m.p, e), " ")
	s := m.mongo.of(e.pid)
	loan := m.a.target == "v5"
	books := m.a.solo("none", plan.Op{K: "books"}, "")
	if books.err != "" {
		return books.err
	}
	demo, ok := jsonArray(books.out)
	if !ok || len(demo) == 0 {
		return fmt.Sprintf("tsl_mem does not list the demo books: %q", clipStr(books.out, 200))
	}
	for k := range demo { // the in-memory program prints its books flat
		d, spec := row{"spec": nil}, map[string]interface{}{}
		for n, v := range demo[k] {
			switch {
			case strings.HasPrefix(n, "spec."):
				spec[n[5:]] = v
			case n == "on_loan" || n == "onloan" || n == "on-loan":
				d["on-loan"] = v
			default:
				d[n] = v
			}
		}
		d["spec"] = spec
		demo[k] = d
	}
	space := mongoSpaces[e.op.A%len(mongoSpaces)].ns
	for ns := range s.touched {
		if ns != space {
			m.violate("wrong-collection", e, "%s goes to %s, not to %s", what, ns, space)
			return ""
		}
	}
	text := m.p.Texts[e.op.T%len(m.p.Texts)]
	bad := has(brokenTexts, text) || has(unknownTexts, text)
	out, ok := jsonLines(e.out)
	partial := false
	if !ok || e.out != "" && !strings.HasSuffix(e.out, "\n") { // a line in the middle
		partial = true
		if k := strings.LastIndex(e.out, "\n"); k >= 0 {
			out, ok = jsonLines(e.out[:k+1])
		} else {
			out, ok = nil, true
		}
	}
	got := jsonOf(out)
	p := &fparser{toks: ftokens(text)}
	var f pred
	if !bad {
		f = p.or()
		if p.bad || p.i != len(p.toks) {
			return "the model does not know the filter " + text
		}
	}
	// what a find should have told
	lists := func() (all [][]string) {
		for _, docs := range s.finds {
			var l []row
			for _, d := range docs {
				printed, flat := bookOf(d, loan)
				if f != nil && f(flat) {
					l = append(l, printed)
				}
			}
			all = append(all, jsonOf(l))
		}
		return
	}()
	begins := len(got) == 0
	full := -1
	for k, l := range lists {
		if len(got) <= len(l) && strings.Join(l[:len(got)], "\n") == strings.Join(got, "\n") {
			begins = true
			if len(got) == len(l) && !partial {
				full = k
			}
		}
	}
	if !ok || !begins {
		m.violate("wrong-output", e, "%s prints\n  %s\nwhen the server's books make it\n  %v", what, clipStr(e.out, 400), lists)
		return ""
	}
	if e.killed {
		return ""
	}
	if e.exit == 0 {
		switch {
		case bad:
			m.violate("false-success", e, "%s exits 0 for a bad filter", what)
		case full < 0:
			m.violate("false-success", e, "%s exits 0 after %s, having printed\n  %s\nof\n  %v", what, strings.Join(e.fired, ","), clipStr(e.out, 400), lists)
		case e.op.K == "mongo.load":
			var in []row
			for _, d := range s.inserted {
				printed, _ := bookOf(d, loan)
				in = append(in, printed)
			}
			if s.cleared == 0 || !sameRows(in, demo) {
				m.violate("false-success", e, "%s exits 0 after %s, with the old collection emptied %d times and these books stored:\n  %v\nof\n  %v", what, strings.Join(e.fired, ","), s.cleared, jsonOf(in), jsonOf(demo))
			}
		}
		if strings.TrimSpace(e.stderr) != "" {
			m.rep.Probes["success-with-complaints"]++
		}
		return ""
	}
	m.rep.Probes["failed-visibly"]++
	excuse := bad || len(e.fired) > 0 || s.refused > 0
	for _, t := range m.mongo.restarts {
		excuse = excuse || t >= e.start && t <= e.end
	}
	switch {
	case !excuse:
		m.violate("fails", e, "%s exits %d with no fault: %s", what, e.exit, clipStr(e.stderr, 300))
	case e.exit == 95, e.exit == 141:
	case strings.TrimSpace(e.stderr) == "":
		m.violate("silent", e, "%s exits %d and says nothing", what, e.exit)
	case strings.Contains(e.stderr, "goroutine ") && strings.Contains(e.stderr, "panic"):
		m.violate("panic", e, "%s panics: %s", what, clipStr(e.stderr, 600))
	}
	return ""
}
