// Package engine executes a plan against one generation of the library and
// compares every observable result with what the same call yields alone.
package engine

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"vsim.local/simrt"
	"vsim.local/simrt/plan"
	"vsim.local/simrt/simrand"
	"vsim.local/simrt/simtime"
)

const (
	OwnSlots  = 24  // per task
	SharedAt  = 100 // slots from here on are shared and read-only for tasks
	NumShared = 24
)

// Lib is one generation of the library, as the workload sees it.
type Lib struct {
	// Parse returns a tree, or nil and the error.
	Parse func(text string) (interface{}, error)
	// Free, Clone may be nil where trees are plain values.
	Free  func(tree interface{})
	Clone func(tree interface{}) interface{}
	// ErrText describes every observable part of a parse error.
	ErrText func(err error) string
	// Reads are the read-only consumers of a tree.
	Reads map[string]func(tree interface{}) string
	// Draw appends the drawing of a tree to a drawing.
	Draw func(in string, tree interface{}, id string) (string, error)
	// Shape is the picture a tree must give.
	Shape func(tree interface{}) *Shape
	// Eval evaluates against a record; lookups go through get.
	Eval func(tree interface{}, get func(string) (interface{}, bool)) (interface{}, error)
	// Lookup value of a record; ok false if the record has no such field.
	Records []map[string]interface{}
	// Ident renames identifiers.
	Ident func(tree interface{}, check func(string) (string, error)) (interface{}, error)
	// IdentLeaf is how Reads["dump"] prints an identifier of this name.
	IdentLeaf func(name string) string
	// Filter is the lazily rendered SQL condition, Render renders it.
	Filter func(tree interface{}) (interface{}, error)
	Render func(filter interface{}) string
	// Hold collects values handed out by the tree that must outlive it.
	Hold func(tree interface{}) []interface{}
	// MissingIsError: a failed lookup must surface as an error.
	MissingIsError bool
	// Live is the number of live allocations of the library, -1 unknown.
	Live func() int64
	// FailAlloc makes allocations fail, counted from now.
	FailAlloc func([]int64)
	// Reuse has freed C blocks handed out again.
	Reuse func(pct int)
	Stat  func(int) int64
	// Custom handles operations only this generation has.
	Custom func(w *World, c *Caller, op plan.Op) (string, bool)
	// Cleanup gives back what Custom keeps in a caller.
	Cleanup func(c *Caller)
	// DeepCopy copies a plain-value tree, to notice changes to it.
	Snapshot func(tree interface{}) string
}

// Slot holds whatever an operation produced.
type Slot struct {
	Kind   string // "", tree, err, filter, held, model
	Text   int
	Prefix string // key prefix of the derivation ("", "ident:0/")
	V      interface{}
	Str    string
	Strs   []string
	Vals   []interface{}
}

// Caller is one task (or the set-up code) with its own slots.
type Caller struct {
	ID    int
	Ep    int
	Slots [OwnSlots]Slot
	Hash  uint64
	Ops   int64
	Trace []string
	Viol  []plan.Violation
	Fault map[string]int64
	Probe map[string]int64
	OpIdx int
	Aux   interface{}
	drawn []drawing

	failed int64 // allocations failed before this call
}

type World struct {
	P      *plan.Plan
	L      *Lib
	Shared [NumShared]Slot
	Rep    plan.Report
	main   *Caller
	churn  int
}

// drawing is a picture kept, to be put into one with the others.
type drawing struct {
	text int
	dot  string
}

func newCaller(id, ep int) *Caller {
	return &Caller{ID: id, Ep: ep, Hash: 14695981039346656037, Fault: map[string]int64{}, Probe: map[string]int64{}}
}

func (c *Caller) mix(s string) {
	h := c.Hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	c.Hash = h
}

// Violate records a violation seen by this caller.
func (c *Caller) Violate(class, format string, args ...interface{}) {
	if len(c.Viol) < 4 {
		c.Viol = append(c.Viol, plan.Violation{Class: class, Msg: fmt.Sprintf(format, args...), Episode: c.Ep, Task: c.ID, Op: c.OpIdx})
	}
}

func (w *World) Slot(c *Caller, i int) *Slot {
	if i >= SharedAt {
		return &w.Shared[(i-SharedAt)%NumShared]
	}
	return &c.Slots[i%OwnSlots]
}

// Safe runs f and turns a panic into a result.
func Safe(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic: " + fmt.Sprint(r)
			if os.Getenv("VSIM_STACK") != "" {
				os.Stderr.Write(debug.Stack())
			}
		}
	}()
	return f()
}

// Show renders any value unambiguously.
func Show(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case []interface{}:
		p := make([]string, len(x))
		for i := range x {
			p[i] = Show(x[i])
		}
		return "[" + strings.Join(p, ", ") + "]"
	case error:
		return fmt.Sprintf("error %T %q", x, Safe(x.Error))
	case fmt.Stringer:
		return fmt.Sprintf("%T %q", x, x.String())
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprintf("%T %v", v, v)
}

var errInjected = errors.New("injected: the callback failed")

// ref looks up what the call yields alone.
func (w *World) ref(s *Slot, key string) (string, bool) {
	r, ok := w.P.Refs[w.P.Texts[s.Text]]
	if !ok {
		return "", false
	}
	v, ok := r[s.Prefix+key]
	return v, ok
}

func (w *World) expect(c *Caller, s *Slot, key, got string) {
	want, ok := w.ref(s, key)
	if !ok {
		c.Violate("sim-error", "no reference for %q of %q", s.Prefix+key, w.P.Texts[s.Text])
		return
	}
	if got != want {
		if w.failedNow(c) && (strings.HasPrefix(got, "err") || strings.HasPrefix(got, "no tree") || got == "nil") {
			c.Probe["visible-allocation-failure"]++
			return
		}
		c.Violate("differs", "%s%s of %q gives\n  %s\nbut alone it gives\n  %s", s.Prefix, key, w.P.Texts[s.Text], clip(got), clip(want))
	}
}

// failedNow says whether an allocation was made to fail during this call.
func (w *World) failedNow(c *Caller) bool { return w.L.Stat != nil && w.L.Stat(4) > c.failed }

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func (w *World) parse(text string) (interface{}, string) {
	var t interface{}
	s := Safe(func() string {
		v, err := w.L.Parse(text)
		if err != nil {
			t = err
			return w.L.ErrText(err)
		}
		if v == nil {
			return "no tree and no error"
		}
		t = v
		return "tree " + w.L.Reads["dump"](v)
	})
	return t, s
}

func (w *World) evalWith(tree interface{}, rec int, hook func(n int, key string) (interface{}, bool, bool)) (string, int) {
	n := 0
	r := w.L.Records[rec%len(w.L.Records)]
	moved := []string{} // how the times handed out print, and how they print in UTC
	hand := func(t time.Time) time.Time {
		u := t.UTC().String()
		if w.P.Opts["localtimes"] != "" { // the same instant, as this host would have it
			t = t.In(time.Local)
		}
		if s := t.String(); s != u {
			moved = append(moved, s, u)
		}
		return t
	}
	s := Safe(func() string {
		v, err := w.L.Eval(tree, func(k string) (interface{}, bool) {
			n++
			if hook != nil {
				if v, ok, done := hook(n, k); done {
					return v, ok
				}
			}
			v, ok := r[k]
			switch x := v.(type) {
			case time.Time:
				v = hand(x)
			case []interface{}:
				y := x
				if w.P.Opts["localtimes"] != "" {
					y = append([]interface{}{}, x...)
				}
				for i := range y {
					if t, ok := y[i].(time.Time); ok {
						if t = hand(t); w.P.Opts["localtimes"] != "" {
							y[i] = t
						}
					}
				}
				v = y
			}
			return v, ok
		})
		if err != nil {
			return "err " + Show(err)
		}
		if t, ok := v.(time.Time); ok {
			v = t.UTC()
		}
		return Show(v)
	})
	if len(moved) > 0 {
		s = strings.NewReplacer(moved...).Replace(s)
	}
	return s, n
}

func (w *World) identWith(tree interface{}, table int, hook func(n int, key string) (string, error, bool)) (interface{}, string, int, error) {
	n := 0
	var out interface{}
	var rerr error
	names := w.P.Names[table%len(w.P.Names)]
	seen := []string{}
	s := Safe(func() string {
		t, err := w.L.Ident(tree, func(k string) (string, error) {
			n++
			seen = append(seen, k)
			if hook != nil {
				if s, err, done := hook(n, k); done {
					return s, err
				}
			}
			if v, ok := names[k]; ok {
				if v == "!" {
					return "", fmt.Errorf("unknown identifier %q", k)
				}
				return v, nil
			}
			return k, nil
		})
		if err != nil {
			rerr = err
			if w.L.MissingIsError && t != nil { // a failure comes without a tree in v6
				out = t
			}
			return "err " + Show(err)
		}
		out = t
		return "tree " + w.L.Reads["dump"](t)
	})
	return out, s + " asked " + strings.Join(seen, " "), n, rerr
}

// RefFor computes the reference of one text, in a process that does nothing
// else.
func (w *World) RefFor(text string) plan.Ref {
	ref := plan.Ref{}
	tree, s := w.parse(text)
	ref["parse"] = s
	if err, isErr := tree.(error); isErr || tree == nil {
		_ = err
		return ref
	}
	reads := func(prefix string, tree interface{}, deep bool) {
		for k, f := range w.L.Reads {
			ref[prefix+k] = Safe(func() string { return f(tree) })
		}
		for i := range w.L.Records {
			s, n := w.evalWith(tree, i, nil)
			ref[prefix+fmt.Sprintf("eval:%d", i)] = s
			ref[prefix+fmt.Sprintf("lookups:%d", i)] = fmt.Sprint(n)
		}
		if w.L.Filter != nil {
			ref[prefix+"sql"] = w.sqlOf(tree)
		}
		if deep {
			for i := range w.P.Names {
				_, s, n, _ := w.identWith(tree, i, nil)
				ref[prefix+fmt.Sprintf("ident:%d", i)] = s
				ref[prefix+fmt.Sprintf("checks:%d", i)] = fmt.Sprint(n)
			}
		}
	}
	reads("", tree, true)
	for i := range w.P.Names {
		t2, _ := w.parse(text)
		out, _, _, err := w.identWith(t2, i, nil)
		if err == nil && out != nil {
			reads(fmt.Sprintf("ident:%d/", i), out, false)
		}
	}
	return ref
}

func (w *World) sqlOf(tree interface{}) string {
	return Safe(func() string {
		f, err := w.L.Filter(tree)
		if err != nil {
			return "err " + Show(err)
		}
		return w.L.Render(f)
	})
}

// Do performs one operation for a caller and checks what it observes.
func (w *World) Do(c *Caller, op plan.Op) {
	if w.L.Stat != nil {
		c.failed = w.L.Stat(4)
	}
	res := w.do(c, op)
	c.Ops++
	c.mix(op.K)
	c.mix(res)
	if w.P.Trace {
		c.Trace = append(c.Trace, fmt.Sprintf("task %d: %s -> %s", c.ID, Describe(w.P, op), clip(res)))
	}
}

// Describe prints an operation for a human.
func Describe(p *plan.Plan, op plan.Op) string {
	b, _ := json.Marshal(op)
	if op.K == "parse" || op.K == "reenter" {
		return fmt.Sprintf("%s %q", b, p.Texts[op.T%len(p.Texts)])
	}
	return string(b)
}

func (w *World) do(c *Caller, op plan.Op) string {
	L := w.L
	if L.Custom != nil {
		if s, ok := L.Custom(w, c, op); ok {
			return s
		}
	}
	switch op.K {
	case "failalloc": // some allocations of the next calls fail
		at := []int64{int64(op.N) + 1}
		if op.A > 0 {
			at = append(at, int64(op.N+op.A)+1)
		}
		L.FailAlloc(at)
		return "armed"
	case "healalloc":
		L.FailAlloc(nil)
		return "healed"
	case "churn": // a text nobody used before
		w.churn++
		t := strings.NewReplacer("name", fmt.Sprintf("name%d", w.churn), "a ", fmt.Sprintf("a%d ", w.churn), "'x'", fmt.Sprintf("'x%d'", w.churn)).Replace(w.P.Texts[op.T])
		t = fmt.Sprintf("(%s) and zz%d = %d and title like 'yy%d%%'", t, w.churn, w.churn, w.churn)
		v, s := w.parse(t)
		if _, isErr := v.(error); isErr || v == nil {
			return s
		}
		c.Probe["churn"]++
		if d := Safe(func() string { return L.Reads["dump"](v) }); !strings.Contains(d, fmt.Sprintf("zz%d\"", w.churn)) || !strings.Contains(d, fmt.Sprintf("yy%d%%", w.churn)) {
			c.Violate("differs", "the tree of %q has not its names and values: %s", t, clip(d))
		}
		w.evalWith(v, op.A, nil)
		switch op.A % 4 {
		case 1:
			if L.Filter != nil {
				w.sqlOf(v)
			}
		case 2:
			if out, _, _, err := w.identWith(v, op.A, nil); err == nil && out != nil && L.Free != nil {
				L.Free(out)
			}
		case 3:
			w.read("dot", v)
		}
		if L.Free != nil {
			L.Free(v)
		}
		return s
	case "parse":
		d := w.Slot(c, op.D)
		if d.Kind == "tree" && L.Free != nil {
			L.Free(d.V)
		}
		*d = Slot{Text: op.T}
		v, s := w.parse(w.P.Texts[op.T])
		w.expect(c, d, "parse", s)
		if err, ok := v.(error); ok {
			d.Kind, d.V, d.Str = "err", err, s
			if t := Safe(err.Error); strings.HasPrefix(t, "panic: ") {
				c.Violate("crash", "the error of parsing %q cannot be read: %s", w.P.Texts[op.T], clip(t))
			}
			c.Probe["parse-error"]++
		} else if v != nil {
			d.Kind, d.V = "tree", v
			c.Probe["parse-ok"]++
		}
		return s
	case "gc": // garbage is collected and finalizers run, now
		collect()
		c.Fault["garbage-collection"]++
		return "collected"
	case "dot":
		s := w.Slot(c, op.S)
		if s.Kind != "tree" {
			return "-"
		}
		if L.Draw == nil || L.Shape == nil || w.P.Opts["pictures"] == "" {
			break
		}
		var d string
		var err error
		g := Safe(func() string {
			d, err = L.Draw("", s.V, "")
			return CanonDot(d, err)
		})
		w.expect(c, s, "dot", g)
		if err == nil && !strings.HasPrefix(g, "panic: ") && !w.failedNow(c) {
			if sh := L.Shape(s.V); !sh.multiline() {
				if m := sh.mismatch(d); m != "" {
					c.Violate("not-the-tree", "the drawing of %q is not its tree: %s\n%s", w.P.Texts[s.Text], m, clip(d))
				}
				c.Probe["picture-compared"]++
			}
			if len(c.drawn) < 30 {
				c.drawn = append(c.drawn, drawing{s.Text, d})
			}
		}
		return g
	case "dot2": // two trees in one drawing
		s, t := w.Slot(c, op.S), w.Slot(c, op.D)
		if s.Kind != "tree" || t.Kind != "tree" || L.Draw == nil {
			return "-"
		}
		id := ""
		if op.N%3 == 1 {
			id = "root"
		}
		g := Safe(func() string {
			d, err := L.Draw("", s.V, id)
			if err == nil {
				var e string
				e, err = L.Draw("", t.V, "")
				d += "\n" + e
			}
			return CanonDot(d, err)
		})
		c.Probe["joint-drawing"]++
		if i := strings.Index(g, "NAMES: "); i >= 0 {
			if strings.Contains(strings.ReplaceAll(g[i:], "stands for 0 nodes", ""), "stands for") || strings.Contains(g[i:], "parents") {
				c.Violate("shared-name", "drawing %q and %q together: %s", w.P.Texts[s.Text], w.P.Texts[t.Text], clip(g[i:]))
			}
		}
		return g
	case "reerr": // an error kept from earlier still says the same
		s := w.Slot(c, op.S)
		if s.Kind != "err" {
			return "-"
		}
		g := Safe(func() string { return L.ErrText(s.V.(error)) })
		if g != s.Str {
			c.Violate("changed", "the error of parsing %q said\n  %s\nand later says\n  %s", w.P.Texts[s.Text], clip(s.Str), clip(g))
		}
		c.Probe["error-reread"]++
		return g
	case "free":
		s := w.Slot(c, op.S)
		if s.Kind == "tree" && L.Free != nil {
			L.Free(s.V)
			if op.N > 0 {
				L.Free(s.V) // freeing a handle again must do nothing
			}
		}
		*s = Slot{}
		return "ok"
	case "clone":
		s, d := w.Slot(c, op.S), w.Slot(c, op.D)
		if s.Kind != "tree" || s == d || L.Clone == nil {
			return "-"
		}
		if d.Kind == "tree" && L.Free != nil {
			L.Free(d.V)
		}
		v := L.Clone(s.V)
		*d = Slot{Kind: "tree", Text: s.Text, Prefix: s.Prefix, V: v}
		g := Safe(func() string { return L.Reads["dump"](v) })
		w.expect(c, s, "dump", g)
		return g
	case "eval":
		s := w.Slot(c, op.S)
		if s.Kind != "tree" {
			return "-"
		}
		a := op.A % len(L.Records)
		return w.evalOp(c, s, a, op)
	case "ident":
		s, d := w.Slot(c, op.S), w.Slot(c, op.D)
		if s.Kind != "tree" || s.Prefix != "" || s == d {
			return "-"
		}
		return w.identOp(c, s, d, op.A%len(w.P.Names), op)
	case "sql":
		s := w.Slot(c, op.S)
		if s.Kind != "tree" || L.Filter == nil {
			return "-"
		}
		g := w.sqlOf(s.V)
		w.expect(c, s, "sql", g)
		return g
	case "filter": // build now, render later
		s, d := w.Slot(c, op.S), w.Slot(c, op.D)
		if s.Kind != "tree" || s == d || L.Filter == nil {
			return "-"
		}
		if d.Kind == "tree" && L.Free != nil {
			L.Free(d.V)
		}
		*d = Slot{}
		var f interface{}
		var err error
		r := Safe(func() string { f, err = L.Filter(s.V); return "ok" })
		if err != nil || r != "ok" || f == nil {
			return r
		}
		*d = Slot{Kind: "filter", Text: s.Text, Prefix: s.Prefix, V: f}
		return "filter"
	case "render":
		s := w.Slot(c, op.S)
		if s.Kind != "filter" {
			return "-"
		}
		g := Safe(func() string { return L.Render(s.V) })
		w.expect(c, s, "sql", g)
		c.Probe["late-render"]++
		return g
	case "hold":
		s, d := w.Slot(c, op.S), w.Slot(c, op.D)
		if s.Kind != "tree" || s == d || L.Hold == nil {
			return "-"
		}
		if d.Kind == "tree" && L.Free != nil {
			L.Free(d.V)
		}
		vals := L.Hold(s.V)
		n := Slot{Kind: "held", Text: s.Text, Vals: vals}
		for _, v := range vals {
			n.Strs = append(n.Strs, ShowHeld(v))
		}
		*d = n
		return strings.Join(n.Strs, ";")
	case "reheld":
		s := w.Slot(c, op.S)
		if s.Kind != "held" {
			return "-"
		}
		for i, v := range s.Vals {
			if g := ShowHeld(v); g != s.Strs[i] {
				c.Violate("changed", "a value taken from %q was\n  %s\nand later is\n  %s", w.P.Texts[s.Text], clip(s.Strs[i]), clip(g))
			}
		}
		c.Probe["held-reread"]++
		return strings.Join(s.Strs, ";")
	}
	if f, ok := L.Reads[op.K]; ok { // (a "dot" not kept comes here too)
		s := w.Slot(c, op.S)
		if s.Kind != "tree" {
			return "-"
		}
		g := Safe(func() string { return f(s.V) })
		w.expect(c, s, op.K, g)
		return g
	}
	c.Violate("sim-error", "unknown operation %q", op.K)
	return "?"
}

// ShowHeld renders a held value from its current contents.
func ShowHeld(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		return "bytes " + string(x)
	case func() string:
		return Safe(x)
	}
	return Show(v)
}

func (w *World) evalOp(c *Caller, s *Slot, a int, op plan.Op) string {
	key := fmt.Sprintf("eval:%d", a)
	total := 0
	if v, ok := w.ref(s, fmt.Sprintf("lookups:%d", a)); ok {
		fmt.Sscan(v, &total)
	}
	at := 0
	if total > 0 && op.F != "" {
		at = op.N%total + 1
	}
	want, _ := w.ref(s, key)
	text := w.P.Texts[s.Text]
	switch {
	case at == 0:
		g, _ := w.evalWith(s.V, a, nil)
		w.expect(c, s, key, g)
		return g
	case op.F == "missing" || op.F == "missing-value":
		fired := ""
		g, _ := w.evalWith(s.V, a, func(n int, k string) (interface{}, bool, bool) {
			if n == at {
				fired = k
				if op.F == "missing-value" {
					return "stale", false, true
				}
				return nil, false, true
			}
			return nil, false, false
		})
		if fired == "" {
			return g
		}
		c.Fault["lookup-"+op.F]++
		if w.L.MissingIsError && !strings.HasPrefix(g, "err ") {
			c.Violate("swallowed", "evaluating %q, lookup %d (%q) failed, and the evaluation answered %s instead of an error", text, at, fired, clip(g))
		} else if w.L.MissingIsError && !strings.Contains(g, fired) {
			c.Violate("swallowed", "evaluating %q, lookup %d (%q) failed, and the error does not name it: %s", text, at, fired, clip(g))
		}
		return g
	case op.F == "panic":
		fired := false
		g, _ := w.evalWith(s.V, a, func(n int, k string) (interface{}, bool, bool) {
			if n == at {
				fired = true
				panic("injected panic")
			}
			return nil, false, false
		})
		if fired {
			c.Fault["lookup-panic"]++
			if g != "panic: injected panic" {
				c.Violate("swallowed", "evaluating %q, the lookup callback panicked, and the evaluation answered %s", text, clip(g))
			}
		}
		return g
	case op.F == "reenter":
		fired := false
		g, _ := w.evalWith(s.V, a, func(n int, k string) (interface{}, bool, bool) {
			if n == at {
				fired = true
				w.reenter(c, op)
			}
			return nil, false, false
		})
		if fired {
			c.Fault["lookup-reenters"]++
		}
		if g != want {
			c.Violate("differs", "evaluating %q while its lookup callback used the library gives %s, alone it gives %s", text, clip(g), clip(want))
		}
		return g
	case op.F == "slow": // the callback is descheduled for a long simulated time
		g, _ := w.evalWith(s.V, a, func(n int, k string) (interface{}, bool, bool) {
			if n == at {
				c.Fault["lookup-stalls"]++
				simrt.Sleep(stalls[(op.N+op.A+n)%len(stalls)])
			}
			return nil, false, false
		})
		if g != want {
			c.Violate("differs", "evaluating %q with a stalled lookup gives %s, alone it gives %s", text, clip(g), clip(want))
		}
		return g
	}
	return "?"
}

// reenter uses the library from inside one of its callbacks.
func (w *World) reenter(c *Caller, op plan.Op) {
	tmp := Slot{Text: op.T}
	v, s := w.parse(w.P.Texts[op.T])
	w.expect(c, &tmp, "parse", s)
	if _, isErr := v.(error); isErr || v == nil {
		return
	}
	tmp.V = v
	g, _ := w.evalWith(v, op.A, nil)
	w.expect(c, &tmp, fmt.Sprintf("eval:%d", op.A%len(w.L.Records)), g)
	if w.L.Free != nil {
		w.L.Free(v)
	}
}

func (w *World) identOp(c *Caller, s, d *Slot, a int, op plan.Op) string {
	key := fmt.Sprintf("ident:%d", a)
	text := w.P.Texts[s.Text]
	if d.Kind == "tree" && w.L.Free != nil {
		w.L.Free(d.V)
	}
	*d = Slot{}
	total := 0
	if v, ok := w.ref(s, fmt.Sprintf("checks:%d", a)); ok {
		fmt.Sscan(v, &total)
	}
	at := 0
	if total > 0 && op.F != "" {
		at = op.N%total + 1
	}
	before := ""
	if op.F != "" || s != w.Slot(c, op.S) {
		before = Safe(func() string { return w.L.Reads["dump"](s.V) })
	}
	check := func() {
		if before != "" {
			after := Safe(func() string { return w.L.Reads["dump"](s.V) })
			if after != before {
				c.Violate("input-changed", "renaming in %q changed the tree given to it from\n  %s\nto\n  %s", text, clip(before), clip(after))
			}
		}
	}
	fired := ""
	var out interface{}
	var g string
	var err error
	switch {
	case at == 0:
		out, g, _, err = w.identWith(s.V, a, nil)
	case op.F == "error" || op.F == "badname":
		out, g, _, err = w.identWith(s.V, a, func(n int, k string) (string, error, bool) {
			if n == at {
				fired = k
				if op.F == "badname" {
					return "a = = b", nil, true
				}
				return "ignored", errInjected, true
			}
			return "", nil, false
		})
	case op.F == "panic":
		out, g, _, err = w.identWith(s.V, a, func(n int, k string) (string, error, bool) {
			if n == at {
				fired = k
				panic("injected panic")
			}
			return "", nil, false
		})
	case op.F == "reenter":
		out, g, _, err = w.identWith(s.V, a, func(n int, k string) (string, error, bool) {
			if n == at {
				fired = k
				w.reenter(c, op)
			}
			return "", nil, false
		})
	case op.F == "slow":
		out, g, _, err = w.identWith(s.V, a, func(n int, k string) (string, error, bool) {
			if n == at {
				fired = k
				simrt.Sleep(stalls[(op.A+n+at)%len(stalls)])
			}
			return "", nil, false
		})
	}
	if fired != "" {
		c.Fault["rename-"+op.F]++
	}
	check()
	switch {
	case fired == "" || op.F == "reenter" || op.F == "slow":
		w.expect(c, s, key, g)
	case op.F == "error":
		if out != nil && err != nil {
			c.Violate("tree-and-error", "renaming in %q: the check of identifier %d (%q) failed, and there is a tree all the same", text, at, fired)
		} else if err == nil || (!errors.Is(err, errInjected) && !strings.Contains(err.Error(), errInjected.Error())) {
			c.Violate("swallowed", "renaming in %q: the check of identifier %d (%q) failed, and the result is %s", text, at, fired, clip(g))
		}
	case op.F == "badname":
		if out != nil || err == nil {
			if w.L.MissingIsError { // v6 parses the replacement
				c.Violate("swallowed", "renaming in %q: the new name of %q does not parse, and the result is %s", text, fired, clip(g))
			}
		}
	case op.F == "panic":
		if !strings.HasPrefix(g, "panic: injected panic") {
			c.Violate("swallowed", "renaming in %q: the check callback panicked, and the result is %s", text, clip(g))
		}
	}
	if before == "" {
		before = Safe(func() string { return w.L.Reads["dump"](s.V) })
	}
	if (fired == "" || op.F == "reenter" || op.F == "slow") && w.L.IdentLeaf != nil && w.P.Opts["identmodel"] != "" && !w.failedNow(c) {
		want, denied := w.renamed(before, a)
		switch {
		case denied != "" && err != nil && out != nil:
			c.Violate("tree-and-error", "renaming in %q: the check refuses %q, and there is a tree all the same", text, denied)
		case denied != "" && err == nil:
			c.Violate("not-asked", "renaming in %q: the check refuses %q, and the result is %s", text, denied, clip(g))
		case denied == "" && (err != nil || out == nil):
			c.Violate("not-renamed", "renaming in %q: no identifier was refused, and the result is %s", text, clip(g))
		case denied == "":
			if got := Safe(func() string { return w.L.Reads["dump"](out) }); got != want {
				c.Violate("not-renamed", "renaming in %q gives\n  %s\nand every identifier renamed is\n  %s", text, clip(got), clip(want))
			}
		}
		c.Probe["rename-checked"]++
	}
	if out != nil && err == nil {
		if fired != "" && op.F != "reenter" && op.F != "slow" {
			if w.L.Free != nil {
				w.L.Free(out)
			}
		} else {
			*d = Slot{Kind: "tree", Text: s.Text, Prefix: key + "/", V: out}
		}
	}
	return g
}

// renamed is what a tree looks like with every identifier renamed, or the
// identifier that must not be used.
func (w *World) renamed(dump string, table int) (string, string) {
	names := w.P.Names[table%len(w.P.Names)]
	pre, post := w.L.IdentLeaf(""), ""
	i := strings.Index(pre, `""`)
	pre, post = pre[:i+1], pre[i+1:]
	var out strings.Builder
	for {
		j := strings.Index(dump, pre)
		if j < 0 {
			out.WriteString(dump)
			return out.String(), ""
		}
		out.WriteString(dump[:j])
		rest := dump[j+len(pre):]
		k := strings.Index(rest, post)
		name := rest[:k]
		if un, err := strconv.Unquote(`"` + name + `"`); err == nil {
			name = un
		}
		if v, ok := names[name]; ok {
			if v == "!" {
				return "", name
			}
			name = v
		}
		out.WriteString(w.L.IdentLeaf(name))
		dump = rest[k+len(post):]
	}
}

type sentinel struct{ p *int }

// collect runs the garbage collector and every finalizer and cleanup that is
// due, while the caller waits.
func collect() {
	simrt.Outside(func() {
		for i := 0; i < 2; i++ {
			fin, cl := make(chan bool, 1), make(chan bool, 1)
			func() {
				s := &sentinel{new(int)}
				runtime.SetFinalizer(s, func(*sentinel) { fin <- true })
				t := &sentinel{new(int)}
				runtime.AddCleanup(t, func(int) { cl <- true }, 1)
			}()
			runtime.GC()
			after := time.After(5 * time.Second)
			select {
			case <-fin:
			case <-after:
			}
			select {
			case <-cl:
			case <-after:
			}
		}
	})
}

// FreeAll gives back everything a caller still owns.
func (w *World) FreeAll(c *Caller) {
	for i := range c.Slots {
		if c.Slots[i].Kind == "tree" && w.L.Free != nil {
			w.L.Free(c.Slots[i].V)
		}
		c.Slots[i] = Slot{}
	}
	if w.L.Cleanup != nil {
		w.L.Cleanup(c)
	}
}

// SQL renders a tree's condition.
func (w *World) SQL(tree interface{}) string { return w.sqlOf(tree) }

func (w *World) finish(c *Caller) {
	w.Rep.Ops += c.Ops
	w.Rep.Hash = (w.Rep.Hash ^ c.Hash) * 0x100000001b3
	w.Rep.Violations = append(w.Rep.Violations, c.Viol...)
	for k, v := range c.Fault {
		w.Rep.Faults[k] += v
	}
	for k, v := range c.Probe {
		w.Rep.Probes[k] += v
	}
	w.Rep.Trace = append(w.Rep.Trace, c.Trace...)
}

func (w *World) episode(i int, ep *plan.Episode) {
	simrand.Reset(int(ep.Rand[0]), ep.Rand[1])
	w.Rep.Probes["rand-draws"] -= simrand.Draws
	main := newCaller(-1, i)
	w.main = main
	var snaps map[int]string
	w.alone(func() {
		for k, op := range ep.Setup {
			main.OpIdx = k
			w.Do(main, op)
		}
		snaps = w.snapshots()
	})
	var callers []*Caller
	if len(ep.Tasks) > 0 {
		callers = make([]*Caller, len(ep.Tasks))
		bodies := make([]func(), len(ep.Tasks))
		for t := range ep.Tasks {
			callers[t] = newCaller(t, i)
			ops := ep.Tasks[t]
			c := callers[t]
			bodies[t] = func() {
				for k, op := range ops {
					simrt.OpPoint()
					c.OpIdx = k
					w.Do(c, op)
				}
			}
		}
		r := simrt.Run(simrt.Config{Seed: ep.Sched.Seed, Mean: ep.Sched.Mean, SyncPct: ep.Sched.SyncPct,
			OpPct: ep.Sched.OpPct, MaxSteps: ep.Sched.MaxSteps, Replay: ep.Sched.Replay, UseReplay: ep.Sched.UseReplay}, bodies)
		w.Rep.SchedHash = append(w.Rep.SchedHash, r.Hash)
		w.Rep.Hash = (w.Rep.Hash ^ r.Hash) * 0x100000001b3
		if w.P.Trace || w.P.Opts["decisions"] != "" {
			w.Rep.Decisions = append(w.Rep.Decisions, r.Decisions)
		}
		for _, c := range callers {
			w.finish(c)
		}
	}
	w.alone(func() {
		for _, c := range callers {
			w.FreeAll(c)
			main.drawn = append(main.drawn, c.drawn...)
		}
		now := w.snapshots()
		for k := range w.Shared {
			if s := now[k]; s != snaps[k] {
				main.Violate("input-changed", "a tree that callers only read (%q) was\n  %s\nand now is\n  %s", w.P.Texts[w.Shared[k].Text], clip(snaps[k]), clip(s))
			}
		}
		for k, op := range ep.Final {
			main.OpIdx = 1000 + k
			w.Do(main, op)
		}
		w.FreeAll(main)
		w.joint(main)
		for k := range w.Shared {
			if w.Shared[k].Kind == "tree" && w.L.Free != nil {
				w.L.Free(w.Shared[k].V)
			}
			w.Shared[k] = Slot{}
		}
	})
	w.Rep.Probes["rand-draws"] += simrand.Draws
	w.finish(main)
}

// alone runs f as the only task there is, so that the library's own tasks,
// if it starts any, get their turn.
func (w *World) alone(f func()) {
	simrt.Run(simrt.Config{MaxSteps: 200_000_000, Quiet: true}, []func(){f})
}

// joint puts every picture drawn into one: no name may be in two of them.
func (w *World) joint(c *Caller) {
	if len(c.drawn) < 2 {
		return
	}
	c.Probe["pictures-joined"] += int64(len(c.drawn))
	by := map[string]int{}
	for i, d := range c.drawn {
		for _, n := range readDot(d.dot).names {
			if j, ok := by[n]; ok && j != i {
				c.Violate("shared-name", "the drawings of %q and %q, put into one picture, both call a node %q", w.P.Texts[c.drawn[j].text], w.P.Texts[d.text], n)
				return
			}
			by[n] = i
		}
	}
}

func (w *World) snapshots() map[int]string {
	m := map[int]string{}
	for k := range w.Shared {
		if w.Shared[k].Kind == "tree" {
			v := w.Shared[k].V
			f := w.L.Reads["dump"]
			if w.L.Snapshot != nil {
				f = w.L.Snapshot
			}
			m[k] = Safe(func() string { return f(v) })
		}
	}
	return m
}

// Main is the whole program: plan on stdin, report on file descriptor 3.
func Main(l *Lib) {
	debug.SetGCPercent(400)
	if l.Live != nil {
		debug.SetGCPercent(-1) // collected only where a plan says so
		debug.SetMemoryLimit(3 << 30)
	}
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatal("reading the plan: " + err.Error())
	}
	var p plan.Plan
	if err := json.Unmarshal(in, &p); err != nil {
		fatal("the plan: " + err.Error())
	}
	w := &World{P: &p, L: l}
	w.Rep.Faults = map[string]int64{}
	w.Rep.Probes = map[string]int64{}
	w.Rep.Hash = 14695981039346656037
	simrt.FailHook = func(class, msg string) {
		w.Rep.Violations = append(w.Rep.Violations, plan.Violation{Class: class, Msg: msg, Episode: len(w.Rep.SchedHash)})
		if p.Trace || p.Opts["decisions"] != "" {
			w.Rep.Decisions = append(w.Rep.Decisions, simrt.Decisions())
		}
		w.send()
		os.Exit(0)
	}
	if p.Opts["stream"] != "" {
		simrt.StreamFD = 4
	}
	if x, _ := strconv.Atoi(p.Opts["reuse"]); x > 0 && l.Reuse != nil {
		l.Reuse(x)
		w.Rep.Probes["memory-used-again"]++
	}
	if tz := p.Opts["tz"]; tz != "" { // the host's time zone: name:seconds
		f := strings.SplitN(tz, ":", 2)
		off, _ := strconv.Atoi(f[1])
		time.Local = time.FixedZone(f[0], off)
		w.Rep.Faults["foreign-time-zone"]++
	}
	if b := p.Opts["clock"]; b != "" {
		sec, _ := strconv.ParseInt(b, 10, 64)
		simtime.Base = time.Unix(sec, 0)
		w.Rep.Faults["clock-moved"]++
	}
	if j := p.Opts["jitter"]; j != "" {
		n, _ := strconv.ParseUint(j, 10, 64)
		simtime.Jitter = func() time.Duration {
			n = n*6364136223846793005 + 1442695040888963407
			return time.Duration(int64(n>>20)%int64(48*time.Hour)) - 24*time.Hour
		}
		w.Rep.Faults["clock-jumps"]++
	}
	if p.RefMode {
		w.alone(func() { w.Rep.Ref = w.RefFor(p.Texts[0]) })
		w.send()
		return
	}
	if len(p.AllocFail) > 0 && l.FailAlloc != nil {
		l.FailAlloc(p.AllocFail)
	}
	races := raceErrors()
	for i := range p.Episodes {
		ep := &p.Episodes[i]
		n := ep.Repeat
		if n < 1 {
			n = 1
		}
		live := make([]int64, 0, n)
		for k := 0; k < n; k++ {
			w.episode(i, ep)
			if l.Live != nil && ep.Repeat > 1 {
				live = append(live, l.Live())
			}
		}
		if m := len(live); m >= 4 {
			// the same work done again must not hold more memory every time
			grows := true
			for k := 2; k < m; k++ {
				if live[k] <= live[k-1] {
					grows = false
				}
			}
			if grows {
				w.Rep.Violations = append(w.Rep.Violations, plan.Violation{Class: "leak", Episode: i,
					Msg: fmt.Sprintf("after each repetition of the same work, with everything freed, more blocks stay allocated: %v", live)})
			}
			w.Rep.Probes["leak-cycles"] += int64(m)
		}
		if r := raceErrors(); r > races {
			w.Rep.Violations = append(w.Rep.Violations, plan.Violation{Class: "data-race", Episode: i,
				Msg: fmt.Sprintf("%d unsynchronised conflicting accesses", r-races)})
		}
		if len(w.Rep.Violations) > 0 {
			break
		}
	}
	w.send()
}

func (w *World) send() {
	w.Rep.Done = true
	w.Rep.Steps = simrt.TotalSteps
	w.Rep.Switches = simrt.Switches
	w.Rep.Preempts = simrt.Preempts
	w.Rep.Blocked = simrt.BlockedCnt
	w.Rep.SyncOps = simrt.SyncOps
	if w.L.Stat != nil {
		w.Rep.Allocs = w.L.Stat(2)
		w.Rep.CAccesses = w.L.Stat(3)
		if n := w.L.Stat(4); n > 0 {
			w.Rep.Faults["allocation-fails"] += n
		}
	}
	b, _ := json.Marshal(&w.Rep)
	f := os.NewFile(3, "report")
	if f == nil {
		f = os.Stdout
	}
	if _, err := f.Write(append(b, '\n')); err != nil {
		os.Stdout.Write(append(b, '\n'))
	}
	runtime.KeepAlive(w)
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "engine:", s)
	os.Exit(98)
}

// stalls of callbacks: from a millisecond to a month
var stalls = []int64{1e6, 50e6, 2e9, 45e9, 900e9, 2 * 3600e9, 720 * 3600e9}

// read makes a reading nobody looks at.
func (w *World) read(what string, tree interface{}) {
	if f := w.L.Reads[what]; f != nil {
		Safe(func() string { return f(tree) })
	}
}
