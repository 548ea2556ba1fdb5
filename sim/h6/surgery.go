package main

import (
	"fmt"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"

	"vsim.local/simrt/engine"
	"vsim.local/simrt/plan"
)

// The model of tree surgery: what the trees a caller owns look like after any
// sequence of detaching, attaching, cloning and freeing. A nil kid is a hole.
type mnode struct {
	kind tsl.Kind
	op   int
	leaf string
	kids []*mnode
}

func model(n *tsl.TSLNode) *mnode {
	m := &mnode{kind: n.Type()}
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		m.op = int(v.Operator)
		if m.kind == tsl.KindBinaryExpr {
			m.kids = append(m.kids, model(v.Left))
		}
		m.kids = append(m.kids, model(v.Right))
	case tsl.TSLArrayLiteral:
		for _, e := range v.Values {
			m.kids = append(m.kids, model(e))
		}
	default:
		m.leaf = showVal(v)
	}
	return m
}

func (m *mnode) copy() *mnode {
	if m == nil {
		return nil
	}
	c := *m
	c.kids = make([]*mnode, len(m.kids))
	for i := range m.kids {
		c.kids[i] = m.kids[i].copy()
	}
	return &c
}

func (m *mnode) holes() bool {
	for _, k := range m.kids {
		if k == nil || k.holes() {
			return true
		}
	}
	return false
}

func (m *mnode) cutable() bool { return m.kind == tsl.KindBinaryExpr || m.kind == tsl.KindUnaryExpr }

func (m *mnode) String() string {
	if m == nil {
		return "_"
	}
	switch m.kind {
	case tsl.KindBinaryExpr:
		return fmt.Sprintf("(%s:%d %s %s)", m.kind, m.op, m.kids[0], m.kids[1])
	case tsl.KindUnaryExpr:
		return fmt.Sprintf("(%s:%d %s)", m.kind, m.op, m.kids[0])
	case tsl.KindArrayLiteral:
		p := make([]string, len(m.kids))
		for i := range p {
			p[i] = m.kids[i].String()
		}
		return fmt.Sprintf("(%s %s)", m.kind, strings.Join(p, " "))
	}
	return fmt.Sprintf("(%s %s)", m.kind, m.leaf)
}

// child is the handle of a node's kid, obtained the way a user obtains it.
func child(n *tsl.TSLNode, i int) *tsl.TSLNode {
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		if i == 0 && n.Type() == tsl.KindBinaryExpr {
			return v.Left
		}
		return v.Right
	case tsl.TSLArrayLiteral:
		return v.Values[i]
	}
	return nil
}

// dumpLike prints the real tree, not descending where the model has a hole:
// a hole must then answer that there is nothing to detach.
func dumpLike(n *tsl.TSLNode, m *mnode) string {
	if m == nil {
		return "_"
	}
	if n == nil {
		return "nil"
	}
	if n.Type() != m.kind {
		return "kind " + n.Type().String()
	}
	kid := func(i int) string {
		if m.kids[i] == nil {
			if d := detach(n, i, m.kind); d != nil {
				return "notahole"
			}
			return "_"
		}
		return dumpLike(child(n, i), m.kids[i])
	}
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		if m.kind == tsl.KindUnaryExpr {
			return fmt.Sprintf("(%s:%d %s)", n.Type(), int(v.Operator), kid(0))
		}
		return fmt.Sprintf("(%s:%d %s %s)", n.Type(), int(v.Operator), kid(0), kid(1))
	case tsl.TSLArrayLiteral:
		if len(v.Values) != len(m.kids) {
			return fmt.Sprintf("array of %d", len(v.Values))
		}
		p := make([]string, len(v.Values))
		for i := range p {
			p[i] = kid(i)
		}
		return fmt.Sprintf("(%s %s)", n.Type(), strings.Join(p, " "))
	default:
		return fmt.Sprintf("(%s %s)", n.Type(), showVal(v))
	}
}

func detach(n *tsl.TSLNode, i int, kind tsl.Kind) *tsl.TSLNode {
	switch {
	case kind == tsl.KindUnaryExpr:
		return n.DetachChild()
	case i == 0:
		return n.DetachLeft()
	}
	return n.DetachRight()
}

func attach(n, c *tsl.TSLNode, i int, kind tsl.Kind) bool {
	switch {
	case kind == tsl.KindArrayLiteral:
		return attachElement(n, i, c)
	case kind == tsl.KindUnaryExpr:
		return n.AttachChild(c)
	case i == 0:
		return n.AttachLeft(c)
	}
	return n.AttachRight(c)
}

type elementer interface {
	AttachElement(index int, child *tsl.TSLNode) bool
}

// attachElement is optional: not every tree this harness is built for has it.
func attachElement(n *tsl.TSLNode, i int, c *tsl.TSLNode) bool {
	e, ok := interface{}(n).(elementer)
	return ok && e.AttachElement(i, c)
}

func hasElements() bool {
	_, ok := interface{}((*tsl.TSLNode)(nil)).(elementer)
	return ok
}

// nodes lists every node of a tree with a real handle.
func nodes(n *tsl.TSLNode, m *mnode, out []place) []place {
	out = append(out, place{n, m, 0})
	for i, k := range m.kids {
		if k != nil {
			out = nodes(child(n, i), k, out)
		}
	}
	return out
}

const nRoots = 6

type root struct {
	n *tsl.TSLNode
	m *mnode
}

type forest [nRoots]root

func forestOf(c *engine.Caller) *forest {
	if c.Aux == nil {
		c.Aux = new(forest)
	}
	return c.Aux.(*forest)
}

type place struct {
	n *tsl.TSLNode
	m *mnode
	i int
}

// places lists every operand position of a tree, with real handles; the
// elements of arrays, which can be replaced but not detached, only if asked.
func places(n *tsl.TSLNode, m *mnode, elements bool) (out []place) {
	for _, p := range nodes(n, m, nil) {
		if p.m.cutable() || elements && p.m.kind == tsl.KindArrayLiteral && hasElements() {
			for i := range p.m.kids {
				out = append(out, place{p.n, p.m, i})
			}
		}
	}
	return out
}

func cleanup(c *engine.Caller) {
	if c.Aux == nil {
		return
	}
	f := forestOf(c)
	for i := range f {
		if f[i].n != nil {
			f[i].n.Free()
		}
		f[i] = root{}
	}
}

func (r *root) check(w *engine.World, c *engine.Caller, what string) string {
	if r.n == nil {
		return "-"
	}
	got := engine.Safe(func() string { return dumpLike(r.n, r.m) })
	if want := r.m.String(); got != want {
		c.Violate("surgery", "after %s the tree is\n  %s\nand must be\n  %s", what, got, want)
	}
	return got
}

func custom(w *engine.World, c *engine.Caller, op plan.Op) (string, bool) {
	if !strings.HasPrefix(op.K, "s.") {
		return "", false
	}
	f := forestOf(c)
	s, d := &f[op.S%nRoots], &f[op.D%nRoots]
	set := func(r *root, n *tsl.TSLNode, m *mnode) {
		if r.n != nil {
			r.n.Free()
		}
		*r = root{n, m}
	}
	switch op.K {
	case "s.parse":
		n, err := tsl.ParseTSL(w.P.Texts[op.T])
		if err != nil || n == nil {
			return "no tree", true
		}
		set(d, n, model(n))
		c.Probe["surgery-parse"]++
		return d.check(w, c, "parsing"), true
	case "s.clone":
		if s.n == nil || s == d {
			return "-", true
		}
		n := s.n.Clone()
		if n == nil {
			c.Violate("surgery", "the clone of %s is nil", s.m)
			return "nil", true
		}
		set(d, n, s.m.copy())
		c.Probe["surgery-clone"]++
		if s.m.holes() {
			c.Probe["surgery-clone-with-holes"]++
		}
		return d.check(w, c, "cloning") + s.check(w, c, "being cloned"), true
	case "s.pick": // a part of a tree, copied, is a tree of its own
		if s.n == nil || s == d {
			return "-", true
		}
		ps := nodes(s.n, s.m, nil)
		p := ps[op.N%len(ps)]
		n := p.n.Clone()
		if n == nil {
			c.Violate("surgery", "the clone of %s within %s is nil", p.m, s.m)
			return "nil", true
		}
		set(d, n, p.m.copy())
		c.Probe["surgery-pick"]++
		return d.check(w, c, "cloning a part") + s.check(w, c, "being cloned in part"), true
	case "s.free":
		if s.n == nil {
			return "-", true
		}
		s.n.Free()
		if op.N&1 == 1 {
			s.n.Free()
		}
		*s = root{}
		return "ok", true
	case "s.detach":
		if s.n == nil || s == d {
			return "-", true
		}
		pl := places(s.n, s.m, false)
		if len(pl) == 0 {
			return "-", true
		}
		p := pl[op.N%len(pl)]
		bin := p.m.kind
		n := detach(p.n, p.i, bin)
		k := p.m.kids[p.i]
		p.m.kids[p.i] = nil
		if (n == nil) != (k == nil) {
			c.Violate("surgery", "detaching operand %d of %s returned nil=%v, the operand being %s", p.i, s.m, n == nil, k)
			return "?", true
		}
		if n == nil {
			c.Probe["surgery-detach-hole"]++
			return "hole", true
		}
		c.Probe["surgery-detach"]++
		set(d, n, k)
		return s.check(w, c, "losing an operand") + d.check(w, c, "being detached"), true
	case "s.attach":
		if s.n == nil || d.n == nil || s == d {
			return "-", true
		}
		pl := places(d.n, d.m, true)
		if len(pl) == 0 {
			return "-", true
		}
		p := pl[op.N%len(pl)]
		bin := p.m.kind
		if p.m.kids[p.i] == nil {
			c.Probe["surgery-fill"]++
		} else if p.m.kind == tsl.KindArrayLiteral {
			c.Probe["surgery-replace-element"]++
		} else {
			c.Probe["surgery-replace"]++
		}
		if !attach(p.n, s.n, p.i, bin) {
			c.Violate("surgery", "attaching %s to operand %d was refused", s.m, p.i)
			return "refused", true
		}
		p.m.kids[p.i] = s.m
		*s = root{}
		return d.check(w, c, "gaining an operand"), true
	case "s.again": // attaching what is attached there already changes nothing
		if s.n == nil {
			return "-", true
		}
		pl := places(s.n, s.m, true)
		if len(pl) == 0 {
			return "-", true
		}
		p := pl[op.N%len(pl)]
		if p.m.kids[p.i] == nil {
			return "-", true
		}
		c.Probe["surgery-again"]++
		if !attach(p.n, child(p.n, p.i), p.i, p.m.kind) {
			c.Violate("surgery", "attaching an operand where it already is was refused")
		}
		return s.check(w, c, "attaching an operand where it already is"), true
	case "s.cycle": // detach and attach back
		if s.n == nil {
			return "-", true
		}
		pl := places(s.n, s.m, false)
		if len(pl) == 0 {
			return "-", true
		}
		p := pl[op.N%len(pl)]
		bin := p.m.kind
		n := detach(p.n, p.i, bin)
		if n == nil {
			return "-", true
		}
		if detach(p.n, p.i, bin) != nil {
			c.Violate("surgery", "an operand could be detached twice")
		}
		attach(p.n, n, p.i, bin)
		c.Probe["surgery-cycle"]++
		return s.check(w, c, "detaching and attaching back"), true
	case "s.wrong": // calls that do not fit the node must change nothing
		if s.n == nil {
			return "-", true
		}
		all := nodes(s.n, s.m, nil)
		p := all[op.N%len(all)]
		other := d.n
		if d == s {
			other = nil
		}
		r := ""
		try := func(what string, refused bool) {
			r += fmt.Sprint(refused, " ")
			if !refused {
				c.Violate("surgery", "%s on %s was not refused", what, p.m)
			}
		}
		kind, size := p.m.kind, len(p.m.kids)
		if kind != tsl.KindBinaryExpr {
			try("DetachLeft", p.n.DetachLeft() == nil)
			try("DetachRight", p.n.DetachRight() == nil)
			try("AttachLeft", !p.n.AttachLeft(other))
			try("AttachRight", !p.n.AttachRight(other))
		} else {
			try("AttachLeft(nil)", !p.n.AttachLeft(nil))
			try("AttachRight(nil)", !p.n.AttachRight(nil))
		}
		if kind != tsl.KindUnaryExpr {
			try("DetachChild", p.n.DetachChild() == nil)
			try("AttachChild", !p.n.AttachChild(other))
		} else {
			try("AttachChild(nil)", !p.n.AttachChild(nil))
		}
		if kind != tsl.KindArrayLiteral {
			size = 0
		} else if size > 0 {
			try("AttachElement(0, nil)", !attachElement(p.n, 0, nil))
		}
		for _, i := range []int{-1, size, size + 1, size + 7, 1 << 30, -1 << 31, 1 << 32, -1 << 32} {
			try(fmt.Sprintf("AttachElement(%d)", i), !attachElement(p.n, i, other))
		}
		var none *tsl.TSLNode
		try("a call on no node", none.DetachLeft() == nil && none.DetachRight() == nil && none.DetachChild() == nil && none.Clone() == nil &&
			!none.AttachLeft(other) && !none.AttachRight(other) && !none.AttachChild(other))
		c.Probe["surgery-misfit"]++
		return r + s.check(w, c, "a misfit call") + d.check(w, c, "a misfit call"), true
	case "s.use": // a tree without holes behaves like its clone
		if s.n == nil || s.m.holes() {
			return "-", true
		}
		c.Probe["surgery-use"]++
		cl := s.n.Clone()
		use := func(n *tsl.TSLNode) string {
			out := ""
			for _, r := range records {
				r := r
				out += engine.Safe(func() string {
					v, err := semantics.Walk(n, func(k string) (interface{}, bool) { v, ok := r[k]; return v, ok })
					if err != nil {
						return "err " + engine.Show(err)
					}
					return engine.Show(v)
				}) + ";"
			}
			out += engine.Safe(func() string { b, err := n.MarshalJSON(); return fmt.Sprintf("%s %v", b, err) })
			out += w.SQL(n)
			return out
		}
		a, b := use(s.n), use(cl)
		cl.Free()
		if a != b {
			c.Violate("surgery", "a rearranged tree %s gives\n  %s\nand its clone\n  %s", s.m, a, b)
		}
		return a, true
	case "s.check":
		out := ""
		for i := range f {
			out += f[i].check(w, c, "all that") + ";"
		}
		return out, true
	}
	return "", false
}
