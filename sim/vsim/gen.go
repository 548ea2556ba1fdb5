package main

import (
	"fmt"
	"strings"

	"vsim.local/simrt"
	"vsim.local/simrt/plan"
)

// prng is the one source of choices of a run.
type prng struct{ s uint64 }

func newPrng(parts ...interface{}) *prng {
	h := uint64(14695981039346656037)
	for _, c := range []byte(fmt.Sprint(parts...)) {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return &prng{h}
}
func (r *prng) u64() uint64             { return simrt.SplitMix(&r.s) }
func (r *prng) n(k int) int             { return int(r.u64() % uint64(k)) }
func (r *prng) chance(pct int) bool     { return r.n(100) < pct }
func (r *prng) pick(l ...string) string { return l[r.n(len(l))] }
func (r *prng) pickInt(l ...int) int    { return l[r.n(len(l))] }

// texts: filter texts of one generation of the language. Each draws on the
// words a user would write, so that trees have every kind of node.
type texts struct {
	r     *prng
	v6    bool
	twins map[string]string
}

var idents = []string{"name", "city", "pages", "rating", "spec.pages", "tags", "nums", "ok", "flags", "date", "nil", "title", "author", "size", "a", "b", "c", "nosuch"}

func (t *texts) ident() string {
	r := t.r
	if t.v6 && r.chance(12) {
		return r.pick("tags[0]", "tags[*]", "pods[my.pod/x].status", "a_b/c.d", "_x1", "labels[app.kubernetes.io/name]")
	}
	if !t.v6 && r.chance(12) {
		return r.pick("`a b`", "[x.y]", "spec.a/b", "_x1", `"q d"`)
	}
	return idents[r.n(len(idents))]
}

func (t *texts) number() string {
	r := t.r
	switch r.n(6) {
	case 0:
		return fmt.Sprint(r.n(300))
	case 1:
		return fmt.Sprintf("%d.%d", r.n(100), r.n(1000))
	case 2:
		return fmt.Sprintf("%d%s", 1+r.n(9), r.pick("Ki", "Mi", "Gi", "k", "M", "K", "G"))
	case 3:
		return fmt.Sprintf("%de%d", 1+r.n(9), r.n(4))
	case 4:
		return fmt.Sprintf("-%d", r.n(50))
	}
	return r.pick("1", "2", "3", "5", "14", "0", "42")
}

func (t *texts) str() string {
	r := t.r
	s := r.pick("Joe", "jane", "rome", "Paris", "A good book", "", "a", "x y", "%oo%", "_ane", "Ünïcødé", "100%", "it is; DROP TABLE", "~", "line", "true", "null")
	if t.v6 {
		switch r.n(4) {
		case 0:
			return `"` + s + `"`
		case 1:
			return "`" + s + "`"
		case 2:
			return `'` + s + r.pick(`\'`, `\n`, `\\`, ``) + `'`
		}
	}
	if r.chance(10) && !t.v6 {
		s += "''"
	}
	return "'" + s + "'"
}

func (t *texts) date() string {
	return t.r.pick("2023-05-17T10:30:00Z", "2023-05-18T00:00:00+02:00", "2023-01-31T23:59:59+05:30", "2023-07-04T12:00:00-07:00", "2020-01-01T01:02:03.456Z", "2023-05-17", "2024-02-29")
}

func (t *texts) lit() string {
	switch t.r.n(8) {
	case 0, 1, 2:
		return t.number()
	case 3, 4, 5:
		return t.str()
	case 6:
		return t.date()
	}
	return t.r.pick("true", "false", "TRUE")
}

func (t *texts) math(d int) string {
	r := t.r
	if d <= 0 || r.chance(55) {
		if t.v6 && r.chance(30) {
			return t.lit()
		}
		return t.ident()
	}
	rhs := t.ident()
	if r.chance(60) {
		rhs = t.number()
	}
	s := t.math(d-1) + " " + r.pick("+", "-", "*", "/", "%") + " " + rhs
	if r.chance(40) {
		s = "(" + s + ")"
	}
	if t.v6 && r.chance(10) {
		s = r.pick("-", "len ", "sum ", "+ ") + s
	}
	return s
}

func (t *texts) list(n int) string {
	p := make([]string, n)
	for i := range p {
		p[i] = t.lit()
		if t.v6 && t.r.chance(35) {
			p[i] = t.ident()
		}
		if t.v6 && t.r.chance(12) {
			switch t.r.n(4) {
			case 0:
				p[i] = t.list(t.r.n(3))
			case 1:
				p[i] = "(" + t.ident() + t.r.pick(" = ", " > ", " and ") + t.lit() + ")"
			default:
				p[i] = t.math(1)
			}
		}
	}
	l, r := "(", ")"
	if t.v6 {
		l, r = "[", "]"
	}
	tail := ""
	if t.v6 && n > 0 && t.r.chance(15) {
		tail = ","
	}
	return l + strings.Join(p, ", ") + tail + r
}

func (t *texts) cmp(d int) string {
	r := t.r
	not := ""
	if r.chance(30) {
		not = r.pick("not ", "NOT ")
	}
	l := t.math(d)
	switch r.n(10) {
	case 0:
		if t.v6 && r.chance(40) {
			return l + " " + not + r.pick("like ", "ilike ") + t.ident()
		}
		return l + " " + not + r.pick("like ", "ilike ", "LIKE ") + t.str()
	case 1:
		return l + " is " + not + "null"
	case 2, 3:
		n := r.n(5)
		if r.chance(12) { // a long list
			n = 8 + r.n(24)
		}
		return l + " " + not + "in " + t.list(n)
	case 4:
		if t.v6 && r.chance(40) {
			return l + " " + not + "between " + t.ident() + " and " + t.math(1)
		}
		return l + " " + not + "between " + t.lit() + " and " + t.lit()
	case 5:
		return l + r.pick(" ~= ", " ~! ") + t.str()
	case 6:
		if t.v6 {
			return r.pick("any ", "all ", "len ", "sum ", "not ") + "(" + l + r.pick(" > ", " = ", " <= ") + t.lit() + ")"
		}
	}
	rhs := t.lit()
	if r.chance(35) {
		rhs = t.math(d - 1)
	}
	return l + " " + r.pick("=", "!=", "<>", "<", "<=", ">", ">=") + " " + rhs
}

func (t *texts) expr(d int) string {
	r := t.r
	if d <= 0 || r.chance(25) {
		return t.cmp(2)
	}
	switch r.n(5) {
	case 0, 1:
		return t.expr(d-1) + r.pick(" and ", " AND ") + t.expr(d-1)
	case 2, 3:
		return t.expr(d-1) + r.pick(" or ", " OR ", "\n or ") + t.expr(d-1)
	}
	s := "(" + t.expr(d-1) + ")"
	if r.chance(50) {
		s = "not " + s
	}
	return s
}

// broken damages a text the way users and truncated transfers do.
func (t *texts) broken() string {
	r := t.r
	s := t.expr(1 + r.n(2))
	switch r.n(8) {
	case 0, 1:
		return s[:r.n(len(s)+1)]
	case 2:
		return s + " " + r.pick("and", "or", "=", "(", ")", ",", "not", "between 1", "in [1,", "is")
	case 3:
		i := r.n(len(s) + 1)
		return s[:i] + r.pick("(", ")", "'", "\"", "`", "=", " and ", "@", "[", "]", "#", "\x00", "é") + s[i:]
	case 4:
		f := strings.Fields(s)
		i := r.n(len(f))
		return strings.Join(append(append([]string{}, f[:i]...), f[i+1:]...), " ")
	case 5:
		return r.pick("and", "or", "not") + " " + s
	case 6:
		f := strings.Fields(s)
		i := r.n(len(f))
		f[i] = f[i] + " " + f[i]
		return strings.Join(f, " ")
	}
	return r.pick("a = ", "= 1", "a b c", "(a = 1", "a = 1)", "a in ", "a between 1", "'open", "a like", "a = 'x", "[1,2", "1 = = 2", "a is nil", "))))")
}

// pool is the set of texts one check works on.
func (t *texts) pool(n int) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] && len(s) < 6000 {
			seen[s] = true
			out = append(out, s)
		}
	}
	r := t.r
	long := strings.Repeat("abcdefghij", 60)
	for _, s := range []string{"", " ", "name = 'Joe'", "a", "a = 1 and b = 2", "a = 1 or b = 2 and c = 'x'", "not a = 1",
		"name = 'Joe' and (pages > 10 or rating < 5)", "a = 1 @", "a = '" + long + "'", "a == " + long, long + " = 1", long + " " + long,
		"date > 2023-05-17T10:30:00Z", "date = 2023-05-17", "date between 2020-01-01T00:00:00Z and 2030-01-01T00:00:00Z",
		"date > 2023-05-17T10:30:00+02:00", "date between 2023-01-01T00:00:00+05:30 and 2023-12-31T23:59:59-07:00", "date = 2023-05-17T12:30:00+02:00 or date = 2023-05-17",
		"name like '%oe' or name ilike 'JO%'", "size >= 1Ki", "size = 2Ki or size < 1.5Mi", "nil is null and name is not null",
		"name ilike '%irina%'", "city ilike '%I%' or title ilike 'i'", "title ilike '%i%' and not name ilike 'irina'", "date > 2023-05-17", "when < 2023-05-17T00:00:00Z or day >= 2023-05-17", "c > 2023-05-17T10:30:00Z", "a < 2023-05-17", "b <= 2023-05-17", "date > '10:30:00'", "date < 'now'", "rating = 1.5", "pages > 1.2"} {
		add(s)
	}
	if t.v6 {
		for _, s := range []string{"name in ['Joe', 'jane']", "name in [c, 'Joe', author]", "pages between b and pages", "len tags = 2", "any (nums > 2)", "all (nums > 0)", "sum nums = 7.1", "sum nums", "(sum nums) + sum [0.1, 0.2, 0.3, 1.1, 2.2, 3.3, 4.7]",
			"true", "false", "1", "-1", "'only a string'", "[]", "[1, 'a', true, a]", "2023-05-17", "name in []", "not name", "a[0].b = 1",
			strings.Repeat("(", 300) + "a = 1" + strings.Repeat(")", 300), strings.Repeat("not ", 120) + "ok",
			"a = 1\nand b = ", "date > '2023-05-17'", "day = 2023-05-17", "day < 2023-05-18T00:00:00+02:00", "when between '2023-05-16' and 2023-05-18", "day in [2023-05-17, '2023-05-16', 2023-05-17T00:00:00Z]", "any (days > 2023-05-16)",
			"a in [1, b + 2, [3, c], (a = 1), 5, 6, 7, 8, 9, 10, b, 12, 13, [14], len tags, 16, 'x', true]", "a = 1 and\n  b = 2 and\n  c = 'x'", "pages + 1 * 2 - size / 3 % 4 > 0", "'2023-05-17' = date", "\"2023-05-17T10:30:00Z\" < date",
			"[" + strings.TrimSuffix(strings.Repeat("a, ", 60), ", ") + "]", "a = \"x\\\"y\\\\z\\n\"",
			"date = 2023-05-17T10:30:00Z", "date in [2023-05-17T12:30:00+02:00, 2020-01-01]", "2023-05-17T10:30:00Z in days", "any (days > 2023-05-17)", "all (days < 2023-05-17)", "2023-05-17 in days", "'I' in tags", "'today' in days", "date between 'yesterday' and 'tomorrow'", "name + 1 = 2", "c and date", "not date"} {
			add(s)
		}
	} else {
		for _, s := range []string{"name in ('Joe', 'jane')", "pages in (1, 2, 14)", "name not in ('x')", "day = 2023-05-17", "day < 2023-05-18T00:00:00+02:00", "date > 2023-05-16", "when between 2023-05-16 and 2023-05-18", "name in ('x', 'c', 'b', 'a', 'Joe', 'jane')", "pages in (200, 14, 5, 1)", "pages between 1 and 20", "name is 'Joe'", "ok is true", "ok = true",
			strings.Repeat("(", 40) + "a = 1" + strings.Repeat(")", 40), strings.Repeat("not ", 30) + "a = 1", "pages + 1 * 2 - size / 3 % 4 > 0", "a = 1 and", "spec.pages = 3",
			"date = 2023-05-17T10:30:00Z", "date != 2023-05-17T12:30:00+02:00", "date in (2023-05-17T10:30:00Z, 2020-01-01)", "c not in (2023-05-17T03:30:00-07:00, 2020-01-01)", "date >= 2023-05-17T10:30:00Z and date <= 2023-05-17T16:00:00+05:30", "c = 2023-05-17T10:30:00Z", "date between 2023-05-17T10:30:00Z and 2023-05-19"} {
			add(s)
		}
	}
	for i := 0; i < 8; i++ { // lengths where buffers end
		k := r.pickInt(16, 32, 64, 100, 128, 255, 256, 256, 512, 1000, 1024, 1024, 2048, 4096, 5000) + r.n(5) - 2
		w := strings.Repeat("abcdefghijklmnopqrstuvwxyz0123456789_", 200)[:k]
		switch r.n(9) {
		case 0:
			add(w + " = 1")
		case 1:
			add("name = '" + w + "'")
		case 2:
			add("name like '%" + w + "%' or name = 'Joe'")
		case 3:
			add("name = '" + w) // never ends
		case 4:
			add("a = 1 " + w)
		case 5:
			add("a = 0." + strings.Repeat("12345", 1100)[:k])
		case 6:
			add("a = 1" + strings.Repeat(" ", k) + "and b = 2")
		case 7:
			add("a = 1 and" + strings.Repeat("\n", k) + " = 2")
		case 8:
			o, e := "(", ")"
			if t.v6 {
				o, e = "[", "]"
			}
			m := min(k, 130)
			add("pages in " + o + strings.TrimSuffix(strings.Repeat("14,", m), ",") + e)
		}
	}
	for len(out) < n {
		switch {
		case r.chance(28):
			add(t.broken())
		case r.chance(10):
			add(t.expr(4))
		default:
			add(t.expr(r.n(4)))
		}
	}
	// twins: texts that differ in little, which whoever remembers things may confuse
	t.twins = map[string]string{}
	for _, s := range [][2]string{{"name like 'jo%'", "name ilike 'jo%'"}, {"name like 'JO%' or a = 2", "name like 'Jo%' or a = 2"}, {"title like '%book%'", "title ilike '%book%'"}, {"name = 'Joe'", "name = 'joe'"}, {"a = 1", "A = 1"}, {"a = 1", "a = '1'"}, {"a < 2023-05-17", "a < '2023-05-17'"}} {
		add(s[0])
		add(s[1])
		t.twins[s[0]], t.twins[s[1]] = s[1], s[0]
	}
	for i, k := 0, len(out)/3; i < k; i++ {
		a := out[r.n(len(out))]
		if b := t.twin(a); b != a && len(a) < 2000 {
			add(b)
			t.twins[a], t.twins[b] = b, a
		}
	}
	return out
}

// twin changes one little thing in a text.
func (t *texts) twin(s string) string {
	r := t.r
	at := func(ok func(c byte, quoted bool) bool) int {
		var is []int
		q := false
		for i := 0; i < len(s); i++ {
			if s[i] == '\'' {
				q = !q
			}
			if ok(s[i], q) {
				is = append(is, i)
			}
		}
		if len(is) == 0 {
			return -1
		}
		return is[r.n(len(is))]
	}
	letter := func(c byte) bool { return c|32 >= 'a' && c|32 <= 'z' }
	for k := 0; k < 6; k++ {
		switch r.n(8) {
		case 0, 1:
			for _, w := range [][2]string{{" ilike ", " like "}, {" like ", " ilike "}, {" ~= ", " ~! "}, {" ~= ", " like "}} {
				if strings.Contains(s, w[0]) {
					return strings.Replace(s, w[0], w[1], 1)
				}
			}
		case 2, 3: // upper or lower case within a string
			if i := at(func(c byte, q bool) bool { return q && letter(c) }); i >= 0 {
				return s[:i] + string(s[i]^32) + s[i+1:]
			}
		case 4: // another digit
			if i := at(func(c byte, q bool) bool { return c >= '1' && c <= '8' }); i >= 0 {
				return s[:i] + string(s[i]+1) + s[i+1:]
			}
		case 5: // a number or a string of digits
			if i := at(func(c byte, q bool) bool { return !q && c >= '0' && c <= '9' }); i > 0 && s[i-1] == ' ' && (i+1 == len(s) || s[i+1] == ' ') {
				return s[:i] + "'" + s[i:i+1] + "'" + s[i+1:]
			}
		case 6:
			for _, w := range [][2]string{{" and ", " or "}, {" or ", " and "}, {" = ", " != "}, {" > ", " >= "}, {" < ", " <= "}, {" is null", " is not null"}, {" in ", " not in "}} {
				if strings.Contains(s, w[0]) {
					return strings.Replace(s, w[0], w[1], 1)
				}
			}
		case 7: // the end of a string
			if i := strings.LastIndex(s, "'"); i > 0 {
				return s[:i] + r.pick(" ", "%", "x", "e") + s[i:]
			}
		}
	}
	return s
}

var renames = []map[string]string{
	{},
	{"name": "t.name", "city": "u.city", "pages": "spec.pages", "a": "b", "b": "a", "c": "very_long_identifier_name.with.parts/and.more", "tags": "labels", "nums": "numbers"},
	{"nosuch": "!", "size": "!", "a": "aa", "name": "title", "date": "when", "pages": "nums", "author": "name"},
}

// genCtx is what plan generators draw from.
type genCtx struct {
	r      *prng
	texts  []string
	valid  []int
	broken []int
	refs   map[string]plan.Ref
	twins  map[string]int
}

// mix is a workload: how often each kind of call is made.
type mix struct {
	w     map[string]int
	order []string
	total int
}

func newMix(kv ...interface{}) *mix {
	m := &mix{w: map[string]int{}}
	for i := 0; i < len(kv); i += 2 {
		k, n := kv[i].(string), kv[i+1].(int)
		m.order = append(m.order, k)
		m.w[k] = n
		m.total += n
	}
	return m
}

func (m *mix) draw(r *prng) string {
	k := r.n(m.total)
	for _, s := range m.order {
		if k < m.w[s] {
			return s
		}
		k -= m.w[s]
	}
	return m.order[0]
}

// slots mirrors, while a plan is made up, what a caller's slots will hold.
type slots struct {
	kind [24]string
	text [24]int
	pref [24]bool
}

func (s *slots) pick(r *prng, kind string) (int, bool) {
	var c []int
	for i, k := range s.kind {
		if k == kind {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return 0, false
	}
	return c[r.n(len(c))], true
}

func (s *slots) free(r *prng, limit int) int {
	var c []int
	for i := 0; i < limit && i < len(s.kind); i++ {
		if s.kind[i] == "" {
			c = append(c, i)
		}
	}
	if len(c) > 0 {
		return c[r.n(len(c))]
	}
	return r.n(limit)
}

type opCfg struct {
	mix        *mix
	brokenPct  int
	shared     []int // shared slots that hold trees (text index by position)
	sharedPct  int   // how often a shared tree is the subject
	evalFault  []string
	evalPct    int
	identFault []string
	identPct   int
	noFree     bool
	limit      int // number of own slots in use
}

func (g *genCtx) text(brokenPct int) int {
	if len(g.broken) > 0 && g.r.chance(brokenPct) || len(g.valid) == 0 {
		return g.broken[g.r.n(len(g.broken))]
	}
	return g.valid[g.r.n(len(g.valid))]
}

// ops makes up a sequence of n calls that makes sense.
func (g *genCtx) ops(c *opCfg, n int) []plan.Op {
	r := g.r
	if c.limit == 0 {
		c.limit = 8
	}
	var s slots
	var out []plan.Op
	emit := func(o plan.Op) { out = append(out, o) }
	parse := func() {
		d := s.free(r, c.limit)
		t := g.text(c.brokenPct)
		emit(plan.Op{K: "parse", T: t, D: d})
		s.kind[d], s.text[d], s.pref[d] = "tree", t, false
		if !g.isValid(t) {
			s.kind[d] = "err"
		}
	}
	for guard := 0; len(out) < n && guard < 20*n; guard++ {
		k := c.mix.draw(r)
		subject := func() (int, bool) {
			if len(c.shared) > 0 && r.chance(c.sharedPct) {
				return 100 + r.n(len(c.shared)), true
			}
			return s.pick(r, "tree")
		}
		switch k {
		case "parse":
			parse()
		case "gc":
			emit(plan.Op{K: "gc"})
		case "dot2":
			i, ok := subject()
			j, ok2 := subject()
			if ok && ok2 {
				emit(plan.Op{K: k, S: i, D: j, N: r.n(3)})
			}
		case "free":
			i, ok := s.pick(r, r.pick("tree", "tree", "tree", "filter", "held"))
			if !ok {
				continue
			}
			emit(plan.Op{K: "free", S: i, N: boolInt(r.chance(25))})
			s.kind[i] = ""
		case "reerr":
			if i, ok := s.pick(r, "err"); ok {
				emit(plan.Op{K: k, S: i})
			}
		case "render":
			if i, ok := s.pick(r, "filter"); ok {
				emit(plan.Op{K: k, S: i})
			}
		case "reheld":
			if i, ok := s.pick(r, "held"); ok {
				emit(plan.Op{K: k, S: i})
			}
		case "clone", "filter", "hold", "ident":
			i, ok := subject()
			if !ok {
				if len(c.shared) == 0 {
					parse()
				}
				continue
			}
			d := s.free(r, c.limit)
			if d == i {
				continue
			}
			o := plan.Op{K: k, S: i, D: d}
			if k == "ident" {
				o.A = r.n(len(renames))
				if len(c.identFault) > 0 && r.chance(c.identPct) {
					o.F = c.identFault[r.n(len(c.identFault))]
					o.N = r.n(64)
					o.T = g.text(20)
				}
			}
			emit(o)
			switch k {
			case "clone":
				s.kind[d] = "tree"
			case "filter":
				s.kind[d] = "filter"
			case "hold":
				s.kind[d] = "held"
			case "ident":
				s.kind[d] = "tree"
				if o.F != "" {
					s.kind[d] = ""
				}
			}
		case "eval":
			i, ok := subject()
			if !ok {
				parse()
				continue
			}
			o := plan.Op{K: k, S: i, A: r.n(30)}
			if len(c.evalFault) > 0 && r.chance(c.evalPct) {
				o.F = c.evalFault[r.n(len(c.evalFault))]
				o.N = r.n(64)
				o.T = g.text(20)
			}
			emit(o)
		default: // a read
			i, ok := subject()
			if !ok {
				parse()
				continue
			}
			emit(plan.Op{K: k, S: i})
		}
	}
	return out
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (g *genCtx) isValid(t int) bool {
	return strings.HasPrefix(g.refs[g.texts[t]]["parse"], "tree ")
}

// sched draws the scheduling regime of an episode (swarm style).
func (g *genCtx) sched() plan.Sched {
	r := g.r
	means := []int64{0, 2, 8, 40, 200, 1000, 5000}
	return plan.Sched{Seed: r.u64(), Mean: means[r.n(len(means))], SyncPct: r.pickInt(0, 20, 60), OpPct: r.pickInt(0, 20, 60)}
}

func (g *genCtx) rand() [2]uint64 { return [2]uint64{uint64(g.r.n(5)), g.r.u64()} }

// without is the mix with some operations left out.
func (m *mix) without(names ...string) *mix {
	out := &mix{w: map[string]int{}}
next:
	for _, k := range m.order {
		for _, n := range names {
			if k == n {
				continue next
			}
		}
		out.order = append(out.order, k)
		out.w[k] = m.w[k]
		out.total += m.w[k]
	}
	return out
}

// narrow is the same source of choices with few filter texts, so that callers
// meet in the same parts of the library.
func (g *genCtx) narrow(k int) *genCtx {
	n := *g
	n.valid = nil
	for len(n.valid) < k && len(g.valid) > 0 {
		n.valid = append(n.valid, g.valid[g.r.n(len(g.valid))])
	}
	return &n
}
