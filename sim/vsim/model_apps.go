package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"vsim.local/simrt/plan"
)

// A small executable model of what the filters this simulator generates mean
// over the demo collection.

// brokenTexts are no filters; unknownTexts name a column that is not there.
var brokenTexts = []string{"title = ", "title like", "and", "= 1", "", ") or title is null", "title = 'x' and or", "title = 'Book", "(title = 'Book'", "title = 'a' author = 'b'"}
var unknownTexts = []string{"nope = 5", "title = 'Book' and publisher = 'x'", "not (isbn is null)"}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type row map[string]interface{}

// at reads a field by its path.
func (r row) at(path string) interface{} {
	if path == "on_loan" { // each program has its own name for it
		for _, k := range []string{"on_loan", "on-loan", "onloan"} {
			if v, ok := r[k]; ok {
				return v
			}
		}
		return nil
	}
	if _, ok := r["spec.pages"]; ok { // as tsl_mem has it: what is missing is missing
		return r[path]
	}
	var v interface{} = map[string]interface{}(r)
	for _, k := range strings.Split(path, ".") {
		m, ok := v.(map[string]interface{})
		if !ok {
			v = nil
			break
		}
		v = m[k]
	}
	if v == nil && strings.HasPrefix(path, "spec.") {
		return 0.0 // left out of the JSON
	}
	return v
}

type fparser struct {
	toks []string
	i    int
	bad  bool
}

func ftokens(s string) (out []string) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ':
			i++
		case c == '\'':
			j := i + 1
			var b strings.Builder
			for j < len(s) {
				if s[j] == '\'' {
					if j+1 < len(s) && s[j+1] == '\'' {
						b.WriteByte('\'')
						j += 2
						continue
					}
					break
				}
				b.WriteByte(s[j])
				j++
			}
			out = append(out, "'"+b.String())
			i = j + 1
		case strings.IndexByte("()[]", c) >= 0 || c == ',':
			out = append(out, string(c))
			i++
		case strings.IndexByte("<>=!~", c) >= 0:
			j := i
			for j < len(s) && strings.IndexByte("<>=!~", s[j]) >= 0 {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && strings.IndexByte(" ()[],<>=!~'", s[j]) < 0 {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return
}

func (p *fparser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *fparser) next() string {
	t := p.peek()
	p.i++
	return t
}

type pred func(row) bool

func (p *fparser) or() pred {
	l := p.and()
	for p.peek() == "or" {
		p.next()
		a, b := l, p.and()
		l = func(r row) bool { return a(r) || b(r) }
	}
	return l
}

func (p *fparser) and() pred {
	l := p.not()
	for p.peek() == "and" {
		p.next()
		a, b := l, p.not()
		l = func(r row) bool { return a(r) && b(r) }
	}
	return l
}

func (p *fparser) not() pred {
	switch p.peek() {
	case "not":
		p.next()
		a := p.not()
		return func(r row) bool { return !a(r) }
	case "(":
		p.next()
		a := p.or()
		if p.next() != ")" {
			p.bad = true
		}
		return a
	}
	return p.cmp()
}

func flit(t string) interface{} {
	if strings.HasPrefix(t, "'") {
		return t[1:]
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		return nil
	}
	return f
}

// fcompare orders two values of one kind.
func fcompare(a, b interface{}) (int, bool) {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return strings.Compare(x, y), ok
	case float64:
		y, ok := b.(float64)
		switch {
		case x < y:
			return -1, ok
		case x > y:
			return 1, ok
		}
		return 0, ok
	}
	return 0, false
}

func likeMatch(s, pat string) bool {
	if pat == "" {
		return s == ""
	}
	if pat[0] == '%' {
		for i := 0; i <= len(s); i++ {
			if likeMatch(s[i:], pat[1:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == pat[0] && likeMatch(s[1:], pat[1:])
}

func (p *fparser) cmp() pred {
	name := p.next()
	field := name
	if field == "pages" || field == "rating" {
		field = "spec." + field
	}
	known := map[string]bool{"on_loan": true, "title": true, "author": true, "spec.pages": true, "spec.rating": true}
	if !known[field] {
		p.bad = true
		return nil
	}
	lit := func() interface{} {
		v := flit(p.next())
		if v == nil {
			p.bad = true
		}
		return v
	}
	op := p.next()
	switch op {
	case "not":
		what := p.peek()
		p.i--
		p.toks[p.i] = field
		if what != "in" && what != "between" {
			p.bad = true
			return nil
		}
		// a value that is missing is neither in nor out
		a := p.cmp()
		return func(r row) bool { return r.at(field) != nil && !a(r) }
	case "~=", "~!":
		v, _ := lit().(string)
		re, err := regexp.Compile(v)
		if err != nil {
			p.bad = true
			return nil
		}
		return func(r row) bool { s, ok := r.at(field).(string); return ok && re.MatchString(s) == (op == "~=") }
	case "is":
		if p.peek() == "null" {
			p.next()
			return func(r row) bool { return r.at(field) == nil }
		}
		if p.next() != "not" || p.next() != "null" {
			p.bad = true
		}
		return func(r row) bool { return r.at(field) != nil }
	case "like":
		v, _ := lit().(string)
		return func(r row) bool { s, ok := r.at(field).(string); return ok && likeMatch(s, v) }
	case "between":
		a := lit()
		if p.next() != "and" {
			p.bad = true
		}
		b := lit()
		return func(r row) bool {
			x, ok1 := fcompare(r.at(field), a)
			y, ok2 := fcompare(r.at(field), b)
			return ok1 && ok2 && x >= 0 && y <= 0
		}
	case "in":
		if t := p.next(); t != "(" && t != "[" {
			p.bad = true
			return nil
		}
		var l []interface{}
		for !p.bad {
			l = append(l, lit())
			if t := p.next(); t == ")" || t == "]" {
				break
			} else if t != "," {
				p.bad = true
			}
		}
		return func(r row) bool {
			for _, v := range l {
				if c, ok := fcompare(r.at(field), v); ok && c == 0 {
					return true
				}
			}
			return false
		}
	}
	if field == "on_loan" {
		b := p.next()
		return func(r row) bool { return r.at(field) == (b == "true") }
	}
	v := lit()
	return func(r row) bool {
		c, ok := fcompare(r.at(field), v)
		if !ok {
			return false
		}
		switch op {
		case "=":
			return c == 0
		case "!=":
			return c != 0
		case "<":
			return c < 0
		case "<=":
			return c <= 0
		case ">":
			return c > 0
		case ">=":
			return c >= 0
		}
		return false
	}
}

// modelFilter is the meaning of a text, nil when the model does not know it.
func modelFilter(text string) pred {
	p := &fparser{toks: ftokens(text)}
	f := p.or()
	if p.bad || p.i != len(p.toks) {
		return nil
	}
	return f
}

// jsonLines reads what the data base tools print.
func jsonLines(out string) (rows []row, ok bool) {
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if l == "" {
			continue
		}
		r := row{}
		if json.Unmarshal([]byte(l), &r) != nil {
			return nil, false
		}
		rows = append(rows, r)
	}
	return rows, true
}

func jsonArray(out string) (rows []row, ok bool) {
	return rows, json.Unmarshal([]byte(out), &rows) == nil
}

func selected(all []row, f pred) (out []row) {
	for _, r := range all {
		if f(r) {
			out = append(out, r)
		}
	}
	return
}

func sameRows(a, b []row) bool {
	key := func(l []row) (out []string) {
		for _, r := range l {
			t, _ := json.Marshal(r)
			out = append(out, string(t))
		}
		sort.Strings(out)
		return
	}
	return fmt.Sprint(key(a)) == fmt.Sprint(key(b))
}

// wrongAlone holds what an invocation alone yields against the model; empty
// when there is nothing to say against it.
func (a *appSim) wrongAlone(disk string, op plan.Op, text string, r *appRef) string {
	f := strings.Split(op.K, ".")
	if f[0] == "get" && op.A >= 5 {
		if !isGraphqlError(r.out) {
			return fmt.Sprintf("the bad request %s is answered with %q", graphqlQuery(text, op.A), clipStr(r.out, 200))
		}
		return ""
	}
	broken, unknown := has(brokenTexts, text), has(unknownTexts, text)
	columns := f[0] != "cli" || f[1] == "tsl_mem"
	var app string
	switch f[0] {
	case "get":
		app = "sqlite"
	case "load", "read":
		app = f[1]
	case "cli":
	default:
		return ""
	}
	if disk == "none" || strings.HasSuffix(disk, "/none") {
		if f[0] == "get" || f[0] == "read" && app == "sqlite" {
			if r.err == "" && (f[0] == "read" && r.exit == 0 || f[0] == "get" && !isGraphqlError(r.out)) {
				return fmt.Sprintf("a query of a collection that does not exist succeeds with %q", clipStr(r.out, 200))
			}
			return ""
		}
	}
	if broken || unknown && columns {
		if f[0] == "get" && op.A >= 3 {
			if g, ok := graphqlAnswer(r.out); !ok || len(g.Errors) == 0 || string(g.Data["first"]) != "null" {
				return fmt.Sprintf("the bad filter %q is answered with %q", text, clipStr(r.out, 200))
			}
		} else if f[0] == "get" {
			if !isGraphqlError(r.out) {
				return fmt.Sprintf("the bad filter %q is answered with %q", text, clipStr(r.out, 200))
			}
		} else if r.exit == 0 {
			return fmt.Sprintf("%s exits 0 for the bad filter %q", f[1], text)
		} else if strings.TrimSpace(r.stderr) == "" {
			return fmt.Sprintf("%s says nothing about the bad filter %q", f[1], text)
		}
		return ""
	}
	m := modelFilter(text)
	if m == nil {
		return ""
	}
	if f[0] != "get" && r.exit != 0 {
		if badFormat(a.target, f, op) || a.target == "v6" && strings.Contains(text, "rating") { // v6 compares no missing value

			return ""
		}
		return fmt.Sprintf("%s exits %d for the filter %q: %s", f[1], r.exit, text, clipStr(r.stderr, 200))
	}
	if strings.TrimSpace(r.stderr) != "" && f[0] != "get" {
		return fmt.Sprintf("%s succeeds and complains: %s", f[1], clipStr(r.stderr, 200))
	}
	all, err := a.collection(disk, f[0], app)
	if err != "" {
		return err
	}
	var got []row
	ok := true
	switch {
	case f[0] == "get":
		var g struct {
			Data   struct{ First, Books []row }
			Errors []json.RawMessage
		}
		ok = json.Unmarshal([]byte(r.out), &g) == nil && len(g.Errors) == 0
		got = g.Data.Books
		if op.A >= 3 {
			if !sameRows(g.Data.Books, projected(all, 1)) {
				return fmt.Sprintf("the second list of a request is %q", clipStr(r.out, 300))
			}
			got = g.Data.First
		}
	case f[0] == "cli":
		if f[1] != "tsl_mem" || cliFormats(a.target, f[1])[op.A%len(cliFormats(a.target, f[1]))] != "json" {
			return ""
		}
		got, ok = jsonArray(r.out)
	default:
		got, ok = jsonLines(r.out)
	}
	if !ok {
		return fmt.Sprintf("the answer to %q is no list of books: %q", text, clipStr(r.out, 200))
	}
	if f[0] == "load" {
		// the same books as the tool without a data base has
		mem, err := a.collection("none", "cli", "")
		if err != "" {
			return err
		}
		if !sameRows(flat(all), flat(mem)) {
			return fmt.Sprintf("%s prepares a collection of %d books other than the %d there are", f[1], len(all), len(mem))
		}
	}
	want := selected(all, m)
	if f[0] == "get" {
		k := op.A
		if k >= 3 {
			k %= 2
		}
		want = projected(want, k)
	}
	if !sameRows(got, want) {
		x, _ := json.Marshal(want)
		return fmt.Sprintf("the answer to %q is\n  %s\nand should be\n  %s", text, clipStr(r.out, 300), clipStr(string(x), 300))
	}
	return ""
}

func isGraphqlError(out string) bool {
	g, ok := graphqlAnswer(out)
	for _, v := range g.Data {
		if string(v) != "null" {
			return false
		}
	}
	return ok && len(g.Errors) > 0
}

func badFormat(target string, f []string, op plan.Op) bool {
	if f[0] != "cli" {
		return false
	}
	l := cliFormats(target, f[1])
	return len(l) > 0 && l[op.A%len(l)] == "bogus"
}

// collection is everything there is to select from.
func (a *appSim) collection(disk, kind, app string) ([]row, string) {
	const every = "title is not null"
	if kind == "cli" {
		r := a.solo("none", plan.Op{K: "cli.tsl_mem"}, every)
		rows, ok := jsonArray(r.out)
		if r.err == "" && !ok {
			r.err = "tsl_mem prints no list"
		}
		return rows, r.err
	}
	op := plan.Op{K: "read." + app}
	if kind == "load" || strings.HasSuffix(disk, "/N") {
		// what was prepared on an empty disk is there, whatever was before
		op = plan.Op{K: "load." + app}
		disk = app + "/none"
	}
	r := a.solo(disk, op, every)
	rows, ok := jsonLines(r.out)
	if r.err == "" && !ok {
		return nil, fmt.Sprintf("%s prints no list of books: %q", op.K, clipStr(r.out, 200))
	}
	return rows, r.err
}

func projected(l []row, a int) (out []row) {
	for _, r := range l {
		spec := row{"pages": r.at("spec.pages"), "rating": r.at("spec.rating")}
		switch a % 3 {
		case 0:
			out = append(out, row{"title": r["title"], "author": r["author"], "spec": map[string]interface{}{"pages": spec["pages"], "rating": spec["rating"]}})
		case 1:
			out = append(out, row{"title": r["title"]})
		default:
			out = append(out, row{"author": r["author"], "spec": map[string]interface{}{"pages": spec["pages"]}})
		}
	}
	return
}

// flat is what all tools have of a book.
func flat(l []row) (out []row) {
	for _, r := range l {
		rating := r.at("spec.rating")
		if rating == nil {
			rating = 0.0
		}
		out = append(out, row{"title": r["title"], "author": r["author"], "pages": r.at("spec.pages"), "rating": rating})
	}
	return
}
