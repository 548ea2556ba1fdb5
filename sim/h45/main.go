// The v4 and v5 libraries under simulation (vN is replaced by the generation).
package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	sq "github.com/Masterminds/squirrel"

	"github.com/yaacov/tree-search-language/vN/pkg/tsl"
	"github.com/yaacov/tree-search-language/vN/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/vN/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/vN/pkg/walkers/mongo"
	"github.com/yaacov/tree-search-language/vN/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/vN/pkg/walkers/sql"

	"vsim.local/simrt/engine"
)

func dumpAny(v interface{}) string {
	switch x := v.(type) {
	case tsl.Node:
		return dump(x)
	case []tsl.Node:
		p := make([]string, len(x))
		for i := range x {
			p[i] = dump(x[i])
		}
		return "[" + strings.Join(p, " ") + "]"
	case time.Time:
		return "time " + x.String()
	}
	return engine.Show(v)
}

func dump(n tsl.Node) string {
	if n.Right == nil {
		return fmt.Sprintf("(%s %s)", n.Func, dumpAny(n.Left))
	}
	return fmt.Sprintf("(%s %s %s)", n.Func, dumpAny(n.Left), dumpAny(n.Right))
}

// shape is the picture of a tree.
func shape(n tsl.Node) *engine.Shape {
	s := &engine.Shape{}
	switch n.Func {
	case tsl.IdentOp, tsl.StringOp, "$boolean", "$date": // v4 has not all of them
		s.Label = fmt.Sprint(n.Left)
		return s
	case tsl.NumberOp:
		s.Label = fmt.Sprintf("%g", n.Left)
		return s
	}
	s.Label = fmt.Sprint(n.Func)
	for _, side := range []interface{}{n.Left, n.Right} {
		switch x := side.(type) {
		case tsl.Node:
			s.Kids = append(s.Kids, shape(x))
		case []tsl.Node:
			for i := range x {
				s.Kids = append(s.Kids, shape(x[i]))
			}
		}
	}
	return s
}

func node(t interface{}) tsl.Node { return *(t.(*tsl.Node)) }

func hold(t interface{}) (out []interface{}) {
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case tsl.Node:
			walk(x.Left)
			walk(x.Right)
		case []tsl.Node:
			for _, e := range x {
				walk(e)
			}
		case nil:
		default:
			out = append(out, v)
		}
	}
	walk(node(t))
	n := node(t)
	out = append(out, func() string { return dump(n) })
	if b, err := json.Marshal(node(t)); err == nil {
		out = append(out, b)
	}
	engine.Safe(func() string {
		if d, err := graphviz.Walk("", node(t), "root"); err == nil {
			out = append(out, d)
		}
		return ""
	})
	engine.Safe(func() string {
		if f, err := sql.Walk(node(t)); err == nil {
			out = append(out, func() string { return render(f) })
		}
		return ""
	})
	engine.Safe(func() string {
		if f, err := mongo.Walk(node(t)); err == nil {
			out = append(out, func() string { return fmt.Sprintf("%v", f) })
		}
		return ""
	})
	return out
}

func render(f interface{}) string {
	s, args, err := f.(sq.Sqlizer).ToSql()
	if err != nil {
		return "err " + err.Error()
	}
	p := make([]string, len(args))
	for i := range args {
		p[i] = engine.Show(args[i])
	}
	full, fargs, ferr := sq.Select("name", "city", "state").From("users").Where(f.(sq.Sqlizer)).ToSql()
	return fmt.Sprintf("%s {%s} | %s %d %v", s, strings.Join(p, ", "), full, len(fargs), ferr)
}

var when = time.Date(2023, 5, 17, 10, 30, 0, 0, time.UTC)

var records = []map[string]interface{}{
	{"name": "Joe", "city": "rome", "pages": 14.0, "rating": 5.0, "spec.pages": int32(3), "tags": []string{"a", "b"},
		"ok": true, "date": when, "nil": nil, "title": "A good book", "author": "Joe", "size": int64(2048), "a": 1.0, "b": 2.0, "c": "x"},
	{"name": "jane", "city": "Paris", "pages": int64(200), "rating": float32(1.5), "spec.pages": 30.0, "tags": []string{},
		"ok": false, "date": when.Add(48 * time.Hour), "nil": nil, "title": "other", "author": "Anne", "size": uint32(1 << 20), "a": int32(5), "b": 2.0, "c": "y"},
	{"name": "only a name"},
	{"name": "1", "city": "2023-05-17", "pages": uint8(14), "rating": float32(4.5), "spec.pages": "3", "tags": []string{"z"},
		"ok": "true", "date": when.In(time.FixedZone("x", 19800)), "day": "2023-05-17", "when": "2023-05-17T10:30:00+02:00", "nil": nil, "title": 7.0, "author": true, "size": "2Ki", "a": "1", "b": true, "c": when},
	{"name": when, "city": nil, "pages": when, "rating": true, "spec.pages": int32(-3), "tags": "a", "ok": 1.0, "date": "2023-05-17", "day": "2023-05-17T23:30:00-05:00", "when": when.Add(-36 * time.Hour),
		"nil": "not", "title": "", "author": "", "size": uint64(1 << 40), "a": 1, "b": -2.0, "c": "c"},
	{"name": "IRINA", "city": "ISTANBUL i\u0131\u0130", "pages": "1.234,5", "rating": "1,5", "spec.pages": 1e-7, "tags": []string{"I", "i"}, "ok": "TRUE", "date": "10:30:00", "day": "12:30", "when": "now",
		"nil": "null", "title": "I", "author": "\u00c4rger", "size": "1,5Ki", "a": "10:30", "b": "05-17", "c": "today"},
}

func main() {
	lib := &engine.Lib{
		Parse: func(s string) (interface{}, error) {
			n, err := tsl.ParseTSL(s)
			if err != nil {
				return nil, err
			}
			return &n, nil
		},
		ErrText: func(err error) string { return fmt.Sprintf("error %T %q", err, engine.Safe(err.Error)) },
		Reads: map[string]func(interface{}) string{
			"dump": func(t interface{}) string { return dump(node(t)) },
			"json": func(t interface{}) string {
				b, err := json.Marshal(node(t))
				return fmt.Sprintf("%s %v", b, err)
			},
			"dot": func(t interface{}) string {
				d, err := graphviz.Walk("", node(t), "")
				return engine.CanonDot(d, err)
			},
			"mongo": func(t interface{}) string {
				b, err := mongo.Walk(node(t))
				return fmt.Sprintf("%v %v", b, err)
			},
		},
		Eval: func(t interface{}, get func(string) (interface{}, bool)) (interface{}, error) {
			return semantics.Walk(node(t), get)
		},
		Draw:    func(in string, t interface{}, id string) (string, error) { return graphviz.Walk(in, node(t), id) },
		Shape:   func(t interface{}) *engine.Shape { return shape(node(t)) },
		Records: records,
		Ident: func(t interface{}, check func(string) (string, error)) (interface{}, error) {
			n, err := ident.Walk(node(t), check)
			if err != nil {
				return nil, err
			}
			return &n, nil
		},
		Filter: func(t interface{}) (interface{}, error) {
			s, err := sql.Walk(node(t))
			return s, err
		},
		Render:    render,
		Hold:      hold,
		IdentLeaf: func(s string) string { return fmt.Sprintf("($ident %q)", s) },
	}
	engine.Main(lib)
}
