// The v6 library under simulation.
package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	sq "github.com/Masterminds/squirrel"
	"gopkg.in/yaml.v3"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"

	"vsim.local/simrt/engine"
)

func dump(n *tsl.TSLNode) string {
	if n == nil {
		return "nil"
	}
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		if n.Type() == tsl.KindUnaryExpr {
			return fmt.Sprintf("(%s:%d %s)", n.Type(), int(v.Operator), dump(v.Right))
		}
		return fmt.Sprintf("(%s:%d %s %s)", n.Type(), int(v.Operator), dump(v.Left), dump(v.Right))
	case tsl.TSLArrayLiteral:
		p := make([]string, len(v.Values))
		for i := range v.Values {
			p[i] = dump(v.Values[i])
		}
		return fmt.Sprintf("(%s %s)", n.Type(), strings.Join(p, " "))
	default:
		return fmt.Sprintf("(%s %s)", n.Type(), showVal(v))
	}
}

// shape is the picture of a tree; null is not drawn at present.
func shape(n *tsl.TSLNode) *engine.Shape {
	s := &engine.Shape{}
	switch v := n.Value().(type) {
	case tsl.TSLExpressionOp:
		s.Label = v.Operator.String()
		if n.Type() != tsl.KindUnaryExpr {
			s.Kids = append(s.Kids, shape(v.Left))
		}
		s.Kids = append(s.Kids, shape(v.Right))
	case tsl.TSLArrayLiteral:
		for i := range v.Values {
			s.Kids = append(s.Kids, shape(v.Values[i]))
		}
	default:
		if s.Optional = n.Type() == tsl.KindNullLiteral; !s.Optional {
			s.Label = fmt.Sprint(v)
		}
	}
	return s
}

func showVal(v interface{}) string {
	if t, ok := v.(time.Time); ok {
		return "time " + t.String()
	}
	return engine.Show(v)
}

func errText(err error) string {
	if s, ok := err.(*tsl.SyntaxError); ok {
		return fmt.Sprintf("error message=%q position=%d context=%q input=%q text=%q", s.Message, s.Position, s.Context, s.Input, engine.Safe(s.Error))
	}
	return fmt.Sprintf("error %T %q", err, engine.Safe(err.Error))
}

func node(t interface{}) *tsl.TSLNode { return t.(*tsl.TSLNode) }

func hold(t interface{}) (out []interface{}) {
	var walk func(n *tsl.TSLNode)
	walk = func(n *tsl.TSLNode) {
		switch v := n.Value().(type) {
		case tsl.TSLExpressionOp:
			if n.Type() == tsl.KindBinaryExpr {
				walk(v.Left)
			}
			walk(v.Right)
		case tsl.TSLArrayLiteral:
			for _, e := range v.Values {
				walk(e)
			}
		default:
			out = append(out, v)
		}
	}
	walk(node(t))
	if b, err := node(t).MarshalJSON(); err == nil {
		out = append(out, b)
	}
	if y, err := yaml.Marshal(node(t)); err == nil {
		out = append(out, y)
	}
	engine.Safe(func() string {
		if d, err := graphviz.Walk("", node(t), "root"); err == nil {
			out = append(out, d)
		}
		return ""
	})
	engine.Safe(func() string {
		if f, err := sql.Walk(node(t)); err == nil {
			out = append(out, func() string { return render(f) })
		}
		return ""
	})
	for _, r := range records {
		r := r
		engine.Safe(func() string {
			v, err := semantics.Walk(node(t), func(k string) (interface{}, bool) { v, ok := r[k]; return v, ok })
			if err != nil {
				out = append(out, err)
			} else {
				out = append(out, v)
			}
			return ""
		})
	}
	return out
}

func render(f interface{}) string {
	s, args, err := f.(sq.Sqlizer).ToSql()
	if err != nil {
		return "err " + err.Error()
	}
	p := make([]string, len(args))
	for i := range args {
		p[i] = engine.Show(args[i])
	}
	full, fargs, ferr := sq.Select("name", "city", "state").From("users").Where(f.(sq.Sqlizer)).ToSql()
	return fmt.Sprintf("%s {%s} | %s %d %v", s, strings.Join(p, ", "), full, len(fargs), ferr)
}

var when = time.Date(2023, 5, 17, 10, 30, 0, 0, time.UTC)

var records = []map[string]interface{}{
	{"name": "Joe", "city": "rome", "pages": 14.0, "rating": 5.0, "spec.pages": 3, "tags": []interface{}{"a", "b"}, "nums": []interface{}{0.1, 0.2, 0.3, 1.0, 2.0, 3.5},
		"ok": true, "flags": []interface{}{true, false}, "date": when, "nil": nil, "title": "A good book", "author": "Joe", "size": 2048, "a": 1.0, "b": 2.0, "c": "x"},
	{"name": "jane", "city": "Paris", "pages": 200, "rating": 1.5, "spec.pages": 30.0, "tags": []interface{}{}, "nums": []interface{}{},
		"ok": false, "flags": []interface{}{true, true}, "date": when.Add(48 * time.Hour), "nil": nil, "title": "other", "author": "Anne", "size": int64(1 << 20), "a": 5, "b": 2.0, "c": "y"},
	{"name": "only a name"},
	{"name": "1", "city": "2023-05-17", "pages": uint8(14), "rating": float32(4.5), "spec.pages": "3", "tags": []interface{}{"z", 1.0, true, nil, when}, "nums": []interface{}{7, int64(8), 9.5, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 0.0, -1.0, 0.1, 0.2, 1e16, 0.3, -1e16, 0.7, float32(0.1)},
		"ok": "true", "flags": []interface{}{}, "date": when.In(time.FixedZone("x", 19800)), "day": "2023-05-17", "when": "2023-05-17T10:30:00+02:00", "days": []interface{}{"2023-05-17", when, "2023-05-16T00:00:00Z"}, "nil": nil, "title": 7.0, "author": true, "size": "2Ki", "a": "1", "b": true, "c": when},
	{"name": when, "city": nil, "pages": when, "rating": true, "spec.pages": int32(-3), "tags": "a", "nums": 3.0, "ok": 1.0, "flags": true, "date": "2023-05-17", "day": "2023-05-17T23:30:00-05:00", "when": when.Add(-36 * time.Hour), "days": []interface{}{},
		"nil": "not", "title": "", "author": "", "size": uint64(1 << 40), "a": []interface{}{1.0}, "b": -2.0, "c": "c"},
	{"name": "IRINA", "city": "ISTANBUL i\u0131\u0130", "pages": "1.234,5", "rating": "1,5", "spec.pages": 1e-7, "tags": []interface{}{"I", "i", "\u0131"}, "nums": []interface{}{1e300, 1e-300, -0.0},
		"ok": "TRUE", "flags": []interface{}{}, "date": "10:30:00", "day": "12:30", "when": "now", "days": []interface{}{"now", "today", "yesterday", "10:30:00", "12:30", "Mon", "May 17", "17 May 2023"}, "nil": "null", "title": "I", "author": "\u00c4rger", "size": "1,5Ki", "a": "10:30", "b": "05-17", "c": "today"},
}

func main() {
	lib := &engine.Lib{
		Parse: func(s string) (interface{}, error) {
			n, err := tsl.ParseTSL(s)
			if err != nil {
				return nil, err
			}
			if n == nil {
				return nil, nil
			}
			return n, nil
		},
		Free:    func(t interface{}) { node(t).Free() },
		Clone:   func(t interface{}) interface{} { return node(t).Clone() },
		ErrText: errText,
		Reads: map[string]func(interface{}) string{
			"dump": func(t interface{}) string { return dump(node(t)) },
			"json": func(t interface{}) string {
				b, err := json.Marshal(node(t))
				return fmt.Sprintf("%s %v", b, err)
			},
			"yaml": func(t interface{}) string {
				b, err := yaml.Marshal(node(t))
				return fmt.Sprintf("%s %v", b, err)
			},
			"dot": func(t interface{}) string {
				d, err := graphviz.Walk("", node(t), "")
				return engine.CanonDot(d, err)
			},
			"recheck": func(t interface{}) string { // a clone made while others read
				c := node(t).Clone()
				s := dump(c)
				c.Free()
				return s
			},
		},
		Eval: func(t interface{}, get func(string) (interface{}, bool)) (interface{}, error) {
			return semantics.Walk(node(t), get)
		},
		Draw:    func(in string, t interface{}, id string) (string, error) { return graphviz.Walk(in, node(t), id) },
		Shape:   func(t interface{}) *engine.Shape { return shape(node(t)) },
		Records: records,
		Ident: func(t interface{}, check func(string) (string, error)) (interface{}, error) {
			n, err := ident.Walk(node(t), check)
			if n == nil {
				return nil, err
			}
			return n, err
		},
		Filter: func(t interface{}) (interface{}, error) {
			s, err := sql.Walk(node(t))
			return s, err
		},
		Render:         render,
		Hold:           hold,
		MissingIsError: true,
		Live:           func() int64 { return tsl.SimStat(0) },
		FailAlloc:      tsl.SimFail,
		Reuse:          tsl.SimReuse,
		Stat:           tsl.SimStat,
		IdentLeaf:      func(s string) string { return fmt.Sprintf("(%s %q)", tsl.KindIdentifier, s) },
		Custom:         custom,
		Cleanup:        cleanup,
	}
	engine.Main(lib)
}
