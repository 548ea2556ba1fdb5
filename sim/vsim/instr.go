package main

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
)

// The instrumenter puts a scheduling point before every statement of a Go
// file and redirects what a simulated run must not get from the real world
// (locks, goroutines, channels, random numbers, the clock). It works on the
// syntax tree of whatever the file contains now: nothing in it knows names of
// the repository.

type edit struct {
	off, end int
	text     string
}

type site struct {
	File string `json:"file"`
	Line int    `json:"line"`
}

type instrumenter struct {
	sites    []site
	ctx      bool            // contexts are the simulator's
	generics map[string]bool // generic functions of the package
	sql      string          // stands in for database/sql
	imports  bool            // nothing but the imports
	old      bool            // the module's language has no generic functions
	low      bool            // only function and loop bodies, and only one in 32 of those counts
}

func (in *instrumenter) file(name string, src []byte, display string) ([]byte, error) {
	if !in.imports {
		t, err := hoist(name, src, in.generics)
		if err != nil {
			return nil, err
		}
		src = t
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(a, b int, t string) { edits = append(edits, edit{a, b, t}) }

	imports := map[string]string{} // local name -> path
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		ln := path.Base(p)
		if p == "math/rand/v2" {
			ln = "rand"
		}
		if s.Name != nil {
			ln = s.Name.Name
		}
		imports[ln] = p
		to := ""
		switch p {
		case "sync":
			to = "vsim.local/simrt/simsync"
		case "context":
			if in.ctx {
				to = "vsim.local/simrt/simcontext"
			}
		case "database/sql":
			to = in.sql
		case "sync/atomic":
			to = "vsim.local/simrt/simatomic"
		case "math/rand", "math/rand/v2":
			to = "vsim.local/simrt/simrand"
		}
		if to != "" {
			add(off(s.Path.Pos()), off(s.Path.End()), strconv.Quote(to))
			if s.Name == nil {
				add(off(s.Path.Pos()), off(s.Path.Pos()), ln+" ")
			}
		}
	}
	if in.imports {
		return in.apply(name, src, edits, "")
	}
	timeName := ""
	for ln, p := range imports {
		if p == "time" && ln != "_" && ln != "." {
			timeName = ln
		}
	}

	chans := chansOf(f)
	labels := 0
	labelOf := map[ast.Stmt]*ast.LabeledStmt{}
	skipSend := map[ast.Node]bool{}
	usedTime := false
	yield := func(p token.Pos) {
		pos := fset.Position(p)
		in.sites = append(in.sites, site{display, pos.Line})
		fn := "Y"
		if in.low {
			fn = "L"
		}
		add(pos.Offset, pos.Offset, fmt.Sprintf("simrt__.%s(%d); ", fn, len(in.sites)-1))
	}
	bodies := map[*ast.BlockStmt]bool{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			yield(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			bodies[x.Body] = true
		case *ast.BlockStmt:
			switch {
			case !in.low:
				list(x.List)
			case bodies[x] && len(x.List) > 0:
				list(x.List[:1])
			}
		case *ast.CaseClause:
			if !in.low {
				list(x.Body)
			}
		case *ast.CommClause:
			if x.Comm != nil {
				skipSend[x.Comm] = true
				ast.Inspect(x.Comm, func(m ast.Node) bool {
					if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						skipSend[u] = true
					}
					return true
				})
			}
			if !in.low {
				list(x.Body)
			}
		case *ast.ForStmt:
			bodies[x.Body] = true
			if len(x.Body.List) == 0 {
				o := off(x.Body.Lbrace) + 1
				add(o, o, " simrt__.Y(0); ")
			}
		case *ast.LabeledStmt:
			labelOf[x.Stmt] = x
		case *ast.SelectStmt:
			first := x.Pos()
			if l := labelOf[x]; l != nil {
				first = l.Pos()
			}
			waits := true
			for _, c := range x.Body.List {
				c := c.(*ast.CommClause)
				if c.Comm == nil {
					waits = false
				} else {
					add(off(c.Colon)+1, off(c.Colon)+1, " simrt__.SelDone(); ")
				}
			}
			add(off(first), off(first), "simrt__.SelStart(); ")
			if waits {
				labels++
				l := fmt.Sprintf("simSelect%d", labels)
				add(off(first), off(first), l+": ")
				sep := " ; "
				if len(x.Body.List) == 0 {
					sep = " "
				}
				add(off(x.Body.Rbrace), off(x.Body.Rbrace), sep+"default: simrt__.SelWait(); goto "+l+" ")
			}
		case *ast.RangeStmt:
			bodies[x.Body] = true
			if chans.is(x.X) && (x.Key == nil || x.Tok == token.DEFINE) {
				k := "_"
				if x.Key != nil {
					k = text(src, off, x.Key)
				}
				labels++
				ok := fmt.Sprintf("simOk%d", labels)
				recv := fmt.Sprintf("%s, %s %%s= simrt__.Recv2(%s)", k, ok, text(src, off, x.X))
				add(off(x.For)+3, off(x.X.End()), fmt.Sprintf(" "+recv+"; %s; "+recv, ":", ok, ""))
			}
			if len(x.Body.List) == 0 {
				o := off(x.Body.Lbrace) + 1
				add(o, o, " simrt__.Y(0); ")
			}
		case *ast.GoStmt:
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				add(off(x.Go), off(fl.Pos()), "simrt__.Go(")
				add(off(fl.End()), off(x.Call.End()), ")")
			} else {
				add(off(x.Go), off(x.Call.Fun.Pos()), "simrt__.GoCall(")
				sep := ", "
				if len(x.Call.Args) == 0 {
					sep = ""
				}
				add(off(x.Call.Lparen), off(x.Call.Lparen)+1, sep)
			}
		case *ast.SendStmt:
			if !skipSend[x] {
				add(off(x.Chan.Pos()), off(x.Chan.Pos()), "simrt__.SendTo(")
				add(off(x.Arrow), off(x.Arrow)+2, ")(")
				add(off(x.Value.End()), off(x.Value.End()), ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW && !skipSend[u] {
					skipSend[u] = true
					add(off(u.OpPos), off(u.OpPos)+2, "simrt__.Recv2(")
					add(off(u.X.End()), off(u.X.End()), ")")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !skipSend[x] {
				add(off(x.OpPos), off(x.OpPos)+2, "simrt__.Recv(")
				add(off(x.X.End()), off(x.X.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Obj == nil {
				if id.Name == "close" && len(x.Args) == 1 {
					add(off(id.Pos()), off(id.End()), "simrt__.Close")
				}
				if id.Name == "make" && len(x.Args) == 1 {
					if _, ok := x.Args[0].(*ast.ChanType); ok {
						add(off(x.Args[0].End()), off(x.Args[0].End()), ", 1")
					}
				}
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil && timeName != "" && id.Name == timeName {
				switch x.Sel.Name {
				case "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "NewTimer", "Timer", "NewTicker", "Ticker", "Tick":
					add(off(id.Pos()), off(id.End()), "simtime__")
					usedTime = true
				}
			}
		}
		return true
	})
	imp := `; import simrt__ "vsim.local/simrt"`
	tail := "\nvar _ = simrt__.Y\n"
	if usedTime {
		imp += `; import simtime__ "vsim.local/simrt/simtime"`
		tail += "var _ " + timeName + ".Duration\n"
	}
	o := off(f.Name.End())
	add(o, o, imp)

	// cgo directives that forbid callbacks would forbid scheduling points
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			t := c.Text
			for _, d := range []string{"#cgo nocallback", "#cgo noescape"} {
				for i := 0; ; {
					j := strings.Index(t[i:], d)
					if j < 0 {
						break
					}
					a := off(c.Pos()) + i + j
					add(a, a+len(d), "//"+strings.Repeat(" ", len(d)-2))
					i += j + len(d)
				}
			}
		}
	}

	return in.apply(name, src, edits, tail)
}

// apply makes the edits.
func (in *instrumenter) apply(name string, src []byte, edits []edit, tail string) ([]byte, error) {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// insertions before replacements at the same place
		return (edits[i].end == edits[i].off) && (edits[j].end != edits[j].off)
	})
	var out strings.Builder
	last := 0
	for _, e := range edits {
		if e.off < last {
			return nil, fmt.Errorf("%s: overlapping edits at byte %d", name, e.off)
		}
		out.Write(src[last:e.off])
		out.WriteString(e.text)
		last = e.end
	}
	out.Write(src[last:])
	out.WriteString(tail)
	if in.old {
		return newer(out.String())
	}
	return []byte(out.String()), nil
}

// newer has a file compiled with generic functions, which stand in for
// channels.
func newer(s string) ([]byte, error) {
	head, body := "", s
	if i := strings.Index("\n"+s, "\npackage "); i > 0 {
		head, body = s[:i], s[i:]
	}
	expr, plus := "go1.21", ""
	lines := strings.Split(head, "\n")
	for i, l := range lines {
		if !constraint.IsGoBuild(l) && !constraint.IsPlusBuild(l) {
			continue
		}
		x, err := constraint.Parse(l)
		if err != nil {
			return nil, err
		}
		if constraint.IsGoBuild(l) {
			plus = ""
			expr = "go1.21 && (" + x.String() + ")"
			lines[i] = "//"
			for j := i; j < len(lines); j++ {
				if constraint.IsPlusBuild(lines[j]) {
					lines[j] = "//"
				}
			}
			break
		}
		plus += " && (" + x.String() + ")"
		lines[i] = "//"
	}
	return []byte("//go:build " + expr + plus + "\n\n" + strings.Join(lines, "\n") + body), nil
}

func (in *instrumenter) path(p, display string) ([]byte, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	return in.file(p, b, display)
}

func text(src []byte, off func(token.Pos) int, n ast.Node) string {
	return string(src[off(n.Pos()):off(n.End())])
}

// simple expressions can be evaluated again and again.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.CompositeLit:
		return len(x.Elts) == 0
	}
	return false
}

var builtins = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "clear": true, "copy": true, "recover": true}

// genericsOf are the names of the generic functions of some files.
func genericsOf(files []string) map[string]bool {
	m := map[string]bool{}
	for _, n := range files {
		f, err := parser.ParseFile(token.NewFileSet(), n, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Type.TypeParams != nil {
				m[d.Name.Name] = true
			}
		}
	}
	return m
}

// hoist moves what a select or a range over a channel evaluates once in front
// of it, since they are going to be loops.
func hoist(name string, src []byte, generics map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	chans := chansOf(f)
	labelOf := map[ast.Stmt]*ast.LabeledStmt{}
	generic := map[string]bool{}
	for k := range generics {
		generic[k] = true
	}
	for _, d := range f.Decls {
		if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Type.TypeParams != nil {
			generic[d.Name.Name] = true
		}
	}
	var edits []edit
	n := 0
	ast.Inspect(f, func(x ast.Node) bool {
		move := func(s ast.Stmt, e ast.Expr) {
			if simple(e) {
				return
			}
			n++
			v := fmt.Sprintf("simHoist%d", n)
			p := s.Pos()
			if l := labelOf[s]; l != nil {
				p = l.Pos()
			}
			edits = append(edits, edit{off(p), off(p), v + " := " + text(src, off, e) + "; "}, edit{off(e.Pos()), off(e.End()), v})
		}
		switch x := x.(type) {
		case *ast.LabeledStmt:
			labelOf[x.Stmt] = x
		case *ast.GoStmt:
			// a builtin or generic function is no value, nor is a spread list one argument
			id, _ := x.Call.Fun.(*ast.Ident)
			if x.Call.Ellipsis == token.NoPos && (id == nil || !(id.Obj == nil && builtins[id.Name] || generic[id.Name])) {
				break
			}
			if _, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				break
			}
			var l, r []string
			var args []string
			keep := func(e ast.Expr) string {
				switch y := e.(type) {
				case *ast.BasicLit:
					return text(src, off, e)
				case *ast.Ident:
					if y.Name == "nil" {
						return "nil"
					}
				}
				n++
				v := fmt.Sprintf("simHoist%d", n)
				l, r = append(l, v), append(r, text(src, off, e))
				return v
			}
			fun := text(src, off, x.Call.Fun)
			if id == nil {
				fun = keep(x.Call.Fun)
			}
			for _, a := range x.Call.Args {
				args = append(args, keep(a))
			}
			if x.Call.Ellipsis != token.NoPos {
				args[len(args)-1] += "..."
			}
			t := ""
			if len(l) > 0 {
				t = strings.Join(l, ", ") + " := " + strings.Join(r, ", ") + "; "
			}
			edits = append(edits, edit{off(x.Pos()), off(x.End()), "{ " + t + "go func() { " + fun + "(" + strings.Join(args, ", ") + ") }() }"})
		case *ast.RangeStmt:
			if chans.is(x.X) {
				move(x, x.X)
			}
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				var e ast.Expr
				switch c := c.(*ast.CommClause).Comm.(type) {
				case *ast.SendStmt:
					move(x, c.Chan)
					move(x, c.Value)
				case *ast.ExprStmt:
					e = c.X
				case *ast.AssignStmt:
					e = c.Rhs[0]
				}
				for {
					p, ok := e.(*ast.ParenExpr)
					if !ok {
						break
					}
					e = p.X
				}
				if u, ok := e.(*ast.UnaryExpr); ok {
					move(x, u.X)
				}
			}
		}
		return true
	})
	if len(edits) == 0 {
		return src, nil
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out strings.Builder
	last := 0
	for _, e := range edits {
		if e.off < last {
			return src, nil // nested: leave it
		}
		out.Write(src[last:e.off])
		out.WriteString(e.text)
		last = e.end
	}
	out.Write(src[last:])
	return []byte(out.String()), nil
}

// chanSet tells, as far as the text of one file does, which expressions are channels.
type chanSet struct{ fields map[string]bool }

func chansOf(f *ast.File) chanSet {
	c := chanSet{map[string]bool{}}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.StructType); ok {
			for _, fl := range s.Fields.List {
				if isChanType(fl.Type) {
					for _, id := range fl.Names {
						c.fields[id.Name] = true
					}
				}
			}
		}
		return true
	})
	return c
}

func isChanType(e ast.Expr) bool {
	_, ok := e.(*ast.ChanType)
	return ok
}

func (c chanSet) is(e ast.Expr) bool { return c.depth(e, 8) }

func (c chanSet) depth(e ast.Expr, d int) bool {
	if d == 0 {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.depth(x.X, d-1)
	case *ast.SelectorExpr:
		return c.fields[x.Sel.Name] || x.Sel.Name == "C"
	case *ast.CallExpr:
		switch fn := x.Fun.(type) {
		case *ast.Ident:
			if fn.Name == "make" && len(x.Args) > 0 {
				return isChanType(x.Args[0])
			}
			if fn.Obj != nil {
				if fd, ok := fn.Obj.Decl.(*ast.FuncDecl); ok && fd.Type.Results != nil && len(fd.Type.Results.List) == 1 {
					return isChanType(fd.Type.Results.List[0].Type)
				}
			}
		case *ast.SelectorExpr:
			return fn.Sel.Name == "Tick" || fn.Sel.Name == "Done"
		case *ast.FuncLit:
			return fn.Type.Results != nil && len(fn.Type.Results.List) == 1 && isChanType(fn.Type.Results.List[0].Type)
		}
	case *ast.Ident:
		if x.Obj == nil {
			return false
		}
		switch y := x.Obj.Decl.(type) {
		case *ast.Field:
			return isChanType(y.Type)
		case *ast.ValueSpec:
			if y.Type != nil {
				return isChanType(y.Type)
			}
			for i, n := range y.Names {
				if n.Name == x.Name && i < len(y.Values) {
					return c.depth(y.Values[i], d-1)
				}
			}
		case *ast.AssignStmt:
			for i, l := range y.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == x.Name && len(y.Lhs) == len(y.Rhs) {
					return c.depth(y.Rhs[i], d-1)
				}
			}
		}
	}
	return false
}
