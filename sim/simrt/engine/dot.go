package engine

import (
	"fmt"
	"regexp"
	"strings"
)

var (
	dotNode = regexp.MustCompile(`^(?:digraph \{)?([A-Za-z0-9_]+) \[`)
	dotEdge = regexp.MustCompile(`^([A-Za-z0-9_]+) -> \{ ?(.*?) ?\}`)
)

// CanonDot renames the node names of a graph in order of appearance, so that
// two drawings of one tree compare equal whatever names they use, and reports
// names that stand for two nodes.
func CanonDot(d string, err error) string {
	if err != nil {
		return "err " + Show(err)
	}
	ids := map[string]string{}
	name := func(id string) string {
		if n, ok := ids[id]; ok {
			return n
		}
		n := fmt.Sprintf("n%d", len(ids))
		ids[id] = n
		return n
	}
	defs := map[string]int{}
	refs := map[string]int{}
	bad := []string{}
	lines := strings.Split(d, "\n")
	for i, l := range lines {
		if m := dotNode.FindStringSubmatch(l); m != nil {
			defs[name(m[1])]++
			lines[i] = strings.Replace(l, m[1]+" [", name(m[1])+" [", 1)
			continue
		}
		if m := dotEdge.FindStringSubmatch(l); m != nil {
			kids := []string{}
			for _, k := range strings.Split(m[2], ",") {
				if k = strings.TrimSpace(k); k != "" {
					kids = append(kids, name(k))
					refs[name(k)]++
				}
			}
			lines[i] = name(m[1]) + " -> { " + strings.Join(kids, ", ") + " }"
		}
	}
	for i := 0; i < len(ids); i++ {
		n := fmt.Sprintf("n%d", i)
		if defs[n] != 1 {
			bad = append(bad, fmt.Sprintf("node name %s stands for %d nodes", n, defs[n]))
		}
		if refs[n] > 1 {
			bad = append(bad, fmt.Sprintf("node %s is drawn under %d parents", n, refs[n]))
		}
	}
	s := strings.Join(lines, "\n")
	if len(bad) > 0 {
		s += "\nNAMES: " + strings.Join(bad, "; ")
	}
	return s
}

var dotLabel = regexp.MustCompile(`label="(.*)" ?\]\s*$`)

// Shape is what a drawing must look like: a node with its label and the nodes
// its edges lead to, in order. An optional node may be left out of the picture.
type Shape struct {
	Label    string
	Optional bool
	Kids     []*Shape
}

func (s *Shape) multiline() bool {
	if strings.ContainsAny(s.Label, "\n\r") {
		return true
	}
	for _, k := range s.Kids {
		if k.multiline() {
			return true
		}
	}
	return false
}

// graph is a drawing, taken apart.
type graph struct {
	labels map[string]string
	edges  map[string][]string
	names  []string
}

func readDot(d string) graph {
	g := graph{map[string]string{}, map[string][]string{}, nil}
	for _, l := range strings.Split(d, "\n") {
		if m := dotNode.FindStringSubmatch(l); m != nil {
			label := ""
			if k := dotLabel.FindStringSubmatch(l); k != nil {
				label = k[1]
			}
			g.labels[m[1]] = label
			g.names = append(g.names, m[1])
		} else if m := dotEdge.FindStringSubmatch(l); m != nil {
			for _, k := range strings.Split(m[2], ",") {
				if k = strings.TrimSpace(k); k != "" {
					g.edges[m[1]] = append(g.edges[m[1]], k)
				}
			}
		}
	}
	return g
}

// mismatch says how a drawing is not of the shape, or nothing.
func (s *Shape) mismatch(d string) string {
	g := readDot(d)
	if len(g.names) == 0 {
		if s.Optional {
			return ""
		}
		return "nothing is drawn"
	}
	seen := 0
	var walk func(s *Shape, id string) string
	walk = func(s *Shape, id string) string {
		label, ok := g.labels[id]
		if !ok {
			if s.Optional {
				return ""
			}
			return fmt.Sprintf("the node %q is not drawn", s.Label)
		}
		seen++
		if !strings.Contains(label, s.Label) {
			return fmt.Sprintf("a node is %q where the tree has %q", label, s.Label)
		}
		kids := g.edges[id]
		if len(kids) != len(s.Kids) {
			return fmt.Sprintf("%d edges leave %q, which has %d operands", len(kids), s.Label, len(s.Kids))
		}
		for i := range kids {
			if m := walk(s.Kids[i], kids[i]); m != "" {
				return m
			}
		}
		return ""
	}
	if m := walk(s, g.names[0]); m != "" {
		return m
	}
	if seen != len(g.names) {
		return fmt.Sprintf("%d nodes are drawn and %d belong to the tree", len(g.names), seen)
	}
	return ""
}
