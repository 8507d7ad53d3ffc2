package main

import (
	"fmt"
	"strings"
)

// Node is the harness's own tree of a .proto file. It is produced by the
// generator, by the reference parser and by converting the library's tree.
type Node struct {
	Kind    string
	Attrs   [][2]string // scalar facts in a fixed order per kind
	Value   *Value      // option constant
	Opts    []*Node     // bracketed field options / enum value options
	Body    []*Node
	Aux     []*Node // rpc request/response, declarations, rpc/oneof options
	Cmts    []Cmt
	Inline  *Cmt
	Curly   *Cmt
	Embed   []Cmt
	HasPos  bool
	Pos     Pos
	Last    Pos
	File    string // file name carried by the positions (library trees)
	BadFile bool   // positions of this node disagree about the file name
}

func (n *Node) attr(k string) string {
	for _, a := range n.Attrs {
		if a[0] == k {
			return a[1]
		}
	}
	return ""
}

func (n *Node) set(k, v string) { n.Attrs = append(n.Attrs, [2]string{k, v}) }

// Value is an option constant. A value built from a source holds its tokens,
// where a run of adjacent string literals is one entry with several Parts. A
// value of a library tree holds the text only.
type Value struct {
	Toks []VTok
	Text string
	Lib  bool
}

type VTok struct {
	S     string
	Parts []string
}

func (v *Value) String() string {
	if v == nil {
		return "<none>"
	}
	if v.Lib {
		return v.Text
	}
	var s []string
	for _, t := range v.Toks {
		if len(t.Parts) > 1 {
			s = append(s, "<"+strings.Join(t.Parts, " ")+">")
		} else {
			s = append(s, t.S)
		}
	}
	return strings.Join(s, " ")
}

// groupStrings turns the tokens of a constant into value tokens.
func groupStrings(toks []Tok, merge bool) []VTok {
	var out []VTok
	for i, t := range toks {
		if merge && t.K == KStr && i > 0 && toks[i-1].K == KStr {
			l := &out[len(out)-1]
			if len(l.Parts) == 0 {
				l.Parts = []string{l.S}
			}
			l.Parts = append(l.Parts, t.S)
			continue
		}
		out = append(out, VTok{S: t.S})
	}
	return out
}

// valueEqual compares a source value with a library value.
func valueEqual(want, got *Value) string {
	if want == nil || got == nil {
		if want != got {
			return "one value is missing"
		}
		return ""
	}
	if got.Lib && !want.Lib {
		toks := tokenize(got.Text)
		toks = toks[:len(toks)-1]
		for _, t := range toks {
			if len(t.Cmts) > 0 {
				return fmt.Sprintf("value %q contains a comment", got.Text)
			}
		}
		g := groupStrings(toks, false)
		if len(g) != len(want.Toks) {
			return fmt.Sprintf("value %q has %d tokens, want %d: %s", got.Text, len(g), len(want.Toks), want)
		}
		for i, w := range want.Toks {
			if len(w.Parts) < 2 {
				if w.S != g[i].S {
					return fmt.Sprintf("value %q: token %d is %q, want %q", got.Text, i, g[i].S, w.S)
				}
				continue
			}
			exp := ""
			for _, p := range w.Parts {
				d, ok := decodeString(p)
				if !ok {
					return "" // spelling without specified value
				}
				exp += d
			}
			act, ok := decodeString(g[i].S)
			if !ok {
				return fmt.Sprintf("value %q: joined literal %q is not a well-formed string literal (parts %q)", got.Text, g[i].S, w.Parts)
			}
			if act != exp {
				return fmt.Sprintf("value %q: joined literal denotes %q, its parts %q denote %q", got.Text, act, w.Parts, exp)
			}
		}
		return ""
	}
	if want.String() != got.String() {
		return fmt.Sprintf("value %q, want %q", got, want)
	}
	return ""
}

// Proj selects what diff compares.
type Proj struct {
	Struct bool
	Cmts   bool
	CmtPos bool
	Pos    bool
}

func cstr(c *Cmt) string {
	if c == nil {
		return "<none>"
	}
	return fmt.Sprintf("%q", c.Raw)
}

func (p Pos) String() string { return fmt.Sprintf("offset %d, %d:%d", p.Off, p.Line, p.Col) }

// diff returns a description of the first difference, or "".
func diff(want, got *Node, p Proj, path string) string {
	if want == nil || got == nil {
		if want != got {
			return fmt.Sprintf("%s: want %v, got %v", path, want.label(), got.label())
		}
		return ""
	}
	if want.Kind != got.Kind {
		return fmt.Sprintf("%s: want %s, got %s", path, want.label(), got.label())
	}
	path += "/" + want.label()
	if p.Struct {
		if len(want.Attrs) != len(got.Attrs) {
			return fmt.Sprintf("%s: want %v, got %v", path, want.Attrs, got.Attrs)
		}
		for i := range want.Attrs {
			if want.Attrs[i] != got.Attrs[i] {
				return fmt.Sprintf("%s: want %s=%q, got %s=%q", path, want.Attrs[i][0], want.Attrs[i][1], got.Attrs[i][0], got.Attrs[i][1])
			}
		}
		if d := valueEqual(want.Value, got.Value); d != "" {
			return path + ": " + d
		}
	}
	if p.Cmts && want.Kind != "comment" {
		if d := diffCmts(want.Cmts, got.Cmts, p, path+" leading comments"); d != "" {
			return d
		}
		if d := diffCmts(want.Embed, got.Embed, p, path+" embedded comments"); d != "" {
			return d
		}
		if d := diffCmt(want.Inline, got.Inline, p, path+" inline comment"); d != "" {
			return d
		}
		if d := diffCmt(want.Curly, got.Curly, p, path+" comment behind the opening brace"); d != "" {
			return d
		}
	}
	if p.Cmts && want.Kind == "comment" {
		if want.attr("raw") != got.attr("raw") {
			return fmt.Sprintf("%s: want comment %q, got %q", path, want.attr("raw"), got.attr("raw"))
		}
	}
	if p.Pos {
		if want.HasPos != got.HasPos {
			return fmt.Sprintf("%s: has a position: want %v, got %v", path, want.HasPos, got.HasPos)
		}
		if want.HasPos {
			if want.Pos != got.Pos {
				return fmt.Sprintf("%s: start position: want %v, got %v", path, want.Pos, got.Pos)
			}
			if want.Last != got.Last {
				return fmt.Sprintf("%s: last position: want %v, got %v", path, want.Last, got.Last)
			}
		}
	}
	for _, l := range []struct {
		n    string
		w, g []*Node
	}{{"options", want.Opts, got.Opts}, {"body", want.Body, got.Body}, {"parts", want.Aux, got.Aux}} {
		for i := 0; i < len(l.w) || i < len(l.g); i++ {
			var w, g *Node
			if i < len(l.w) {
				w = l.w[i]
			}
			if i < len(l.g) {
				g = l.g[i]
			}
			if w == nil {
				return fmt.Sprintf("%s: %s has the extra element %d: %s", path, l.n, i, g.label())
			}
			if g == nil {
				return fmt.Sprintf("%s: %s misses element %d: %s", path, l.n, i, w.label())
			}
			if d := diff(w, g, p, path); d != "" {
				return d
			}
		}
	}
	return ""
}

func diffCmts(w, g []Cmt, p Proj, path string) string {
	for i := 0; i < len(w) || i < len(g); i++ {
		var a, b *Cmt
		if i < len(w) {
			a = &w[i]
		}
		if i < len(g) {
			b = &g[i]
		}
		if d := diffCmt(a, b, p, fmt.Sprintf("%s[%d]", path, i)); d != "" {
			return d
		}
	}
	return ""
}

func diffCmt(w, g *Cmt, p Proj, path string) string {
	if w == nil || g == nil {
		if w != g {
			return fmt.Sprintf("%s: want %s, got %s", path, cstr(w), cstr(g))
		}
		return ""
	}
	if w.Raw != g.Raw {
		return fmt.Sprintf("%s: want %q, got %q", path, w.Raw, g.Raw)
	}
	if p.CmtPos && (w.Start != g.Start || w.Last != g.Last) {
		return fmt.Sprintf("%s: positions of %q: want %v to %v, got %v to %v", path, w.Raw, w.Start, w.Last, g.Start, g.Last)
	}
	return ""
}

func (n *Node) label() string {
	if n == nil {
		return "nothing"
	}
	s := n.Kind
	for _, a := range n.Attrs {
		if a[0] == "name" || a[0] == "raw" {
			v := a[1]
			if len(v) > 30 {
				v = v[:30] + "..."
			}
			s += fmt.Sprintf("(%q)", v)
		}
	}
	return s
}

// walk visits the node and everything below it.
func (n *Node) walk(f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	for _, l := range [][]*Node{n.Opts, n.Body, n.Aux} {
		for _, c := range l {
			c.walk(f)
		}
	}
}

func (n *Node) allCmts(f func(Cmt)) {
	n.walk(func(m *Node) {
		for _, c := range m.Cmts {
			f(c)
		}
		for _, c := range m.Embed {
			f(c)
		}
		if m.Inline != nil {
			f(*m.Inline)
		}
		if m.Curly != nil {
			f(*m.Curly)
		}
		if m.Kind == "comment" {
			f(Cmt{m.attr("raw"), m.Pos, m.Last})
		}
	})
}
