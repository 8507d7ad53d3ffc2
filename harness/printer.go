package main

// Printer: matches the proto syntax of a library tree against the tokens of
// the source, so that every token is accounted for (property C03).

import (
	"fmt"
	"sort"
	"strings"
)

type matcher struct {
	toks       []Tok
	i          int
	permissive bool
	skip       bool // the source uses something the documentation leaves open
}

type mismatch string

func (m *matcher) cur() *Tok { return &m.toks[m.i] }

func (m *matcher) fail(want string) {
	t := m.cur()
	panic(mismatch(fmt.Sprintf("the tree continues with %s, the source has %s %q at %d:%d", want, t.K, t.S, t.Start.Line, t.Start.Col)))
}

func (m *matcher) lit(ss ...string) {
	for _, s := range ss {
		if m.cur().K == KEOF || m.cur().S != s {
			m.fail(fmt.Sprintf("%q", s))
		}
		m.i++
	}
}

func (m *matcher) opt(s string) {
	if m.cur().K == KPunct && m.cur().S == s {
		m.i++
	}
}

// text matches a text that stands for several tokens (a.b.c, (a).b, -1).
func (m *matcher) text(s string) {
	ts := tokenize(s)
	for _, t := range ts[:len(ts)-1] {
		m.lit(t.S)
	}
}

func (m *matcher) value(v *Value) {
	if v == nil {
		m.fail("a value")
	}
	ts := tokenize(v.Text)
	ts = ts[:len(ts)-1]
	if len(ts) == 0 {
		m.fail("an empty value")
	}
	for _, t := range ts {
		if t.K != KStr || !m.permissive {
			m.lit(t.S)
			continue
		}
		from := m.i
		for m.cur().K == KStr {
			m.i++
		}
		switch m.i - from {
		case 0:
			m.fail(fmt.Sprintf("the string %s", t.S))
		case 1:
			m.i = from
			m.lit(t.S)
		default:
			want := ""
			for _, p := range m.toks[from:m.i] {
				d, ok := decodeString(p.S)
				if !ok {
					m.skip = true
					return
				}
				want += d
			}
			got, ok := decodeString(t.S)
			if !ok || got != want {
				m.i = from
				m.fail(fmt.Sprintf("the string %s (which does not denote %q)", t.S, want))
			}
		}
	}
}

func (m *matcher) block(each func()) {
	m.lit("{")
	each()
	m.lit("}")
	if m.permissive {
		m.opt(";")
	}
}

func (m *matcher) opts(n *Node) {
	if len(n.Opts) == 0 {
		return
	}
	m.lit("[")
	for i, o := range n.Opts {
		if i > 0 {
			m.lit(",")
		}
		m.text(o.attr("name"))
		m.lit("=")
		m.value(o.Value)
	}
	m.lit("]")
}

func (m *matcher) label(n *Node) {
	if l := n.attr("label"); l != "" {
		m.lit(l)
	}
}

func (m *matcher) num(n *Node) {
	m.lit("=")
	m.text(n.attr("number"))
}

func (m *matcher) ranges(ns []*Node) {
	for i, r := range ns {
		if i > 0 {
			m.lit(",")
		}
		m.lit(r.attr("begin"))
		if e := r.attr("end"); e != "" {
			m.lit("to", e)
		}
	}
}

func (m *matcher) body(ns []*Node) {
	for _, n := range ns {
		m.node(n)
	}
}

func (m *matcher) node(n *Node) {
	switch n.Kind {
	case "comment":
	case "proto":
		m.body(n.Aux)
		m.body(n.Body)
		if m.cur().K != KEOF {
			m.fail("the end of the file")
		}
	case "syntax":
		m.lit("syntax", "=", n.attr("quote"), ";")
	case "edition":
		m.lit("edition", "=", n.attr("quote"), ";")
	case "import":
		m.lit("import")
		if s := n.attr("modifier"); s != "none" {
			m.lit(s)
		}
		m.lit(n.attr("location"), ";")
	case "package":
		m.lit("package")
		m.text(n.attr("name"))
		m.lit(";")
	case "option":
		m.lit("option")
		m.text(n.attr("name"))
		m.lit("=")
		m.value(n.Value)
		m.lit(";")
	case "empty":
		m.lit(";")
	case "message", "enum", "service":
		m.lit(n.Kind, n.attr("name"))
		m.block(func() { m.body(n.Body) })
	case "extend":
		m.lit("extend")
		m.text(n.attr("name"))
		m.block(func() { m.body(n.Body) })
	case "group":
		m.label(n)
		m.lit("group", n.attr("name"))
		m.num(n)
		m.block(func() { m.body(n.Body) })
	case "field", "oneoffield":
		m.label(n)
		m.text(n.attr("type"))
		m.lit(n.attr("name"))
		m.num(n)
		m.opts(n)
		m.lit(";")
	case "map":
		m.lit("map", "<", n.attr("key"), ",")
		m.text(n.attr("type"))
		m.lit(">", n.attr("name"))
		m.num(n)
		m.opts(n)
		m.lit(";")
	case "enumfield":
		m.lit(n.attr("name"))
		m.num(n)
		m.opts(n)
		m.lit(";")
	case "oneof":
		m.lit("oneof", n.attr("name"))
		all := append(append([]*Node{}, n.Body...), n.Aux...)
		sort.SliceStable(all, func(i, j int) bool { return all[i].Pos.Off < all[j].Pos.Off })
		m.block(func() {
			m.semis()
			for _, c := range all {
				m.node(c)
				m.semis()
			}
		})
	case "rpc":
		m.lit("rpc", n.attr("name"))
		m.rpcArg(n.Aux[0])
		m.lit("returns")
		m.rpcArg(n.Aux[1])
		if len(n.Aux) == 2 && m.cur().S == ";" {
			m.i++
			return
		}
		m.block(func() {
			m.semis()
			for _, o := range n.Aux[2:] {
				m.node(o)
				m.semis()
			}
		})
	case "reserved":
		m.lit("reserved")
		if len(n.Opts) > 0 && n.Opts[0].Kind == "range" {
			for _, o := range n.Opts {
				if o.Kind != "range" {
					m.fail("reserved ranges and names in one statement")
				}
			}
			m.ranges(n.Opts)
		} else {
			if len(n.Opts) == 0 {
				m.fail("a reserved statement without content")
			}
			for i, o := range n.Opts {
				if i > 0 {
					m.opt(",")
				}
				m.lit(o.attr("name"))
			}
		}
		m.lit(";")
	case "extensions":
		m.lit("extensions")
		m.ranges(n.Opts)
		if len(n.Aux) > 0 {
			m.lit("[")
			for i, d := range n.Aux {
				if i > 0 {
					m.lit(",")
				}
				m.declaration(d)
			}
			m.lit("]")
		}
		m.lit(";")
	default:
		m.fail("an element of kind " + n.Kind)
	}
}

func (m *matcher) semis() {
	for m.cur().K == KPunct && m.cur().S == ";" {
		m.i++
	}
}

func (m *matcher) rpcArg(n *Node) {
	m.lit("(")
	if n.attr("stream") == "true" {
		m.lit("stream")
	}
	m.text(n.attr("type"))
	m.lit(")")
}

// declaration matches the entries in any order: the tree keeps no order.
func (m *matcher) declaration(d *Node) {
	m.lit("declaration", "=", "{")
	vals := map[string]string{"repeated": "false", "reserved": "false"}
	seen := map[string]bool{}
	for m.cur().S != "}" && m.cur().K != KEOF {
		if m.cur().S == "," {
			m.i++
			continue
		}
		k := m.cur().S
		found := false
		for _, a := range d.Attrs {
			found = found || a[0] == k
		}
		if !found {
			m.fail("an entry of a declaration")
		}
		if seen[k] {
			m.fail("no second " + k)
		}
		seen[k] = true
		m.i++
		m.lit(":")
		v := m.cur()
		vals[k] = v.S
		if (k == "repeated" || k == "reserved") && v.S != "true" && v.S != "false" {
			m.fail("a boolean")
		}
		m.i++
	}
	for _, a := range d.Attrs {
		if vals[a[0]] != a[1] {
			m.fail(fmt.Sprintf("a declaration with %s %q, which before had %q", a[0], a[1], vals[a[0]]))
		}
	}
	m.lit("}")
}

// accounted compares a library tree with the source; skip means that the
// source uses spellings that the documentation leaves open.
func accounted(src string, tree *Node, permissive bool) (diff string, skip bool) {
	m := &matcher{toks: tokenize(src), permissive: permissive}
	for _, t := range m.toks {
		if t.Unspec {
			return "", true
		}
	}
	defer func() {
		e := recover()
		if e == nil {
			skip = m.skip
			return
		}
		d, ok := e.(mismatch)
		if !ok {
			panic(e)
		}
		diff, skip = strings.TrimSpace(string(d)), m.skip
	}()
	m.node(tree)
	return "", m.skip
}
