package main

// C24: every public entry point of the parser accepts its statement, and nothing else.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

var singleKinds = append(append([]string{}, entryKinds...), "declaration")

// RefEntry is the reference's result for one statement at the beginning of a text.
type RefEntry struct {
	V      Verdict
	Node   *Node
	Absent bool // syntax and edition only: the text begins with something else
	Next   int  // index of the token behind the statement
	Fail   int
	Msg    string
	Toks   []Tok
}

func refEntry(src, kind string, strict, body bool) (res RefEntry) {
	p := &refParser{toks: tokenize(src), strict: strict, body: body}
	res.Toks = p.toks
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(refFail)
			if !ok {
				panic(e)
			}
			res.V, res.Fail, res.Msg, res.Node = f.v, f.idx, f.msg, nil
		}
	}()
	var n *Node
	need := func(word string) {
		if p.cur().Unspec {
			p.unspec("token")
		}
		if !p.is(word) {
			p.fail("expected " + word)
		}
	}
	switch kind {
	case "syntax", "edition":
		if p.cur().Unspec {
			p.unspec("token")
		}
		if !p.is(kind) {
			res.V, res.Absent = Accept, true
			return res
		}
		n = p.mk(kind)
		p.take()
		p.expect("=")
		t := p.kind(KStr)
		v := t.S[1 : len(t.S)-1]
		if kind == "syntax" {
			if v != "proto2" && v != "proto3" {
				p.fail("unknown syntax")
			}
			n.set("version", v)
		} else {
			if v == "" {
				p.unspec("empty edition")
			}
			if strings.Trim(v, "0123456789") != "" || v[0] == '0' {
				p.fail("edition is not a decimal")
			}
			n.set("edition", v)
		}
		n.set("quote", t.S)
		p.expect(";")
		p.done(n)
	case "package":
		need("package")
		n = p.mk("package")
		p.take()
		n.set("name", p.fullIdent())
		p.expect(";")
		p.done(n)
	case "field":
		if isLabel(p.cur()) && p.at(1).S == "group" || p.is("group") {
			p.unspec("group as a type")
		}
		n = p.fieldOrGroup(false)
	case "group":
		k := 0
		if isLabel(p.cur()) {
			k = 1
		} else if p.is("group") {
			p.unspec("group without label")
		}
		for i := 0; i <= k; i++ {
			if p.at(i).Unspec {
				p.unspec("token")
			}
		}
		if t := p.at(k); t.K != KIdent || t.S != "group" {
			p.fail("expected group")
		}
		if t := p.at(k + 1); t.K == KIdent && (t.S[0] < 'A' || t.S[0] > 'Z') {
			p.fail("group name in lower case")
		}
		n = p.group()
	case "declaration":
		need(kind)
		n = p.mk(kind)
		p.take()
		p.expect("=")
		p.declaration(n)
		p.done(n)
	default:
		need(kind)
		n = map[string]func() *Node{
			"import": p.importStmt, "option": p.option, "message": p.message, "enum": p.enum, "service": p.service,
			"extend": p.extend, "map": p.mapField, "oneof": p.oneof, "reserved": p.reserved, "extensions": p.extensions,
		}[kind]()
	}
	res.V, res.Node, res.Next = Accept, n, p.i
	return res
}

// checkSingle: Src is any text, Ints[0] the entry point it is given to.
func checkSingle(c *Case) Result {
	if len(c.Ints) != 1 || !validUTF8(c.Src) || c.Ints[0] < 0 {
		return Result{}
	}
	kind := singleKinds[c.Ints[0]%len(singleKinds)]
	src := string(c.Src)
	ref := refEntry(src, kind, c.Strict, c.Body)
	if strings.HasPrefix(src, bom) || len(ref.Toks[0].Cmts) > 0 {
		return Result{} // the entry points leave a byte order mark and leading comments to the caller
	}
	if ref.V == Unspec {
		return Result{Tags: []string{"open: " + kind}}
	}
	var lo []lexer.Option
	if c.File != "" {
		lo = append(lo, lexer.WithFilename(c.File))
	}
	lex := lexer.NewLexer(strings.NewReader(src), lo...)
	p := parser.NewParser(lex, parser.WithPermissive(!c.Strict), parser.WithBodyIncludingComments(c.Body))
	var v interface{}
	var err error
	if kind == "declaration" {
		v, err = p.ParseDeclaration()
	} else {
		v, err = callEntry(p, kind)
	}
	none := reflect.ValueOf(v).IsNil()
	if ref.V == Reject {
		t := ref.Toks[ref.Fail]
		if err == nil {
			return viol("the entry point for %s accepts a text that leaves its statement at %q (%d:%d): %s", kind, t.S, t.Start.Line, t.Start.Col, ref.Msg)
		}
		if !none {
			return viol("the entry point for %s gives an element and an error: %v", kind, err)
		}
		return Result{NT: true, Tags: []string{"rejected " + kind}}
	}
	if err != nil {
		return viol("the entry point for %s rejects its statement: %v", kind, err)
	}
	if ref.Absent {
		if !none {
			return viol("the entry point for %s gives an element for a text without one", kind)
		}
	} else {
		if none {
			return viol("the entry point for %s returns nothing", kind)
		}
		got := conv(v)
		if d := diff(ref.Node, got, Proj{true, true, true, true}, ""); d != "" {
			return viol("the entry point for %s: %s", kind, d)
		}
		if got.HasPos && got.File != c.File {
			return viol("the entry point for %s gives the file name %q, want %q", kind, got.File, c.File)
		}
	}
	// the parser stands directly behind the statement
	next := &ref.Toks[ref.Next]
	if got := p.IsEOF(); got != (next.K == KEOF) {
		return viol("behind the statement of the entry point for %s IsEOF is %v, the rest begins with %q", kind, got, next.S)
	}
	if len(p.ParseComments()) != len(next.Cmts) {
		return viol("not the %d comments behind the statement of the entry point for %s", len(next.Cmts), kind)
	}
	lex.Next()
	if next.K != KEOF && lex.Pos.Offset != next.Start.Off {
		return viol("the entry point for %s leaves the parser at offset %d, want %d", kind, lex.Pos.Offset, next.Start.Off)
	}
	tag := "accepted " + kind
	if ref.Absent {
		tag = "absent " + kind
	}
	return Result{NT: true, Tags: []string{tag, fmt.Sprint("something behind: ", next.K != KEOF)}}
}

func genSingle(r R) *Case {
	g := &gen{R: r, cfg: GenCfg{Strict: r.p(30), Size: 2, Depth: 2}, budget: 25, style: r.n(4)}
	kind := r.n(len(singleKinds))
	c := &Case{Strict: r.p(30), Body: r.p(40), File: []string{"", "e.proto"}[r.n(2)], Ints: []int{kind}}
	if r.p(15) { // the statement of another entry point
		kind = r.n(len(singleKinds))
	}
	g.one(singleKinds[kind])
	toks := g.toks
	for k := 0; k < 4 && singleKinds[kind] == "declaration" && !strings.Contains(strings.Join(toks, " "), "declaration = {"); k++ {
		g.toks = nil
		g.one(singleKinds[kind])
		toks = g.toks
	}
	if singleKinds[kind] == "declaration" {
		for i, t := range toks {
			if t == "declaration" && i > 1 && (toks[i-1] == "[" || toks[i-1] == ",") {
				toks = append([]string{}, toks[i:stmtAt(toks, i)]...)
				break
			}
		}
	}
	if len(toks) > 120 {
		toks = toks[:120]
	}
	for k := r.w(5, 5, 1); k > 0; k-- {
		toks = r.mutateToks(toks)
	}
	if cut := r.p(12); cut && len(toks) > 0 {
		toks = toks[:r.n(len(toks))]
	} else if r.p(40) {
		g.toks = nil
		g.one(r.pick(entryKinds))
		if r.p(50) {
			g.toks = []string{r.poolTok(g.toks)}
		}
		toks = append(toks, g.toks...)
	}
	st := r.style()
	st.bom, st.pad = false, 0
	if st.kind == layEverywhere && r.p(60) {
		st.kind = layPretty
	}
	parts := r.renderParts(toks, st)
	parts[0] = ""
	c.Src = []byte(strings.Join(parts, ""))
	return c
}

func init() {
	register(&Prop{
		ID: "C24", Quick: 150000, Thorough: 3000000,
		Rule: "One statement of any of the 16 kinds with a public entry point, laid out with white space and comments, as generated, changed by up to 2 token edits or cut off, alone or with something behind it, given to the entry point of its or another kind; non-trivial: the reference decides the text. The entry point must return the reference's element or, where the text does not begin with such a statement, an error and no element (syntax and edition: neither), and leave the parser directly behind the statement.",
		Gen: func(r R, x *Exec) {
			x.Do(genSingle(r))
		},
		Check: checkSingle,
	})
}
