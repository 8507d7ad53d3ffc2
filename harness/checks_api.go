package main

// Checks about the visitor, the unordered view, entry points, helpers, error
// positions, concurrency and the dump program.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// ---- C14

func shiftPos(p *Pos, off, lines int) { p.Off += off; p.Line += lines }

func shiftNode(n *Node, off, lines int) {
	n.walk(func(m *Node) {
		if m.HasPos {
			shiftPos(&m.Pos, off, lines)
			shiftPos(&m.Last, off, lines)
		}
		for _, l := range [][]Cmt{m.Cmts, m.Embed} {
			for i := range l {
				shiftPos(&l[i].Start, off, lines)
				shiftPos(&l[i].Last, off, lines)
			}
		}
		for _, c := range []*Cmt{m.Inline, m.Curly} {
			if c != nil {
				shiftPos(&c.Start, off, lines)
				shiftPos(&c.Last, off, lines)
			}
		}
	})
}

func checkConcat(c *Case) Result {
	var all []byte
	lines, pieces := 0, 0
	want := &Node{Kind: "proto"}
	prevBlock := false
	for i, s := range c.Strs {
		if !validUTF8(s) || len(s) == 0 || s[len(s)-1] != '\n' || strings.Contains(string(s), bom) {
			return Result{}
		}
		ref := refParse(string(s), c.Strict, c.Body)
		if ref.V != Accept || len(ref.Toks) < 2 {
			return Result{}
		}
		if !c.Strict && prevBlock && ref.Toks[0].S == ";" {
			return Result{}
		}
		if i > 0 {
			for _, a := range ref.Root.Aux {
				if a.Kind == "syntax" || len(want.Body) > 0 || len(want.Aux) > 0 && want.Aux[len(want.Aux)-1].Kind == "edition" {
					return Result{}
				}
			}
		}
		// comments behind the last statement would belong to the next piece
		if eof := ref.Toks[len(ref.Toks)-1]; len(eof.Cmts) > 1 || len(eof.Cmts) == 1 && eof.Cmts[0].Start.Line != ref.Toks[len(ref.Toks)-2].Last.Line {
			return Result{}
		}
		prevBlock = ref.Toks[len(ref.Toks)-2].S == "}"
		tree, err := libParse(s, c.opts())
		if err != nil {
			return viol("piece %d is rejected: %v", i, err)
		}
		reps := 1
		if i < len(c.Ints) && c.Ints[i] > 1 {
			reps = c.Ints[i]
			for _, a := range ref.Root.Aux {
				if a.Kind == "syntax" || a.Kind == "edition" {
					return Result{}
				}
			}
			if !c.Strict && prevBlock && ref.Toks[0].S == ";" {
				return Result{}
			}
		}
		pieces += reps
		inPiece := bytes.Count(s, []byte("\n"))
		for ; reps > 0; reps-- {
			n := convProto(tree)
			shiftNode(n, len(all), lines)
			want.Aux = append(want.Aux, n.Aux...)
			want.Body = append(want.Body, n.Body...)
			all = append(all, s...)
			lines += inPiece
		}
	}
	tree, err := libParse(all, c.opts())
	if err != nil {
		return viol("the pieces are accepted, their concatenation is rejected: %v", err)
	}
	if d := diff(want, convProto(tree), Proj{true, true, true, true}, ""); d != "" {
		return viol("the concatenation differs from its pieces: %s", d)
	}
	tag := fmt.Sprintf("%d pieces", pieces)
	if pieces > 5 {
		tag = "pieces below " + fmt.Sprint(1<<bits.Len(uint(pieces)))
	}
	return Result{NT: pieces >= 2, Tags: []string{tag}}
}

var entryKinds = []string{"syntax", "edition", "import", "package", "option", "message", "enum", "service", "extend", "field", "map", "group", "oneof", "reserved", "extensions"}

func callEntry(p *parser.Parser, kind string) (interface{}, error) {
	switch kind {
	case "syntax":
		return p.ParseSyntax()
	case "edition":
		return p.ParseEdition()
	case "import":
		return p.ParseImport()
	case "package":
		return p.ParsePackage()
	case "option":
		return p.ParseOption()
	case "message":
		return p.ParseMessage()
	case "enum":
		return p.ParseEnum()
	case "service":
		return p.ParseService()
	case "extend":
		return p.ParseExtend()
	case "field":
		return p.ParseField()
	case "map":
		return p.ParseMapField()
	case "group":
		return p.ParseGroupField()
	case "oneof":
		return p.ParseOneof()
	case "reserved":
		return p.ParseReserved()
	}
	return p.ParseExtensions()
}

// checkEntry: Strs are statements without comments around them, Ints their
// kinds; Kind is "message" when they stand in a message body, else "file".
func checkEntry(c *Case) Result {
	if len(c.Ints) != len(c.Strs) || len(c.Strs) == 0 {
		return Result{}
	}
	prefix, suffix := "\n", "\n"
	depth := 0
	if strings.HasPrefix(c.Kind, "entry message") {
		depth = 1
		if n, err := strconv.Atoi(strings.TrimPrefix(c.Kind, "entry message in ")); err == nil && n > 0 && n < 1000 {
			depth = n
		}
		prefix, suffix = strings.Repeat("message M {\n", depth), strings.Repeat("\n}", depth)+"\n"
	}
	src := prefix
	var at []int
	text := ""
	for i, s := range c.Strs {
		if !validUTF8(s) {
			return Result{}
		}
		if i > 0 {
			src += "\n"
			text += "\n"
		}
		at = append(at, len(src))
		src += string(s)
		text += string(s)
	}
	src += suffix
	ref := refParse(src, c.Strict, c.Body)
	if ref.V != Accept {
		return Result{}
	}
	tree, err := libParse([]byte(src), c.opts())
	if err != nil {
		return viol("a source of the grammar is rejected: %v", err)
	}
	root := convProto(tree)
	elems := append(append([]*Node{}, root.Aux...), root.Body...)
	for k, in := 0, root; k < depth; k++ {
		if len(in.Body) != 1 {
			return Result{}
		}
		in = in.Body[0]
		elems = in.Body
	}
	if len(elems) != len(c.Strs) {
		return Result{}
	}
	for i, e := range elems {
		if e.Kind != entryKinds[c.Ints[i]%len(entryKinds)] || e.Pos.Off != at[i] || len(e.Cmts) > 0 {
			return Result{}
		}
		e.Inline = nil
	}
	newParser := func(s string) *parser.Parser {
		var lo []lexer.Option
		if c.File != "" {
			lo = append(lo, lexer.WithFilename(c.File))
		}
		return parser.NewParser(lexer.NewLexer(strings.NewReader(s), lo...), parser.WithPermissive(!c.Strict), parser.WithBodyIncludingComments(c.Body))
	}
	compare := func(how string, i int, p *parser.Parser, off int, before string) string {
		kind := entryKinds[c.Ints[i]%len(entryKinds)]
		v, err := callEntry(p, kind)
		if err != nil {
			return fmt.Sprintf("%s: the entry point for %s rejects statement %d, which is accepted in a file: %v", how, kind, i, err)
		}
		if reflect.ValueOf(v).IsNil() {
			return fmt.Sprintf("%s: the entry point for %s returns nothing", how, kind)
		}
		got := conv(v)
		shiftNode(got, off, strings.Count(before, "\n"))
		got.Cmts, got.Inline = nil, nil
		if d := diff(elems[i], got, Proj{true, true, true, true}, ""); d != "" {
			return fmt.Sprintf("%s: the entry point for %s gives another element than the file: %s", how, kind, d)
		}
		if got.HasPos && got.File != c.File {
			return fmt.Sprintf("%s: file name %q, want %q", how, got.File, c.File)
		}
		return ""
	}
	var tags []string
	for i, s := range c.Strs {
		tags = append(tags, "entry "+entryKinds[c.Ints[i]%len(entryKinds)])
		if d := compare("alone", i, newParser(string(s)), at[i], src[:at[i]]); d != "" {
			return viol("%s", d)
		}
	}
	p := newParser(text)
	for i := range c.Strs {
		if d := compare("one after the other", i, p, len(prefix), prefix); d != "" {
			return viol("%s", d)
		}
	}
	return Result{NT: true, N: 1 + 2*len(c.Strs), NTN: len(c.Strs), Tags: tags}
}

func genPieces(r R, strict bool) *Case {
	d := genDoc(r, GenCfg{Strict: strict, Size: 5, Depth: 2})
	c := &Case{Kind: "concat", Strict: strict, Body: r.p(40)}
	st := r.style()
	st.bom, st.pad = false, 0
	for i, from := range d.Starts {
		to := len(d.Toks)
		if i+1 < len(d.Starts) {
			to = d.Starts[i+1]
		}
		if from == to {
			continue
		}
		parts := r.renderParts(d.Toks[from:to], st)
		parts[len(parts)-1] = ""
		if r.p(25) {
			parts[len(parts)-1] = " // tail " + r.pick([]string{"x", "é", ""})
		}
		c.Strs = append(c.Strs, []byte(strings.Join(parts, "")+"\n"))
	}
	// many of the same
	if len(c.Strs) > 0 && r.p(2) {
		c.Kind = "concat repeated"
		k := r.n(len(c.Strs))
		if r.p(50) {
			k = len(c.Strs)
			c.Strs = append(c.Strs, []byte(shortStmts[r.n(20)]+"\n"))
		}
		for i, s := range c.Strs {
			c.Ints = append(c.Ints, 1)
			if i == k {
				c.Ints[i] = r.times(len(s), 1<<16)
			}
		}
	}
	return c
}

func genEntry(r R, strict bool) *Case {
	g := &gen{R: r, cfg: GenCfg{Strict: strict, Size: 2, Depth: 2}, budget: 25, style: r.n(4)}
	c := &Case{Kind: "entry file", Strict: strict, Body: r.p(40), File: []string{"", "e.proto"}[r.n(2)]}
	pick := []int{2, 3, 4, 5, 6, 7, 8}
	if r.p(60) {
		c.Kind = "entry message"
		if r.p(12) {
			c.Kind += fmt.Sprintf(" in %d", []int{2, 3, 5, 9, 13, 18, 34, 70, 130}[r.n(9)])
		}
		pick = []int{4, 5, 6, 8, 9, 9, 10, 11, 12, 13, 14}
	}
	st := r.style()
	st.bom, st.pad = false, 0
	for k := 1 + r.n(3); k > 0; k-- {
		kind := pick[r.n(len(pick))]
		if c.Kind == "entry file" && len(c.Strs) == 0 && r.p(25) {
			kind = r.n(2)
		}
		g.toks = nil
		g.one(entryKinds[kind])
		parts := r.renderParts(g.toks, st)
		parts[0], parts[len(parts)-1] = "", ""
		c.Strs = append(c.Strs, []byte(strings.Join(parts, "")))
		c.Ints = append(c.Ints, kind)
	}
	return c
}

// one makes a statement of a kind with a public entry point.
func (g *gen) one(kind string) {
	switch kind {
	case "syntax":
		g.syntax()
	case "edition":
		g.edition()
	case "import":
		g.importStmt()
	case "package":
		g.e("package")
		g.dotted(noneBad)
		g.e(";")
	case "option":
		g.option()
	case "message":
		g.message(1)
	case "enum":
		g.enum()
	case "service":
		g.service()
	case "extend":
		g.extend()
	case "field":
		g.field(badFieldFirst)
	case "map":
		g.mapField()
	case "group":
		g.group(1)
	case "oneof":
		g.oneof()
	case "reserved":
		g.reserved()
	case "extensions", "declaration":
		g.extensions()
	}
}

// ---- C15

type elem struct {
	ptr    interface{}
	parent int
	list   int // identifies the list the element is in, 0 for none
	idx    int
}

var visiteeType = reflect.TypeOf((*parser.Visitee)(nil)).Elem()

// collect finds every element and comment of a tree by reflection.
func collect(v reflect.Value, parent int, list *int, out *[]elem) {
	add := func(e reflect.Value, l, idx int) {
		if e.Kind() == reflect.Interface {
			e = e.Elem()
		}
		if e.Kind() != reflect.Ptr || e.IsNil() {
			return
		}
		if !e.Type().Implements(visiteeType) {
			collect(e.Elem(), parent, list, out)
			return
		}
		*out = append(*out, elem{e.Interface(), parent, l, idx})
		collect(e.Elem(), len(*out)-1, list, out)
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).PkgPath != "" {
			continue
		}
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Ptr:
			add(f, 0, 0)
		case reflect.Slice:
			*list++
			l := *list
			for k := 0; k < f.Len(); k++ {
				if e := f.Index(k); e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface {
					add(e, l, k)
				}
			}
		}
	}
}

// editTree changes a tree the way a program may: elements are taken out of
// bodies and lists, turned round or moved elsewhere, inline comments dropped.
// The same numbers change equal trees in the same way.
func editTree(tree *parser.Proto, seed uint64) []string {
	rnd := seed
	next := func(n int) int {
		rnd = splitmix(rnd + 0x9e3779b97f4a7c15)
		return int(rnd % uint64(n))
	}
	var log []string
	for k := 1 + next(3); k > 0; k-- {
		var lists, comments []reflect.Value
		var find func(v reflect.Value)
		find = func(v reflect.Value) {
			switch v.Kind() {
			case reflect.Ptr, reflect.Interface:
				if !v.IsNil() {
					find(v.Elem())
				}
			case reflect.Struct:
				for i := 0; i < v.NumField(); i++ {
					f := v.Field(i)
					if !f.CanSet() {
						continue
					}
					if _, ok := f.Interface().(*parser.Comment); ok && !f.IsNil() {
						comments = append(comments, f)
					}
					find(f)
				}
			case reflect.Slice:
				if v.Len() > 0 && v.Type().Elem().Implements(visiteeType) && v.CanSet() {
					lists = append(lists, v)
				}
				if e := v.Type().Elem().Kind(); e == reflect.Ptr || e == reflect.Interface || e == reflect.Struct {
					for i := 0; i < v.Len(); i++ {
						find(v.Index(i))
					}
				}
			}
		}
		find(reflect.ValueOf(tree).Elem())
		if len(comments) > 0 && next(4) == 0 {
			comments[next(len(comments))].Set(reflect.Zero(reflect.TypeOf((*parser.Comment)(nil))))
			log = append(log, "edited: comment dropped")
			continue
		}
		if len(lists) == 0 {
			break
		}
		l := lists[next(len(lists))]
		n := l.Len()
		fresh := reflect.MakeSlice(l.Type(), 0, n)
		switch next(4) {
		case 0: // turned round
			for i := n - 1; i >= 0; i-- {
				fresh = reflect.Append(fresh, l.Index(i))
			}
			l.Set(fresh)
			log = append(log, "edited: turned round")
		case 1: // the last element first, in place
			last := reflect.ValueOf(l.Index(n - 1).Interface())
			reflect.Copy(l.Slice(1, n), l.Slice(0, n-1))
			l.Index(0).Set(last)
			log = append(log, "edited: rotated in place")
		case 2: // one of them copied to a new element
			i := next(n)
			e := l.Index(i)
			if e.Kind() == reflect.Interface {
				e = e.Elem()
			}
			c := reflect.New(e.Type().Elem())
			empty := parser.EmptyStatement{}
			if e.Type() == reflect.TypeOf(&empty) {
				continue
			}
			switch e.Interface().(type) {
			case *parser.Comment, *parser.EnumField, *parser.Field, *parser.Option, *parser.Package, *parser.Import, *parser.MapField, *parser.RPC:
				for f := 0; f < e.Elem().NumField(); f++ {
					if k := e.Elem().Field(f).Kind(); k == reflect.String || k == reflect.Bool || k == reflect.Struct {
						c.Elem().Field(f).Set(e.Elem().Field(f))
					}
				}
				if rpc, ok := c.Interface().(*parser.RPC); ok {
					rpc.RPCRequest, rpc.RPCResponse = &parser.RPCRequest{}, &parser.RPCResponse{}
				}
				fresh = reflect.AppendSlice(fresh, l)
				l.Set(reflect.Append(fresh, c))
				log = append(log, "edited: new element")
			}
		default:
			i := next(n)
			fresh = reflect.AppendSlice(fresh, l.Slice(0, i))
			l.Set(reflect.AppendSlice(fresh, l.Slice(i+1, n)))
			log = append(log, "edited: one dropped")
		}
	}
	return log
}

type recVisitor struct {
	events []interface{}
	names  []string
	prune  func(ptr interface{}) bool
}

func (v *recVisitor) rec(p interface{}, name string) bool {
	v.events = append(v.events, p)
	v.names = append(v.names, name)
	return v.prune == nil || !v.prune(p)
}
func (v *recVisitor) VisitComment(e *parser.Comment)              { v.rec(e, "Comment") }
func (v *recVisitor) VisitDeclaration(e *parser.Declaration) bool { return v.rec(e, "Declaration") }
func (v *recVisitor) VisitEdition(e *parser.Edition) bool         { return v.rec(e, "Edition") }
func (v *recVisitor) VisitEmptyStatement(e *parser.EmptyStatement) bool {
	return v.rec(e, "EmptyStatement")
}
func (v *recVisitor) VisitEnum(e *parser.Enum) bool             { return v.rec(e, "Enum") }
func (v *recVisitor) VisitEnumField(e *parser.EnumField) bool   { return v.rec(e, "EnumField") }
func (v *recVisitor) VisitExtend(e *parser.Extend) bool         { return v.rec(e, "Extend") }
func (v *recVisitor) VisitExtensions(e *parser.Extensions) bool { return v.rec(e, "Extensions") }
func (v *recVisitor) VisitField(e *parser.Field) bool           { return v.rec(e, "Field") }
func (v *recVisitor) VisitGroupField(e *parser.GroupField) bool { return v.rec(e, "GroupField") }
func (v *recVisitor) VisitImport(e *parser.Import) bool         { return v.rec(e, "Import") }
func (v *recVisitor) VisitMapField(e *parser.MapField) bool     { return v.rec(e, "MapField") }
func (v *recVisitor) VisitMessage(e *parser.Message) bool       { return v.rec(e, "Message") }
func (v *recVisitor) VisitOneof(e *parser.Oneof) bool           { return v.rec(e, "Oneof") }
func (v *recVisitor) VisitOneofField(e *parser.OneofField) bool { return v.rec(e, "OneofField") }
func (v *recVisitor) VisitOption(e *parser.Option) bool         { return v.rec(e, "Option") }
func (v *recVisitor) VisitPackage(e *parser.Package) bool       { return v.rec(e, "Package") }
func (v *recVisitor) VisitReserved(e *parser.Reserved) bool     { return v.rec(e, "Reserved") }
func (v *recVisitor) VisitRPC(e *parser.RPC) bool               { return v.rec(e, "RPC") }
func (v *recVisitor) VisitService(e *parser.Service) bool       { return v.rec(e, "Service") }
func (v *recVisitor) VisitSyntax(e *parser.Syntax) bool         { return v.rec(e, "Syntax") }

// Ints[0] selects where to start (the file or one element); Ints[1:] are bits
// which elements return false.
func checkVisitor(c *Case) Result {
	tree, err := libParse(c.Src, c.opts())
	if err != nil || len(c.Ints) < 2 {
		return Result{}
	}
	var tags []string
	if strings.HasPrefix(c.Kind, "edited") {
		tree.Accept(&nopVisitor{})
		tags = append(tags, editTree(tree, uint64(c.Ints[0]*1000+len(c.Ints)))...)
	}
	var elems []elem
	list := 0
	collect(reflect.ValueOf(tree).Elem(), -1, &list, &elems)
	var start parser.Visitee = tree
	if c.Ints[0] > 0 && len(elems) > 0 {
		k := c.Ints[0] % len(elems)
		start = elems[k].ptr.(parser.Visitee)
		root := elems[k]
		root.parent = -1
		root.list = 0
		elems = []elem{root}
		list = 0
		collect(reflect.ValueOf(root.ptr).Elem(), 0, &list, &elems)
	}
	index := map[interface{}]int{}
	for i, e := range elems {
		if _, ok := e.ptr.(*parser.EmptyStatement); ok {
			continue
		}
		if _, dup := index[e.ptr]; dup {
			return viol("an element of type %T is in the tree twice", e.ptr)
		}
		index[e.ptr] = i
	}
	// empty statements without a comment may share an address, elements are told apart by pointer otherwise
	for i, e := range elems {
		if _, ok := e.ptr.(*parser.EmptyStatement); ok {
			if _, dup := index[e.ptr]; !dup {
				index[e.ptr] = i
			}
		}
	}
	pruned := make([]bool, len(elems))
	if strings.HasSuffix(c.Kind, "prune") {
		for i, e := range elems {
			if _, ok := e.ptr.(*parser.Comment); !ok {
				pruned[i] = c.Ints[1+i%(len(c.Ints)-1)] == 1
			}
		}
	}
	v := &recVisitor{prune: func(p interface{}) bool {
		i, ok := index[p]
		return ok && pruned[i]
	}}
	start.Accept(v)
	hidden := make([]bool, len(elems))
	expect := 0
	for i, e := range elems {
		if e.parent >= 0 && (hidden[e.parent] || pruned[e.parent]) {
			hidden[i] = true
			continue
		}
		expect++
	}
	when := make([]int, len(elems))
	for i := range when {
		when[i] = -1
	}
	for k, p := range v.events {
		i, ok := index[p]
		if !ok {
			return viol("the visitor is called with a %s that is not in the tree", v.names[k])
		}
		if tn := reflect.TypeOf(p).Elem().Name(); tn != v.names[k] {
			return viol("Visit%s is called with a %s", v.names[k], tn)
		}
		if hidden[i] {
			return viol("a %s below an element whose visit returned false is visited", v.names[k])
		}
		if when[i] >= 0 {
			return viol("a %s is visited twice", v.names[k])
		}
		when[i] = k
	}
	for i, e := range elems {
		if hidden[i] {
			continue
		}
		if when[i] < 0 {
			par := "the file"
			if e.parent >= 0 {
				par = fmt.Sprintf("a %T", elems[e.parent].ptr)
			}
			return viol("a %T in %s is not visited", e.ptr, par)
		}
		if e.parent >= 0 && when[e.parent] > when[i] {
			return viol("a %T is visited before its parent", e.ptr)
		}
		if i > 0 {
			for j := i - 1; j >= 0; j-- {
				if elems[j].list == e.list && e.list != 0 && elems[j].parent == e.parent {
					if when[j] > when[i] {
						return viol("a %T is visited before the %T in front of it", e.ptr, elems[j].ptr)
					}
					break
				}
			}
		}
	}
	if len(v.events) != expect {
		return viol("%d calls for %d elements", len(v.events), expect)
	}
	if c.Ints[0] > 0 {
		tags = append(tags, "from one element")
	} else {
		tags = append(tags, "from the file")
	}
	if expect < len(elems) {
		tags = append(tags, "something pruned")
	}
	return Result{NT: len(elems) >= 4, Tags: tags}
}

// ---- C16

var foreign = map[string][]parser.Visitee{}

func init() {
	all := map[string]parser.Visitee{
		"import": &parser.Import{}, "package": &parser.Package{}, "option": &parser.Option{}, "message": &parser.Message{}, "extend": &parser.Extend{}, "enum": &parser.Enum{}, "service": &parser.Service{}, "empty": &parser.EmptyStatement{},
		"field": &parser.Field{}, "oneof": &parser.Oneof{}, "map": &parser.MapField{}, "group": &parser.GroupField{}, "reserved": &parser.Reserved{}, "extensions": &parser.Extensions{},
		"enumfield": &parser.EnumField{}, "rpc": &parser.RPC{}, "comment": &parser.Comment{Raw: "// c"}, "syntax": &parser.Syntax{}, "edition": &parser.Edition{}, "oneoffield": &parser.OneofField{}, "declaration": &parser.Declaration{},
	}
	fits := map[string][]string{
		"proto":   {"import", "package", "option", "message", "extend", "enum", "service", "empty"},
		"message": {"field", "enum", "message", "option", "oneof", "map", "group", "reserved", "extend", "empty", "extensions"},
		"extend":  {"field", "empty"},
		"enum":    {"option", "enumfield", "reserved", "empty"},
		"service": {"option", "rpc", "empty"},
	}
	var names []string
	for _, k := range []string{"import", "package", "option", "message", "extend", "enum", "service", "empty", "field", "oneof", "map", "group", "reserved", "extensions", "enumfield", "rpc", "comment", "syntax", "edition", "oneoffield", "declaration"} {
		names = append(names, k)
	}
	for body, ok := range fits {
		o := set(ok...)
		for _, k := range names {
			if !o[k] {
				foreign[body] = append(foreign[body], all[k])
			}
		}
	}
}

type bodyRef struct {
	kind string
	body *[]parser.Visitee
}

// viewBodies lists the bodies the unordered view regroups.
func viewBodies(p *parser.Proto) []bodyRef {
	var out []bodyRef
	var visit func(kind string, b *[]parser.Visitee, nested bool)
	visit = func(kind string, b *[]parser.Visitee, nested bool) {
		out = append(out, bodyRef{kind, b})
		for _, v := range *b {
			switch e := v.(type) {
			case *parser.Message:
				visit("message", &e.MessageBody, true)
			case *parser.Enum:
				visit("enum", &e.EnumBody, true)
			case *parser.Extend:
				if !nested {
					visit("extend", &e.ExtendBody, true)
				}
			case *parser.Service:
				visit("service", &e.ServiceBody, true)
			}
		}
	}
	visit("proto", &p.ProtoBody, false)
	return out
}

// aloneVisitor interprets elements alone and compares each view with the element.
type aloneVisitor struct {
	nopVisitor
	left map[string]int
	body bool // a body comment deep inside is a reason to refuse
	viol string
}

func (v *aloneVisitor) check(kind string, e interface{}, view func() ([]*Node, error)) bool {
	if v.left[kind] == 0 || v.viol != "" {
		return true
	}
	v.left[kind]--
	u, err := view()
	if err != nil && v.body {
		return true
	}
	if err != nil {
		v.viol = fmt.Sprintf("a parsed %s cannot be interpreted alone: %v", kind, err)
		return false
	}
	if d := diff(regroup(conv(e), false), u[0], Proj{true, true, true, true}, ""); d != "" {
		v.viol = fmt.Sprintf("the unordered view of a %s alone differs: %s", kind, d)
		return false
	}
	return true
}

func (v *aloneVisitor) VisitMessage(e *parser.Message) bool {
	return v.check("message", e, func() ([]*Node, error) {
		u, err := unordered.InterpretMessage(e)
		if err != nil {
			return nil, err
		}
		return convUMessages([]*unordered.Message{u}), nil
	})
}

func (v *aloneVisitor) VisitEnum(e *parser.Enum) bool {
	return v.check("enum", e, func() ([]*Node, error) {
		u, err := unordered.InterpretEnum(e)
		if err != nil {
			return nil, err
		}
		return convUEnums([]*unordered.Enum{u}), nil
	})
}

func (v *aloneVisitor) VisitExtend(e *parser.Extend) bool {
	return v.check("extend", e, func() ([]*Node, error) {
		u, err := unordered.InterpretExtend(e)
		if err != nil {
			return nil, err
		}
		return convUExtends([]*unordered.Extend{u}), nil
	})
}

func (v *aloneVisitor) VisitService(e *parser.Service) bool {
	return v.check("service", e, func() ([]*Node, error) {
		u, err := unordered.InterpretService(e)
		if err != nil {
			return nil, err
		}
		return convUServices([]*unordered.Service{u}), nil
	})
}

// nilViews interprets nothing at all.
func nilViews() string {
	p, e1 := protoparser.UnorderedInterpret(nil)
	m, e2 := unordered.InterpretMessage(nil)
	e, e3 := unordered.InterpretEnum(nil)
	x, e4 := unordered.InterpretExtend(nil)
	s, e5 := unordered.InterpretService(nil)
	if p != nil || m != nil || e != nil || x != nil || s != nil {
		return "the view of nothing is something"
	}
	for _, err := range []error{e1, e2, e3, e4, e5} {
		if err != nil {
			return "nothing cannot be interpreted: " + err.Error()
		}
	}
	return ""
}

func checkUnordered(c *Case) Result {
	tree, err := libParse(c.Src, c.opts())
	if err != nil {
		return Result{}
	}
	tags := []string{c.Kind}
	if c.Kind == "foreign" {
		if len(c.Ints) < 3 {
			return Result{}
		}
		bodies := viewBodies(tree)
		b := bodies[c.Ints[0]%len(bodies)]
		f := foreign[b.kind][c.Ints[1]%len(foreign[b.kind])]
		i := c.Ints[2] % (len(*b.body) + 1)
		*b.body = append((*b.body)[:i:i], append([]parser.Visitee{f}, (*b.body)[i:]...)...)
		u, err := protoparser.UnorderedInterpret(tree)
		if err == nil {
			return viol("a %T in the body of a %s is lost without an error", f, b.kind)
		}
		if u != nil {
			return viol("a view comes with the error %v", err)
		}
		return Result{NT: true, Tags: append(tags, fmt.Sprintf("%T in %s", f, b.kind))}
	}
	if c.Body {
		comments := false
		for _, b := range viewBodies(tree) {
			for _, v := range *b.body {
				if _, ok := v.(*parser.Comment); ok {
					comments = true
				}
			}
		}
		u, err := protoparser.UnorderedInterpret(tree)
		if comments != (err != nil) || (u != nil) == (err != nil) {
			return viol("body comments present: %v, error: %v", comments, err)
		}
		if comments {
			return Result{NT: true, Tags: append(tags, "body comments")}
		}
	}
	copyTree, _ := libParse(c.Src, c.opts())
	if c.Kind == "edited" {
		protoparser.UnorderedInterpret(tree)
		tree.Accept(&aloneVisitor{left: map[string]int{"message": 3, "enum": 3, "extend": 3, "service": 3}})
		tags = append(tags, editTree(tree, uint64(c.Ints[0]))...)
		editTree(copyTree, uint64(c.Ints[0]))
	}
	before := convProto(tree)
	u, err := protoparser.UnorderedInterpret(tree)
	if err != nil {
		return viol("a parsed file cannot be interpreted: %v", err)
	}
	if u == nil {
		return viol("no view and no error")
	}
	if !sameExported(tree, copyTree) {
		return viol("interpreting changed the tree: %s", diff(convProto(copyTree), convProto(tree), Proj{true, true, true, true}, ""))
	}
	if d := diff(regroup(before, true), convUnordered(u), Proj{true, true, true, true}, ""); d != "" {
		return viol("the unordered view differs: %s", d)
	}
	// interpreting elements of any depth alone
	alone := &aloneVisitor{body: c.Body, left: map[string]int{"message": 3, "enum": 3, "extend": 3, "service": 3}}
	tree.Accept(alone)
	if alone.viol != "" {
		return viol("%s", alone.viol)
	}
	if !sameExported(tree, copyTree) {
		return viol("interpreting elements changed the tree")
	}
	if s := nilViews(); s != "" {
		return viol("%s", s)
	}
	n, _ := countStmts(before)
	return Result{NT: n >= 3, Tags: tags}
}

// ---- C20

func checkErrorPos(c *Case) Result {
	if !validUTF8(c.Src) || len(c.Ints) < 1 {
		return Result{}
	}
	src := string(c.Src)
	ref := refParse(src, c.Strict, false)
	i := c.Ints[0]
	if ref.V != Reject || ref.FailIdx != i || i >= len(ref.Toks) {
		return Result{Tags: []string{"the stray token is not what the reference objects to"}}
	}
	// without the stray token the source is valid
	stray := ref.Toks[i]
	rest := refParse(src[:stray.Start.Off]+strings.Repeat(" ", stray.End.Off-stray.Start.Off)+src[stray.End.Off:], c.Strict, false)
	if rest.V != Accept {
		return Result{}
	}
	tree, err := libParse(c.Src, c.opts())
	if err == nil || tree != nil {
		return viol("a source with a stray token %q is accepted", stray.S)
	}
	var me *meta.Error
	if !errors.As(err, &me) || me == nil {
		return viol("the error is not, and does not wrap, a *meta.Error: %T %v", err, err)
	}
	p := Pos{me.Pos.Offset, me.Pos.Line, me.Pos.Column}
	if me.Pos.Filename != c.File {
		return viol("the error names the file %q, want %q", me.Pos.Filename, c.File)
	}
	lo := 0
	if i > 0 {
		lo = ref.Toks[i-1].End.Off
	}
	hi := stray.Start.Off
	if len(stray.S) > 1 && stray.S[0] == '.' {
		hi++ // where no number is expected this is a dot and an integer
	}
	if p.Off < lo || p.Off > hi {
		return viol("the error position is %v; the last good token ends at offset %d and the stray token %q starts at %v (%v)", p, lo, stray.S, stray.Start, err)
	}
	want := newPosTable(src).at(p.Off)
	if want != p {
		return viol("the error position %v is inconsistent, offset %d is %v", p, p.Off, want)
	}
	if found := foundText(me.Found); !strings.HasPrefix(src[p.Off:], found) && !strings.HasPrefix(src[stray.Start.Off:], found) {
		return viol("the error at %v claims to have found %q, but the stray token is %q (%v)", p, found, stray.S, err)
	}
	if found := foundText(me.Found); stray.K == KIdent && found != stray.S {
		return viol("the error for the stray word %q claims to have found %q (%v)", stray.S, found, err)
	}
	tag := "before the stray token"
	if p.Off == stray.Start.Off {
		tag = "at the stray token"
	}
	return Result{NT: true, Tags: []string{tag}}
}

// foundText returns the source text an error claims to have found; some errors
// add details behind the quoted text.
func foundText(found string) string {
	i := strings.LastIndex(found, "(Token=")
	if i < 0 {
		return found
	}
	if t, err := strconv.Unquote(found[:i]); err == nil {
		return t
	}
	return found
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---- C22

func checkHelpers(c *Case) Result {
	if c.Kind == "version" {
		want := 0
		if c.File == "proto2" {
			want = 2
		} else if c.File == "proto3" {
			want = 3
		}
		if v := (&parser.Syntax{ProtobufVersion: c.File}).Version(); v != want {
			return viol("the version of %q is %d, not %d", c.File, v, want)
		}
		return Result{NT: true, Tags: []string{"version"}}
	}
	if c.Kind == "position" {
		if len(c.Ints) < 3 {
			return Result{}
		}
		p := meta.Position{Filename: c.File, Offset: c.Ints[0], Line: c.Ints[1], Column: c.Ints[2]}
		name := c.File
		if name == "" {
			name = "<input>"
		}
		want := name + ":" + fmt.Sprint(c.Ints[1]) + ":" + fmt.Sprint(c.Ints[2])
		if p.String() != want {
			return viol("position prints as %q, want %q", p.String(), want)
		}
		if s := (scanner.Position{Position: p}).String(); s != want {
			return viol("scanner position prints as %q, want %q", s, want)
		}
		return Result{NT: true, Tags: []string{"position"}}
	}
	if !validUTF8(c.Src) {
		return Result{}
	}
	src := string(c.Src)
	ref := refParse(src, c.Strict, true)
	if ref.V != Accept {
		return Result{}
	}
	tree, err := libParse(c.Src, libOpts{strict: c.Strict, body: true, file: c.File})
	if err != nil {
		return viol("a source of the grammar is rejected: %v", err)
	}
	file := c.File
	if file == "" {
		file = "<input>"
	}
	for _, n := range ref.Root.Aux {
		if n.Kind == "syntax" {
			want := int(n.attr("version")[5] - '0')
			if tree.Syntax == nil || tree.Syntax.Version() != want {
				return viol("the version of %q is not %d", n.attr("version"), want)
			}
		}
	}
	var elems []elem
	list := 0
	collect(reflect.ValueOf(tree).Elem(), -1, &list, &elems)
	n := 0
	var tags []string
	for _, e := range elems {
		cm, ok := e.ptr.(*parser.Comment)
		if !ok {
			continue
		}
		n++
		from, to := cm.Meta.Pos.Offset, cm.Meta.LastPos.Offset
		if from < 0 || from+len(cm.Raw) > len(src) || src[from:from+len(cm.Raw)] != cm.Raw || to < from || to >= from+len(cm.Raw) {
			return viol("raw text %q is not the source text at %v to %v", cm.Raw, cm.Meta.Pos, cm.Meta.LastPos)
		}
		block := strings.HasPrefix(src[from:], "/*")
		if cm.IsCStyle() != block {
			return viol("comment %q: IsCStyle is %v", cm.Raw, cm.IsCStyle())
		}
		joined := strings.Join(cm.Lines(), "\n")
		if block {
			joined = "/*" + joined + "*/"
		} else {
			joined = "//" + joined
		}
		if joined != cm.Raw {
			return viol("lines %q do not give back the comment %q", cm.Lines(), cm.Raw)
		}
		for _, l := range cm.Lines() {
			if strings.Contains(l, "\n") {
				return viol("a line of the comment %q holds a newline: %q", cm.Raw, l)
			}
		}
		if block {
			tags = append(tags, "block")
		} else {
			tags = append(tags, "line")
		}
		if len(cm.Lines()) > 1 {
			tags = append(tags, "several lines")
		}
		if want := file + fmt.Sprintf(":%d:%d", cm.Meta.Pos.Line, cm.Meta.Pos.Column); cm.Meta.Pos.String() != want {
			return viol("position prints as %q, want %q", cm.Meta.Pos.String(), want)
		}
	}
	return Result{NT: n > 0, Tags: tags}
}

// ---- C23

var dumpFlags = []string{"-debug", "-debug=false", "-permissive=false", "-permissive=true", "-permissive", "-unordered", "-unordered=false"}

func checkDump(c *Case) Result {
	bin := os.Getenv("VERIF_DUMP")
	if bin == "" {
		panic(harnessError("VERIF_DUMP is not set"))
	}
	dir, err := os.MkdirTemp("", "dump")
	if err != nil {
		panic(harnessError(err.Error()))
	}
	defer os.RemoveAll(dir)
	name := c.File
	if name == "" {
		name = "a.proto"
	}
	path := filepath.Join(dir, "sub dir", name)
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(harnessError(err.Error()))
	}
	readable := true
	switch c.Kind {
	case "missing":
		readable = false
	case "directory":
		readable = false
		os.Mkdir(path, 0o755)
	default:
		if err := os.WriteFile(path, c.Src, 0o644); err != nil {
			panic(harnessError(err.Error()))
		}
	}
	args := []string{"-proto", path}
	if len(c.Ints) > 0 {
		switch c.Ints[0] {
		case -1:
			args = []string{"-proto=" + path}
		case -2: // relative, and not in its shortest form
			args = []string{"--proto", "sub dir/../sub dir//" + name}
		case -3: // through a link of another name
			path = filepath.Join(dir, "link.proto")
			if err := os.Symlink(filepath.Join("sub dir", name), path); err != nil {
				panic(harnessError(err.Error()))
			}
			args = []string{"-proto", path}
		}
	}
	o := libOpts{file: filepath.Base(path)}
	unord := false
	for _, k := range c.Ints {
		if k < 0 {
			continue
		}
		f := dumpFlags[k%len(dumpFlags)]
		args = append(args, f)
		switch f {
		case "-debug":
			o.debug = true
		case "-debug=false":
			o.debug = false
		case "-permissive=false":
			o.strict = true
		case "-permissive", "-permissive=true":
			o.strict = false
		case "-unordered":
			unord = true
		case "-unordered=false":
			unord = false
		}
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &limited{w: &eb, n: 3000}
	noOut := false
	if c.Kind == "full" || c.Kind == "read-only" { // an output which cannot be written
		var f *os.File
		var err error
		if c.Kind == "full" {
			f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
		} else {
			f, err = os.Open(os.DevNull)
		}
		if err != nil {
			panic(harnessError(err.Error()))
		}
		defer f.Close()
		cmd.Stdout = f
		noOut = true
	}
	runErr := cmd.Run()
	code := 0
	if runErr != nil {
		ee, ok := runErr.(*exec.ExitError)
		if !ok {
			panic(harnessError(runErr.Error()))
		}
		code = ee.ExitCode()
	}
	out := ob.Bytes()
	want := []byte(nil)
	if readable {
		tree, err := libParse(c.Src, o)
		if err == nil {
			var v interface{} = tree
			if unord {
				u, uerr := protoparser.UnorderedInterpret(tree)
				v, err = u, uerr
			}
			if err == nil {
				want, _ = json.MarshalIndent(v, "", "  ")
			}
		}
	}
	if want == nil {
		if code == 0 {
			return viol("dump %q exits 0 although there is no tree to print; it prints %q", args[2:], tail(string(out), 200))
		}
		if len(out) > 0 {
			return viol("dump %q fails but prints %q", args[2:], tail(string(out), 200))
		}
		tag := "fails: rejected source"
		if !readable {
			tag = "fails: " + c.Kind
		}
		return Result{NT: true, Tags: []string{tag}}
	}
	if noOut {
		if code == 0 {
			return viol("dump %q exits 0 although its output cannot be written", args[2:])
		}
		return Result{NT: true, Tags: []string{"fails: output " + c.Kind}}
	}
	if code != 0 {
		return viol("dump %q exits %d although the library accepts the file: %s", args[2:], code, tail(eb.String(), 500))
	}
	// the JSON value is compared, not its white space
	var a, b interface{}
	da := json.NewDecoder(bytes.NewReader(out))
	da.UseNumber()
	db := json.NewDecoder(bytes.NewReader(want))
	db.UseNumber()
	if err := da.Decode(&a); err != nil {
		return viol("dump %q prints no JSON value: %v", args[2:], err)
	}
	if da.More() {
		return viol("dump %q prints more than one JSON value", args[2:])
	}
	if err := db.Decode(&b); err != nil {
		panic(harnessError(err.Error()))
	}
	if !reflect.DeepEqual(a, b) {
		return viol("dump %q prints another tree than the library returns", args[2:])
	}
	tags := []string{"prints the tree"}
	if unord {
		tags = []string{"prints the unordered view"}
	}
	return Result{NT: true, Tags: tags}
}

// ---- C10

func raceLogs() int {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			n := 0
			fs, _ := filepath.Glob(fmt.Sprintf("%s.%d", kv[9:], os.Getpid()))
			for _, f := range fs {
				if st, err := os.Stat(f); err == nil {
					n += int(st.Size())
				}
			}
			return n
		}
	}
	return 0
}

func raceText() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			b, _ := os.ReadFile(fmt.Sprintf("%s.%d", kv[9:], os.Getpid()))
			return tail(string(b), 2500)
		}
	}
	return ""
}

func checkConcurrent(c *Case) Result {
	k := len(c.Strs)
	if k == 0 || len(c.Ints) < k {
		return Result{}
	}
	before := raceLogs()
	type res struct {
		t *parser.Proto
		e error
	}
	run := func(i int) res {
		t, e := libParse(c.Strs[i], caseOpts(c.Ints[i]))
		return res{t, e}
	}
	// concurrent runs first: lazily built shared state is then built under concurrency
	const reps = 3
	par := make([]res, reps*k)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for j := range par {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					par[j].e = fmt.Errorf("panic: %v", e)
				}
			}()
			<-gate
			par[j] = run(j % k)
		}(j)
	}
	close(gate)
	wg.Wait()
	acc := 0
	var shared *parser.Proto
	for i := 0; i < k; i++ {
		seq := run(i)
		for j := i; j < len(par); j += k {
			if d := sameResult(seq.t, par[j].t, seq.e, par[j].e); d != "" {
				return viol("source %d parsed concurrently gives another result: %s", i, d)
			}
		}
		if seq.e == nil {
			acc++
			if shared == nil {
				shared = par[i].t
			}
		}
	}
	tags := []string{fmt.Sprintf("%d accepted of %d", acc, k)}
	if shared != nil {
		type obs struct {
			n   int
			js  string
			uj  string
			str string
		}
		look := func() (o obs) {
			defer func() {
				if e := recover(); e != nil {
					o.str = fmt.Sprintf("panic: %v", e)
				}
			}()
			v := &nopVisitor{}
			shared.Accept(v)
			o.n = v.n
			b, _ := json.Marshal(shared)
			o.js = string(b)
			if u, err := protoparser.UnorderedInterpret(shared); err == nil {
				b, _ := json.Marshal(u)
				o.uj = string(b)
			}
			var elems []elem
			list := 0
			collect(reflect.ValueOf(shared).Elem(), -1, &list, &elems)
			for _, e := range elems {
				if cm, ok := e.ptr.(*parser.Comment); ok {
					o.str += strings.Join(cm.Lines(), "|") + fmt.Sprint(cm.IsCStyle()) + cm.Meta.Pos.String()
				}
			}
			if shared.Syntax != nil {
				o.str += fmt.Sprint(shared.Syntax.Version())
			}
			return o
		}
		outs := make([]obs, 6)
		for j := range outs {
			wg.Add(1)
			go func(j int) { defer wg.Done(); outs[j] = look() }(j)
		}
		wg.Wait()
		want := look()
		for _, o := range outs {
			if o != want {
				return viol("reading one tree from several goroutines gives different results")
			}
		}
		tags = append(tags, "shared tree read")
	}
	if raceLogs() > before {
		return viol("data race:\n%s", raceText())
	}
	return Result{NT: acc > 0, N: len(par), NTN: 1, Tags: tags}
}

func init() {
	register(&Prop{
		ID: "C14", Quick: 90000, Thorough: 1800000,
		Rule: "Lists of complete top-level statements with their own leading and trailing comments, each parsed alone and all together; and statements of the 15 kinds with a public entry point, parsed by it alone, one after the other on one parser, and inside a file or message, a few of them inside up to 130 messages; a few with one place blown up (to kilobytes or megabytes); non-trivial: at least two pieces, or an entry-point call compared. Elements must be equal after shifting positions.",
		Gen: func(r R, x *Exec) {
			strict := r.p(30)
			if r.p(50) {
				x.Do(r.scaled(genPieces(r, strict), 5))
				return
			}
			x.Do(genEntry(r, strict))
		},
		Check: func(c *Case) Result {
			if strings.HasPrefix(c.Kind, "concat") {
				return checkConcat(c)
			}
			return checkEntry(c)
		},
	})
	register(&Prop{
		ID: "C15", Quick: 110000, Thorough: 2200000,
		Rule: sourceNote + ", with and without body comments; the visitor starts at the file or at any element and returns false for a random subset of the elements (or for none); a fifth of the trees were visited, then edited (elements dropped, moved, added, turned round); a few with one place blown up (to kilobytes or megabytes); non-trivial: at least 4 elements. Calls are compared with the elements found by reflection over the tree: each exactly once, by the right method, parents first, list order, nothing below a pruned element.",
		Gen: func(r R, x *Exec) {
			strict := r.p(20)
			d := genDoc(r, GenCfg{Strict: strict, Size: 4, Depth: 3})
			st := r.style()
			if r.p(50) {
				st.kind = layBoundary
			}
			c := &Case{Src: []byte(r.render(d.Toks, st)), Strict: strict, Body: r.p(50), Ints: []int{0}}
			if r.p(40) {
				c.Ints[0] = 1 + r.n(1000)
			}
			for k := 1 + r.n(23); k > 0; k-- {
				b := 0
				if r.p(25) {
					b = 1
				}
				c.Ints = append(c.Ints, b)
			}
			if r.p(60) {
				c.Kind = "prune"
			}
			if r.p(20) {
				c.Kind = "edited " + c.Kind
			}
			x.Do(r.scaled(c, 6))
		},
		Check: checkVisitor,
	})
	register(&Prop{
		ID: "C16", Quick: 60000, Thorough: 1200000,
		Rule: sourceNote + "; plain trees, trees edited after they were interpreted once (elements dropped, moved, added, turned round), trees with comment elements in bodies, and trees into whose bodies an element of a kind that does not fit is inserted; a few with one place blown up (to kilobytes or megabytes); non-trivial: 3 statements, or a foreign or comment element. The view must equal an independent regrouping of the tree, leave the tree unchanged, and refuse foreign elements.",
		Gen: func(r R, x *Exec) {
			strict := r.p(20)
			_, src := r.doc(strict, r.size())
			c := &Case{Kind: "plain", Src: []byte(src), Strict: strict}
			switch r.w(6, 2, 3, 2) {
			case 3:
				c.Kind, c.Ints = "edited", []int{r.n(1 << 20)}
			case 1:
				c.Kind, c.Body = "with body comments", true
			case 2:
				c.Kind, c.Ints = "foreign", []int{r.n(64), r.n(32), r.n(16)}
			}
			x.Do(r.scaled(c, 10))
		},
		Check: checkUnordered,
	})
	register(&Prop{
		ID: "C20", Quick: 40000, Thorough: 800000,
		Rule: sourceNote + ", with one stray token (any pool token, legal or not) inserted before any token or at the end; a few with one place blown up (to kilobytes or megabytes); non-trivial: the source is valid without it and the reference objects to exactly this token. The error must be or wrap *meta.Error, name the file, lie between the end of the last good token and the stray token, and have consistent offset, line and column; the text it claims to have found must be the stray token, or its beginning where that is not a word.",
		Gen: func(r R, x *Exec) {
			strict := r.p(25)
			d := genDoc(r, GenCfg{Strict: strict, Size: 2, Depth: 3})
			st := r.style()
			st.pad = 0
			file := r.fileName()
			body, dbg := r.p(30), r.p(10)
			for k := 8; k > 0; k-- {
				i := r.n(len(d.Toks) + 1)
				toks := append(append(append([]string{}, d.Toks[:i]...), r.poolTok(d.Toks)), d.Toks[i:]...)
				x.Do(r.scaledGap(&Case{Src: []byte(r.render(toks, st)), Strict: strict, Body: body, Debug: dbg, File: file, Ints: []int{i}}, 3))
			}
		},
		Check: checkErrorPos,
	})
	register(&Prop{
		ID: "C22", Quick: 110000, Thorough: 2200000,
		Rule: sourceNote + " with many comments, parsed with body comments; and random positions with and without file name; and syntax versions of any text; a few with one place blown up (to kilobytes or megabytes); non-trivial: at least one comment, or a position. Lines, style predicate and raw text must give back the source text, versions and printed positions must be as written.",
		Gen: func(r R, x *Exec) {
			if r.p(15) {
				x.Do(&Case{Kind: "position", File: r.fileName(), Ints: []int{r.n(100000), r.n(3000), r.n(500)}})
				return
			}
			if r.p(2) {
				v := r.pick([]string{"proto3", "proto2", "proto", "proto1", "proto4", "2023", "3", "2", "", "proto0"})
				for k := r.n(3); k > 0 && r.p(70); k-- {
					v = r.mutateText(v)
				}
				if r.p(20) {
					v += fmt.Sprint(r.n(100))
				}
				x.Do(&Case{Kind: "version", File: v})
				return
			}
			strict := r.p(20)
			d := genDoc(r, GenCfg{Strict: strict, Size: 3, Depth: 2})
			st := r.style()
			st.kind = []int{layBoundary, layEverywhere}[r.n(2)]
			st.gaps = 20 + r.n(60)
			x.Do(r.scaled(&Case{Src: []byte(r.render(d.Toks, st)), Strict: strict, File: r.fileName()}, 5))
		},
		Check: checkHelpers,
	})
	register(&Prop{
		ID: "C23", Quick: 16000, Thorough: 320000,
		Rule: "The dump program, built from the repository, run on generated files (valid, mutated, arbitrary bytes, empty, missing, a directory; by absolute, relative or linked path; a few with one place blown up to kilobytes; a few with an output that cannot be written) with random flags in random order; every run is non-trivial. Exit status and the JSON value printed must match what the library returns for the same options.",
		Gen: func(r R, x *Exec) {
			c := &Case{}
			switch r.w(8, 4, 1, 1) {
			case 0:
				strict := r.p(20)
				d := genDoc(r, GenCfg{Strict: strict, Size: 3, Depth: 2})
				c.Src = []byte(r.render(d.Toks, r.style()))
			case 1:
				_, c.Src = r.anySource()
			case 2:
				c.Kind = "missing"
			case 3:
				c.Kind = "directory"
			}
			if c.Kind == "" && r.p(4) {
				c.Kind = []string{"full", "read-only"}[r.n(2)]
			}
			c.File = []string{"", "x.proto", "noext", "ünï.proto", "a b.proto", "-x.proto", "%d.proto", ".proto", "x.json", strings.Repeat("long", 60), "a\nb.proto", "<a>&.proto"}[r.n(12)]
			if r.p(30) {
				c.Ints = append(c.Ints, -1-r.n(3))
			}
			for k := r.n(4); k > 0; k-- {
				c.Ints = append(c.Ints, r.n(len(dumpFlags)))
			}
			if len(c.Src) > 0 {
				c = r.scaled(c, 12)
			}
			x.Do(c)
		},
		Check: checkDump,
	})
	register(&Prop{
		ID: "C10", Quick: 2000, Thorough: 40000, NoShrink: true, HangSec: 60,
		Rule:   "Sets of 2-6 sources with random options, each parsed three times concurrently from 6-18 goroutines (before any sequential parse), under the race detector; then one tree visited, interpreted, encoded and inspected from 6 goroutines; non-trivial: at least one source is accepted. No data race, and every concurrent result must equal the sequential one.",
		Assume: []string{"the race detector sees only the interleavings that happen; shared mutable state without synchronisation is reported whenever two goroutines reach it"},
		Gen: func(r R, x *Exec) {
			c := &Case{}
			for k := 2 + r.n(5); k > 0; k-- {
				if r.p(75) {
					d := genDoc(r, GenCfg{Strict: r.p(20), Size: 3, Depth: 2})
					st := r.style()
					if r.p(40) {
						st.kind = layBoundary
					}
					c.Strs = append(c.Strs, []byte(r.render(d.Toks, st)))
				} else {
					_, s := r.anySource()
					c.Strs = append(c.Strs, s)
				}
				c.Ints = append(c.Ints, r.n(32))
			}
			x.Do(c)
		},
		Check: checkConcurrent,
	})
}
