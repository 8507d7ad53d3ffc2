package main

// Reference parser: an independent recursive-descent parser of the documented
// grammar with the documented permissive extensions. It decides whether a text
// is inside the grammar, outside it, or not settled by the documentation, and
// yields the tree with comments and positions.

type Verdict int

const (
	Accept Verdict = iota
	Reject
	Unspec
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "unspecified"}[v] }

type refFail struct {
	v   Verdict
	idx int
	msg string
}

type refParser struct {
	toks   []Tok
	i      int
	strict bool
	body   bool // body including comments
	gap    []Cmt
}

// RefResult is the result of the reference parser.
type RefResult struct {
	V       Verdict
	Root    *Node
	FailIdx int // index of the token where the text leaves the grammar
	Msg     string
	Toks    []Tok
}

func refParse(src string, strict, bodyComments bool) (res RefResult) {
	toks := tokenize(src)
	res.Toks = toks
	p := &refParser{toks: toks, strict: strict, body: bodyComments}
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(refFail)
			if !ok {
				panic(e)
			}
			res.V, res.FailIdx, res.Msg, res.Root = f.v, f.idx, f.msg, nil
		}
	}()
	res.Root = p.file()
	return res
}

func (p *refParser) cur() *Tok { return &p.toks[p.i] }
func (p *refParser) at(n int) *Tok {
	if p.i+n >= len(p.toks) {
		return &p.toks[len(p.toks)-1]
	}
	return &p.toks[p.i+n]
}
func (p *refParser) prev() *Tok { return &p.toks[p.i-1] }

func (p *refParser) fail(msg string) { panic(refFail{Reject, p.i, msg}) }
func (p *refParser) unspec(msg string) {
	panic(refFail{Unspec, p.i, msg})
}

// take consumes the current token; tokens with an open spelling settle nothing.
func (p *refParser) take() *Tok {
	t := p.cur()
	if t.Unspec {
		p.unspec("token " + t.S)
	}
	p.i++
	return t
}

func (p *refParser) is(s string) bool {
	t := p.cur()
	return (t.K == KPunct || t.K == KIdent) && t.S == s
}
func (p *refParser) isP(s string) bool { t := p.cur(); return t.K == KPunct && t.S == s }

func (p *refParser) expect(s string) *Tok {
	if p.cur().Unspec {
		p.unspec("token " + p.cur().S)
	}
	if !p.is(s) {
		p.fail("expected " + s)
	}
	return p.take()
}

func (p *refParser) ident() string {
	if p.cur().Unspec {
		p.unspec("token " + p.cur().S)
	}
	if p.cur().K != KIdent {
		p.fail("expected identifier")
	}
	return p.take().S
}

func (p *refParser) kind(k TK) *Tok {
	if p.cur().Unspec {
		p.unspec("token " + p.cur().S)
	}
	if p.cur().K != k {
		p.fail("expected " + k.String())
	}
	return p.take()
}

// boundary loads the comments before the current token; one on the line of the
// previous token is returned as the inline comment.
func (p *refParser) boundary(first bool) *Cmt {
	p.gap = p.cur().Cmts
	if first {
		return nil
	}
	return p.inline(p.prev())
}

func (p *refParser) inline(after *Tok) *Cmt {
	if len(p.gap) > 0 && p.gap[0].Start.Line == after.Last.Line {
		c := p.gap[0]
		p.gap = p.gap[1:]
		return &c
	}
	return nil
}

func (p *refParser) mk(kind string) *Node {
	return &Node{Kind: kind, HasPos: true, Pos: p.cur().Start, Cmts: p.gap}
}

func (p *refParser) done(n *Node) *Node {
	n.Last = p.prev().Last
	return n
}

func cmtNode(c Cmt) *Node {
	n := &Node{Kind: "comment", HasPos: true, Pos: c.Start, Last: c.Last}
	n.set("raw", c.Raw)
	return n
}

func (p *refParser) file() *Node {
	root := &Node{Kind: "proto"}
	p.boundary(true)
	if p.is("syntax") {
		n := p.mk("syntax")
		p.take()
		p.expect("=")
		t := p.kind(KStr)
		v := t.S[1 : len(t.S)-1]
		if v != "proto2" && v != "proto3" {
			p.i--
			p.fail("unknown syntax")
		}
		n.set("version", v)
		n.set("quote", t.S)
		p.expect(";")
		root.Aux = append(root.Aux, p.done(n))
		n.Inline = p.boundary(false)
	}
	if p.is("edition") {
		n := p.mk("edition")
		p.take()
		p.expect("=")
		t := p.kind(KStr)
		v := t.S[1 : len(t.S)-1]
		for i := 0; i < len(v); i++ {
			if v[i] < '0' || v[i] > '9' || i == 0 && v[i] == '0' {
				p.i--
				p.fail("edition is not a decimal")
			}
		}
		if v == "" {
			p.i--
			p.unspec("empty edition")
		}
		n.set("edition", v)
		n.set("quote", t.S)
		p.expect(";")
		root.Aux = append(root.Aux, p.done(n))
		n.Inline = p.boundary(false)
	}
	for {
		if p.cur().K == KEOF {
			p.flush(root)
			return root
		}
		var n *Node
		switch {
		case p.is("import"):
			n = p.importStmt()
		case p.is("package"):
			n = p.mk("package")
			p.take()
			n.set("name", p.fullIdent())
			p.expect(";")
			p.done(n)
		case p.is("option"):
			n = p.option()
		case p.is("message"):
			n = p.message()
		case p.is("enum"):
			n = p.enum()
		case p.is("service"):
			n = p.service()
		case p.is("extend"):
			n = p.extend()
		case p.is(";"):
			n = p.empty(root)
		default:
			if p.cur().Unspec {
				p.unspec("token")
			}
			p.fail("expected a top-level statement")
		}
		root.Body = append(root.Body, n)
		n.Inline = p.boundary(false)
	}
}

// flush adds the unclaimed comments to a body when it should include them.
func (p *refParser) flush(n *Node) {
	if p.body {
		for _, c := range p.gap {
			n.Body = append(n.Body, cmtNode(c))
		}
	}
	p.gap = nil
}

func (p *refParser) empty(parent *Node) *Node {
	p.flush(parent)
	p.take()
	return &Node{Kind: "empty"}
}

// closeBlock consumes "}" and, in permissive mode, a semicolon behind it.
func (p *refParser) closeBlock() {
	p.expect("}")
	if !p.strict && p.isP(";") {
		p.take()
	}
}

func (p *refParser) open(n *Node) {
	p.expect("{")
	n.Curly = p.boundary(false)
}

func (p *refParser) importStmt() *Node {
	n := p.mk("import")
	p.take()
	mod := "none"
	if p.is("public") || p.is("weak") {
		mod = p.take().S
	} else if p.cur().K == KIdent && p.cur().S == "option" {
		p.unspec("import option")
	}
	n.set("modifier", mod)
	n.set("location", p.kind(KStr).S)
	if p.cur().K == KStr {
		p.unspec("adjacent strings outside an option value")
	}
	p.expect(";")
	return p.done(n)
}

func (p *refParser) fullIdent() string {
	s := p.ident()
	for p.isP(".") {
		p.take()
		s += "." + p.ident()
	}
	return s
}

func (p *refParser) messageType() string {
	s := ""
	if p.isP(".") {
		p.take()
		s = "."
	}
	return s + p.fullIdent()
}

var scalarTypes = map[string]bool{}
var keyTypes = map[string]bool{}
var scalarList = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
var keyList = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

func init() {
	for _, s := range scalarList {
		scalarTypes[s] = true
	}
	for _, s := range keyList {
		keyTypes[s] = true
	}
}

func (p *refParser) typ() string {
	if p.cur().K == KIdent && scalarTypes[p.cur().S] {
		if n := p.at(1); n.K == KPunct && n.S == "." {
			p.unspec("scalar name as package")
		}
		return p.take().S
	}
	return p.messageType()
}

func (p *refParser) optionName() string {
	s := ""
	part := func() {
		if p.isP("(") {
			p.take()
			s += "("
			if !p.strict && p.isP(".") {
				p.take()
				s += "."
			}
			s += p.fullIdent()
			p.expect(")")
			s += ")"
			return
		}
		s += p.ident()
	}
	part()
	for p.isP(".") {
		p.take()
		s += "."
		part()
	}
	return s
}

func (p *refParser) option() *Node {
	n := p.mk("option")
	p.take()
	n.set("name", p.optionName())
	p.expect("=")
	n.Value = p.value()
	p.expect(";")
	return p.done(n)
}

func (p *refParser) value() *Value {
	from := p.i
	p.constant()
	return &Value{Toks: groupStrings(p.toks[from:p.i], !p.strict)}
}

func (p *refParser) constant() {
	t := p.cur()
	switch {
	case t.K == KPunct && t.S == "{":
		if p.strict {
			p.fail("aggregate value in strict mode")
		}
		p.aggregate()
	case t.K == KPunct && t.S == "[":
		if p.strict {
			p.fail("list value in strict mode")
		}
		p.take()
		if p.isP("]") {
			p.take()
			return
		}
		p.constant()
		for p.isP(",") {
			p.take()
			p.constant()
		}
		p.expect("]")
	case t.K == KPunct && t.S == "<":
		p.unspec("angle brackets in text format")
	case t.K == KStr:
		p.take()
		for !p.strict && p.cur().K == KStr {
			p.take()
		}
	case t.K == KIdent:
		if s := t.S; s == "true" || s == "false" || s == "inf" || s == "nan" {
			p.take()
			if p.isP(".") {
				p.unspec("literal keyword as package")
			}
			return
		}
		p.fullIdent()
	case t.K == KInt || t.K == KFloat:
		p.take()
	case t.K == KPunct && (t.S == "-" || t.S == "+"):
		p.take()
		if p.cur().K == KIdent && (p.cur().S == "inf" || p.cur().S == "nan") {
			p.take()
			if p.isP(".") {
				p.unspec("literal keyword as package")
			}
			return
		}
		if k := p.cur().K; k != KInt && k != KFloat {
			if p.cur().Unspec {
				p.unspec("token")
			}
			p.fail("expected a number")
		}
		p.take()
	default:
		if t.Unspec {
			p.unspec("token")
		}
		p.fail("expected a constant")
	}
}

// aggregate = "{" { ident ( ":" constant | aggregate ) [ "," | ";" ] } "}"
func (p *refParser) aggregate() {
	p.expect("{")
	for {
		if p.isP("}") {
			p.take()
			return
		}
		if p.isP("[") {
			p.unspec("extension name in text format")
		}
		p.ident()
		nested := false
		if p.isP("{") {
			p.constant()
			nested = true
		} else {
			if p.isP("<") {
				p.unspec("angle brackets")
			}
			p.expect(":")
			nested = p.isP("{")
			p.constant()
		}
		if p.isP(",") || p.isP(";") {
			p.take()
			if nested && (p.isP(",") || p.isP(";")) {
				p.unspec("two separators behind a nested aggregate")
			}
		}
	}
}

var messageKeywords = map[string]bool{"enum": true, "message": true, "option": true, "oneof": true, "map": true, "extend": true, "reserved": true, "extensions": true, "group": true}

// keywordAsType reports a statement keyword used like a type name (enum x = 1;):
// the grammar derives it, every parser reads the keyword.
func (p *refParser) keywordAsType() bool {
	a, b := p.at(1), p.at(2)
	if a.K == KPunct && a.S == "." {
		if !p.is("extend") {
			return true
		}
		k := 1
		for p.at(k).S == "." && p.at(k+1).K == KIdent {
			k += 2
		}
		return p.at(k).K == KIdent
	}
	return a.K == KIdent && b.K == KPunct && b.S == "=" && !p.is("option")
}

func (p *refParser) message() *Node {
	n := p.mk("message")
	p.take()
	n.set("name", p.ident())
	p.messageBody(n)
	return p.done(n)
}

func (p *refParser) messageBody(n *Node) {
	p.open(n)
	for {
		var s *Node
		if p.cur().K == KIdent && messageKeywords[p.cur().S] && p.cur().S != "group" && p.keywordAsType() {
			p.unspec("keyword as type")
		}
		switch {
		case p.isP("}"):
			p.flush(n)
			p.closeBlock()
			return
		case p.isP(";"):
			s = p.empty(n)
		case p.is("enum"):
			s = p.enum()
		case p.is("message"):
			s = p.message()
		case p.is("option"):
			s = p.option()
		case p.is("oneof"):
			s = p.oneof()
		case p.is("map"):
			s = p.mapField()
		case p.is("extend"):
			s = p.extend()
		case p.is("reserved"):
			s = p.reserved()
		case p.is("extensions"):
			s = p.extensions()
		default:
			s = p.fieldOrGroup(true)
		}
		n.Body = append(n.Body, s)
		s.Inline = p.boundary(false)
	}
}

func isLabel(t *Tok) bool {
	return t.K == KIdent && (t.S == "repeated" || t.S == "required" || t.S == "optional")
}

func (p *refParser) fieldOrGroup(groups bool) *Node {
	g := p.cur()
	if isLabel(g) {
		if a, b := p.at(1), p.at(2); a.K == KIdent && b.K == KPunct && b.S == "=" {
			p.unspec("label as type")
		}
		g = p.at(1)
	}
	if g.K == KIdent && g.S == "group" {
		k := 1
		if isLabel(p.cur()) {
			k = 2
		}
		name, eq, num, open := p.at(k), p.at(k+1), p.at(k+2), p.at(k+3)
		if groups && name.K == KIdent && eq.S == "=" && num.K == KInt && open.S == "{" && open.K == KPunct {
			if c := name.S[0]; c < 'A' || c > 'Z' {
				p.i += k
				p.fail("group name in lower case")
			}
			if k == 1 {
				p.unspec("group without label")
			}
			return p.group()
		}
		if !groups || name.K == KPunct && name.S == "." || name.K == KIdent && eq.S == "=" && open.S != "{" {
			p.unspec("group as a type")
		}
	}
	n := p.mk("field")
	label := ""
	if isLabel(p.cur()) {
		label = p.take().S
	}
	n.set("label", label)
	n.set("type", p.typ())
	p.fieldRest(n)
	return n
}

func (p *refParser) fieldRest(n *Node) {
	n.set("name", p.ident())
	p.expect("=")
	n.set("number", p.kind(KInt).S)
	p.bracketOptions(n)
	p.expect(";")
	p.done(n)
}

func (p *refParser) bracketOptions(n *Node) {
	if !p.isP("[") {
		return
	}
	p.take()
	for {
		o := &Node{Kind: "opt"}
		o.set("name", p.optionName())
		p.expect("=")
		o.Value = p.value()
		n.Opts = append(n.Opts, o)
		if !p.isP(",") {
			break
		}
		p.take()
	}
	p.expect("]")
}

func (p *refParser) group() *Node {
	n := p.mk("group")
	label := ""
	if isLabel(p.cur()) {
		label = p.take().S
	}
	n.set("label", label)
	p.expect("group")
	n.set("name", p.ident())
	p.expect("=")
	n.set("number", p.kind(KInt).S)
	p.messageBody(n)
	return p.done(n)
}

func (p *refParser) mapField() *Node {
	n := p.mk("map")
	p.take()
	p.expect("<")
	if t := p.cur(); t.K != KIdent || !keyTypes[t.S] {
		p.fail("expected a key type")
	}
	n.set("key", p.take().S)
	p.expect(",")
	n.set("type", p.typ())
	p.expect(">")
	p.fieldRest(n)
	return n
}

func (p *refParser) oneof() *Node {
	n := p.mk("oneof")
	p.take()
	n.set("name", p.ident())
	p.open(n)
	for {
		switch {
		case p.isP("}"):
			p.gap = nil
			p.closeBlock()
			return p.done(n)
		case p.isP(";"):
			p.take()
			p.gap = p.cur().Cmts
			continue
		}
		if t := p.cur(); t.K == KIdent {
			if a, b := p.at(1), p.at(2); t.S == "group" || isLabel(t) && (a.K == KPunct || b.K == KPunct) {
				p.unspec(t.S + " in a oneof")
			}
			if t.S == "option" && p.at(1).S == "." {
				p.unspec("keyword as type")
			}
		}
		var s *Node
		if p.is("option") {
			s = p.option()
			n.Aux = append(n.Aux, s)
		} else {
			s = p.mk("oneoffield")
			s.set("type", p.typ())
			p.fieldRest(s)
			n.Body = append(n.Body, s)
		}
		s.Inline = p.boundary(false)
	}
}

func (p *refParser) enum() *Node {
	n := p.mk("enum")
	p.take()
	n.set("name", p.ident())
	p.open(n)
	for {
		var s *Node
		if (p.is("option") || p.is("reserved")) && p.at(1).S == "=" {
			p.unspec("keyword as enum value")
		}
		switch {
		case p.isP("}"):
			p.flush(n)
			p.closeBlock()
			return p.done(n)
		case p.isP(";"):
			s = p.empty(n)
		case p.is("option"):
			s = p.option()
		case p.is("reserved"):
			s = p.reserved()
		default:
			s = p.mk("enumfield")
			s.set("name", p.ident())
			p.expect("=")
			num := ""
			if p.isP("-") {
				p.take()
				num = "-"
			}
			s.set("number", num+p.kind(KInt).S)
			p.bracketOptions(s)
			p.expect(";")
			p.done(s)
		}
		n.Body = append(n.Body, s)
		s.Inline = p.boundary(false)
	}
}

func (p *refParser) service() *Node {
	n := p.mk("service")
	p.take()
	n.set("name", p.ident())
	p.open(n)
	for {
		var s *Node
		switch {
		case p.isP("}"):
			p.flush(n)
			p.closeBlock()
			return p.done(n)
		case p.isP(";"):
			s = p.empty(n)
		case p.is("option"):
			s = p.option()
		case p.is("rpc"):
			s = p.rpc()
		case p.is("stream"):
			p.unspec("proto2 stream statement")
		default:
			p.fail("expected a service statement")
		}
		n.Body = append(n.Body, s)
		s.Inline = p.boundary(false)
	}
}

func (p *refParser) rpc() *Node {
	n := p.mk("rpc")
	from := p.i
	p.take()
	n.set("name", p.ident())
	arg := func(kind string) {
		a := &Node{Kind: kind, HasPos: true, Pos: p.cur().Start}
		p.expect("(")
		stream := "false"
		if p.is("stream") {
			if x := p.at(1); x.K == KPunct && x.S == ")" {
				p.unspec("stream as a type")
			}
			p.take()
			stream = "true"
		}
		a.set("stream", stream)
		a.set("type", p.messageType())
		p.expect(")")
		p.done(a)
		n.Aux = append(n.Aux, a)
	}
	arg("request")
	p.expect("returns")
	arg("response")
	if !p.isP("{") && !p.isP(";") {
		p.fail("expected { or ;")
	}
	for k := from + 1; k <= p.i; k++ {
		n.Embed = append(n.Embed, p.toks[k].Cmts...)
	}
	if p.isP(";") {
		p.take()
		return p.done(n)
	}
	p.open(n)
	for {
		p.gap = nil
		switch {
		case p.isP("}"):
			p.closeBlock()
			return p.done(n)
		case p.isP(";"):
			p.take()
		case p.is("option"):
			n.Aux = append(n.Aux, p.option())
		default:
			p.fail("expected option or }")
		}
	}
}

func (p *refParser) extend() *Node {
	n := p.mk("extend")
	p.take()
	n.set("name", p.messageType())
	p.open(n)
	for {
		var s *Node
		switch {
		case p.isP("}"):
			p.flush(n)
			p.closeBlock()
			return p.done(n)
		case p.isP(";"):
			s = p.empty(n)
		default:
			s = p.fieldOrGroup(false)
		}
		n.Body = append(n.Body, s)
		s.Inline = p.boundary(false)
	}
}

func (p *refParser) ranges(n *Node) {
	for {
		b := p.kind(KInt).S
		e := ""
		if p.is("to") {
			p.take()
			if p.is("max") {
				e = p.take().S
			} else {
				e = p.kind(KInt).S
			}
		}
		r := &Node{Kind: "range"}
		r.set("begin", b)
		r.set("end", e)
		n.Opts = append(n.Opts, r)
		if !p.isP(",") {
			return
		}
		p.take()
	}
}

func (p *refParser) reserved() *Node {
	n := p.mk("reserved")
	p.take()
	if p.isP("-") {
		p.unspec("negative reserved range")
	}
	if p.cur().K == KInt {
		p.ranges(n)
		if p.isP("-") {
			p.unspec("negative reserved range")
		}
	} else {
		var kinds TK
		for {
			t := p.cur()
			if t.K != KStr && t.K != KIdent {
				if t.Unspec {
					p.unspec("token")
				}
				p.fail("expected a reserved name")
			}
			if kinds != 0 && kinds != t.K {
				p.unspec("quoted and unquoted reserved names")
			}
			kinds = t.K
			p.take()
			f := &Node{Kind: "resname"}
			f.set("name", t.S)
			n.Opts = append(n.Opts, f)
			if p.isP(",") {
				p.take()
				continue
			}
			// names separated by white space only are a documented extension
			if p.cur().K == KStr || p.cur().K == KIdent {
				if p.strict {
					p.unspec("reserved names without commas in strict mode")
				}
				continue
			}
			break
		}
	}
	p.expect(";")
	return p.done(n)
}

func (p *refParser) extensions() *Node {
	n := p.mk("extensions")
	p.take()
	p.ranges(n)
	if p.isP("[") {
		p.take()
		n.Curly = p.boundary(false)
		for {
			if p.cur().K == KIdent && p.cur().S != "declaration" || p.isP("(") {
				p.unspec("extension range options")
			}
			d := p.mk("declaration")
			p.expect("declaration")
			p.expect("=")
			p.declaration(d)
			n.Aux = append(n.Aux, d)
			p.done(d)
			if p.isP(",") {
				p.take()
				d.Inline = p.boundary(false)
				continue
			}
			p.expect("]")
			d.Inline = p.boundary(false)
			break
		}
	}
	p.expect(";")
	return p.done(n)
}

func (p *refParser) declaration(d *Node) {
	p.open(d)
	vals := map[string]string{"repeated": "false", "reserved": "false"}
	seen := map[string]bool{}
	first := true
	for !p.isP("}") {
		if !first {
			if !p.isP(",") {
				if t := p.cur(); t.K != KIdent && !t.Unspec {
					p.fail("expected a comma")
				}
				p.unspec("declaration without commas")
			}
			p.take()
			if p.isP("}") {
				p.unspec("trailing comma in a declaration")
			}
		} else if p.isP(",") {
			p.fail("leading comma in a declaration")
		}
		first = false
		k := p.cur()
		if k.K != KIdent {
			if k.Unspec {
				p.unspec("token")
			}
			p.fail("expected a declaration entry")
		}
		if seen[k.S] {
			p.fail("declaration entry given twice")
		}
		seen[k.S] = true
		switch k.S {
		case "number":
			p.take()
			p.expect(":")
			vals["number"] = p.kind(KInt).S
		case "full_name", "type":
			p.take()
			p.expect(":")
			vals[k.S] = p.kind(KStr).S
			if p.cur().K == KStr {
				p.unspec("adjacent strings outside an option value")
			}
		case "repeated", "reserved":
			p.take()
			p.expect(":")
			t := p.cur()
			if t.K == KIdent && t.S != "true" && t.S != "false" {
				p.fail("declaration flag that is no boolean")
			}
			vals[k.S] = p.ident()
		default:
			p.fail("unknown declaration entry")
		}
	}
	p.take()
	for _, k := range []string{"number", "full_name", "type", "reserved", "repeated"} {
		d.set(k, vals[k])
	}
}

// tag names a verdict other than the wanted one, with the reason if the documentation leaves the text open.
func (r *RefResult) tag() string {
	if r.V == Unspec {
		return "open: " + r.Msg
	}
	return r.V.String() + " by the reference"
}
