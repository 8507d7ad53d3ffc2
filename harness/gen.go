package main

// Grammar-based generator of valid sources: it emits the tokens of a file and,
// independently of the reference parser, the tree they stand for.

import (
	"strings"
)

type GenCfg struct {
	Strict bool // documented grammar only
	Size   int  // rough number of top-level statements
	Depth  int
}

type gen struct {
	R
	cfg    GenCfg
	toks   []string
	proto3 bool
	budget int // statements left
	style  int // identifier style of this file
	starts []int
}

// GenDoc is a generated file.
type GenDoc struct {
	Toks   []string
	Root   *Node
	Starts []int // token index at which each top-level statement begins
}

func genDoc(r R, cfg GenCfg) GenDoc {
	g := &gen{R: r, cfg: cfg, budget: 40 + 10*cfg.Size, style: r.n(4)}
	root := &Node{Kind: "proto"}
	begin := func() { g.starts = append(g.starts, len(g.toks)) }
	switch g.w(3, 4, 2, 1, 1) {
	case 1:
		begin()
		root.Aux = append(root.Aux, g.syntax())
	case 2:
		begin()
		root.Aux = append(root.Aux, g.edition())
	case 3: // both are accepted by the library, one after the other
		begin()
		root.Aux = append(root.Aux, g.syntax())
		begin()
		root.Aux = append(root.Aux, g.edition())
	}
	n := 1 + g.n(cfg.Size+1)
	if g.p(5) {
		n = 0
	}
	alike := g.alike()
	if alike > 0 {
		n = alike
	}
	for i := 0; i < n; i++ {
		before, starts := len(g.toks), len(g.starts)
		begin()
		ns := g.topLevel()
		for try := 0; alike > 0 && len(root.Body) > 0 && try < 8 && (len(ns) == 0 || ns[0].Kind != root.Body[len(root.Body)-1].Kind); try++ {
			g.toks, g.starts = g.toks[:before], g.starts[:starts]
			begin()
			ns = g.topLevel()
		}
		root.Body = append(root.Body, ns...)
	}
	return GenDoc{g.toks, root, g.starts}
}

func (g *gen) e(ss ...string) { g.toks = append(g.toks, ss...) }

var plainIdents = []string{"a", "b", "foo", "Bar", "x1", "_", "_x", "snake_case_name", "CamelCase", "ALL_CAPS", "e1", "E", "x", "o7", "i", "n", "tr", "infx", "to1", "maxi", "importx", "messageA", "Option", "GROUP", "a__b", "z9_", "Message", "TRUE", "Inf", "NaN", "Max", "To", "Int32", "Group", "MAP", "Stream", "Optional", "Import", "Reserved", "Enum", "RPC", "Oneof", "False", "Extensions", "STRING"}
var keywordIdents = []string{"syntax", "edition", "service", "rpc", "returns", "stream", "message", "enum", "extend", "extensions", "import", "option", "oneof", "group", "map", "repeated", "optional", "required", "reserved", "declaration", "package", "public", "weak", "max", "to", "true", "false", "inf", "nan", "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "number", "full_name", "type", "default", "json_name", "packed", "proto2", "proto3", "local", "export"}

func (g *gen) ident() string {
	kw := []int{10, 40, 3, 75}[g.style]
	if g.p(kw) {
		return g.pick(keywordIdents)
	}
	if g.p(12) {
		s := string("abcXYZ_"[g.n(7)])
		n := 1 + g.n(12)
		if g.p(12) {
			n = 1 + g.n(16<<g.n(6))
		}
		for i := 0; i < n; i++ {
			s += string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[g.n(63)])
		}
		return s
	}
	if g.p(12) {
		return g.pick(plausible)
	}
	if g.p(12) {
		return g.pick(descriptorIdents)
	}
	if g.p(8) {
		return g.compound()
	}
	return g.pick(plainIdents)
}

// descriptorIdents are the names that descriptor.proto, the well-known types and common annotations give a meaning.
var descriptorIdents = []string{"deprecated", "allow_alias", "lazy", "unverified_lazy", "jstype", "ctype", "java_package", "java_outer_classname", "java_multiple_files", "java_string_check_utf8", "optimize_for", "go_package", "cc_generic_services", "cc_enable_arenas", "objc_class_prefix", "csharp_namespace", "swift_prefix", "php_namespace", "php_class_prefix", "ruby_package", "message_set_wire_format", "no_standard_descriptor_accessor", "map_entry", "features", "field_presence", "enum_type", "repeated_field_encoding", "utf8_validation", "message_encoding", "json_format", "idempotency_level", "retention", "targets", "debug_redact", "edition_defaults", "feature_support", "uninterpreted_option", "verification", "UNVERIFIED", "DECLARATION", "SPEED", "CODE_SIZE", "LITE_RUNTIME", "STRING_PIECE", "CORD", "JS_STRING", "EXPLICIT", "LEGACY_REQUIRED", "NO_SIDE_EFFECTS", "google", "protobuf", "api", "http", "get", "put", "post", "delete", "patch", "body", "additional_bindings", "custom", "method_signature", "resource", "pattern", "selector", "validate", "rules", "openapiv2_field", "gogoproto", "nullable", "Any", "Empty", "Timestamp", "Duration", "Struct", "ListValue", "NullValue", "FieldMask", "StringValue", "FieldOptions", "MessageOptions", "descriptor", "key", "value", "entry", "id", "name", "UNSPECIFIED", "UNKNOWN", "STATUS_UNSPECIFIED", "DEFAULT", "NONE", "ALL", "OPEN", "CLOSED", "MessageSet"}

var wellKnownTypes = [][]string{{"google", "protobuf", "Timestamp"}, {"google", "protobuf", "Any"}, {"google", "protobuf", "Empty"}, {"google", "protobuf", "FieldOptions"}, {"google", "protobuf", "MessageOptions"}, {"google", "api", "http"}, {"google", "api", "field_behavior"}, {"validate", "rules"}, {"grpc", "gateway", "protoc_gen_openapiv2", "options", "openapiv2_field"}, {"buf", "validate", "field"}, {"pb", "java"}, {"pb", "go"}}

// compound makes a name of several words in one of the usual styles.
func (g *gen) compound() string {
	words := []string{"user", "id", "url", "http", "v1", "v2", "2", "x", "request", "response", "list", "get", "proto", "option", "message", "to", "max", "type", "field", "status", "a", "b", "10"}
	n := 2 + g.n(4)
	style := g.n(6)
	s := ""
	for i := 0; i < n; i++ {
		w := g.pick(words)
		switch style {
		case 0:
			if i > 0 {
				w = "_" + w
			}
		case 1:
			w = strings.ToUpper(w)
			if i > 0 {
				w = "_" + w
			}
		case 2:
			w = strings.ToUpper(w[:1]) + w[1:]
		case 3:
			if i > 0 {
				w = strings.ToUpper(w[:1]) + w[1:]
			}
		case 4:
			if i > 0 {
				w = "__" + w
			}
		}
		s += w
	}
	switch g.n(8) {
	case 0:
		s += "_"
	case 1:
		s = "_" + s
	case 2:
		s += g.pick([]string{"0", "1", "_1", "99", "_id", "_to", "_max", "s", "es"})
	}
	if s[0] >= '0' && s[0] <= '9' {
		s = "n" + s
	}
	return s
}

func (g *gen) identNot(bad map[string]bool) string {
	s := g.ident()
	if bad[s] {
		return s + "_"
	}
	return s
}

func set(ss ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

var badOneofFirst = set("option", "repeated", "optional", "required", "group")
var badFieldFirst = set("enum", "message", "option", "oneof", "map", "extend", "reserved", "extensions", "group", "repeated", "optional", "required")
var badEnumName = set("option", "reserved")
var badConstFirst = set("true", "false", "inf", "nan")
var badGroup = set("group")
var badStream = set("stream")
var noneBad = map[string]bool{}

// dotted emits ident { "." ident } and returns it.
func (g *gen) dotted(badFirst map[string]bool) string {
	if g.p(3) {
		parts := wellKnownTypes[g.n(len(wellKnownTypes))]
		if !badFirst[parts[0]] {
			for i, p := range parts {
				if i > 0 {
					g.e(".")
				}
				g.e(p)
			}
			return strings.Join(parts, ".")
		}
	}
	s := g.identNot(badFirst)
	g.e(s)
	n := g.w(6, 2, 1, 1)
	if g.p(2) {
		n = 8 + g.n(8)
	}
	for i := 0; i < n; i++ {
		g.e(".")
		c := g.ident()
		g.e(c)
		s += "." + c
	}
	return s
}

func (g *gen) messageType(badFirst map[string]bool) string {
	if g.p(25) {
		g.e(".")
		return "." + g.dotted(noneBad)
	}
	return g.dotted(badFirst)
}

// typ emits a field type; a scalar name is never the first part of a longer name.
func (g *gen) typ(badFirst map[string]bool) string {
	if g.p(55) {
		s := g.pick(scalarList)
		g.e(s)
		return s
	}
	bad := map[string]bool{}
	for k := range badFirst {
		bad[k] = true
	}
	for k := range scalarTypes {
		bad[k] = true
	}
	return g.messageType(bad)
}

func (g *gen) digits(first, rest string, max int) string {
	s := string(first[g.n(len(first))])
	for i := g.n(max); i > 0; i-- {
		s += string(rest[g.n(len(rest))])
	}
	return s
}

// knownInts are the limits of the field numbers and of the integer types, and their neighbours.
var knownInts = []string{"15", "16", "2047", "2048", "18999", "19000", "19500", "19999", "20000", "65535", "65536", "536870910", "536870911", "536870912", "2147483646", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "0x7FFFFFFF", "0x80000000", "0xFFFFFFFF", "0x1FFFFFFF", "0x7FFFFFFFFFFFFFFF", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "037777777777", "01777777777777777777777", "02000000000000000000000", "100", "127", "128", "255", "256", "1000", "1024", "32767", "32768", "1000000"}

func (g *gen) intLit() string {
	if g.p(6) {
		return g.pick(knownInts)
	}
	switch g.w(5, 1, 2, 2) {
	case 0:
		m := 4
		if g.p(5) {
			m = 25
		}
		return g.digits("123456789", "0123456789", m)
	case 1:
		return "0"
	case 2:
		return "0" + g.digits("01234567", "01234567", 5)
	}
	return "0" + string("xX"[g.n(2)]) + g.digits("0123456789abcdefABCDEF", "0123456789abcdefABCDEF", 8)
}

func (g *gen) exp() string {
	s := string("eE"[g.n(2)])
	switch g.n(3) {
	case 1:
		s += "+"
	case 2:
		s += "-"
	}
	return s + g.digits("0123456789", "0123456789", 3)
}

func (g *gen) dec() string {
	if g.p(25) {
		return "0"
	}
	return g.digits("123456789", "0123456789", 4)
}

func (g *gen) floatLit() string {
	frac := func() string { return g.digits("0123456789", "0123456789", 4) }
	switch g.n(6) {
	case 0:
		return g.dec() + "." + frac()
	case 1:
		return g.dec() + "."
	case 2:
		return g.dec() + "." + frac() + g.exp()
	case 3:
		return g.dec() + "." + g.exp()
	case 4:
		return g.dec() + g.exp()
	}
	s := "." + frac()
	if g.p(40) {
		s += g.exp()
	}
	return s
}

var strPieces = []string{"a", "foo", " ", "bar baz", "0", "9", "f", "7", "é", "日本語", "😀", "\t", "//", "/*", "*/", "{", "}", ";", "]", ",", "=", ".", "%", "\u00a0", "\u0085", "\ufeff", "x", "--", "\r", "proto3"}
var strEscapes = []string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`, `\'`, `\"`, `\x41`, `\x0a`, `\X7f`, `\xFF`, `\x00`, `\101`, `\012`, `\000`, `\377`, `\1`, `\0`, `\12`, `\x4`, `\Xf`, `\u00e9`, `\U0001F600`}

func (g *gen) strBody(q string) string {
	var b strings.Builder
	for n := g.w(2, 4, 3, 2, 1, 1); n > 0; n-- {
		switch g.w(5, 3, 2) {
		case 0:
			b.WriteString(g.pick(strPieces))
		case 1:
			b.WriteString(g.pick(strEscapes))
		case 2:
			if q == `"` {
				b.WriteString(`'`)
			} else {
				b.WriteString(`"`)
			}
		}
	}
	if g.p(2) {
		b.WriteString(strings.Repeat("long text ", 20+g.n(500)))
	}
	return b.String()
}

// knownStrings are paths, addresses and texts as they stand in real sources.
var knownStrings = []string{"google/protobuf/any.proto", "google/protobuf/descriptor.proto", "google/protobuf/timestamp.proto", "google/api/annotations.proto", "./a.proto", "../b/c.proto", "/abs/d.proto", "a//b.proto", "a.proto", "dir/sub-dir/file_name.proto", "C:\\\\dir\\\\x.proto", "a b.proto", "http://example.com/a?b=c&d=%20#e", "github.com/x/y/v4;y", "com.example.Foo", ".pkg.Type", "proto2", "proto3", "2023", "editions", "true", "max", "1 to 5", "/v1/{name=shelves/*}:get", "^[a-z]+(\\\\.[a-z]{2,})?$", "{\\\"a\\\": [1, 2]}", "<b>x</b>", "%d%s", "$x", "@", "\\n", " ", "  lead", "trail  ", "a\\0b", "user@example.com", "1.0.0", "-1", "'", "\\\"", "// no comment", "/* nor this */", "日本語のコメント", "ÄÖÜ", "e\u0301", "👩‍👩‍👧", "\u200bx", "\u2028"}

func (g *gen) strLit() string {
	q := `"`
	if g.p(40) {
		q = `'`
	}
	if g.p(10) {
		if s := g.pick(knownStrings); q == `"` || !strings.Contains(s, q) {
			return q + s + q
		}
	}
	return q + g.strBody(q) + q
}

func (g *gen) syntax() *Node {
	n := &Node{Kind: "syntax"}
	v := []string{"proto2", "proto3"}[g.n(2)]
	q := []string{`"`, `'`}[g.n(2)]
	g.e("syntax", "=", q+v+q, ";")
	n.set("version", v)
	n.set("quote", q+v+q)
	return n
}

func (g *gen) edition() *Node {
	n := &Node{Kind: "edition"}
	v := g.pick([]string{"2023", "2024", "1", "99999"})
	if g.p(10) {
		v = g.digits("123456789", "0123456789", 40)
	}
	q := []string{`"`, `'`}[g.n(2)]
	g.e("edition", "=", q+v+q, ";")
	n.set("edition", v)
	n.set("quote", q+v+q)
	return n
}

func (g *gen) emptyStmt() *Node {
	g.e(";")
	return &Node{Kind: "empty"}
}

// closeBlock closes a block; in permissive mode a semicolon may follow, in
// strict mode the same semicolon is an empty statement where one is allowed.
func (g *gen) closeBlock() {
	g.e("}")
	if !g.cfg.Strict && g.p(12) {
		g.e(";")
	}
}

// stmts appends a random number of statements to the body. A semicolon directly
// behind a block belongs to the block in permissive mode.
func (g *gen) stmts(n *Node, f func() *Node) {
	k := g.w(3, 4, 4, 3, 2, 1)
	if g.p(4) {
		k = 8 + g.n(10)
	}
	alike := g.alike()
	if alike > 0 {
		k = alike
	}
	kind := ""
	for i := 0; i < k; i++ {
		g.budget--
		if g.budget < 0 && i > 0 {
			return
		}
		before := len(g.toks)
		s := f()
		for try := 0; alike > 0 && kind != "" && try < 12 && (s == nil || s.Kind != kind); try++ {
			g.toks = g.toks[:before]
			s = f()
		}
		if s == nil {
			continue
		}
		if s.Kind == "empty" && !g.cfg.Strict && before > 0 && g.toks[before-1] == "}" {
			g.toks = g.toks[:before] // it would belong to the block; leave it out
			continue
		}
		kind = s.Kind
		n.Body = append(n.Body, s)
	}
}

// many is the length of a list: n, now and then far more.
func (g *gen) many(n int) int {
	if g.p(1) {
		return 5 + g.n(4<<g.n(5))
	}
	return n
}

// alike tells, now and then, how many statements of the same kind follow each other.
func (g *gen) alike() int {
	if !g.p(2) {
		return 0
	}
	n := 5 + g.n(25)
	if g.budget < n {
		g.budget = n
	}
	return n
}

func (g *gen) topLevel() []*Node {
	tmp := &Node{}
	before := len(g.toks)
	var s *Node
	switch g.w(3, 2, 3, 6, 4, 3, 3, 1) {
	case 0:
		s = g.importStmt()
	case 1:
		s = &Node{Kind: "package"}
		g.e("package")
		s.set("name", g.dotted(noneBad))
		g.e(";")
	case 2:
		s = g.option()
	case 3:
		s = g.message(0)
	case 4:
		s = g.enum()
	case 5:
		s = g.service()
	case 6:
		s = g.extend()
	case 7:
		if !g.cfg.Strict && before > 0 && g.toks[before-1] == "}" {
			// belongs to the block before
			g.starts = g.starts[:len(g.starts)-1]
			return nil
		}
		s = g.emptyStmt()
	}
	tmp.Body = append(tmp.Body, s)
	return tmp.Body
}

func (g *gen) importStmt() *Node {
	n := &Node{Kind: "import"}
	g.e("import")
	m := []string{"none", "public", "weak"}[g.w(4, 2, 2)]
	if m != "none" {
		g.e(m)
	}
	n.set("modifier", m)
	s := g.strLit()
	g.e(s, ";")
	n.set("location", s)
	return n
}

func (g *gen) optionName() string {
	s := ""
	part := func() {
		if g.p(45) {
			g.e("(")
			s += "("
			if !g.cfg.Strict && g.p(30) {
				g.e(".")
				s += "."
			}
			s += g.dotted(noneBad)
			g.e(")")
			s += ")"
			return
		}
		c := g.ident()
		g.e(c)
		s += c
	}
	part()
	for k := g.w(6, 2, 1, 1); k > 0; k-- {
		g.e(".")
		s += "."
		part()
	}
	return s
}

func (g *gen) option() *Node {
	n := &Node{Kind: "option"}
	g.e("option")
	n.set("name", g.optionName())
	g.e("=")
	n.Value = g.value()
	g.e(";")
	return n
}

func (g *gen) value() *Value {
	from := len(g.toks)
	g.constant(0)
	var ts []Tok
	for _, s := range g.toks[from:] {
		k := KPunct
		if s[0] == '"' || s[0] == '\'' {
			k = KStr
		}
		ts = append(ts, Tok{K: k, S: s})
	}
	return &Value{Toks: groupStrings(ts, !g.cfg.Strict)}
}

func (g *gen) strings() {
	g.e(g.strLit())
	if !g.cfg.Strict {
		for k := g.many(g.w(6, 2, 1, 1)); k > 0; k-- {
			g.e(g.strLit())
		}
	}
}

func (g *gen) constant(depth int) {
	kinds := []int{3, 2, 3, 3, 2, 3, 5, 0, 0}
	if !g.cfg.Strict && depth < 3 {
		kinds[7], kinds[8] = 4, 2
	}
	if depth > 0 { // a float behind white space only etc. is fine anywhere
		kinds[7] = kinds[7] / 2
	}
	switch g.w(kinds...) {
	case 0:
		g.dotted(badConstFirst)
	case 1:
		g.e([]string{"true", "false"}[g.n(2)])
	case 2:
		g.e(g.intLit())
	case 3:
		g.e(g.floatLit())
	case 4:
		g.e([]string{"inf", "nan"}[g.n(2)])
	case 5:
		g.e(string("-+"[g.n(2)]))
		switch g.n(4) {
		case 0:
			g.e(g.intLit())
		case 1:
			g.e(g.floatLit())
		case 2:
			g.e("inf")
		case 3:
			g.e("nan")
		}
	case 6:
		g.strings()
	case 7:
		g.aggregate(depth)
	case 8:
		g.e("[")
		for i, k := 0, g.many(g.n(4)); i < k; i++ {
			if i > 0 {
				g.e(",")
			}
			g.constant(depth + 1)
		}
		g.e("]")
	}
}

func (g *gen) aggregate(depth int) {
	g.e("{")
	for i, k := 0, g.many(g.w(2, 3, 3, 2)); i < k; i++ {
		g.e(g.ident())
		if depth < 3 && g.p(15) { // no colon before a nested aggregate
			g.aggregate(depth + 1)
		} else {
			g.e(":")
			g.constant(depth + 1)
		}
		switch g.n(3) {
		case 0:
			g.e(",")
		case 1:
			g.e(";")
		}
	}
	g.e("}")
}

func (g *gen) message(depth int) *Node {
	n := &Node{Kind: "message"}
	g.e("message")
	s := g.ident()
	g.e(s)
	n.set("name", s)
	g.messageBody(n, depth)
	return n
}

func (g *gen) messageBody(n *Node, depth int) {
	g.e("{")
	nest := 2
	if depth >= g.cfg.Depth {
		nest = 0
	}
	g.stmts(n, func() *Node {
		switch g.w(9, nest, nest, 2, 3, 3, nest, 2, 2, 2, nest) {
		case 0:
			return g.field(badFieldFirst)
		case 1:
			return g.message(depth + 1)
		case 2:
			return g.enum()
		case 3:
			return g.option()
		case 4:
			return g.mapField()
		case 5:
			return g.oneof()
		case 6:
			return g.extend()
		case 7:
			return g.reserved()
		case 8:
			return g.extensions()
		case 9:
			return g.emptyStmt()
		}
		return g.group(depth + 1)
	})
	g.closeBlock()
}

func (g *gen) label(pct int) string {
	if !g.p(pct) {
		return ""
	}
	l := []string{"repeated", "optional", "required"}[g.n(3)]
	g.e(l)
	return l
}

func (g *gen) field(badFirst map[string]bool) *Node {
	n := &Node{Kind: "field"}
	l := g.label(50)
	n.set("label", l)
	if l != "" {
		badFirst = badGroup
	}
	n.set("type", g.typ(badFirst))
	g.fieldRest(n)
	return n
}

func (g *gen) fieldRest(n *Node) {
	s := g.ident()
	g.e(s, "=")
	n.set("name", s)
	v := g.intLit()
	g.e(v)
	n.set("number", v)
	g.bracket(n)
	g.e(";")
}

func (g *gen) bracket(n *Node) {
	if !g.p(25) {
		return
	}
	g.e("[")
	for k := g.many(1 + g.w(5, 2, 1)); k > 0; k-- {
		o := &Node{Kind: "opt"}
		o.set("name", g.optionName())
		g.e("=")
		o.Value = g.value()
		n.Opts = append(n.Opts, o)
		if k > 1 {
			g.e(",")
		}
	}
	g.e("]")
}

func (g *gen) group(depth int) *Node {
	n := &Node{Kind: "group"}
	l := g.label(100)
	n.set("label", l)
	g.e("group")
	s := string("ABCGZ"[g.n(5)]) + g.ident()
	g.e(s, "=")
	n.set("name", s)
	v := g.intLit()
	g.e(v)
	n.set("number", v)
	g.messageBody(n, depth)
	return n
}

func (g *gen) mapField() *Node {
	n := &Node{Kind: "map"}
	g.e("map", "<")
	k := g.pick(keyList)
	g.e(k, ",")
	n.set("key", k)
	n.set("type", g.typ(noneBad))
	g.e(">")
	g.fieldRest(n)
	return n
}

func (g *gen) oneof() *Node {
	n := &Node{Kind: "oneof"}
	s := g.ident()
	g.e("oneof", s, "{")
	n.set("name", s)
	for k := g.many(g.w(1, 3, 3, 2, 1)); k > 0; k-- {
		switch g.w(6, 2, 1) {
		case 0:
			f := &Node{Kind: "oneoffield"}
			f.set("type", g.typ(badOneofFirst))
			g.fieldRest(f)
			n.Body = append(n.Body, f)
		case 1:
			n.Aux = append(n.Aux, g.option())
		case 2:
			g.e(";")
		}
	}
	g.closeBlock()
	return n
}

func (g *gen) enum() *Node {
	n := &Node{Kind: "enum"}
	s := g.ident()
	g.e("enum", s, "{")
	n.set("name", s)
	g.stmts(n, func() *Node {
		switch g.w(8, 2, 2, 2) {
		case 0:
			f := &Node{Kind: "enumfield"}
			s := g.identNot(badEnumName)
			g.e(s, "=")
			f.set("name", s)
			neg := ""
			if g.p(25) {
				neg = "-"
				g.e("-")
			}
			v := g.intLit()
			g.e(v)
			f.set("number", neg+v)
			g.bracket(f)
			g.e(";")
			return f
		case 1:
			return g.option()
		case 2:
			return g.reserved()
		}
		return g.emptyStmt()
	})
	g.closeBlock()
	return n
}

func (g *gen) service() *Node {
	n := &Node{Kind: "service"}
	s := g.ident()
	g.e("service", s, "{")
	n.set("name", s)
	g.stmts(n, func() *Node {
		switch g.w(7, 2, 2) {
		case 0:
			return g.rpc()
		case 1:
			return g.option()
		}
		return g.emptyStmt()
	})
	g.closeBlock()
	return n
}

func (g *gen) rpc() *Node {
	n := &Node{Kind: "rpc"}
	s := g.ident()
	g.e("rpc", s)
	n.set("name", s)
	arg := func(kind string) {
		a := &Node{Kind: kind}
		g.e("(")
		st := "false"
		if g.p(35) {
			st = "true"
			g.e("stream")
		}
		a.set("stream", st)
		a.set("type", g.messageType(badStream))
		g.e(")")
		n.Aux = append(n.Aux, a)
	}
	arg("request")
	g.e("returns")
	arg("response")
	if g.p(50) {
		g.e(";")
		return n
	}
	g.e("{")
	for k := g.many(g.w(2, 3, 2, 1)); k > 0; k-- {
		if g.p(75) {
			n.Aux = append(n.Aux, g.option())
		} else {
			g.e(";")
		}
	}
	g.closeBlock()
	return n
}

func (g *gen) extend() *Node {
	n := &Node{Kind: "extend"}
	g.e("extend")
	n.set("name", g.messageType(noneBad))
	g.e("{")
	g.stmts(n, func() *Node {
		if g.p(80) {
			return g.field(set("repeated", "optional", "required", "group"))
		}
		return g.emptyStmt()
	})
	g.closeBlock()
	return n
}

func (g *gen) ranges(n *Node) {
	for k := g.many(1 + g.w(4, 2, 1, 1)); k > 0; k-- {
		r := &Node{Kind: "range"}
		b := g.intLit()
		g.e(b)
		e := ""
		if g.p(50) {
			e = g.intLit()
			if g.p(35) {
				e = "max"
			}
			g.e("to", e)
		}
		r.set("begin", b)
		r.set("end", e)
		n.Opts = append(n.Opts, r)
		if k > 1 {
			g.e(",")
		}
	}
}

func (g *gen) reserved() *Node {
	n := &Node{Kind: "reserved"}
	g.e("reserved")
	switch g.n(3) {
	case 0:
		g.ranges(n)
	default:
		quoted := g.p(60)
		noComma := !g.cfg.Strict && g.p(15)
		for k := g.many(1 + g.w(4, 2, 1, 1)); k > 0; k-- {
			f := &Node{Kind: "resname"}
			s := g.ident()
			if quoted {
				q := []string{`"`, `'`}[g.n(2)]
				s = q + s + q
				if g.p(10) {
					s = g.strLit()
				}
			}
			g.e(s)
			f.set("name", s)
			n.Opts = append(n.Opts, f)
			if k > 1 && !noComma {
				g.e(",")
			}
		}
	}
	g.e(";")
	return n
}

func (g *gen) extensions() *Node {
	n := &Node{Kind: "extensions"}
	g.e("extensions")
	g.ranges(n)
	if g.p(40) {
		g.e("[")
		for k := g.many(1 + g.w(3, 2, 1)); k > 0; k-- {
			g.e("declaration", "=", "{")
			d := &Node{Kind: "declaration"}
			vals := map[string]string{"reserved": "false", "repeated": "false"}
			keys := []string{"number", "full_name", "type", "reserved", "repeated"}
			first := true
			for len(keys) > 0 && g.p(75) {
				i := g.n(len(keys))
				k := keys[i]
				keys = append(append([]string{}, keys[:i]...), keys[i+1:]...)
				if !first {
					g.e(",")
				}
				first = false
				v := ""
				switch k {
				case "number":
					v = g.intLit()
				case "full_name", "type":
					v = g.strLit()
				default:
					v = []string{"true", "false"}[g.n(2)]
				}
				g.e(k, ":", v)
				vals[k] = v
			}
			for _, k := range []string{"number", "full_name", "type", "reserved", "repeated"} {
				d.set(k, vals[k])
			}
			g.e("}")
			n.Aux = append(n.Aux, d)
			if k > 1 {
				g.e(",")
			}
		}
		g.e("]")
	}
	g.e(";")
	return n
}
