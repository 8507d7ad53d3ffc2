package main

// Conversion of the library's tree into the harness's Node.

import (
	"fmt"
	"strconv"

	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func cpos(p meta.Position) Pos { return Pos{p.Offset, p.Line, p.Column} }

func (n *Node) meta(m meta.Meta) {
	n.HasPos = true
	n.Pos, n.Last = cpos(m.Pos), cpos(m.LastPos)
	n.File = m.Pos.Filename
	n.BadFile = n.BadFile || m.LastPos.Filename != m.Pos.Filename
}

func (n *Node) ccmt(c *parser.Comment) *Cmt {
	if c == nil {
		return nil
	}
	if c.Meta.Pos.Filename != n.File && n.HasPos || c.Meta.LastPos.Filename != c.Meta.Pos.Filename {
		n.BadFile = true
	}
	return &Cmt{c.Raw, cpos(c.Meta.Pos), cpos(c.Meta.LastPos)}
}

func (n *Node) ccmts(cs []*parser.Comment) []Cmt {
	var out []Cmt
	for _, c := range cs {
		if c == nil {
			out = append(out, Cmt{Raw: "<nil comment>"})
			continue
		}
		out = append(out, *n.ccmt(c))
	}
	return out
}

func (n *Node) cmts(lead []*parser.Comment, inline, curly *parser.Comment) {
	n.Cmts = n.ccmts(lead)
	n.Inline = n.ccmt(inline)
	n.Curly = n.ccmt(curly)
}

func btos(b bool) string { return strconv.FormatBool(b) }

func label(rep, req, opt bool) string {
	s := ""
	if rep {
		s += "repeated"
	}
	if req {
		s += "required"
	}
	if opt {
		s += "optional"
	}
	return s
}

func libVal(s string) *Value { return &Value{Text: s, Lib: true} }

func convProto(p *parser.Proto) *Node {
	if p == nil {
		return nil
	}
	root := &Node{Kind: "proto"}
	if p.Syntax != nil {
		root.Aux = append(root.Aux, conv(p.Syntax))
	}
	if p.Edition != nil {
		root.Aux = append(root.Aux, conv(p.Edition))
	}
	root.Body = convBody(p.ProtoBody)
	if p.Meta != nil {
		root.File = p.Meta.Filename
	}
	return root
}

func convBody(b []parser.Visitee) []*Node {
	var out []*Node
	for _, v := range b {
		out = append(out, conv(v))
	}
	return out
}

func convFieldOptions(os []*parser.FieldOption) []*Node {
	var out []*Node
	for _, o := range os {
		n := &Node{Kind: "opt", Value: libVal(o.Constant)}
		n.set("name", o.OptionName)
		out = append(out, n)
	}
	return out
}

func convRanges(rs []*parser.Range) []*Node {
	var out []*Node
	for _, r := range rs {
		n := &Node{Kind: "range"}
		n.set("begin", r.Begin)
		n.set("end", r.End)
		out = append(out, n)
	}
	return out
}

func conv(v interface{}) *Node {
	n := &Node{}
	switch e := v.(type) {
	case *parser.Comment:
		n.Kind = "comment"
		n.meta(e.Meta)
		n.set("raw", e.Raw)
	case *parser.Syntax:
		n.Kind = "syntax"
		n.meta(e.Meta)
		n.set("version", e.ProtobufVersion)
		n.set("quote", e.ProtobufVersionQuote)
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.Edition:
		n.Kind = "edition"
		n.meta(e.Meta)
		n.set("edition", e.Edition)
		n.set("quote", e.EditionQuote)
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.Import:
		n.Kind = "import"
		n.meta(e.Meta)
		m := fmt.Sprintf("modifier%d", e.Modifier)
		switch e.Modifier {
		case parser.ImportModifierNone:
			m = "none"
		case parser.ImportModifierPublic:
			m = "public"
		case parser.ImportModifierWeak:
			m = "weak"
		}
		n.set("modifier", m)
		n.set("location", e.Location)
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.Package:
		n.Kind = "package"
		n.meta(e.Meta)
		n.set("name", e.Name)
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.Option:
		n.Kind = "option"
		n.meta(e.Meta)
		n.set("name", e.OptionName)
		n.Value = libVal(e.Constant)
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.Message:
		n.Kind = "message"
		n.meta(e.Meta)
		n.set("name", e.MessageName)
		n.Body = convBody(e.MessageBody)
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
	case *parser.Enum:
		n.Kind = "enum"
		n.meta(e.Meta)
		n.set("name", e.EnumName)
		n.Body = convBody(e.EnumBody)
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
	case *parser.EnumField:
		n.Kind = "enumfield"
		n.meta(e.Meta)
		n.set("name", e.Ident)
		n.set("number", e.Number)
		for _, o := range e.EnumValueOptions {
			m := &Node{Kind: "opt", Value: libVal(o.Constant)}
			m.set("name", o.OptionName)
			n.Opts = append(n.Opts, m)
		}
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.Service:
		n.Kind = "service"
		n.meta(e.Meta)
		n.set("name", e.ServiceName)
		n.Body = convBody(e.ServiceBody)
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
	case *parser.RPC:
		n.Kind = "rpc"
		n.meta(e.Meta)
		n.set("name", e.RPCName)
		a := &Node{Kind: "request"}
		if q := e.RPCRequest; q != nil {
			a.meta(q.Meta)
			a.set("stream", btos(q.IsStream))
			a.set("type", q.MessageType)
		}
		b := &Node{Kind: "response"}
		if q := e.RPCResponse; q != nil {
			b.meta(q.Meta)
			b.set("stream", btos(q.IsStream))
			b.set("type", q.MessageType)
		}
		n.Aux = append(n.Aux, a, b)
		for _, o := range e.Options {
			n.Aux = append(n.Aux, conv(o))
		}
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
		n.Embed = n.ccmts(e.EmbeddedComments)
	case *parser.Extend:
		n.Kind = "extend"
		n.meta(e.Meta)
		n.set("name", e.MessageType)
		n.Body = convBody(e.ExtendBody)
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
	case *parser.Field:
		n.Kind = "field"
		n.meta(e.Meta)
		n.set("label", label(e.IsRepeated, e.IsRequired, e.IsOptional))
		n.set("type", e.Type)
		n.set("name", e.FieldName)
		n.set("number", e.FieldNumber)
		n.Opts = convFieldOptions(e.FieldOptions)
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.MapField:
		n.Kind = "map"
		n.meta(e.Meta)
		n.set("key", e.KeyType)
		n.set("type", e.Type)
		n.set("name", e.MapName)
		n.set("number", e.FieldNumber)
		n.Opts = convFieldOptions(e.FieldOptions)
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.GroupField:
		n.Kind = "group"
		n.meta(e.Meta)
		n.set("label", label(e.IsRepeated, e.IsRequired, e.IsOptional))
		n.set("name", e.GroupName)
		n.set("number", e.FieldNumber)
		n.Body = convBody(e.MessageBody)
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
	case *parser.Oneof:
		n.Kind = "oneof"
		n.meta(e.Meta)
		n.set("name", e.OneofName)
		for _, f := range e.OneofFields {
			n.Body = append(n.Body, conv(f))
		}
		for _, o := range e.Options {
			n.Aux = append(n.Aux, conv(o))
		}
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
	case *parser.OneofField:
		n.Kind = "oneoffield"
		n.meta(e.Meta)
		n.set("type", e.Type)
		n.set("name", e.FieldName)
		n.set("number", e.FieldNumber)
		n.Opts = convFieldOptions(e.FieldOptions)
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.Reserved:
		n.Kind = "reserved"
		n.meta(e.Meta)
		n.Opts = convRanges(e.Ranges)
		for _, f := range e.FieldNames {
			m := &Node{Kind: "resname"}
			m.set("name", f)
			n.Opts = append(n.Opts, m)
		}
		n.cmts(e.Comments, e.InlineComment, nil)
	case *parser.Extensions:
		n.Kind = "extensions"
		n.meta(e.Meta)
		n.Opts = convRanges(e.Ranges)
		for _, d := range e.Declarations {
			n.Aux = append(n.Aux, conv(d))
		}
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftSquare)
	case *parser.Declaration:
		n.Kind = "declaration"
		n.meta(e.Meta)
		n.set("number", e.Number)
		n.set("full_name", e.FullName)
		n.set("type", e.Type)
		n.set("reserved", btos(e.Reserved))
		n.set("repeated", btos(e.Repeated))
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
	case *parser.EmptyStatement:
		n.Kind = "empty"
		if e == nil {
			n.Kind = "nil empty"
			break
		}
		n.Inline = n.ccmt(e.InlineComment)
	default:
		n.Kind = fmt.Sprintf("unknown %T", v)
	}
	return n
}

// The unordered view, converted with the same leaf conversion: one child list
// per heading.

func heading(name string, ns []*Node) *Node { return &Node{Kind: "list " + name, Body: ns} }

func uList(n int, f func(i int) interface{}) []*Node {
	var out []*Node
	for i := 0; i < n; i++ {
		out = append(out, conv(f(i)))
	}
	return out
}

func convUnordered(p *unordered.Proto) *Node {
	root := &Node{Kind: "proto"}
	if p.Syntax != nil {
		root.Aux = append(root.Aux, conv(p.Syntax))
	}
	if p.Edition != nil {
		root.Aux = append(root.Aux, conv(p.Edition))
	}
	b := p.ProtoBody
	if b == nil {
		root.Kind = "proto without body"
		return root
	}
	root.Body = []*Node{
		heading("import", uList(len(b.Imports), func(i int) interface{} { return b.Imports[i] })),
		heading("package", uList(len(b.Packages), func(i int) interface{} { return b.Packages[i] })),
		heading("option", uList(len(b.Options), func(i int) interface{} { return b.Options[i] })),
		heading("message", convUMessages(b.Messages)),
		heading("extend", convUExtends(b.Extends)),
		heading("enum", convUEnums(b.Enums)),
		heading("service", convUServices(b.Services)),
		heading("empty", uList(len(b.EmptyStatements), func(i int) interface{} { return b.EmptyStatements[i] })),
	}
	return root
}

func convUMessages(ms []*unordered.Message) []*Node {
	var out []*Node
	for _, e := range ms {
		n := &Node{Kind: "message"}
		n.meta(e.Meta)
		n.set("name", e.MessageName)
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
		if b := e.MessageBody; b != nil {
			n.Body = []*Node{
				heading("field", uList(len(b.Fields), func(i int) interface{} { return b.Fields[i] })),
				heading("enum", convUEnums(b.Enums)),
				heading("message", convUMessages(b.Messages)),
				heading("option", uList(len(b.Options), func(i int) interface{} { return b.Options[i] })),
				heading("oneof", uList(len(b.Oneofs), func(i int) interface{} { return b.Oneofs[i] })),
				heading("map", uList(len(b.Maps), func(i int) interface{} { return b.Maps[i] })),
				heading("group", uList(len(b.Groups), func(i int) interface{} { return b.Groups[i] })),
				heading("reserved", uList(len(b.Reserves), func(i int) interface{} { return b.Reserves[i] })),
				heading("extend", uList(len(b.Extends), func(i int) interface{} { return b.Extends[i] })),
				heading("empty", uList(len(b.EmptyStatements), func(i int) interface{} { return b.EmptyStatements[i] })),
				heading("extensions", uList(len(b.Extensions), func(i int) interface{} { return b.Extensions[i] })),
			}
		}
		out = append(out, n)
	}
	return out
}

func convUExtends(es []*unordered.Extend) []*Node {
	var out []*Node
	for _, e := range es {
		n := &Node{Kind: "extend"}
		n.meta(e.Meta)
		n.set("name", e.MessageType)
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
		if b := e.ExtendBody; b != nil {
			n.Body = []*Node{
				heading("field", uList(len(b.Fields), func(i int) interface{} { return b.Fields[i] })),
				heading("empty", uList(len(b.EmptyStatements), func(i int) interface{} { return b.EmptyStatements[i] })),
			}
		}
		out = append(out, n)
	}
	return out
}

func convUEnums(es []*unordered.Enum) []*Node {
	var out []*Node
	for _, e := range es {
		n := &Node{Kind: "enum"}
		n.meta(e.Meta)
		n.set("name", e.EnumName)
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
		if b := e.EnumBody; b != nil {
			n.Body = []*Node{
				heading("option", uList(len(b.Options), func(i int) interface{} { return b.Options[i] })),
				heading("enumfield", uList(len(b.EnumFields), func(i int) interface{} { return b.EnumFields[i] })),
				heading("reserved", uList(len(b.Reserveds), func(i int) interface{} { return b.Reserveds[i] })),
				heading("empty", uList(len(b.EmptyStatements), func(i int) interface{} { return b.EmptyStatements[i] })),
			}
		}
		out = append(out, n)
	}
	return out
}

func convUServices(ss []*unordered.Service) []*Node {
	var out []*Node
	for _, e := range ss {
		n := &Node{Kind: "service"}
		n.meta(e.Meta)
		n.set("name", e.ServiceName)
		n.cmts(e.Comments, e.InlineComment, e.InlineCommentBehindLeftCurly)
		if b := e.ServiceBody; b != nil {
			n.Body = []*Node{
				heading("option", uList(len(b.Options), func(i int) interface{} { return b.Options[i] })),
				heading("rpc", uList(len(b.RPCs), func(i int) interface{} { return b.RPCs[i] })),
				heading("empty", uList(len(b.EmptyStatements), func(i int) interface{} { return b.EmptyStatements[i] })),
			}
		}
		out = append(out, n)
	}
	return out
}

// regroup rearranges an ordered tree into the headings of the unordered view.
func regroup(n *Node, top bool) *Node {
	m := *n
	m.Body = nil
	var kinds []string
	deep := map[string]bool{"message": true, "enum": true}
	switch n.Kind {
	case "proto":
		kinds = []string{"import", "package", "option", "message", "extend", "enum", "service", "empty"}
		deep["extend"], deep["service"] = true, true
	case "message":
		kinds = []string{"field", "enum", "message", "option", "oneof", "map", "group", "reserved", "extend", "empty", "extensions"}
	case "extend":
		kinds = []string{"field", "empty"}
	case "enum":
		kinds = []string{"option", "enumfield", "reserved", "empty"}
	case "service":
		kinds = []string{"option", "rpc", "empty"}
	}
	for _, k := range kinds {
		var l []*Node
		for _, c := range n.Body {
			if c.Kind == k {
				if deep[k] {
					l = append(l, regroup(c, false))
				} else {
					l = append(l, c)
				}
			}
		}
		m.Body = append(m.Body, heading(k, l))
	}
	return &m
}
