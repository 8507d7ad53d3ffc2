package main

// Checks that compare the parsed tree with the reference tree.

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"
)

// source draws a valid source and cross-checks generator and reference.
func (r R) doc(strict bool, size int) (GenDoc, string) {
	d := genDoc(r, GenCfg{Strict: strict, Size: size, Depth: 3})
	st := r.style()
	src := r.render(d.Toks, st)
	selfCheck(d, src, strict)
	return d, src
}

func selfCheck(d GenDoc, src string, strict bool) {
	ref := refParse(src, strict, false)
	if ref.V != Accept {
		panic(harnessError(fmt.Sprintf("the reference does not accept a generated source: %v %s at token %d (strict %v)\n%s", ref.V, ref.Msg, ref.FailIdx, strict, src)))
	}
	if len(ref.Toks)-1 != len(d.Toks) {
		panic(harnessError("the layout changed the tokens:\n" + src))
	}
	for i, t := range d.Toks {
		if ref.Toks[i].S != t {
			panic(harnessError(fmt.Sprintf("the layout changed token %q into %q:\n%s", t, ref.Toks[i].S, src)))
		}
	}
	if df := diff(d.Root, ref.Root, Proj{Struct: true}, ""); df != "" {
		panic(harnessError(fmt.Sprintf("generator and reference disagree: %s\n%s", df, src)))
	}
}

// mutated draws a source a few token or character edits away from a valid one.
func (r R) mutated(strict bool, size int) string {
	d := genDoc(r, GenCfg{Strict: strict, Size: size, Depth: 3})
	toks := d.Toks
	k := 1 + r.w(12, 3, 1)
	text := r.p(12)
	if !text {
		for ; k > 0; k-- {
			toks = r.mutateToks(toks)
		}
	}
	st := r.style()
	if r.p(60) {
		st.kind = []int{laySingle, layPretty, layMinimal}[r.n(3)]
		st.pad = 0
	}
	src := r.render(toks, st)
	if text {
		for ; k > 0; k-- {
			src = r.mutateText(src)
		}
	}
	return src
}

func (r R) size() int { return []int{2, 4, 8, 16}[r.w(3, 4, 3, 1)] }

func tagsOf(n *Node) []string {
	_, kinds := countStmts(n)
	var out []string
	for k := range kinds {
		out = append(out, "has "+k)
	}
	return out
}

func validUTF8(b []byte) bool { return utf8.Valid(b) }

const sourceNote = "Sources come from a grammar-based generator (all statement kinds, keyword-like identifiers, all literal forms) laid out with random white space and comments"

func init() {
	register(&Prop{
		ID: "C01", Quick: 120000, Thorough: 2400000,
		Rule: sourceNote + ", plus token-mutated sources the reference still accepts, in strict and permissive mode; a few with one place blown up (to kilobytes or megabytes); non-trivial: the reference accepts the source and it has at least 3 statements. The library's tree must equal the reference tree in every field.",
		Gen: func(r R, x *Exec) {
			strict := r.p(30)
			if r.p(75) {
				_, src := r.doc(strict, r.size())
				x.Do(r.scaled(&Case{Src: []byte(src), Strict: strict}, 12))
				return
			}
			src := r.mutated(strict, r.size())
			x.Do(&Case{Kind: "mutated", Src: []byte(src), Strict: strict})
		},
		Check: func(c *Case) Result {
			if !validUTF8(c.Src) {
				return Result{}
			}
			ref := refParse(string(c.Src), c.Strict, false)
			if ref.V != Accept {
				return Result{Tags: []string{"not accepted by the reference"}}
			}
			tree, err := libParse(c.Src, c.opts())
			if err != nil {
				return viol("a source of the grammar is rejected: %v", err)
			}
			if tree == nil {
				return viol("neither a tree nor an error")
			}
			if d := diff(ref.Root, convProto(tree), Proj{Struct: true}, ""); d != "" {
				return viol("the tree differs from the source: %s", d)
			}
			n, _ := countStmts(ref.Root)
			tags := tagsOf(ref.Root)
			if c.Kind != "" {
				tags = append(tags, "mutated and accepted")
			}
			return Result{NT: n >= 3, Tags: tags}
		},
	})

	register(&Prop{
		ID: "C02", Quick: 28000, Thorough: 560000,
		Rule: sourceNote + ", then changed by 1-3 token edits (delete, insert, duplicate, replace, swap, move, copy a run) or character edits, and single statements with words of the grammar and others (min, from, null, ...) inserted and substituted in every place, in strict and permissive mode; a few with one place blown up (to kilobytes or megabytes); non-trivial: the reference rejects the source (texts whose status the documentation leaves open are skipped). The library must return an error and no tree.",
		Gen: func(r R, x *Exec) {
			strict := r.p(30)
			size := 1
			if r.p(30) {
				size = 3
			}
			if r.p(60) {
				src := r.mutated(strict, size)
				x.Do(r.scaled(&Case{Src: []byte(src), Strict: strict}, 12))
				return
			}
			if r.p(45) { // one statement, words of all kinds in every place
				toks := r.focus(strict)
				if len(toks) > 80 {
					return
				}
				st := layStyle{kind: laySingle}
				for i := 0; i <= len(toks); i++ {
					for k := 0; k < 2; k++ {
						ins := append(append(append([]string{}, toks[:i]...), r.word()), toks[i:]...)
						x.Do(&Case{Kind: "word inserted", Src: []byte(r.render(ins, st)), Strict: strict})
					}
					if i < len(toks) && isIdentR(rune(toks[i][0])) {
						for k := 0; k < 8; k++ {
							rep := append([]string{}, toks...)
							rep[i] = r.word()
							x.Do(&Case{Kind: "word replaced", Src: []byte(r.render(rep, st)), Strict: strict})
						}
					}
				}
				return
			}
			// one base, every deletion and duplication of one token, some insertions
			d := genDoc(r, GenCfg{Strict: strict, Size: 1, Depth: 2})
			if len(d.Toks) == 0 || len(d.Toks) > 150 {
				return
			}
			st := layStyle{kind: []int{laySingle, layPretty}[r.n(2)]}
			step := 1
			for i := 0; i < len(d.Toks); i += step {
				del := append(append([]string{}, d.Toks[:i]...), d.Toks[i+1:]...)
				x.Do(&Case{Kind: "deletion", Src: []byte(r.render(del, st)), Strict: strict})
				ins := append(append(append([]string{}, d.Toks[:i]...), r.poolTok(d.Toks)), d.Toks[i:]...)
				x.Do(&Case{Kind: "insertion", Src: []byte(r.render(ins, st)), Strict: strict})
				if r.p(30) {
					rep := append([]string{}, d.Toks...)
					rep[i] = r.poolTok(d.Toks)
					x.Do(&Case{Kind: "replacement", Src: []byte(r.render(rep, st)), Strict: strict})
				}
			}
			var other []string
			if r.p(50) {
				other = genDoc(r, GenCfg{Strict: strict, Size: 1, Depth: 2}).Toks
			}
			if len(other) == 0 {
				other = d.Toks
			}
			from := starts(other)
			for _, i := range starts(d.Toks) {
				for k := 0; k < 2; k++ {
					ins := append(append(append([]string{}, d.Toks[:i]...), r.pick(labelIdents)), d.Toks[i:]...)
					x.Do(&Case{Kind: "word before a statement", Src: []byte(r.render(ins, st)), Strict: strict})
				}
				j := from[r.n(len(from))]
				ins := append(append(append([]string{}, d.Toks[:i]...), other[j:stmtAt(other, j)]...), d.Toks[i:]...)
				x.Do(&Case{Kind: "statement elsewhere", Src: []byte(r.render(ins, st)), Strict: strict})
			}
		},
		Check: func(c *Case) Result {
			if !validUTF8(c.Src) {
				return Result{}
			}
			ref := refParse(string(c.Src), c.Strict, false)
			if ref.V != Reject {
				return Result{Tags: []string{ref.tag()}}
			}
			tree, err := libParse(c.Src, c.opts())
			if err == nil {
				t := ref.Toks[ref.FailIdx]
				return viol("a source outside the grammar is accepted; it leaves the grammar at %q (%d:%d): %s", t.S, t.Start.Line, t.Start.Col, ref.Msg)
			}
			if tree != nil {
				return viol("an error comes with a tree: %v", err)
			}
			return Result{NT: true, Tags: []string{"rejected: " + ref.Msg}}
		},
	})

	register(&Prop{
		ID: "C03", Quick: 90000, Thorough: 1800000,
		Rule: sourceNote + ", mostly changed by token or character edits; a few with one place blown up (to kilobytes or megabytes); non-trivial: the library accepts the source and the tree is not empty. The tree, written out again, must give the tokens of the source.",
		Gen: func(r R, x *Exec) {
			strict := r.p(25)
			if r.p(35) {
				_, src := r.doc(strict, r.size())
				x.Do(r.scaled(&Case{Src: []byte(src), Strict: strict}, 16))
				return
			}
			if r.p(30) {
				toks := r.focus(strict)
				for k := 8; k > 0; k-- {
					x.Do(&Case{Kind: "mutated", Src: []byte(r.render(r.wordEdit(toks), layStyle{kind: laySingle})), Strict: strict})
				}
				return
			}
			d := genDoc(r, GenCfg{Strict: r.p(25), Size: 2, Depth: 2})
			st := r.style()
			if st.kind == layEverywhere && r.p(70) {
				st.kind = layPretty
			}
			for k := 4; k > 0; k-- { // several mutants of one base
				src := r.render(r.mutateToks(d.Toks), st)
				x.Do(r.scaled(&Case{Kind: "mutated", Src: []byte(src), Strict: strict}, 3))
			}
		},
		Check: func(c *Case) Result {
			if !validUTF8(c.Src) {
				return Result{}
			}
			tree, err := libParse(c.Src, c.opts())
			if err != nil {
				return Result{Tags: []string{"rejected"}}
			}
			n := convProto(tree)
			d, skip := accounted(string(c.Src), n, !c.Strict)
			if skip {
				return Result{Tags: []string{"open spelling"}}
			}
			if d != "" {
				return viol("the tree does not account for the tokens of the source: %s", d)
			}
			k, _ := countStmts(n)
			tag := "accepted, valid"
			if c.Kind != "" {
				tag = "accepted, mutated"
			}
			return Result{NT: k > 0, Tags: []string{tag}}
		},
	})

	register(&Prop{
		ID: "C04", Quick: 90000, Thorough: 1800000,
		Rule: sourceNote + " with emphasis on comments at statement boundaries, in strict and permissive mode, with and without body comments; a few with one place blown up (to kilobytes or megabytes); non-trivial: the source has at least 2 comments. Comments of every element, and the comment elements of bodies, must be those the reference attaches.",
		Gen: func(r R, x *Exec) {
			strict := r.p(25)
			d := genDoc(r, GenCfg{Strict: strict, Size: r.size(), Depth: 3})
			st := r.style()
			if r.p(85) {
				st.kind = []int{layBoundary, layBoundary, layEverywhere}[r.n(3)]
				st.gaps = 15 + r.n(70)
				st.pad = 0
			}
			src := r.render(d.Toks, st)
			selfCheck(d, src, strict)
			x.Do(r.scaled(&Case{Src: []byte(src), Strict: strict, Body: r.p(50)}, 10))
		},
		Check: func(c *Case) Result {
			if !validUTF8(c.Src) {
				return Result{}
			}
			ref := refParse(string(c.Src), c.Strict, c.Body)
			if ref.V != Accept {
				return Result{}
			}
			tree, err := libParse(c.Src, c.opts())
			if err != nil {
				return viol("a source of the grammar is rejected: %v", err)
			}
			got := convProto(tree)
			if d := diff(ref.Root, got, Proj{Cmts: true}, ""); d != "" {
				return viol("comments: %s", d)
			}
			n := 0
			for _, t := range ref.Toks {
				n += len(t.Cmts)
			}
			seen := map[string]bool{}
			got.walk(func(m *Node) {
				if len(m.Cmts) > 0 {
					seen["leading on "+m.Kind] = true
				}
				if m.Inline != nil {
					seen["inline on "+m.Kind] = true
				}
				if m.Curly != nil {
					seen["behind brace of "+m.Kind] = true
				}
				if len(m.Embed) > 0 {
					seen["embedded"] = true
				}
				if m.Kind == "comment" {
					seen["body comment"] = true
				}
			})
			var tags []string
			for k := range seen {
				tags = append(tags, k)
			}
			return Result{NT: n >= 2, Tags: tags}
		},
	})

	register(&Prop{
		ID: "C05", Quick: 90000, Thorough: 1800000,
		Rule: sourceNote + " (multi-byte characters, tabs, CRLF, byte order mark, sources crossing read-buffer boundaries); a few with one place blown up (to kilobytes or megabytes); non-trivial: at least 3 elements or comments with positions. Every start and last position of every element and comment must be the reference's, with the configured file name.",
		Gen: func(r R, x *Exec) {
			strict := r.p(25)
			_, src := r.doc(strict, r.size())
			x.Do(r.scaled(&Case{Src: []byte(src), Strict: strict, Body: r.p(50), File: []string{"", "a.proto", "dir/é b.proto"}[r.n(3)]}, 20))
		},
		Check: func(c *Case) Result {
			if !validUTF8(c.Src) {
				return Result{}
			}
			ref := refParse(string(c.Src), c.Strict, c.Body)
			if ref.V != Accept {
				return Result{}
			}
			tree, err := libParse(c.Src, c.opts())
			if err != nil {
				return viol("a source of the grammar is rejected: %v", err)
			}
			got := convProto(tree)
			if d := diff(ref.Root, got, Proj{Pos: true, Cmts: true, CmtPos: true}, ""); d != "" {
				return viol("positions: %s", d)
			}
			n := 0
			bad := ""
			got.walk(func(m *Node) {
				if m.HasPos {
					n++
					if m.File != c.File || m.BadFile {
						bad = fmt.Sprintf("%s has file name %q, want %q", m.label(), m.File, c.File)
					}
				}
			})
			if bad == "" && (tree.Meta == nil || tree.Meta.Filename != c.File) {
				bad = "the tree has the wrong file name"
			}
			if bad != "" {
				return viol("%s", bad)
			}
			got.allCmts(func(Cmt) { n++ })
			var tags []string
			s := string(c.Src)
			for _, f := range []struct {
				n string
				b bool
			}{{"crlf", strings.Contains(s, "\r\n")}, {"multi-byte", len(s) != utf8.RuneCountInString(s)}, {"bom", strings.HasPrefix(s, bom)}, {"over 4096 bytes", len(s) > 4096}, {"tab", strings.Contains(s, "\t")}} {
				if f.b {
					tags = append(tags, f.n)
				}
			}
			return Result{NT: n >= 3, Tags: tags}
		},
	})

	register(&Prop{
		ID: "C12", Quick: 120000, Thorough: 2400000,
		Rule: sourceNote + ", from the strict and from the permissive grammar and mutated, each parsed in both modes; a few with one place blown up (to kilobytes or megabytes); non-trivial: the strict mode accepts a non-empty source, or the strict grammar rejects what the permissive one accepts. Strict must agree with the reference's strict grammar, and what strict accepts permissive must accept with the same tree up to semicolons behind blocks.",
		Gen: func(r R, x *Exec) {
			switch r.w(4, 4, 3) {
			case 0:
				d := genDoc(r, GenCfg{Strict: true, Size: 3, Depth: 3})
				// semicolons behind blocks are where the modes differ
				var toks []string
				for _, t := range d.Toks {
					toks = append(toks, t)
				}
				x.Do(r.scaled(&Case{Kind: "strict", Src: []byte(r.render(toks, r.style()))}, 5))
			case 1:
				_, src := r.doc(false, 3)
				x.Do(r.scaled(&Case{Kind: "permissive", Src: []byte(src)}, 5))
			case 2:
				x.Do(&Case{Kind: "mutated", Src: []byte(r.mutated(r.p(50), 2))})
			}
		},
		Check: checkModes,
	})

	register(&Prop{
		ID: "C13", Quick: 110000, Thorough: 2200000,
		Rule: "Token lists from the grammar-based generator, valid or mutated, each laid out twice with unrelated white space and comments (none, single space, tabs, CRLF, form feeds, comments between any tokens); a few with one place blown up (to kilobytes or megabytes); non-trivial: the texts differ and hold at least 5 tokens. Both layouts must be accepted with the same structure, or both rejected.",
		Gen: func(r R, x *Exec) {
			strict := r.p(30)
			d := genDoc(r, GenCfg{Strict: strict, Size: 3, Depth: 3})
			toks := d.Toks
			kind := "valid"
			if r.p(35) {
				toks = r.mutateToks(toks)
				kind = "mutated"
			}
			a, b := r.style(), r.style()
			if r.p(50) {
				a.kind = laySingle
			}
			x.Do(r.scaledGap(&Case{Kind: kind, Strs: [][]byte{[]byte(r.render(toks, a)), []byte(r.render(toks, b))}, Strict: strict}, 8))
		},
		Check: func(c *Case) Result {
			if len(c.Strs) != 2 || !validUTF8(c.Strs[0]) || !validUTF8(c.Strs[1]) {
				return Result{}
			}
			ta, tb := tokenize(string(c.Strs[0])), tokenize(string(c.Strs[1]))
			if len(ta) != len(tb) {
				return Result{Tags: []string{"tokens changed by the layout"}}
			}
			for i := range ta {
				if ta[i].S != tb[i].S || ta[i].K != tb[i].K || ta[i].Unspec || tb[i].Unspec {
					return Result{Tags: []string{"tokens changed by the layout"}}
				}
			}
			pa, ea := libParse(c.Strs[0], c.opts())
			pb, eb := libParse(c.Strs[1], c.opts())
			if (ea == nil) != (eb == nil) {
				return viol("the layout decides whether the source is accepted: %v / %v", ea, eb)
			}
			tag := c.Kind + " rejected"
			if ea == nil {
				tag = c.Kind + " accepted"
				na, nb := convProto(pa), convProto(pb)
				if d := diffConstants(na, nb); d != "" {
					return viol("the layout changes a constant: %s", d)
				}
				if d := diffLib(na, nb); d != "" {
					return viol("the layout changes the tree: %s", d)
				}
			}
			return Result{NT: len(ta) > 5 && !bytes.Equal(c.Strs[0], c.Strs[1]), Tags: []string{tag}}
		},
	})

	register(&Prop{
		ID: "C19", Quick: 160000, Thorough: 3200000,
		Rule: "Sources with one to three statements holding string literals (single and adjacent, both quotes, all escapes, quotes of the other kind, comment-like and multi-byte content) as option, field option, enum value option, rpc option, aggregate and list values, import paths, reserved names, declaration values; a few with one place blown up (to kilobytes or megabytes); non-trivial: adjacent literals, or a literal with an escape or a quote inside. Values must be kept verbatim; joined literals must denote the concatenation.",
		Gen: func(r R, x *Exec) {
			src, strict := r.stringDoc()
			x.Do(r.scaled(&Case{Src: []byte(src), Strict: strict}, 5))
		},
		Check: func(c *Case) Result {
			if !validUTF8(c.Src) {
				return Result{}
			}
			ref := refParse(string(c.Src), c.Strict, false)
			if ref.V != Accept {
				return Result{}
			}
			tree, err := libParse(c.Src, c.opts())
			if err != nil {
				return viol("a source with legal string literals is rejected: %v", err)
			}
			if d := diff(ref.Root, convProto(tree), Proj{Struct: true}, ""); d != "" {
				return viol("string values: %s", d)
			}
			nt := false
			var tags []string
			for i, t := range ref.Toks {
				if t.K != KStr {
					continue
				}
				if i > 0 && ref.Toks[i-1].K == KStr {
					nt = true
					tags = append(tags, "adjacent")
					if ref.Toks[i-1].S[0] != t.S[0] {
						tags = append(tags, "adjacent with different quotes")
					}
				}
				if strings.ContainsAny(t.S[1:len(t.S)-1], `\'"`) {
					nt = true
					tags = append(tags, "escape or inner quote")
				}
			}
			return Result{NT: nt, Tags: tags}
		},
	})
}

// diffLib compares the structure of two library trees; values are compared as
// tokens because an aggregate keeps no layout promise.
// diffConstants compares the texts of all constants letter by letter.
func diffConstants(a, b *Node) string {
	texts := func(n *Node) (l []string) {
		n.walk(func(m *Node) {
			if m.Value != nil && m.Value.Lib {
				l = append(l, m.Value.Text)
			}
		})
		return
	}
	ta, tb := texts(a), texts(b)
	for i := range ta {
		if i < len(tb) && ta[i] != tb[i] {
			return fmt.Sprintf("%.200q / %.200q", ta[i], tb[i])
		}
	}
	return ""
}

func diffLib(a, b *Node) string {
	norm := func(n *Node) *Node {
		n.walk(func(m *Node) {
			if m.Value != nil && m.Value.Lib {
				ts := tokenize(m.Value.Text)
				m.Value = &Value{Toks: groupStrings(ts[:len(ts)-1], false)}
			}
		})
		return n
	}
	return diff(norm(a), norm(b), Proj{Struct: true}, "")
}

func (r R) stringDoc() (string, bool) {
	strict := r.p(20)
	g := &gen{R: r, cfg: GenCfg{Strict: strict, Size: 1, Depth: 1}, budget: 10}
	strs := func() {
		n := 1
		if !strict {
			n = 1 + r.w(3, 4, 3, 2, 1)
		}
		for ; n > 0; n-- {
			g.e(g.strLit())
		}
	}
	value := func() {
		if strict {
			strs()
			return
		}
		switch r.w(5, 2, 2) {
		case 0:
			strs()
		case 1:
			g.e("{")
			for k := 1 + r.n(2); k > 0; k-- {
				g.e("a", ":")
				strs()
				if r.p(50) {
					g.e([]string{",", ";"}[r.n(2)])
				}
			}
			g.e("}")
		case 2:
			g.e("[")
			for k := 1 + r.n(3); k > 0; k-- {
				strs()
				if k > 1 {
					g.e(",")
				}
			}
			g.e("]")
		}
	}
	opt := func() { g.e("option", "o", "="); value(); g.e(";") }
	fopts := func() {
		g.e("[")
		for k := 1 + r.n(2); k > 0; k-- {
			g.e("o", "=")
			value()
			if k > 1 {
				g.e(",")
			}
		}
		g.e("]")
	}
	for k := 1 + r.n(3); k > 0; k-- {
		switch r.n(10) {
		case 0:
			opt()
		case 1:
			g.e("import", g.strLit(), ";")
		case 2:
			g.e("message", "M", "{", "reserved", g.strLit(), ",", g.strLit(), ";", "}")
		case 3:
			g.e("message", "M", "{", "extensions", "1", "[", "declaration", "=", "{", "full_name", ":", g.strLit(), ",", "type", ":", g.strLit(), "}", "]", ";", "}")
		case 4:
			g.e("message", "M", "{", "string", "f", "=", "1")
			fopts()
			g.e(";", "}")
		case 5:
			g.e("enum", "E", "{", "A", "=", "1")
			fopts()
			g.e(";")
			opt()
			g.e("}")
		case 6:
			g.e("service", "S", "{", "rpc", "R", "(", "A", ")", "returns", "(", "B", ")", "{")
			opt()
			g.e("}", "}")
		case 7:
			g.e("message", "M", "{", "oneof", "o", "{", "string", "f", "=", "1")
			fopts()
			g.e(";")
			opt()
			g.e("}", "map", "<", "string", ",", "string", ">", "m", "=", "2")
			fopts()
			g.e(";", "}")
		case 8:
			g.e("extend", "M", "{", "string", "f", "=", "1")
			fopts()
			g.e(";", "}")
		case 9:
			opt()
			g.e("enum", "E", "{", "reserved", g.strLit(), ";", "}")
		}
	}
	st := r.style()
	if r.p(50) {
		st.kind = layMinimal
	}
	return r.render(g.toks, st), strict
}

var blockKinds = set("message", "enum", "service", "extend", "oneof", "group", "rpc")

// checkModes compares strict and permissive parsing of one source.
func checkModes(c *Case) Result {
	if !validUTF8(c.Src) {
		return Result{}
	}
	src := string(c.Src)
	refS := refParse(src, true, false)
	ps, es := libParse(c.Src, libOpts{strict: true})
	pp, ep := libParse(c.Src, libOpts{})
	if refS.V == Accept && es != nil {
		return viol("strict mode rejects a source of the documented grammar: %v", es)
	}
	if refS.V == Reject && es == nil {
		t := refS.Toks[refS.FailIdx]
		return viol("strict mode accepts a source outside the documented grammar, which leaves it at %q (%d:%d): %s", t.S, t.Start.Line, t.Start.Col, refS.Msg)
	}
	if es != nil {
		if ep == nil {
			return Result{NT: refS.V == Reject, Tags: []string{"only permissive accepts"}}
		}
		return Result{Tags: []string{"both reject"}}
	}
	if ep != nil {
		return viol("strict mode accepts what permissive mode rejects: %v", ep)
	}
	s, p := convProto(ps), convProto(pp)
	semis := 0
	var align func(a, b *Node) string
	align = func(a, b *Node) string {
		// drop the empty statements directly behind blocks from the strict tree
		var body []*Node
		for i, x := range a.Body {
			if x.Kind == "empty" && i > 0 {
				prev := a.Body[i-1]
				if blockKinds[prev.Kind] && prev.Last.Off < len(src) && prev.Last.Off >= 0 && src[prev.Last.Off] == '}' {
					semis++
					continue
				}
			}
			body = append(body, x)
		}
		a.Body = body
		for i := range a.Body {
			if i < len(b.Body) {
				if d := align(a.Body[i], b.Body[i]); d != "" {
					return d
				}
				// the block ends at that semicolon in permissive mode
				x, y := a.Body[i], b.Body[i]
				if blockKinds[x.Kind] && x.Last != y.Last && y.Last.Off < len(src) && y.Last.Off > x.Last.Off && src[y.Last.Off] == ';' {
					x.Last = y.Last
				}
			}
		}
		return ""
	}
	align(s, p)
	proj := Proj{Struct: true, Pos: true}
	if semis == 0 {
		proj.Cmts, proj.CmtPos = true, true
	}
	// values: strict has no joined strings, so the texts are the same
	if d := diff(s, p, proj, ""); d != "" {
		return viol("permissive and strict trees differ (want strict): %s", d)
	}
	n, _ := countStmts(s)
	tags := []string{"both accept"}
	if semis > 0 {
		tags = append(tags, "semicolon behind a block")
	}
	return Result{NT: n > 0, Tags: tags}
}
