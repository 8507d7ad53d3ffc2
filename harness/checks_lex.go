package main

// Checks about the lexer: put-back and token recognition.

import (
	"fmt"
	"sort"
	"strings"
	"unicode"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
)

const (
	opNext = iota
	opKeyword
	opKeywordOrStr
	opStr
	opLit
	opNumber
	opComment
	opReads
)

const (
	opPeek = 10 + iota
	opPeekN
	opConsume
	opUnNext
	opUnNextTo
	opNextN
	opConstPermissive
	opConstStrict
	opFullIdent
	opMessageType
	opEmpty
	opEnd
)

var readMode = [...]scanner.Mode{0, scanner.ScanKeyword, scanner.ScanKeyword | scanner.ScanStrLit, scanner.ScanStrLit, scanner.ScanLit, scanner.ScanNumberLit, scanner.ScanComment}

func doRead(l *lexer.Lexer, op int) {
	switch op {
	case opNext:
		l.Next()
	case opKeyword:
		l.NextKeyword()
	case opKeywordOrStr:
		l.NextKeywordOrStrLit()
	case opStr:
		l.NextStrLit()
	case opLit:
		l.NextLit()
	case opNumber:
		l.NextNumberLit()
	case opComment:
		l.NextComment()
	}
}

type obs struct {
	tok  scanner.Token
	text string
	raw  string
	pos  Pos
	res  string
}

func observe(l *lexer.Lexer) obs {
	return obs{l.Token, l.Text, string(l.RawText), cpos(l.Pos.Position), ""}
}

func (o obs) String() string {
	return fmt.Sprintf("token %v text %q raw %q at %v %s", o.tok, o.text, o.raw, o.pos, o.res)
}

type lexRead struct{ op, arg int }

// apply performs a read or a compound read.
func (r lexRead) apply(l *lexer.Lexer) obs {
	if r.op < opReads {
		doRead(l, r.op)
		return observe(l)
	}
	var s string
	var p scanner.Position
	var err error
	switch r.op {
	case opNextN:
		l.NextN(r.arg)
		return observe(l)
	case opConstPermissive:
		s, p, err = l.ReadConstant(true)
	case opConstStrict:
		s, p, err = l.ReadConstant(false)
	case opFullIdent:
		s, p, err = l.ReadFullIdent()
	case opMessageType:
		s, p, err = l.ReadMessageType()
	case opEmpty:
		err = l.ReadEmptyStatement()
	}
	if err != nil {
		return obs{res: "an error"}
	}
	return obs{res: fmt.Sprintf("%q at %v", s, cpos(p.Position))}
}

var opNames = map[int]string{opNext: "Next", opKeyword: "NextKeyword", opKeywordOrStr: "NextKeywordOrStrLit", opStr: "NextStrLit", opLit: "NextLit", opNumber: "NextNumberLit", opComment: "NextComment", opNextN: "NextN", opConstPermissive: "ReadConstant(true)", opConstStrict: "ReadConstant(false)", opFullIdent: "ReadFullIdent", opMessageType: "ReadMessageType", opEmpty: "ReadEmptyStatement"}

// checkHistory: Ints are pairs of operation and argument.
func checkHistory(c *Case) Result {
	if !validUTF8(c.Src) {
		return Result{}
	}
	src := string(c.Src)
	newLexer := func() *lexer.Lexer {
		l := lexer.NewLexer(strings.NewReader(src), lexer.WithFilename(c.File))
		l.Error = func(*lexer.Lexer, error) {}
		return l
	}
	lex := newLexer()
	type live struct {
		r        lexRead
		raw      []rune
		poppable bool
	}
	var lives []live
	fresh := func(extra ...lexRead) obs {
		f := newLexer()
		var o obs
		for _, l := range lives {
			o = l.r.apply(f)
		}
		for _, e := range extra {
			o = e.apply(f)
		}
		return o
	}
	var hist []string
	canUn := false
	putbacks, after := 0, 0
	deep := 0
	// comments that were read, whether put back again or not
	cmts := map[int]string{}
	tracked := true
	note := func(ahead int, raw string) {
		off := ahead
		for _, l := range lives {
			off += len(string(l.raw))
		}
		if off > len(src) {
			return
		}
		at := 0
		for _, c := range prefixComments(raw) {
			at += strings.Index(raw[at:], c)
			cmts[off+at] = c
			at += len(c)
		}
	}
	read := func(r lexRead, poppable bool) string {
		got := r.apply(lex)
		if r.op >= opReads && !(r.op == opNextN && r.arg == 1) {
			tracked = false
		}
		note(0, string(lex.RawText))
		want := fresh(r)
		name := opNames[r.op]
		hist = append(hist, name)
		if putbacks > 0 {
			after++
		}
		if got != want {
			return fmt.Sprintf("after %s: %s gives %v; without the operations taken back it gives %v", strings.Join(hist, ", "), name, got, want)
		}
		lives = append(lives, live{r, append([]rune(nil), lex.RawText...), poppable})
		return ""
	}
	for k := 0; k+1 < len(c.Ints); k += 2 {
		op, arg := c.Ints[k], c.Ints[k+1]
		switch {
		case op < opReads:
			if d := read(lexRead{op, 0}, true); d != "" {
				return viol("%s", d)
			}
			canUn = true
		case op == opNextN:
			n := 1 + arg%3
			if d := read(lexRead{op, n}, n == 1); d != "" {
				return viol("%s", d)
			}
			// the last of the reads can be put back by UnNext only
			canUn = n == 1
		case op == opPeek, op == opPeekN:
			n := 1
			if op == opPeekN {
				n = arg % 5
			}
			if n == 0 { // looks at nothing and leaves everything as it is
				before := observe(lex)
				if got := lex.PeekN(0); got != before.tok || observe(lex) != before {
					return viol("after %s: a peek at no token changes %v to %v", strings.Join(hist, ", "), before, observe(lex))
				}
				hist = append(hist, "Peek(0)")
				continue
			}
			var reads []lexRead
			for i := 0; i < n; i++ {
				reads = append(reads, lexRead{opNext, 0})
			}
			ahead := 0
			for i := range reads {
				o := fresh(reads[:i+1]...)
				note(ahead, o.raw)
				ahead += len(o.raw)
			}
			want := fresh(reads...)
			var got scanner.Token
			if op == opPeek {
				got = lex.Peek()
			} else {
				got = lex.PeekN(n)
			}
			hist = append(hist, fmt.Sprintf("Peek(%d)", n))
			if got != want.tok {
				return viol("after %s: the peeked token is %v, want %v", strings.Join(hist, ", "), got, want.tok)
			}
			canUn = false
			putbacks++
		case op == opConsume:
			want := fresh(lexRead{opNext, 0})
			note(0, want.raw)
			t := scanner.Token(arg % (int(scanner.TGROUP) + 1))
			if arg%3 == 0 {
				t = want.tok
			}
			lex.ConsumeToken(t)
			hist = append(hist, fmt.Sprintf("ConsumeToken(%v)", t))
			if t == want.tok {
				if got := observe(lex); got != want {
					return viol("after %s: the consumed token is %v, want %v", strings.Join(hist, ", "), got, want)
				}
				lives = append(lives, live{lexRead{opNext, 0}, append([]rune(nil), lex.RawText...), true})
				canUn = true
			} else {
				canUn = false
				putbacks++
			}
		case op == opUnNext:
			if !canUn {
				continue
			}
			lex.UnNext()
			hist = append(hist, "UnNext")
			lives = lives[:len(lives)-1]
			canUn = false
			putbacks++
		case op == opUnNextTo:
			for n := 1 + arg%4; n > 0 && len(lives) > 0 && lives[len(lives)-1].poppable; n-- {
				l := lives[len(lives)-1]
				lex.UnNextTo(append([]rune(nil), l.raw...))
				hist = append(hist, "UnNextTo")
				lives = lives[:len(lives)-1]
				putbacks++
				deep++
			}
			canUn = false
		case op > opNextN && op < opEnd:
			if d := read(lexRead{op, 0}, false); d != "" {
				return viol("%s", d)
			}
			canUn = false
		}
	}
	// whatever follows is read the same way
	for k := 0; k < 4; k++ {
		if d := read(lexRead{[]int{opComment, opLit, opKeyword, opNext}[k], 0}, true); d != "" {
			return viol("%s", d)
		}
	}
	tags := []string{}
	if tracked && len(src) > 0 {
		sum := 0
		for _, i := range c.Ints {
			sum = sum*31 + i
		}
		a, b := (sum&0xffff)%(len(src)+1), (sum>>3&0xffff)%(len(src)+1)
		for _, iv := range [][2]int{{-1, len(src) + 1}, {a, b}, {0, b}, {a, len(src)}} {
			if d := cmtsBetween(lex, src, cmts, iv[0], iv[1]); d != "" {
				return viol("after %s: %s", strings.Join(hist, ", "), d)
			}
		}
		if len(cmts) > 0 {
			tags = append(tags, "comments found again")
		}
	}
	if deep > 1 {
		tags = append(tags, "several reads put back")
	}
	if putbacks > 0 {
		tags = append(tags, "put-back")
	}
	return Result{NT: putbacks > 0 && after > 0, Tags: tags}
}

// prefixComments returns the whole comments before the token of a raw text, or those that are the token.
func prefixComments(raw string) []string {
	var out []string
	for {
		raw = strings.TrimLeftFunc(raw, unicode.IsSpace)
		n := 0
		switch {
		case strings.HasPrefix(raw, "//"):
			if n = strings.IndexByte(raw, '\n'); n < 0 {
				n = len(raw)
			}
		case strings.HasPrefix(raw, "/*"):
			if n = strings.Index(raw[2:], "*/"); n < 0 {
				return out
			}
			n += 4
		default:
			return out
		}
		out = append(out, raw[:n])
		raw = raw[n:]
	}
}

// The methods only the library itself calls: the checks look at them where they are there.
type (
	midCommentFinder interface {
		FindMidComments(from scanner.Position, to scanner.Position) []scanner.Text
	}
	scannedComments interface{ GetScannedComments() []scanner.Text }
	lastRaw         interface{ LastScanRaw() []rune }
	latestErr       interface{ LatestErr() error }
)

// rawOf returns the raw text of the scanner's last token, that of the lexer's if it does not tell.
func rawOf(sc *scanner.Scanner, lex *lexer.Lexer) string {
	if s, ok := any(sc).(lastRaw); ok {
		return string(s.LastScanRaw())
	}
	return string(lex.RawText)
}

// noError tells that the lexer knows of no error.
func noError(lex *lexer.Lexer) bool {
	l, ok := any(lex).(latestErr)
	return ok && l.LatestErr() == nil
}

// cmtsBetween compares the comments the lexer finds behind from and before to with those read.
func cmtsBetween(lex *lexer.Lexer, src string, cmts map[int]string, from, to int) string {
	var at []int
	for off := range cmts {
		if from < off && off < to {
			at = append(at, off)
		}
	}
	sort.Ints(at)
	var a, b scanner.Position
	a.Offset, b.Offset = from, to
	finder, ok := any(lex).(midCommentFinder)
	if !ok {
		return ""
	}
	got := finder.FindMidComments(a, b)
	cur := &cursor{src: src, p: Pos{0, 1, 1}}
	for i, g := range got {
		if i >= len(at) || g.Pos.Offset != at[i] || g.Literal != cmts[at[i]] {
			return fmt.Sprintf("FindMidComments between %d and %d gives %q at %v, which was not read there, or not as number %d", from, to, g.Literal, cpos(g.Pos.Position), i)
		}
		for cur.p.Off < at[i] {
			cur.next()
		}
		if cpos(g.Pos.Position) != cur.p {
			return fmt.Sprintf("FindMidComments gives %q at %v, which stands at %v", g.Literal, cpos(g.Pos.Position), cur.p)
		}
	}
	if len(got) != len(at) {
		return fmt.Sprintf("FindMidComments between %d and %d gives %d comments, %d were read", from, to, len(got), len(at))
	}
	return ""
}

// ---- C18

var punctTok = map[string]scanner.Token{";": scanner.TSEMICOLON, ":": scanner.TCOLON, "=": scanner.TEQUALS, `"`: scanner.TQUOTE, "'": scanner.TQUOTE, "(": scanner.TLEFTPAREN, ")": scanner.TRIGHTPAREN, "{": scanner.TLEFTCURLY, "}": scanner.TRIGHTCURLY, "[": scanner.TLEFTSQUARE, "]": scanner.TRIGHTSQUARE, "<": scanner.TLESS, ">": scanner.TGREATER, ",": scanner.TCOMMA, ".": scanner.TDOT, "-": scanner.TMINUS, bom: scanner.TBOM}

var kwTok = map[string]scanner.Token{"syntax": scanner.TSYNTAX, "edition": scanner.TEDITION, "service": scanner.TSERVICE, "rpc": scanner.TRPC, "returns": scanner.TRETURNS, "message": scanner.TMESSAGE, "extend": scanner.TEXTEND, "import": scanner.TIMPORT, "package": scanner.TPACKAGE, "option": scanner.TOPTION, "repeated": scanner.TREPEATED, "required": scanner.TREQUIRED, "optional": scanner.TOPTIONAL, "weak": scanner.TWEAK, "public": scanner.TPUBLIC, "oneof": scanner.TONEOF, "map": scanner.TMAP, "reserved": scanner.TRESERVED, "extensions": scanner.TEXTENSIONS, "number": scanner.TNUMBER, "full_name": scanner.TFULLNAME, "type": scanner.TTYPE, "declaration": scanner.TDECLARATION, "enum": scanner.TENUM, "stream": scanner.TSTREAM, "group": scanner.TGROUP}

// refScan is the reference scanner for one read. stop means that the
// specification leaves the rest open.
func refScan(c *cursor, mode scanner.Mode) (tok scanner.Token, text string, pos Pos, stop bool) {
	for {
		for !c.eof() && unicode.IsSpace(c.peek()) {
			c.next()
		}
		pos = c.p
		if c.eof() {
			return scanner.TEOF, "", pos, false
		}
		adv := func() { c.next() }
		got := func() string { return c.src[pos.Off:c.p.Off] }
		r := c.peek()
		switch {
		case isLetterR(r) || r == '_':
			for isIdentR(c.peek()) {
				adv()
			}
			s := got()
			switch {
			case mode&scanner.ScanBoolLit != 0 && (s == "true" || s == "false"):
				return scanner.TBOOLLIT, s, pos, false
			case mode&scanner.ScanNumberLit != 0 && (s == "inf" || s == "nan"):
				return scanner.TFLOATLIT, s, pos, false
			case mode&scanner.ScanKeyword != 0 && kwTok[s] != 0:
				return kwTok[s], s, pos, false
			}
			return scanner.TIDENT, s, pos, false
		case r == '/':
			switch {
			case c.has("//"):
				for !c.eof() && c.peek() != '\n' {
					adv()
				}
			case c.has("/*"):
				end := strings.Index(c.src[c.p.Off+2:], "*/")
				if end < 0 {
					return scanner.TILLEGAL, "", pos, true
				}
				for stop := c.p.Off + end + 4; c.p.Off < stop; {
					adv()
				}
			default:
				return scanner.TILLEGAL, "", pos, true
			}
			if mode&scanner.ScanComment != 0 {
				return scanner.TCOMMENT, got(), pos, false
			}
			continue
		case (r == '"' || r == '\'') && mode&scanner.ScanStrLit != 0:
			ok, unspec := scanString(c, adv)
			if unspec {
				return 0, "", pos, true
			}
			if !ok {
				return scanner.TILLEGAL, "", pos, true
			}
			return scanner.TSTRLIT, got(), pos, false
		case isDigitR(r) && mode&scanner.ScanNumberLit != 0, r == '.' && isDigitR(rune(c.peekAt(1))) && mode&scanner.ScanNumberLit != 0:
			k, unspec := scanNumber(c, adv)
			s := got()
			if unspec {
				return -1, "", pos, true
			}
			switch k {
			case KInt:
				return scanner.TINTLIT, s, pos, false
			case KFloat:
				return scanner.TFLOATLIT, s, pos, false
			}
			return scanner.TILLEGAL, "", pos, true
		case r == '.' && mode&scanner.ScanNumberLit != 0:
			return -1, "", pos, true // a dot where only numbers are read
		}
		adv()
		s := got()
		if t, ok := punctTok[s]; ok {
			return t, s, pos, false
		}
		return scanner.TILLEGAL, s, pos, false
	}
}

// checkTokens: Ints are the read operations, repeated as needed.
func checkTokens(c *Case) Result {
	if !validUTF8(c.Src) || len(c.Ints) == 0 {
		return Result{}
	}
	src := string(c.Src)
	lex := lexer.NewLexer(strings.NewReader(src))
	lex.Error = func(*lexer.Lexer, error) {}
	sc := scanner.NewScanner(strings.NewReader(src))
	cur := &cursor{src: src, p: Pos{0, 1, 1}}
	comparing := true
	var rawText strings.Builder
	seen := map[string]bool{}
	n := 0
	var cmts []string
	for i := 0; ; i++ {
		if i > 2*len(src)+10 {
			return viol("no end of the text after %d reads", i)
		}
		op := c.Ints[i%len(c.Ints)]
		if op < 0 || op >= opReads {
			return Result{}
		}
		doRead(lex, op)
		rawText.WriteString(string(lex.RawText))
		// the scanner alone, in the same mode
		sc.Mode = readMode[op]
		stok, stext, spos, serr := sc.Scan()
		if stok != lex.Token || stext != lex.Text || spos.Position != lex.Pos.Position || rawOf(sc, lex) != string(lex.RawText) {
			return viol("%s gives token %v %q raw %q at %v, the scanner in this mode %v %q raw %q at %v", opNames[op], lex.Token, lex.Text, string(lex.RawText), cpos(lex.Pos.Position), stok, stext, rawOf(sc, lex), cpos(spos.Position))
		}
		if serr != nil && (stok != scanner.TILLEGAL || noError(lex)) {
			return viol("%s: the scanner fails with %v and token %v, the lexer knows of no error: %v", opNames[op], serr, stok, noError(lex))
		}
		for _, c := range prefixComments(string(lex.RawText)) {
			cmts = append(cmts, c)
		}
		if comparing {
			tok, text, pos, stop := refScan(cur, readMode[op])
			if tok == -1 || stop && tok == 0 && text == "" && !malformed(src, pos.Off) {
				comparing = false // open spelling
			} else if stop {
				if lex.Token != scanner.TILLEGAL {
					return viol("%s at %v: the malformed literal is read as token %v %q", opNames[op], pos, lex.Token, lex.Text)
				}
				if noError(lex) {
					return viol("%s at %v: no error is recorded for the malformed literal", opNames[op], pos)
				}
				seen["malformed"] = true
				n++
				comparing = false
			} else {
				if lex.Token != tok || lex.Text != text || cpos(lex.Pos.Position) != pos {
					return viol("%s gives token %v %q at %v, want token %v %q at %v", opNames[op], lex.Token, lex.Text, cpos(lex.Pos.Position), tok, text, pos)
				}
				// a line comment takes its line end along
				if tok != scanner.TILLEGAL && !strings.HasSuffix(strings.TrimSuffix(string(lex.RawText), "\n"), text) {
					return viol("%s: the raw text %q does not end with the text %q", opNames[op], string(lex.RawText), text)
				}
				seen[fmt.Sprintf("token %d", tok)] = true
				n++
			}
		}
		if lex.Token == scanner.TEOF {
			if !lex.IsEOF() {
				return viol("IsEOF is false at the end")
			}
			break
		}
	}
	if raw := rawText.String(); raw != src {
		return viol("the raw texts give %q, the text is %q", raw, src)
	}
	if s, ok := any(sc).(scannedComments); ok {
		all := s.GetScannedComments()
		if len(all) != len(cmts) {
			return viol("the scanner knows %d comments, %d were read", len(all), len(cmts))
		}
		for i := range all {
			if all[i].Literal != cmts[i] {
				return viol("the scanner knows %q as comment %d, read was %q", all[i].Literal, i, cmts[i])
			}
		}
	}
	var tags []string
	for k := range seen {
		tags = append(tags, k)
	}
	return Result{NT: n >= 3, Tags: tags}
}

// malformed tells whether the literal at the offset is malformed in a way that
// the specification settles.
func malformed(src string, off int) bool {
	s := src[off:]
	if strings.HasPrefix(s, "/") {
		return true
	}
	c := &cursor{src: src, p: Pos{off, 1, 1}}
	adv := func() { c.next() }
	if s[0] == '"' || s[0] == '\'' {
		ok, unspec := scanString(c, adv)
		return !ok && !unspec
	}
	k, unspec := scanNumber(c, adv)
	return k == KIllegal && !unspec
}

// lexemes draws a text made of lexemes.
func (r R) lexemes(max int) string {
	g := &gen{R: r, cfg: GenCfg{}, style: r.n(4)}
	var b strings.Builder
	prev := ""
	for k := 1 + r.n(max); k > 0; k-- {
		s := ""
		switch r.w(8, 8, 8, 8, 8, 4, 4, 4, 3, 2, 1) {
		case 0:
			s = g.ident()
		case 1:
			s = g.intLit()
		case 2:
			s = g.floatLit()
		case 3:
			s = g.strLit()
		case 4:
			s = r.pick(poolPunct)
		case 5:
			s = r.blockComment()
		case 6:
			s = r.lineComment() + "\n"
		case 7:
			s = r.pick(keywordIdents)
		case 8:
			s = r.pick(poolBad)
		case 9:
			s = r.pick([]string{"0x", "0X", "1e", "1e+", "1.5e-", "0.", ".5", "5.", "00", "0", "0e1", "'", `"`, `"a`, "'a\n'", "/*", "/", "/* *", "/**", "//", "1.e", ".e1", "0xg", "truex", "inf1", "nan_", "\\", `'\''`, `"\""`, `"\\"`, "''", `""`})
		case 10:
			s = r.pick(caseVariants)
		}
		if needSpace(prev, s) && !r.p(4) || r.p(30) {
			if r.p(80) {
				b.WriteString(r.ws())
			} else {
				b.WriteString(" ")
			}
		}
		b.WriteString(s)
		prev = s
	}
	if r.p(40) {
		b.WriteString(r.ws())
	}
	return b.String()
}

func init() {
	register(&Prop{
		ID: "C17", Quick: 240000, Thorough: 4800000,
		Rule: "Operation histories of up to 30 lexer calls (reads in 7 modes, NextN, Peek, PeekN, ConsumeToken, UnNext, UnNextTo of several reads in reverse order, ReadConstant and the like) over generated texts of lexemes and valid or mutated sources, a few with one place blown up to kilobytes; non-trivial: something was put back and something read afterwards. Every read must give what a fresh lexer gives that performs only the reads not taken back, and FindMidComments must give every comment read or peeked at, once, at its position and in order.",
		Gen: func(r R, x *Exec) {
			var src string
			switch r.w(5, 2, 2) {
			case 0:
				src = r.lexemes(14)
			case 1, 2:
				src = r.mutated(false, 1)
				if r.p(50) {
					st := r.style()
					st.kind, st.pad = layEverywhere, 0
					src = r.render(genDoc(r, GenCfg{Size: 1, Depth: 1}).Toks, st)
				}
				if len(src) > 600 {
					src = strings.ToValidUTF8(src[:600], "")
				}
			}
			c := &Case{Src: []byte(src)}
			simple := 1
			if r.p(40) {
				simple = 0
			}
			for k := 2 + r.n(28); k > 0; k-- {
				op, arg := r.n(opReads), 0
				switch r.w(12, 2, 2, 3, 6, 5, simple, 3*simple) {
				case 1:
					op = opPeek
				case 2:
					op, arg = opPeekN, r.n(5)
				case 3:
					op, arg = opConsume, r.n(150)
				case 4:
					op = opUnNext
				case 5:
					op, arg = opUnNextTo, r.n(4)
				case 6:
					op, arg = opNextN, r.n(3)
				case 7:
					op = opConstPermissive + r.n(5)
				}
				c.Ints = append(c.Ints, op, arg)
			}
			x.Do(r.scaledKB(c, 4))
		},
		Check: checkHistory,
	})
	register(&Prop{
		ID: "C18", Quick: 600000, Thorough: 12000000,
		Rule: "Texts of legal and malformed lexemes of every class, glued or separated by white space, read to the end in one fixed mode or a random sequence of modes; a few with one place blown up (to kilobytes or megabytes); non-trivial: at least three tokens compared. Token, text and position of every read must be the reference scanner's (up to the first malformed literal, which must be illegal, or spelling left open), raw texts must concatenate to the text, and the scanner driven without the lexer must give the same and remember the comments it read.",
		Gen: func(r R, x *Exec) {
			var src string
			if r.p(85) {
				src = r.lexemes(12)
			} else {
				src = r.mutateText(r.mutated(false, 1))
				if len(src) > 500 {
					src = strings.ToValidUTF8(src[:500], "")
				}
			}
			c := &Case{Src: []byte(src)}
			n := 1
			if r.p(50) {
				n = 2 + r.n(6)
			}
			for ; n > 0; n-- {
				c.Ints = append(c.Ints, r.n(opReads))
			}
			x.Do(r.scaled(c, 2))
		},
		Check: checkTokens,
	})
}
