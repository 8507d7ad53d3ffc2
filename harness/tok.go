package main

// An independent tokenizer for .proto sources, written from the language
// specification. It never calls into the library under test.

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Pos is a source position: 0-based byte offset, 1-based line and column (in characters).
type Pos struct{ Off, Line, Col int }

type TK int

const (
	KEOF TK = iota
	KIdent
	KInt
	KFloat
	KStr
	KPunct
	KIllegal
)

func (k TK) String() string {
	return [...]string{"EOF", "ident", "int", "float", "string", "punct", "illegal"}[k]
}

// Cmt is a comment with the positions of its first and last character.
type Cmt struct {
	Raw         string
	Start, Last Pos
}

// Tok is a significant token.
type Tok struct {
	K           TK
	S           string
	Start, Last Pos // positions of the first and of the last character
	End         Pos // position behind the last character
	Cmts        []Cmt
	Unspec      bool // the specification leaves the spelling open (09, 1a, "\q")
}

type cursor struct {
	src string
	p   Pos
}

func (c *cursor) eof() bool { return c.p.Off >= len(c.src) }
func (c *cursor) peek() rune {
	if c.eof() {
		return -1
	}
	r, _ := utf8.DecodeRuneInString(c.src[c.p.Off:])
	return r
}
func (c *cursor) peekAt(n int) byte {
	if c.p.Off+n >= len(c.src) {
		return 0
	}
	return c.src[c.p.Off+n]
}
func (c *cursor) has(s string) bool { return strings.HasPrefix(c.src[c.p.Off:], s) }
func (c *cursor) next() rune {
	r, n := utf8.DecodeRuneInString(c.src[c.p.Off:])
	c.p.Off += n
	if r == '\n' {
		c.p.Line++
		c.p.Col = 1
	} else {
		c.p.Col++
	}
	return r
}

// posTable maps byte offsets of a text to positions.
type posTable struct {
	src   string
	lines []int
}

func newPosTable(src string) *posTable {
	t := &posTable{src: src, lines: []int{0}}
	for i := 0; i < len(src); i++ {
		if src[i] == '\n' {
			t.lines = append(t.lines, i+1)
		}
	}
	return t
}

func (t *posTable) at(off int) Pos {
	lo, hi := 0, len(t.lines)
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if t.lines[m] <= off {
			lo = m
		} else {
			hi = m
		}
	}
	return Pos{off, lo + 1, utf8.RuneCountInString(t.src[t.lines[lo]:off]) + 1}
}

func isLetterR(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
func isDigitR(r rune) bool  { return r >= '0' && r <= '9' }
func isOctR(r rune) bool    { return r >= '0' && r <= '7' }
func isHexR(r rune) bool {
	return isDigitR(r) || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F'
}
func isIdentR(r rune) bool { return isLetterR(r) || isDigitR(r) || r == '_' }

const punctSet = ";:=(){}[]<>,.-+"

const bom = "\ufeff"

// tokenize splits a valid UTF-8 text into significant tokens; the last one is KEOF.
// Comments are attached to the token they precede.
func tokenize(src string) []Tok {
	c := &cursor{src: src, p: Pos{0, 1, 1}}
	var toks []Tok
	if c.has(bom) {
		c.next()
	}
	var cmts []Cmt
	emit := func(k TK, start, last Pos, unspec bool) {
		toks = append(toks, Tok{K: k, S: src[start.Off:c.p.Off], Start: start, Last: last, End: c.p, Cmts: cmts, Unspec: unspec})
		cmts = nil
	}
	for {
		for !c.eof() && unicode.IsSpace(c.peek()) {
			c.next()
		}
		start := c.p
		if c.eof() {
			emit(KEOF, start, start, false)
			return toks
		}
		r := c.peek()
		last := start
		adv := func() { last = c.p; c.next() }
		switch {
		case r == '/':
			if c.has("//") {
				for !c.eof() && c.peek() != '\n' {
					adv()
				}
				cmts = append(cmts, Cmt{src[start.Off:c.p.Off], start, last})
				continue
			}
			if c.has("/*") {
				end := strings.Index(src[c.p.Off+2:], "*/")
				stop := len(src)
				if end >= 0 {
					stop = c.p.Off + 2 + end + 2
				}
				for c.p.Off < stop {
					adv()
				}
				if end < 0 {
					emit(KIllegal, start, last, false)
					continue
				}
				cmts = append(cmts, Cmt{src[start.Off:c.p.Off], start, last})
				continue
			}
			adv()
			emit(KIllegal, start, last, false)
		case isLetterR(r) || r == '_':
			for !c.eof() && isIdentR(c.peek()) {
				adv()
			}
			// The specification has no leading underscore, but every parser takes it.
			emit(KIdent, start, last, false)
		case isDigitR(r) || r == '.' && isDigitR(rune(c.peekAt(1))):
			k, unspec := scanNumber(c, adv)
			emit(k, start, last, unspec)
		case r == '"' || r == '\'':
			ok, unspec := scanString(c, adv)
			k := KStr
			if !ok {
				k = KIllegal
			}
			emit(k, start, last, unspec)
		case r < 128 && strings.ContainsRune(punctSet, r):
			adv()
			emit(KPunct, start, last, false)
		default:
			adv()
			emit(KIllegal, start, last, false)
		}
	}
}

func scanNumber(c *cursor, adv func()) (TK, bool) {
	unspec := false
	finish := func(k TK) (TK, bool) {
		// A number glued to a letter, digit or another dot has no specified reading.
		if n := c.peek(); isIdentR(n) || n == '.' {
			unspec = true
		}
		return k, unspec
	}
	if c.peek() == '0' && (c.peekAt(1) == 'x' || c.peekAt(1) == 'X') {
		adv()
		adv()
		if !isHexR(c.peek()) {
			return KIllegal, false
		}
		for isHexR(c.peek()) {
			adv()
		}
		return finish(KInt)
	}
	begin := c.p.Off
	for isDigitR(c.peek()) {
		adv()
	}
	digits := c.src[begin:c.p.Off]
	float := false
	if c.peek() == '.' {
		float = true
		adv()
		for isDigitR(c.peek()) {
			adv()
		}
	}
	if c.peek() == 'e' || c.peek() == 'E' {
		float = true
		adv()
		if c.peek() == '+' || c.peek() == '-' {
			adv()
		}
		if !isDigitR(c.peek()) {
			return KIllegal, len(digits) > 1 && digits[0] == '0'
		}
		for isDigitR(c.peek()) {
			adv()
		}
	}
	if len(digits) > 1 && digits[0] == '0' {
		if float || strings.ContainsAny(digits, "89") {
			unspec = true
		}
	}
	if float {
		return finish(KFloat)
	}
	return finish(KInt)
}

func scanString(c *cursor, adv func()) (ok, unspec bool) {
	q := c.peek()
	adv()
	for {
		r := c.peek()
		switch {
		case r == -1 || r == '\n' || r == 0:
			return false, unspec
		case r == q:
			adv()
			return true, unspec
		case r == '\\':
			adv()
			e := c.peek()
			switch {
			case e == 'x' || e == 'X':
				adv()
				if !isHexR(c.peek()) {
					unspec = true
				}
				for i := 0; i < 2 && isHexR(c.peek()); i++ {
					adv()
				}
			case isOctR(e):
				for i := 0; i < 3 && isOctR(c.peek()); i++ {
					adv()
				}
			case e == 'u' || e == 'U':
				adv()
				n := 4
				if e == 'U' {
					n = 8
				}
				for ; n > 0 && isHexR(c.peek()); n-- {
					adv()
				}
				if n > 0 {
					unspec = true
				}
			case e != -1 && strings.ContainsRune(`abfnrtv\'"`, e):
				adv()
			default:
				unspec = true
			}
		default:
			adv()
		}
	}
}

// decodeString gives the value a string literal denotes.
func decodeString(lit string) (string, bool) {
	if len(lit) < 2 || lit[0] != lit[len(lit)-1] || (lit[0] != '"' && lit[0] != '\'') {
		return "", false
	}
	q := lit[0]
	body := lit[1 : len(lit)-1]
	var b strings.Builder
	for i := 0; i < len(body); {
		ch := body[i]
		if ch == q || ch == '\n' || ch == 0 {
			return "", false
		}
		if ch != '\\' {
			b.WriteByte(ch)
			i++
			continue
		}
		i++
		if i >= len(body) {
			return "", false
		}
		e := body[i]
		switch {
		case e == 'x' || e == 'X':
			i++
			v, n := 0, 0
			for n < 2 && i < len(body) && isHexR(rune(body[i])) {
				v = v*16 + hexVal(body[i])
				i++
				n++
			}
			if n == 0 {
				return "", false
			}
			b.WriteByte(byte(v))
		case isOctR(rune(e)):
			v, n := 0, 0
			for n < 3 && i < len(body) && isOctR(rune(body[i])) {
				v = v*8 + int(body[i]-'0')
				i++
				n++
			}
			b.WriteByte(byte(v))
		case e == 'u' || e == 'U': // taken as it is
			n := 5
			if e == 'U' {
				n = 9
			}
			if len(body)-i < n {
				return "", false
			}
			for _, h := range body[i+1 : i+n] {
				if !isHexR(h) {
					return "", false
				}
			}
			b.WriteString(`\` + body[i:i+n])
			i += n
		default:
			k := strings.IndexByte(`abfnrtv\'"`, e)
			if k < 0 {
				return "", false
			}
			b.WriteByte("\a\b\f\n\r\t\v\\'\""[k])
			i++
		}
	}
	return b.String(), true
}

func hexVal(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	}
	return int(b-'A') + 10
}

// needSpace tells whether two token texts may not be glued together.
func needSpace(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, y := rune(a[len(a)-1]), rune(b[0])
	num := isDigitR(rune(a[0])) || a[0] == '.' && len(a) > 1
	if isIdentR(x) && isIdentR(y) {
		return true
	}
	if num && (isIdentR(y) || y == '.' || y == '+' || y == '-') {
		return true
	}
	if isIdentR(x) && y == '.' && len(b) > 1 {
		return true
	}
	if x == '.' && (isDigitR(y) || y == '.') {
		return true
	}
	if x == '/' && (y == '/' || y == '*') {
		return true
	}
	return false
}
