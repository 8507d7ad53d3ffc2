package main

// Layout: puts random white space and comments between tokens.

import "strings"

type layStyle struct {
	kind    int
	crlf    bool
	bom     bool
	pad     int // length of an extra first comment
	noFinal bool
	gaps    int // percent of gaps that get a comment in the random styles
}

const (
	layMinimal = iota
	laySingle
	layPretty
	layRandom
	layBoundary
	layEverywhere
	layLines
	layKinds
)

func (r R) style() layStyle {
	s := layStyle{kind: r.w(2, 2, 3, 2, 6, 3, 2), gaps: 5 + r.n(60)}
	s.crlf = r.p(12)
	s.bom = r.p(8)
	s.noFinal = r.p(30)
	if r.p(6) {
		s.pad = 1 + r.n(60)
		if r.p(60) {
			s.pad = 4096 - r.n(120)
		}
	}
	return s
}

var cmtPieces = []string{"", " ", "c", " TODO: fix", " é", " 日本語", " 😀 ok", `"quoted"`, "'", ";", "{", "}", " a\tb", "//", " // nested", "\\", "\\n", " */x", " */", "*/", "/*", "@x", "*", "**", " * ", "---", "\u00a0", "\ufeff", "message A {}", "\r", "\u0085", "\u2028", " e\u0301", "\u200d", "\u202e", "%s", "\u2029//", "\x01", "\x7f", "/", "!", "<", "#", "+", "-", "=", ":", "?", "$", " trailing  ", "\t", " @deprecated", " @exclude", " buf:lint:ignore ENUM_ZERO", " protolint:disable:next MAX_LINE", "nolint", "go:generate x", "+build a", " -*- mode: proto -*-", " Copyright 2020 x. All rights reserved.", " ====", " ------", " [#next-free-field: 4]", " syntax = \"proto3\";", " option a = 1;", " reserved 1;", " }", " FIXME", " https://x.y/z?a=b#c", " (1)", " a, b", "1", " end"}

func (r R) lineComment() string {
	s := "//"
	for k := r.w(2, 4, 2, 1); k > 0; k-- {
		s += r.pick(cmtPieces)
	}
	return s
}

func (r R) blockComment() string {
	s := ""
	for k := r.w(2, 4, 2, 1); k > 0; k-- {
		switch r.w(5, 2) {
		case 0:
			s += r.pick(cmtPieces)
		case 1:
			s += []string{"\n", "\n * ", "\r\n", "\n\n", "\n// x\n"}[r.n(5)]
		}
	}
	s = strings.ReplaceAll(s, "*/", "* /")
	return "/*" + s + "*/"
}

var wsPieces = []string{" ", "  ", "\t", "\n", "\r\n", "\n\n", "\v", "\f", "\n\t", "   \n  ", "\r"}

func (r R) ws() string {
	s := ""
	for k := 1 + r.w(6, 2, 1); k > 0; k-- {
		s += r.pick(wsPieces)
	}
	return s
}

func (s layStyle) nl() string {
	if s.crlf {
		return "\r\n"
	}
	return "\n"
}

func boundaryTok(t string) bool { return t == "" || t == ";" || t == "{" || t == "}" }

// gap makes the text between the tokens a and b ("" at the ends of the file).
func (r R) gap(s layStyle, a, b string, depth int) string {
	last := b == ""
	sep := ""
	if needSpace(a, b) {
		sep = " "
	}
	plain := func() string {
		switch s.kind {
		case layMinimal:
			return sep
		case laySingle:
			if a == "" || last {
				return ""
			}
			return " "
		case layRandom:
			if r.p(30) {
				return sep
			}
			return r.ws()
		case layLines:
			return s.nl()
		}
		if boundaryTok(a) {
			if a == "" {
				return ""
			}
			if last {
				if s.noFinal {
					return ""
				}
				return s.nl()
			}
			if r.p(4) {
				return sep
			}
			return s.nl() + strings.Repeat("  ", depth)
		}
		if b == ";" || b == "," || b == ")" || a == "(" || b == "(" || a == "." || b == "." {
			return sep
		}
		return " "
	}
	comments := false
	switch s.kind {
	case layBoundary:
		comments = (boundaryTok(a) || (a == "," || a == "]" || a == "[") && r.p(40)) && r.p(s.gaps)
	case layEverywhere:
		comments = r.p(s.gaps)
	case layRandom:
		comments = r.p(6)
	}
	if !comments {
		return plain()
	}
	var out strings.Builder
	if r.p(50) { // same line as the token before
		if r.p(60) {
			out.WriteString([]string{" ", "", "\t", "  "}[r.n(4)])
		}
	} else {
		out.WriteString(s.nl())
		if r.p(20) {
			out.WriteString(s.nl())
		}
	}
	for k := 1 + r.w(5, 3, 2, 1); k > 0; k-- {
		if r.p(50) {
			c := r.lineComment()
			out.WriteString(c)
			if last && k == 1 && s.noFinal {
				return out.String()
			}
			out.WriteString(s.nl())
			if r.p(20) {
				out.WriteString(s.nl())
			}
			if r.p(30) {
				out.WriteString("  ")
			}
			continue
		}
		out.WriteString(r.blockComment())
		switch r.n(4) {
		case 0:
			out.WriteString(s.nl())
		case 1:
			out.WriteString(" ")
		case 2:
			out.WriteString(s.nl() + s.nl())
		}
	}
	if r.p(30) {
		out.WriteString(plain())
	}
	return out.String()
}

// render lays the tokens out.
func (r R) render(toks []string, s layStyle) string {
	return strings.Join(r.renderParts(toks, s), "")
}

// renderParts returns gap, token, gap, token, ..., gap.
func (r R) renderParts(toks []string, s layStyle) []string {
	parts := make([]string, 0, 2*len(toks)+1)
	prev := ""
	depth := 0
	first := ""
	if s.bom {
		first = bom
	}
	if s.pad > 0 {
		switch r.n(3) {
		case 0:
			first += "//" + strings.Repeat("p", s.pad) + "\n"
		case 1:
			first += "/*" + strings.Repeat("é", s.pad/2) + "*/"
		case 2:
			first += strings.Repeat(" ", s.pad)
		}
	}
	for _, t := range toks {
		if t == "}" && depth > 0 {
			depth--
		}
		parts = append(parts, first+r.gap(s, prev, t, depth), t)
		first = ""
		if t == "{" {
			depth++
		}
		prev = t
	}
	return append(parts, first+r.gap(s, prev, "", 0))
}
