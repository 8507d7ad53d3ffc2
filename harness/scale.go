package main

// Scale: a generated source blown up by repeating one place of it. The
// repetition is kept apart from the text (Fill), so that cases stay small to
// store, print and shrink.

import (
	"bytes"
	"sort"
	"strings"
)

// Fill repeats Unit N times at offset At of a text of the case: of Src when In
// is 0, else of Strs[In-1].
type Fill struct {
	In   int    `json:"in,omitempty"`
	At   int    `json:"at"`
	Unit []byte `json:"unit"`
	N    int    `json:"n"`
}

func fillText(s []byte, in int, fills []Fill) []byte {
	var fs []Fill
	n := len(s)
	for _, f := range fills {
		if f.In == in && f.N > 0 {
			if f.At > len(s) {
				f.At = len(s)
			}
			fs = append(fs, f)
			n += f.N * len(f.Unit)
		}
	}
	if len(fs) == 0 {
		return s
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].At < fs[j].At })
	out := make([]byte, 0, n)
	at := 0
	for _, f := range fs {
		out = append(out, s[at:f.At]...)
		out = append(out, bytes.Repeat(f.Unit, f.N)...)
		at = f.At
	}
	return append(out, s[at:]...)
}

// expand returns the case with its fills applied.
func (c *Case) expand() *Case {
	if len(c.Fills) == 0 {
		return c
	}
	e := *c
	e.Fills = nil
	e.Src = fillText(c.Src, 0, c.Fills)
	e.Strs = nil
	for i, s := range c.Strs {
		e.Strs = append(e.Strs, fillText(s, i+1, c.Fills))
	}
	return &e
}

// cut moves the fills after the bytes [at, at+n) of a text were removed.
func cutFills(fills []Fill, in, at, n int) []Fill {
	out := append([]Fill{}, fills...)
	for i := range out {
		if f := &out[i]; f.In == in && f.At > at {
			if f.At -= n; f.At < at {
				f.At = at
			}
		}
	}
	return out
}

// times draws a repetition count of a unit, spread over the magnitudes up to
// max bytes; one in four sits next to a power of two or of ten of bytes.
func (r R) times(unit, max int) int {
	if max > 1<<20 { // the largest: spread over 64 KB to max
		k := 1 << 16
		for k < max/2 && r.n(6) > 0 {
			k *= 2
		}
		n := (k + r.n(k)) / unit
		if n*unit > max {
			n = max / unit
		}
		return n
	}
	limit := max / unit
	if limit < 2 {
		return 2
	}
	if r.p(25) {
		var round []int
		for k := 1; k <= max; k *= 2 {
			if k/unit >= 2 {
				round = append(round, k)
			}
		}
		for k := 10; k <= max; k *= 10 {
			if k/unit >= 2 {
				round = append(round, k)
			}
		}
		if len(round) > 0 {
			n := round[r.n(len(round))]/unit + r.n(5) - 2
			if n >= 2 {
				return n
			}
		}
	}
	bits := 1
	for 2<<bits <= limit {
		bits++
	}
	n := 2 + r.bits(1+r.n(bits+1))
	if n > limit {
		n = limit
	}
	return n
}

func fillBytes(fills []Fill) int {
	n := 0
	for _, f := range fills {
		n += len(f.Unit) * f.N
	}
	return n
}

// nestings are deep structures: prefix, opening unit, middle, closing unit, suffix.
var nestings = [][5]string{
	{"", "message M {\n", "", "}\n", ""},
	{"", "message M {\n", "int32 a = 1; // c\n", "}\n", "int32 b = 2;"},
	{"", "message M {\n", "", "};\n", ""},
	{"", "message M { enum E { A = 0; }\n", "oneof o { int32 a = 1; }", "int32 b = 1; }\n", ""},
	{"optional group G = 1 {", "optional group G = 1 {\n", "", "}\n", "}"},
	{"message M {", "repeated group G = 1 {\n", "int32 x = 2;", "}\n", "}"},
	{"option a = ", "{ a: ", "1", " }", ";"},
	{"option a = {", " a {", "", "}", "};"},
	{"option a = {", " a { b: 1 ", "c: \"x\"", ", d: [1] }", "};"},
	{"option a = {", " a <", "", ">", "};"},
	{"option a = ", "[", "1", "]", ";"},
	{"option a = ", "[{a: ", "1", "}, 2]", ";"},
	{"int32 f = 1 [(o) = ", "{ a: ", "1", " }", "];"},
	{"rpc R (A) returns (B) { option a = ", "{ a: ", "1", " }", "; }"},
	{"A = 1 [a = ", "{ a: ", "1", " }", "];"},
}

// shortStmts are complete statements of all bodies.
var shortStmts = []string{
	";", "message M {}", "message M {};", "message M { ; }", "message M {} // c", "message M { /* c */ };",
	"enum E { A = 0; }", "enum E { A = 0; };", "enum E {};", "service S {}", "service S {};", "service S { rpc R (A) returns (B) {} };",
	"extend M {}", "extend M {};", "extend M { optional int32 a = 1; };", "option a = 1;", "option (a.b) = { c: 1 };", "import \"a\";", "package a;", "import public 'b'; // c",
	"int32 a = 1;", "repeated .a.B a = 1 [b = 1];", "map<int32, A> a = 1;", "oneof o { int32 a = 1; }", "oneof o { int32 a = 1; };", "oneof o {};", "oneof o { option a = 1; int32 b = 2; }",
	"reserved 1;", "reserved \"a\";", "extensions 1 to max;", "optional group G = 1 {}", "optional group G = 1 {};", "repeated group G = 1 { ; };",
	"A = 1;", "A = -1 [deprecated = true];", "rpc R (A) returns (B);", "rpc R (stream A) returns (stream B) {}", "rpc R (A) returns (B) {};", "rpc R (A) returns (B) { option a = 1; };", "// c", "/* c */",
}

// listEntries are entries of lists, by the token behind which (opening ones) or before which they are put.
var listEntries = map[string][]string{
	"[": {"a = 1, ", "(a.b) = {c: 1},\n", "1, ", "\"x\", ", "{a: 1},", "declaration = {number: 1},\n", "declaration = {full_name: \".a.B\" type: \"c\" repeated: true}, "},
	"]": {", b = 2", ",\n(b).c = \"d\" // e\n", ", 2", ", a.b", ", [1]", ",declaration={number:1,reserved:true}"},
	";": {", 5", ", 1 to 2", ", 7 to max", ", \"x\"", ",\n'y' // z\n", " \"s\"", " 's'\n", ".b", "\n.c", ", d"},
	")": {".b", ".\nc"},
	"(": {"a."},
	"=": {".b", ".(c)", ".(d.e)"},
	"}": {", a: 1", " a: 1\n", " a {}", "; b: \"x\"", ",c:[1]", " \"s\""},
	"{": {" a: 1,", " a: 1\n", " a {}", " b: 'x';"},
	",": {", 5", ", \"x\"", ", a = 1", " \"s\"", ".b", ", 1 to 2"},
}

// scaleFills draws fills for the text s (number in) of a case. What is
// repeated is chosen so that the reference accepts few repetitions; nil when
// no such place was found.
func (r R) scaleFills(s string, in int, strict, huge, gap bool) ([]Fill, string) {
	toks := tokenize(s)
	n := len(toks) - 1
	if n < 2 || len(s) > 20000 {
		return nil, ""
	}
	valid := refParse(s, strict, false).V == Accept
	ok := func(fs []Fill) bool {
		for k := 1; k <= 2; k++ {
			g := append([]Fill{}, fs...)
			for i := range g {
				if g[i].N > 2 {
					g[i].N = k
				}
			}
			t := string(fillText([]byte(s), in, g))
			if !valid { // nothing to compare with: keep the text lexically sane
				ts := tokenize(t)
				return len(ts) >= len(toks)
			}
			if refParse(t, strict, false).V != Accept {
				return false
			}
		}
		return true
	}
	if gap || huge || r.p(25) {
		// white space or comments in front of a token or the end
		i := r.n(n + 1)
		at := toks[i].Start.Off
		if i == n {
			at = len(s)
		}
		kind := r.w(4, 2, 1, 2, 2, 2, 2)
		max := 1 << 17
		if huge {
			kind = r.w(6, 2, 0, 3, 0, 2)
			max = 9 << 20
		}
		one := func(unit string) []Fill { return []Fill{{in, at, []byte(unit), r.times(len(unit), max)}} }
		around := func(pre, unit, post string) []Fill {
			return []Fill{{in, at, []byte(pre), 1}, {in, at, []byte(unit), r.times(len(unit), max)}, {in, at, []byte(post), 1}}
		}
		var fs []Fill
		what := "blanks"
		switch kind {
		case 0:
			fs = one(r.pick([]string{" ", "\t", " \t", "    "}))
		case 1:
			fs = one(r.pick([]string{"\r", "\v", "\f\t"}))
		case 2:
			fs = one(r.pick([]string{"\n", "\r\n", "  \n"}))
		case 3:
			what = "long comment"
			fs = around("/*", r.pick([]string{"x", "é", " *", "//", "日本", "😀"}), r.pick([]string{"*/", "*/", "**/", " 日*/", "\n*/"}))
		case 4:
			what = "long comment"
			fs = around("/*", r.pick([]string{"\n", " * x\n", "\r\n"}), "*/")
		case 5:
			what = "long comment"
			fs = around("//", r.pick([]string{"x", "é", " /*", "\t", "日", "😀"}), r.pick([]string{"\n", "\n", "日\n", " 😀\n", "\r\n", "*/\n", "é\n"}))
		case 6:
			what = "many comments"
			fs = one(r.pick([]string{"/*c*/", "//c\n", "/* é */\n", "//\n\n", "/**/", "\n//x\r\n"}))
		}
		if ok(fs) {
			return fs, what
		}
		return nil, ""
	}
	budget := 1 << 16
	if r.p(20) {
		budget = 1 << 18
	}
	kind := r.w(4, 3, 2, 2, 3, 4, 4)
	for try := 0; try < 40; try++ {
		if try > 0 && try%10 == 0 {
			kind = r.w(4, 3, 2, 2, 3, 4, 4)
		}
		switch kind {
		case 0: // a run of tokens that ends a statement
			i := r.n(n)
			if i > 0 && !boundaryTok(toks[i-1].S) {
				continue
			}
			depth := 0
			for j := i; j < n; j++ {
				switch toks[j].S {
				case "{":
					depth++
				case "}":
					depth--
				}
				if depth < 0 {
					break
				}
				if depth == 0 && (toks[j].S == ";" || toks[j].S == "}") {
					if toks[j].S == "}" && r.p(50) && j+1 < n && toks[j+1].S == ";" {
						j++
					}
					unit := s[toks[i].Start.Off:toks[j].End.Off] + "\n"
					fs := []Fill{{in, toks[i].Start.Off, []byte(unit), r.times(len(unit), budget)}}
					if ok(fs) {
						return fs, "many statements"
					}
					break
				}
			}
		case 1: // a short run of tokens
			i := r.n(n)
			j := i + 1 + r.n(6)
			if j > n {
				j = n
			}
			unit := s[toks[i].Start.Off:toks[j].Start.Off]
			if j == n {
				unit = s[toks[i].Start.Off:toks[j-1].End.Off] + "\n"
			}
			fs := []Fill{{in, toks[i].Start.Off, []byte(unit), r.times(len(unit), budget)}}
			if ok(fs) {
				return fs, "many parts"
			}
		case 2: // a nested structure
			open := r.n(n)
			b := strings.Index("{[(<", toks[open].S)
			if len(toks[open].S) != 1 || b < 0 {
				continue
			}
			depth, cl := 0, -1
			for j := open; j < n; j++ {
				if toks[j].S == "{[(<"[b:b+1] {
					depth++
				}
				if toks[j].S == "}])>"[b:b+1] {
					if depth--; depth == 0 {
						cl = j
						break
					}
				}
			}
			if cl < 0 {
				continue
			}
			i := open - r.n(5)
			if i < 0 {
				i = 0
			}
			head := s[toks[i].Start.Off:toks[open].End.Off] + "\n"
			tail := "\n" + s[toks[cl].Start.Off:toks[cl].End.Off] + "\n"
			if r.p(20) {
				tail += ";\n"
			}
			k := r.times(len(head)+len(tail), 1<<15)
			if k > 1000 {
				k = 1000
			}
			fs := []Fill{{in, toks[i].Start.Off, []byte(head), k}, {in, toks[cl].End.Off, []byte(tail), k}}
			if ok(fs) {
				return fs, "deep nesting"
			}
		case 4: // a nested structure of its own, between two statements
			i := r.n(n + 1)
			if i > 0 && !boundaryTok(toks[i-1].S) {
				continue
			}
			at := len(s)
			if i < n {
				at = toks[i].Start.Off
			}
			t := nestings[r.n(len(nestings))]
			k := r.times(len(t[1])+len(t[3]), 1<<15)
			if k > 1000 {
				k = 1000
			}
			fs := []Fill{{in, at, []byte(t[0]), 1}, {in, at, []byte(t[1]), k}, {in, at, []byte(t[2]), 1}, {in, at, []byte(t[3]), k}, {in, at, []byte(t[4]), 1}}
			if ok(fs) {
				return fs, "deep nesting"
			}
		case 5: // many short statements, between two statements
			i := r.n(n + 1)
			if i > 0 && !boundaryTok(toks[i-1].S) {
				continue
			}
			at := len(s)
			if i < n {
				at = toks[i].Start.Off
			}
			unit := shortStmts[r.n(len(shortStmts))] + "\n"
			fs := []Fill{{in, at, []byte(unit), r.times(len(unit), budget)}}
			if ok(fs) {
				return fs, "many short statements"
			}
		case 6: // entries of a list
			i := r.n(n)
			units := listEntries[toks[i].S]
			if len(units) == 0 {
				continue
			}
			unit := r.pick(units)
			at := toks[i].Start.Off
			if toks[i].S == "[" || toks[i].S == "{" || toks[i].S == "(" {
				at = toks[i].End.Off
			}
			fs := []Fill{{in, at, []byte(unit), r.times(len(unit), budget)}}
			if ok(fs) {
				return fs, "many entries"
			}
		case 3: // the inside of a token
			i := r.n(n)
			t := toks[i]
			unit := ""
			at := t.Start.Off + 1
			switch t.K {
			case KStr:
				unit = r.pick([]string{"a", "é", " ", "\\n", "\\\\", "//", "/*", "日本"})
			case KIdent:
				unit = r.pick([]string{"a", "_", "Z9", "0"})
			case KInt:
				unit = r.pick([]string{"0", "7"})
				at = t.End.Off
			}
			if unit == "" {
				continue
			}
			fs := []Fill{{in, at, []byte(unit), r.times(len(unit), budget)}}
			if ok(fs) {
				return fs, "long token"
			}
		}
	}
	return nil, ""
}

// scaled blows up the text of a case in a few cases: perMille of them with
// repeated parts, and three in a hundred of these with up to
// 9 MB of white space or comments.
func (r R) scaled(c *Case, perMille int) *Case { return r.scale(c, perMille, 3, false) }

// scaledKB stays below the megabytes.
func (r R) scaledKB(c *Case, perMille int) *Case { return r.scale(c, perMille, 0, false) }

// scaledGap blows up only white space and comments between tokens.
func (r R) scaledGap(c *Case, perMille int) *Case { return r.scale(c, perMille, 3, true) }

func (r R) scale(c *Case, perMille, bigPct int, gap bool) *Case {
	if r.n(1000) >= 1000-perMille {
		in, s := 0, c.Src
		if len(c.Strs) > 0 {
			in = 1 + r.n(len(c.Strs))
			s = c.Strs[in-1]
		}
		if !validUTF8(s) {
			return c
		}
		fs, what := r.scaleFills(string(s), in, c.Strict, r.p(bigPct), gap)
		if len(fs) > 0 {
			c.Fills = fs
			c.Scale = what
			for i := len(fs) - 1; i >= 0; i-- {
				if fs[i].N*len(fs[i].Unit) > 1<<20 {
					c.Scale = what + ", megabytes"
				}
			}
		}
	}
	return c
}
