package main

// Check about the cost of parsing: memory and time grow with the size, no crash.

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

// A cost case is the text Strs[0] + k*Strs[1] + Strs[2] + k*Strs[3] + Strs[4];
// Ints[0] is the size in bytes from which k follows. Kind tells the shape;
// "huge ..." texts are parsed once, the others at two sizes.

func costText(c *Case, size int) []byte {
	unit := len(c.Strs[1]) + len(c.Strs[3])
	k := size / unit
	if k < 1 {
		k = 1
	}
	return costTextN(c, k)
}

func costTextN(c *Case, k int) []byte {
	var b bytes.Buffer
	b.Write(c.Strs[0])
	b.Write(bytes.Repeat(c.Strs[1], k))
	b.Write(c.Strs[2])
	b.Write(bytes.Repeat(c.Strs[3], k))
	b.Write(c.Strs[4])
	return b.Bytes()
}

// The operations whose cost is measured.
const (
	costParse    = iota
	costReject   // the parse of the text broken at its end
	costRejectIn // the parse of the text broken behind the repetition
	costInterpret
	costVisit // with the lines of all comments
	costOps
)

var costNames = [costOps]string{"parse", "rejection", "rejection inside", "unordered view", "visit"}

// costOp returns the operation on the text, all before it done.
func costOp(c *Case, src []byte) (func() error, error) {
	o := c.opts()
	switch op := c.costOp(); op {
	case costReject, costRejectIn:
		at := len(src)
		if op == costRejectIn {
			k := (len(src) - len(c.Strs[0]) - len(c.Strs[2]) - len(c.Strs[4])) / (len(c.Strs[1]) + len(c.Strs[3]))
			at = len(c.Strs[0]) + k*len(c.Strs[1])
		}
		src = []byte(string(src[:at]) + "\n % }" + string(src[at:]))
		return func() error {
			if _, err := libParse(src, o); err != nil {
				_ = err.Error()
			}
			return nil
		}, nil
	case costInterpret, costVisit:
		tree, err := libParse(src, o)
		if err != nil {
			return nil, err
		}
		if op == costInterpret {
			return func() error {
				protoparser.UnorderedInterpret(tree) // with body comments it fails
				return nil
			}, nil
		}
		return func() error {
			tree.Accept(&lineVisitor{})
			return nil
		}, nil
	}
	return func() error {
		_, err := libParse(src, o)
		return err
	}, nil
}

// costOp returns the operation measured.
func (c *Case) costOp() int {
	if len(c.Ints) < 3 || c.Ints[2] < 0 || c.Ints[2] >= costOps {
		return costParse
	}
	return c.Ints[2]
}

type lineVisitor struct{ nopVisitor }

func (v *lineVisitor) VisitComment(c *parser.Comment) { v.n += len(c.Lines()) }

// allocated returns the bytes allocated by the operation on the text.
func allocated(c *Case, src []byte) (uint64, error) {
	f, err := costOp(c, src)
	if err != nil {
		return 0, err
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	err = f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc, err
}

// threadTime returns the processor time this thread used so far.
func threadTime() time.Duration {
	var t syscall.Timespec
	const threadClock = 3 // CLOCK_THREAD_CPUTIME_ID
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, threadClock, uintptr(unsafe.Pointer(&t)), 0); e != 0 {
		return 0
	}
	return time.Duration(t.Nano())
}

// timed returns the processor times of n times the operation on the text, in order. No garbage is collected meanwhile.
func timed(c *Case, src []byte, n int) []time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	f, err := costOp(c, src)
	if err != nil {
		return make([]time.Duration, n)
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(2 << 30))
	var ds []time.Duration
	for i := 0; i < n; i++ {
		runtime.GC()
		a := threadTime()
		f()
		ds = append(ds, threadTime()-a)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	return ds
}

const timeGrowth = 8
const timeClear = 16      // 8 is linear
const timeRatio = 36      // 64 is quadratic
const timeRatioDense = 24 // at most 16 was seen for what is linear

// timeFactor returns the growth of the processor time when the text grows by timeGrowth: the least
// time of the large text by the median of the small one's, relative to the true growth.
func timeFactor(c *Case, size, tries int) float64 {
	small, large := costText(c, size), costText(c, timeGrowth*size)
	a := timed(c, small, 2*tries+1)[tries]
	b := timed(c, large, tries)[0]
	if a < time.Millisecond/2 {
		a = time.Millisecond / 2
	}
	return float64(b) / float64(a) * timeGrowth * float64(len(small)) / float64(len(large))
}

// checkTime reports a processor time which grows with the square of the size. It is one only when
// repeated measurements at several sizes all say so.
func checkTime(c *Case, size int) Result {
	if strings.HasPrefix(c.Kind, "dense") {
		// What is far too slow shows at a quarter of the size, without running for minutes.
		slow := true
		var least float64
		for i, s := range []int{size / 4, size / 3, size / 4, size / 2} {
			f := timeFactor(c, s, 1)
			if f <= timeRatioDense {
				slow = false
				break
			}
			if i == 0 || f < least {
				least = f
			}
		}
		if slow {
			return viol("%s, %s: when a text of %d bytes grows to the %d-fold, the processor time grows by the factor %.0f", costNames[c.costOp()], c.Kind, size/4, timeGrowth, least)
		}
	}
	f := timeFactor(c, size, 1)
	tag := fmt.Sprintf("time growth below %d", 4*(int(f)/4+1))
	if f <= timeClear {
		return Result{NT: true, N: 3, Tags: []string{tag}}
	}
	least := f
	sizes, tries, ratio := []int{size, size * 3 / 2, size * 2, size}, 3, float64(timeRatio)
	if strings.HasPrefix(c.Kind, "dense") {
		sizes, tries, ratio = []int{size, size / 2 * 3, size}, 1, timeRatioDense
	}
	for _, s := range sizes {
		if f = timeFactor(c, s, tries); f < least {
			least = f
		}
		if f <= ratio {
			return Result{NT: true, N: 3, Tags: []string{tag}}
		}
	}
	return viol("%s, %s: when a text of %d bytes grows to the %d-fold, the processor time grows by the factor %.0f", costNames[c.costOp()], c.Kind, size, timeGrowth, least)
}

const costGrowth = 4
const costRatio = 6.4 // 4 is linear, 16 is quadratic

func checkCost(c *Case) Result {
	if len(c.Strs) != 5 || len(c.Ints) == 0 || len(c.Strs[1])+len(c.Strs[3]) == 0 {
		return Result{}
	}
	if _, err := libParse(costTextN(c, 3), c.opts()); err != nil {
		return Result{Tags: []string{"rejected " + c.Kind}}
	}
	size := c.Ints[0]
	if strings.HasPrefix(c.Kind, "huge") {
		src := costText(c, size)
		if _, err := libParse(src, c.opts()); err != nil {
			return viol("three repetitions are accepted, %d bytes of the same are rejected: %v", len(src), err)
		}
		return Result{NT: true, Tags: []string{c.Kind}}
	}
	if strings.HasPrefix(c.Kind, "dense") {
		t := checkTime(c, size)
		t.Tags = append(t.Tags, costNames[c.costOp()], "dense list")
		return t
	}
	growth, limit := costGrowth, costRatio
	if op := c.costOp(); op == costInterpret || op == costVisit {
		// little more than slices that grow by doubling
		growth, limit = 4*costGrowth, 10*costRatio
	}
	small, large := costText(c, size), costText(c, growth*size)
	var best float64
	for try := 0; try < 3; try++ {
		a, err := allocated(c, small)
		if err == nil {
			var b uint64
			b, err = allocated(c, large)
			// relative to the true growth of the text
			if a < 32<<10 {
				a = 32 << 10
			}
			r := float64(b) / float64(a) * float64(growth) * float64(len(small)) / float64(len(large))
			if try == 0 || r < best {
				best = r
			}
			if err == nil && best <= limit {
				res := Result{NT: true, N: 2, Tags: []string{costNames[c.costOp()], c.Kind, fmt.Sprintf("growth %.0f of %d", best, growth)}}
				if len(c.Ints) > 1 && c.Ints[1] > 0 {
					t := checkTime(c, size)
					if t.Viol != "" {
						return t
					}
					res.N += t.N
					res.Tags = append(res.Tags, t.Tags...)
				}
				return res
			}
		}
		if err != nil {
			return viol("three repetitions are accepted, %d or %d are rejected: %v", len(small), len(large), err)
		}
	}
	return viol("%s, %s: a text of %d bytes and one of %d bytes of the same form: the allocated memory grows by the factor %.1f", costNames[c.costOp()], c.Kind, len(small), len(large), best)
}

// denseUnits are the shortest units of every list there is.
var denseUnits = [][3]string{
	{"", "message A{}\n", ""}, {"", "enum A{}\n", ""}, {"", "service A{}\n", ""}, {"", "extend A{}\n", ""}, {"", "import\"\";\n", ""}, {"", "package a;\n", ""}, {"", "option a=1;\n", ""}, {"", ";\n", ""},
	{"message M{", "a b=1;\n", "}"}, {"message M{", "map<bool,a>b=1;\n", "}"}, {"message M{", "oneof o{}\n", "}"}, {"message M{", "optional group G=1{}\n", "}"}, {"message M{", "message A{}\n", "}"}, {"message M{", "enum A{}\n", "}"}, {"message M{", "extend A{}\n", "}"}, {"message M{", "option a=1;\n", "}"}, {"message M{", "reserved 1;\n", "}"}, {"message M{", "extensions 1;\n", "}"}, {"message M{", ";\n", "}"},
	{"message M{oneof o{", "a b=1;\n", "}}"}, {"message M{oneof o{", "option a=1;\n", "}}"}, {"message M{reserved 1", ",1", ";}"}, {"message M{reserved \"\"", ",\"\"", ";}"}, {"message M{extensions 1", ",1", ";}"}, {"message M{extensions 1[declaration={}", ",declaration={}", "];}"}, {"message M{a b=1[c=1", ",c=1", "];}"}, {"message M{map<bool,a>b=1[c=1", ",c=1", "];}"},
	{"enum E{", "A=1;\n", "}"}, {"enum E{", "option a=1;\n", "}"}, {"enum E{", "reserved 1;\n", "}"}, {"enum E{A=1[c=1", ",c=1", "];}"}, {"extend M{", "a b=1;\n", "}"},
	{"service S{", "rpc F(A)returns(B);\n", "}"}, {"service S{", "option a=1;\n", "}"}, {"service S{rpc F(A)returns(B){", "option a=1;\n", "}}"}, {"service S{rpc F(A)returns(B){", ";", "}}"},
	{"option a={b:1", ",b:1", "};"}, {"option a=[1", ",1", "];"}, {"option a={b{}", " b{}", "};"}, {"package a", ".a", ";"}, {"option a", ".a", "=1;"}, {"message M{a", ".a", " b=1;}"}, {"message M{", "//\n", "}"}, {"", "/**/", "message M{}"}, {"service S{rpc F(", "/**/", "A)returns(B);}"}, {"option a=\"\"", "\"\"", ";"}, {"message M{oneof o{a b=1[c=1", ",c=1", "];}}"},
}

// genDense draws a list of very many short units; the time spent on one more of them must not
// depend on how many there are.
func genDense(r R) *Case {
	u := denseUnits[r.n(len(denseUnits))]
	c := &Case{Kind: "dense list of " + strings.TrimSpace(u[1]) + " in " + u[0], Body: r.p(30)}
	c.Strs = [][]byte{[]byte(u[0]), []byte(u[1]), []byte(u[2]), nil, nil}
	c.Ints = []int{len(u[1]) * 20000, 1, r.w(24, 1, 2, 2, 1)}
	return c
}

// genCost draws a shape.
func genCost(r R, huge bool) *Case {
	c := &Case{Strict: r.p(25), Body: r.p(40), File: []string{"", "c.proto"}[r.n(2)]}
	set := func(kind, prefix, unit, mid, unit2, suffix string) {
		c.Kind = kind
		c.Strs = [][]byte{[]byte(prefix), []byte(unit), []byte(mid), []byte(unit2), []byte(suffix)}
	}
	g := &gen{R: r, cfg: GenCfg{Strict: c.Strict, Size: 2, Depth: 1}, budget: 4, style: r.n(4)}
	head := r.pick([]string{"", "syntax = \"proto2\";\n", "syntax = \"proto3\";\npackage a;\n", "edition = \"2023\";", "\ufeff", "// head\n"})
	// where a long lexical element stands
	type place struct{ pre, post string }
	comment := []place{
		{"", "\nmessage M {}"}, {"message M {", "\nint32 a = 1; }"}, {"message M { int32 a = 1; ", "\n}"}, {"enum E { A = 0; } ", "\n"},
		{"message M { int32 a = 1; ", "\n int32 b = 2; }"}, {"message M { int32 ", "\na = 1; }"}, {"message ", "\nM {}"}, {"option a = ", "\n1;"},
		{"service S { rpc ", "\nF (A) returns (B); }"}, {"service S { rpc F (", "\nA) returns (B) {} }"}, {"service S { rpc F (A) returns (B) {", "\noption a = 1; } }"}, {"service S { rpc F (A) returns (B) { option a = 1; ", "\n} }"},
		{"message M { oneof o { int32 a = 1; ", "\nint32 b = 2; } }"}, {"message M { oneof o { ", "\nint32 b = 2; } }"}, {"enum E { ", "\nA = 0; }"}, {"enum E { A = 0; ", "\n}"}, {"extend M { int32 a = 1; ", "\n}"},
		{"message M { reserved 1, ", "\n2; }"}, {"message M { extensions 1 to 2 [", "\nverification = DECLARATION]; }"}, {"import ", "\n\"a\";"}, {"package a", "\n.b;"}, {"message M { map<string, ", "\nint32> a = 1; }"}, {"message M { int32 a = 1 [", "\nb = 1]; }"}, {"message M {} ", ""},
		{"service S {", "\n}"}, {"message M { group G = 1 {", "\n} }"}, {"message M {}\n", "\n// end"}, {"message M { ; ", "\n; }"},
	}
	str := []place{
		{"option a = ", ";"}, {"import ", ";"}, {"message M { string a = 1 [default = ", "]; }"}, {"message M { reserved ", "; }"}, {"enum E { A = 0 [(a) = ", "]; }"}, {"message M { extensions 1 [declaration = {number: 1, full_name: ", "}]; }"}, {"message M { reserved \"a\", ", "; }"},
	}
	if !c.Strict {
		str = append(str, place{"option a = { a: ", " };"}, place{"option a = [", ", 1];"}, place{"service S { rpc F (A) returns (B) { option a = { a: \"x\" b { c: ", "} }; } }"})
	}
	ident := []place{
		{"message ", " {}"}, {"package ", ";"}, {"enum ", " { A = 0; }"}, {"service ", " {}"}, {"option ", " = 1;"}, {"option (", ") = 1;"}, {"message M { int32 ", " = 1; }"}, {"message M { ", " a = 1; }"}, {"message M { oneof ", " { int32 a = 1; } }"}, {"service S { rpc ", " (A) returns (B); }"}, {"service S { rpc F (", ") returns (B); }"}, {"option a = ", ";"}, {"extend ", " { int32 a = 1; }"}, {"enum E { ", " = 1; }"}, {"message M { map<int32, ", "> a = 1; }"}, {"message M { reserved ", "; }"}, {"message M { repeated group G", " = 1 {} }"},
	}
	number := []place{{"option a = ", ";"}, {"message M { int32 a = 1 [default = ", "]; }"}, {"option a = -", ";"}}
	q := r.pick([]string{`"`, "'"})
	switch kind := r.w(10, 10, 5, 3, 3, 6, 16, 8, 7, 12); kind {
	case 0: // one long comment
		p := comment[r.n(len(comment))]
		switch r.n(2) {
		case 0:
			set("long line comment", head+p.pre+"//", r.pick([]string{"x", " ab", "é", "/*", "\t", "日本 "}), p.post, "", "")
			if p.post == "" {
				c.Strs[2] = []byte(r.pick([]string{"", "\n"}))
			}
		case 1:
			set("long block comment", head+p.pre+"/*", r.pick([]string{"x", " ab\n", "é", "//", "\n", "\r\n * a", "日本 ", " *", "{"}), " */"+p.post, "", "")
		}
	case 1: // many comments
		p := comment[r.n(len(comment))]
		u := r.pick([]string{"// a\n", "/* a */", "/**/\n", "//\n", "\n// ab é\n\n", "/*\n*/ // x\n", "//a\r\n", "/* 1 */ /* 2 */\n"})
		set("many comments", head+p.pre, u, p.post, "", "")
	case 2: // one long string
		p := str[r.n(len(str))]
		other := map[string]string{`"`: "'", "'": `"`}[q]
		set("long string", head+p.pre+q, r.pick([]string{"x", "ab ", "é", "\\n", "\\\\", "\\x41", "\\101", other, "//", "\\" + q, "{", "😀"}), q+p.post, "", "")
	case 3: // many adjacent strings
		p := str[0]
		if !c.Strict && r.p(70) {
			p = str[7+r.n(len(str)-7)]
		} else if r.p(30) {
			p = str[2]
		}
		c.Strict = false
		set("adjacent strings", head+p.pre, r.pick([]string{`"" `, `"a"` + "\n", `'a"' `, `"a" 'b'` + "\n", `"a'"` + "\n// c\n"}), p.post, "", "")
	case 4: // long identifiers and numbers
		switch r.n(3) {
		case 0:
			p := ident[r.n(len(ident))]
			set("long identifier", head+p.pre+"A", r.pick([]string{"x", "_1", "Ab"}), p.post, "", "")
		case 1:
			p := []place{{"package a", ";"}, {"option a = b", ";"}, {"option (a", ") = 1;"}, {"message M { a", " a = 1; }"}, {"service S { rpc F (a", ") returns (B); }"}, {"extend a", " { int32 a = 1; }"}, {"option a", " = 1;"}}[r.n(7)]
			set("long dotted name", head+p.pre, r.pick([]string{".a", " . b1", ".\nc", "./* d */e"}), p.post, "", "")
		case 2:
			p := number[r.n(len(number))]
			pre := r.pick([]string{"1", "1.", "1e", ".5", "0x1", "01", "1.2e-"})
			set("long number", head+p.pre+pre, r.pick([]string{"1", "07"[1:], "123"}), "1"+p.post, "", "")
		}
	case 5: // white space
		p := comment[r.n(len(comment))]
		set("white space", head+p.pre, r.pick([]string{" ", "\n", "\r\n", "\t", "   \n", "\u00a0", "\u2003", "\u0085"}), p.post, "", "")
	case 6, 7, 8: // generated statements many times
		var body []string // prefix, suffix
		switch r.n(9) {
		case 0, 1, 2:
			body = []string{"", ""}
			switch r.n(8) {
			case 0:
				g.importStmt()
			case 1:
				g.e("package")
				g.dotted(noneBad)
				g.e(";")
			case 2:
				g.option()
			case 3:
				g.message(1)
			case 4:
				g.enum()
			case 5:
				g.service()
			case 6:
				g.extend()
			case 7:
				g.e(";")
			}
		case 3, 4:
			body = []string{"message M {", "}"}
			switch r.n(11) {
			case 0:
				g.field(badFieldFirst)
			case 1:
				g.mapField()
			case 2:
				g.option()
			case 3:
				g.message(1)
			case 4:
				g.enum()
			case 5:
				g.oneof()
			case 6:
				g.extend()
			case 7:
				g.e(";")
			case 8:
				g.reserved()
			case 9:
				g.extensions()
			case 10:
				g.group(1)
			}
		case 5:
			body = []string{"service S {", "}"}
			switch r.n(4) {
			case 0, 1:
				g.rpc()
			case 2:
				g.option()
			case 3:
				g.e(";")
			}
		case 6:
			body = []string{"extend M {", "}"}
			switch r.n(4) {
			case 0, 1:
				g.field(badFieldFirst)
			case 2:
				g.e("repeated")
				g.field(badFieldFirst)
			case 3:
				g.e(";")
			}
		case 7:
			body = []string{"enum E {", "}"}
			switch r.n(4) {
			case 0, 1:
				g.e(g.ident(), "=", "1", ";")
			case 2:
				g.option()
			case 3:
				g.reserved()
			}
		case 8:
			if r.p(50) {
				body = []string{"message M { oneof o {", "} }"}
				g.e("a."+g.ident(), g.ident(), "=", "1", ";")
				if r.p(50) {
					g.toks = nil
					g.option()
				}
			} else {
				body = []string{"service S { rpc F (A) returns (B) {", "} }"}
				g.option()
			}
		}
		st := r.style()
		st.bom, st.pad = false, 0
		unit := r.render(g.toks, st)
		if !strings.HasSuffix(unit, "\n") {
			unit += r.pick([]string{"\n", "\n\n", "\n// t\n"})
		}
		set("many statements", head+body[0], unit, body[1], "", "")
		c.Kind += " in " + strings.TrimSpace(strings.SplitN(body[0]+" file", " ", 2)[0])
		if len(unit) > 1500 {
			c.Kind = "many large statements"
		}
	case 9:
		switch r.w(2, 2, 2, 5, 3) {
		case 0: // lists inside one statement
			p := [][3]string{{"message M { reserved 1", ", 2 to 3", "; }"}, {"message M { reserved \"a\"", r.pick([]string{", 'b'", " ,\n\"cd\"", ", /* x */ \"b\""}), "; }"}, {"message M { extensions 1", ", 100 to max", "; }"}, {"message M { int32 a = 1 [a = 1", ", (b.c).d = \"x\"", "]; }"}, {"enum E { A = 0 [a = 1", ", (b) = -1.5", "]; }"}, {"message M { extensions 1 [a = 1", ", declaration = {number: 1 full_name: \"a\" type: \"b\" repeated: true}", "]; }"}, {"message M { oneof o { int32 a = 1 [a = 1", ", b = c.d", "]; } }"}, {"message M { map<int32, int32> a = 1 [a = 1", ", b = c.d", "]; }"}, {"enum E { reserved 1", ", -2 to max", "; }"}, {"extend M { int32 a = 1 [a=1", ",b=1", "]; }"}}[r.n(10)]
			set("list in a statement", head+p[0], p[1], p[2], "", "")
		case 1, 2: // option values
			c.Strict = false
			p := [][3]string{{"option a = [1", ", 2", "];"}, {"option a = {a: 1", r.pick([]string{", b: 2", " b: 'x'", "; b: c.d", "\nb { c: 1 }", ", b: [1, 2]", "// x\nb: 1"}), "};"}, {"option a = { a: [{a: 1}", ", {b: 2 c: 3}", "]};"}, {"message M { int32 a = 1 [(b) = {a: 1", " b: 2", "}]; }"}, {"enum E { A = 1 [(b) = {a: 1", " b: 2", "}]; }"}, {"service S { rpc F (A) returns (B) { option (c) = { a: 1", " additional_bindings { get: \"/v1\" }", "}; } }"}, {"option a = [\"\"", ", \"x\"", "];"}}[r.n(7)]
			set("option value with many entries", head+p[0], p[1], p[2], "", "")
		case 3: // nesting
			p := [][3]string{{"message M {", "", "}"}, {"message M { int32 a = 1; ", "int32 b = 2;", " }\n"}, {"// c\nmessage M { // d\n", "enum E { A = 0; }", " // e\n}"}, {"message M { option a = 1;\n/* x */ ", "", "}"}}[r.n(4)]
			set("nested messages", head, p[0], p[1], p[2], "")
			if r.p(40) {
				p = [][3]string{{"repeated group G = 1 {", "", "}"}, {"optional group G = 1 { // d\n", " int32 b = 2;", "}\n"}}[r.n(2)]
				set("nested groups", head+"message M {", p[0], p[1], p[2], "}")
			}
		case 4:
			c.Strict = false
			p := [][3]string{{"{a:", "1", "}"}, {"{a", "{}", "}"}, {"[", "1", "]"}, {"[{a: 1 b: [2, ", "1", "]}]"}, {"{ a: ", "\"x\"", ", c: 2}"}}[r.n(5)]
			set("nested option value", head+"option a = ", p[0], p[1], p[2], ";")
		}
	}
	nested := strings.HasPrefix(c.Kind, "nested")
	c.Ints = []int{(32 + r.n(48)) << 10}
	if nested {
		c.Ints[0] = (16 + r.n(16)) << 10
	}
	// whether the time is measured, and of what
	ops := []int{10, 2, 4, 2, 2}
	if nested {
		ops = []int{4, 1, 4, 1, 1}
	}
	c.Ints = append(c.Ints, r.n(2), r.w(ops...))
	if huge && !nested {
		c.Kind = "huge " + c.Kind
		c.Ints[0] = (6 + r.n(7)) << 20
		switch {
		case len(c.Strs[1]) < 4 && bytes.HasSuffix(c.Strs[1], []byte("\n")):
			c.Ints[0] = 2 << 20 // a newline costs ten times what another character does
		case strings.Contains(c.Kind, "white") && len(c.Strs[1]) == 1:
			c.Ints[0] = 14 << 20
		case strings.Contains(c.Kind, "many comments"):
			c.Ints[0] = (12 + r.n(4)) << 20
		case strings.Contains(c.Kind, "many"), strings.Contains(c.Kind, "list"), strings.Contains(c.Kind, "adjacent"):
			c.Ints[0] = 2 << 20
		}
	}
	return c
}

func init() {
	register(&Prop{
		ID: "C21", Quick: 600, Thorough: 12000, HangSec: 90, NoShrink: true,
		Rule: "Texts that repeat one unit: a character of a comment, string, identifier, number or run of white space at any place of any statement; a comment; an adjacent string; a generated statement of any kind in any body; an entry of a list or option value; a nesting level. A text of 32 to 80 KB and one four times as large: the bytes allocated by parsing it, or by rejecting it broken at its end or behind the repetition, may grow by 6.4 at most (4 is linear, 16 quadratic); those of the unordered view and the visit by 64 when the text grows to the sixteenfold. For every other text the processor time of the thread is measured at two sizes, one eight times the other; a growth by more than 36 (8 is linear, 64 quadratic) in five measurements at three sizes is a violation. One text in four is a list of 20000 and 160000 of the shortest entries, so that little work for each pair of them shows (more than 24 in four measurements at two sizes). One in 20 texts is parsed once at 2 to 15 MB, with the default limit on the stack; non-trivial: the text is accepted and measured.",
		Gen: func(r R, x *Exec) {
			if r.p(25) {
				x.Do(genDense(r))
				return
			}
			x.Do(genCost(r, r.n(20) == 19))
		},
		Check: checkCost,
	})
}
