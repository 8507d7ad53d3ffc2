package main

// Checks about robustness, readers, truncation, determinism and options.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"syscall"
	"unicode/utf8"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func (r R) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.bits(8))
	}
	return b
}

// soup draws a sequence of tokens without structure.
func (r R) soup() string {
	var toks []string
	for k := r.n(40); k > 0; k-- {
		toks = append(toks, r.poolTok(nil))
	}
	return r.render(toks, r.style())
}

func (r R) anySource() (string, []byte) {
	switch r.w(2, 2, 6, 4, 3) {
	case 0:
		return "bytes", r.bytes(r.n(60))
	case 1:
		return "soup", []byte(r.soup())
	case 2:
		return "mutated", []byte(r.mutated(r.p(30), 2))
	case 3: // raw bytes inside a valid source
		b := []byte(r.mutated(r.p(30), 1))
		if len(b) > 0 {
			i := r.n(len(b))
			bad := [][]byte{{0xff}, {0xc3}, {0}, {0xe2, 0x82}, {0xed, 0xa0, 0x80}, {0xf4, 0x90, 0x80, 0x80}, {0xef, 0xbb, 0xbf}, {'\\'}, {'"'}, {'/'}}[r.n(10)]
			b = append(append(append([]byte{}, b[:i]...), bad...), b[i:]...)
		}
		return "broken bytes", b
	}
	d := genDoc(r, GenCfg{Size: 2, Depth: 2})
	src := r.render(d.Toks, r.style())
	if len(src) > 0 {
		src = src[:r.n(len(src)+1)]
	}
	return "cut", []byte(src)
}

type nopVisitor struct{ n int }

func (v *nopVisitor) VisitComment(*parser.Comment)                     { v.n++ }
func (v *nopVisitor) VisitDeclaration(*parser.Declaration) (next bool) { v.n++; return true }
func (v *nopVisitor) VisitEdition(*parser.Edition) (next bool)         { v.n++; return true }
func (v *nopVisitor) VisitEmptyStatement(*parser.EmptyStatement) bool  { v.n++; return true }
func (v *nopVisitor) VisitEnum(*parser.Enum) (next bool)               { v.n++; return true }
func (v *nopVisitor) VisitEnumField(*parser.EnumField) (next bool)     { v.n++; return true }
func (v *nopVisitor) VisitExtend(*parser.Extend) (next bool)           { v.n++; return true }
func (v *nopVisitor) VisitExtensions(*parser.Extensions) (next bool)   { v.n++; return true }
func (v *nopVisitor) VisitField(*parser.Field) (next bool)             { v.n++; return true }
func (v *nopVisitor) VisitGroupField(*parser.GroupField) (next bool)   { v.n++; return true }
func (v *nopVisitor) VisitImport(*parser.Import) (next bool)           { v.n++; return true }
func (v *nopVisitor) VisitMapField(*parser.MapField) (next bool)       { v.n++; return true }
func (v *nopVisitor) VisitMessage(*parser.Message) (next bool)         { v.n++; return true }
func (v *nopVisitor) VisitOneof(*parser.Oneof) (next bool)             { v.n++; return true }
func (v *nopVisitor) VisitOneofField(*parser.OneofField) (next bool)   { v.n++; return true }
func (v *nopVisitor) VisitOption(*parser.Option) (next bool)           { v.n++; return true }
func (v *nopVisitor) VisitPackage(*parser.Package) (next bool)         { v.n++; return true }
func (v *nopVisitor) VisitReserved(*parser.Reserved) (next bool)       { v.n++; return true }
func (v *nopVisitor) VisitRPC(*parser.RPC) (next bool)                 { v.n++; return true }
func (v *nopVisitor) VisitService(*parser.Service) (next bool)         { v.n++; return true }
func (v *nopVisitor) VisitSyntax(*parser.Syntax) (next bool)           { v.n++; return true }

func checkRobust(c *Case) Result {
	tree, err := libParse(c.Src, c.opts())
	if (tree == nil) == (err == nil) {
		return viol("tree present: %v, error: %v", tree != nil, err)
	}
	tags := []string{c.Kind}
	if err != nil {
		_ = err.Error()
		return Result{NT: len(c.Src) > 0, Tags: append(tags, "rejected")}
	}
	if tree.Meta == nil {
		return viol("the tree has no metadata")
	}
	if s := nilIn(reflect.ValueOf(tree), "tree", 0); s != "" {
		return viol("%s", s)
	}
	tree.Accept(&nopVisitor{})
	u, uerr := protoparser.UnorderedInterpret(tree)
	if uerr == nil {
		if u == nil {
			return viol("the unordered view is nil without an error")
		}
		if s := nilIn(reflect.ValueOf(u), "unordered", 0); s != "" {
			return viol("%s", s)
		}
		if _, err := json.Marshal(u); err != nil {
			return viol("encoding the unordered view: %v", err)
		}
	}
	if _, err := json.Marshal(tree); err != nil {
		return viol("encoding the tree: %v", err)
	}
	return Result{NT: len(c.Src) > 0, Tags: append(tags, "accepted")}
}

// faultReader delivers data in chunks and then fails.
type faultReader struct {
	data   []byte
	chunk  int
	err    error
	withN  bool // report the error together with the last data
	sticky bool
	failed int
	then   []byte // delivered after a non-sticky failure
}

func (f *faultReader) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		if f.err == nil {
			return 0, io.EOF
		}
		if f.failed > 0 && !f.sticky {
			if len(f.then) > 0 {
				n := copy(p, f.then)
				f.then = f.then[n:]
				return n, nil
			}
			return 0, io.EOF
		}
		f.failed++
		return 0, f.err
	}
	n := len(f.data)
	if f.chunk > 0 && n > f.chunk {
		n = f.chunk
	}
	n = copy(p[:min(n, len(p))], f.data)
	f.data = f.data[n:]
	if len(f.data) == 0 && f.withN {
		if f.err == nil {
			return n, io.EOF
		}
		f.failed++
		return n, f.err
	}
	return n, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// stuckReader delivers data and then returns nothing for ever.
type stuckReader struct{ data []byte }

func (s *stuckReader) Read(p []byte) (int, error) {
	n := copy(p, s.data)
	s.data = s.data[n:]
	return n, nil
}

type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

var readErrs = []error{errors.New("disk failure"), io.ErrUnexpectedEOF, io.ErrClosedPipe, tempErr{}, errors.New("EOF"), io.ErrNoProgress, errors.New(""),
	fmt.Errorf("read: %w", io.EOF), fmt.Errorf("read: %w", io.ErrUnexpectedEOF), os.ErrClosed, os.ErrNotExist, context.Canceled, context.DeadlineExceeded,
	bufio.ErrBufferFull, bufio.ErrNegativeCount, io.ErrShortBuffer, syscall.EINTR, syscall.EAGAIN, &os.PathError{Op: "read", Path: "x", Err: syscall.EIO},
	&meta.Error{Found: "x", Expected: "y"}, &meta.Error{}}

// faultOffsets samples the offsets at which a source fails or is cut: all of
// them, or about 250, or fewer when the source is large.
func faultOffsets(n, phase int) []int {
	step := 1
	if n > 500 {
		step = 1 + n/250
	}
	if n > 16<<10 {
		step = 1 + n/(4+(1<<19)/n)
	}
	var out []int
	for off := phase % step; off <= n; off += step {
		out = append(out, off)
	}
	if n > 4096 { // where buffers end
		for k := 4096; k <= n && k <= 1<<20; k *= 4 {
			out = append(out, k)
		}
		out = append(out, n)
	}
	return out
}

// methodReader is a failing reader with the further methods that some code
// looks for.
type methodReader struct{ *faultReader }

func (m methodReader) Len() int     { return len(m.data) }
func (m methodReader) Close() error { return nil }

func (m methodReader) WriteTo(w io.Writer) (n int64, err error) {
	b := make([]byte, 512)
	for {
		k, err := m.Read(b)
		l, werr := w.Write(b[:k])
		n += int64(l)
		if err == nil {
			err = werr
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (m methodReader) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		if n, err := m.Read(b[:]); n == 1 {
			return b[0], nil
		} else if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

// failingReader wraps a failing reader into something else that fails.
func failingReader(kind int, f *faultReader) (rd io.Reader, done func()) {
	done = func() {}
	switch kind % 10 {
	case 0:
		rd = bufio.NewReader(f)
	case 1:
		rd = bufio.NewReaderSize(f, 64<<10)
	case 2:
		rd = io.MultiReader(f, strings.NewReader(""))
	case 3:
		rd = io.LimitReader(f, 1<<40)
	case 4:
		rd = io.TeeReader(f, io.Discard)
	case 5:
		pr, pw := io.Pipe()
		go func() {
			_, err := io.Copy(pw, f)
			pw.CloseWithError(err)
		}()
		rd, done = pr, func() { pr.Close() }
	case 6:
		rd = methodReader{f}
	default:
		rd = f
	}
	return rd, done
}

func checkFaults(c *Case) Result {
	if len(c.Ints) < 4 {
		return Result{}
	}
	kind, chunk, variant := readErrs[c.Ints[0]%len(readErrs)], c.Ints[1], c.Ints[2]
	base, berr := libParse(c.Src, c.opts())
	n, nt := 0, 0
	for _, off := range faultOffsets(len(c.Src), c.Ints[3]) {
		f := &faultReader{data: c.Src[:off], chunk: chunk, err: kind, withN: variant&1 != 0, sticky: variant&2 == 0}
		if variant&4 != 0 {
			f.then = c.Src[off:]
		}
		n++
		rd, done := failingReader(off+c.Ints[1]+c.Ints[3], f)
		tree, err := libParseReader(rd, c.opts())
		done()
		if err == nil {
			return viol("the reader (%T) failed with %q at byte %d of %d (variant %d, chunks of %d), but parsing succeeds", rd, kind, off, len(c.Src), variant, chunk)
		}
		if tree != nil {
			return viol("a tree comes with the error %v", err)
		}
		if p, e := libParse(c.Src[:off], c.opts()); e == nil && p != nil {
			nt++
		}
	}
	// readers that do not fail
	for v := 0; v < 2; v++ {
		tree, err := libParseReader(&faultReader{data: c.Src, chunk: chunk, withN: v == 1}, c.opts())
		if (err == nil) != (berr == nil) || !sameExported(tree, base) {
			return viol("a reader without failure does not give the normal result: %v, normally %v", err, berr)
		}
	}
	if off := c.Ints[3]; off < len(c.Src) {
		if _, err := libParseReader(&stuckReader{data: c.Src[:off]}, c.opts()); err == nil {
			return viol("a reader that stops delivering at byte %d is taken for the end of the file", off)
		}
	}
	tags := []string{"rejected source"}
	if berr == nil {
		tags = []string{"accepted source"}
	}
	if nt > 0 {
		tags = append(tags, "some prefix is valid by itself")
	}
	return Result{NT: nt > 0, N: n, NTN: nt, Tags: tags}
}

func checkCuts(c *Case) Result {
	if !validUTF8(c.Src) {
		return Result{}
	}
	src := string(c.Src)
	ref := refParse(src, c.Strict, false)
	if ref.V != Accept {
		return Result{}
	}
	full, err := libParse(c.Src, c.opts())
	if err != nil || full == nil {
		return viol("a source of the grammar is rejected: %v", err)
	}
	cut := map[int]bool{}
	note := func(from, to int) {
		for k := from; k <= to; k++ {
			cut[k] = true
		}
	}
	// statements: from behind the first character up to before the last required one
	i := 0
	for i < len(ref.Toks)-1 {
		depth, j := 0, i
		for ; ; j++ {
			s := ref.Toks[j].S
			if ref.Toks[j].K == KPunct {
				switch s {
				case "{":
					depth++
				case "}":
					depth--
				}
			}
			if depth == 0 && ref.Toks[j].K == KPunct && (s == ";" || s == "}" && !inValue(ref.Toks[i].S)) {
				break
			}
			if j >= len(ref.Toks)-2 {
				break
			}
		}
		note(ref.Toks[i].Start.Off+1, ref.Toks[j].Start.Off)
		i = j + 1
		if !c.Strict && ref.Toks[j].S == "}" && i < len(ref.Toks) && ref.Toks[i].K == KPunct && ref.Toks[i].S == ";" {
			i++
		}
	}
	for _, t := range ref.Toks {
		for _, cm := range t.Cmts {
			if strings.HasPrefix(cm.Raw, "/*") {
				note(cm.Start.Off+1, cm.Last.Off)
			}
		}
	}
	n := 0
	step := 1
	if len(cut) > 600 {
		step = 1 + len(cut)/300
	}
	if len(src) > 16<<10 {
		step = 1 + len(cut)/(4+(1<<19)/len(src))
	}
	k := 0
	for off := 1; off < len(src); off++ {
		if !cut[off] {
			continue
		}
		k++
		if step > 1 && k%step != 0 {
			continue
		}
		n++
		if tree, err := libParse(c.Src[:off], c.opts()); err == nil || tree != nil {
			return viol("the source cut at byte %d is accepted (tree: %v, error: %v): %q", off, tree != nil, err, tail(src[:off], 60))
		}
	}
	return Result{NT: n > 0, N: n, NTN: n, Tags: tagsOf(ref.Root)}
}

func inValue(first string) bool {
	return first == "option" || first == "import" || first == "package" || first == "syntax" || first == "edition"
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// chunkReader delivers data in the given chunk sizes (0 is an empty read).
type chunkReader struct {
	data  []byte
	sizes []int
	i     int
	eofN  bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(c.data)
	if len(c.sizes) > 0 {
		n = c.sizes[c.i%len(c.sizes)]
		c.i++
		if n == 0 && c.i%len(c.sizes) == 0 {
			n = 1
		}
	}
	n = copy(p[:min(min(n, len(c.data)), len(p))], c.data)
	c.data = c.data[n:]
	if c.eofN && len(c.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// namedReader has the methods of other common readers.
type namedReader struct {
	*bytes.Reader
}

func (namedReader) Name() string                    { return "named.proto" }
func (namedReader) String() string                  { return "message X {}" }
func (namedReader) Close() error                    { return errors.New("cannot close") }
func (namedReader) ReadString(byte) (string, error) { return "", errors.New("not this way") }

const readerKinds = 12

// typedReader delivers data by a reader of the given type, whatever else it can do.
func typedReader(kind int, data []byte, sizes []int) (rd io.Reader, done func()) {
	done = func() {}
	switch kind {
	case 0:
		rd = strings.NewReader(string(data))
	case 1:
		rd = bytes.NewBuffer(append([]byte{}, data...))
	case 2:
		rd = bytes.NewReader(data)
	case 3:
		rd = bufio.NewReaderSize(&chunkReader{data: data, sizes: sizes}, 16)
	case 4:
		rd = bufio.NewReaderSize(bytes.NewReader(data), 64<<10)
	case 5: // a buffered reader from which something was read before
		br := bufio.NewReader(io.MultiReader(strings.NewReader("junk é"), bytes.NewReader(data)))
		if _, err := br.Discard(len("junk é")); err != nil {
			panic(harnessError(err.Error()))
		}
		rd = br
	case 6: // a file, positioned behind something else
		f, err := os.CreateTemp("", "delivery*.proto")
		if err != nil {
			panic(harnessError(err.Error()))
		}
		if _, err := f.Write(append([]byte("junk"), data...)); err != nil {
			panic(harnessError(err.Error()))
		}
		if _, err := f.Seek(4, io.SeekStart); err != nil {
			panic(harnessError(err.Error()))
		}
		rd = f
		done = func() { f.Close(); os.Remove(f.Name()) }
	case 7:
		pr, pw := io.Pipe()
		go func() {
			_, err := io.Copy(pw, &chunkReader{data: data, sizes: sizes})
			pw.CloseWithError(err)
		}()
		rd = pr
		done = func() { pr.Close() }
	case 8:
		rd = io.LimitReader(io.MultiReader(bytes.NewReader(data), strings.NewReader("message X {")), int64(len(data)))
	case 9:
		h := len(data) / 2
		rd = io.MultiReader(bytes.NewReader(data[:h]), strings.NewReader(""), bytes.NewReader(data[h:]))
	case 10:
		rd = io.NewSectionReader(bytes.NewReader(append(append([]byte("junk"), data...), "junk"...)), 4, int64(len(data)))
	default:
		rd = namedReader{bytes.NewReader(data)}
	}
	return rd, done
}

func sameResult(ta, tb *parser.Proto, ea, eb error) string {
	if (ea == nil) != (eb == nil) {
		return fmt.Sprintf("error %v / %v", ea, eb)
	}
	if ea != nil {
		if ea.Error() != eb.Error() {
			return fmt.Sprintf("different errors: %v / %v", ea, eb)
		}
		var ma, mb *meta.Error
		if errors.As(ea, &ma) != errors.As(eb, &mb) || ma != nil && ma.Pos != mb.Pos {
			return fmt.Sprintf("different error positions: %v / %v", ea, eb)
		}
		return ""
	}
	if !sameExported(ta, tb) {
		d := diff(convProto(ta), convProto(tb), Proj{true, true, true, true}, "")
		return "different trees: " + d
	}
	return ""
}

func caseOpts(bits int) libOpts {
	o := libOpts{strict: bits&1 != 0, body: bits&2 != 0, debug: bits&4 != 0}
	if bits&8 != 0 {
		o.file = "x.proto"
	}
	if bits&16 != 0 {
		o.file = "other/yy.proto"
	}
	return o
}

// freshDigests parses the sources of the case in a process of their own and
// returns what came out of each.
func freshDigests(c *Case, order string) ([]string, error) {
	in, err := json.Marshal(c)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self(), "digest", order)
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	var l []string
	if err == nil {
		err = json.Unmarshal(out, &l)
	}
	if err == nil && len(l) != len(c.Strs) {
		err = fmt.Errorf("digest process: %d answers for %d sources", len(l), len(c.Strs))
	}
	return l, err
}

// digest is the process behind freshDigests.
func digest(order string) int {
	var c Case
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		fatalf("digest: %v", err)
	}
	out := make([]string, len(c.Strs))
	for j := range c.Strs {
		i := j
		if order == "backward" {
			i = len(c.Strs) - 1 - j
		}
		t, e := libParse(c.Strs[i], caseOpts(c.Ints[i]))
		if e != nil {
			out[i] = "error: " + e.Error()
			continue
		}
		b, err := json.Marshal(t)
		if err != nil {
			fatalf("digest: %v", err)
		}
		out[i] = fmt.Sprintf("tree %x", sha256.Sum256(b))
		if len(b) < 100000 {
			out[i] = "tree " + string(b)
		}
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		return 1
	}
	return 0
}

func firstDifference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 40 {
		a, b = a[i-40:], b[i-40:]
	}
	return fmt.Sprintf("%.120q / %.120q", a, b)
}

// sibling spells the tokens of a source another way: the other quotes, other
// case, other digits, with most of the tokens kept.
func (r R) sibling(toks []string) []string {
	out := append([]string(nil), toks...)
	how := r.n(4)
	for i, t := range out {
		switch {
		case t == "":
		case (t[0] == '"' || t[0] == '\'') && len(t) >= 2 && !strings.ContainsAny(t[1:len(t)-1], "\"'\\"):
			if how == 0 || r.p(30) {
				q := "\""
				if t[0] == '"' {
					q = "'"
				}
				out[i] = q + t[1:len(t)-1] + q
			}
		case t[0] >= '1' && t[0] <= '9':
			if how == 1 && r.p(50) {
				out[i] = fmt.Sprint(1 + r.n(99))
			}
		case t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z':
			if how == 2 && r.p(10) {
				out[i] = r.varyCase(t)
			}
		}
	}
	return out
}

// checkDelivery: Strs are sources, Ints[0..len) their options, the rest are chunk sizes.
func checkDelivery(c *Case) Result {
	k := len(c.Strs)
	if len(c.Ints) <= k || k == 0 {
		return Result{}
	}
	sizes := c.Ints[k:]
	type res struct {
		t *parser.Proto
		e error
	}
	var first []res
	var tags []string
	for i, s := range c.Strs {
		t, e := libParse(s, caseOpts(c.Ints[i]))
		first = append(first, res{t, e})
	}
	rounds := 2
	for _, s := range c.Strs {
		if len(s) > 1<<20 {
			rounds = 1
		}
	}
	for round := 0; round < rounds; round++ {
		for j := range c.Strs {
			i := j
			if round == 1 {
				i = k - 1 - j
			}
			t, e := libParse(c.Strs[i], caseOpts(c.Ints[i]))
			if d := sameResult(first[i].t, t, first[i].e, e); d != "" {
				return viol("parsing source %d again after others gives another result: %s", i, d)
			}
			t, e = libParseReader(&chunkReader{data: c.Strs[i], sizes: sizes, eofN: round == 1}, caseOpts(c.Ints[i]))
			if d := sameResult(first[i].t, t, first[i].e, e); d != "" {
				return viol("source %d delivered in chunks %v gives another result: %s", i, sizes, d)
			}
		}
		i := (round + len(c.Strs[0])) % k
		kind := (sizes[0] + len(c.Strs[i]) + 7*round) % readerKinds
		rd, done := typedReader(kind, c.Strs[i], sizes)
		t, e := libParseReader(rd, caseOpts(c.Ints[i]))
		done()
		if d := sameResult(first[i].t, t, first[i].e, e); d != "" {
			return viol("source %d read from a %T gives another result: %s", i, rd, d)
		}
		tags = append(tags, fmt.Sprintf("%T", rd))
	}
	if c.Kind == "fresh" {
		a, ea := freshDigests(c, "forward")
		b, eb := freshDigests(c, "backward")
		if ea == nil && eb == nil {
			for i := range a {
				if a[i] != b[i] {
					return viol("source %d gives another result when the sources are parsed in the opposite order in a fresh process: %s", i, firstDifference(a[i], b[i]))
				}
			}
			tags = append(tags, "both orders in fresh processes")
		} else {
			tags = append(tags, "fresh process failed")
		}
	}
	acc := 0
	for _, r := range first {
		if r.e == nil {
			acc++
		}
	}
	multi := false
	for _, s := range c.Strs {
		multi = multi || utf8.RuneCount(s) != len(s)
	}
	tags = append(tags, fmt.Sprintf("%d sources, %d accepted", k, acc))
	if multi {
		tags = append(tags, "multi-byte")
	}
	return Result{NT: acc > 0, N: 4*k + 2, NTN: 1, Tags: tags}
}

// eraseFile checks the file name of every position below v and clears it.
func eraseFile(v reflect.Value, want string) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return eraseFile(v.Elem(), want)
	case reflect.Struct:
		if p, ok := v.Addr().Interface().(*meta.Position); ok {
			if p.Filename != want && *p != (meta.Position{}) {
				return fmt.Sprintf("position %v has file name %q, want %q", *p, p.Filename, want)
			}
			p.Filename = ""
			return ""
		}
		if p, ok := v.Addr().Interface().(*parser.ProtoMeta); ok {
			if p.Filename != want {
				return fmt.Sprintf("the metadata have file name %q, want %q", p.Filename, want)
			}
			p.Filename = ""
			return ""
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			if s := eraseFile(v.Field(i), want); s != "" {
				return s
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if s := eraseFile(v.Index(i), want); s != "" {
				return s
			}
		}
	}
	return ""
}

var visiteeSlice = reflect.TypeOf([]parser.Visitee(nil))

// dropBodyComments removes comment elements from all bodies and returns how many.
func dropBodyComments(v reflect.Value) int {
	n := 0
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return dropBodyComments(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			n += dropBodyComments(v.Field(i))
		}
	case reflect.Slice:
		if v.Type() == visiteeSlice {
			var keep []parser.Visitee
			for _, e := range v.Interface().([]parser.Visitee) {
				if _, ok := e.(*parser.Comment); ok {
					n++
					continue
				}
				keep = append(keep, e)
			}
			v.Set(reflect.ValueOf(keep))
		}
		for i := 0; i < v.Len(); i++ {
			n += dropBodyComments(v.Index(i))
		}
	}
	return n
}

func errPos(err error) (meta.Position, bool) {
	var m *meta.Error
	if errors.As(err, &m) {
		return m.Pos, true
	}
	return meta.Position{}, false
}

func checkOptions(c *Case) Result {
	base := libOpts{strict: c.Strict}
	full := libOpts{strict: c.Strict, body: c.Body, debug: c.Debug, file: c.File}
	pb, eb := libParse(c.Src, base)
	pf, ef := libParse(c.Src, full)
	if (eb == nil) != (ef == nil) {
		return viol("options %+v decide about acceptance: %v, without them %v", full, ef, eb)
	}
	if eb != nil {
		a, oka := errPos(eb)
		b, okb := errPos(ef)
		if oka != okb || oka && (a.Offset != b.Offset || a.Line != b.Line || a.Column != b.Column) {
			return viol("options %+v change the error position: %v, without them %v", full, ef, eb)
		}
		if okb && b.Filename != c.File {
			return viol("the error position has file name %q, want %q", b.Filename, c.File)
		}
		return Result{NT: len(c.Src) > 0, Tags: []string{"rejected"}}
	}
	tags := []string{"accepted"}
	if s := eraseFile(reflect.ValueOf(pb).Elem(), ""); s != "" {
		return viol("without file name: %s", s)
	}
	if s := eraseFile(reflect.ValueOf(pf).Elem(), c.File); s != "" {
		return viol("with file name %q: %s", c.File, s)
	}
	if k := dropBodyComments(reflect.ValueOf(pb).Elem()); k > 0 {
		return viol("%d comments are body elements although body comments are off", k)
	}
	if c.Body {
		if k := dropBodyComments(reflect.ValueOf(pf).Elem()); k > 0 {
			tags = append(tags, "has body comments")
		}
	}
	// nil and empty bodies are the same
	dropBodyComments(reflect.ValueOf(pf).Elem())
	if !sameExported(pb, pf) {
		return viol("options %+v change the tree: %s", full, diff(convProto(pb), convProto(pf), Proj{true, true, true, true}, ""))
	}
	return Result{NT: len(c.Src) > 0, Tags: tags}
}

var fileNames = []string{"a.proto", "/abs/path é.proto", "<input>", "x", "C:\\\\dir\\f.proto", "../a/./b.proto", "a b\tc\n", "%d%s%!", "a.txt", ".", "-", "\xff\xfe", "a:1:2", "\x00", " ", "", "", "", "a%20b.proto", "%%.proto", "a.proto:1:1", "<input>:1:1"}

func (r R) fileName() string {
	f := fileNames[r.n(len(fileNames))]
	if r.p(5) {
		f = strings.Repeat(f, 1+r.n(600))
	}
	return f
}

func init() {
	register(&Prop{
		ID: "C06", Quick: 120000, Thorough: 2400000,
		Rule: "Random bytes, token soup, mutated valid sources, valid sources with invalid UTF-8 or NUL bytes spliced in, and cut sources, with random options (strict, debug, body comments, file name); a few with one place blown up (to kilobytes or megabytes); non-trivial: not empty. Parsing must end without panic with exactly one of tree and error; visiting, unordered view and JSON encoding of a tree must work; no nil elements.",
		Gen: func(r R, x *Exec) {
			for k := 3; k > 0; k-- {
				kind, src := r.anySource()
				x.Do(r.scaled(&Case{Kind: kind, Src: src, Strict: r.p(30), Body: r.p(40), Debug: r.p(15), File: []string{"", "f.proto"}[r.n(2)]}, 3))
			}
		},
		Check: checkRobust,
	})
	register(&Prop{
		ID: "C07", Level: "fault_enumeration", Quick: 1600, Thorough: 32000, HangSec: 60,
		Rule: sourceNote + ", each with a reader that fails at every byte offset (evenly sampled beyond 500 bytes) with one of 21 error values (some wrapping io.EOF); a few with one place blown up, in chunks, with or without data in the failing call, sticky or once, followed by the rest or by end of file, plainly or through buffered, joined, limited, teeing, piped and self-writing readers; non-trivial: a failing offset at which what was delivered is a valid source by itself. Every run must return an error and no tree; failure-free readers must give the normal result.",
		Gen: func(r R, x *Exec) {
			strict := r.p(25)
			var src string
			if r.p(90) {
				d := genDoc(r, GenCfg{Strict: strict, Size: 2, Depth: 2})
				st := r.style()
				if r.p(90) {
					st.pad = 0
				}
				src = r.render(d.Toks, st)
			} else {
				src = r.mutated(strict, 1)
			}
			x.Do(r.scaledKB(&Case{Src: []byte(src), Strict: strict, Body: r.p(30), Ints: []int{r.n(len(readErrs)), []int{0, 1, 2, 7, 64, 4096}[r.n(6)], r.n(8), r.n(64)}}, 15))
		},
		Check: checkFaults,
	})
	register(&Prop{
		ID: "C08", Level: "fault_enumeration", Quick: 3400, Thorough: 68000, HangSec: 60,
		Rule: sourceNote + ", cut at every byte strictly inside a top-level statement or a block comment (evenly sampled beyond 600 cut points); a few with one place blown up (to kilobytes); every cut is non-trivial. Parsing each prefix must return an error.",
		Gen: func(r R, x *Exec) {
			strict := r.p(25)
			d := genDoc(r, GenCfg{Strict: strict, Size: []int{0, 1, 3}[r.n(3)], Depth: 3})
			st := r.style()
			if r.p(95) {
				st.pad = 0
			}
			src := r.render(d.Toks, st)
			selfCheck(d, src, strict)
			x.Do(r.scaledKB(&Case{Src: []byte(src), Strict: strict, Body: r.p(30)}, 10))
		},
		Check: checkCuts,
	})
	register(&Prop{
		ID: "C09", Quick: 18000, Thorough: 360000, HangSec: 60,
		Rule: "Histories of 1-5 sources (valid, mutated, cut, broken bytes) with random options per source, each parsed several times in different orders and delivered in random chunk sizes including empty reads, single bytes, chunks around 4096 bytes, data together with end of file, and through 12 reader types (files, pipes, buffered, limited, joined readers, one with further methods); some histories hold a near-copy of a source (other quotes, case or digits), and a tenth are parsed in both orders in two fresh processes; a few with one place blown up (to kilobytes or megabytes); non-trivial: at least one source is accepted. All results of a source must be identical.",
		Gen: func(r R, x *Exec) {
			c := &Case{}
			for k := 1 + r.n(5); k > 0; k-- {
				if r.p(60) {
					d := genDoc(r, GenCfg{Strict: r.p(20), Size: 2, Depth: 2})
					c.Strs = append(c.Strs, []byte(r.render(d.Toks, r.style())))
					if r.p(25) {
						// Another source with nearly the same tokens.
						c.Ints = append(c.Ints, r.n(32))
						c.Strs = append(c.Strs, []byte(r.render(r.sibling(d.Toks), r.style())))
					}
				} else {
					_, s := r.anySource()
					c.Strs = append(c.Strs, s)
				}
				c.Ints = append(c.Ints, r.n(32))
			}
			if r.p(10) {
				c.Kind = "fresh"
			}
			for k := 1 + r.n(6); k > 0; k-- {
				c.Ints = append(c.Ints, []int{0, 1, 1, 2, 3, 5, 16, 100, 4095, 4096, 4097}[r.n(11)])
			}
			x.Do(r.scaled(c, 8))
		},
		Check: checkDelivery,
	})
	register(&Prop{
		ID: "C11", Quick: 90000, Thorough: 1800000,
		Rule: "Any source (valid, mutated, soup, cut, broken bytes), parsed plainly and with a random combination of file name, debug and body comments, in strict or permissive mode; a few with one place blown up (to kilobytes or megabytes); non-trivial: not empty. Acceptance and error position must agree; the trees must be equal after checking and clearing the file name of every position and dropping comment elements from bodies.",
		Gen: func(r R, x *Exec) {
			strict := r.p(30)
			var src []byte
			if r.p(70) {
				_, s := r.doc(strict, 3)
				src = []byte(s)
			} else {
				_, src = r.anySource()
			}
			m := 1 + r.n(7)
			c := &Case{Src: src, Strict: strict, Body: m&1 != 0, Debug: m&2 != 0}
			if m&4 != 0 {
				c.File = r.fileName()
			}
			x.Do(r.scaled(c, 8))
		},
		Check: checkOptions,
	})
}
