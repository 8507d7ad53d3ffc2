package main

import "strings"

// Mutations of token lists and of texts.

var poolPunct = []string{";", ":", "=", "(", ")", "{", "}", "[", "]", "<", ">", ",", ".", "-", "+"}
var poolLits = []string{"1", "0", "07", "0x1F", "1.5", ".5", "5.", "1e3", `"s"`, `'s'`, `""`, "true", "false", "inf", "nan", "max", "to", "-1", "a.b", ".a", "2023", `"proto3"`, `"a"`, "536870911"}
var poolBad = []string{"/", "#", "@", "$", "%", "&", "!", "?", "*", "\\", "|", "~", "^", "`", "é", "0x", "1e", "1.e+", `"open`, `'open`, "\"a\nb\"", "/* open", "\x00", "\"a\x00b\"", "\ufeff", "09", "1a", "..", "日本", "٣", "a٣", "1٣", "３", "²", "½", "Ⅷ", "a²", "ａ", "\u212a", "ſ", "aé", "a\u0301", "\u200b", "\u00a0", "\u3000", "‿", "a‿b", "＝", "；", "“a”"}

// caseVariants are spellings of words that are none of the language, only identifiers.
var caseVariants = []string{"Message", "MESSAGE", "Option", "OPTION", "Syntax", "True", "TRUE", "False", "Inf", "INF", "NaN", "NAN", "Max", "MAX", "To", "TO", "Int32", "String", "Bool", "Map", "Group", "Stream", "Returns", "Rpc", "RPC", "Reserved", "Optional", "Repeated", "Public", "Weak", "Import", "Package", "Oneof", "OneOf", "Enum", "Declaration", "Number", "Full_name"}

var labelIdents = []string{"optional", "required", "repeated", "stream", "public", "weak", "group", "map", "message", "enum", "option", "oneof", "rpc", "service", "extend", "extensions", "reserved", "import", "package", "syntax", "edition", "export", "local", "to", "max", "returns", "declaration", "int32"}

// plausible are words that other schema languages or protoc give a meaning, none of which the grammar knows.
var plausible = []string{"min", "any", "void", "null", "none", "nil", "int", "uint", "float32", "float64", "int8", "int16", "uint8", "byte", "char", "long", "short", "unsigned", "signed", "decimal", "timestamp", "date", "object", "struct", "union", "interface", "class", "const", "static", "private", "protected", "internal", "include", "using", "namespace", "module", "use", "from", "until", "through", "upto", "end", "begin", "last", "first", "extends", "implements", "throws", "return", "yields", "streams", "method", "procedure", "call", "list", "set", "array", "vector", "dict", "tuple", "repeat", "require", "options", "enums", "messages", "fields", "field", "value", "key", "deprecated", "lazy", "ctype", "jstype", "retention", "targets", "features", "verified", "verification", "java_package", "go_package", "google", "protobuf", "yes", "no", "on", "off", "infinity", "Infinity", "infinite", "NULL", "plus", "minus", "proto", "proto1", "proto4", "editions", "version", "abstract", "final", "readonly", "oneof_", "one_of", "anyof", "maps", "groups", "extension", "reserve", "as", "and", "or", "not", "in", "with", "where", "is", "self", "this", "typedef", "alias", "bit", "number32", "sint", "fixed", "sfixed", "int128", "real", "text", "str", "blob", "bytes_", "boolean", "maximum", "inclusive", "exclusive", "required_", "singular", "implicit", "explicit", "unidirectional", "bidirectional", "client", "server", "async", "returning", "default_value", "reserved_range"}

// word is a word of the grammar, of the documented options or of neither.
func (r R) word() string {
	switch r.w(7, 5, 7, 1) {
	case 0:
		return r.pick(labelIdents)
	case 1:
		return r.pick(keywordIdents)
	case 2:
		return r.pick(plausible)
	}
	return r.pick(caseVariants)
}

// wordEdit inserts a word anywhere or puts it in the place of another or of a number.
func (r R) wordEdit(toks []string) []string {
	if r.p(50) {
		for k := 0; k < 8 && len(toks) > 0; k++ {
			i := r.n(len(toks))
			if isIdentR(rune(toks[i][0])) {
				out := append([]string{}, toks...)
				out[i] = r.word()
				return out
			}
		}
	}
	i := r.n(len(toks) + 1)
	return append(append(append([]string{}, toks[:i]...), r.word()), toks[i:]...)
}

// focus makes a source of little more than one statement.
func (r R) focus(strict bool) []string {
	g := &gen{R: r, cfg: GenCfg{Strict: strict, Size: 1, Depth: 1}, budget: 4, style: r.n(4)}
	kind := r.pick([]string{"option", "option", "option", "import", "package", "syntax", "edition", "enum", "service", "service", "extend", "message", "field", "field", "map", "group", "oneof", "reserved", "reserved", "extensions", "extensions"})
	inner := set("field", "map", "group", "oneof", "reserved", "extensions")[kind]
	if inner {
		g.e("message", "a", "{")
	}
	g.one(kind)
	if inner {
		g.e("}")
	}
	return g.toks
}

// starts returns the places where a statement can begin: behind ; { and }.
func starts(toks []string) []int {
	var out []int
	for i := range toks {
		if i == 0 || boundaryTok(toks[i-1]) {
			out = append(out, i)
		}
	}
	return append(out, len(toks))
}

// stmtAt returns the end of the statement that begins at i.
func stmtAt(toks []string, i int) int {
	depth := 0
	for ; i < len(toks); i++ {
		switch toks[i] {
		case "{":
			depth++
		case "}":
			if depth--; depth <= 0 {
				return i + 1
			}
		case ";":
			if depth == 0 {
				return i + 1
			}
		}
	}
	return len(toks)
}

// varyCase changes the case of letters of a word.
func (r R) varyCase(t string) string {
	switch r.n(4) {
	case 0:
		return strings.ToUpper(t)
	case 1:
		return strings.ToUpper(t[:1]) + t[1:]
	case 2:
		i := r.n(len(t))
		return t[:i] + strings.ToUpper(t[i:i+1]) + t[i+1:]
	}
	return r.pick(caseVariants)
}

func (r R) poolTok(doc []string) string {
	switch r.w(6, 4, 4, 2, 4) {
	case 0:
		return r.pick(poolPunct)
	case 1:
		return r.pick(keywordIdents)
	case 2:
		return r.pick(poolLits)
	case 3:
		return r.pick(poolBad)
	}
	if len(doc) > 0 {
		return doc[r.n(len(doc))]
	}
	return r.pick(plainIdents)
}

// mutateToks applies one token edit.
func (r R) mutateToks(toks []string) []string {
	out := append([]string{}, toks...)
	if len(out) == 0 {
		return append(out, r.poolTok(nil))
	}
	i := r.n(len(out))
	insert := func(i int, ss ...string) {
		out = append(out[:i], append(append([]string{}, ss...), out[i:]...)...)
	}
	switch r.w(20, 14, 8, 20, 8, 3, 3, 3, 3, 2, 14, 8, 10, 4, 3, 4, 1) {
	case 16: // a byte order mark, possibly behind white space
		insert(0, bom)
	case 0: // delete
		out = append(out[:i], out[i+1:]...)
	case 1: // insert
		insert(i, r.poolTok(out))
	case 2: // duplicate
		insert(i, out[i])
	case 3: // replace
		out[i] = r.poolTok(out)
	case 4: // swap with a neighbour
		if i+1 < len(out) {
			out[i], out[i+1] = out[i+1], out[i]
		} else {
			out = out[:i]
		}
	case 5: // swap with anything
		j := r.n(len(out))
		out[i], out[j] = out[j], out[i]
	case 6: // delete a run
		j := i + 1 + r.n(4)
		if j > len(out) {
			j = len(out)
		}
		out = append(out[:i], out[j:]...)
	case 7: // copy a run elsewhere
		j := i + 1 + r.n(8)
		if j > len(out) {
			j = len(out)
		}
		run := append([]string{}, out[i:j]...)
		insert(r.n(len(out)+1), run...)
	case 8: // move one token
		t := out[i]
		out = append(out[:i], out[i+1:]...)
		insert(r.n(len(out)+1), t)
	case 9: // truncate
		out = out[:i]
	case 10: // replace by something of the same class
		switch t := out[i]; {
		case isIdentR(rune(t[0])) && !isDigitR(rune(t[0])):
			out[i] = r.pick(keywordIdents)
		case isDigitR(rune(t[0])):
			out[i] = r.pick(poolLits[:8])
		case t[0] == '"' || t[0] == '\'':
			out[i] = r.pick([]string{`"a"`, `'b'`, `""`, `"proto2"`, `'2023'`, `"\n"`, `"2/23"`, `"20:3"`, `"2023 "`, `"-023"`, `"proto3 "`, `"Proto3"`, `"proto4"`, `"20234"`, `"202"`, `"２０２３"`})
		default:
			out[i] = r.pick(poolPunct)
		}
	case 11: // a word at the beginning of a statement
		at := starts(out)
		insert(at[r.n(len(at))], r.pick(labelIdents))
	case 12: // a whole statement of this or another document elsewhere
		from := out
		if r.p(50) {
			from = genDoc(r, GenCfg{Strict: r.p(30), Size: 1, Depth: 2}).Toks
			if len(from) == 0 {
				break
			}
		}
		at := starts(from)
		i := at[r.n(len(at))]
		run := append([]string{}, from[i:stmtAt(from, i)]...)
		at = starts(out)
		i = at[r.n(len(at))]
		if r.p(40) { // in place of another one
			out = append(out[:i], append(append([]string{}, run...), out[stmtAt(out, i):]...)...)
		} else {
			insert(i, run...)
		}
	case 13: // another spelling of a word
		if isIdentR(rune(out[i][0])) && !isDigitR(rune(out[i][0])) {
			out[i] = r.varyCase(out[i])
		}
	case 14: // a token with something glued to it
		if r.p(50) {
			out[i] += r.pick(poolBad)
		} else {
			out[i] = r.pick(poolBad) + out[i]
		}
	case 15: // a name of another first letter, that of a group where there is one
		for k := range out {
			if out[k] == "group" && k+1 < len(out) && r.p(50) {
				i = k + 1
			}
		}
		if isIdentR(rune(out[i][0])) && !isDigitR(rune(out[i][0])) {
			rest := out[i]
			if r.p(50) {
				rest = rest[1:]
			}
			out[i] = r.pick([]string{"_", "__", "a", "z", "A", "Z", "G", "g", "0", "9"}) + rest
		}
	}
	return out
}

// mutateText applies one edit to the characters.
func (r R) mutateText(s string) string {
	rs := []rune(s)
	chars := []rune(";:=(){}[]<>,.-+\"'/\\*aeEx0179_ \n\t\r#\x00é\ufeff@٣３²aAſ\u212a\u0301\u200b\u00a0\u2028\u0085")
	if len(rs) == 0 {
		return string(chars[r.n(len(chars))])
	}
	i := r.n(len(rs))
	switch r.n(5) {
	case 0:
		rs = append(rs[:i], rs[i+1:]...)
	case 1:
		rs[i] = chars[r.n(len(chars))]
	case 2:
		rs = append(rs[:i], append([]rune{chars[r.n(len(chars))]}, rs[i:]...)...)
	case 3:
		if i+1 < len(rs) {
			rs[i], rs[i+1] = rs[i+1], rs[i]
		}
	case 4:
		j := i + 1 + r.n(6)
		if j > len(rs) {
			j = len(rs)
		}
		rs = append(rs[:i], rs[j:]...)
	}
	return string(rs)
}
