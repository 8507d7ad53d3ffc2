import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["protoparser.Parse result"]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PB="parser/"
allp=["protoparser.go"]+[PB+x for x in "proto.go syntax.go edition.go import.go package.go option.go message.go field.go mapField.go oneof.go groupField.go enum.go extend.go extensions.go declaration.go reserved.go service.go".split()]
lex=["lexer/lexer.go","lexer/constant.go","lexer/messageType.go","lexer/fullIdent.go","lexer/emptyStatement.go","lexer/scanner/scanner.go"]
p("C01","A valid source parses to exactly the elements it declares",
 "Every source that the documented proto2/proto3/editions grammar (plus the documented permissive extensions, which are on by default) allows is parsed without error. The returned tree holds exactly the declared elements, in source order and nesting, each with exactly the names, types, labels, modifiers, numbers, ranges, stream flags, option names and option values written, and nothing else. (Group fields inside extend and oneof bodies and stream statements of proto2 services are not supported.)",
 ["inputs"],"every derivation of the grammar: any combination, order, count and nesting of statements, any identifiers including ones spelled like keywords, any legal literal, any legal white space and comments between tokens",
 "The tests parse a few dozen fixed snippets and ten files; the grammar is infinite, and mistakes live in combinations (keyword-named fields, rare literals, unusual order or nesting) that no snippet contains.",
 allp+lex,[("recursive-descent parser, one function per grammar rule","parser/*.go Parse*/parse*"),("keyword lookahead that dispatches each statement","parser/proto.go parseProtoBody, parser/message.go parseMessageBody, parser/enum.go, parser/service.go, parser/extend.go, parser/oneof.go"),("context-dependent scanning modes","lexer/lexer.go nextWithSpecificMode, lexer/scanner/scanner.go scan")])
p("C02","A source outside the grammar is rejected",
 "If a source is not derivable from the documented grammar (a required token is missing, an extra or wrong token is present, brackets or quotes do not match, a literal of the wrong kind is used), parsing it returns an error and no tree. A malformed statement is never accepted by reinterpreting it as another statement or by skipping tokens.",
 ["inputs"],"every source one or a few token edits (deletion, insertion, duplication, swap, replacement) away from a valid one, in any statement of any kind at any depth",
 "Tests hold about thirty hand-written invalid snippets; there is one way to be wrong per token position per rule, and fallbacks in the parser can turn an error into a wrong success.",
 allp+lex,[("expected-token checks that return an error","parser/*.go p.unexpected"),("fallback from field to empty statement","parser/message.go, parser/enum.go, parser/extend.go default branches"),("fallback from ranges to names","parser/reserved.go ParseReserved")],observe=["error returned by protoparser.Parse"])
p("C03","Every token of an accepted source is accounted for in the result",
 "Whenever parsing of a valid UTF-8 source succeeds, writing the returned tree back out in proto syntax gives the same sequence of significant tokens as the source, whatever that source was. Only optional punctuation (stray semicolons inside oneof and rpc bodies or after a block, commas in reserved name lists and option aggregates, splitting of adjacent string literals) may differ.",
 ["inputs"],"every accepted source, including odd ones obtained by mutating valid ones, not only those a grammar author would think of",
 "Tests compare selected fields for fixed inputs; a parser that silently drops or alters a token on some accepted input passes all of them.",
 allp+lex,[("each rule stores the text of every token it consumes in the tree","parser/*.go"),("constants are kept as text","parser/option.go parseOptionConstant, lexer/constant.go ReadConstant")])
p("C04","Comments are attached to the right element, none lost, none invented",
 "Every comment standing between statements appears exactly once in the tree, verbatim: as a leading comment of the next statement, as the inline comment of the statement or opening brace that ends on the same line, or, when it stands between an rpc's keyword and its body, as an embedded comment of that rpc. With body comments enabled the comments not claimed by a statement (before a closing brace or the end of file, or before an empty statement) appear as elements of the surrounding body, in order (the bodies of a oneof and an rpc have no such elements: comments before their closing brace or before an empty statement, and comments inside an rpc body other than the one behind its opening brace, are not kept; neither are comments in the middle of a statement that is not an rpc). No comment is attached to any other element or reported twice.",
 ["inputs","configurations"],"every placement of line and block comments (multi-line, multi-byte, empty, adjacent, several per line) around and between statements of every kind, with and without body comments",
 "Tests cover one or two comment placements per element; the attachment rule depends on line numbers, on lookahead that re-scans comments, and on every body parser repeating the same steps.",
 [PB+"comment.go",PB+"inlineComment.go",PB+"proto.go",PB+"message.go",PB+"enum.go",PB+"extend.go",PB+"service.go",PB+"oneof.go",PB+"extensions.go",PB+"declaration.go","lexer/lexer.go","lexer/scanner/scanner.go","lexer/scanner/comment.go"],
 [("leading comments","parser/comment.go ParseComments"),("inline comments by line number","parser/inlineComment.go"),("embedded rpc comments","parser/service.go parseRPC, lexer.FindMidComments"),("left-over comments kept in bodies","parser/*.go bodyIncludingComments")],
 state=[("comments","all comments scanned so far, with duplicates from re-scanning","lexer/scanner/scanner.go Scanner.comments")])
p("C05","Recorded positions are exact",
 "In every source that is valid UTF-8, for every element and comment that carries positions, the start position is that of the first character of its first token and the last position that of the last character of its last token. Each has the 0-based byte offset, the 1-based line, the 1-based column counted in characters, and the configured file name; this holds whatever multi-byte characters, tabs, CRLF line ends, byte order mark, multi-line comments or blank lines precede it.",
 ["inputs"],"every valid source and layout, every element kind",
 "Tests check positions of a few ASCII snippets; the position is maintained incrementally through arbitrary read/unread sequences across lines and multi-byte characters.",
 ["lexer/scanner/position.go","lexer/scanner/scanner.go","lexer/lexer.go",PB+"meta/position.go",PB+"meta/meta.go"]+[PB+x for x in "comment.go syntax.go edition.go import.go package.go option.go message.go field.go mapField.go oneof.go groupField.go enum.go extend.go extensions.go declaration.go reserved.go service.go".split()],
 [("incremental advance and revert of the position","lexer/scanner/position.go Advance/Revert/AdvancedBulk"),("start/last position captured per rule","parser/*.go meta.Meta{...}")],
 state=[("pos","current source position","lexer/scanner/scanner.go Scanner.pos"),("columns","column at the end of each finished line, needed to unread a newline","lexer/scanner/position.go Position.columns")])
p("C06","Any input at all is either parsed or rejected cleanly",
 "For every sequence of bytes and every combination of options, parsing returns in bounded time without panicking, and returns either a tree and no error or an error and no tree. A returned tree contains no nil element, and visiting it, interpreting it as unordered and encoding it as JSON never panics.",
 ["inputs","configurations"],"every byte string: random bytes, invalid UTF-8, NUL bytes, token soup, and mutated or spliced valid sources",
 "Tests only feed well-formed text and a few malformed snippets; crashes and endless loops sit on inputs nobody wrote down.",
 ["protoparser.go"]+lex+[PB+"proto.go",PB+"message.go",PB+"oneof.go",PB+"service.go",PB+"declaration.go",PB+"inlineComment.go","interpret/unordered/proto.go"],
 [("every loop consumes a token or returns an error","parser/*.go for loops"),("scan errors become illegal tokens","lexer/scanner/scanner.go scan, lexer/lexer.go Next")],observe=["return or panic of protoparser.Parse, Proto.Accept, UnorderedInterpret"])
p("C07","A failing reader is never mistaken for the end of the file",
 "If the supplied reader reports an error other than end of file at any point before the end of the source, parsing returns an error, even if what was delivered before the failure is a complete valid source by itself. A reader that delivers all bytes and then end of file gives the normal result.",
 ["fault_sequences","inputs"],"every source and every byte position at which the reader fails, with any error value, with or without data in the failing call",
 "No test injects a read failure.",
 ["lexer/scanner/scanner.go","lexer/lexer.go",PB+"proto.go"],[("errors of the rune reader","lexer/scanner/scanner.go read"),("error recorded by the lexer","lexer/lexer.go Next, LatestErr")],observe=["error returned by protoparser.Parse"])
p("C08","A truncated source is rejected",
 "If a valid source is cut anywhere strictly inside a top-level statement (after its first character and before its last required character), or inside a block comment, parsing the remaining prefix returns an error.",
 ["inputs","crash_points"],"every valid source and every such cut position",
 "Tests cut no file; end of input can reach every loop of every rule.",
 allp+lex,[("end of input is a token no rule accepts","lexer/scanner/scanner.go scan TEOF, parser/*.go"),("end-of-input exits of the identifier loops","lexer/messageType.go, lexer/fullIdent.go")],observe=["error returned by protoparser.Parse"])
p("C09","The result depends only on the bytes, not on how they are delivered",
 "Parsing the same bytes with the same options always gives an identical tree (or an error with identical message and position), no matter how the reader splits them into chunks, whether it returns the last data together with end of file, whether it interleaves empty reads, what kind of reader it is (file, pipe, buffer, ...), and how often or after which other inputs the parse is repeated.",
 ["inputs","histories","schedules"],"every source and every split into reads, including splits inside multi-byte characters and around buffer boundaries",
 "Tests use strings.Reader or files only, each input once.",
 ["lexer/scanner/scanner.go","lexer/lexer.go","protoparser.go"],[("buffered rune reader","lexer/scanner/scanner.go NewScanner/read"),("fresh lexer and parser per call","protoparser.go Parse")])
p("C10","Concurrent parses do not affect each other",
 "Any number of parses, visits and unordered interpretations of separate inputs may run at the same time from different goroutines; each gives the same result as when run alone and none causes a data race. A finished tree can be read by several goroutines at once.",
 ["schedules","inputs"],"every set of concurrent calls",
 "Every test is sequential within the library; hidden shared state only shows under concurrency.",
 ["protoparser.go","lexer/lexer.go","lexer/scanner/token.go",PB+"field.go",PB+"mapField.go","interpret/unordered/proto.go"],[("no package-level mutable state","typeConstants, keyTypeConstants, token tables"),("state held in per-call Parser/Lexer/Scanner","protoparser.go Parse")])
p("C11","File name, debug and body-comment options change only what they name",
 "Setting a file name changes nothing except that every recorded position and the tree's own metadata carry that name; debug mode changes nothing in the result; enabling body comments changes nothing except that extra comments appear as elements of bodies. None of them changes whether a source is accepted.",
 ["configurations","inputs"],"every source (valid or not) and every combination of these options",
 "Tests exercise each option on one or two inputs and never compare runs.",
 ["protoparser.go",PB+"parser.go",PB+"proto.go","lexer/lexer.go","lexer/scanner/scanner.go","lexer/error.go"],[("options stored in the config and passed down","protoparser.go Parse"),("body comments appended only on closing a body","parser/*.go bodyIncludingComments")])
p("C12","Strict mode accepts only documented syntax and agrees with permissive mode",
 "With permissive parsing off, aggregate ({...}) and list ([...]) option values, adjacent string literals and option names with a leading dot inside parentheses are rejected, and everything in the documented grammar is still accepted. Every source accepted in strict mode is also accepted in permissive mode with the same tree, except that a semicolon directly after a block belongs to that block in permissive mode and is an empty statement in strict mode.",
 ["configurations","inputs"],"every source, in both modes",
 "Tests set the mode per snippet and never compare the two modes on one input.",
 ["protoparser.go",PB+"option.go","lexer/constant.go",PB+"message.go",PB+"enum.go",PB+"service.go",PB+"oneof.go",PB+"extend.go"],[("permissive flag checks","parser/option.go, lexer/constant.go"),("semicolon after a block","parser/*.go ConsumeToken(TSEMICOLON)")])
p("C13","Layout does not change the parsed structure",
 "Replacing the white space and comments between the tokens of an accepted source by any other white space and comments (keeping tokens separated where they must be) leaves the source accepted with the same elements, names, values and nesting; only comments and positions differ. A rejected source stays rejected.",
 ["inputs"],"every source and every re-layout, including no space at all, tabs, CRLF, form feeds, many blank lines, and comments between any two tokens",
 "Tests use conventional formatting only.",
 lex+["lexer/scanner/comment.go",PB+"option.go",PB+"field.go",PB+"service.go"],[("white space and comments skipped by the scanner outside comment mode","lexer/scanner/scanner.go scan"),("token put-back restores skipped text","lexer/lexer.go UnNext, scanner UnScan")])
p("C14","Elements parse independently of what surrounds them",
 "The elements obtained from a concatenation of complete top-level statements are those obtained from each alone, with positions shifted by the text before. Parsing a statement through its own public entry point (message, enum, service, extend, field, map field, group, oneof, option, import, package, reserved, extensions, syntax, edition) gives the same element as parsing it inside a file.",
 ["inputs"],"every list of statements and every order of them",
 "Tests parse each element kind mostly in isolation and never relate the results of different embeddings.",
 allp+["lexer/lexer.go","lexer/scanner/scanner.go"],[("statement loop","parser/proto.go parseProtoBody"),("public Parse* methods shared by all contexts","parser/*.go"),("lexer state left exactly after the statement","lexer/lexer.go UnNext")],observe=["protoparser.Parse and parser.Parser.Parse* results"])
p("C15","The visitor reaches every element exactly once, in order, and honours pruning",
 "Accepting a visitor on a tree calls the matching visit method exactly once for every element and every comment the tree holds (including options inside rpcs and comments behind an opening brace or bracket), parents before their content and body elements in source order. Returning false from a visit method suppresses exactly the calls for what lies below that element.",
 ["inputs","histories"],"every tree the parser can produce and every pattern of visit results",
 "One test walks six tiny hand-made trees with a visitor that always continues.",
 [PB+"visitor.go",PB+"visitee.go"]+[PB+x for x in "proto.go message.go enum.go service.go extend.go extensions.go declaration.go oneof.go groupField.go field.go mapField.go reserved.go option.go comment.go emptyStatement.go syntax.go edition.go import.go package.go".split()],[("Accept methods","parser/*.go Accept")],observe=["calls received by a parser.Visitor"])
p("C16","The unordered view keeps every element, in order, under the right heading",
 "Interpreting any parsed file (parsed without body comments) as unordered succeeds; every element appears exactly once, in the list for its kind, in source order within that list, at the same nesting, with its names, comments and positions carried over, including the syntax or edition. The parsed tree is not modified, and a tree holding an element that the view has no place for is refused with an error rather than losing it.",
 ["inputs"],"every tree the parser can produce, and hand-made trees with foreign elements",
 "Tests interpret four small hand-made trees.",
 ["interpret/unordered/"+x for x in "proto.go message.go enum.go extend.go service.go".split()]+["protoparser.go"],[("type switches that sort body elements by kind","interpret/unordered/*.go interpret*Body")],observe=["protoparser.UnorderedInterpret result"])
p("C17","Putting tokens back restores the lexer exactly",
 "After any history of reads in any scanning mode, peeks, multi-token peeks, conditional consumption and put-backs of the last token (or of several, in reverse order), the lexer yields exactly the tokens, texts, raw texts and positions it would yield if the put-back reads had never happened. Peeking never changes what is read next. Each comment read on the way, put back or not, is remembered once, in order, at its own position, and found again between any two positions around it.",
 ["histories","inputs"],"every source and every sequence of lexer operations within the documented use",
 "The lexer tests read a few short inputs forward; put-back is never tested as a sequence.",
 ["lexer/lexer.go","lexer/scanner/scanner.go","lexer/scanner/position.go"],[("UnNext/UnNextTo/Peek/PeekN/ConsumeToken","lexer/lexer.go"),("UnScan, read/unread/peek","lexer/scanner/scanner.go")],
 state=[("lastScanRaw","text of the last scan, put back by UnScan","lexer/scanner/scanner.go"),("lastReadBuffer","stack of unread characters","lexer/scanner/scanner.go")],observe=["lexer.Lexer fields after each operation"])
p("C18","Tokens are recognised exactly as the lexical specification says",
 "In each scanning mode, every identifier, integer (decimal, octal, hexadecimal), floating-point, boolean and string literal, comment, keyword and punctuation mark of the specification is returned as one token of the right kind with exactly its text, ending where the longest legal token ends (numbers with redundant leading zeros that are not octal, or glued to letters or further dots, are left open by the specification). Reading a text to its end yields raw texts that concatenate to the whole text, and malformed literals (unterminated string or comment, newline in a string, hexadecimal or exponent without digits) are reported as illegal. The scanner used without the lexer gives the same tokens, texts, positions and comments.",
 ["inputs"],"every lexeme, every mode, every following character",
 "The scanner test lists about sixty lexemes.",
 ["lexer/scanner/"+x for x in "scanner.go token.go numberLit.go strLit.go ident.go comment.go lettersdigits.go boolLit.go floatLit.go quote.go mode.go".split()]+["lexer/lexer.go"],[("scan dispatch per mode","lexer/scanner/scanner.go scan"),("literal scanners","lexer/scanner/numberLit.go, strLit.go, ident.go, comment.go")],observe=["lexer.Lexer Token/Text/RawText"])
p("C19","String values are preserved",
 "A string literal used as an option value, import path, reserved name or declaration value is kept verbatim, quotes included. Adjacent string literals in an option value are joined into one well-formed literal that denotes the concatenation of the values of the parts, whatever quotes, escapes or nested quote characters they contain.",
 ["inputs"],"every sequence of legal string literals, both quote styles, all escapes",
 "Tests join three plain strings.",
 ["lexer/constant.go","lexer/scanner/strLit.go",PB+"option.go",PB+"import.go",PB+"reserved.go",PB+"declaration.go"],[("joining of adjacent literals","lexer/constant.go mergeMultilineStrLit"),("string scanner","lexer/scanner/strLit.go")])
p("C20","Parse errors point at the offending place",
 "When a valid source is broken by one stray token, the returned error is, or wraps, the documented error type, and its position names the configured file and lies no earlier than the end of the last good token and no later than the stray token, with offset, line and column consistent with each other. The text the error claims to have found is the stray token (or, where that is not a word, its beginning).",
 ["inputs"],"every valid source, every place between two tokens, every illegal token",
 "Tests only check that some error is returned.",
 [PB+"error.go",PB+"meta/error.go","lexer/error.go","lexer/scanner/error.go",PB+"message.go",PB+"enum.go",PB+"extend.go",PB+"reserved.go",PB+"oneof.go"],[("error built from the current token position","parser/error.go unexpected, lexer/error.go"),("combined errors","parser/message.go parseMessageBodyStatementErr and siblings")],observe=["error returned by protoparser.Parse"])
p("C21","Cost stays proportionate to input size",
 "Parsing long comments, strings, names, numbers or runs of white space, files with very many statements, comments, options or rpcs, large option values, and deeply nested messages or option values completes without crashing, and the memory allocated and the processor time used grow about in proportion to the size of the input, not with its square. The same holds for rejecting such an input (the text of the error included), for visiting its tree and the lines of its comments, and for its unordered interpretation.",
 ["inputs"],"every scalable family of sources, sizes up to hundreds of kilobytes and nesting of thousands of levels",
 "The largest test input is a few kilobytes.",
 ["lexer/scanner/scanner.go","lexer/scanner/comment.go","lexer/scanner/strLit.go","lexer/lexer.go",PB+"service.go",PB+"comment.go"],[("put-back and re-scan of the last token","lexer/scanner/scanner.go UnScan"),("comment lookup for rpcs","lexer/lexer.go FindMidComments, scanner GetScannedComments")],observe=["bytes allocated, thread processor time and completion of protoparser.Parse, UnorderedInterpret and Accept"])
p("C22","Comment and version helpers are faithful to the text",
 "A comment's line view joined by newlines and put back between its delimiters is the comment's raw text, its style predicate tells block from line comments, and its raw text is exactly the source text of the comment. The numeric version of a syntax statement is 2 or 3 as written and 0 for any other text, and a position prints as file:line:column.",
 ["inputs"],"every comment text, every position",
 "Tests check six comments.",
 [PB+"comment.go",PB+"syntax.go",PB+"meta/position.go","lexer/scanner/comment.go"],[("Comment.Lines, Comment.IsCStyle","parser/comment.go"),("Syntax.Version","parser/syntax.go"),("Position.String","parser/meta/position.go")],observe=["helper results on parsed comments"])
p("C23","The dump program prints the library's result or fails",
 "For every file, the example dump program exits 0 and prints exactly the JSON encoding of the tree (or of the unordered view when asked) that the library returns for that file with the same options, and exits non-zero printing no tree when the library returns an error or the file cannot be read, and non-zero when the output cannot be written.",
 ["inputs","configurations"],"every file and flag combination",
 "The program has no tests.",
 ["_example/dump/main.go","protoparser.go"],[("flag handling and exit codes","_example/dump/main.go run")],observe=["exit status and standard output of the dump program"])
p("C24","A statement entry point accepts its statement and nothing else",
 "Each public statement parser (syntax, edition, import, package, option, message, enum, service, extend, field, map field, group, oneof, reserved, extensions, declaration), given any text, returns the element with the content, comments and positions the text declares if the text begins with a legal statement of its kind, and otherwise an error and no element (syntax and edition: neither, if the text begins with another word). After a success the parser stands directly behind the statement: what follows, comments included, is read next, and IsEOF tells whether anything does.",
 ["inputs","configurations"],"every text given to every entry point, whatever follows the statement",
 "Tests call each entry point with a handful of texts of its own kind and hardly ever look at what is left to be read.",
 [PB+x for x in "syntax.go edition.go import.go package.go option.go message.go field.go mapField.go oneof.go groupField.go enum.go extend.go extensions.go declaration.go reserved.go service.go parser.go comment.go".split()],[("keyword check of each entry point","parser/*.go Parse*"),("put-back of the token behind a statement","lexer/lexer.go UnNext"),("block followed by a semicolon","parser/message.go, parser/enum.go and others ConsumeToken")],observe=["results of parser.Parser.Parse*, IsEOF, ParseComments and the lexer's next token"])
p("C25","The elements of a result are independent of each other",
 "Every element of a tree (statement, comment, range, field option, rpc type and so on) is an object of its own: changing its fields, replacing the entries of its lists or adding to them changes no other element of the same tree, no other result of the same source and no later one.",
 ["inputs","histories"],"every accepted source, every element, changed after the parse",
 "Tests only read results; shared objects and lists with a common backing array look right until somebody edits them, as formatters and linters with automatic fixes do.",
 allp+[PB+"comment.go",PB+"inlineComment.go"],[("lists built with append","parser/comment.go ParseComments, parser/proto.go parseProtoBody, body loops"),("one new object per statement","parser/*.go")],observe=["trees returned by protoparser.Parse after changes to some of their elements"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
