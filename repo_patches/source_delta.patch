From afd8eeb35ad8389fde93024b2bfbb8cde2c8ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 01/34] fix: keep a top-level empty statement as one element

A lone ';' at the top level added a nil element to ProtoBody (visiting it
panicked) and an inline comment behind it panicked in Parse.
---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index e7f9718..9b9999b 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -165,7 +165,7 @@ func (p *Parser) parseProtoBody() ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
-			protoBody = append(protoBody, &EmptyStatement{})
+			stmt = &EmptyStatement{}
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From 67d1d67123f7b3963dbcc8bac26a8b68165cd6cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 02/34] fix: do not accept a broken field as an empty statement

A field or enum value missing its name or number right before the ';' made
the body parser put back only the last token and accept it as an empty
statement, so 'message A { int32 a ; }' parsed with the field dropped.
---
 parser/enum.go    | 13 ++++++-------
 parser/extend.go  | 13 ++++++-------
 parser/message.go | 14 ++++++--------
 3 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/parser/enum.go b/parser/enum.go
index 3cf07fa..93c4969 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -198,19 +198,18 @@ func (p *Parser) parseEnumBody() (
 			reserved.Comments = comments
 			stmt = reserved
 		default:
+			emptyErr := p.lex.ReadEmptyStatement()
+			if emptyErr == nil {
+				stmt = &EmptyStatement{}
+				break
+			}
+
 			enumField, enumFieldErr := p.parseEnumField()
 			if enumFieldErr == nil {
 				enumField.Comments = comments
 				stmt = enumField
 				break
 			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
-			}
 
 			return nil, nil, scanner.Position{}, &parseEnumBodyStatementErr{
 				parseEnumFieldErr:      enumFieldErr,
diff --git a/parser/extend.go b/parser/extend.go
index e9ea942..5c1d510 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -159,19 +159,18 @@ func (p *Parser) parseExtendBody() (
 			}
 			return stmts, inlineLeftCurly, lastPos, nil
 		default:
+			emptyErr := p.lex.ReadEmptyStatement()
+			if emptyErr == nil {
+				stmt = &EmptyStatement{}
+				break
+			}
+
 			field, fieldErr := p.ParseField()
 			if fieldErr == nil {
 				field.Comments = comments
 				stmt = field
 				break
 			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
-			}
 
 			return nil, nil, scanner.Position{}, &parseExtendBodyStatementErr{
 				parseFieldErr:          fieldErr,
diff --git a/parser/message.go b/parser/message.go
index 18a61c2..46f8171 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -217,6 +217,12 @@ func (p *Parser) parseMessageBody() (
 			extensions.Comments = comments
 			stmt = extensions
 		default:
+			emptyErr := p.lex.ReadEmptyStatement()
+			if emptyErr == nil {
+				stmt = &EmptyStatement{}
+				break
+			}
+
 			var ferr error
 			isGroup := p.peekIsGroup()
 			if isGroup {
@@ -227,7 +233,6 @@ func (p *Parser) parseMessageBody() (
 					break
 				}
 				ferr = groupErr
-				p.lex.UnNext()
 			} else {
 				field, fieldErr := p.ParseField()
 				if fieldErr == nil {
@@ -236,13 +241,6 @@ func (p *Parser) parseMessageBody() (
 					break
 				}
 				ferr = fieldErr
-				p.lex.UnNext()
-			}
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
 			}
 
 			return nil, nil, scanner.Position{}, &parseMessageBodyStatementErr{
-- 
2.43.0


From e389dd111a8679a0f2a8ddf3ca81440d39c5c51d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 03/34] fix: keep the comments of message and extend bodies
 without statements

The special case for an empty body returned no comment behind the left curly
and skipped the body comments; the statement loop handles '}' by itself.
---
 parser/extend.go  | 17 -----------------
 parser/message.go | 17 -----------------
 2 files changed, 34 deletions(-)

diff --git a/parser/extend.go b/parser/extend.go
index 5c1d510..a9c7763 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -109,23 +109,6 @@ func (p *Parser) parseExtendBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
diff --git a/parser/message.go b/parser/message.go
index 46f8171..2161806 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -111,23 +111,6 @@ func (p *Parser) parseMessageBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
-- 
2.43.0


From a3a4d868d365d4a9fddb9a6cb4f38e9a94543d93 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 04/34] fix: reject an unknown token between import and its
 location

It was skipped silently: 'import foo "x.proto";' parsed as 'import "x.proto";'.
---
 parser/import.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/import.go b/parser/import.go
index 28906c4..b131d7e 100644
--- a/parser/import.go
+++ b/parser/import.go
@@ -69,6 +69,8 @@ func (p *Parser) ParseImport() (*Import, error) {
 	case scanner.TSTRLIT:
 		modifier = ImportModifierNone
 		p.lex.UnNext()
+	default:
+		return nil, p.unexpected(`"weak", "public" or strLit`)
 	}
 
 	p.lex.NextStrLit()
-- 
2.43.0


From 7876e8b8e450a5c528a121b3739921660386dc86 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 05/34] fix: require the right square at the end of a list
 option value

Any token was accepted in its place: 'option a = [1 };' parsed as [1].
---
 parser/option.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/option.go b/parser/option.go
index 50dc670..21ee474 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -265,6 +265,9 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 			return "", err
 		}
 		p.lex.Next()
+		if p.lex.Token != scanner.TRIGHTSQUARE {
+			return "", p.unexpected("]")
+		}
 		constant = "[" + constant + "]"
 
 	default:
-- 
2.43.0


From 63af7f9ab7c1426e8dd097d205d49b360634e843 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 06/34] fix: reject a reserved statement mixing ranges and
 names

When ranges failed half-way the names after them were accepted and the ranges
dropped: 'reserved 1, "foo";' parsed as 'reserved "foo";'.
---
 parser/reserved.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/reserved.go b/parser/reserved.go
index 8ec924b..67fc9cc 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -70,10 +70,17 @@ func (p *Parser) ParseReserved() (*Reserved, error) {
 	startPos := p.lex.Pos
 
 	parse := func() ([]*Range, []string, error) {
+		p.lex.NextNumberLit()
+		startsWithRange := p.lex.Token == scanner.TINTLIT
+		p.lex.UnNext()
+
 		ranges, err := p.parseRanges()
 		if err == nil {
 			return ranges, nil, nil
 		}
+		if startsWithRange {
+			return nil, nil, err
+		}
 
 		fieldNames, ferr := p.parseFieldNames()
 		if ferr == nil {
-- 
2.43.0


From dabf9b9060b449facbf23f2dbcd8d21ee01c566b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 07/34] fix: keep the quotes inside a string literal option
 value

Trimming every quote character at both ends dropped an escaped quote at the
end of a literal ("a\\"" became "a\\") and joining literals of different
quotes kept the inner quotes.
---
 lexer/constant.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 938d842..f1d6e7f 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -55,7 +55,10 @@ func (lex *Lexer) mergeMultilineStrLit() string {
 	var b strings.Builder
 	b.WriteString(q)
 	for lex.Token == scanner.TSTRLIT {
-		strippedString := strings.Trim(lex.Text, q)
+		strippedString := lex.Text[1 : len(lex.Text)-1]
+		if !strings.HasPrefix(lex.Text, q) {
+			strippedString = escapeQuote(strippedString, q)
+		}
 		b.WriteString(strippedString)
 		lex.NextLit()
 	}
@@ -63,3 +66,17 @@ func (lex *Lexer) mergeMultilineStrLit() string {
 	b.WriteString(q)
 	return b.String()
 }
+
+// Escapes each unescaped quote q of a string quoted by the other one.
+func escapeQuote(s string, q string) string {
+	var b strings.Builder
+	escaped := false
+	for _, r := range s {
+		if string(r) == q && !escaped {
+			b.WriteRune('\\')
+		}
+		escaped = r == '\\' && !escaped
+		b.WriteRune(r)
+	}
+	return b.String()
+}
-- 
2.43.0


From bf1a0149c51483332e56c95e3877f8234d167aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 08/34] fix: keep the leading comments of a file without syntax
 and edition

The comments before the first statement were parsed and dropped when it was
neither syntax nor edition, and an edition behind a syntax got the comments
of the syntax instead of its own.
---
 parser/proto.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index 9b9999b..da02336 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -48,6 +48,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if syntax != nil {
 		syntax.Comments = comments
 		p.MaybeScanInlineComment(syntax)
+		comments = p.ParseComments()
 	}
 
 	edition, err := p.ParseEdition()
@@ -57,9 +58,10 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if edition != nil {
 		edition.Comments = comments
 		p.MaybeScanInlineComment(edition)
+		comments = nil
 	}
 
-	protoBody, err := p.parseProtoBody()
+	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
 	}
@@ -86,11 +88,13 @@ func (p *Parser) parseBOM() {
 // protoBody = { import | package | option | topLevelDef | emptyStatement }
 // topLevelDef = message | enum | service | extend
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
-func (p *Parser) parseProtoBody() ([]Visitee, error) {
+// leadingComments are the already parsed comments placed at the beginning of the body.
+func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 	var protoBody []Visitee
 
 	for {
-		comments := p.ParseComments()
+		comments := append(leadingComments, p.ParseComments()...)
+		leadingComments = nil
 
 		if p.IsEOF() {
 			if p.bodyIncludingComments {
-- 
2.43.0


From 8d302247b426bf7c36ad4382dfb6b358c2101e50 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 09/34] fix: accept an empty statement at the end of a oneof

The closing curly was only looked for right behind a field or an option, so
'oneof o { int32 a = 1;; }' was rejected although the grammar allows it.
---
 parser/oneof.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parser/oneof.go b/parser/oneof.go
index 8057282..5298f4f 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -111,6 +111,12 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 	for {
 		comments := p.ParseComments()
 
+		p.lex.Next()
+		if p.lex.Token == scanner.TRIGHTCURLY {
+			break
+		}
+		p.lex.UnNext()
+
 		err := p.lex.ReadEmptyStatement()
 		if err == nil {
 			continue
@@ -137,13 +143,6 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 			p.MaybeScanInlineComment(oneofField)
 			oneofFields = append(oneofFields, oneofField)
 		}
-
-		p.lex.Next()
-		if p.lex.Token == scanner.TRIGHTCURLY {
-			break
-		} else {
-			p.lex.UnNext()
-		}
 	}
 
 	lastPos := p.lex.Pos
-- 
2.43.0


From 397718819d6b2896386a58c6b15cc5d196989990 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 10/34] fix: do not treat a NUL character as the end of the
 file

A NUL was swallowed and taken for the end of the input, so text behind it
could be ignored or, in a comment, parsed as statements, and string literals
lost it. It is an illegal token now, as any other unknown character.
---
 lexer/scanner/scanner.go | 2 +-
 lexer/scanner/strLit.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 8562b15..ff790da 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -6,7 +6,7 @@ import (
 	"unicode"
 )
 
-var eof = rune(0)
+var eof = rune(-1)
 
 // Text is a literal with a position.
 type Text struct {
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index 773d785..32ad72d 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -25,7 +25,7 @@ func (s *Scanner) scanCharValue() (string, error) {
 	ch := s.peek()
 
 	switch ch {
-	case eof, '\n':
+	case eof, '\x00', '\n':
 		return "", s.unexpected(ch, `/[^\0\n\\]`)
 	case '\\':
 		return s.tryScanEscape(), nil
-- 
2.43.0


From caf01c66782f1c6b5d7cc3ad88856a1d26a706b5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 11/34] fix: return the error of a failing reader from
 ParseProto

Every read error was taken for the end of the file, so a source cut short
between two statements by an I/O error parsed successfully.
---
 lexer/lexer.go           |  5 +++++
 lexer/scanner/scanner.go | 14 ++++++++++++++
 parser/proto.go          |  3 +++
 3 files changed, 22 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 91d6add..739a104 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -149,6 +149,11 @@ func (lex *Lexer) LatestErr() error {
 	return lex.scanErr
 }
 
+// ReadErr returns the error other than io.EOF which ended the input, if any.
+func (lex *Lexer) ReadErr() error {
+	return lex.scanner.ReadErr()
+}
+
 // Peek returns the next token with keeping the read buffer unchanged.
 func (lex *Lexer) Peek() scanner.Token {
 	lex.Next()
diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index ff790da..b859655 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -29,6 +29,9 @@ type Scanner struct {
 	// comments are all the scanned comments.
 	// These can be duplicated.
 	comments []Text
+
+	// readErr is the error other than io.EOF which the reader returned, if any.
+	readErr error
 }
 
 // Option is an option for scanner.NewScanner.
@@ -68,8 +71,14 @@ func (s *Scanner) read() (r rune) {
 		ch, s.lastReadBuffer = s.lastReadBuffer[len(s.lastReadBuffer)-1], s.lastReadBuffer[:len(s.lastReadBuffer)-1]
 		return ch
 	}
+	if s.readErr != nil {
+		return eof
+	}
 	ch, _, err := s.r.ReadRune()
 	if err != nil {
+		if err != io.EOF {
+			s.readErr = err
+		}
 		return eof
 	}
 	return ch
@@ -115,6 +124,11 @@ func (s *Scanner) LastScanRaw() []rune {
 	return r
 }
 
+// ReadErr returns the error other than io.EOF which ended the input, if any.
+func (s *Scanner) ReadErr() error {
+	return s.readErr
+}
+
 // SetLastScanRaw sets lastScanRaw to the given raw.
 func (s *Scanner) SetLastScanRaw(raw []rune) {
 	s.lastScanRaw = raw
diff --git a/parser/proto.go b/parser/proto.go
index da02336..6ab0816 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -62,6 +62,9 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	}
 
 	protoBody, err := p.parseProtoBody(comments)
+	if readErr := p.lex.ReadErr(); readErr != nil {
+		return nil, readErr
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e2d1233c3ae815e07866a9bd1e5716eec05bc227 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 12/34] fix: read the syntax and edition versions as string
 literals

---
 parser/edition.go | 32 +++++++++++++++++---------------
 parser/syntax.go  | 20 ++++++--------------
 2 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/parser/edition.go b/parser/edition.go
index 63921fc..c179053 100644
--- a/parser/edition.go
+++ b/parser/edition.go
@@ -57,23 +57,15 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
-
-	p.lex.NextNumberLit()
-	if p.lex.Token != scanner.TINTLIT {
-		return nil, p.unexpected("intLit")
+	editionQuote := p.lex.Text
+	edition := editionQuote[1 : len(editionQuote)-1]
+	if !isDecimalLit(edition) {
+		return nil, p.unexpected("decimalLit")
 	}
-	edition := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
-	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -82,10 +74,20 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 
 	return &Edition{
 		Edition:      edition,
-		EditionQuote: lq + edition + tq,
+		EditionQuote: editionQuote,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
 		},
 	}, nil
 }
+
+// decimalLit = ( "1" … "9" ) { decimalDigit }
+func isDecimalLit(s string) bool {
+	for i, r := range s {
+		if r < '0' || '9' < r || (i == 0 && r == '0') {
+			return false
+		}
+	}
+	return s != ""
+}
diff --git a/parser/syntax.go b/parser/syntax.go
index 7560adb..3ff140c 100644
--- a/parser/syntax.go
+++ b/parser/syntax.go
@@ -70,23 +70,15 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Text != "proto3" && p.lex.Text != "proto2" {
+	versionQuote := p.lex.Text
+	version := versionQuote[1 : len(versionQuote)-1]
+	if version != "proto3" && version != "proto2" {
 		return nil, p.unexpected("proto3 or proto2")
 	}
-	version := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
-	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -95,7 +87,7 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 
 	return &Syntax{
 		ProtobufVersion:      version,
-		ProtobufVersionQuote: lq + version + tq,
+		ProtobufVersionQuote: versionQuote,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
-- 
2.43.0


From c9887f8c436a9c5d5070ddebdb9762e20590eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 13/34] fix: keep the empty statements of a service in the
 unordered view

---
 interpret/unordered/service.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index b0316da..7a29024 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -9,8 +9,9 @@ import (
 
 // ServiceBody is unordered in nature, but each slice field preserves the original order.
 type ServiceBody struct {
-	Options []*parser.Option
-	RPCs    []*parser.RPC
+	Options         []*parser.Option
+	RPCs            []*parser.RPC
+	EmptyStatements []*parser.EmptyStatement
 }
 
 // Service consists of RPCs.
@@ -54,18 +55,22 @@ func interpretServiceBody(src []parser.Visitee) (
 ) {
 	var options []*parser.Option
 	var rpcs []*parser.RPC
+	var emptyStatements []*parser.EmptyStatement
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
 			options = append(options, t)
 		case *parser.RPC:
 			rpcs = append(rpcs, t)
+		case *parser.EmptyStatement:
+			emptyStatements = append(emptyStatements, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
 	}
 	return &ServiceBody{
-		Options: options,
-		RPCs:    rpcs,
+		Options:         options,
+		RPCs:            rpcs,
+		EmptyStatements: emptyStatements,
 	}, nil
 }
-- 
2.43.0


From 69187ce3b15120e9c46a557768ed6c1d8800cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 14/34] fix: keep the edition in the unordered view

---
 interpret/unordered/proto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 1cf77f0..6ae4dff 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -21,6 +21,7 @@ type ProtoBody struct {
 // Proto represents a protocol buffer definition.
 type Proto struct {
 	Syntax    *parser.Syntax
+	Edition   *parser.Edition
 	ProtoBody *ProtoBody
 }
 
@@ -36,6 +37,7 @@ func InterpretProto(src *parser.Proto) (*Proto, error) {
 	}
 	return &Proto{
 		Syntax:    src.Syntax,
+		Edition:   src.Edition,
 		ProtoBody: enumBody,
 	}, nil
 }
-- 
2.43.0


From 93d83544b6e87e7dec486cc385c8ca93c30e5491 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 15/34] fix: visit the options of an rpc and the comments
 behind an opening brace or bracket

---
 parser/extensions.go | 3 +++
 parser/oneof.go      | 3 +++
 parser/service.go    | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/parser/extensions.go b/parser/extensions.go
index 953f0a6..5cfb430 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -40,6 +40,9 @@ func (e *Extensions) Accept(v Visitor) {
 	if e.InlineComment != nil {
 		e.InlineComment.Accept(v)
 	}
+	if e.InlineCommentBehindLeftSquare != nil {
+		e.InlineCommentBehindLeftSquare.Accept(v)
+	}
 }
 
 // ParseExtensions parses the extensions.
diff --git a/parser/oneof.go b/parser/oneof.go
index 5298f4f..feaa0f6 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -79,6 +79,9 @@ func (o *Oneof) Accept(v Visitor) {
 	if o.InlineComment != nil {
 		o.InlineComment.Accept(v)
 	}
+	if o.InlineCommentBehindLeftCurly != nil {
+		o.InlineCommentBehindLeftCurly.Accept(v)
+	}
 }
 
 // ParseOneof parses the oneof.
diff --git a/parser/service.go b/parser/service.go
index 62b021d..277fc5c 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -53,12 +53,21 @@ func (r *RPC) Accept(v Visitor) {
 		return
 	}
 
+	for _, option := range r.Options {
+		option.Accept(v)
+	}
 	for _, comment := range r.Comments {
 		comment.Accept(v)
 	}
+	for _, comment := range r.EmbeddedComments {
+		comment.Accept(v)
+	}
 	if r.InlineComment != nil {
 		r.InlineComment.Accept(v)
 	}
+	if r.InlineCommentBehindLeftCurly != nil {
+		r.InlineCommentBehindLeftCurly.Accept(v)
+	}
 }
 
 // Service consists of RPCs.
-- 
2.43.0


From ce6f91f55693938bccd17232707c51cac3b042e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 16/34] fix: keep the comments before an empty statement when
 bodies include comments

---
 parser/comment.go | 11 +++++++++++
 parser/enum.go    |  1 +
 parser/extend.go  |  1 +
 parser/message.go |  1 +
 parser/proto.go   |  1 +
 parser/service.go |  1 +
 6 files changed, 16 insertions(+)

diff --git a/parser/comment.go b/parser/comment.go
index b03587f..e6e7219 100644
--- a/parser/comment.go
+++ b/parser/comment.go
@@ -76,6 +76,17 @@ func (p *Parser) parseComment() (*Comment, error) {
 	return nil, p.unexpected("comment")
 }
 
+// appendBodyComments appends the comments which belong to no statement to the body if it should include them.
+func (p *Parser) appendBodyComments(body []Visitee, comments []*Comment) []Visitee {
+	if !p.bodyIncludingComments {
+		return body
+	}
+	for _, comment := range comments {
+		body = append(body, Visitee(comment))
+	}
+	return body
+}
+
 func (p *Parser) findEmbeddedComments(from scanner.Position, to scanner.Position) []*Comment {
 	var comments []*Comment
 	for _, c := range p.lex.FindMidComments(from, to) {
diff --git a/parser/enum.go b/parser/enum.go
index 93c4969..d556bea 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -200,6 +200,7 @@ func (p *Parser) parseEnumBody() (
 		default:
 			emptyErr := p.lex.ReadEmptyStatement()
 			if emptyErr == nil {
+				stmts = p.appendBodyComments(stmts, comments)
 				stmt = &EmptyStatement{}
 				break
 			}
diff --git a/parser/extend.go b/parser/extend.go
index a9c7763..8b853a1 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -144,6 +144,7 @@ func (p *Parser) parseExtendBody() (
 		default:
 			emptyErr := p.lex.ReadEmptyStatement()
 			if emptyErr == nil {
+				stmts = p.appendBodyComments(stmts, comments)
 				stmt = &EmptyStatement{}
 				break
 			}
diff --git a/parser/message.go b/parser/message.go
index 2161806..59db430 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -202,6 +202,7 @@ func (p *Parser) parseMessageBody() (
 		default:
 			emptyErr := p.lex.ReadEmptyStatement()
 			if emptyErr == nil {
+				stmts = p.appendBodyComments(stmts, comments)
 				stmt = &EmptyStatement{}
 				break
 			}
diff --git a/parser/proto.go b/parser/proto.go
index 6ab0816..43c7c8d 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -172,6 +172,7 @@ func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
+			protoBody = p.appendBodyComments(protoBody, comments)
 			stmt = &EmptyStatement{}
 		}
 
diff --git a/parser/service.go b/parser/service.go
index 277fc5c..40648ce 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -210,6 +210,7 @@ func (p *Parser) parseServiceBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = p.appendBodyComments(stmts, comments)
 			stmt = &EmptyStatement{}
 		}
 
-- 
2.43.0


From c29f597d0fb21834b7f7d9229215260b035f0789 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 17/34] fix: do not lose the first of two comments behind a
 declaration

---
 parser/extensions.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/parser/extensions.go b/parser/extensions.go
index 5cfb430..39bccc1 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -106,24 +106,13 @@ func (p *Parser) parseDeclarations() ([]*Declaration, *Comment, error) {
 
 		p.lex.Next()
 		token := p.lex.Token
-		inlineComment1 := p.parseInlineComment()
+		if token != scanner.TRIGHTSQUARE && token != scanner.TCOMMA {
+			return nil, nil, p.unexpected(", or ]")
+		}
+		p.MaybeScanInlineComment(declaration)
 		if token == scanner.TRIGHTSQUARE {
-			p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 			break
 		}
-		if token != scanner.TCOMMA {
-			return nil, nil, p.unexpected(", or ]")
-		}
-		p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 	}
 	return declarations, inlineLeftSquare, nil
 }
-
-// assignInlineComments assigns inline comments to a declaration, ensuring proper order.
-func (p *Parser) assignInlineComments(declaration *Declaration, comments ...*Comment) {
-	for _, comment := range comments {
-		if comment != nil {
-			declaration.SetInlineComment(comment)
-		}
-	}
-}
-- 
2.43.0


From 0edbaba8b61dcb5c69778c4fd905dc594469a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 18/34] fix: let the body statement errors unwrap to the error
 with the position

---
 parser/enum.go     | 5 +++++
 parser/extend.go   | 5 +++++
 parser/message.go  | 5 +++++
 parser/reserved.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/parser/enum.go b/parser/enum.go
index d556bea..109e05e 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -20,6 +20,11 @@ func (e *parseEnumBodyStatementErr) Error() string {
 	)
 }
 
+// Unwrap returns the error of the statement, which tells the offending position.
+func (e *parseEnumBodyStatementErr) Unwrap() error {
+	return e.parseEnumFieldErr
+}
+
 // EnumValueOption is an option of a enumField.
 type EnumValueOption struct {
 	OptionName string
diff --git a/parser/extend.go b/parser/extend.go
index 8b853a1..671dc76 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -20,6 +20,11 @@ func (e *parseExtendBodyStatementErr) Error() string {
 	)
 }
 
+// Unwrap returns the error of the statement, which tells the offending position.
+func (e *parseExtendBodyStatementErr) Unwrap() error {
+	return e.parseFieldErr
+}
+
 // Extend consists of a messageType and an extend body.
 type Extend struct {
 	MessageType string
diff --git a/parser/message.go b/parser/message.go
index 59db430..5b5fc9b 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -20,6 +20,11 @@ func (e *parseMessageBodyStatementErr) Error() string {
 	)
 }
 
+// Unwrap returns the error of the statement, which tells the offending position.
+func (e *parseMessageBodyStatementErr) Unwrap() error {
+	return e.parseFieldErr
+}
+
 // Message consists of a message name and a message body.
 type Message struct {
 	MessageName string
diff --git a/parser/reserved.go b/parser/reserved.go
index 67fc9cc..400514d 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -16,6 +16,11 @@ func (e *parseReservedErr) Error() string {
 	return fmt.Sprintf("%v:%v", e.parseRangesErr, e.parseFieldNamesErr)
 }
 
+// Unwrap returns the error of the statement, which tells the offending position.
+func (e *parseReservedErr) Unwrap() error {
+	return e.parseFieldNamesErr
+}
+
 // Range is a range of field numbers. End is an optional value.
 type Range struct {
 	Begin string
-- 
2.43.0


From 8f2c5e3b779ee97132ad2350bf6365598d07da10 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 19/34] fix: do not copy the aggregate option value for each of
 its entries

---
 parser/option.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/parser/option.go b/parser/option.go
index 21ee474..a3e0848 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -85,20 +85,20 @@ func (p *Parser) ParseOption() (*Option, error) {
 //
 // See https://cloud.google.com/endpoints/docs/grpc-service-config/reference/rpc/google.api
 func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
-	var ret string
+	var ret strings.Builder
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TLEFTCURLY {
 		return "", p.unexpected("{")
 	}
-	ret += p.lex.Text
+	ret.WriteString(p.lex.Text)
 
 	for {
 		p.lex.Next()
 		if p.lex.Token != scanner.TIDENT {
 			return "", p.unexpected("ident")
 		}
-		ret += p.lex.Text
+		ret.WriteString(p.lex.Text)
 
 		needSemi := false
 		p.lex.Next()
@@ -109,7 +109,7 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 			}
 			p.lex.UnNext()
 		case scanner.TCOLON:
-			ret += p.lex.Text
+			ret.WriteString(p.lex.Text)
 			if p.lex.Peek() == scanner.TLEFTCURLY && p.permissive {
 				needSemi = true
 			}
@@ -124,27 +124,27 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		ret += constant
+		ret.WriteString(constant)
 
 		p.lex.Next()
 		if p.lex.Token == scanner.TSEMICOLON && needSemi && p.permissive {
-			ret += p.lex.Text
+			ret.WriteString(p.lex.Text)
 			p.lex.Next()
 		}
 
 		switch {
 		case p.lex.Token == scanner.TCOMMA, p.lex.Token == scanner.TSEMICOLON:
-			ret += p.lex.Text
+			ret.WriteString(p.lex.Text)
 			if p.lex.Peek() == scanner.TRIGHTCURLY && p.permissive {
 				p.lex.Next()
-				ret += p.lex.Text
-				return ret, nil
+				ret.WriteString(p.lex.Text)
+				return ret.String(), nil
 			}
 		case p.lex.Token == scanner.TRIGHTCURLY:
-			ret += p.lex.Text
-			return ret, nil
+			ret.WriteString(p.lex.Text)
+			return ret.String(), nil
 		default:
-			ret += "\n"
+			ret.WriteString("\n")
 			p.lex.UnNext()
 		}
 	}
-- 
2.43.0


From c68532333614387ddf63ba3892f454451b33800f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 20/34] fix: do not copy a comment or string literal for each
 of its characters

---
 lexer/scanner/comment.go | 19 +++++++++++--------
 lexer/scanner/strLit.go  | 11 +++++++----
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/lexer/scanner/comment.go b/lexer/scanner/comment.go
index 532146c..7b62c94 100644
--- a/lexer/scanner/comment.go
+++ b/lexer/scanner/comment.go
@@ -1,32 +1,35 @@
 package scanner
 
+import "strings"
+
 // comment = ( "//" { [^\n] } "\n" ) |  ( "/*" { any } "*/" )
 func (s *Scanner) scanComment() (string, error) {
-	lit := string(s.read())
+	var lit strings.Builder
+	lit.WriteRune(s.read())
 
 	ch := s.read()
 	switch ch {
 	case '/':
 		for ch != '\n' {
-			lit += string(ch)
+			lit.WriteRune(ch)
 
 			if s.isEOF() {
-				return lit, nil
+				return lit.String(), nil
 			}
 			ch = s.read()
 		}
 	case '*':
 		for {
 			if s.isEOF() {
-				return lit, s.unexpected(eof, "\n")
+				return lit.String(), s.unexpected(eof, "\n")
 			}
-			lit += string(ch)
+			lit.WriteRune(ch)
 
 			ch = s.read()
 			chn := s.peek()
 			if ch == '*' && chn == '/' {
-				lit += string(ch)
-				lit += string(s.read())
+				lit.WriteRune(ch)
+				lit.WriteRune(s.read())
 				break
 			}
 		}
@@ -34,5 +37,5 @@ func (s *Scanner) scanComment() (string, error) {
 		return "", s.unexpected(ch, "/ or *")
 	}
 
-	return lit, nil
+	return lit.String(), nil
 }
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index 32ad72d..8042eab 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -1,9 +1,12 @@
 package scanner
 
+import "strings"
+
 // strLit = ( "'" { charValue } "'" ) |  ( '"' { charValue } '"' )
 func (s *Scanner) scanStrLit() (string, error) {
 	quote := s.read()
-	lit := string(quote)
+	var lit strings.Builder
+	lit.WriteRune(quote)
 
 	ch := s.peek()
 	for ch != quote {
@@ -11,13 +14,13 @@ func (s *Scanner) scanStrLit() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		lit += cv
+		lit.WriteString(cv)
 		ch = s.peek()
 	}
 
 	// consume quote
-	lit += string(s.read())
-	return lit, nil
+	lit.WriteRune(s.read())
+	return lit.String(), nil
 }
 
 // charValue = hexEscape | octEscape | charEscape | /[^\0\n\\]/
-- 
2.43.0


From 258a4d839750c31e07cbafe558cc501aa1bf9ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 21/34] fix: put scanned text back in linear time

---
 lexer/scanner/scanner.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index b859655..666fddb 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -101,12 +101,8 @@ func (s *Scanner) peek() rune {
 
 // UnScan put the last scanned text back to the read buffer.
 func (s *Scanner) UnScan() Position {
-	var reversedRunes []rune
-	for _, ch := range s.lastScanRaw {
-		reversedRunes = append([]rune{ch}, reversedRunes...)
-	}
-	for _, ch := range reversedRunes {
-		s.unread(ch)
+	for i := len(s.lastScanRaw) - 1; 0 <= i; i-- {
+		s.unread(s.lastScanRaw[i])
 	}
 	return *s.pos
 }
-- 
2.43.0


From 926e140b2e1ef2c638a94cbe8711cae6fadfcf25 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 22/34] fix: skip white space without recursion

---
 lexer/scanner/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 666fddb..80cffa6 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -151,14 +151,14 @@ func (s *Scanner) GetScannedComments() []Text {
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
+	for unicode.IsSpace(s.peek()) {
+		s.read()
+	}
 	ch := s.peek()
 
 	startPos := *s.pos
 
 	switch {
-	case unicode.IsSpace(ch):
-		s.read()
-		return s.scan()
 	case s.isEOF():
 		return TEOF, "", startPos, nil
 	case isLetter(ch), ch == '_':
-- 
2.43.0


From f0b7112f5a8a18ef2e49cac8d615e1e7e06c95cc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 23/34] fix: find the comments embedded in an rpc without going
 through all comments

---
 lexer/lexer.go           |  9 +-------
 lexer/scanner/scanner.go | 44 ++++++++++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 739a104..14f85ba 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -199,12 +199,5 @@ func (lex *Lexer) ConsumeToken(t scanner.Token) {
 
 // FindMidComments finds comments between from and to.
 func (lex *Lexer) FindMidComments(from scanner.Position, to scanner.Position) []scanner.Text {
-	comments := lex.scanner.GetScannedComments()
-	var mid []scanner.Text
-	for _, c := range comments {
-		if from.Offset < c.Pos.Offset && c.Pos.Offset < to.Offset {
-			mid = append(mid, c)
-		}
-	}
-	return mid
+	return lex.scanner.GetScannedCommentsBetween(from.Offset, to.Offset)
 }
diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 80cffa6..ed3bcaf 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -3,6 +3,7 @@ package scanner
 import (
 	"bufio"
 	"io"
+	"sort"
 	"unicode"
 )
 
@@ -26,8 +27,7 @@ type Scanner struct {
 	// The Mode field controls which tokens are recognized.
 	Mode Mode
 
-	// comments are all the scanned comments.
-	// These can be duplicated.
+	// comments are all the uniquely scanned comments, ordered by their offsets.
 	comments []Text
 
 	// readErr is the error other than io.EOF which the reader returned, if any.
@@ -132,22 +132,36 @@ func (s *Scanner) SetLastScanRaw(raw []rune) {
 
 // GetScannedComments returns all the uniquely scanned comments.
 func (s *Scanner) GetScannedComments() []Text {
-	var uniqueComments []Text
-	find := func(c Text) bool {
-		for _, uc := range uniqueComments {
-			if c.Pos.Offset == uc.Pos.Offset && c.Literal == uc.Literal {
-				return true
-			}
-		}
-		return false
+	return append([]Text(nil), s.comments...)
+}
+
+// GetScannedCommentsBetween returns the uniquely scanned comments placed behind the from offset and before the to one.
+func (s *Scanner) GetScannedCommentsBetween(from int, to int) []Text {
+	var comments []Text
+	for i := s.searchComment(from + 1); i < len(s.comments) && s.comments[i].Pos.Offset < to; i++ {
+		comments = append(comments, s.comments[i])
 	}
+	return comments
+}
 
-	for _, c := range s.comments {
-		if !find(c) {
-			uniqueComments = append(uniqueComments, c)
+// searchComment returns the index of the first scanned comment placed at the offset or behind it.
+func (s *Scanner) searchComment(offset int) int {
+	return sort.Search(len(s.comments), func(i int) bool {
+		return offset <= s.comments[i].Pos.Offset
+	})
+}
+
+// addComment records the scanned comment unless it was already scanned before being put back.
+func (s *Scanner) addComment(c Text) {
+	i := s.searchComment(c.Pos.Offset)
+	for ; i < len(s.comments) && s.comments[i].Pos.Offset == c.Pos.Offset; i++ {
+		if s.comments[i].Literal == c.Literal {
+			return
 		}
 	}
-	return uniqueComments
+	s.comments = append(s.comments, Text{})
+	copy(s.comments[i+1:], s.comments[i:])
+	s.comments[i] = c
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
@@ -178,7 +192,7 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 		if err != nil {
 			return TILLEGAL, "", startPos, err
 		}
-		s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
+		s.addComment(Text{Literal: lit, Pos: startPos})
 		if s.Mode&ScanComment != 0 {
 			return TCOMMENT, lit, startPos, nil
 		}
-- 
2.43.0


From 977a3deee76d2110b850416584ed92c8ba9c11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 24/34] fix: accept a byte order mark at the beginning of the
 file only

---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index 43c7c8d..76b7195 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -82,7 +82,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 // See https://protobuf.com/docs/language-spec#source-code-representation
 func (p *Parser) parseBOM() {
 	p.lex.Next()
-	if p.lex.Token == scanner.TBOM {
+	if p.lex.Token == scanner.TBOM && p.lex.Pos.Offset == 0 {
 		return
 	}
 	defer p.lex.UnNext()
-- 
2.43.0


From ad611f2e74f96535996dca50733a31fa5f818cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:51:06 +0000
Subject: [PATCH 25/34] fix: skip comments without recursion

Each comment in the middle of a statement took a stack frame, so a file with
millions of them overflowed the stack.
---
 lexer/scanner/scanner.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index ed3bcaf..f3d2f5f 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -165,6 +165,16 @@ func (s *Scanner) addComment(c Text) {
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
+	for {
+		tok, lit, pos, err := s.scanNext()
+		if tok != TCOMMENT || s.Mode&ScanComment != 0 {
+			return tok, lit, pos, err
+		}
+	}
+}
+
+// scanNext returns the next token, which is possibly a comment whatever the mode is.
+func (s *Scanner) scanNext() (Token, string, Position, error) {
 	for unicode.IsSpace(s.peek()) {
 		s.read()
 	}
@@ -193,10 +203,7 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 			return TILLEGAL, "", startPos, err
 		}
 		s.addComment(Text{Literal: lit, Pos: startPos})
-		if s.Mode&ScanComment != 0 {
-			return TCOMMENT, lit, startPos, nil
-		}
-		return s.scan()
+		return TCOMMENT, lit, startPos, nil
 	case isQuote(ch) && s.Mode&ScanStrLit != 0:
 		lit, err := s.scanStrLit()
 		if err != nil {
-- 
2.43.0


From 2f6d8e361b21fde1b7093f5a2a6ffeacd6454d96 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:51:06 +0000
Subject: [PATCH 26/34] fix: do not copy an identifier or number for each of
 its parts

The memory allocated for a long identifier, number or qualified name grew with
the square of its length.
---
 lexer/fullIdent.go         | 14 +++++++++----
 lexer/messageType.go       | 16 +++++++++------
 lexer/scanner/ident.go     |  9 ++++++---
 lexer/scanner/numberLit.go | 40 +++++++++++++-------------------------
 4 files changed, 39 insertions(+), 40 deletions(-)

diff --git a/lexer/fullIdent.go b/lexer/fullIdent.go
index cab0094..ceb2a12 100644
--- a/lexer/fullIdent.go
+++ b/lexer/fullIdent.go
@@ -1,6 +1,10 @@
 package lexer
 
-import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+import (
+	"strings"
+
+	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+)
 
 // ReadFullIdent reads a fullIdent.
 // fullIdent = ident { "." ident }
@@ -11,7 +15,8 @@ func (lex *Lexer) ReadFullIdent() (string, scanner.Position, error) {
 	}
 	startPos := lex.Pos
 
-	fullIdent := lex.Text
+	var fullIdent strings.Builder
+	fullIdent.WriteString(lex.Text)
 	lex.Next()
 
 	for !lex.IsEOF() {
@@ -24,8 +29,9 @@ func (lex *Lexer) ReadFullIdent() (string, scanner.Position, error) {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "TIDENT")
 		}
-		fullIdent += "." + lex.Text
+		fullIdent.WriteString(".")
+		fullIdent.WriteString(lex.Text)
 		lex.Next()
 	}
-	return fullIdent, startPos, nil
+	return fullIdent.String(), startPos, nil
 }
diff --git a/lexer/messageType.go b/lexer/messageType.go
index 107313d..c56f758 100644
--- a/lexer/messageType.go
+++ b/lexer/messageType.go
@@ -1,6 +1,10 @@
 package lexer
 
-import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+import (
+	"strings"
+
+	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+)
 
 // ReadMessageType reads a messageType.
 // messageType = [ "." ] { ident "." } messageName
@@ -9,9 +13,9 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 	lex.Next()
 	startPos := lex.Pos
 
-	var messageType string
+	var messageType strings.Builder
 	if lex.Token == scanner.TDOT {
-		messageType = lex.Text
+		messageType.WriteString(lex.Text)
 	} else {
 		lex.UnNext()
 	}
@@ -21,17 +25,17 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "ident")
 		}
-		messageType += lex.Text
+		messageType.WriteString(lex.Text)
 
 		lex.Next()
 		if lex.Token != scanner.TDOT {
 			lex.UnNext()
 			break
 		}
-		messageType += lex.Text
+		messageType.WriteString(lex.Text)
 
 		lex.Next()
 	}
 
-	return messageType, startPos, nil
+	return messageType.String(), startPos, nil
 }
diff --git a/lexer/scanner/ident.go b/lexer/scanner/ident.go
index 88ac247..c5cf240 100644
--- a/lexer/scanner/ident.go
+++ b/lexer/scanner/ident.go
@@ -1,16 +1,19 @@
 package scanner
 
+import "strings"
+
 // ident = letter { letter | decimalDigit | "_" }
 func (s *Scanner) scanIdent() string {
-	ident := string(s.read())
+	var ident strings.Builder
+	ident.WriteRune(s.read())
 
 	for {
 		next := s.peek()
 		switch {
 		case isLetter(next), isDecimalDigit(next), next == '_':
-			ident += string(s.read())
+			ident.WriteRune(s.read())
 		default:
-			return ident
+			return ident.String()
 		}
 	}
 }
diff --git a/lexer/scanner/numberLit.go b/lexer/scanner/numberLit.go
index 488222f..b33ab47 100644
--- a/lexer/scanner/numberLit.go
+++ b/lexer/scanner/numberLit.go
@@ -1,5 +1,7 @@
 package scanner
 
+import "strings"
+
 // intLit     = decimalLit | octalLit | hexLit
 // decimalLit = ( "1" … "9" ) { decimalDigit }
 // octalLit   = "0" { octalDigit }
@@ -17,14 +19,7 @@ func (s *Scanner) scanNumberLit() (Token, string, error) {
 		if !isHexDigit(s.peek()) {
 			return TILLEGAL, "", s.unexpected(s.peek(), "hexDigit")
 		}
-		lit += string(s.read())
-
-		for !s.isEOF() {
-			if !isHexDigit(s.peek()) {
-				break
-			}
-			lit += string(s.read())
-		}
+		lit += s.readWhile(isHexDigit)
 		return TINTLIT, lit, nil
 	case lit == ".":
 		// floatLit
@@ -50,21 +45,11 @@ func (s *Scanner) scanNumberLit() (Token, string, error) {
 		return TFLOATLIT, lit + exp, nil
 	case lit == "0":
 		// octalLit
-		for !s.isEOF() {
-			if !isOctalDigit(s.peek()) {
-				break
-			}
-			lit += string(s.read())
-		}
+		lit += s.readWhile(isOctalDigit)
 		return TINTLIT, lit, nil
 	default:
 		// decimalLit or floatLit
-		for !s.isEOF() {
-			if !isDecimalDigit(s.peek()) {
-				break
-			}
-			lit += string(s.read())
-		}
+		lit += s.readWhile(isDecimalDigit)
 
 		switch s.peek() {
 		case '.':
@@ -160,13 +145,14 @@ func (s *Scanner) scanDecimals() (string, error) {
 	if !isDecimalDigit(ch) {
 		return "", s.unexpected(ch, "decimalDigit")
 	}
-	lit := string(s.read())
+	return s.readWhile(isDecimalDigit), nil
+}
 
-	for !s.isEOF() {
-		if !isDecimalDigit(s.peek()) {
-			break
-		}
-		lit += string(s.read())
+// readWhile reads the characters as long as they satisfy the condition.
+func (s *Scanner) readWhile(cond func(r rune) bool) string {
+	var lit strings.Builder
+	for !s.isEOF() && cond(s.peek()) {
+		lit.WriteRune(s.read())
 	}
-	return lit, nil
+	return lit.String()
 }
-- 
2.43.0


From 79a347bff5e9a1e2bfbe450468cf49c518667418 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:51:06 +0000
Subject: [PATCH 27/34] fix: do not copy an option name or value for each of
 its parts

The memory allocated for a deeply nested option value grew with the square of
its depth.
---
 parser/option.go | 114 +++++++++++++++++++++++------------------------
 1 file changed, 57 insertions(+), 57 deletions(-)

diff --git a/parser/option.go b/parser/option.go
index a3e0848..34f83fe 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -84,19 +84,17 @@ func (p *Parser) ParseOption() (*Option, error) {
 // cloudEndpointsOptionConstant = "{" ident ":" constant { ( ["," | ";" ] ident ":" constant | cloudEndpointsOptionConstant ) } ["," | ";"] "}"
 //
 // See https://cloud.google.com/endpoints/docs/grpc-service-config/reference/rpc/google.api
-func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
-	var ret strings.Builder
-
+func (p *Parser) parseCloudEndpointsOptionConstant(ret *strings.Builder) error {
 	p.lex.Next()
 	if p.lex.Token != scanner.TLEFTCURLY {
-		return "", p.unexpected("{")
+		return p.unexpected("{")
 	}
 	ret.WriteString(p.lex.Text)
 
 	for {
 		p.lex.Next()
 		if p.lex.Token != scanner.TIDENT {
-			return "", p.unexpected("ident")
+			return p.unexpected("ident")
 		}
 		ret.WriteString(p.lex.Text)
 
@@ -105,7 +103,7 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 		switch p.lex.Token {
 		case scanner.TLEFTCURLY:
 			if !p.permissive {
-				return "", p.unexpected(":")
+				return p.unexpected(":")
 			}
 			p.lex.UnNext()
 		case scanner.TCOLON:
@@ -115,16 +113,14 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 			}
 		default:
 			if p.permissive {
-				return "", p.unexpected("{ or :")
+				return p.unexpected("{ or :")
 			}
-			return "", p.unexpected(":")
+			return p.unexpected(":")
 		}
 
-		constant, err := p.parseOptionConstant()
-		if err != nil {
-			return "", err
+		if err := p.writeOptionConstant(ret); err != nil {
+			return err
 		}
-		ret.WriteString(constant)
 
 		p.lex.Next()
 		if p.lex.Token == scanner.TSEMICOLON && needSemi && p.permissive {
@@ -138,11 +134,11 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 			if p.lex.Peek() == scanner.TRIGHTCURLY && p.permissive {
 				p.lex.Next()
 				ret.WriteString(p.lex.Text)
-				return ret.String(), nil
+				return nil
 			}
 		case p.lex.Token == scanner.TRIGHTCURLY:
 			ret.WriteString(p.lex.Text)
-			return ret.String(), nil
+			return nil
 		default:
 			ret.WriteString("\n")
 			p.lex.UnNext()
@@ -152,20 +148,20 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 
 // optionName = ( ident | "(" fullIdent ")" ) { "." ( ident | "(" fullIdent ")" ) }
 func (p *Parser) parseOptionName() (string, error) {
-	var optionName string
+	var optionName strings.Builder
 
 	p.lex.Next()
 	switch p.lex.Token {
 	case scanner.TIDENT:
-		optionName = p.lex.Text
+		optionName.WriteString(p.lex.Text)
 	case scanner.TLEFTPAREN:
-		optionName = p.lex.Text
+		optionName.WriteString(p.lex.Text)
 
 		// protoc accepts "(." fullIndent ")". See #63
 		if p.permissive {
 			p.lex.Next()
 			if p.lex.Token == scanner.TDOT {
-				optionName += "."
+				optionName.WriteString(".")
 			} else {
 				p.lex.UnNext()
 			}
@@ -175,13 +171,13 @@ func (p *Parser) parseOptionName() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		optionName += fullIdent
+		optionName.WriteString(fullIdent)
 
 		p.lex.Next()
 		if p.lex.Token != scanner.TRIGHTPAREN {
 			return "", p.unexpected(")")
 		}
-		optionName += p.lex.Text
+		optionName.WriteString(p.lex.Text)
 	default:
 		return "", p.unexpected("ident or left paren")
 	}
@@ -192,20 +188,20 @@ func (p *Parser) parseOptionName() (string, error) {
 			p.lex.UnNext()
 			break
 		}
-		optionName += p.lex.Text
+		optionName.WriteString(p.lex.Text)
 
 		p.lex.Next()
 		switch p.lex.Token {
 		case scanner.TIDENT:
-			optionName += p.lex.Text
+			optionName.WriteString(p.lex.Text)
 		case scanner.TLEFTPAREN:
-			optionName += p.lex.Text
+			optionName.WriteString(p.lex.Text)
 
 			// protoc accepts "(." fullIndent ")". See #63
 			if p.permissive {
 				p.lex.Next()
 				if p.lex.Token == scanner.TDOT {
-					optionName += "."
+					optionName.WriteString(".")
 				} else {
 					p.lex.UnNext()
 				}
@@ -215,92 +211,96 @@ func (p *Parser) parseOptionName() (string, error) {
 			if err != nil {
 				return "", err
 			}
-			optionName += fullIdent
+			optionName.WriteString(fullIdent)
 
 			p.lex.Next()
 			if p.lex.Token != scanner.TRIGHTPAREN {
 				return "", p.unexpected(")")
 			}
-			optionName += p.lex.Text
+			optionName.WriteString(p.lex.Text)
 		default:
 			return "", p.unexpected("ident or bracedFullIdent")
 		}
 	}
-	return optionName, nil
+	return optionName.String(), nil
 }
 
-func (p *Parser) parseOptionConstant() (constant string, err error) {
+func (p *Parser) parseOptionConstant() (string, error) {
+	var ret strings.Builder
+	if err := p.writeOptionConstant(&ret); err != nil {
+		return "", err
+	}
+	return ret.String(), nil
+}
+
+// writeOptionConstant parses an option constant and writes it to ret.
+func (p *Parser) writeOptionConstant(ret *strings.Builder) error {
 	switch p.lex.Peek() {
 	// Cloud Endpoints requires this exception.
 	case scanner.TLEFTCURLY:
 		if !p.permissive {
-			return "", p.unexpected("constant or permissive mode")
+			return p.unexpected("constant or permissive mode")
 		}
 
 		// parses empty fields within an option
 		if p.lex.PeekN(2) == scanner.TRIGHTCURLY {
 			p.lex.NextN(2)
-			return "{}", nil
+			ret.WriteString("{}")
+			return nil
 		}
 
-		constant, err = p.parseCloudEndpointsOptionConstant()
-		if err != nil {
-			return "", err
-		}
+		return p.parseCloudEndpointsOptionConstant(ret)
 
 	case scanner.TLEFTSQUARE:
 		if !p.permissive {
-			return "", p.unexpected("constant or permissive mode")
+			return p.unexpected("constant or permissive mode")
 		}
 		p.lex.Next()
+		ret.WriteString(p.lex.Text)
 
 		// parses empty fields within an option
 		if p.lex.Peek() == scanner.TRIGHTSQUARE {
 			p.lex.Next()
-			return "[]", nil
+			ret.WriteString(p.lex.Text)
+			return nil
 		}
 
-		constant, err = p.parseOptionConstants()
-		if err != nil {
-			return "", err
+		if err := p.parseOptionConstants(ret); err != nil {
+			return err
 		}
 		p.lex.Next()
 		if p.lex.Token != scanner.TRIGHTSQUARE {
-			return "", p.unexpected("]")
+			return p.unexpected("]")
 		}
-		constant = "[" + constant + "]"
+		ret.WriteString(p.lex.Text)
+		return nil
 
 	default:
-		constant, _, err = p.lex.ReadConstant(p.permissive)
+		constant, _, err := p.lex.ReadConstant(p.permissive)
 		if err != nil {
-			return "", err
+			return err
 		}
+		ret.WriteString(constant)
+		return nil
 	}
-	return constant, nil
 }
 
 // optionConstants = optionConstant { ","  optionConstant }
-func (p *Parser) parseOptionConstants() (constant string, err error) {
-	opt, err := p.parseOptionConstant()
-	if err != nil {
-		return "", err
+func (p *Parser) parseOptionConstants(ret *strings.Builder) error {
+	if err := p.writeOptionConstant(ret); err != nil {
+		return err
 	}
 
-	var opts []string
-	opts = append(opts, opt)
-
 	for {
 		p.lex.Next()
 		if p.lex.Token != scanner.TCOMMA {
 			p.lex.UnNext()
-			break
+			return nil
 		}
+		ret.WriteString(p.lex.Text)
 
-		opt, err = p.parseOptionConstant()
-		if err != nil {
-			return "", p.unexpected("optionConstant")
+		if err := p.writeOptionConstant(ret); err != nil {
+			return p.unexpected("optionConstant")
 		}
-		opts = append(opts, opt)
 	}
-	return strings.Join(opts, ","), nil
 }
-- 
2.43.0


From f0f26e607bb6e1f6b5e80d232d02340ca3a29c66 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:24:59 +0000
Subject: [PATCH 28/34] fix: reject a declaration flag that is not a boolean

Any identifier was accepted and taken for false: 'repeated: foo'.
---
 parser/declaration.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index 7c34fb3..e04b78f 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -126,8 +126,8 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 			if p.lex.Token != scanner.TCOLON {
 				return nil, p.unexpected(":")
 			}
-			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			p.lex.NextLit()
+			if p.lex.Token != scanner.TBOOLLIT {
 				return nil, p.unexpected("repeated bool")
 			}
 			repeated = p.lex.Text == "true"
@@ -136,8 +136,8 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 			if p.lex.Token != scanner.TCOLON {
 				return nil, p.unexpected(":")
 			}
-			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			p.lex.NextLit()
+			if p.lex.Token != scanner.TBOOLLIT {
 				return nil, p.unexpected("reserved bool")
 			}
 			reserved = p.lex.Text == "true"
-- 
2.43.0


From 3566e10796a995c1789d7cddd5425a77058f34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 29/34] fix: reject a declaration giving an entry twice

All but the last one were dropped: '{number: 1, number: 2}'.
---
 parser/declaration.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/declaration.go b/parser/declaration.go
index e04b78f..4fdb60f 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -80,6 +80,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 	var typeStr string
 	var repeated bool
 	var reserved bool
+	given := map[scanner.Token]bool{}
 
 	for {
 		p.lex.Next()
@@ -91,6 +92,10 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 		}
 
 		p.lex.NextKeyword()
+		if given[p.lex.Token] {
+			return nil, p.unexpected("an entry which is not yet given")
+		}
+		given[p.lex.Token] = true
 		if p.lex.Token == scanner.TNUMBER {
 			p.lex.Next()
 			if p.lex.Token != scanner.TCOLON {
-- 
2.43.0


From 1efb4a82ab0a6d25159c864d8173f09939b75bed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 30/34] fix: keep a short escape ending a joined string literal
 apart from the next

---
 lexer/constant.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index f1d6e7f..755fdd8 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -54,19 +54,50 @@ func (lex *Lexer) mergeMultilineStrLit() string {
 	}
 	var b strings.Builder
 	b.WriteString(q)
+	last := ""
 	for lex.Token == scanner.TSTRLIT {
 		strippedString := lex.Text[1 : len(lex.Text)-1]
 		if !strings.HasPrefix(lex.Text, q) {
 			strippedString = escapeQuote(strippedString, q)
 		}
-		b.WriteString(strippedString)
+		if strippedString != "" {
+			b.WriteString(closeEscape(last, strippedString[0]))
+			last = strippedString
+		}
 		lex.NextLit()
 	}
 	lex.UnNext()
+	b.WriteString(last)
 	b.WriteString(q)
 	return b.String()
 }
 
+// Pads a short octal or hex escape ending s with zeros if the following byte would become a part of it.
+func closeEscape(s string, next byte) string {
+	isOct := func(c byte) bool { return '0' <= c && c <= '7' }
+	isHex := func(c byte) bool { return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' }
+
+	for i := 0; i+1 < len(s); i++ {
+		if s[i] != '\\' {
+			continue
+		}
+		i++
+
+		start, size, isDigit := i, 3, isOct
+		if s[i] == 'x' || s[i] == 'X' {
+			start, size, isDigit = i+1, 2, isHex
+		}
+		end := start
+		for end < len(s) && end-start < size && isDigit(s[end]) {
+			end++
+		}
+		if end == len(s) && start < end && end-start < size && isDigit(next) {
+			return s[:start] + strings.Repeat("0", size-(end-start)) + s[start:]
+		}
+	}
+	return s
+}
+
 // Escapes each unescaped quote q of a string quoted by the other one.
 func escapeQuote(s string, q string) string {
 	var b strings.Builder
-- 
2.43.0


From 418b624154e9da89e4839624b45b1b020c594454 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 31/34] fix: fail when the dump cannot be written

---
 _example/dump/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/_example/dump/main.go b/_example/dump/main.go
index 59ae9a4..9f60821 100644
--- a/_example/dump/main.go
+++ b/_example/dump/main.go
@@ -56,8 +56,12 @@ func run() int {
 	gotJSON, err := json.MarshalIndent(v, "", "  ")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "failed to marshal, err %v\n", err)
+		return 1
+	}
+	if _, err := fmt.Print(string(gotJSON)); err != nil {
+		fmt.Fprintf(os.Stderr, "failed to print, err %v\n", err)
+		return 1
 	}
-	fmt.Print(string(gotJSON))
 	return 0
 }
 
-- 
2.43.0


From 964041f93263e96c6dee89788b8188a13f2c2e83 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:40:40 +0000
Subject: [PATCH 32/34] fix: reject a leading comma in a declaration

---
 parser/declaration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index 4fdb60f..6894768 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -87,7 +87,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 		if p.lex.Token == scanner.TRIGHTCURLY {
 			break
 		}
-		if p.lex.Token != scanner.TCOMMA {
+		if p.lex.Token != scanner.TCOMMA || len(given) == 0 {
 			p.lex.UnNext()
 		}
 
-- 
2.43.0


From b0254e5d54f32fae520da4059d0f9419f9010e88 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:01:59 +0000
Subject: [PATCH 33/34] fix: do not format the errors of nested groups over and
 over

---
 parser/message.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/parser/message.go b/parser/message.go
index 5b5fc9b..b9ab7a2 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
@@ -13,11 +14,22 @@ type parseMessageBodyStatementErr struct {
 }
 
 func (e *parseMessageBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseFieldErr,
-		e.parseEmptyStatementErr,
-	)
+	// Nested groups chain these errors. Formatting each of them on its own copies the inner ones over and over.
+	chain := []*parseMessageBodyStatementErr{e}
+	for {
+		inner, ok := chain[len(chain)-1].parseFieldErr.(*parseMessageBodyStatementErr)
+		if !ok {
+			break
+		}
+		chain = append(chain, inner)
+	}
+
+	var msg strings.Builder
+	fmt.Fprintf(&msg, "%v", chain[len(chain)-1].parseFieldErr)
+	for i := len(chain) - 1; 0 <= i; i-- {
+		fmt.Fprintf(&msg, ":%v", chain[i].parseEmptyStatementErr)
+	}
+	return msg.String()
 }
 
 // Unwrap returns the error of the statement, which tells the offending position.
-- 
2.43.0


From e1c0f8e18d92e12be1c84921a8ef8dc220dfae7d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:24:58 +0000
Subject: [PATCH 34/34] fix: do not format the errors of nested messages over
 and over in the unordered view

---
 interpret/unordered/message.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/interpret/unordered/message.go b/interpret/unordered/message.go
index 12fb674..90d0bc7 100644
--- a/interpret/unordered/message.go
+++ b/interpret/unordered/message.go
@@ -2,6 +2,7 @@ package unordered
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/yoheimuta/go-protoparser/v4/parser"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
@@ -37,6 +38,33 @@ type Message struct {
 	Meta meta.Meta
 }
 
+// interpretMessageErr is an error in the message of the name.
+type interpretMessageErr struct {
+	name string
+	err  error
+}
+
+func (e *interpretMessageErr) Error() string {
+	// Nested messages chain these errors. Formatting each of them on its own copies the inner ones over and over.
+	var msg strings.Builder
+	err := error(e)
+	for {
+		m, ok := err.(*interpretMessageErr)
+		if !ok {
+			break
+		}
+		msg.WriteString("invalid Message " + m.name + ": ")
+		err = m.err
+	}
+	msg.WriteString(err.Error())
+	return msg.String()
+}
+
+// Unwrap returns the error in the body of the message.
+func (e *interpretMessageErr) Unwrap() error {
+	return e.err
+}
+
 // InterpretMessage interprets *parser.Message to *Message.
 func InterpretMessage(src *parser.Message) (*Message, error) {
 	if src == nil {
@@ -45,7 +73,7 @@ func InterpretMessage(src *parser.Message) (*Message, error) {
 
 	messageBody, err := interpretMessageBody(src.MessageBody)
 	if err != nil {
-		return nil, fmt.Errorf("invalid Message %s: %w", src.MessageName, err)
+		return nil, &interpretMessageErr{name: src.MessageName, err: err}
 	}
 	return &Message{
 		MessageName:                  src.MessageName,
-- 
2.43.0

