From 6a2cd4db0aebfb511896a05abfbc440d991adc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 01/27] fix: a top level empty statement no longer leaves a nil
 element in ProtoBody

---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index e7f9718..9b9999b 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -165,7 +165,7 @@ func (p *Parser) parseProtoBody() ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
-			protoBody = append(protoBody, &EmptyStatement{})
+			stmt = &EmptyStatement{}
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From aa7ce1c11d89518107df2fcb65c4c5fca1ae7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 02/27] fix: a broken field whose error stops at a semicolon is
 no longer dropped as an empty statement

---
 parser/enum.go    | 4 ++++
 parser/extend.go  | 4 ++++
 parser/message.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/parser/enum.go b/parser/enum.go
index 3cf07fa..3e8ce6a 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -207,6 +207,10 @@ func (p *Parser) parseEnumBody() (
 			p.lex.UnNext()
 
 			emptyErr := p.lex.ReadEmptyStatement()
+			if emptyErr == nil && token != scanner.TSEMICOLON {
+				// the semicolon belongs to the element which failed to parse.
+				return nil, nil, scanner.Position{}, enumFieldErr
+			}
 			if emptyErr == nil {
 				stmt = &EmptyStatement{}
 				break
diff --git a/parser/extend.go b/parser/extend.go
index e9ea942..c36adde 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -168,6 +168,10 @@ func (p *Parser) parseExtendBody() (
 			p.lex.UnNext()
 
 			emptyErr := p.lex.ReadEmptyStatement()
+			if emptyErr == nil && token != scanner.TSEMICOLON {
+				// the semicolon belongs to the element which failed to parse.
+				return nil, nil, scanner.Position{}, fieldErr
+			}
 			if emptyErr == nil {
 				stmt = &EmptyStatement{}
 				break
diff --git a/parser/message.go b/parser/message.go
index 18a61c2..4edaf1d 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -240,6 +240,10 @@ func (p *Parser) parseMessageBody() (
 			}
 
 			emptyErr := p.lex.ReadEmptyStatement()
+			if emptyErr == nil && token != scanner.TSEMICOLON {
+				// the semicolon belongs to the element which failed to parse.
+				return nil, nil, scanner.Position{}, ferr
+			}
 			if emptyErr == nil {
 				stmt = &EmptyStatement{}
 				break
-- 
2.43.0


From b071e9f41de226b9d03466978f7c522f14116ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 03/27] fix: import rejects an unknown word or token before its
 location

---
 parser/import.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/import.go b/parser/import.go
index 28906c4..ab0f0dd 100644
--- a/parser/import.go
+++ b/parser/import.go
@@ -69,6 +69,8 @@ func (p *Parser) ParseImport() (*Import, error) {
 	case scanner.TSTRLIT:
 		modifier = ImportModifierNone
 		p.lex.UnNext()
+	default:
+		return nil, p.unexpected("weak, public or strLit")
 	}
 
 	p.lex.NextStrLit()
-- 
2.43.0


From b1912f9d8d72a1ded3e48a4512b561ae8bf02a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 04/27] fix: merging adjacent string literals keeps their value

---
 lexer/constant.go | 58 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 938d842..d0582de 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -55,11 +55,65 @@ func (lex *Lexer) mergeMultilineStrLit() string {
 	var b strings.Builder
 	b.WriteString(q)
 	for lex.Token == scanner.TSTRLIT {
-		strippedString := strings.Trim(lex.Text, q)
-		b.WriteString(strippedString)
+		strLit := lex.Text
 		lex.NextLit()
+		b.WriteString(strLitContent(strLit, q[0], lex.Token == scanner.TSTRLIT))
 	}
 	lex.UnNext()
 	b.WriteString(q)
 	return b.String()
 }
+
+// strLitContent strips the outer quotes of the strLit. The content keeps its value between the given quotes:
+// these quotes are escaped, and when another content follows, a short numeric escape at the end is padded
+// so that it doesn't take the digits of the following one.
+func strLitContent(strLit string, quote byte, followed bool) string {
+	content := strLit[1 : len(strLit)-1]
+
+	var b strings.Builder
+	for i := 0; i < len(content); i++ {
+		switch {
+		case content[i] == quote:
+			b.WriteByte('\\')
+			b.WriteByte(quote)
+		case content[i] != '\\' || i+1 == len(content):
+			b.WriteByte(content[i])
+		default:
+			escape := numericEscape(content[i:])
+			if escape == "" {
+				b.WriteString(content[i : i+2])
+				i++
+				break
+			}
+			prefix := strings.TrimRight(escape, "0123456789abcdefABCDEF")
+			digits := escape[len(prefix):]
+			maxDigits := 3
+			if len(prefix) == 2 {
+				maxDigits = 2
+			}
+			b.WriteString(prefix)
+			if followed && i+len(escape) == len(content) {
+				b.WriteString(strings.Repeat("0", maxDigits-len(digits)))
+			}
+			b.WriteString(digits)
+			i += len(escape) - 1
+		}
+	}
+	return b.String()
+}
+
+// numericEscape returns the hexEscape or the octEscape at the beginning of s, including a short one.
+func numericEscape(s string) string {
+	start, max, digits := 1, 3, "01234567"
+	if s[1] == 'x' || s[1] == 'X' {
+		start, max, digits = 2, 2, "0123456789abcdefABCDEF"
+	}
+	end := start
+	for end < len(s) && end < start+max && strings.IndexByte(digits, s[end]) != -1 {
+		end++
+	}
+	if end == start {
+		return ""
+	}
+	return s[:end]
+}
-- 
2.43.0


From 95184c59df47805f66f327927a63a1abf53bdb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 05/27] fix: a list constant must be closed by a right square
 bracket

---
 parser/option.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/option.go b/parser/option.go
index 50dc670..21ee474 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -265,6 +265,9 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 			return "", err
 		}
 		p.lex.Next()
+		if p.lex.Token != scanner.TRIGHTSQUARE {
+			return "", p.unexpected("]")
+		}
 		constant = "[" + constant + "]"
 
 	default:
-- 
2.43.0


From 73730897d15176a07f29ac02ebed05f6e85c8459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 06/27] fix: reserved no longer falls back to field names after
 it has read ranges

---
 parser/reserved.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/reserved.go b/parser/reserved.go
index 8ec924b..08b5514 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -70,10 +70,17 @@ func (p *Parser) ParseReserved() (*Reserved, error) {
 	startPos := p.lex.Pos
 
 	parse := func() ([]*Range, []string, error) {
+		p.lex.NextNumberLit()
+		isRanges := p.lex.Token == scanner.TINTLIT
+		p.lex.UnNext()
+
 		ranges, err := p.parseRanges()
 		if err == nil {
 			return ranges, nil, nil
 		}
+		if isRanges {
+			return nil, nil, err
+		}
 
 		fieldNames, ferr := p.parseFieldNames()
 		if ferr == nil {
-- 
2.43.0


From e22c2453b60d6be61874aec6977c47ae3692e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 07/27] fix: comments before the first element survive in a
 file without syntax or edition

---
 parser/proto.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index 9b9999b..8153482 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -48,6 +48,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if syntax != nil {
 		syntax.Comments = comments
 		p.MaybeScanInlineComment(syntax)
+		comments = p.ParseComments()
 	}
 
 	edition, err := p.ParseEdition()
@@ -57,9 +58,10 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if edition != nil {
 		edition.Comments = comments
 		p.MaybeScanInlineComment(edition)
+		comments = nil
 	}
 
-	protoBody, err := p.parseProtoBody()
+	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
 	}
@@ -86,11 +88,13 @@ func (p *Parser) parseBOM() {
 // protoBody = { import | package | option | topLevelDef | emptyStatement }
 // topLevelDef = message | enum | service | extend
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
-func (p *Parser) parseProtoBody() ([]Visitee, error) {
+// leadingComments are the already parsed comments placed before the first element.
+func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 	var protoBody []Visitee
 
 	for {
-		comments := p.ParseComments()
+		comments := append(leadingComments, p.ParseComments()...)
+		leadingComments = nil
 
 		if p.IsEOF() {
 			if p.bodyIncludingComments {
-- 
2.43.0


From 8b41963808dfec6392253e5349a87b4879d60add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 08/27] fix: comments inside an otherwise empty message or
 extend body are kept

---
 parser/extend.go  | 17 -----------------
 parser/message.go | 17 -----------------
 2 files changed, 34 deletions(-)

diff --git a/parser/extend.go b/parser/extend.go
index c36adde..3cc5216 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -109,23 +109,6 @@ func (p *Parser) parseExtendBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
diff --git a/parser/message.go b/parser/message.go
index 4edaf1d..a9fbf28 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -111,23 +111,6 @@ func (p *Parser) parseMessageBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
-- 
2.43.0


From 16ce710413a61ff4c2b6df2a8a76232a18f87812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 09/27] fix: a NUL character is not taken for the end of input

---
 lexer/scanner/scanner.go | 2 +-
 lexer/scanner/strLit.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 8562b15..ff790da 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -6,7 +6,7 @@ import (
 	"unicode"
 )
 
-var eof = rune(0)
+var eof = rune(-1)
 
 // Text is a literal with a position.
 type Text struct {
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index 773d785..fcdb9e2 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -25,7 +25,7 @@ func (s *Scanner) scanCharValue() (string, error) {
 	ch := s.peek()
 
 	switch ch {
-	case eof, '\n':
+	case eof, 0, '\n':
 		return "", s.unexpected(ch, `/[^\0\n\\]`)
 	case '\\':
 		return s.tryScanEscape(), nil
-- 
2.43.0


From 7c88e6476f97345843e435638fce332d64d87465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:04 +0000
Subject: [PATCH 10/27] fix: a failure of the reader is reported instead of
 being taken for the end of input

---
 lexer/lexer.go           |  5 +++++
 lexer/scanner/scanner.go | 15 +++++++++++++++
 parser/proto.go          |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 91d6add..f5b8dd1 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -149,6 +149,11 @@ func (lex *Lexer) LatestErr() error {
 	return lex.scanErr
 }
 
+// ReadErr returns the error which ended the reading of the input, or nil when the input has just reached the end.
+func (lex *Lexer) ReadErr() error {
+	return lex.scanner.ReadErr()
+}
+
 // Peek returns the next token with keeping the read buffer unchanged.
 func (lex *Lexer) Peek() scanner.Token {
 	lex.Next()
diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index ff790da..862f58a 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -20,6 +20,9 @@ type Scanner struct {
 	lastReadBuffer []rune
 	lastScanRaw    []rune
 
+	// readErr is the error which ended the reading, including io.EOF.
+	readErr error
+
 	// pos is a current source position.
 	pos *Position
 
@@ -68,8 +71,12 @@ func (s *Scanner) read() (r rune) {
 		ch, s.lastReadBuffer = s.lastReadBuffer[len(s.lastReadBuffer)-1], s.lastReadBuffer[:len(s.lastReadBuffer)-1]
 		return ch
 	}
+	if s.readErr != nil {
+		return eof
+	}
 	ch, _, err := s.r.ReadRune()
 	if err != nil {
+		s.readErr = err
 		return eof
 	}
 	return ch
@@ -90,6 +97,14 @@ func (s *Scanner) peek() rune {
 	return ch
 }
 
+// ReadErr returns the error which ended the reading of the input, or nil when the input has just reached the end.
+func (s *Scanner) ReadErr() error {
+	if s.readErr == io.EOF {
+		return nil
+	}
+	return s.readErr
+}
+
 // UnScan put the last scanned text back to the read buffer.
 func (s *Scanner) UnScan() Position {
 	var reversedRunes []rune
diff --git a/parser/proto.go b/parser/proto.go
index 8153482..f70f243 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -97,6 +97,9 @@ func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 		leadingComments = nil
 
 		if p.IsEOF() {
+			if err := p.lex.ReadErr(); err != nil {
+				return nil, err
+			}
 			if p.bodyIncludingComments {
 				for _, comment := range comments {
 					protoBody = append(protoBody, Visitee(comment))
-- 
2.43.0


From 88c56c4cf8e49e27ecccc325bf8c4f905a7e86b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 11/27] fix: the version of syntax and edition is a single
 string literal

---
 parser/edition.go | 27 ++++++++++++++-------------
 parser/syntax.go  | 19 ++++++-------------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/parser/edition.go b/parser/edition.go
index 63921fc..c305e80 100644
--- a/parser/edition.go
+++ b/parser/edition.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strings"
+
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
@@ -57,23 +59,16 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
+	editionQuote := p.lex.Text
 
-	p.lex.NextNumberLit()
-	if p.lex.Token != scanner.TINTLIT {
+	edition := editionQuote[1 : len(editionQuote)-1]
+	if !isDecimalLit(edition) {
 		return nil, p.unexpected("intLit")
 	}
-	edition := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
-	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -82,10 +77,16 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 
 	return &Edition{
 		Edition:      edition,
-		EditionQuote: lq + edition + tq,
+		EditionQuote: editionQuote,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
 		},
 	}, nil
 }
+
+// decimalLit = ( "1" … "9" ) { decimalDigit }
+// See https://protobuf.dev/reference/protobuf/edition-2023-spec/#integer_literals
+func isDecimalLit(s string) bool {
+	return s != "" && s[0] != '0' && strings.Trim(s, "0123456789") == ""
+}
diff --git a/parser/syntax.go b/parser/syntax.go
index 7560adb..df20f3c 100644
--- a/parser/syntax.go
+++ b/parser/syntax.go
@@ -70,23 +70,16 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
+	versionQuote := p.lex.Text
 
-	p.lex.Next()
-	if p.lex.Text != "proto3" && p.lex.Text != "proto2" {
+	version := versionQuote[1 : len(versionQuote)-1]
+	if version != "proto3" && version != "proto2" {
 		return nil, p.unexpected("proto3 or proto2")
 	}
-	version := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
-	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -95,7 +88,7 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 
 	return &Syntax{
 		ProtobufVersion:      version,
-		ProtobufVersionQuote: lq + version + tq,
+		ProtobufVersionQuote: versionQuote,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
-- 
2.43.0


From 417cd2bd6cfccc974e42cc8787ce59dbeca36b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 12/27] fix: a oneof may end with an empty statement or have no
 element

---
 parser/oneof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/oneof.go b/parser/oneof.go
index 8057282..91f9232 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -111,6 +111,11 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 	for {
 		comments := p.ParseComments()
 
+		if p.lex.Peek() == scanner.TRIGHTCURLY {
+			p.lex.Next()
+			break
+		}
+
 		err := p.lex.ReadEmptyStatement()
 		if err == nil {
 			continue
-- 
2.43.0


From d19e6ca6e5ae6bf384ad81043c5cbaed18db52bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 13/27] fix: an unordered service keeps empty statements
 instead of failing on them

---
 interpret/unordered/service.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index b0316da..7a29024 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -9,8 +9,9 @@ import (
 
 // ServiceBody is unordered in nature, but each slice field preserves the original order.
 type ServiceBody struct {
-	Options []*parser.Option
-	RPCs    []*parser.RPC
+	Options         []*parser.Option
+	RPCs            []*parser.RPC
+	EmptyStatements []*parser.EmptyStatement
 }
 
 // Service consists of RPCs.
@@ -54,18 +55,22 @@ func interpretServiceBody(src []parser.Visitee) (
 ) {
 	var options []*parser.Option
 	var rpcs []*parser.RPC
+	var emptyStatements []*parser.EmptyStatement
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
 			options = append(options, t)
 		case *parser.RPC:
 			rpcs = append(rpcs, t)
+		case *parser.EmptyStatement:
+			emptyStatements = append(emptyStatements, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
 	}
 	return &ServiceBody{
-		Options: options,
-		RPCs:    rpcs,
+		Options:         options,
+		RPCs:            rpcs,
+		EmptyStatements: emptyStatements,
 	}, nil
 }
-- 
2.43.0


From 40d38b272e262fd69038f7c24996e80be7b3195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 14/27] fix: an unordered proto keeps the edition

---
 interpret/unordered/proto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 1cf77f0..6ae4dff 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -21,6 +21,7 @@ type ProtoBody struct {
 // Proto represents a protocol buffer definition.
 type Proto struct {
 	Syntax    *parser.Syntax
+	Edition   *parser.Edition
 	ProtoBody *ProtoBody
 }
 
@@ -36,6 +37,7 @@ func InterpretProto(src *parser.Proto) (*Proto, error) {
 	}
 	return &Proto{
 		Syntax:    src.Syntax,
+		Edition:   src.Edition,
 		ProtoBody: enumBody,
 	}, nil
 }
-- 
2.43.0


From 060240d1c3d81250904f860ea1745f022a269ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 15/27] fix: the unordered interpretation accepts the comments
 included in a body

---
 interpret/unordered/enum.go    | 6 ++++++
 interpret/unordered/extend.go  | 6 ++++++
 interpret/unordered/message.go | 6 ++++++
 interpret/unordered/proto.go   | 6 ++++++
 interpret/unordered/service.go | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/interpret/unordered/enum.go b/interpret/unordered/enum.go
index e8287cd..3e991fc 100644
--- a/interpret/unordered/enum.go
+++ b/interpret/unordered/enum.go
@@ -13,6 +13,8 @@ type EnumBody struct {
 	EnumFields      []*parser.EnumField
 	Reserveds       []*parser.Reserved
 	EmptyStatements []*parser.EmptyStatement
+	// BodyComments are the ones which the body includes with the WithBodyIncludingComments option.
+	BodyComments []*parser.Comment
 }
 
 // Enum consists of a name and an enum body.
@@ -58,6 +60,7 @@ func interpretEnumBody(src []parser.Visitee) (
 	var enumFields []*parser.EnumField
 	var reserveds []*parser.Reserved
 	var emptyStatements []*parser.EmptyStatement
+	var bodyComments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
@@ -68,6 +71,8 @@ func interpretEnumBody(src []parser.Visitee) (
 			reserveds = append(reserveds, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			bodyComments = append(bodyComments, t)
 		default:
 			return nil, fmt.Errorf("invalid EnumBody type %T of %v", t, t)
 		}
@@ -77,5 +82,6 @@ func interpretEnumBody(src []parser.Visitee) (
 		EnumFields:      enumFields,
 		Reserveds:       reserveds,
 		EmptyStatements: emptyStatements,
+		BodyComments:    bodyComments,
 	}, nil
 }
diff --git a/interpret/unordered/extend.go b/interpret/unordered/extend.go
index 44253cf..2c9c320 100644
--- a/interpret/unordered/extend.go
+++ b/interpret/unordered/extend.go
@@ -11,6 +11,8 @@ import (
 type ExtendBody struct {
 	Fields          []*parser.Field
 	EmptyStatements []*parser.EmptyStatement
+	// BodyComments are the ones which the body includes with the WithBodyIncludingComments option.
+	BodyComments []*parser.Comment
 }
 
 // Extend consists of a messageType and a extend body.
@@ -54,12 +56,15 @@ func interpretExtendBody(src []parser.Visitee) (
 ) {
 	var fields []*parser.Field
 	var emptyStatements []*parser.EmptyStatement
+	var bodyComments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Field:
 			fields = append(fields, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			bodyComments = append(bodyComments, t)
 		default:
 			return nil, fmt.Errorf("invalid ExtendBody type %T of %v", t, t)
 		}
@@ -67,5 +72,6 @@ func interpretExtendBody(src []parser.Visitee) (
 	return &ExtendBody{
 		Fields:          fields,
 		EmptyStatements: emptyStatements,
+		BodyComments:    bodyComments,
 	}, nil
 }
diff --git a/interpret/unordered/message.go b/interpret/unordered/message.go
index 12fb674..96c1a94 100644
--- a/interpret/unordered/message.go
+++ b/interpret/unordered/message.go
@@ -20,6 +20,8 @@ type MessageBody struct {
 	Extends         []*parser.Extend
 	EmptyStatements []*parser.EmptyStatement
 	Extensions      []*parser.Extensions
+	// BodyComments are the ones which the body includes with the WithBodyIncludingComments option.
+	BodyComments []*parser.Comment
 }
 
 // Message consists of a message name and a message body.
@@ -72,6 +74,7 @@ func interpretMessageBody(src []parser.Visitee) (
 	var extends []*parser.Extend
 	var emptyStatements []*parser.EmptyStatement
 	var extensions []*parser.Extensions
+	var bodyComments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Field:
@@ -104,6 +107,8 @@ func interpretMessageBody(src []parser.Visitee) (
 			emptyStatements = append(emptyStatements, t)
 		case *parser.Extensions:
 			extensions = append(extensions, t)
+		case *parser.Comment:
+			bodyComments = append(bodyComments, t)
 		default:
 			return nil, fmt.Errorf("invalid MessageBody type %T of %v", t, t)
 		}
@@ -120,5 +125,6 @@ func interpretMessageBody(src []parser.Visitee) (
 		Extends:         extends,
 		EmptyStatements: emptyStatements,
 		Extensions:      extensions,
+		BodyComments:    bodyComments,
 	}, nil
 }
diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 6ae4dff..890be2f 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -16,6 +16,8 @@ type ProtoBody struct {
 	Enums           []*Enum
 	Services        []*Service
 	EmptyStatements []*parser.EmptyStatement
+	// BodyComments are the ones which the body includes with the WithBodyIncludingComments option.
+	BodyComments []*parser.Comment
 }
 
 // Proto represents a protocol buffer definition.
@@ -54,6 +56,7 @@ func interpretProtoBody(src []parser.Visitee) (
 	var enums []*Enum
 	var services []*Service
 	var emptyStatements []*parser.EmptyStatement
+	var bodyComments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Import:
@@ -88,6 +91,8 @@ func interpretProtoBody(src []parser.Visitee) (
 			services = append(services, service)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			bodyComments = append(bodyComments, t)
 		default:
 			return nil, fmt.Errorf("invalid ProtoBody type %T of %v", t, t)
 		}
@@ -101,5 +106,6 @@ func interpretProtoBody(src []parser.Visitee) (
 		Enums:           enums,
 		Services:        services,
 		EmptyStatements: emptyStatements,
+		BodyComments:    bodyComments,
 	}, nil
 }
diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index 7a29024..38c0726 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -12,6 +12,8 @@ type ServiceBody struct {
 	Options         []*parser.Option
 	RPCs            []*parser.RPC
 	EmptyStatements []*parser.EmptyStatement
+	// BodyComments are the ones which the body includes with the WithBodyIncludingComments option.
+	BodyComments []*parser.Comment
 }
 
 // Service consists of RPCs.
@@ -56,6 +58,7 @@ func interpretServiceBody(src []parser.Visitee) (
 	var options []*parser.Option
 	var rpcs []*parser.RPC
 	var emptyStatements []*parser.EmptyStatement
+	var bodyComments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
@@ -64,6 +67,8 @@ func interpretServiceBody(src []parser.Visitee) (
 			rpcs = append(rpcs, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			bodyComments = append(bodyComments, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
@@ -72,5 +77,6 @@ func interpretServiceBody(src []parser.Visitee) (
 		Options:         options,
 		RPCs:            rpcs,
 		EmptyStatements: emptyStatements,
+		BodyComments:    bodyComments,
 	}, nil
 }
-- 
2.43.0


From 4c3a6e0701ada9ddf1df3c769ac51061f1b534ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 16/27] fix: Accept reaches rpc options and every comment of
 rpc, oneof and extensions

---
 parser/extensions.go | 3 +++
 parser/oneof.go      | 3 +++
 parser/service.go    | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/parser/extensions.go b/parser/extensions.go
index 953f0a6..5cfb430 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -40,6 +40,9 @@ func (e *Extensions) Accept(v Visitor) {
 	if e.InlineComment != nil {
 		e.InlineComment.Accept(v)
 	}
+	if e.InlineCommentBehindLeftSquare != nil {
+		e.InlineCommentBehindLeftSquare.Accept(v)
+	}
 }
 
 // ParseExtensions parses the extensions.
diff --git a/parser/oneof.go b/parser/oneof.go
index 91f9232..908c70a 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -79,6 +79,9 @@ func (o *Oneof) Accept(v Visitor) {
 	if o.InlineComment != nil {
 		o.InlineComment.Accept(v)
 	}
+	if o.InlineCommentBehindLeftCurly != nil {
+		o.InlineCommentBehindLeftCurly.Accept(v)
+	}
 }
 
 // ParseOneof parses the oneof.
diff --git a/parser/service.go b/parser/service.go
index 62b021d..dbb29de 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -53,12 +53,21 @@ func (r *RPC) Accept(v Visitor) {
 		return
 	}
 
+	for _, option := range r.Options {
+		option.Accept(v)
+	}
 	for _, comment := range r.Comments {
 		comment.Accept(v)
 	}
 	if r.InlineComment != nil {
 		r.InlineComment.Accept(v)
 	}
+	if r.InlineCommentBehindLeftCurly != nil {
+		r.InlineCommentBehindLeftCurly.Accept(v)
+	}
+	for _, comment := range r.EmbeddedComments {
+		comment.Accept(v)
+	}
 }
 
 // Service consists of RPCs.
-- 
2.43.0


From 624fd744c7fe0cff22c7c0e88f583daa01953a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:10 +0000
Subject: [PATCH 17/27] fix: errors.As finds the positioned error in the errors
 of message, enum, extend and reserved

---
 parser/enum.go     | 5 +++++
 parser/extend.go   | 5 +++++
 parser/message.go  | 5 +++++
 parser/reserved.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/parser/enum.go b/parser/enum.go
index 3e8ce6a..f45c66c 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -20,6 +20,11 @@ func (e *parseEnumBodyStatementErr) Error() string {
 	)
 }
 
+// Unwrap returns the error of the field, which has the position.
+func (e *parseEnumBodyStatementErr) Unwrap() error {
+	return e.parseEnumFieldErr
+}
+
 // EnumValueOption is an option of a enumField.
 type EnumValueOption struct {
 	OptionName string
diff --git a/parser/extend.go b/parser/extend.go
index 3cc5216..559c427 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -20,6 +20,11 @@ func (e *parseExtendBodyStatementErr) Error() string {
 	)
 }
 
+// Unwrap returns the error of the field, which has the position.
+func (e *parseExtendBodyStatementErr) Unwrap() error {
+	return e.parseFieldErr
+}
+
 // Extend consists of a messageType and an extend body.
 type Extend struct {
 	MessageType string
diff --git a/parser/message.go b/parser/message.go
index a9fbf28..88d3af4 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -20,6 +20,11 @@ func (e *parseMessageBodyStatementErr) Error() string {
 	)
 }
 
+// Unwrap returns the error of the field, which has the position.
+func (e *parseMessageBodyStatementErr) Unwrap() error {
+	return e.parseFieldErr
+}
+
 // Message consists of a message name and a message body.
 type Message struct {
 	MessageName string
diff --git a/parser/reserved.go b/parser/reserved.go
index 08b5514..286c38e 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -16,6 +16,11 @@ func (e *parseReservedErr) Error() string {
 	return fmt.Sprintf("%v:%v", e.parseRangesErr, e.parseFieldNamesErr)
 }
 
+// Unwrap returns the error of the field names, which has the position.
+func (e *parseReservedErr) Unwrap() error {
+	return e.parseFieldNamesErr
+}
+
 // Range is a range of field numbers. End is an optional value.
 type Range struct {
 	Begin string
-- 
2.43.0


From a1a030932ec2e72f7e09766a3e1046c1401c5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 18/27] fix: comments before an empty statement are included in
 the body as requested

---
 parser/comment.go | 11 +++++++++++
 parser/enum.go    |  1 +
 parser/extend.go  |  1 +
 parser/message.go |  1 +
 parser/proto.go   |  1 +
 parser/service.go |  1 +
 6 files changed, 16 insertions(+)

diff --git a/parser/comment.go b/parser/comment.go
index b03587f..9121143 100644
--- a/parser/comment.go
+++ b/parser/comment.go
@@ -76,6 +76,17 @@ func (p *Parser) parseComment() (*Comment, error) {
 	return nil, p.unexpected("comment")
 }
 
+// remainingComments returns the comments to include in a body, because no element of the body has them.
+func (p *Parser) remainingComments(comments []*Comment) []Visitee {
+	var remaining []Visitee
+	if p.bodyIncludingComments {
+		for _, comment := range comments {
+			remaining = append(remaining, comment)
+		}
+	}
+	return remaining
+}
+
 func (p *Parser) findEmbeddedComments(from scanner.Position, to scanner.Position) []*Comment {
 	var comments []*Comment
 	for _, c := range p.lex.FindMidComments(from, to) {
diff --git a/parser/enum.go b/parser/enum.go
index f45c66c..9ce9c80 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -217,6 +217,7 @@ func (p *Parser) parseEnumBody() (
 				return nil, nil, scanner.Position{}, enumFieldErr
 			}
 			if emptyErr == nil {
+				stmts = append(stmts, p.remainingComments(comments)...)
 				stmt = &EmptyStatement{}
 				break
 			}
diff --git a/parser/extend.go b/parser/extend.go
index 559c427..688a661 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -161,6 +161,7 @@ func (p *Parser) parseExtendBody() (
 				return nil, nil, scanner.Position{}, fieldErr
 			}
 			if emptyErr == nil {
+				stmts = append(stmts, p.remainingComments(comments)...)
 				stmt = &EmptyStatement{}
 				break
 			}
diff --git a/parser/message.go b/parser/message.go
index 88d3af4..bbaa5f7 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -233,6 +233,7 @@ func (p *Parser) parseMessageBody() (
 				return nil, nil, scanner.Position{}, ferr
 			}
 			if emptyErr == nil {
+				stmts = append(stmts, p.remainingComments(comments)...)
 				stmt = &EmptyStatement{}
 				break
 			}
diff --git a/parser/proto.go b/parser/proto.go
index f70f243..82e6542 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -172,6 +172,7 @@ func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
+			protoBody = append(protoBody, p.remainingComments(comments)...)
 			stmt = &EmptyStatement{}
 		}
 
diff --git a/parser/service.go b/parser/service.go
index dbb29de..71edc9f 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -210,6 +210,7 @@ func (p *Parser) parseServiceBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = append(stmts, p.remainingComments(comments)...)
 			stmt = &EmptyStatement{}
 		}
 
-- 
2.43.0


From e92e0f51703964fb20fe35dc9451c87214317c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 19/27] fix: repeated and reserved of a declaration take only
 true or false

---
 parser/declaration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index 7c34fb3..d1b3c81 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -127,7 +127,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("repeated bool")
 			}
 			repeated = p.lex.Text == "true"
@@ -137,7 +137,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("reserved bool")
 			}
 			reserved = p.lex.Text == "true"
-- 
2.43.0


From 55affec99519e9bab41222a4425f72df329c2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 20/27] fix: a declaration rejects a repeated key and a leading
 comma

---
 parser/declaration.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index d1b3c81..37fe00c 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -80,17 +80,22 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 	var typeStr string
 	var repeated bool
 	var reserved bool
+	seen := make(map[scanner.Token]bool)
 
 	for {
 		p.lex.Next()
 		if p.lex.Token == scanner.TRIGHTCURLY {
 			break
 		}
-		if p.lex.Token != scanner.TCOMMA {
+		if p.lex.Token != scanner.TCOMMA || len(seen) == 0 {
 			p.lex.UnNext()
 		}
 
 		p.lex.NextKeyword()
+		if seen[p.lex.Token] {
+			return nil, p.unexpected("a key which is not specified yet")
+		}
+		seen[p.lex.Token] = true
 		if p.lex.Token == scanner.TNUMBER {
 			p.lex.Next()
 			if p.lex.Token != scanner.TCOLON {
-- 
2.43.0


From 50da09f6bf79b38a7915ef7164b4aa555315ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:56 +0000
Subject: [PATCH 21/27] fix: a declaration keeps the first of two comments
 behind it

---
 parser/extensions.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/parser/extensions.go b/parser/extensions.go
index 5cfb430..a44b613 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -106,24 +106,13 @@ func (p *Parser) parseDeclarations() ([]*Declaration, *Comment, error) {
 
 		p.lex.Next()
 		token := p.lex.Token
-		inlineComment1 := p.parseInlineComment()
+		if token != scanner.TCOMMA && token != scanner.TRIGHTSQUARE {
+			return nil, nil, p.unexpected(", or ]")
+		}
+		p.MaybeScanInlineComment(declaration)
 		if token == scanner.TRIGHTSQUARE {
-			p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 			break
 		}
-		if token != scanner.TCOMMA {
-			return nil, nil, p.unexpected(", or ]")
-		}
-		p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 	}
 	return declarations, inlineLeftSquare, nil
 }
-
-// assignInlineComments assigns inline comments to a declaration, ensuring proper order.
-func (p *Parser) assignInlineComments(declaration *Declaration, comments ...*Comment) {
-	for _, comment := range comments {
-		if comment != nil {
-			declaration.SetInlineComment(comment)
-		}
-	}
-}
-- 
2.43.0


From ed77957967e4a4a84d1dfd6ef579fb00ad369358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 22/27] fix: a byte order mark is skipped only at the very
 beginning

---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index 82e6542..59c9cad 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -79,7 +79,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 // See https://protobuf.com/docs/language-spec#source-code-representation
 func (p *Parser) parseBOM() {
 	p.lex.Next()
-	if p.lex.Token == scanner.TBOM {
+	if p.lex.Token == scanner.TBOM && p.lex.Pos.Offset == 0 {
 		return
 	}
 	defer p.lex.UnNext()
-- 
2.43.0


From c8d71439f2d6e33996a2ca3e89952e35672043f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 23/27] fix: a message type cut off by the end of input is an
 error

---
 lexer/messageType.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/messageType.go b/lexer/messageType.go
index 107313d..2a3de0f 100644
--- a/lexer/messageType.go
+++ b/lexer/messageType.go
@@ -17,7 +17,7 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 	}
 
 	lex.Next()
-	for !lex.IsEOF() {
+	for {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "ident")
 		}
-- 
2.43.0


From 836ac6154e19ac8941904d2e25a91835319d7855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 24/27] fix: a put-back text of the caller is not overwritten
 by a later scan

---
 lexer/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 862f58a..62d7984 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -132,7 +132,7 @@ func (s *Scanner) LastScanRaw() []rune {
 
 // SetLastScanRaw sets lastScanRaw to the given raw.
 func (s *Scanner) SetLastScanRaw(raw []rune) {
-	s.lastScanRaw = raw
+	s.lastScanRaw = append([]rune(nil), raw...)
 }
 
 // GetScannedComments returns all the uniquely scanned comments.
-- 
2.43.0


From b36de51f25552393ea7a78afa50e8b56aa093104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 25/27] fix: UnScan copied the rest of the put back text for
 each of its characters

Putting back a long run of blanks or a long token took time quadratic in its
length with an allocation for every character: a file with 30000 blank lines
in a row needed many seconds.
---
 lexer/scanner/scanner.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 62d7984..46df5d0 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -107,12 +107,8 @@ func (s *Scanner) ReadErr() error {
 
 // UnScan put the last scanned text back to the read buffer.
 func (s *Scanner) UnScan() Position {
-	var reversedRunes []rune
-	for _, ch := range s.lastScanRaw {
-		reversedRunes = append([]rune{ch}, reversedRunes...)
-	}
-	for _, ch := range reversedRunes {
-		s.unread(ch)
+	for i := len(s.lastScanRaw) - 1; 0 <= i; i-- {
+		s.unread(s.lastScanRaw[i])
 	}
 	return *s.pos
 }
-- 
2.43.0


From 174b75a5571b154b5e35a08eabfc2b5a2cccba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:44 +0000
Subject: [PATCH 26/27] fix: a long run of blanks or comments overflowed the
 stack

scan called itself for every blank character and every skipped comment: a few
megabytes of blank lines crashed the process.
---
 lexer/scanner/scanner.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 46df5d0..f18f31f 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -151,15 +151,25 @@ func (s *Scanner) GetScannedComments() []Text {
 	return uniqueComments
 }
 
+// scan skips comments unless the mode asks for them.
 func (s *Scanner) scan() (Token, string, Position, error) {
+	for {
+		tok, lit, pos, err := s.scanToken()
+		if tok != TCOMMENT || s.Mode&ScanComment != 0 {
+			return tok, lit, pos, err
+		}
+	}
+}
+
+func (s *Scanner) scanToken() (Token, string, Position, error) {
+	for unicode.IsSpace(s.peek()) {
+		s.read()
+	}
 	ch := s.peek()
 
 	startPos := *s.pos
 
 	switch {
-	case unicode.IsSpace(ch):
-		s.read()
-		return s.scan()
 	case s.isEOF():
 		return TEOF, "", startPos, nil
 	case isLetter(ch), ch == '_':
@@ -180,10 +190,7 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 			return TILLEGAL, "", startPos, err
 		}
 		s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
-		if s.Mode&ScanComment != 0 {
-			return TCOMMENT, lit, startPos, nil
-		}
-		return s.scan()
+		return TCOMMENT, lit, startPos, nil
 	case isQuote(ch) && s.Mode&ScanStrLit != 0:
 		lit, err := s.scanStrLit()
 		if err != nil {
-- 
2.43.0


From 00056fbb6b0a9fa5481a58eaf59ab689b1098a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:18 +0000
Subject: [PATCH 27/27] fix: commented rpcs took cubic time

Every rpc compared all the comments scanned so far, including the duplicates,
with each other: 4000 rpcs with a comment each needed more than a minute.
---
 lexer/scanner/scanner.go | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index f18f31f..4f9c67e 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -29,8 +29,7 @@ type Scanner struct {
 	// The Mode field controls which tokens are recognized.
 	Mode Mode
 
-	// comments are all the scanned comments.
-	// These can be duplicated.
+	// comments are all the scanned comments, in the order of their positions.
 	comments []Text
 }
 
@@ -131,24 +130,16 @@ func (s *Scanner) SetLastScanRaw(raw []rune) {
 	s.lastScanRaw = append([]rune(nil), raw...)
 }
 
-// GetScannedComments returns all the uniquely scanned comments.
+// GetScannedComments returns all the uniquely scanned comments. They must not be modified.
 func (s *Scanner) GetScannedComments() []Text {
-	var uniqueComments []Text
-	find := func(c Text) bool {
-		for _, uc := range uniqueComments {
-			if c.Pos.Offset == uc.Pos.Offset && c.Literal == uc.Literal {
-				return true
-			}
-		}
-		return false
-	}
+	return s.comments[:len(s.comments):len(s.comments)]
+}
 
-	for _, c := range s.comments {
-		if !find(c) {
-			uniqueComments = append(uniqueComments, c)
-		}
+// addComment keeps the comment unless it has been scanned before.
+func (s *Scanner) addComment(c Text) {
+	if n := len(s.comments); n == 0 || s.comments[n-1].Pos.Offset < c.Pos.Offset {
+		s.comments = append(s.comments, c)
 	}
-	return uniqueComments
 }
 
 // scan skips comments unless the mode asks for them.
@@ -189,7 +180,7 @@ func (s *Scanner) scanToken() (Token, string, Position, error) {
 		if err != nil {
 			return TILLEGAL, "", startPos, err
 		}
-		s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
+		s.addComment(Text{Literal: lit, Pos: startPos})
 		return TCOMMENT, lit, startPos, nil
 	case isQuote(ch) && s.Mode&ScanStrLit != 0:
 		lit, err := s.scanStrLit()
-- 
2.43.0

