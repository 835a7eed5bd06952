package main

// C15, C16, C18, C19, C20: scanner, lexer, positions, accessors.

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// ---- the lexical model ---------------------------------------------------------

type rtok struct {
	kind  scanner.Token
	text  string
	start int
	end   int
	err   bool
}

var refPunct = map[rune]scanner.Token{
	';': scanner.TSEMICOLON, ':': scanner.TCOLON, '=': scanner.TEQUALS, '"': scanner.TQUOTE, '\'': scanner.TQUOTE,
	'(': scanner.TLEFTPAREN, ')': scanner.TRIGHTPAREN, '{': scanner.TLEFTCURLY, '}': scanner.TRIGHTCURLY,
	'[': scanner.TLEFTSQUARE, ']': scanner.TRIGHTSQUARE, '<': scanner.TLESS, '>': scanner.TGREATER,
	',': scanner.TCOMMA, '.': scanner.TDOT, '-': scanner.TMINUS, '\ufeff': scanner.TBOM,
}

var refKeywords = map[string]scanner.Token{
	"syntax": scanner.TSYNTAX, "edition": scanner.TEDITION, "service": scanner.TSERVICE, "rpc": scanner.TRPC,
	"returns": scanner.TRETURNS, "message": scanner.TMESSAGE, "extend": scanner.TEXTEND, "import": scanner.TIMPORT,
	"package": scanner.TPACKAGE, "option": scanner.TOPTION, "repeated": scanner.TREPEATED, "required": scanner.TREQUIRED,
	"optional": scanner.TOPTIONAL, "weak": scanner.TWEAK, "public": scanner.TPUBLIC, "oneof": scanner.TONEOF,
	"map": scanner.TMAP, "reserved": scanner.TRESERVED, "extensions": scanner.TEXTENSIONS, "number": scanner.TNUMBER,
	"full_name": scanner.TFULLNAME, "type": scanner.TTYPE, "declaration": scanner.TDECLARATION, "enum": scanner.TENUM,
	"stream": scanner.TSTREAM, "group": scanner.TGROUP,
}

// refScan: the token of src at or behind off, in the given mode.
func refScan(src string, off int, mode scanner.Mode) rtok {
	for off < len(src) {
		s := src[off:]
		r, sz := utf8.DecodeRuneInString(s)
		if unicode.IsSpace(r) {
			off += sz
			continue
		}
		if r != '/' {
			break
		}
		n, ok := refComment(s)
		if !ok {
			return rtok{scanner.TILLEGAL, "", off, off + n, true}
		}
		if mode&scanner.ScanComment != 0 {
			return rtok{scanner.TCOMMENT, s[:n], off, off + n, false}
		}
		off += n
	}
	if off >= len(src) {
		return rtok{scanner.TEOF, "", off, off, false}
	}
	s := src[off:]
	r, sz := utf8.DecodeRuneInString(s)
	switch {
	case rIdentStart(r):
		n := 1
		for n < len(s) && (rIdentStart(rune(s[n])) || rDigit(rune(s[n]))) {
			n++
		}
		t := s[:n]
		k := scanner.TIDENT
		switch {
		case mode&scanner.ScanBoolLit != 0 && (t == "true" || t == "false"):
			k = scanner.TBOOLLIT
		case mode&scanner.ScanNumberLit != 0 && (t == "inf" || t == "nan"):
			k = scanner.TFLOATLIT
		case mode&scanner.ScanKeyword != 0 && refKeywords[t] != scanner.TILLEGAL:
			k = refKeywords[t]
		}
		return rtok{k, t, off, off + n, false}
	case (r == '"' || r == '\'') && mode&scanner.ScanStrLit != 0:
		n, ok := refString(s)
		if !ok {
			return rtok{scanner.TILLEGAL, "", off, off + n, true}
		}
		return rtok{scanner.TSTRLIT, s[:n], off, off + n, false}
	case (rDigit(r) || r == '.') && mode&scanner.ScanNumberLit != 0:
		n, fl, ok := refNumber(s)
		switch {
		case !ok:
			return rtok{scanner.TILLEGAL, "", off, off + n, true}
		case fl:
			return rtok{scanner.TFLOATLIT, s[:n], off, off + n, false}
		}
		return rtok{scanner.TINTLIT, s[:n], off, off + n, false}
	}
	return rtok{refPunct[r], s[:sz], off, off + sz, false}
}

// rawEnd: the raw text read from off reaches to the end of the token, and may
// include white space behind it (a line comment ends with its newline).
func rawEnd(src string, off, end int, raw string) (int, bool) {
	n := off + len(raw)
	if n < end || n > len(src) || src[off:n] != raw || strings.TrimSpace(src[end:n]) != "" {
		return 0, false
	}
	return n, true
}

// at gives the position of the character at off (or of the end).
func (t *posTable) at(off int) (line, col int) { return t.line[off], t.col[off] }

func posIs(t *posTable, p meta.Position, off int) bool {
	l, c := t.at(off)
	return p.Offset == off && p.Line == l && p.Column == c
}

func showPos(t *posTable, off int) string {
	l, c := t.at(off)
	return fmt.Sprintf("%d:%d:%d", off, l, c)
}
func showP(p meta.Position) string { return fmt.Sprintf("%d:%d:%d", p.Offset, p.Line, p.Column) }

// ---- C16 ---------------------------------------------------------------------

// scanAll scans src in one mode and compares with the model; "" if equal.
func scanAll(src string, mode scanner.Mode, t *posTable, cov func(k, prev scanner.Token, mode scanner.Mode)) (s string) {
	if pe := guard(func() { s = scanAll1(src, mode, t, cov) }); pe != nil {
		return pe.Error()
	}
	return s
}

func scanAll1(src string, mode scanner.Mode, t *posTable, cov func(k, prev scanner.Token, mode scanner.Mode)) string {
	sc := scanner.NewScanner(strings.NewReader(src), scanner.WithFilename(scanName))
	sc.Mode = mode
	off := 0
	prev := scanner.TEOF
	for i := 0; ; i++ {
		want := refScan(src, off, mode)
		tok, text, pos, err := sc.Scan()
		if cov != nil {
			cov(want.kind, prev, mode)
		}
		prev = want.kind
		if (err != nil) != want.err {
			return fmt.Sprintf("token %d: error %v, model: %+v", i, err, want)
		}
		if tok != want.kind {
			return fmt.Sprintf("token %d has kind %d (%q), model: kind %d %q", i, tok, text, want.kind, want.text)
		}
		if !posIs(t, pos.Position, want.start) || pos.Filename != scanName {
			return fmt.Sprintf("token %d %q is at %s, model: %s", i, text, showP(pos.Position), showPos(t, want.start))
		}
		if want.err {
			me, ok := typedError(err)
			if !ok {
				return fmt.Sprintf("token %d: the error is not the typed parse error: %v", i, err)
			}
			if me.Pos.Filename != scanName || !t.ok(me.Pos) || me.Pos.Offset < want.start || me.Pos.Offset > off+len(string(sc.LastScanRaw())) {
				return fmt.Sprintf("token %d: the error is at %s of %q, the malformed token starts at %s and %q has been read", i, showP(me.Pos), me.Pos.Filename, showPos(t, want.start), string(sc.LastScanRaw()))
			}
			return ""
		}
		if text != want.text {
			return fmt.Sprintf("token %d is %q, model: %q", i, text, want.text)
		}
		raw := string(sc.LastScanRaw())
		end, ok := rawEnd(src, off, want.end, raw)
		if !ok {
			return fmt.Sprintf("token %d %q has raw text %q, but the input has %q there", i, text, raw, src[off:want.end])
		}
		off = end
		if want.kind == scanner.TEOF {
			if off != len(src) {
				return "end of file before the end"
			}
			return ""
		}
	}
}

func scanCase(modes []scanner.Mode) func(w *Worker, src string) {
	return func(w *Worker, src string) {
		t := newPosTable(src)
		for _, m := range modes {
			w.begin("scan", src)
			s := scanAll(src, m, t, func(k, prev scanner.Token, mode scanner.Mode) {
				w.cov.states[uint64(prev)<<8|uint64(mode)] = struct{}{}
				w.cov.trans[uint64(k)<<16|uint64(prev)<<8|uint64(mode)] = struct{}{}
			})
			w.end()
			w.compared++
			if s != "" {
				m := m
				w.fail(violation{What: "scanning gives other tokens than the lexical grammar", Config: fmt.Sprintf("mode %06b", m), Input: src, Got: s,
					again: func() bool { return scanAll(src, m, newPosTable(src), nil) != "" }})
				return
			}
		}
	}
}

// lexAll reads src through the lexer with one of its reading calls to the end
// and compares with the model; "" if equal.
func lexAll(src string, op lop, t *posTable) (s string) {
	if pe := guard(func() { s = lexAll1(src, op, t) }); pe != nil {
		return pe.Error()
	}
	return s
}

func lexAll1(src string, op lop, t *posTable) string {
	lx := lexer.NewLexer(strings.NewReader(src), lexer.WithFilename(scanName))
	calls := 0
	var last error
	var who *lexer.Lexer
	lx.Error = func(l *lexer.Lexer, err error) { calls, last, who = calls+1, err, l }
	off := 0
	for i := 0; ; i++ {
		want := refScan(src, off, op.mode)
		switch op.name {
		case "Next":
			lx.Next()
		case "NextKeyword":
			lx.NextKeyword()
		case "NextLit":
			lx.NextLit()
		case "NextComment":
			lx.NextComment()
		case "NextStrLit":
			lx.NextStrLit()
		case "NextNumberLit":
			lx.NextNumberLit()
		case "NextKeywordOrStrLit":
			lx.NextKeywordOrStrLit()
		}
		if lx.Token != want.kind || !want.err && lx.Text != want.text {
			return fmt.Sprintf("token %d has kind %d (%q), model: kind %d %q", i, lx.Token, lx.Text, want.kind, want.text)
		}
		if !posIs(t, lx.Pos.Position, want.start) || lx.Pos.Filename != scanName {
			return fmt.Sprintf("token %d %q is at %s, model: %s", i, lx.Text, showP(lx.Pos.Position), showPos(t, want.start))
		}
		if lx.IsEOF() != (want.kind == scanner.TEOF) {
			return fmt.Sprintf("token %d: IsEOF is %v", i, lx.IsEOF())
		}
		if want.err {
			if calls != 1 || last == nil || who != lx || lx.LatestErr() != last {
				return fmt.Sprintf("token %d is malformed: the error handler has been called %d times (%v), the latest error is %v", i, calls, last, lx.LatestErr())
			}
			return ""
		}
		if calls != 0 || lx.LatestErr() != nil {
			return fmt.Sprintf("token %d %q is well-formed: the error handler has been called %d times (%v), the latest error is %v", i, want.text, calls, last, lx.LatestErr())
		}
		end, ok := rawEnd(src, off, want.end, string(lx.RawText))
		if !ok {
			return fmt.Sprintf("token %d %q has raw text %q, but the input has %q there", i, lx.Text, string(lx.RawText), src[off:want.end])
		}
		off = end
		if want.kind == scanner.TEOF {
			if lx.ReadErr() != nil {
				return fmt.Sprintf("read error %v of a complete input", lx.ReadErr())
			}
			return ""
		}
	}
}

func lexCase(w *Worker, src string) {
	t := newPosTable(src)
	for _, op := range lops[:7] {
		w.begin("lex", src)
		s := lexAll(src, op, t)
		w.end()
		w.compared++
		if s != "" {
			op := op
			w.fail(violation{What: "the lexer gives other tokens or errors than the lexical grammar", Config: op.name, Input: src, Got: s,
				again: func() bool { return lexAll(src, op, newPosTable(src)) != "" }})
			return
		}
	}
}

// modesOver gives all mode words over the given bits.
func modesOver(bits ...scanner.Mode) []scanner.Mode {
	out := []scanner.Mode{0}
	for _, b := range bits {
		for _, m := range out[:len(out):len(out)] {
			out = append(out, m|b)
		}
	}
	return out
}

func words(name string, frags []string, k int) uni {
	return chars(name, "", "", frags, k)
}

var (
	scanChars = append(split("a_0x1e.\"'\\/*\n ;{8-"), "é", "\u00a0", "\ufeff", "\x00", "\r")
	kwFrags   = func() []string {
		out := []string{"true", "false", "inf", "nan", "_", "x", "1", "0", " ", "\n", "/**/", "//c\n", ".", ";", "\"", "é", "e", "messages", "Message", "truey", "infx"}
		for k := range refKeywords {
			out = append(out, k)
		}
		sortStrings(out)
		return out
	}()
	asciiChars = func() []string {
		var out []string
		for c := 0; c < 128; c++ {
			out = append(out, string(rune(c)))
		}
		return append(out, "\u0085", "\u00a0", "\u1680", "\u2000", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000", "\u200b", "\ufeff", "\ufffd", "é", "世", "😀", "٣", "À", "ſ", "K")
	}()
)

func init() {
	checks["C16"] = check{"model_checking", "every text of the listed spaces is scanned to its end in every mode by lexer/scanner and by the model (maximal munch over the whole text); kinds, texts, raw texts, positions and errors are compared token by token; states are (kind of the previous token, mode), transitions add the kind of the next", func(r *Run) {
		all := modesOver(scanner.ScanNumberLit, scanner.ScanStrLit, scanner.ScanBoolLit, scanner.ScanKeyword, scanner.ScanComment)
		withIdent := modesOver(scanner.ScanIdent, scanner.ScanNumberLit, scanner.ScanStrLit, scanner.ScanBoolLit, scanner.ScanKeyword, scanner.ScanComment)
		r.each([]uni{chars("ascii", "", "", asciiChars, 2)}, scanCase(withIdent[:r.q(64, 64)]))
		for _, c := range []string{"0x", "0x1", "0", "1.", "1e", "1e+", ".", "\"\\", "\"\\x", "\"\\0", "\"\\x4", "'\\u", "/", "/*", "a", "0x1 0"} {
			r.each([]uni{chars("ascii-after-"+c, c, "", asciiChars[:128], r.q(2, 2))}, scanCase([]scanner.Mode{scanner.ScanLit | scanner.ScanComment, scanner.ScanLit | scanner.ScanKeyword}[:r.q(1, 2)]))
		}
		r.each([]uni{chars("ascii-triples", "", "", asciiChars[:128], 3)}, scanCase([]scanner.Mode{scanner.ScanLit | scanner.ScanComment, scanner.ScanLit | scanner.ScanKeyword}[:r.q(1, 2)]))
		r.each([]uni{chars("lexer-mixed", "", "", scanChars, r.q(3, 4)), words("lexer-keywords", kwFrags, 2)}, lexCase)
		r.each([]uni{chars("lexer-number", "", "", split("018xeE.+-fa "), r.q(4, 5)), chars("lexer-string", "", "", append(split(`"'\x40na `), "\n"), r.q(4, 5)), chars("lexer-comment", "", "", append(split("/*\na\""), "é"), r.q(5, 6))}, lexCase)
		r.each([]uni{filesUni(), prefixUni("lexer-valid", validDocs, 1)}, lexCase)
		r.each([]uni{chars("mixed", "", "", scanChars, r.q(3, 4))}, scanCase(all))
		r.each([]uni{words("keywords", kwFrags, r.q(2, 3))}, scanCase(all))
		r.each([]uni{chars("number", "", "", split("01789xXeE.+-fa"), r.q(5, 6))}, scanCase(modesOver(scanner.ScanNumberLit)))
		r.each([]uni{chars("number-in-literal-mode", "", "", split("0189xe.-\" "), r.q(5, 6))}, scanCase([]scanner.Mode{scanner.ScanLit, scanner.ScanLit | scanner.ScanComment, scanner.ScanKeyword}))
		r.each([]uni{chars("string", "", "", append(split(`"'\x140na8`), "\n"), r.q(5, 6))}, scanCase([]scanner.Mode{scanner.ScanStrLit, scanner.ScanLit}))
		r.each([]uni{chars("in-string", `"`, `" a`, append(split(`"'\x140na8/`), "é", "\n", "\x00"), r.q(4, 5))}, scanCase([]scanner.Mode{scanner.ScanStrLit, scanner.ScanLit}))
		r.each([]uni{chars("comment", "", "", append(split("/*\na\""), "é", "\r"), r.q(6, 7))}, scanCase(modesOver(scanner.ScanComment)))
		r.each([]uni{chars("in-comment", "/*", "*/ b", append(split("/*\na\""), "é", "\r"), r.q(5, 6))}, scanCase(modesOver(scanner.ScanComment)))
		r.each([]uni{chars("unicode", "", "", unsChars, r.q(3, 4))}, scanCase([]scanner.Mode{0, scanner.ScanLit | scanner.ScanComment, scanner.ScanStrLit}))
		var long []string
		for _, n := range []int{15, 16, 17, 63, 64, 65, 1023, 1024, 4095, 4096, 4097} {
			x := strings.Repeat("x", n)
			d := strings.Repeat("7", n)
			long = append(long, x+".", d+" "+x, d+"."+d+"e"+d+";", "0x"+d+" a", "0"+d+" 8", "\""+x+"\" a", "/*"+x+"*/ a", "//"+x+"\na", strings.Repeat(" ", n)+"a", strings.Repeat("\n", n)+"a", strings.Repeat("é", n)+"a", x+"é"+x)
		}
		r.each([]uni{codepoints("alone", "", "", true)}, scanCase([]scanner.Mode{0, scanner.ScanLit}[:r.q(1, 2)]))
		r.each([]uni{codepoints("between", "a", "1", true)}, scanCase([]scanner.Mode{scanner.ScanLit | scanner.ScanComment}))
		r.each([]uni{codepoints("in-string", "\"", "\"a", true)}, scanCase([]scanner.Mode{scanner.ScanStrLit}))
		r.each([]uni{codepoints("in-comment", "//", "\n/**/a", true)}, scanCase([]scanner.Mode{scanner.ScanComment, 0}[:r.q(1, 2)]))
		r.each(r.pumpUnis(5, 1025, 5), scanCase([]scanner.Mode{scanner.ScanLit | scanner.ScanComment, scanner.ScanKeyword}))
		r.each([]uni{hugeUni()}, scanCase([]scanner.Mode{scanner.ScanLit | scanner.ScanComment}))
		var huge []string
		for _, c := range [][3]string{{"", "a_9", "."}, {"", "7", " a"}, {"0x", "f", ";"}, {"0", "7", "8"}, {"1.", "5", "e1"}, {".5e", "0", "a"}, {"\"", "x", "\" a"}, {"'", "\\x4", "'a"}, {"\"", "é", "\" a"}, {"//", "\t", "\na"}, {"/*", "*", "/ a"}, {"", "{", "a"}} {
			huge = append(huge, c[0]+strings.Repeat(c[1], 66000)+c[2])
		}
		r.each([]uni{listUni("huge", huge)}, scanCase([]scanner.Mode{scanner.ScanLit | scanner.ScanComment}))
		r.each([]uni{listUni("long", long)}, scanCase([]scanner.Mode{0, scanner.ScanLit, scanner.ScanComment, scanner.ScanLit | scanner.ScanKeyword}))
		r.each([]uni{filesUni(), prefixUni("valid", validDocs, 1)}, scanCase([]scanner.Mode{0, scanner.ScanLit, scanner.ScanLit | scanner.ScanComment, scanner.ScanKeyword | scanner.ScanStrLit}))
		if r.thorough() {
			r.each([]uni{prefixUni("big", []string{bigDoc}, 1), seqUni(2), formsUni(2), gapsUni(1)}, scanCase([]scanner.Mode{0, scanner.ScanLit, scanner.ScanLit | scanner.ScanComment, scanner.ScanKeyword | scanner.ScanStrLit}))
		}
	}}
}

// ---- C15 ---------------------------------------------------------------------

type lop struct {
	name string
	mode scanner.Mode
	kind byte // a advance, p peek n, c consume, u put back, U put back by raw text, n next n
	n    int
	tok  scanner.Token
}

var lops = []lop{
	{"Next", 0, 'a', 1, 0},
	{"NextKeyword", scanner.ScanKeyword, 'a', 1, 0},
	{"NextLit", scanner.ScanLit, 'a', 1, 0},
	{"NextComment", scanner.ScanComment, 'a', 1, 0},
	{"NextStrLit", scanner.ScanStrLit, 'a', 1, 0},
	{"NextNumberLit", scanner.ScanNumberLit, 'a', 1, 0},
	{"NextKeywordOrStrLit", scanner.ScanKeyword | scanner.ScanStrLit, 'a', 1, 0},
	{"UnNext", 0, 'u', 1, 0},
	{"UnNextTo", 0, 'U', 1, 0},
	{"Peek", 0, 'p', 1, 0},
	{"PeekN(2)", 0, 'p', 2, 0},
	{"PeekN(3)", 0, 'p', 3, 0},
	{"ConsumeToken(;)", 0, 'c', 1, scanner.TSEMICOLON},
	{"ConsumeToken(ident)", 0, 'c', 1, scanner.TIDENT},
	{"NextN(2)", 0, 'n', 2, 0},
}

type advance struct {
	from int // place before
	raw  []rune
	text string // copy of the raw text
}

// lexRun replays ops on a new lexer and on the model.  It returns "" or what
// differs; ok tells whether the last op was possible.
func lexRun(src string, t *posTable, ops []int, visit func(st uint64)) (msg string, ok bool) {
	if pe := guard(func() { msg, ok = lexRun1(src, t, ops, visit) }); pe != nil {
		return pe.Error(), true
	}
	return
}

func lexRun1(src string, t *posTable, ops []int, visit func(st uint64)) (string, bool) {
	lx := lexer.NewLexer(strings.NewReader(src), lexer.WithFilename(scanName))
	off := 0
	var stack []advance
	fresh := false  // the last op was an advance: it can be put back by UnNext
	broken := false // behind a scanning error
	st := hash64(src)
	var seen []int   // where the comments passed so far start
	unclear := false // a comment was found behind another one that had been found before it
	pass := func(from int, t rtok) {
		for end := t.end; from < end; {
			c, sz := utf8.DecodeRuneInString(src[from:])
			if from >= t.start && t.kind != scanner.TCOMMENT {
				return
			}
			if c != '/' {
				from += sz
				continue
			}
			n, ok := refComment(src[from:])
			if !ok {
				return
			}
			k := sort.SearchInts(seen, from)
			switch {
			case k < len(seen) && seen[k] == from:
			case k < len(seen):
				unclear = true
			default:
				seen = append(seen, from)
			}
			from += n
		}
	}
	adv := func(mode scanner.Mode, do func()) string {
		want := refScan(src, off, mode)
		pass(off, want)
		do()
		if lx.Token != want.kind {
			return fmt.Sprintf("at offset %d: kind %d (%q), model: kind %d %q", off, lx.Token, lx.Text, want.kind, want.text)
		}
		if lx.IsEOF() != (want.kind == scanner.TEOF) {
			return "IsEOF is wrong"
		}
		if !posIs(t, lx.Pos.Position, want.start) || lx.Pos.Filename != scanName {
			return fmt.Sprintf("at offset %d: token %q at %s, model: %s", off, lx.Text, showP(lx.Pos.Position), showPos(t, want.start))
		}
		if want.err {
			if lx.LatestErr() == nil {
				return fmt.Sprintf("at offset %d: no error, model: malformed token", off)
			}
			stack = append(stack, advance{off, lx.RawText, string(lx.RawText)})
			fresh, broken = true, true
			return ""
		}
		if lx.Text != want.text {
			return fmt.Sprintf("at offset %d: text %q, model: %q", off, lx.Text, want.text)
		}
		end, ok := rawEnd(src, off, want.end, string(lx.RawText))
		if !ok {
			return fmt.Sprintf("at offset %d: raw text %q, model: %q", off, string(lx.RawText), src[off:want.end])
		}
		stack = append(stack, advance{off, lx.RawText, src[off:end]})
		fresh = true
		off = end
		return ""
	}
	for i, oi := range ops {
		o := lops[oi]
		if visit != nil && i == len(ops)-1 {
			h := st
			for _, a := range stack {
				h = (h ^ uint64(a.from+1)) * 1099511628211
				h = (h ^ uint64(len(a.text)+1)) * 1099511628211
			}
			h = (h ^ uint64(off)) * 1099511628211
			if fresh {
				h++
			}
			visit(h)
		}
		if broken && o.kind != 'u' && o.kind != 'U' {
			return "", false
		}
		switch o.kind {
		case 'a':
			var f func()
			switch oi {
			case 0:
				f = lx.Next
			case 1:
				f = lx.NextKeyword
			case 2:
				f = lx.NextLit
			case 3:
				f = lx.NextComment
			case 4:
				f = lx.NextStrLit
			case 5:
				f = lx.NextNumberLit
			case 6:
				f = lx.NextKeywordOrStrLit
			}
			if s := adv(o.mode, f); s != "" {
				return s, true
			}
		case 'n':
			// two tokens at once: only the second can be put back
			a := refScan(src, off, 0)
			if a.err {
				return "", false
			}
			pass(off, a)
			first := advance{off, nil, src[off:a.end]}
			off = a.end
			first.raw = []rune(first.text)
			stack = append(stack, first)
			if s := adv(0, func() { lx.NextN(2) }); s != "" {
				return s, true
			}
		case 'u', 'U':
			if len(stack) == 0 || (o.kind == 'u' && !fresh) {
				return "", false
			}
			a := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if string(a.raw) != a.text {
				return fmt.Sprintf("the saved raw text of offset %d became %q, was %q", a.from, string(a.raw), a.text), true
			}
			if o.kind == 'u' {
				lx.UnNext()
			} else {
				lx.UnNextTo(a.raw)
			}
			off = a.from
			fresh, broken = false, false
			if !posIs(t, lx.Pos.Position, off) {
				return fmt.Sprintf("put back to offset %d, but the position is %s", off, showP(lx.Pos.Position)), true
			}
		case 'p':
			place, bad := off, false
			var want rtok
			for k := 0; k < o.n; k++ {
				want = refScan(src, place, 0)
				if want.err {
					bad = true
				}
				if bad {
					unclear = true // it goes on behind the malformed one
				}
				pass(place, want)
				place = want.end
			}
			var got scanner.Token
			if o.n == 1 {
				got = lx.Peek()
			} else {
				got = lx.PeekN(o.n)
			}
			if !bad && got != want.kind {
				return fmt.Sprintf("%s at offset %d: kind %d, model: %d %q", o.name, off, got, want.kind, want.text), true
			}
			fresh = false
		case 'c':
			want := refScan(src, off, 0)
			pass(off, want)
			lx.ConsumeToken(o.tok)
			if want.kind == o.tok {
				end, ok := rawEnd(src, off, want.end, string(lx.RawText))
				if !ok {
					return fmt.Sprintf("at offset %d: raw text %q, model: %q", off, string(lx.RawText), src[off:want.end]), true
				}
				stack = append(stack, advance{off, lx.RawText, src[off:end]})
				if lx.Token != o.tok || lx.Text != want.text || !posIs(t, lx.Pos.Position, want.start) {
					return fmt.Sprintf("ConsumeToken at offset %d: %q at %s, model: %q at %s", off, lx.Text, showP(lx.Pos.Position), want.text, showPos(t, want.start)), true
				}
				off = end
				fresh = true
			} else {
				fresh = false
			}
		}
	}
	if !unclear {
		if s := midComments(lx, src, t, seen); s != "" {
			return s, true
		}
	}
	// wherever we are, what follows is what the text has there
	if !broken {
		for k := 0; k < 3; k++ {
			m := []scanner.Mode{scanner.ScanComment, scanner.ScanLit, 0}[k]
			f := []func(){lx.NextComment, lx.NextLit, lx.Next}[k]
			if refScan(src, off, m).err {
				break
			}
			if s := adv(m, f); s != "" {
				return "then " + s, true
			}
		}
	}
	return "", true
}

// midComments asks for the comments between any two places.
func midComments(lx *lexer.Lexer, src string, t *posTable, seen []int) string {
	at := func(i int) (p scanner.Position) {
		p.Offset = i
		return
	}
	for i := -1; i < len(seen); i++ {
		for j := len(seen); j > i; j-- {
			from, to := -1, len(src)+1
			if i >= 0 {
				from = seen[i]
			}
			if j < len(seen) {
				to = seen[j]
			}
			got := lx.FindMidComments(at(from), at(to))
			want := seen[i+1 : max(j, i+1)]
			if len(got) != len(want) {
				return fmt.Sprintf("between %d and %d: %d comments, model: %d", from, to, len(got), len(want))
			}
			for k := range want {
				n, _ := refComment(src[want[k]:])
				if got[k].Literal != src[want[k]:want[k]+n] || !posIs(t, got[k].Pos.Position, want[k]) || got[k].Pos.Filename != scanName {
					return fmt.Sprintf("between %d and %d: comment %q at %s, model: %q at %s", from, to, got[k].Literal, showP(got[k].Pos.Position), src[want[k]:want[k]+n], showPos(t, want[k]))
				}
			}
		}
	}
	return ""
}

func opNames(ops []int) string {
	var out []string
	for _, o := range ops {
		out = append(out, lops[o].name)
	}
	return strings.Join(out, ", ")
}

var lookTexts = []string{
	"", ";", "a;", "a.b", ";;", " ; ", "\n\n", "message M", "true.inf", "\"s\"\"t\"", "\"a\n", "1.5e3;", "0x;", "-1", "//c\na", "/*c*/;", "/*c*//*d*/ a //e", "//c", "/*", "/x",
	"\n;\n//é\n世", "é😀;", "\ufeff;", "a\r\n;", "\t'x'\n 'y'", "stream A", "group=1;", ".5.", "a/**/b", "  //x\n  //y\n  z", "\x00;", "nan 1e", "a\n\n\nb;",
}

func init() {
	checks["C15"] = check{"model_checking", "all sequences of lexer operations (advance in every mode, peek, consume, put back by UnNext or by saved raw texts) up to a depth are executed on every text, each from a new lexer; every result is compared with a cursor over the text; states are (text, place, saved raw texts), transitions add the operation", func(r *Run) {
		depth := r.q(5, 6)
		n := len(lops)
		explore := func(name string, texts []string, depth int) {
			r.Space(name, fmt.Sprintf("all sequences of <= %d of %d operations on %d texts", depth, n, len(texts)), len(texts)*n, func(w *Worker, task int) {
				src := texts[task/n]
				t := newPosTable(src)
				var rec func(ops []int)
				rec = func(ops []int) {
					if w.stopped() {
						return
					}
					w.cases++
					w.begin("lexer operations", src)
					var st uint64
					s, ok := lexRun(src, t, ops, func(h uint64) { st = h })
					w.end()
					if !ok {
						return
					}
					w.cov.states[st] = struct{}{}
					w.cov.trans[st*31+uint64(ops[len(ops)-1])] = struct{}{}
					w.compared++
					if s != "" {
						o := append([]int(nil), ops...)
						w.fail(violation{What: "the lexer is not a cursor over the text", Config: opNames(o), Input: src, Got: s,
							again: func() bool { s, _ := lexRun(src, newPosTable(src), o, nil); return s != "" }})
						return
					}
					if len(ops) == 3 && task == n/2 && w.cases < 200 {
						w.sample(map[string]string{"text": src, "operations": opNames(ops)})
					}
					if len(ops) == depth {
						return
					}
					for o := range lops {
						rec(append(ops[:len(ops):len(ops)], o))
					}
				}
				rec([]int{task % n})
			})
		}
		explore("operations", lookTexts, depth-1)
		explore("operations-deeper", lookTexts[:r.q(8, 20)], depth)
		var long []string
		for _, m := range []string{strings.Repeat(" ", 4200), strings.Repeat("\n", 300), "/*" + strings.Repeat("é", 2100) + "*/", " //" + strings.Repeat("x", 4200) + "\n", strings.Repeat("/*c*/", 70), "b" + strings.Repeat("c", 4200), "\"" + strings.Repeat("d", 4200) + "\"", ".1" + strings.Repeat("0", 4200)} {
			long = append(long, "a"+m+";é")
		}
		explore("operations-long-texts", long, r.q(3, 4))
		// all short texts, all short sequences
		r.each([]uni{chars("texts", "", "", append(split("a;.\"/*\n 1"), "é"), r.q(3, 4))}, func(w *Worker, src string) {
			t := newPosTable(src)
			for a := 0; a < n; a++ {
				for b := -1; b < n; b++ {
					for c := -1; c < n; c++ {
						if b < 0 && c >= 0 {
							continue
						}
						ops := []int{a}
						if b >= 0 {
							ops = append(ops, b)
						}
						if c >= 0 {
							ops = append(ops, c)
						}
						if len(src) >= w.run.q(3, 4) && len(ops) == 3 && lops[a].kind != 'a' {
							continue
						}
						w.begin("lexer operations", src)
						var st uint64
						s, ok := lexRun(src, t, ops, func(h uint64) { st = h })
						w.end()
						if !ok {
							continue
						}
						w.cov.states[st] = struct{}{}
						w.cov.trans[st*31+uint64(ops[len(ops)-1])] = struct{}{}
						w.compared++
						if s != "" {
							w.fail(violation{What: "the lexer is not a cursor over the text", Config: opNames(ops), Input: src, Got: s,
								again: func() bool { s, _ := lexRun(src, newPosTable(src), ops, nil); return s != "" }})
							return
						}
					}
				}
			}
		})
		// go to the end of longer texts and all the way back
		r.each([]uni{filesUni(), prefixUni("valid", validDocs, 1)}, func(w *Worker, src string) {
			if len(src) > 6000 && !w.run.thorough() {
				return
			}
			for mode := 0; mode < 7; mode++ {
				w.begin("to the end and back", src)
				s := thereAndBack(src, mode)
				w.end()
				w.compared++
				if s != "" {
					mode := mode
					w.fail(violation{What: "the lexer is not a cursor over the text", Config: "to the end by " + lops[mode].name + " and back", Input: src, Got: s,
						again: func() bool { return thereAndBack(src, mode) != "" }})
					return
				}
			}
		})
	}}
}

func thereAndBack(src string, mode int) (msg string) {
	if pe := guard(func() { msg = thereAndBack1(src, mode) }); pe != nil {
		return pe.Error()
	}
	return
}

func thereAndBack1(src string, mode int) string {
	lx := lexer.NewLexer(strings.NewReader(src))
	t := newPosTable(src)
	step := []func(){lx.Next, lx.NextKeyword, lx.NextLit, lx.NextComment, lx.NextStrLit, lx.NextNumberLit, lx.NextKeywordOrStrLit}[mode]
	var saved []advance
	off := 0
	for i := 0; i < 1<<20; i++ {
		want := refScan(src, off, lops[mode].mode)
		step()
		if lx.Token != want.kind || (lx.LatestErr() != nil) != want.err || !posIs(t, lx.Pos.Position, want.start) {
			return fmt.Sprintf("at offset %d: kind %d %q at %s, model %+v", off, lx.Token, lx.Text, showP(lx.Pos.Position), want)
		}
		saved = append(saved, advance{off, lx.RawText, string(lx.RawText)})
		if want.err || want.kind == scanner.TEOF {
			break
		}
		end, ok := rawEnd(src, off, want.end, string(lx.RawText))
		if !ok {
			return fmt.Sprintf("at offset %d: raw text %q, model: %q", off, string(lx.RawText), src[off:want.end])
		}
		off = end
	}
	for i := len(saved) - 1; i >= 0; i-- {
		a := saved[i]
		if string(a.raw) != a.text {
			return fmt.Sprintf("the saved raw text of offset %d became %q, was %q", a.from, string(a.raw), a.text)
		}
		lx.UnNextTo(a.raw)
		if !posIs(t, lx.Pos.Position, a.from) {
			return fmt.Sprintf("put back to offset %d, but the position is %s", a.from, showP(lx.Pos.Position))
		}
		if i%7 == 0 || i < 3 {
			// have a look and put it back again
			want := refScan(src, a.from, scanner.ScanComment)
			lx.NextComment()
			if lx.Token != want.kind || (!want.err && lx.Text != want.text) || !posIs(t, lx.Pos.Position, want.start) {
				return fmt.Sprintf("back at offset %d: kind %d %q at %s, model %+v", a.from, lx.Token, lx.Text, showP(lx.Pos.Position), want)
			}
			lx.UnNext()
		}
	}
	off = 0
	for i := 0; i < 1<<20; i++ {
		want := refScan(src, off, 0)
		lx.Next()
		if lx.Token != want.kind || (!want.err && lx.Text != want.text) || !posIs(t, lx.Pos.Position, want.start) {
			return fmt.Sprintf("second time at offset %d: kind %d %q at %s, model %+v", off, lx.Token, lx.Text, showP(lx.Pos.Position), want)
		}
		if want.err || want.kind == scanner.TEOF {
			return ""
		}
		off = want.end
	}
	return ""
}

// ---- C18 ---------------------------------------------------------------------

type reading struct {
	name string
	mode scanner.Mode
	do   func(lx *lexer.Lexer) (string, scanner.Position, error)
	ref  func(r *ref) string
}

var readings = []reading{
	{"ReadFullIdent", 0, func(lx *lexer.Lexer) (string, scanner.Position, error) { return lx.ReadFullIdent() }, (*ref).fullIdent},
	{"ReadMessageType", 0, func(lx *lexer.Lexer) (string, scanner.Position, error) { return lx.ReadMessageType() }, (*ref).messageType},
	{"ReadEnumType", 0, func(lx *lexer.Lexer) (string, scanner.Position, error) { return lx.ReadEnumType() }, (*ref).messageType},
	{"ReadConstant(strict)", scanner.ScanLit, func(lx *lexer.Lexer) (string, scanner.Position, error) { return lx.ReadConstant(false) }, (*ref).scalar},
	{"ReadConstant(permissive)", scanner.ScanLit, func(lx *lexer.Lexer) (string, scanner.Position, error) { return lx.ReadConstant(true) }, (*ref).scalar},
	{"ReadEmptyStatement", 0, func(lx *lexer.Lexer) (string, scanner.Position, error) {
		err := lx.ReadEmptyStatement()
		return "", scanner.Position{}, err
	}, func(r *ref) string { r.semi(); return "" }},
}

// modelRead runs a construct of the grammar model on the tokens of src[off:].
func modelRead(src string, off int, rd *reading, permissive bool) (text string, start, end int, ok bool) {
	var r ref
	r.cfg = refCfg{permissive: permissive}
	// tokens in the mode of the reader; the parts of an identifier are read
	// without literals
	mode := rd.mode
	if refScan(src, off, mode).kind == scanner.TIDENT {
		mode = 0
	}
	o := off
	for {
		t := refScan(src, o, mode)
		k := kPunct
		switch {
		case t.err:
			k = kBad
		case t.kind == scanner.TEOF:
			k = kEOF
		case t.kind == scanner.TSTRLIT:
			k = kStr
		case t.kind == scanner.TINTLIT:
			k = kInt
		case rIdentStart(rune(t.text[0])):
			k = kIdent
		case t.kind == scanner.TFLOATLIT:
			k = kFloat
		}
		r.toks = append(r.toks, tok{kind: k, text: t.text, pos: meta.Position{Offset: t.start}, end: t.end})
		if k == kEOF || k == kBad {
			break
		}
		o = t.end
	}
	if k := r.toks[len(r.toks)-1]; k.kind == kBad {
		r.toks = append(r.toks, tok{kind: kEOF, pos: k.pos, end: k.end})
	}
	rej := -1
	r.try(r.cfg, func() { text = rd.ref(&r) }, &rej)
	if rej >= 0 || r.i == 0 {
		return "", 0, 0, false
	}
	return text, r.toks[0].pos.Offset, r.toks[r.i-1].end, true
}

// readFrom: skip tokens, then read the construct; "" if as in the model.
func readFrom(src string, t *posTable, skip int, rd *reading) (msg string) {
	if pe := guard(func() { msg = readFrom1(src, t, skip, rd) }); pe != nil {
		return pe.Error()
	}
	return
}

func readFrom1(src string, t *posTable, skip int, rd *reading) string {
	lx := lexer.NewLexer(strings.NewReader(src), lexer.WithFilename(scanName))
	off := 0
	for i := 0; i < skip; i++ {
		x := refScan(src, off, 0)
		if x.err || x.kind == scanner.TEOF {
			return ""
		}
		lx.Next()
		off = x.end
	}
	text, start, end, ok := modelRead(src, off, rd, rd.name == "ReadConstant(permissive)")
	got, pos, err := rd.do(lx)
	where := fmt.Sprintf("%s at offset %d", rd.name, off)
	if (err == nil) != ok {
		return fmt.Sprintf("%s: %q, error %v; model: success %v %q", where, got, err, ok, text)
	}
	if !ok {
		return ""
	}
	if !constEq(text, got) {
		return fmt.Sprintf("%s: %q, model: %q", where, got, text)
	}
	if rd.name != "ReadEmptyStatement" && (!posIs(t, pos.Position, start) || pos.Filename != scanName) {
		return fmt.Sprintf("%s: starts at %s, model: %s", where, showP(pos.Position), showPos(t, start))
	}
	// what comes next, in several modes
	for k, m := range []scanner.Mode{scanner.ScanComment, scanner.ScanKeyword, scanner.ScanLit, 0} {
		want := refScan(src, end, m)
		if k == 0 && refScan(src, end, 0).kind == scanner.TEOF {
			continue // the next token is the end of the file; comments before it may be gone
		}
		[]func(){lx.NextComment, lx.NextKeyword, lx.NextLit, lx.Next}[k]()
		if lx.Token != want.kind || (!want.err && lx.Text != want.text) || !posIs(t, lx.Pos.Position, want.start) {
			return fmt.Sprintf("%s: followed by kind %d %q at %s, model: kind %d %q at %s", where, lx.Token, lx.Text, showP(lx.Pos.Position), want.kind, want.text, showPos(t, want.start))
		}
		lx.UnNext()
	}
	return ""
}

func readCase(skips int) func(w *Worker, src string) {
	return func(w *Worker, src string) {
		t := newPosTable(src)
		for i := range readings {
			for k := 0; k <= skips; k++ {
				rd := &readings[i]
				w.begin(rd.name, src)
				s := readFrom(src, t, k, rd)
				w.end()
				w.compared++
				if s != "" {
					k := k
					w.fail(violation{What: "a construct is not read as the grammar has it", Config: fmt.Sprintf("%s behind %d tokens", rd.name, k), Input: src, Got: s,
						again: func() bool { return readFrom(src, newPosTable(src), k, rd) != "" }})
					return
				}
			}
		}
		// coverage: the construct the model sees at the start
		for i := range readings {
			text, start, end, ok := modelRead(src, 0, &readings[i], true)
			h := uint64(i)
			if ok {
				h |= 8
			}
			o := 0
			for n := 0; n < 6; n++ {
				x := refScan(src, o, readings[i].mode)
				if x.err || x.kind == scanner.TEOF || (ok && x.end > end) {
					h = h<<6 | 63
					break
				}
				h = h<<6 | uint64(x.kind)
				w.cov.trans[h] = struct{}{}
				o = x.end
			}
			w.cov.states[h] = struct{}{}
			if ok {
				w.note(readings[i].name + " succeeds")
			} else {
				w.note(readings[i].name + " fails")
			}
			_, _ = text, start
		}
	}
}

var (
	readToks = f(`a b1 . .. true false inf nan message stream 1 0x1F 017 1.5 1e3 .5 "s" 's' "\x4" "4" - + ; { = ,`)
	readMore = append(append([]string{}, readToks...), "/*c*/", "//c\n", "\n", "\"\"", "'\"'", `"\1"`, `"é"`, "é", "_x", "0x", "\"", "1e", ":", "}", "[", "]", "(", ")", "<", ">", "08", "-1")
)

func init() {
	checks["C18"] = check{"model_checking", "all short token strings (with and without blanks between tokens) are read by every construct reader from their start and from behind one and two tokens; success, text, start position and the following token in four modes are compared with the grammar model; states are (reader, token kinds consumed), transitions their prefixes", func(r *Run) {
		mk := func(name string, toks []string, k int, sep string) uni {
			n := len(toks)
			return uni{"tokens/" + name, fmt.Sprintf("all strings of <= %d of %d tokens", k, n), n + 1, func(w *Worker, task int, visit visitFn) {
				if task == 0 {
					visit("")
					visit(" ")
					return
				}
				var rec func(s string, left int)
				rec = func(s string, left int) {
					if w.stopped() {
						return
					}
					visit(s)
					if left == 0 {
						return
					}
					for _, t := range toks {
						rec(s+sep+t, left-1)
					}
				}
				rec(toks[task-1], k-1)
			}}
		}
		r.each([]uni{mk("spaced", readToks, r.q(3, 4), " "), mk("joined", readMore, 3, "")}, readCase(2))
		r.each([]uni{mk("lines", readMore, r.q(2, 3), "\n"), mk("comments", readMore, r.q(2, 3), "/*é*/")}, readCase(1))
		r.each([]uni{mk("idents", f(`a . true message /**/ ; 1`), r.q(6, 7), "")}, readCase(0))
		r.each([]uni{mk("idents-spaced", f(`a . inf rpc ; 1`), r.q(6, 7), " ")}, readCase(0))
		r.each([]uni{mk("strings", append(f(`"a" 'b' "" "\x4" "\1" '"' "4" ; /**/ a`), "\n"), r.q(5, 6), "")}, readCase(0))
		r.each([]uni{mk("numbers", f(`- + 1 0x1F 1.5 .5 inf nan true . a "s" ; 07 1e5`), r.q(4, 5), "")}, readCase(0))
		r.each([]uni{chars("constant", "", "", litChars, r.q(3, 4)), chars("escapes", `"`, `" "b"`, escChars, r.q(4, 5)), chars("escapes-followed", `"`, `" "1"`, split(`\1xX8`), r.q(5, 6))}, readCase(0))
		var long []string
		for _, n := range []int{3, 10, 100, 2000} {
			long = append(long, "a"+strings.Repeat(".b", n)+";", strings.Repeat(".b", n), strings.Repeat(`"x" `, n)+";", strings.Repeat(" ", n)+"-"+strings.Repeat("\n", n)+"1", "a"+strings.Repeat(" /*c*/ .\nb", n))
		}
		r.each([]uni{listUni("long", long)}, readCase(1))
	}}
}

// ---- C19 ---------------------------------------------------------------------

var posRunes = []rune{'a', '\n', 'é', '世', '😀', '\r', '\t'}

// posOps replays ops (rune index, or -1 to take the last one back) and checks
// the position after each; then saved copies and one-step advances.
func posOps(start string, ops []int) (msg string) {
	rs := make([]rune, len(ops))
	for i, o := range ops {
		if rs[i] = -1; o >= 0 {
			rs[i] = posRunes[o]
		}
	}
	return posText(start, rs, true)
}

// posText is posOps with any characters (-1 takes the last one back).
func posText(start string, ops []rune, bulk bool) (msg string) {
	if pe := guard(func() { msg = posOps1(start, ops, bulk) }); pe != nil {
		return pe.Error()
	}
	return
}

func refPosAfter(text []rune) (off, line, col int) {
	line, col = 1, 1
	for _, r := range text {
		off += utf8.RuneLen(r)
		if r == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return
}

func posOps1(start string, ops []rune, bulk bool) string {
	p := scanner.NewPosition()
	p.Filename = "p"
	text := []rune(start)
	for _, r := range text {
		p.Advance(r)
	}
	base := len(text)
	// the model positions behind the parts of the text, kept step by step
	type place struct{ off, line, col int }
	places := make([]place, 1, 16)
	places[0] = place{0, 1, 1}
	check := func(p *scanner.Position, text []rune, what string) string {
		var off, line, col int
		if bulk {
			off, line, col = refPosAfter(text)
		} else {
			for n := len(places); n <= len(text); n++ {
				q := places[n-1]
				if q.off += utf8.RuneLen(text[n-1]); text[n-1] == '\n' {
					q.line, q.col = q.line+1, 1
				} else {
					q.col++
				}
				places = append(places, q)
			}
			places = places[:len(text)+1]
			q := places[len(text)]
			off, line, col = q.off, q.line, q.col
		}
		if p.Offset != off || p.Line != line || p.Column != col || p.Filename != "p" {
			return fmt.Sprintf("%s behind %q: %s, model: %d:%d:%d", what, clip(string(text), 300), showP(p.Position), off, line, col)
		}
		return ""
	}
	type save struct {
		p scanner.Position
		n int
	}
	saves := []save{{*p, base}}
	for _, o := range ops {
		if o < 0 {
			p.Revert(text[len(text)-1])
			text = text[:len(text)-1]
			for len(saves) > 0 && saves[len(saves)-1].n > len(text) {
				saves = saves[:len(saves)-1]
			}
		} else {
			p.Advance(o)
			text = append(text, o)
			saves = append(saves, save{*p, len(text)})
		}
		if s := check(p, text, "position"); s != "" {
			return s
		}
	}
	// from every saved position, the text that really follows, in one step
	if !bulk {
		saves = nil
	}
	for _, s := range saves {
		for n := s.n + 1; n <= len(text); n++ {
			q := s.p.AdvancedBulk(string(text[s.n:n]))
			if e := check(&q, text[:n-1], fmt.Sprintf("last position of %q", string(text[s.n:n]))); e != "" {
				return e
			}
			sp := s.p
			if e := check(&sp, text[:s.n], "the original position"); e != "" {
				return e
			}
			if e := check(p, text, "the scanning position"); e != "" {
				return e
			}
		}
	}
	// from here, any text in one step; then it must still be possible to go back
	for _, t := range bulkTexts {
		if !bulk {
			break
		}
		q := p.AdvancedBulk(t)
		rs := []rune(t)
		if e := check(&q, append(text[:len(text):len(text)], rs[:len(rs)-1]...), fmt.Sprintf("last position of %q", t)); e != "" {
			return e
		}
		if e := check(p, text, "the original position"); e != "" {
			return e
		}
	}
	for len(text) > 0 {
		p.Revert(text[len(text)-1])
		text = text[:len(text)-1]
		if s := check(p, text, "reverted"); s != "" {
			return s
		}
	}
	for _, r := range []rune(start + "é\na\n") {
		p.Advance(r)
		text = append(text, r)
	}
	return check(p, text, "advanced again")
}

var bulkTexts = []string{"a", "\n", "é\n", "\n\n", "a\né", "\né\n世", "//😀", "\r\n"}

func init() {
	checks["C19"] = check{"model_checking", "all sequences of advances over seven characters and reverts up to a depth, from several starting texts; after each operation the position is compared with one computed from the text alone, then every saved position and several further texts are advanced in one step, and everything is reverted; states are the texts, transitions the operations", func(r *Run) {
		depth := r.q(6, 7)
		for _, st := range []string{"", "\n", "é\nab\n", "a\n\n\t世"} {
			d := depth
			if st != "" {
				d--
			}
			n := len(posRunes)
			st := st
			r.Space(fmt.Sprintf("positions/%q", st), fmt.Sprintf("all sequences of <= %d operations (7 characters, revert)", d), (n+1)*(n+1), func(w *Worker, task int) {
				var rec func(ops []int, text []int)
				rec = func(ops []int, text []int) {
					if w.stopped() {
						return
					}
					h := hash64(st)
					for _, o := range text {
						h = (h ^ uint64(o+2)) * 1099511628211
					}
					if _, seen := w.cov.states[h]; !seen {
						w.cov.states[h] = struct{}{}
					}
					w.cases++
					w.execs++
					w.compared++
					if w.cases%5000 == 3 {
						w.sample(map[string]interface{}{"start": st, "operations": append([]int(nil), ops...)})
					}
					if s := posOps(st, ops); s != "" {
						o := append([]int(nil), ops...)
						w.fail(violation{What: "position arithmetic is wrong", Config: fmt.Sprint("operations ", o), Input: st, Got: s, again: func() bool { return posOps(st, o) != "" }})
						return
					}
					if len(ops) == d {
						return
					}
					for o := -1; o < n; o++ {
						w.cov.trans[h*31+uint64(o+1)] = struct{}{}
						if o < 0 {
							if len(text) > 0 {
								rec(append(ops[:len(ops):len(ops)], o), text[:len(text)-1])
							}
							continue
						}
						rec(append(ops[:len(ops):len(ops)], o), append(text[:len(text):len(text)], o))
					}
				}
				a, b := task/(n+1)-1, task%(n+1)-1
				if a < 0 {
					if b < 0 {
						rec0 := posOps(st, nil)
						if rec0 != "" {
							w.fail(violation{What: "position arithmetic is wrong", Input: st, Got: rec0})
						}
					}
					return
				}
				if b < 0 {
					if s := posOps(st, []int{a}); s != "" {
						w.fail(violation{What: "position arithmetic is wrong", Config: fmt.Sprint("operations ", []int{a}), Input: st, Got: s})
					}
					rec([]int{a, -1}, nil)
					return
				}
				rec([]int{a, b}, []int{a, b})
			})
		}
		one := func(w *Worker, start string, ops []rune, bulk bool) {
			w.cases++
			w.execs++
			w.compared++
			if s := posText(start, ops, bulk); s != "" {
				w.fail(violation{What: "position arithmetic is wrong", Config: fmt.Sprintf("operations %q", ops), Input: start, Got: clip(s, 600), again: func() bool { return posText(start, ops, bulk) != "" }})
			}
		}
		r.Space("positions/code-points", "every code point, advanced over, taken back, inside and at the end of a text", 0x110, func(w *Worker, task int) {
			for c := rune(task) << 12; c < rune(task+1)<<12 && !w.stopped(); c++ {
				if utf8.ValidRune(c) {
					one(w, "", []rune{c, -1, c, 'a', '\n', c, c, -1, -1, -1, -1, c, c}, true)
				}
			}
		})
		r.Space("positions/long", "each of seven characters (and pairs of them) repeated up to 70000 times, then taken back", 7*7, func(w *Worker, task int) {
			for _, n := range []int{255, 256, 257, 4096, 32768, 70000} {
				if task%7 != task/7 && n > 5000 {
					continue
				}
				var ops []rune
				for i := 0; i < n; i++ {
					ops = append(ops, posRunes[task%7])
					if task/7 != task%7 {
						ops = append(ops, posRunes[task/7])
					}
				}
				one(w, "", ops, false)
			}
		})
	}}
}

// ---- C20 ---------------------------------------------------------------------

func commentCheck(c *parser.Comment, raw string) string {
	block := strings.HasPrefix(raw, "/*")
	if c.Raw != raw {
		return fmt.Sprintf("raw text %q", c.Raw)
	}
	if c.IsCStyle() != block {
		return fmt.Sprintf("IsCStyle is %v", c.IsCStyle())
	}
	in := raw[2:]
	if block {
		in = in[:len(in)-2]
	}
	var want []string
	line := ""
	for i := 0; i < len(in); i++ {
		if in[i] == '\n' {
			want = append(want, line)
			line = ""
		} else {
			line += in[i : i+1]
		}
	}
	want = append(want, line)
	if got := c.Lines(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("lines %q, want %q", got, want)
	}
	if c.Raw != raw || c.IsCStyle() != block {
		return "asking changed the comment"
	}
	return ""
}

func init() {
	checks["C20"] = check{"model_checking", "all comments over a small alphabet up to a length (hand-built and parsed), all short version strings and many positions; the accessors are compared with the definition; states are the distinct texts, transitions the distinct extensions of a text by one character", func(r *Run) {
		note := func(w *Worker, s string) {
			w.cov.states[hash64(s)] = struct{}{}
			if len(s) > 0 {
				w.cov.trans[hash64(s+"\x00")] = struct{}{}
			}
			w.compared++
		}
		alpha := append(split("/*\na \r"), "é", "\t")
		for _, st := range [][2]string{{"//", ""}, {"/*", "*/"}} {
			st := st
			al := alpha
			if st[0] == "//" {
				al = append(split("/*a \r\\"), "é", "\t", "//", "/*", "*/")
			}
			r.each([]uni{chars("comment "+st[0], "", "", al, r.q(5, 6))}, func(w *Worker, in string) {
				if st[0] == "/*" && strings.Contains(in+"*", "*/") {
					return // not one comment
				}
				raw := st[0] + in + st[1]
				note(w, raw)
				w.execs++
				var s string
				if pe := guard(func() { s = commentCheck(&parser.Comment{Raw: raw}, raw) }); pe != nil {
					s = pe.Error()
				}
				if s != "" {
					w.fail(violation{What: "a comment's accessors disagree with its text", Input: raw, Got: s, again: func() bool {
						bad := true
						guard(func() { bad = commentCheck(&parser.Comment{Raw: raw}, raw) != "" })
						return bad
					}})
					return
				}
				if len(in) > w.run.q(3, 5) {
					return
				}
				for k, src := range []string{raw, raw + "\nmessage M{}", "message M{\n" + raw + "\n}", "\n;" + raw} {
					p, err, ok := w.parse(src, cfgPB)
					if !ok {
						return
					}
					var cs []*parser.Comment
					if err == nil {
						guard(func() {
							for _, b := range p.ProtoBody {
								x, _ := parts(b)
								cs = append(cs, x...)
								switch b := b.(type) {
								case *parser.Comment:
									cs = append(cs, b)
								case *parser.Message:
									for _, e := range b.MessageBody {
										if c, ok := e.(*parser.Comment); ok {
											cs = append(cs, c)
										}
									}
								}
							}
						})
					}
					if len(cs) != 1 {
						w.note("not one comment in the tree (decided by C05)")
						continue
					}
					if cs[0].Raw != raw {
						w.note("other text in the tree (decided by C05)")
						continue
					}
					var s string
					if pe := guard(func() { s = commentCheck(cs[0], raw) }); pe != nil {
						s = pe.Error()
					}
					_ = k
					if s != "" {
						w.fail(violation{What: "a comment's accessors disagree with its text", Input: src, Got: s})
						return
					}
				}
			})
		}
		for _, st := range [][2]string{{"//", ""}, {"/*", "*/"}, {"//a", "b"}, {"/*\n", "\n*/"}} {
			st := st
			r.each([]uni{codepoints(fmt.Sprintf("comment %q", st[0]), st[0], st[1], true)}, func(w *Worker, raw string) {
				if strings.HasPrefix(raw, "//") && strings.Contains(raw, "\n") {
					return // not one comment
				}
				w.execs++
				w.compared++
				var s string
				if pe := guard(func() { s = commentCheck(&parser.Comment{Raw: raw}, raw) }); pe != nil {
					s = pe.Error()
				}
				if s != "" {
					w.fail(violation{What: "a comment's accessors disagree with its text", Input: raw, Got: s, again: func() bool {
						bad := true
						guard(func() { bad = commentCheck(&parser.Comment{Raw: raw}, raw) != "" })
						return bad
					}})
				}
			})
		}
		// versions: every accepted string literal
		vs := append(split("proto23 1"), "proto2", "proto3", "Proto")
		for _, q := range []string{`"`, `'`} {
			q := q
			r.each([]uni{chars("syntax "+q, "", "", vs, 3)}, func(w *Worker, v string) {
				note(w, "syntax"+v)
				src := "syntax = " + q + v + q + ";"
				p, err, ok := w.parse(src, cfgP)
				if !ok || err != nil || p.Syntax == nil {
					w.note("rejected")
					return
				}
				w.note("accepted")
				want := 0
				for _, c := range v {
					if c >= '0' && c <= '9' {
						want = want*10 + int(c-'0')
					}
				}
				if p.Syntax.Version() != want || p.Syntax.ProtobufVersionQuote != q+v+q || p.Syntax.ProtobufVersion != v {
					w.fail(violation{What: "the version accessors disagree with the text", Input: src, Got: fmt.Sprintf("version %d, quoted %s, text %s", p.Syntax.Version(), p.Syntax.ProtobufVersionQuote, p.Syntax.ProtobufVersion)})
				}
			})
			r.each([]uni{chars("edition "+q, "", "", split("0123456789 a."), r.q(4, 5))}, func(w *Worker, v string) {
				note(w, "edition"+v)
				src := "edition = " + q + v + q + ";"
				p, err, ok := w.parse(src, cfgP)
				if !ok || err != nil || p.Edition == nil {
					w.note("rejected")
					return
				}
				w.note("accepted")
				if p.Edition.EditionQuote != q+v+q || p.Edition.Edition != v {
					w.fail(violation{What: "the edition's quoted form disagrees with the text", Input: src, Got: fmt.Sprintf("%s %s", p.Edition.EditionQuote, p.Edition.Edition)})
				}
			})
		}
		// positions
		names := []string{"", "a.proto", "<input>", "dir/é f.proto", ":", "%d"}
		nums := []int{1, 2, 9, 10, 11, 99, 100, 12345, 1<<31 - 1}
		r.Space("position", fmt.Sprintf("%d filenames, %d lines, %d columns, 2 offsets", len(names), len(nums), len(nums)), len(names), func(w *Worker, task int) {
			for _, l := range nums {
				for _, c := range nums {
					for _, o := range []int{0, 77} {
						w.cases++
						w.execs++
						p := meta.Position{Filename: names[task], Offset: o, Line: l, Column: c}
						sp := scanner.NewPosition()
						sp.Position = p
						note(w, fmt.Sprint(p.Filename, "\x00", l, "\x00", c))
						name := p.Filename
						got := p.String()
						if name == "" {
							// any placeholder, but always the same
							name = strings.TrimSuffix(got, fmt.Sprintf(":%d:%d", l, c))
							if name == "" {
								name = "(a placeholder)"
							}
						}
						if want := fmt.Sprintf("%s:%d:%d", name, l, c); got != want || sp.String() != want {
							w.fail(violation{What: "a position prints wrong", Input: fmt.Sprintf("%+v", p), Want: want, Got: got + " / " + sp.String()})
							return
						}
					}
				}
			}
		})
	}}
}

// scanName is the filename of the scanners and lexers, which they must keep as it is.
const scanName = "./s//é .proto"
