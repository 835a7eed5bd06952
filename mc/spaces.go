package main

// The universes of documents, shared by the checks.  Every universe is finite
// and enumerated completely.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"
)

type visitFn func(src string)

type uni struct {
	name  string
	bound string
	n     int
	run   func(w *Worker, task int, visit visitFn)
}

// each runs a check on every document of the universes.
func (r *Run) each(us []uni, f func(w *Worker, src string)) {
	for _, u := range us {
		u := u
		r.Space(u.name, u.bound, u.n, func(w *Worker, task int) {
			n := 0
			u.run(w, task, func(src string) {
				if w.stopped() {
					return
				}
				w.cases++
				if n++; n == 2 && task == u.n/2 {
					w.sample(map[string]string{"space": u.name, "input": clip(src, 300)})
				}
				f(w, src)
			})
		})
	}
}

// ---- U1: all strings over an alphabet in a context -------------------------

func chars(name, pre, post string, alpha []string, k int) uni {
	n := len(alpha)
	return uni{"chars/" + name, fmt.Sprintf("all strings of length <= %d over %d characters", k, n), n*n + 1, func(w *Worker, task int, visit visitFn) {
		buf := append(make([]byte, 0, 64), pre...)
		emit := func(b []byte) { visit(string(append(b, post...))) }
		if task == 0 {
			emit(buf)
			for _, a := range alpha {
				emit(append(buf, a...))
			}
			return
		}
		if k < 2 {
			return
		}
		task--
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			if w.stopped() {
				return
			}
			emit(b)
			if left == 0 {
				return
			}
			for _, a := range alpha {
				rec(append(b, a...), left-1)
			}
		}
		buf = append(buf, alpha[task/n]...)
		buf = append(buf, alpha[task%n]...)
		rec(buf, k-2)
	}}
}

// codepoints: every Unicode character in a context.
func codepoints(name, pre, post string, all bool) uni {
	which := "every Unicode character"
	if !all {
		which = "every character below U+3100 and 16 at each end of every block of 4096 above"
	}
	return uni{"code-points/" + name, fmt.Sprintf("%q, %s, %q", pre, which, post), 0x110, func(w *Worker, task int, visit visitFn) {
		for c := rune(task) << 12; c < rune(task+1)<<12; c++ {
			if utf8.ValidRune(c) && (all || c < 0x3100 || c&0xfff < 16 || c&0xfff >= 0xff0) {
				visit(pre + string(c) + post)
			}
		}
	}}
}

// adjacentUnis: several string literals in a row.
func (r *Run) adjacentUnis(level int) []uni {
	var lits, few []string
	for i, p := range []string{``, `1`, `f`, `\x1`, `\1`, `\12`, `\\`, `a`, `8`, `\xF`, `\x12`, `\123`, `\n`, `\"`, `\'`, `\X1`, `é`, `\0`, `x`, ` `, `\x1g`, `\18`} {
		lits = append(lits, `"`+p+`"`, "'"+p+"'")
		if i < 8 {
			few = append(few, `"`+p+`"`, "'"+p+"'")
		}
	}
	lits = append(lits, `"'"`, `'"'`)
	few = append(few, `"'"`, `'"'`)
	mk := func(name string, lits []string, k int, sep string) uni {
		n := len(lits)
		return uni{"adjacent-literals/" + name, fmt.Sprintf("all sequences of %d of %d string literals, %q between them", k, n, sep), n, func(w *Worker, task int, visit visitFn) {
			var rec func(s string, left int)
			rec = func(s string, left int) {
				if left == 0 {
					visit("option a = " + s + ";")
					return
				}
				for _, l := range lits {
					if w.stopped() {
						return
					}
					rec(s+sep+l, left-1)
				}
			}
			rec(lits[task], k-1)
		}}
	}
	us := []uni{mk("3", lits, 3, ""), mk("4", few, 4, " ")}
	for i, sep := range []string{"\n", "\r\n\t", "/*c*/", "//c\n", " /*\n*/ \n"} {
		us = append(us, mk(fmt.Sprint("2-", i), lits, 2, sep))
	}
	if level > 1 {
		us = append(us, mk("4-all", lits, 4, "\n"), mk("5", few, 5, ""))
	}
	return us
}

var runeCtxs = map[string][3]string{
	"f": {"between-tokens", "message M{", "}"},
	"s": {"in-string", `option a="`, `";`},
	"c": {"in-comments", "//", "\n/**/message M{}"},
	"b": {"in-block-comment", "/*", "*/message M{}"},
	"i": {"in-identifier", "message M", "{}"},
}

func split(s string) []string {
	var out []string
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

var (
	fileChars = append(split(";\n/*\"'.a10={}[](),-+<> \t\réM\u00a0"), "\x00", "\ufeff", "世")
	litChars  = split(`01789xe.-+"'\an{}[]:,; `)
	escChars  = split(`"'\x140na8 /`)
	cmtChars  = split("/*\na;\"é\r")
	numChars  = split("01789xXeE.-+fF a")
	unsChars  = []string{"\x00", "\ufeff", "\u00a0", "\u2028", "\u0085", "\x7f", "\ufffd", "é", "世", "😀", "a", ";", "\r", "\v", "\f", "\"", "/"}
)

type charCtx struct {
	name, pre, post string
	alpha           []string
}

var charCtxs = []charCtx{
	{"file", "", "", fileChars},
	{"unusual", "", ";", unsChars},
	{"unusual-in-message", "message M{", "}", unsChars},
	{"unusual-in-string", `option a="`, `";`, unsChars},
	{"number", "option a=", ";", numChars},
	{"field-number", "message M{int32 a=", ";}", numChars},
	{"constant", "option a=", ";", litChars},
	{"in-string", `option a="`, `";`, escChars},
	{"string", `option a=`, `;`, escChars},
	{"followed-string", `option a="`, `" "1";`, split(`\1xX8`)},
	{"followed-string2", `option a='`, `'"f"'f';`, split(`\xf"7`)},
	{"trivia-in-message", "message M{", "}", cmtChars},
	{"trivia-before-message", "", "message M{}", cmtChars},
	{"trivia-between-tokens", "message M{int32 a", "= 1;}", cmtChars},
	{"trivia-at-end", "message M{}", "", cmtChars},
}

// ---- U2: all token sequences ------------------------------------------------

type tctx struct {
	name     string
	pre      string
	alpha    []string
	post     []string // completions
	frag     bool     // fragments (concatenated) rather than tokens (joined)
	balanced bool     // close braces left open
}

func f(s string) []string { return strings.Fields(s) }

var tctxs = []tctx{
	{"file", "", f(`; syntax = "proto3" "2023" edition import public "s" package a . option 1 message enum service extend { } M`), []string{"", "{}", "=1;", ";"}, false, true},
	{"message", "message M {", f(`; a . int32 = 1 [ ] repeated optional group G { } map < , > oneof enum message extend option reserved extensions "s" to max`), []string{"}", ";}", "=1;}"}, false, true},
	{"field", "message M { required", f(`; a . int32 = 1 [ ] group G { } , ( ) optional "s"`), []string{"}", ";}", "a=1;}"}, false, true},
	{"plain-field", "message M { int32 a", f(`= 1 [ ] , ( ) . "s" { } : - ; a`), []string{";}", "}", "1;}"}, false, false},
	{"enum", "enum E {", f(`; a = 1 - [ ] option reserved "s" , to max ( ) . { }`), []string{"}", ";}", "=1;}"}, false, false},
	{"enum-value", "enum E { A = ", f(`1 - + [ ] a = ( ) . , "s" ; {  } :`), []string{";}", "}"}, false, false},
	{"service", "service S {", f(`; rpc R ( ) returns stream . { } option = 1 a`), []string{"}", ";}", "(A)returns(B);}"}, false, true},
	{"rpc", "service S { rpc R", f(`( ) returns stream a . { } ; option = 1 rpc`), []string{"}", ";}", "(A);}"}, false, true},
	{"rpc-block", "service S { rpc R(A) returns(B) {", f(`; option a = 1 } ( ) . rpc "s"`), []string{"}}", "}"}, false, false},
	{"oneof", "message M { oneof o {", f(`; a . int32 = 1 [ ] option { } repeated group map oneof`), []string{"}}", ";}}", "}"}, false, false},
	{"extend", "extend E", f(`{ ; a . = 1 repeated group G } [ ] option message`), []string{"}", ";}", "{}"}, false, true},
	{"constant", "option o =", f(`{ } [ ] , ; : a 1 "s" - true . ( ) inf`), []string{";", "", "};", "];"}, false, false},
	{"aggregate", "option o = {", f(`a : 1 { } , ; [ ] "s" . -`), []string{"};", "}};", "]};", ";"}, false, false},
	{"list", "option o = [", f(`a : 1 { } , [ ] "s" ;`), []string{"];", "}];", "]];", ";"}, false, false},
	{"field-options", "message M { int32 a = 1", f(`[ ] , a = 1 ( ) . "s" { } : ;`), []string{";}", "];}", "}"}, false, false},
	{"enum-options", "enum E { A = 1 [", f(`] , a = 1 ( ) . "s" { } :`), []string{"];}", ";}", "=1];}"}, false, false},
	{"oneof-options", "message M { oneof o { int32 a = 1 [", f(`] , a = 1 ( ) . "s" { } :`), []string{"];}}", ";}}"}, false, false},
	{"map", "message M { map", f(`< > , string a = 1 ; . [ ] bytes`), []string{"}", ";}", "=1;}"}, false, false},
	{"reserved", "message M { reserved", f(`1 "s" a , to max ; - = 'q' 2`), []string{";}", "}"}, false, false},
	{"enum-reserved", "enum E { reserved", f(`1 "s" a , to max ; - = 'q' 2`), []string{";}", "}"}, false, false},
	{"extensions", "message M { extensions", f(`1 , to max [ ] declaration = { } number : ; "s"`), []string{";}", "];}", "}];}"}, false, false},
	{"declaration", "message M { extensions 1 [declaration = {", f(`number : 1 , full_name "s" type repeated true false reserved ; { } a`), []string{"}];}", ":1}];}"}, false, false},
	{"declarations", "message M { extensions 1 [", f(`declaration = { } , ] ; number : 1 [`), []string{"];}", ";}", "}];}"}, false, false},
	{"import", "import", f(`public weak "s" 's' ; a . 1 "" = true import`), []string{";", "", `"x";`}, false, false},
	{"syntax", "syntax", append(f(`= "proto3" 'proto2' ; "x" proto3 a message M { } edition "2023" syntax`), `"proto3'`, `"proto3`, `proto2"`, `'`, `"`), []string{"", ";"}, false, false},
	{"edition", "edition", append(f(`= "2023" '2024' ; "x" 2023 a message M { } syntax "proto3" edition "0x1" "0"`), `"2023'`, `"`), []string{"", ";"}, false, false},
	{"group", "message M { optional group", f(`G g = 1 { } ; [ ] a repeated 0x1 . A.B`), []string{"}", "}}", ";}"}, false, true},
	{"group-field", "message M { optional group G = 1", f(`[ ] a = 1 ; { } , ( )`), []string{"];}", ";}", "}}", "}"}, false, true},
	{"plain-group-field", "message M { group G = 1", f(`[ ] a = 1 ; { } ,`), []string{"];}", ";}", "}}"}, false, true},
	{"extend-group-field", "extend E { repeated group G = 1", f(`[ ] a = 1 ; { } ,`), []string{"];}", ";}", "}}"}, false, true},
	{"keyword-types", "message M { ", f(`optional repeated group stream rpc service import package syntax to max .G G=1; G=1[a=1]; g=1[a=1]; G=1{} ;`), []string{"}", ";}"}, false, true},
	{"keyword-types-oneof", "message M { oneof o { ", f(`optional group stream rpc service reserved map oneof message .G G=1; G=1[a=1]; g=1[a=1]; G=1{} ;`), []string{"}}", ";}}"}, false, true},
	{"keyword-types-extend", "extend E { ", f(`optional group stream rpc option reserved map oneof message .G G=1; G=1[a=1]; g=1[a=1]; G=1{} ;`), []string{"}", ";}"}, false, true},
	{"package", "package", f(`a . ; option 1 "s" _ true package`), []string{";", "", "a;"}, false, false},
	{"option-name", "option", f(`a . ( ) 1 option "s" = ;`), []string{"=1;", ")=1;", ";"}, false, false},
	{"field-option-name", "message M { int32 a = 1 [", f(`a . ( ) 1 option "s" = ,`), []string{"=1];}", ")=1];}"}, false, false},
	{"type", "service S { rpc R(", f(`a . ) stream 1 ( int32 "s" =`), []string{")returns(B);}", ";}"}, false, false},
	{"closing-semicolon", "", []string{"message M { } ", "enum E { } ", "service S { } ", "extend X { } ", "; ", "message N { message M { } ", "message N { oneof o { int32 a=1; } ", "message N { optional group G = 1 { } ", "service S { rpc R(A)returns(B) { } ", "message N { enum E { } ", "message N { extend E { } ", "} "}, []string{"", ";"}, true, true},
}

// comment-heavy fragment alphabets
var cctxs = []tctx{
	{"comments/file", "", []string{`syntax="proto3";`, `edition="2023";`, `import "a";`, `package p;`, `option o=1;`, "message M{", "enum E{", "service S{", "extend X{", ";", "}", "\n", "//#\n", "/*#*/"}, []string{""}, true, true},
	{"comments/file-end", "package p;", []string{";", "\n", " //#\n", "/*#*/", "/*#\n*/", "//#", "\r\n"}, []string{"", "\n", "message M{}"}, true, true},
	{"comments/message", "message M {", []string{"int32 a=1;", "option o=1;", "oneof o{", "map<int32,a>m=1;", "reserved 1;", "extensions 1;", "message N{", "enum E{", "extend X{", "group G=1{", ";", "}", "\n", "//#\n", "/*#*/"}, []string{"}"}, true, true},
	{"comments/message2", "message M {", []string{"int32 a=1;", ";", "}", "\n", "//#\n", "/*#*/", "/*#\n*/", "message N{"}, []string{"}", "} //z\n"}, true, true},
	{"comments/oneof", "message M { oneof o {", []string{"int32 a=1;", "option o=1;", ";", "}", "\n", "//#\n", "/*#*/"}, []string{"}}"}, true, false},
	{"comments/enum", "enum E {", []string{"A=1;", "option o=1;", "reserved 1;", ";", "}", "\n", "//#\n", "/*#*/"}, []string{"}"}, true, false},
	{"comments/service", "service S {", []string{"rpc R(A)returns(B);", "rpc R(A)returns(B){", "option o=1;", ";", "}", "\n", "//#\n", "/*#*/"}, []string{"}"}, true, true},
	{"comments/rpc", "service S { rpc ", []string{"R", "(", "A", ")", "returns", "{", "}", ";", "\n", "//#\n", "/*#*/", " stream "}, []string{"}"}, true, true},
	{"comments/rpc-block", "service S { rpc R(A) returns(B) {", []string{"option o=1;", ";", "}", "\n", "//#\n", "/*#*/"}, []string{"}}", "}"}, true, false},
	{"comments/extend", "extend X {", []string{"int32 a=1;", "repeated a b=1;", ";", "}", "\n", "//#\n", "/*#*/"}, []string{"}"}, true, false},
	{"comments/extensions", "message M { extensions 1 [", []string{"declaration", "=", "{", "}", ",", "number:1", "\n", "//#\n", "/*#*/", "]", ";"}, []string{"];}", "}"}, true, false},
	{"comments/group", "message M { group G = 1 {", []string{"int32 a=1;", ";", "}", "\n", "//#\n", "/*#*/"}, []string{"}}", "}"}, true, false},
	{"comments/syntax", "", []string{"syntax", "edition", "=", `"proto3"`, `"2023"`, ";", "\n", "//#\n", "/*#*/", "\ufeff"}, []string{"", "message M{}"}, true, false},
	{"comments/field", "message M {\n", []string{"repeated", " int32", " a", "=", "1", "[", "b", "]", ";", "\n", "//#\n", "/*#*/"}, []string{"}"}, true, false},
}

// fill replaces '#' by running numbers.
func fill(s string) string {
	if strings.IndexByte(s, '#') < 0 {
		return s
	}
	b := make([]byte, 0, len(s)+8)
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			n++
			b = strconv.AppendInt(b, int64(n), 10)
		} else {
			b = append(b, s[i])
		}
	}
	return string(b)
}

func fullTokens(c tctx, k int, join string) uni {
	n := len(c.alpha)
	return uni{"tokens/" + c.name, fmt.Sprintf("all sequences of <= %d of %d tokens", k, n), n*n + 1, func(w *Worker, task int, visit visitFn) {
		emit := func(b []byte) {
			for _, p := range c.post {
				visit(string(b) + join + p)
			}
		}
		buf := append(make([]byte, 0, 128), c.pre...)
		add := func(b []byte, t string) []byte {
			b = append(b, join...)
			return append(b, t...)
		}
		if task == 0 {
			emit(buf)
			for _, t := range c.alpha {
				emit(add(buf, t))
			}
			return
		}
		if k < 2 {
			return
		}
		task--
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			if w.stopped() {
				return
			}
			emit(b)
			if left == 0 {
				return
			}
			for _, t := range c.alpha {
				rec(add(b, t), left-1)
			}
		}
		rec(add(add(buf, c.alpha[task/n]), c.alpha[task%n]), k-2)
	}}
}

// viableTokens explores the prefixes that can still be continued (by the
// model) and every one-token extension of them.
func viableTokens(c tctx, k int) uni {
	join := " "
	if c.frag {
		join = ""
	}
	n := len(c.alpha)
	name := "viable/" + c.name
	if strings.HasPrefix(c.name, "comments/") {
		name = c.name
	}
	return uni{name, fmt.Sprintf("every viable prefix of <= %d further tokens (alphabet %d) and each one-token extension, with %d completions", k, n, len(c.post)), n * n, func(w *Worker, task int, visit visitFn) {
		emit := func(s string) {
			closers := ""
			if c.balanced {
				d := strings.Count(s, "{") - strings.Count(s, "}") - strings.Count(c.pre, "{")
				if d > 0 {
					closers = strings.Repeat(" }", d)
				}
			}
			for _, p := range c.post {
				visit(fill(s + closers + join + p))
			}
			if closers != "" {
				visit(fill(s))
			}
		}
		viable := func(s string) bool {
			_, rej := w.aux.parse(fill(s), refCfg{permissive: true})
			return rej < 0 || w.aux.toks[rej].kind == kEOF
		}
		var rec func(s string, left int)
		rec = func(s string, left int) {
			if w.stopped() {
				return
			}
			emit(s)
			if left == 0 || !viable(s) {
				return
			}
			for _, t := range c.alpha {
				rec(s+join+t, left-1)
			}
		}
		i, j := task/n, task%n
		s := c.pre + join + c.alpha[i]
		if task == 0 {
			emit(c.pre)
		}
		if j == 0 {
			emit(s)
		}
		if k >= 2 && viable(s) {
			rec(s+join+c.alpha[j], k-2)
		}
	}}
}

// budgets are the sizes (in thousands of documents) up to which each kind of
// universe is deepened; a kind without a budget is left out.
type budgets map[string]int

func (b budgets) with(c budgets) budgets {
	out := budgets{}
	for k, v := range b {
		out[k] = v
	}
	for k, v := range c {
		out[k] = v
	}
	return out
}

// count gives the size of u, or something above max.
func (r *Run) count(u uni, max int64) int64 {
	var n, next int64
	next = -1
	var wg sync.WaitGroup
	for _, w := range r.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			cw := &Worker{run: &Run{}}
			var loc int64
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= u.n || atomic.LoadInt64(&n) > max {
					return
				}
				u.run(cw, i, func(string) {
					if loc++; loc&1023 == 0 && atomic.AddInt64(&n, 1024) > max {
						atomic.StoreInt32(&cw.run.stop, 1)
					}
				})
				atomic.AddInt64(&n, loc&1023)
				loc = 0
			}
		}(w)
	}
	wg.Wait()
	return n
}

// fit deepens a family of universes as far as the budget allows.  The choice
// depends on the model alone, so it is the same in every run.
func (r *Run) fit(kind string, b budgets, lo, hi int, mk func(k int) uni) []uni {
	max := int64(b[kind]) * 1000
	if max <= 0 {
		return nil
	}
	if r.thorough() {
		max *= int64(r.scale)
	}
	best := mk(lo)
	for k := lo + 1; k <= hi; k++ {
		u := mk(k)
		if r.count(u, max) > max {
			break
		}
		best = u
	}
	return []uni{best}
}

// docs: the universes of documents.
func (r *Run) docs(b budgets) []uni {
	var us []uni
	add := func(u ...uni) { us = append(us, u...) }
	has := func(k string) bool { return b[k] > 0 }
	add(filesUni())
	add(r.fit("seq", b, 2, 6, seqUni)...)
	add(r.fit("nest", b, 2, 8, nestUni)...)
	add(r.fit("pairs", b, 0, 4, pairsUni)...)
	add(r.fit("blocks", b, 1, 4, blocksUni)...)
	add(r.fit("forms", b, 1, 4, formsUni)...)
	add(r.fit("gaps", b, 1, 4, gapsUni)...)
	if has("edits1") {
		alpha := editToks
		if b["edits1"] == 2 && !r.thorough() {
			alpha = editToks2
		}
		add(r.edit1Uni(alpha))
	}
	if n := b["editlays"]; n > 0 {
		alpha := editToks2
		if r.thorough() {
			alpha, n = editToks, len(editSeps)
		}
		add(r.editLayUni(alpha, editSeps[:n]))
	}
	if has("words") {
		add(wordsUni())
	}
	if has("longgaps") {
		add(r.longGapUni())
	}
	add(r.fit("edits2", b, 0, 8, r.edit2Uni)...)
	for _, c := range cctxs {
		c := c
		add(r.fit("comments", b, 2, 20, func(k int) uni { return viableTokens(c, k) })...)
	}
	if has("vocab") {
		add(r.vocabUnis(r.q(b["vocab"], b["vocab"]+1))...)
	}
	if has("adjacent") {
		add(r.adjacentUnis(r.q(1, 2))...)
	}
	if has("twins") {
		add(r.twinsUni(b["twins"]))
	}
	if has("pump") {
		add(r.pumpUnis(b["pump"], b["far"], b["deep"])...)
	}
	for _, k := range []int{'f', 's', 'c', 'b', 'i'} {
		if has("rune-" + string(rune(k))) {
			c := runeCtxs[string(rune(k))]
			add(codepoints(c[0], c[1], c[2], r.thorough()))
		}
	}
	if has("huge") {
		add(hugeUni())
	}
	if has("boundary") {
		add(r.boundaryUni())
	}
	for _, c := range charCtxs {
		c := c
		add(r.fit("chars", b, 2, 20, func(k int) uni { return chars(c.name, c.pre, c.post, c.alpha, k) })...)
	}
	for _, c := range tctxs {
		c := c
		join := " "
		if c.frag {
			join = ""
		}
		add(r.fit("tokens", b, 2, 20, func(k int) uni { return fullTokens(c, k, join) })...)
		bv := b
		if c.name == "closing-semicolon" && b["viable"] > 0 {
			bv = budgets{"viable": b["viable"] * 4}
		}
		add(r.fit("viable", bv, 2, 24, func(k int) uni { return viableTokens(c, k) })...)
	}
	if has("prefix") {
		add(r.prefixUnis()...)
	}
	if has("charedits") {
		add(r.charEditUnis()...)
	}
	return us
}

// ---- U3: derivations ---------------------------------------------------------

// genUni explores one template.
func genUni(name, bound string, dev int, setup, tmpl func(*G)) uni {
	ts := firstLevel(tmpl, setup, dev)
	return uni{name, bound, len(ts), func(w *Worker, task int, visit visitFn) {
		ts[task].run(tmpl, setup, dev, func(b []byte) bool {
			visit(string(b))
			return !w.stopped()
		})
	}}
}

// several templates as one universe
func joinUnis(name, bound string, us []uni) uni {
	tot := 0
	var offs []int
	for _, u := range us {
		offs = append(offs, tot)
		tot += u.n
	}
	return uni{name, bound, tot, func(w *Worker, task int, visit visitFn) {
		i := sort.Search(len(offs), func(i int) bool { return offs[i] > task }) - 1
		us[i].run(w, task-offs[i], visit)
	}}
}

// formsUni: one statement of each kind in each context, forms deviating.
func formsUni(dev int) uni {
	var us []uni
	for ci := range bodyCtxs {
		c := &bodyCtxs[ci]
		for k := 0; k < c.kinds; k++ {
			k := k
			tmpl := func(g *G) {
				c.begin(g)
				g.raw("\n")
				c.stmt(g, k, false)
				g.raw("\n" + c.close)
			}
			us = append(us, genUni("", "", dev, func(g *G) { g.formDev = true }, tmpl))
		}
	}
	hdr := func(f func(g *G)) {
		us = append(us, genUni("", "", dev, func(g *G) { g.formDev = true }, f))
	}
	hdr(func(g *G) { g.sSyntax() })
	hdr(func(g *G) { g.sEdition() })
	hdr(func(g *G) { g.sSyntax(); g.raw("\n"); g.sEdition(); g.raw("\n"); g.sImport() })
	return joinUnis("forms", fmt.Sprintf("every statement kind in every body, <= %d deviating forms", dev), us)
}

// richUni: rich forms in pairs with a plain neighbour
func gapsUni(dev int) uni {
	var us []uni
	for ci := range bodyCtxs {
		c := &bodyCtxs[ci]
		for k := 0; k < c.kinds; k++ {
			for v := 0; v < 2; v++ {
				k, rich := k, v == 1
				tmpl := func(g *G) {
					c.begin(g)
					g.raw("\n")
					c.stmt(g, k, rich)
					g.raw("\n" + c.close)
				}
				us = append(us, genUni("", "", dev, func(g *G) { g.gapDev = true }, tmpl))
			}
		}
	}
	us = append(us, genUni("", "", dev, func(g *G) { g.gapDev = true }, func(g *G) { g.sSyntax(); g.raw("\n"); g.sEdition(); g.raw("\n"); g.sImport() }))
	for _, cst := range []string{"{ a : 1 , b { c : [ 1 , 2 ] } }", `"a" "b"`, "- 1", "a . b . c", `[ "a" "b" , { a : 1 ; } ]`, "{ a : { b : 1 } ; c : - 2 d : \"x\" \"y\" }"} {
		toks := strings.Fields(cst)
		us = append(us, genUni("", "", dev, func(g *G) { g.gapDev = true }, func(g *G) {
			g.first("option")
			g.t("(", ".", "a", ".", "b", ")", ".", "c", "=")
			g.t(toks...)
			g.t(";")
		}))
		us = append(us, genUni("", "", dev, func(g *G) { g.gapDev = true }, func(g *G) {
			g.raw("enum E { A ")
			g.t("=", "-", "1", "[", "(", "a", ")", "=")
			g.t(toks...)
			g.t("]", ";", "}")
		}))
	}
	return joinUnis("gaps", fmt.Sprintf("trivia between all tokens of every statement kind, <= %d gaps deviating over %d trivia texts", dev, len(gapAlts)), us)
}

// pairsUni: every ordered pair of statement kinds with trivia around them.
func pairsUni(dev int) uni {
	var us []uni
	for ci := range bodyCtxs {
		c := &bodyCtxs[ci]
		for a := 0; a < c.kinds; a++ {
			for b := 0; b < c.kinds; b++ {
				a, b := a, b
				for v := 0; v < 2; v++ {
					rich := v == 1
					tmpl := func(g *G) {
						sd := g.sepDev
						c.begin(g)
						g.sep()
						g.sepDev = false
						c.stmt(g, a, rich)
						if c.name == "extensions" {
							g.raw(" ,")
						}
						g.sepDev = sd
						g.sep()
						g.sepDev = false
						c.stmt(g, b, rich)
						g.sepDev = sd
						g.sep()
						g.raw(c.close)
						if c.name != "file" {
							g.sep()
						}
					}
					us = append(us, genUni("", "", dev, func(g *G) { g.sepDev = true }, tmpl))
				}
			}
		}
	}
	return joinUnis("pairs", fmt.Sprintf("every ordered pair of statement kinds in every body, <= %d of 4 separators deviating over %d texts", dev, len(sepAlts)), us)
}

// blocksUni: separators inside nested blocks of each kind
func blocksUni(dev int) uni {
	var us []uni
	for ci := range bodyCtxs {
		c := &bodyCtxs[ci]
		for k := 0; k < c.kinds; k++ {
			k := k
			tmpl := func(g *G) {
				c.begin(g)
				g.sep()
				c.stmt(g, k, true)
				g.sep()
				g.raw(c.close)
			}
			us = append(us, genUni("", "", dev, func(g *G) { g.sepDev = true }, tmpl))
		}
	}
	for _, n := range []int{1, 2} {
		n := n
		for k := 0; k < 4; k++ {
			k := k
			us = append(us, genUni("", "", dev, func(g *G) { g.sepDev = true }, func(g *G) {
				switch k {
				case 0:
					g.sMessage(false, n)
				case 1:
					g.sEnum(false, n)
				case 2:
					g.sService(false, n)
				case 3:
					g.sExtend(false, n)
				}
				g.sep()
			}))
		}
	}
	us = append(us, genUni("", "", dev, func(g *G) { g.sepDev = true }, func(g *G) {
		g.sep()
		g.sSyntax()
		g.sep()
		g.sEdition()
		g.sep()
		g.sPackage()
		g.sep()
	}))
	us = append(us, genUni("", "", dev, func(g *G) { g.sepDev = true }, func(g *G) {
		g.sep()
		g.sEdition()
		g.sep()
	}))
	return joinUnis("blocks", fmt.Sprintf("separators inside and around every block, <= %d deviating over %d texts", dev, len(sepAlts)), us)
}

// seqUni: all sequences of statement kinds.
func seqUni(k int) uni {
	type job struct {
		c   *bodyCtx
		pre []int
	}
	var jobs []job
	for ci := range bodyCtxs {
		c := &bodyCtxs[ci]
		jobs = append(jobs, job{c, nil})
		for a := 0; a < c.kinds; a++ {
			jobs = append(jobs, job{c, []int{a}})
		}
	}
	seps := []string{"\n", " ", ""}
	return uni{"sequences", fmt.Sprintf("all sequences of <= %d statement kinds in every body, plain and rich, 3 separators", k), len(jobs), func(w *Worker, task int, visit visitFn) {
		j := jobs[task]
		emit := func(seq []int) {
			for v := 0; v < 2; v++ {
				for _, sp := range seps {
					g := &G{}
					j.c.begin(g)
					for i, s := range seq {
						g.raw(sp)
						j.c.stmt(g, s, v == 1)
						if j.c.name == "extensions" && i+1 < len(seq) {
							g.raw(",")
						}
					}
					g.raw(sp + j.c.close)
					visit(string(g.b))
				}
			}
		}
		if j.pre == nil {
			emit(nil)
			return
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			if w.stopped() {
				return
			}
			emit(seq)
			if len(seq) == k {
				return
			}
			for a := 0; a < j.c.kinds; a++ {
				rec(append(seq[:len(seq):len(seq)], a))
			}
		}
		rec(j.pre)
	}}
}

// nestUni: chains of nested blocks with a statement before, inside and after.
func nestUni(depth int) uni {
	opens := []string{"message M", "group G=1", "enum E", "extend X", "oneof o", "repeated group H=2"}
	inner := []string{"", "int32 a=1;", "A=1;", ";", "option x=1;", "//c\n", "}", "reserved 1;"}
	n := len(opens)
	return uni{"nesting", fmt.Sprintf("all chains of <= %d nested blocks (%d kinds), %d inner statements, 3 neighbour layouts", depth, n, len(inner)), n + 1, func(w *Worker, task int, visit visitFn) {
		var rec func(chain []int)
		emit := func(chain []int) {
			for _, in := range inner {
				for v := 0; v < 4; v++ {
					var b strings.Builder
					b.WriteString("message T {")
					for d, k := range chain {
						if v == 1 {
							b.WriteString("\n//b" + strconv.Itoa(d) + "\n")
						}
						if v == 2 && d > 0 && chain[d-1] != 2 {
							b.WriteString(" int32 q=1;\n")
						}
						b.WriteString(" " + opens[k] + " {")
						if v == 1 {
							b.WriteString(" //i" + strconv.Itoa(d) + "\n")
						}
					}
					b.WriteString(in)
					for d := len(chain) - 1; d >= 0; d-- {
						b.WriteString("}")
						if v == 3 {
							b.WriteString(";")
						}
						if v == 1 {
							b.WriteString(" //e" + strconv.Itoa(d) + "\n")
						}
					}
					b.WriteString("}\n")
					visit(b.String())
				}
			}
		}
		if task == 0 {
			emit(nil)
			return
		}
		rec = func(chain []int) {
			if w.stopped() {
				return
			}
			emit(chain)
			if len(chain) == depth {
				return
			}
			for k := 0; k < n; k++ {
				rec(append(chain[:len(chain):len(chain)], k))
			}
		}
		rec([]int{task - 1})
	}}
}

// ---- U4: token edits of valid documents ------------------------------------------

var validDocs = []string{
	`syntax = "proto3" ; package a.b ; import "x" ;`,
	`edition = "2023" ; option o = 1 ;`,
	`syntax = 'proto2' ; import public "y" ; import weak 'z' ;`,
	`message M { }`,
	`message M { int32 a = 1 ; }`,
	`message M { repeated a.B c = 2 [ d = 1 , ( e.f ).g = "x" ] ; }`,
	`message M { optional .a.B c = 0x3 ; required string s = 017 ; }`,
	`message M { map < string , a.B > m = 1 ; map < int32 , bytes > n = 2 [ p = true ] ; }`,
	`message M { oneof o { int32 a = 1 ; b.C d = 2 [ e = 3 ] ; option f = 4 ; } }`,
	`message M { reserved 1 , 2 to 3 , 4 to max ; reserved "a" , "b" ; }`,
	`message M { extensions 1 , 2 to max ; }`,
	`message M { extensions 4 to 9 [ declaration = { number : 4 , full_name : ".a.b" , type : ".c" , repeated : true , reserved : false } , declaration = { number : 5 } ] ; }`,
	`message M { message N { int32 a = 1 ; } enum E { A = 0 ; } }`,
	`message M { extend X { int32 a = 1 ; } option o = 2 ; ; }`,
	`message M { repeated group G = 1 { int32 a = 1 ; } group H = 2 { } }`,
	`message M { group group = 1 ; group a = 2 ; a group = 3 ; }`,
	`enum E { A = 0 ; B = - 1 [ o = 1 , ( p ) = "q" ] ; }`,
	`enum E { option allow_alias = true ; reserved 2 , 9 to 11 ; reserved "F" ; ; A = 0x1 ; }`,
	`service S { rpc R ( A ) returns ( B ) ; }`,
	`service S { option o = 1 ; rpc R ( stream a.B ) returns ( stream .c.D ) { option p = 2 ; ; } ; }`,
	`service S { rpc R ( A ) returns ( B ) { } rpc T ( A ) returns ( B ) ; }`,
	`extend a.B { int32 c = 1 ; repeated D e = 2 ; ; }`,
	`option ( a.b ).c.d = "x" "y" ; option e = - 1.5e3 ;`,
	`option o = { a : 1 , b : { c : "d" } ; e { f : [ 1 , 2 ] } g : h.i } ;`,
	`option o = [ 1 , "a" , { b : true } , [ ] , { } ] ;`,
	`option ( .a.b ) = true ; option c = inf ; option d = + nan ;`,
	`message M { optional int32 a = 1 [ b = { c : 1 } , d = [ 1 , 2 ] , e = f.g ] ; }`,
	`message M { } ; enum E { } ; service S { } ; extend X { } ; ;`,
	`message message { message message = 1 ; }`,
	`enum enum { option option = option.option ; enum = 1 ; }`,
	`service rpc { rpc rpc ( rpc ) returns ( returns ) ; }`,
	`package option.message ; import "i" ; option package = package ;`,
	`message M { oneof oneof { oneof.a map = 1 ; } map.x y = 2 ; }`,
	`message M { reserved a , "b" , c ; reserved max ; reserved 1 to max ; }`,
}

var editToks = f(`; { } [ ] ( ) = , . : a M 1 "s" option message reserved repeated stream group - to max map oneof enum rpc returns syntax < > true 1.5 //c`)
var editToks2 = f(`; { } = , . a 1 "s" ) ] option`)

func tokenTexts(src string) []string {
	var lx lexed
	lx.run(src, "")
	var out []string
	for _, t := range lx.toks {
		if t.kind != kEOF {
			out = append(out, t.text)
		}
	}
	return out
}

// edits calls visit with every token list one edit away from toks (within
// [lo,hi)).
func edits(toks []string, alpha []string, lo, hi int, visit func(t []string, at int)) {
	buf := make([]string, 0, len(toks)+2)
	mk := func(parts ...[]string) []string {
		buf = buf[:0]
		for _, p := range parts {
			buf = append(buf, p...)
		}
		return append([]string(nil), buf...)
	}
	for i := lo; i < hi && i <= len(toks); i++ {
		if i < len(toks) {
			visit(mk(toks[:i], toks[i+1:]), i)
			visit(mk(toks[:i+1], toks[i:]), i)
			if i+1 < len(toks) {
				visit(mk(toks[:i], toks[i+1:i+2], toks[i:i+1], toks[i+2:]), i)
			}
			for _, a := range alpha {
				if a != toks[i] {
					visit(mk(toks[:i], []string{a}, toks[i+1:]), i)
				}
			}
		}
		for _, a := range alpha {
			visit(mk(toks[:i], []string{a}, toks[i:]), i)
		}
	}
}

func joinToks(t []string) string {
	var b strings.Builder
	for i, x := range t {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(x)
		if strings.HasPrefix(x, "//") {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func editDocs() [][]string {
	var all [][]string
	for _, d := range validDocs {
		all = append(all, tokenTexts(d))
	}
	return all
}

func (r *Run) edit1Uni(editToks []string) uni {
	all := editDocs()
	return uni{"edits/1", fmt.Sprintf("every single-token deletion, duplication, swap, replacement and insertion (%d tokens) in %d valid documents", len(editToks), len(all)), len(all), func(w *Worker, task int, visit visitFn) {
		visit(joinToks(all[task]))
		edits(all[task], editToks, 0, len(all[task])+1, func(t []string, at int) { visit(joinToks(t)) })
	}}
}

var editSeps = []string{"\n", "\r\n\t", "/*é*/", " //x\n", "\n\n /*\n*/"}

// editLayUni: the edits of edit1Uni over many lines and with comments.
func (r *Run) editLayUni(editToks []string, seps []string) uni {
	all := editDocs()
	return uni{"edits/1-layouts", fmt.Sprintf("the same edits (%d tokens) with each of %q between all tokens", len(editToks), seps), len(all) * len(seps), func(w *Worker, task int, visit visitFn) {
		sep, doc := seps[task%len(seps)], all[task/len(seps)]
		edits(doc, editToks, 0, len(doc)+1, func(t []string, at int) {
			if w.stopped() {
				return
			}
			var b strings.Builder
			for i, x := range t {
				if i > 0 {
					b.WriteString(sep)
				}
				b.WriteString(x)
				if strings.HasPrefix(x, "//") {
					b.WriteByte('\n')
				}
			}
			visit(b.String())
			visit(b.String() + sep)
		})
	}}
}

var longTrivia = []string{strings.Repeat(" ", 4200), strings.Repeat("\n", 300), "/*" + strings.Repeat("é", 2100) + "*/", " //" + strings.Repeat("x", 4200) + "\n", strings.Repeat("/*c*/", 70), strings.Repeat("//c\n", 70), "/*" + strings.Repeat("\n", 300) + "*/",
	strings.Repeat(" ", 4200) + "//c\n", strings.Repeat("\t", 1100) + "/*c*/\n/*d*/", "/*" + strings.Repeat("\n", 300) + "*/" + strings.Repeat(" ", 300) + "//c\n"}

// longGapUni: every gap of the valid documents with very much trivia in it.
func (r *Run) longGapUni() uni {
	all := editDocs()
	return uni{"gaps/long", fmt.Sprintf("every gap of %d documents filled with each of %d long trivia texts (thousands of blanks, hundreds of lines, 70 comments, …)", len(all), len(longTrivia)), len(all) * len(longTrivia), func(w *Worker, task int, visit visitFn) {
		doc, tr := all[task%len(all)], longTrivia[task/len(all)]
		for i := 0; i <= len(doc); i++ {
			if w.stopped() {
				return
			}
			visit(joinToks(doc[:i]) + tr + joinToks(doc[i:]) + "\nmessage Z { int32 z = 1; } // z")
		}
	}}
}

// otherWords: t in other letters, cut, extended and very long, as what it is.
func otherWords(t string) []string {
	long := func(n int) string { return strings.Repeat("aB_9", n/4) }
	switch c := t[0]; {
	case rIdentStart(rune(c)):
		flip := strings.ToLower(t[:1])
		if flip == t[:1] {
			flip = strings.ToUpper(t[:1])
		}
		ws := []string{strings.ToUpper(t), flip + t[1:], t[:len(t)-1] + strings.ToUpper(t[len(t)-1:]), t + t, t + "s", "_" + t, t + "_", t + "1", t + "-", t + ".", "." + t, "1" + t, "\"" + t + "\"", t + ".a", long(72), long(260), long(1028)}
		if len(t) > 1 {
			ws = append(ws, t[1:], t[:len(t)-1], t[:1]+" "+t[1:], t[:1]+"_"+t[1:])
		}
		return ws
	case rDigit(rune(c)):
		return []string{"-" + t, "+" + t, "- -" + t, "0" + t, "0x" + t, t + ".", t + ".0", "." + t, t + "e1", t + "e", t + "a", t + "_0", t + "L", t + "-", t + " " + t, "\"" + t + "\"", strings.Repeat("8", 72), strings.Repeat("7", 1028), "0x" + strings.Repeat("f", 72), "." + strings.Repeat("0", 260) + "1", "1e" + strings.Repeat("2", 72)}
	case c == '"' || c == '\'':
		in, q := t[1:len(t)-1], t[:1]
		o := "\"'"[:1]
		if o == q {
			o = "'"
		}
		ws := []string{in, o + in + o, q + in, in + q, q + in + o, q + " " + in + q, q + in + " " + q, q + strings.ToUpper(in) + q, q + in + "\\" + q, q + in + "\n" + q, q + q, q + q + q, q + in + q + q, q + long(72) + q, q + strings.Repeat("é", 600) + q, q + long(72) + "\n", "`" + in + "`", q + in + q + " " + q + in + q}
		return ws
	}
	return []string{t + t, t + " " + t, "\\" + t, "\"" + t + "\"", long(72), long(1028), strings.Repeat("8", 72), "\"" + long(260) + "\"", strings.Repeat(t, 72)}
}

// wordsUni: every token of the valid documents in other words.
func wordsUni() uni {
	all := editDocs()
	return uni{"words", fmt.Sprintf("every token of %d valid documents in other letters, cut, extended, prefixed, very long (up to 1028 bytes)", len(all)), len(all), func(w *Worker, task int, visit visitFn) {
		doc := all[task]
		for i, t := range doc {
			if t == "" {
				continue
			}
			for _, o := range otherWords(t) {
				if w.stopped() {
					return
				}
				visit(joinToks(doc[:i]) + " " + o + " " + joinToks(doc[i+1:]))
			}
		}
	}}
}

// edit2Uni: k selects the alphabet and the distance of the two edits.
func (r *Run) edit2Uni(k int) uni {
	all := editDocs()
	type job struct{ d, at int }
	var jobs []job
	for d := range all {
		for at := 0; at <= len(all[d]); at++ {
			jobs = append(jobs, job{d, at})
		}
	}
	win, alpha := k/3, [][]string{f(`; } 1`), editToks2, editToks[:20]}[k%3]
	return uni{"edits/2", fmt.Sprintf("every pair of edits at most %d tokens apart (%d tokens)", win, len(alpha)), len(jobs), func(w *Worker, task int, visit visitFn) {
		j := jobs[task]
		edits(all[j.d], alpha, j.at, j.at+1, func(t []string, at int) {
			if w.stopped() {
				return
			}
			edits(t, alpha, at, at+1+win, func(t2 []string, _ int) { visit(joinToks(t2)) })
		})
	}}
}

// ---- U5: pumping ------------------------------------------------------------------

type pump struct{ name, pre, mid, unit, sep, post string }

var pumps = []pump{
	{"spaces", "message M {", "", " ", "", "}"},
	{"newlines", "message M {", "", "\n", "", "int32 a = 1; }"},
	{"crlf", "message M {", "", "\r\n", "", "int32 a = 1; }"},
	{"line-comments", "message M {", "", "//c#\n", "", "int32 a = 1; }"},
	{"block-comments", "", "", "/*c#\n*/", "", "message M { }"},
	{"comments-in-field", "message M { int32", "", "/*c#*/", "", "a = 1; }"},
	{"empty-statements", "", "", ";", "", ""},
	{"empty-in-message", "message M {", "", ";", "", "}"},
	{"fields", "message M {", "", "int32 a# = #;\n", "", "}"},
	{"repeated-fields", "message M {", "", "repeated a.b.C a# = #;\n", "", "}"},
	{"enum-values", "enum E {", "", "A# = -#;", "", "}"},
	{"options", "", "", "option a# = #;", "", ""},
	{"imports", "", "", `import "f#";`, "", ""},
	{"messages", "", "", "message M# { int32 a = 1; }", "", ""},
	{"rpcs", "service S {", "", "rpc R#(stream A#) returns (B#);", "", "}"},
	{"rpc-options", "service S { rpc R(A) returns (B) {", "", "option o# = #;", "", "} }"},
	{"oneof-fields", "message M { oneof o {", "", "int32 a# = #;", "", "} }"},
	{"ranges", "message M { reserved ", "0", "# to max", ",", "; }"},
	{"names", "message M { reserved ", `"z"`, `"a#"`, ",", "; }"},
	{"extension-ranges", "message M { extensions ", "0", "#", ",", "; }"},
	{"declarations", "message M { extensions 1 [", `declaration = { number: 0 }`, `declaration = { number: #, reserved: true }`, ",", "]; }"},
	{"field-options", "message M { int32 a = 1 [", "z = 0", "o# = #", ",", "]; }"},
	{"enum-options", "enum E { A = 1 [", "z = 0", "(o#).p = \"#\"", ",", "]; }"},
	{"dots-package", "package ", "a", ".b#", "", ";"},
	{"dots-type", "message M { a", "", ".b#", "", " f = 1; }"},
	{"dots-option", "option a", "", ".(b#)", "", " = 1;"},
	{"dots-constant", "option a = x", "", ".y#", "", ";"},
	{"list", "option a = [", "1", "#", ",", "];"},
	{"aggregate", "option a = {", "z:1", "b#:#", ",", "};"},
	{"aggregate-newline", "option a = {", "z:1", " b#:#", "", "};"},
	{"strings", `option a = `, `"z"`, ` "s#"`, "", ";"},
	{"identifier", "message ", "M", "a", "", " { }"},
	{"digits", "message M { int32 a = ", "1", "0", "", "; }"},
	{"octal", "message M { int32 a = 0", "1", "7", "", "; }"},
	{"hex", "message M { int32 a = 0x", "1", "f", "", "; }"},
	{"fraction", "option a = 1.", "", "5", "", ";"},
	{"exponent", "option a = 1e", "1", "0", "", ";"},
	{"string-chars", `option a = "`, "", "é", "", `";`},
	{"string-escapes", `option a = "`, "", `\"`, "", `";`},
	{"backslashes", `option a = "`, "", `\\`, "", `";`},
	{"odd-backslashes", `option a = "`, "", `\`, "", `";`},
	{"stars", "/*", "", "*", "", "/ message M { }"},
	{"slashes", "", "", "/", "", "\nmessage M { }"},
	{"comment-text", "//", "", "x", "", "\nmessage M { }"},
	{"labels", "message M {", "", " repeated", "", " a b = 1; }"},
	{"streams", "service S { rpc R(", "", " stream", "", " A) returns (B); }"},
	{"closing-semis", "message M { }", "", ";", "", "enum E { }"},
	{"signs", "option a = ", "", "-", "", "1;"},
	{"bom", "", "", "\ufeff", "", "message M { }"},
	{"groups", "message M {", "", "optional group G# = # { int32 a = 1; }", "", "}"},
	{"extends", "", "", "extend A.B# { int32 a = 1; }", "", ""},
	{"maps", "message M {", "", "map<int32, V#> m# = #;", "", "}"},
	{"oneofs", "message M {", "", "oneof o# { int32 a = 1; }", "", "}"},
	{"services", "", "", "service S# { rpc R(A) returns (B); }\n", "", ""},
	{"enums", "", "", "enum E# { A = 0; } ", "", ""},
	{"enum-reserved", "enum E {", "", "reserved #, \n # to max;", "", "A = 0; }"},
	{"reserved-statements", "message M {", "", "reserved \"a#\", \"b\"; ", "", "}"},
	{"extension-statements", "message M {", "", "extensions # to # [declaration = { number: # }];", "", "}"},
	{"extension-ranges-statements", "message M {", "", "extensions #;", "", "}"},
	{"extend-fields", "extend A.B {", "", "optional int32 a# = #;", "", "}"},
	{"message-options", "message M {", "", "option (a).b# = { c: # };", "", "}"},
	{"enum-options-stmt", "enum E {", "", "option a# = #; ", "", "A = 0; }"},
	{"service-options", "service S {", "", "option a# = \"#\"; ", "", "}"},
	{"oneof-options", "message M { oneof o {", "", "option a# = #; ", "", "int32 a = 1; } }"},
	{"rpc-bodies", "service S {", "", "rpc R#(A) returns (stream .B#) { option a = 1; };\n", "", "}"},
	{"rpc-comments", "service S { rpc", "", "/*c#*/", "", "R(A) returns (B); }"},
	{"body-comments", "enum E { A = 0;\n", "", "//c#\n", "", "}"},
	{"body-comments-service", "service S {\n", "", "/*c#*/\n", "", "; }"},
	{"inline-comments", "message M {\n", "", "//l#\nint32 a# = #; //i#\n", "", "}"},
	{"wide-comments", "", "", "/*é世😀*/", "", "message M { }"},
	{"comment-lines", "/*", "", "c#\n", "", "*/ message M { }"},
	{"comment-crlf", "/*", "", "c\r\n", "", "*/ message M { }"},
	{"nested-messages", "message M {", "", "message N# { } ", "", "int32 a = 1; }"},
	{"optional-in-message", "message M {", "", "optional int32 a# = # [deprecated = true];", "", "}"},
}

// hugePumps are repeated more often than 16 bits count.
var hugePumps = []pump{
	{"newlines", "message M {", "", "\n", "", "int32 a = 1; }"},
	{"crlf", "message M {", "", "\r\n", "", "int32 a = 1; }"},
	{"spaces", "message M {", "", " ", "", "int32 a = 1; }"},
	{"wide", "/*", "", "世", "", "*/ message M { int32 a = 1; }"},
	{"comment-lines", "/*", "", "\n", "", "*/ message M { int32 a = 1; }"},
	{"identifier", "message ", "M", "a", "", " { int32 a = 1; }"},
	{"string", "option a = \"", "", "x", "", "\"; message M { int32 a = 1; }"},
	{"digits", "message M { int32 a = ", "1", "0", "", "; }"},
	{"statements", "", "", ";", "", "message M { int32 a = 1; }"},
	{"enum-values", "enum E {", "", "A=1;\n", "", "}"},
	{"line-comment", "//", "", "x", "", "\nmessage M { int32 a = 1; }"},
}

var hugeCounts = []int{66000}

func hugeUni() uni {
	n := len(hugePumps) * len(hugeCounts)
	return uni{"pumping/huge", fmt.Sprintf("%d repetition patterns, %v times", len(hugePumps), hugeCounts), n, func(w *Worker, task int, visit visitFn) {
		p, k := hugePumps[task%len(hugePumps)], hugeCounts[task/len(hugePumps)]
		visit(p.pre + p.mid + strings.Repeat(p.unit, k) + p.post)
	}}
}

type nestPump struct{ name, pre, open, mid, close, post string }

var nestPumps = []nestPump{
	{"message", "", "message M {", "", "}", ""},
	{"message-field", "", "message M { int32 a = 1;", "", "int32 b = 2; }", ""},
	{"group", "message M {", "optional group G = 1 {", "", "}", "}"},
	{"message-extend", "", "message M { extend X { int32 a = 1; }", "", "}", ""},
	{"aggregate", "option a = ", "{b:", "1", "}", ";"},
	{"aggregate-brace", "option a = {z:1,", "b{", "c:1", "}", "};"},
	{"list", "option a = ", "[", "1", "]", ";"},
	{"list-aggregate", "option a = ", "[{a:", "1", "}]", ";"},
	{"parens", "option ", "(", "a", ")", " = 1;"},
	{"unclosed", "", "message M {", "", "", ""},
	{"unclosed-list", "option a = ", "[", "", "", ";"},
	{"unclosed-aggregate", "option a = ", "{b:", "", "", ";"},
	{"overclosed", "message M {", "", "", "}", ""},
}

func numbered(unit string, i int) string {
	return strings.ReplaceAll(unit, "#", strconv.Itoa(i))
}

func (r *Run) pumpUnis(quick, farMax, deepMax int) []uni {
	max, nest := quick, quick*4/7
	if r.thorough() {
		max, nest = quick*4, quick*2
	}
	far := map[int]bool{127: true, 128: true, 129: true, 255: true, 256: true, 257: true, 300: true, 513: true, 1025: true}
	if r.thorough() {
		if farMax > 1000 {
			farMax *= 4
		}
		if deepMax > 1000 {
			deepMax *= 4
		}
		for _, n := range []int{511, 512, 999, 1000, 1001, 1023, 1024, 2049, 4100} {
			far[n] = true
		}
	}
	if farMax < max {
		farMax = max
	}
	if deepMax < nest {
		deepMax = nest
	}
	rep := uni{"pumping", fmt.Sprintf("%d repetition patterns, every count 0..%d and some up to %d", len(pumps), max, farMax), len(pumps), func(w *Worker, task int, visit visitFn) {
		p := pumps[task]
		body := p.pre + p.mid
		for n := 0; n <= farMax; n++ {
			if n <= max || far[n] {
				visit(body + p.post)
			}
			if n > 0 || p.mid != "" {
				body += p.sep
			}
			body += numbered(p.unit, n+1)
		}
	}}
	deep := uni{"nesting-depth", fmt.Sprintf("%d nesting patterns, every depth 0..%d and some up to %d", len(nestPumps), nest, deepMax), len(nestPumps), func(w *Worker, task int, visit visitFn) {
		p := nestPumps[task]
		for n := 0; n <= deepMax; n++ {
			if n > nest && !far[n] {
				continue
			}
			visit(p.pre + strings.Repeat(p.open, n) + p.mid + strings.Repeat(p.close, n) + p.post)
		}
	}}
	var stmts []pump
	for _, p := range pumps {
		u := strings.TrimSpace(p.unit)
		if p.sep == "" && (strings.HasSuffix(u, ";") || strings.HasSuffix(u, "}")) {
			p.unit = "\n//l#\n" + u + " //i#"
			if p.post != "" {
				p.post = "\n" + p.post
			}
			stmts = append(stmts, p)
		}
	}
	cmt := uni{"pumping/commented", fmt.Sprintf("%d repetition patterns of statements with a comment before and behind each, every count 0..%d and some up to %d", len(stmts), max, farMax/2), len(stmts), func(w *Worker, task int, visit visitFn) {
		p := stmts[task]
		body := p.pre + p.mid
		for n := 0; n <= farMax/2; n++ {
			if n <= max || far[n] {
				visit(body + p.post)
			}
			body += numbered(p.unit, n+1)
		}
	}}
	ks := []int{0, 1, 2, 3, 4, 5, 8, 16, 17, 33}
	if quick <= 20 {
		ks = []int{0, 1, 2, 5, 17}
	}
	if r.thorough() {
		ks = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129}
	}
	fol := uni{"pumping/followed", fmt.Sprintf("%d repetition patterns, one repeated k times, then again l times, then k times, for k and l in %v", len(pumps), ks), len(pumps), func(w *Worker, task int, visit visitFn) {
		p := pumps[task]
		one := func(k, off int) string {
			var b strings.Builder
			b.WriteString(p.pre + p.mid)
			for i := 0; i < k; i++ {
				if i > 0 || p.mid != "" {
					b.WriteString(p.sep)
				}
				b.WriteString(numbered(p.unit, off+i+1))
			}
			return b.String() + p.post
		}
		for _, k := range ks {
			for _, l := range ks {
				visit(one(k, 0) + "\n" + one(l, 500))
				visit(one(k, 0) + "\n" + one(l, 500) + "\n" + one(k, 1000))
			}
		}
	}}
	return []uni{rep, deep, cmt, fol}
}

// boundaryUni: every document shifted so that each of its bytes meets the
// boundary of the 4096-byte input buffer.
func (r *Run) boundaryUni() uni {
	docs := []string{
		"message M { // é\n repeated a.B c = 0x1F [d = \"é\\\"世\"]; /* x */ }\nservice S { rpc R(stream A) returns (B) { option o = -1.5e3; } }\n",
		"/*世\n*/ enum E { A = -1; option (a.b).c = { d: \"é\" \"f\" }; reserved 1 to max; }\r\nextend X { int32 a = 1; };\n",
	}
	pads := []string{";", "\n;", "long", "option e=\"é世\";\n"}
	if r.thorough() {
		pads = append(pads, " ", "\n", "//é\n", "/*世*/", "\r\n")
	}
	type job struct{ d, p int }
	var jobs []job
	for d := range docs {
		for p := range pads {
			jobs = append(jobs, job{d, p})
		}
	}
	bs := []int{4096}
	if r.thorough() {
		bs = []int{4096, 8192}
	}
	return uni{"buffer-boundary", fmt.Sprintf("%d documents shifted to every alignment with the buffer boundary %v, %d paddings", len(docs), bs, len(pads)), len(jobs), func(w *Worker, task int, visit visitFn) {
		j := jobs[task]
		d, p := docs[j.d], pads[j.p]
		for _, b := range bs {
			for k := -2; k <= len(d)+1; k++ {
				n := b - k
				if p == "long" {
					visit("/*" + strings.Repeat("é", (n-5)/2) + strings.Repeat("x", (n-5)%2) + "*/\n" + d)
					continue
				}
				fillN := n / len(p)
				pad := strings.Repeat(p, fillN) + strings.Repeat(" ", n-fillN*len(p))
				visit(pad + d)
			}
		}
	}}
}

// ---- U6, U7: prefixes, files ---------------------------------------------------------

func repoDir() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

var testdataCache []string

func testdata() []string {
	if testdataCache != nil {
		return testdataCache
	}
	fs, _ := filepath.Glob(filepath.Join(repoDir(), "_testdata", "*.proto"))
	sort.Strings(fs)
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil {
			testdataCache = append(testdataCache, string(b))
		}
	}
	return testdataCache
}

// bigDoc uses every construct once, with comments everywhere.
const bigDoc = `// l1
/* l2 */ syntax = "proto3"; // i1
// l3
package a.b; /* i2 */
import public "x.proto"; // i3
// l4
option (a.b).c = { d: 1, e: [1, "é"] }; // i4

// l5
message M { // c1
  // l6
  repeated a.B f = 1 [x = 1, (y.z).w = "q"]; // i5
  oneof o { // c2
    // l7
    int32 a = 2; // i6
    option p = "a" "b"; // i7
  } // i8
  map<string, V> m = 3; // i9
  reserved 4, 5 to max; // i10
  reserved "r", 's'; // i11
  extensions 9 to 10 [ // c3
    // l8
    declaration = { // c4
      number: 9, full_name: ".f", type: "t", repeated: true }, // i12
    declaration = { number: 10, reserved: true } // i13
  ]; // i14
  message N { } // i15
  enum E { // c5
    // l9
    A = 0 [d = true]; // i16
    reserved 7; // i17
    ; // i18
    // b1
  } // i19
  extend X { // c6
    optional int32 e = 5; // i20
  }; // i21
  optional group G = 6 { // c7
    int32 g = 1; // i22
  } // i23
  ; // i24
  // b2
} // i25
service S { // c8
  // l10
  rpc R /*e1*/ ( /*e2*/ stream A) /*e3*/ returns (.b.B) { // c9
    // l11
    option q = -1.5e3; // i26
  } // i27
  rpc T(A) returns (stream B); // i28
  // b3
} // i29
// b4
`

func prefixUni(name string, docs []string, step int) uni {
	return uni{"prefixes/" + name, fmt.Sprintf("every prefix of %d documents, with 3 endings", len(docs)), len(docs) * 8, func(w *Worker, task int, visit visitFn) {
		d := docs[task/8]
		for i := task % 8; i <= len(d); i += 8 {
			if w.stopped() {
				return
			}
			visit(d[:i])
			visit(d[:i] + "\n}")
			visit(d[:i] + ";")
		}
	}}
}

func (r *Run) prefixUnis() []uni {
	us := []uni{prefixUni("big", []string{bigDoc}, 1), prefixUni("valid", validDocs, 1)}
	if r.thorough() {
		us = append(us, prefixUni("testdata", testdata(), 1))
	}
	return us
}

func listUni(name string, ds []string) uni {
	return uni{name, fmt.Sprintf("%d documents", len(ds)), len(ds), func(w *Worker, task int, visit visitFn) { visit(ds[task]) }}
}

func filesUni() uni {
	ds := append(append([]string{}, testdata()...), bigDoc)
	ds = append(ds, validDocs...)
	return uni{"files", fmt.Sprintf("%d documents (the repository's files and the built-in ones)", len(ds)), len(ds), func(w *Worker, task int, visit visitFn) {
		visit(ds[task])
		visit(strings.ReplaceAll(ds[task], "\n", "\r\n"))
		visit("\ufeff" + ds[task])
		visit(strings.ReplaceAll(ds[task], "\n", "\n\n"))
	}}
}

// lineEditUni: single-character edits of a document using everything.
func charEditUni(name string, docs []string, alpha []string) uni {
	return uni{"char-edits/" + name, fmt.Sprintf("every single-character deletion, insertion and replacement (%d characters) in %d documents", len(alpha), len(docs)), len(docs) * 16, func(w *Worker, task int, visit visitFn) {
		d := docs[task/16]
		for i := task % 16; i <= len(d); i += 16 {
			if w.stopped() {
				return
			}
			if i < len(d) && (d[i] >= 0x80) {
				continue // keep the text valid UTF-8
			}
			if i < len(d) {
				visit(d[:i] + d[i+1:])
			}
			for _, a := range alpha {
				visit(d[:i] + a + d[i:])
				if i < len(d) {
					visit(d[:i] + a + d[i+1:])
				}
			}
		}
	}}
}

func (r *Run) charEditUnis() []uni {
	return []uni{charEditUni("big", []string{bigDoc}, append(split(";{}\"/*\n a1.=-[]():,'é\\"), "//z\n", "/*z*/", "\x00", "\ufeff")),
		charEditUni("valid", validDocs, append(split(";{}\"/*\n a1.=-[]():,'é\\0xe<>"), "//z\n", "\x00"))}
}

func sortStrings(s []string) { sort.Strings(s) }

// twinsUni: two comments at every pair of gaps of a valid document.
func (r *Run) twinsUni(level int) uni {
	kinds := [][2]string{{"/*a*/", "/*a*/"}, {"//a\n", "//a\n"}}
	if level > 1 || r.thorough() {
		kinds = append(kinds, [2]string{"/*a*/", "//a\n"}, [2]string{"//a\n", "/*b*/"}, [2]string{"\n/*a*/\n", "\n/*a*/\n"}, [2]string{"/*a\n*/", "/*a\n*/"})
	}
	docs := append([]string{}, validDocs...)
	docs = append(docs, twinDocs...)
	return uni{"comments/pairs", fmt.Sprintf("two comments (%d combinations, equal and different texts) at every pair of gaps of %d documents", len(kinds), len(docs)), len(docs) * len(kinds), func(w *Worker, task int, visit visitFn) {
		toks := tokenTexts(docs[task/len(kinds)])
		k := kinds[task%len(kinds)]
		for i := 0; i <= len(toks); i++ {
			for j := i; j <= len(toks); j++ {
				var b strings.Builder
				for x := 0; x <= len(toks); x++ {
					if x == i {
						b.WriteString(k[0] + " ")
					}
					if x == j {
						b.WriteString(k[1] + " ")
					}
					if x < len(toks) {
						b.WriteString(toks[x] + " ")
					}
				}
				visit(b.String())
			}
		}
	}}
}

// the constructs with the most places for comments, as short as possible.
var twinDocs = []string{
	`service S { rpc R ( A ) returns ( B ) ; }`,
	`service S { rpc R ( stream A ) returns ( stream B ) { } ; }`,
	`message M { a b = 1 ; c d = 2 ; } enum E { A = 1 ; B = 2 ; }`,
	`message M { extensions 1 [ declaration = { number : 1 , type : "a" } , declaration = { number : 2 } ] ; }`,
	`syntax = "proto3" ; message M { } message N { }`,
	`edition = "2023" ; message M { message N { } } ;`,
	`message M { oneof o { a b = 1 ; c d = 2 ; } group G = 1 { a b = 1 ; } map < a , b > c = 1 ; } ;`,
}
