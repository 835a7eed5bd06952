package main

// Deviation-bounded enumeration of documents.  A template is a function that
// writes a document and asks for choices; choice 0 is the default, every other
// choice is one deviation.  The explorer runs the template for every choice
// sequence with at most `bound` deviations (choices declared free cost
// nothing).  Nothing is sampled.

import "strconv"

type point struct {
	n    int
	c    int
	free bool
}

type G struct {
	pre []int
	tr  []point
	b   []byte
	cn  int // comment counter, to make every comment text unique

	formDev bool // forms (identifiers, numbers, options, repetition) are choice points
	gapDev  bool // white space between tokens is a choice point
	sepDev  bool // the space between statements is a choice point
	lean    bool // smaller alternative lists
}

func (g *G) choose(n int, free bool) int {
	i := len(g.tr)
	c := 0
	if i < len(g.pre) {
		c = g.pre[i]
		if c >= n {
			panic("replay diverged: choice out of range")
		}
	}
	g.tr = append(g.tr, point{n, c, free})
	return c
}
func (g *G) pick(n int) int {
	if !g.formDev || n < 2 {
		return 0
	}
	return g.choose(n, false)
}
func (g *G) free(n int) int {
	if n < 2 {
		return 0
	}
	return g.choose(n, true)
}
func (g *G) raw(s string) { g.b = append(g.b, s...) }

// writes one of the trivia texts; '#' becomes a unique number
func (g *G) trivia(s string) {
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			g.cn++
			g.b = strconv.AppendInt(g.b, int64(g.cn), 10)
		} else {
			g.b = append(g.b, s[i])
		}
	}
}

var gapAlts = []string{
	" ", "", "\n", "/*#*/", " //#\n", "\t\r\n ", " /*é#\n世*/ ", "//#\n\n/*#*/\n", " /*#*/ /*#*/ ", "\u00a0\u2003\v\f\u0085",
	"/**/", "//\n", " //#\r\n", "/*#*//*#*/", "\n\n\n", "/*/#*/", "/***/ /*#**/", "//#\n//#\n",
}
var sepAlts = []string{
	"\n", " ", "", " //i#\n", "\n//l#\n", " //i#\n//l#\n", " /*i#*/ /*l#*/ ", "\n//l#\n/*l#*/\n\n//l#\n", " /*i#\nx*/ /*l#*/\n",
	"\n\n /*é#*/ ", " //i#\n\n\n//l#\n//l#\r\n", "//i#\r\n", "/*i#*/", "\r\n\r\n", "\n/*l#*/", "\n/**/ //\n", " //i#世\n /*l#\n\n*/ \n",
}

func (g *G) gap() {
	if g.gapDev {
		g.trivia(gapAlts[g.choose(len(gapAlts), false)])
	} else {
		g.raw(" ")
	}
}
func (g *G) sep() {
	if g.sepDev {
		g.trivia(sepAlts[g.choose(len(sepAlts), false)])
	} else {
		g.raw("\n")
	}
}

// t writes tokens separated by gaps, each with a gap in front.
func (g *G) t(toks ...string) {
	for _, t := range toks {
		g.gap()
		g.raw(t)
	}
}

// first writes the first token of a statement (the separator precedes it).
func (g *G) first(t string) { g.raw(t) }

// choice of token texts in a slot
func (g *G) alt(alts []string) {
	g.gap()
	n := len(alts)
	if g.lean && n > 8 {
		n = 8
	}
	g.raw(alts[g.pick(n)])
}

var identTail = []string{
	"_", "A1_", "zZ9", "B", "é", "1a", "", "a.b", "syntax", "edition", "service", "rpc", "returns", "message", "extend", "import", "package", "option",
	"repeated", "required", "optional", "weak", "public", "oneof", "map", "reserved", "extensions", "number", "full_name", "type",
	"declaration", "enum", "stream", "group", "true", "false", "inf", "nan", "to", "max", "int32", "bytes", "\"q\"", "a b", "a-b", "$",
	"averyverylongidentifier_0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz_0123456789",
}

func identAlts(def string) []string { return append([]string{def}, identTail...) }

var identCache = map[string][]string{}

func (g *G) ident(def string) {
	a, ok := identCache[def]
	if !ok {
		a = identAlts(def)
	}
	g.alt(a)
}

func init() {
	for _, d := range []string{"m", "M", "f", "E", "A", "S", "R", "G", "x", "o", "p", "e", "h"} {
		identCache[d] = identAlts(d)
	}
}

var intAlts = []string{"1", "0", "0x1F", "", "017", "-1", "1.0", "inf", "00", "0XaBcDeF09", "2147483647", "18446744073709551616", "08", "1e3", "0x", "+1", ".5", "1.", "a", "536870911", "09", "0x1g", "1 2", "\"1\""}

func (g *G) intLit() { g.alt(intAlts) }

var strAlts = []string{`"s"`, `''`, `"a\"b"`, `'a"b'`, `"`, `"\x41\101\n\\"`, `s`, `"é世😀"`, `""`, `"'"`, `"\'"`, "'a\\'b'", `"//no"`, `"/*no*/"`, `"a" "b"`, "\"a\nb\"", `"\"`, `"\\"`, `"{;}"`, `'\"'`, `"\\\""`, `"	"`, `1`, ``, "\"a\x00b\"", `"\777\x4g"`}

func (g *G) strLit() { g.alt(strAlts) }

var typeAlts = []string{"int32", "M", ".a.B", "a.b.c", "string", ".", "a.", "", "a . b", ". a", "double", "float", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "bytes",
	"a..b", "1", "int32.x", ".int32", "group", "stream", "repeated", "map", "true", "\"M\"", "a.1", "_._", "/*c*/ a /*d*/ . /*e*/ b", "a.b.c.d.e.f.g.h"}

func (g *G) typ(def string) {
	if def == "int32" {
		g.alt(typeAlts)
		return
	}
	g.gap()
	i := g.pick(len(typeAlts))
	if i == 0 {
		g.raw(def)
	} else {
		g.raw(typeAlts[i])
	}
}

var fullIdentAlts = []string{"a", "a.b.c", "a . b", ".a", "a.", "", "a..b", "1", "a.b.", "_", "package.option", "true.inf", "a./*c*/b", "a //c\n.b", "a.1", "\"a\"", "a b"}

var optNameAlts = []string{"o", "(a.b).c", "(.a)", "o.p.q", "o.(a.b)", "(a)", "", "(a", "o.", "()", ".o", "((a))", "(a).(b).c", "( . a . b ) . c . ( d )", "(a.)", "a)", "1", "\"o\"", "option", "(true).inf", "o.(.a)", "(..a)", "o..p", "(a b)", "[a]"}

func (g *G) optName() { g.alt(optNameAlts) }

var constAlts = []string{
	`1`, `"s"`, `true`, `-1`, `{a:1}`, `[1,2]`, `a.b`, ``,
	`+1`, `-1.5`, `1.5e10`, `.5`, `0x1F`, `017`, `inf`, `-inf`, `+nan`, `false`, `a`, `A.B.C`, `'s'`, `"a" "b"`, `"a" 'b'`, `'a' "b" 'c'`,
	`"x\"" "y"`, `"x" 'y"z'`, `"\x4" "1"`, `"\1" "2"`, `"é" "世"`, `"" ""`, `"a" /*c*/ "b" //d` + "\n" + `"c"`,
	`{}`, `[]`, `{ }`, `[ ]`, `{a:1,b:2}`, `{a:1;b:2;}`, `{a:1 b:2}`, `{a{b:1}}`, `{a:{b:1};c:2}`, `{a:{b:1},}`, `{a:[1,{b:2}]}`, `{a:"x" "y" b:'z'}`, `[{a:1},{b:2}]`, `["a","b" "c"]`, `[[1],[2]]`, `{a:{}}`, `{a{}}`, `{a:[]}`, `{a:-1.5e3}`, `{a:x.y}`,
	`-`, `--1`, `- a`, `- true`, `+"s"`, `{a}`, `{:1}`, `{a:}`, `{a:1,,b:2}`, `{,a:1}`, `[1,]`, `[,1]`, `[1 2]`, `[1`, `{a:1`, `{a:1]`, `[1}`, `{"a":1}`, `{1:a}`, `{a:1;;b:2}`, `{a:{b:1};;}`, `{a:{b:1};,c:1}`, `{a:1,}`, `{a:{b:1};}`, `{[a.b]:1}`, `a.`, `.a`, `1 2`, `a b`, `true false`, `1.2.3`, `1e`, `0x`, `0xg`, `"`, `{a:{b:{c:{d:1}}}}`, `[1,2,3,4,5]`, `{a:1 /*c*/ , //d` + "\n" + ` b /*e*/ : 2}`, `(a)`, `a.(b)`, `99999999999999999999`, `1e400`, `-0`, `+.5e-3`, `1.`, `1.e3`, `00`, `0.5`, `0e0`,
}

func (g *G) constant() { g.alt(constAlts) }

// ---- statements -----------------------------------------------------------

func (g *G) sOption() {
	g.first("option")
	g.optName()
	g.t("=")
	g.constant()
	g.t(";")
}

func (g *G) sImport() {
	g.first("import")
	switch g.pick(5) {
	case 1:
		g.t("public")
	case 2:
		g.t("weak")
	case 3:
		g.t("foo")
	case 4:
		g.t("public", "weak")
	}
	g.strLit()
	g.t(";")
}

func (g *G) sPackage() {
	g.first("package")
	g.alt(fullIdentAlts)
	g.t(";")
}

func (g *G) sSyntax() {
	g.first("syntax")
	g.t("=")
	g.alt([]string{`"proto3"`, `'proto2'`, `"proto2"`, `'proto3'`, `"proto4"`, `"proto3'`, `" proto3"`, `proto3`, ``, `"proto3 "`, `"pro" "to3"`, `"/*c*/proto3"`, `"proto"`, `"\x70roto3"`})
	g.t(";")
}

func (g *G) sEdition() {
	g.first("edition")
	g.t("=")
	g.alt([]string{`"2023"`, `'2023'`, `"1"`, `"2024`, `"2023'`, `" 2023"`, `2023`, ``, `"0x7"`, `"02"`, `"2023 "`, `"a"`, `"2.5"`, `""`, `"/*c*/2023"`, `"99999999999999999999"`})
	g.t(";")
}

func (g *G) fieldOpts(rich bool) {
	n := g.pick(5)
	if rich && n < 2 {
		n = 2 - n
	}
	if n == 0 {
		return
	}
	g.t("[")
	switch n {
	case 1:
		g.optName()
		g.t("=")
		g.constant()
	case 2:
		g.optName()
		g.t("=")
		g.constant()
		g.t(",")
		g.t("(", "a", ".", "b", ")", ".", "c", "=", `"x"`)
	case 3:
	case 4:
		g.t("a", "=", "1", ",", "b", "=", "2", ",", "c", "=", "3", ",", "d", "=", "4")
		if g.pick(2) == 1 {
			g.t(",")
		}
	}
	g.t("]")
}

func (g *G) label(k int) {
	switch k {
	case 1:
		g.first("repeated")
	case 2:
		g.first("optional")
	case 3:
		g.first("required")
	}
}

func (g *G) sField(rich bool) {
	k := g.pick(4)
	if rich && k < 2 {
		k = 1 - k
	}
	g.label(k)
	if k == 0 {
		// the type is the first token
		save := g.gapDev
		g.gapDev = false
		mark := len(g.b)
		g.typ("int32")
		// drop the blank in front
		copy(g.b[mark:], g.b[mark+1:])
		g.b = g.b[:len(g.b)-1]
		g.gapDev = save
	} else {
		g.typ("int32")
	}
	g.ident("f")
	g.t("=")
	g.intLit()
	g.fieldOpts(rich)
	g.t(";")
}

func (g *G) sMap(rich bool) {
	g.first("map")
	g.t("<")
	g.alt([]string{"string", "int32", "double", "M", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "float", "bytes", "", ".a"})
	g.t(",")
	g.typ("V")
	g.t(">")
	g.ident("m")
	g.t("=")
	g.intLit()
	g.fieldOpts(rich)
	g.t(";")
}

func (g *G) sGroup(rich bool) {
	k := 1 + g.pick(4)
	if k < 4 {
		g.label(k)
		g.t("group")
	} else {
		g.first("group")
	}
	g.ident("G")
	g.t("=")
	g.intLit()
	g.msgBody(rich, 1)
}

func (g *G) sOneof(rich bool) {
	g.first("oneof")
	g.ident("o")
	g.t("{")
	n := []int{1, 0, 2, 3}[g.pick(4)]
	if rich {
		n = 2
	}
	for i := 0; i < n; i++ {
		g.sep()
		k := g.pick(3)
		if rich && i == 1 && k < 2 {
			k = 1 - k
		}
		switch k {
		case 0:
			g.first([]string{"int32", "a.B", ".c"}[g.pick(3)])
			g.ident("x")
			g.t("=")
			g.intLit()
			g.fieldOpts(rich)
			g.t(";")
		case 1:
			g.sOption()
		case 2:
			g.first(";")
		}
	}
	g.sep()
	g.first("}")
	g.closeSemi()
}

// closeSemi: an optional semicolon behind a closing brace
func (g *G) closeSemi() {
	switch g.pick(3) {
	case 1:
		g.t(";")
	case 2:
		g.t(";", ";")
	}
}

func (g *G) sReserved(rich bool) {
	g.first("reserved")
	if rich {
		g.t("1", ",", "2", "to", "3", ",", "4", "to", "max", ";")
		return
	}
	switch g.pick(16) {
	case 0:
		g.t(`"a"`, ",", `"b"`)
	case 1:
		g.t("1", ",", "2", "to", "3", ",", "4", "to", "max")
	case 2:
		g.t("a", ",", "b")
	case 3:
		g.strLit()
	case 4:
		g.intLit()
		g.t("to")
		g.intLit()
	case 5:
		g.t("1", ",", `"a"`)
	case 6:
		g.t(`"a"`, ",", "1")
	case 7:
		g.t(`"a"`, "b", `"c"`)
	case 8:
		g.t("1", "to")
	case 9:
		g.t("max", "to", "to")
	case 10:
		g.t("1", "2")
	case 11:
		g.t("1", ",")
	case 12:
		g.t(`"a"`, ",")
	case 13:
		g.t("1", "to", "max", ",", "2", "to", "max")
	case 14:
	case 15:
		g.ident("x")
		g.t(",")
		g.ident("e")
	}
	g.t(";")
}

func (g *G) declaration(rich bool) {
	g.first("declaration")
	g.t("=", "{")
	n := []int{1, 0, 2, 3, 5}[g.pick(5)]
	if rich {
		n = 5
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			switch g.pick(3) {
			case 0:
				g.t(",")
			case 2:
				g.t(",", ",")
			}
		}
		k := g.pick(7)
		if k < 5 {
			k = (k + i) % 5
		}
		switch k {
		case 0:
			g.t("number", ":")
			g.intLit()
		case 1:
			g.t("full_name", ":")
			g.strLit()
		case 2:
			g.t("type", ":")
			g.strLit()
		case 3:
			g.t("repeated", ":")
			g.alt([]string{"true", "false", "maybe", "1", "\"true\"", ""})
		case 4:
			g.t("reserved", ":")
			g.alt([]string{"true", "false", "maybe", "1", "\"true\"", ""})
		case 5:
			g.t("foo", ":", "1")
		case 6:
			g.t("number")
		}
	}
	if g.pick(2) == 1 {
		g.t(",")
	}
	g.t("}")
}

func (g *G) sExtensions(rich bool) {
	g.first("extensions")
	switch g.pick(4) {
	case 0:
		g.t("1", "to", "max")
	case 1:
		g.t("1", ",", "3", "to", "5", ",", "7")
	case 2:
		g.intLit()
	case 3:
		g.t(`"a"`)
	}
	n := g.pick(4)
	if rich {
		n = 2
	}
	if n > 0 {
		g.t("[")
		for i := 0; i < n; i++ {
			if i > 0 {
				g.t(",")
			}
			g.sep()
			g.declaration(rich && i == 0)
			g.gap()
		}
		g.sep()
		g.t("]")
	}
	g.t(";")
}

func (g *G) sEmpty() { g.first(";") }

func (g *G) sEnumField(rich bool) {
	g.first([]string{"A", "_a", "true", "message", "1"}[g.pick(5)])
	g.t("=")
	if g.pick(2) == 1 {
		g.t("-")
	}
	g.intLit()
	g.fieldOpts(rich)
	g.t(";")
}

func (g *G) sRPC(rich bool) {
	g.first("rpc")
	g.ident("R")
	for i := 0; i < 2; i++ {
		if i == 1 {
			g.alt([]string{"returns", "", "return"})
		}
		g.t("(")
		k := g.pick(3)
		if rich && k < 2 {
			k = 1 - k
		}
		switch k {
		case 1:
			g.t("stream")
		case 2:
			g.t("stream", "stream")
		}
		g.typ("Q")
		g.t(")")
	}
	n := g.pick(6)
	if rich && n == 0 {
		n = 3
	}
	switch n {
	case 0:
		g.t(";")
		return
	case 5:
		return
	}
	g.t("{")
	for i := 1; i < n; i++ {
		g.sep()
		if g.pick(2) == 1 {
			g.sEmpty()
		} else {
			g.sOption()
		}
	}
	g.sep()
	g.first("}")
	g.closeSemi()
}

// body statement kinds
const (
	nMsgKinds  = 12
	nEnumKinds = 4
	nSvcKinds  = 3
	nExtKinds  = 2
	nTopKinds  = 8
)

func (g *G) msgStmt(k int, rich bool) {
	switch k {
	case 0:
		g.sField(rich)
	case 1:
		g.sOption()
	case 2:
		g.sEmpty()
	case 3:
		g.sMap(rich)
	case 4:
		g.sOneof(rich)
	case 5:
		g.sReserved(rich)
	case 6:
		g.sExtensions(rich)
	case 7:
		g.sMessage(rich, 0)
	case 8:
		g.sEnum(rich, 0)
	case 9:
		g.sExtend(rich, 0)
	case 10:
		g.sGroup(rich)
	case 11:
		g.sReserved(true)
	}
}

func (g *G) msgBody(rich bool, n int) {
	g.t("{")
	cnt := n
	if g.formDev {
		cnt = []int{n, 1 - n, 2, 3}[g.pick(4)]
		if cnt < 0 {
			cnt = 0
		}
	}
	for i := 0; i < cnt; i++ {
		g.sep()
		g.msgStmt(g.pick(nMsgKinds), rich && n == 0)
	}
	g.sep()
	g.first("}")
	g.closeSemi()
}

func (g *G) sMessage(rich bool, n int) {
	g.first("message")
	g.ident("M")
	g.msgBody(rich, n)
}

func (g *G) sEnum(rich bool, n int) {
	g.first("enum")
	g.ident("E")
	g.t("{")
	cnt := n
	if g.formDev {
		cnt = []int{n, 1, 2, 3}[g.pick(4)]
	}
	for i := 0; i < cnt; i++ {
		g.sep()
		g.enumStmt(g.pick(nEnumKinds), false)
	}
	g.sep()
	g.first("}")
	g.closeSemi()
}

func (g *G) enumStmt(k int, rich bool) {
	switch k {
	case 0:
		g.sEnumField(rich)
	case 1:
		g.sOption()
	case 2:
		g.sEmpty()
	case 3:
		g.sReserved(rich)
	}
}

func (g *G) sService(rich bool, n int) {
	g.first("service")
	g.ident("S")
	g.t("{")
	cnt := n
	if g.formDev {
		cnt = []int{n, 1, 2, 3}[g.pick(4)]
	}
	for i := 0; i < cnt; i++ {
		g.sep()
		g.svcStmt(g.pick(nSvcKinds), false)
	}
	g.sep()
	g.first("}")
	g.closeSemi()
}

func (g *G) svcStmt(k int, rich bool) {
	switch k {
	case 0:
		g.sRPC(rich)
	case 1:
		g.sOption()
	case 2:
		g.sEmpty()
	}
}

func (g *G) sExtend(rich bool, n int) {
	g.first("extend")
	g.typ("A.B")
	g.t("{")
	cnt := n
	if g.formDev {
		cnt = []int{n, 1, 2, 3}[g.pick(4)]
	}
	for i := 0; i < cnt; i++ {
		g.sep()
		g.extStmt(g.pick(nExtKinds+1), false)
	}
	g.sep()
	g.first("}")
	g.closeSemi()
}

func (g *G) extStmt(k int, rich bool) {
	switch k {
	case 0:
		g.sField(rich)
	case 1:
		g.sEmpty()
	case 2: // groups are not supported here
		g.sGroup(rich)
	}
}

func (g *G) topStmt(k int, rich bool) {
	switch k {
	case 0:
		g.sImport()
	case 1:
		g.sPackage()
	case 2:
		g.sOption()
	case 3:
		g.sMessage(rich, 0)
	case 4:
		g.sEnum(rich, 0)
	case 5:
		g.sService(rich, 0)
	case 6:
		g.sExtend(rich, 0)
	case 7:
		g.sEmpty()
	}
}

// a context is a kind of body together with its statement kinds
type bodyCtx struct {
	name  string
	open  []string // tokens in front of the body
	close string
	kinds int
	stmt  func(g *G, k int, rich bool)
}

var bodyCtxs = []bodyCtx{
	{"file", nil, "", nTopKinds, func(g *G, k int, r bool) { g.topStmt(k, r) }},
	{"message", []string{"message", "M", "{"}, "}", nMsgKinds, func(g *G, k int, r bool) { g.msgStmt(k, r) }},
	{"enum", []string{"enum", "E", "{"}, "}", nEnumKinds, func(g *G, k int, r bool) { g.enumStmt(k, r) }},
	{"service", []string{"service", "S", "{"}, "}", nSvcKinds, func(g *G, k int, r bool) { g.svcStmt(k, r) }},
	{"extend", []string{"extend", "X", "{"}, "}", nExtKinds, func(g *G, k int, r bool) { g.extStmt(k, r) }},
	{"oneof", []string{"message", "M", "{", "oneof", "o", "{"}, "} }", 3, func(g *G, k int, r bool) {
		switch k {
		case 0:
			g.first("int32")
			g.ident("x")
			g.t("=")
			g.intLit()
			g.fieldOpts(r)
			g.t(";")
		case 1:
			g.sOption()
		case 2:
			g.sEmpty()
		}
	}},
	{"rpc", []string{"service", "S", "{", "rpc", "R", "(", "Q", ")", "returns", "(", "P", ")", "{"}, "} }", 2, func(g *G, k int, r bool) {
		if k == 0 {
			g.sOption()
		} else {
			g.sEmpty()
		}
	}},
	{"group", []string{"message", "M", "{", "optional", "group", "G", "=", "1", "{"}, "} }", nMsgKinds, func(g *G, k int, r bool) { g.msgStmt(k, r) }},
	{"extensions", []string{"message", "M", "{", "extensions", "1", "["}, "] ; }", 1, func(g *G, k int, r bool) { g.declaration(r) }},
}

func (c *bodyCtx) begin(g *G) {
	for i, t := range c.open {
		if i > 0 {
			g.raw(" ")
		}
		g.raw(t)
	}
}

// explore enumerates every document of the template with at most bound
// deviations.  visit is called with the document bytes (valid during the
// call); it returns false to stop.
func explore(tmpl func(*G), setup func(*G), bound int, visit func([]byte) bool) {
	exploreFrom(tmpl, setup, bound, nil, 0, visit)
}

func runTemplate(tmpl func(*G), setup func(*G), pre []int) *G {
	g := &G{pre: pre}
	if setup != nil {
		setup(g)
	}
	tmpl(g)
	if len(g.tr) < len(pre) {
		panic("replay diverged: fewer choice points than the prefix")
	}
	return g
}

func exploreFrom(tmpl func(*G), setup func(*G), bound int, pre []int, used int, visit func([]byte) bool) bool {
	g := runTemplate(tmpl, setup, pre)
	if !visit(g.b) {
		return false
	}
	for i := len(pre); i < len(g.tr); i++ {
		p := g.tr[i]
		cost := used
		if !p.free {
			cost++
		}
		if cost > bound {
			continue
		}
		for alt := 1; alt < p.n; alt++ {
			np := make([]int, i+1)
			for j := 0; j < i; j++ {
				np[j] = g.tr[j].c
			}
			np[i] = alt
			if !exploreFrom(tmpl, setup, bound, np, cost, visit) {
				return false
			}
		}
	}
	return true
}

// firstLevel lists the prefixes with exactly one non-default choice, for
// splitting an exploration into tasks.  The default document itself is the
// task with a nil prefix and bound 0.
type genTask struct {
	pre  []int
	used int
	root bool
}

func firstLevel(tmpl func(*G), setup func(*G), bound int) []genTask {
	g := runTemplate(tmpl, setup, nil)
	out := []genTask{{nil, 0, true}}
	for i := range g.tr {
		p := g.tr[i]
		cost := 0
		if !p.free {
			cost = 1
		}
		if cost > bound {
			continue
		}
		for alt := 1; alt < p.n; alt++ {
			np := make([]int, i+1)
			np[i] = alt
			out = append(out, genTask{np, cost, false})
		}
	}
	return out
}

func (t genTask) run(tmpl func(*G), setup func(*G), bound int, visit func([]byte) bool) {
	if t.root {
		visit(runTemplate(tmpl, setup, nil).b)
		return
	}
	exploreFrom(tmpl, setup, bound, t.pre, t.used, visit)
}
