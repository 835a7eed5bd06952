package main

// Relational checks: two or more executions of the implementation are
// compared with each other (C06, C07, C12).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// cover walks the model over src for the state and transition counts.
func (w *Worker) walk(src string, c cfg) {
	w.ref.parse(src, c.ref())
}

// ---- C06 ---------------------------------------------------------------------

var layouts = []struct{ name, sep string }{
	{"blank", " "},
	{"newline", "\n"},
	{"block comment", "/*c*/"},
	{"line comment", " //c\n"},
	{"CRLF and tab", "\r\n\t"},
	{"wide block comment with newline", "/*é\n*/ "},
	{"comment run", "\n/**//*/*/\t//\n"},
	{"as tight as possible", ""},
}

func relayout(toks []tok, l int, buf *bytes.Buffer) (string, bool) {
	buf.Reset()
	sep := layouts[l].sep
	if sep != "" {
		for _, t := range toks {
			if t.kind == kEOF {
				break
			}
			if l > 0 {
				buf.WriteString(sep)
			}
			buf.WriteString(t.text)
			if l == 0 {
				buf.WriteString(sep)
			}
		}
		if l > 0 {
			buf.WriteString(sep)
		}
		return buf.String(), true
	}
	for i, t := range toks {
		if t.kind == kEOF {
			break
		}
		if i > 0 {
			a, b := toks[i-1].text, t.text
			la, fb := rune(a[len(a)-1]), rune(b[0])
			word := func(r rune) bool { return rIdentStart(r) || rDigit(r) || r == '.' || r == '+' || r == '-' || r == '/' }
			if word(la) && word(fb) {
				buf.WriteByte(' ')
			}
		}
		buf.WriteString(t.text)
	}
	s := buf.String()
	var lx lexed
	lx.run(s, "")
	if len(lx.toks) != len(toks) {
		return "", false
	}
	for i := range toks {
		if toks[i].kind != lx.toks[i].kind || toks[i].text != lx.toks[i].text {
			return "", false
		}
	}
	return s, true
}

type shape struct {
	ok bool
	d  string
}

func shapeOf(p *parser.Proto, err error) shape {
	if err != nil || p == nil {
		return shape{}
	}
	return shape{true, dump(p, fConst)}
}

func sameMeaning(a, b string, c cfg) bool {
	p, e := rawParse(a, c)
	q, f := rawParse(b, c)
	_, x := e.(*panicErr)
	_, y := f.(*panicErr)
	return !x && !y && shapeOf(p, e) == shapeOf(q, f)
}

func layoutCase(w *Worker, src string) {
	w.walk(src, cfgP)
	toks := w.ref.toks
	if len(toks) > 1 && toks[len(toks)-2].kind == kBad {
		return
	}
	for _, t := range toks {
		// a line break inside a token would change what the token is
		if t.kind == kPunct && len(t.text) > 1 {
			return
		}
	}
	var buf bytes.Buffer
	canon, _ := relayout(toks, 0, &buf)
	full := len(w.ref.cmts) == 0
	toks = append([]tok(nil), toks...)
	for _, c := range []cfg{cfgP, cfgS} {
		p, err, ok := w.parse(canon, c)
		if !ok {
			return
		}
		base := shapeOf(p, err)
		cmp := func(other, how string) bool {
			q, err2, ok := w.parse(other, c)
			if !ok {
				return false
			}
			w.compared++
			got := shapeOf(q, err2)
			if got == base {
				return true
			}
			wt, gt := "accepted", "accepted"
			if !base.ok {
				wt = errStr(err)
			}
			if !got.ok {
				gt = errStr(err2)
			}
			if base.ok && got.ok {
				wt, gt = diff(base.d, got.d)
			}
			w.fail(violation{What: "layout changes the meaning (" + how + ")", Config: c.String(), Input: other,
				Want: fmt.Sprintf("as for %q: %s", clip(canon, 300), wt), Got: gt,
				again: func() bool { return !sameMeaning(canon, other, c) }})
			return false
		}
		if src != canon && !cmp(src, "the given layout against single blanks") {
			return
		}
		if full {
			for l := 1; l < len(layouts); l++ {
				if !base.ok && !w.run.thorough() && l != 1 && l != 3 && l != 7 {
					continue
				}
				if s, ok := relayout(toks, l, &buf); ok && s != canon {
					if !cmp(s, layouts[l].name+" between all tokens against single blanks") {
						return
					}
				}
			}
		}
	}
}

// gapEdits: every single gap of every token edit, all trivia texts.
func gapEditUni(alpha []string, trivia []string) uni {
	all := editDocs()
	return uni{"edit-and-gap", fmt.Sprintf("every single-token edit (%d tokens) of %d documents x every gap x %d trivia texts", len(alpha), len(all), len(trivia)), len(all), func(w *Worker, task int, visit visitFn) {
		edits(all[task], alpha, 0, len(all[task])+1, func(t []string, at int) {
			for i := 0; i <= len(t); i++ {
				if i < at-3 || i > at+3 {
					continue
				}
				for _, tr := range trivia {
					if w.stopped() {
						return
					}
					a, b := joinToks(t[:i]), joinToks(t[i:])
					visit(a + tr + b)
				}
			}
		})
	}}
}

func init() {
	checks["C06"] = check{"model_checking", "every input of the listed spaces is parsed in its own layout, with single blanks between its tokens and (if it has no comments) in seven uniform layouts; acceptance and the tree without positions and comments must agree; states and transitions are those of the grammar automaton walked by the token sequences", func(r *Run) {
		us := r.docs(docBudgets["C06"])
		if r.thorough() {
			us = append(us, gapEditUni(editToks2, []string{"\n", "/*c*/", " //c\n", "\u00a0", "/*\n*/"}))
		} else {
			us = append(us, gapEditUni([]string{";", "}", "a"}, []string{"/*c*/", " //c\n"}))
		}
		r.each(us, layoutCase)
	}}
}

// ---- C07 ---------------------------------------------------------------------

var allOptCfgs = func() []cfg {
	var out []cfg
	for i := 0; i < 16; i++ {
		c := cfg{permissive: i&1 == 0, body: i&2 != 0, debug: i&4 != 0}
		if i&8 != 0 {
			c.filename = "f.proto"
		}
		out = append(out, c)
	}
	return out
}()

func totalCase(cs []cfg) func(w *Worker, src string) {
	return func(w *Worker, src string) {
		w.walk(src, cfgP)
		for _, c := range cs {
			p, err, ok := w.parse(src, c)
			if !ok {
				return
			}
			if err == nil {
				w.accepted++
			} else {
				w.rejected++
			}
			w.compared++
			if v := oTotal(p, err); v != nil {
				c := c
				v.Config, v.Input = c.String(), src
				v.again = func() bool {
					p, err := rawParse(src, c)
					_, pe := err.(*panicErr)
					return pe || oTotal(p, err) != nil
				}
				w.fail(*v)
				return
			}
		}
	}
}

var rawBytes = []string{"\x80", "\xff", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\x00", "\ufffd", "\n", "\"", "/", "*", ";", "}", "a", "1", "\\"}

func (r *Run) byteUnis(b budgets) []uni {
	var us []uni
	for _, x := range [][3]string{
		{"bytes-file", "", ""},
		{"bytes-message", "message M{", "}"},
		{"bytes-field", "message M{int32 ", "=1;}"},
		{"bytes-string", `option a="`, `";`},
		{"bytes-comment", "//", "\nmessage M{}"},
		{"bytes-block-comment", "/*", "*/message M{}//\n"},
		{"bytes-constant", "option a=", ";"},
	} {
		x := x
		us = append(us, r.fit("bytes", b, 2, 12, func(k int) uni { return chars(x[0], x[1], x[2], rawBytes, k) })...)
	}
	return us
}

func deepUni(depths []int) uni {
	var n = len(nestPumps) * len(depths)
	return uni{"deep-nesting", fmt.Sprintf("%d nesting patterns at depths %v", len(nestPumps), depths), n, func(w *Worker, task int, visit visitFn) {
		p, d := nestPumps[task%len(nestPumps)], depths[task/len(nestPumps)]
		visit(p.pre + strings.Repeat(p.open, d) + p.mid + strings.Repeat(p.close, d) + p.post)
		visit(p.pre + strings.Repeat(p.open, d))
	}}
}

func init() {
	checks["C07"] = check{"model_checking", "every input of the listed spaces (including byte strings that are not UTF-8) is parsed under option combinations (all 16 on the short spaces); each execution must end, without panic, in exactly one of tree and error; the tree is checked for nil and foreign elements, visited, interpreted and encoded; states and transitions are those of the grammar automaton walked by the inputs", func(r *Run) {
		b := docBudgets["C07"]
		r.each(r.byteUnis(b), totalCase([]cfg{cfgP, cfgSB}))
		r.each([]uni{filesUni(), seqUni(1), blocksUni(1), pairsUni(0)}, totalCase(allOptCfgs))
		us := r.docs(b)
		if r.thorough() {
			us = append(us, deepUni([]int{1000, 3000, 10000}))
		} else {
			us = append(us, deepUni([]int{1000, 3000}))
		}
		r.each(us, totalCase([]cfg{cfgPB, cfgS}))
		r.stackUni()
	}}
}

// stackUni: nesting far deeper than anything else, each input in a process of
// its own, because running out of stack cannot be recovered from.
func (r *Run) stackUni() {
	type st struct {
		pre, open string
		nested    bool
	}
	all := []st{{"option a = ", "[", true}, {"message M{int32", " ", false}, {"message M{int32", "/**/", false}, {"message M{int32 a = 1", "\n", false}, {"", "//\n", false},
		{"option a = ", "{b:", true}, {"", "message M{", true}, {"message M{", "group G=1{", true}, {"", ";", false}, {"enum E{", "A=1;", false}, {"service S{", "rpc R(A)returns(B);", false}, {"option a = ", "'s'", false}, {"option a = a", ".b", false}, {"message M{reserved 1", ",2", false}, {"option a = [1", ",2", false}}
	if !r.thorough() {
		all = all[:4]
	}
	const depth = 1600000
	r.Space("stack", fmt.Sprintf("%d constructs nested or in a row %d times, in processes of their own", len(all), depth), len(all), func(w *Worker, task int) {
		x := all[task]
		dir, err := os.MkdirTemp("", "mc-stack-")
		if err != nil {
			return
		}
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "one.json")
		run := func() string {
			cmd := exec.Command("/proc/self/exe", "deep", f)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			var eb bytes.Buffer
			cmd.Stderr = &eb
			if cmd.Start() != nil {
				return ""
			}
			t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
			defer t.Stop()
			if cmd.Wait() != nil && strings.Contains(eb.String(), "stack overflow") {
				return "the process dies: " + firstLine(eb.String())
			}
			return ""
		}
		j, _ := json.Marshal(map[string]interface{}{"pre": x.pre, "open": x.open, "n": depth})
		os.WriteFile(f, j, 0o600)
		w.cases++
		w.execs++
		w.compared++
		if s := run(); s != "" {
			if k := knownFinding("stack-depth"); k != nil && x.nested {
				k.seen()
				return
			}
			w.fail(violation{What: "Parse does not return", Input: fmt.Sprintf("%s, then %q %d times", x.pre, x.open, depth), Got: s, again: func() bool { return run() != "" }})
		}
	})
}

// deepInput parses a deeply nested input.
func deepInput(file string) {
	var m struct {
		Pre, Open string
		N         int
	}
	b, _ := os.ReadFile(file)
	if json.Unmarshal(b, &m) == nil {
		guard(func() { rawParse(m.Pre+strings.Repeat(m.Open, m.N), cfgP) })
	}
	os.Exit(0)
}

// ---- C12 ---------------------------------------------------------------------

// dropAbsorbed returns a shallow copy of the tree without the empty statement
// that directly follows a block.
func dropAbsorbed(p *parser.Proto) *parser.Proto {
	block := func(n interface{}) bool {
		switch n.(type) {
		case *parser.Message, *parser.Enum, *parser.Service, *parser.Extend, *parser.Oneof, *parser.GroupField:
			return true
		}
		return false
	}
	var body func(bs []parser.Visitee, rpc []bool) []parser.Visitee
	body = func(bs []parser.Visitee, rpc []bool) []parser.Visitee {
		var out []parser.Visitee
		was := false
		for i, b := range bs {
			if _, ok := b.(*parser.EmptyStatement); ok && was {
				was = false
				continue
			}
			was = block(b) || (rpc != nil && rpc[i])
			switch t := b.(type) {
			case *parser.Message:
				c := *t
				c.MessageBody = body(t.MessageBody, nil)
				out = append(out, &c)
			case *parser.GroupField:
				c := *t
				c.MessageBody = body(t.MessageBody, nil)
				out = append(out, &c)
			case *parser.Extend:
				c := *t
				c.ExtendBody = body(t.ExtendBody, nil)
				out = append(out, &c)
			case *parser.Enum:
				c := *t
				c.EnumBody = body(t.EnumBody, nil)
				out = append(out, &c)
			case *parser.Service:
				c := *t
				out = append(out, &c)
			default:
				out = append(out, b)
			}
		}
		return out
	}
	c := *p
	c.ProtoBody = body(p.ProtoBody, nil)
	return &c
}

// absorbable: some '}' is followed by ';' in the token sequence.
func absorbable(toks []tok) bool {
	for i := 0; i+1 < len(toks); i++ {
		if toks[i].is('}') && toks[i+1].is(';') {
			return true
		}
	}
	return false
}

// serviceSemis: a '}' followed by ';' where an rpc block may end; there the
// tree does not tell an rpc with a block from one without.
func hasService(p *parser.Proto) bool {
	for _, b := range p.ProtoBody {
		if _, ok := b.(*parser.Service); ok {
			return true
		}
	}
	return false
}

func errKey(err error, filename bool) string {
	if err == nil {
		return "ok"
	}
	me, ok := typedError(err)
	if !ok {
		return "untyped " + err.Error()
	}
	k := fmt.Sprintf("%d:%d:%d", me.Pos.Offset, me.Pos.Line, me.Pos.Column)
	if filename {
		k += fmt.Sprintf(" in %q, expected %q, found %q", me.Pos.Filename, me.Expected, me.Found)
	}
	return k
}

type res struct {
	p   *parser.Proto
	err error
}

func (x res) key(f dflags) string {
	if x.err != nil {
		return errKey(x.err, f&fFilename != 0)
	}
	return dump(x.p, f)
}

func metaFilename(p *parser.Proto) string {
	if p.Meta == nil {
		return "\x00nil"
	}
	return p.Meta.Filename
}

// filenames: what a file may be called, and what a program may take for special.
var filenames = func() []string {
	fs := []string{"-", "--", ".", "..", "/", "//", "./", "../", "./a.proto", "../a.proto", "a/../b.proto", "/a.proto", "a.proto", "A.PROTO", "a", "a b", " a", "a ", "a/", ".proto", "a.proto.", "C:\\a\\b.proto", "a\\b", "file:///a.proto", "https://a.b/c.proto",
		"<input>", "<stdin>", "stdin", "/dev/stdin", "(stdin)", "nil", "null", "<nil>", "0", "1", "true", "%s", "%d%d", "%%", "%", "$a", "~/a", "*", "?", "a*", "é", "e\u0301", "世界.proto", "😀", "\ufeff", "\ufeffa", "\u2028", "\u00a0", "\n", "a\nb", "\r", "\t", "\x00", "a\x00b", "\x7f", "\xff", "a\xc3", "\xed\xa0\x80", "a:1", "a:1:2", ":", "::", "'a'", "\"a\"", "`", "[a]", "{a}", "a,b", "a;b", "a=b", "a&b", "#a", "@a",
		"google/protobuf/descriptor.proto", "google/protobuf/any.proto", "vendor/a.proto", "node_modules/a.proto", "testdata/a.proto", strings.Repeat("a", 255), strings.Repeat("a/", 3000) + "a.proto", strings.Repeat("é", 200)}
	for _, a := range split("a./-~ :%\\é\n\x00") {
		for _, b := range split("a./-~ :%\\é\n\x00") {
			fs = append(fs, a+b)
		}
	}
	return fs
}()

// filenameDocs: one with everything, and some which are rejected.
var filenameDocs = []string{bigDoc, "", "// c", "message M {", "option a = ;", "option a = 0x;", "message M { int32 a = b; }", "syntax = 'proto3", "/*", "message M { reserved 1, 'a'; }"}

func filenamesUni() uni {
	u := listUni("filenames", filenames)
	u.bound = fmt.Sprintf("%d filenames (words, paths, special and invalid characters, every pair of 12 characters) with %d documents, valid and not", len(filenames), len(filenameDocs))
	return u
}

const optName = "../d/./É  %s:.PROTO/ "

// optionsCase checks the relations between the option settings on src.
func optionsCase(w *Worker, src string) { optionsNamed(w, src, optName) }

func optionsNamed(w *Worker, src, name string) {
	if v := optionRelations(src, name, func(c cfg) (*parser.Proto, error, bool) { return w.parse(src, c) }, &w.compared, func() bool {
		w.walk(src, cfgS)
		return absorbable(w.ref.toks)
	}); v != nil {
		v.Input = src
		v.again = func() bool {
			var n int64
			return optionRelations(src, name, func(c cfg) (*parser.Proto, error, bool) {
				p, err := rawParse(src, c)
				_, pe := err.(*panicErr)
				return p, err, !pe
			}, &n, func() bool { var r ref; r.parse(src, cfgS.ref()); return absorbable(r.toks) }) != nil
		}
		w.fail(*v)
	}
}

func optionRelations(src, name string, parse func(c cfg) (*parser.Proto, error, bool), n *int64, absorb func() bool) *violation {
	const all = fAll &^ fFilename
	type key struct{ p, b, f bool }
	rs := map[key]res{}
	get := func(c cfg) (res, bool) {
		p, err, ok := parse(c)
		return res{p, err}, ok
	}
	mk := func(k key) cfg {
		c := cfg{permissive: k.p, body: k.b}
		if k.f {
			c.filename = name
		}
		return c
	}
	for i := 0; i < 8; i++ {
		k := key{i&1 == 0, i&2 != 0, i&4 != 0}
		x, ok := get(mk(k))
		if !ok {
			return nil
		}
		rs[k] = x
	}
	ab := absorb()
	bad := func(what string, c cfg, a, b string) *violation {
		a, b = diff(a, b)
		return &violation{What: what, Config: c.String(), Want: a, Got: b}
	}
	for i := 0; i < 8; i++ {
		k := key{i&1 == 0, i&2 != 0, i&4 != 0}
		x := rs[k]
		*n++
		// debug
		c := mk(k)
		c.debug = true
		d, ok := get(c)
		if !ok {
			return nil
		}
		if a, b := x.key(fAll), d.key(fAll); a != b {
			return bad("debug mode changes the result", c, a, b)
		}
		// filename
		if k.f {
			y := rs[key{k.p, k.b, false}]
			if a, b := y.key(all), x.key(all); a != b {
				return bad("the filename changes more than the filename", mk(k), a, b)
			}
			if x.err == nil {
				if g := metaFilename(x.p); g != name {
					return bad("the file's metadata lacks the filename", mk(k), name, g)
				}
				wrong, where := "", ""
				metas(x.p, func(m meta.Meta, c *parser.Comment) {
					if m.Pos.Filename != name {
						wrong, where = m.Pos.Filename, "start position"
					}
					if m.LastPos.Filename != name {
						wrong, where = m.LastPos.Filename, "last position"
					}
				})
				if where != "" {
					return bad("a "+where+" lacks the filename", mk(k), name, wrong)
				}
				if g := metaFilename(y.p); g != "" {
					return bad("a filename without the option", mk(key{k.p, k.b, false}), "", g)
				}
			} else if me, ok := typedError(x.err); ok && me.Pos.Filename != name {
				return bad("the error lacks the filename", mk(k), name, me.Pos.Filename)
			}
		}
		// body comments
		if k.b {
			y := rs[key{k.p, false, k.f}]
			if a, b := y.key(fAll), x.key(fAll|fNoBodyCmt); a != b {
				return bad("body comments change more than comment elements", mk(k), a, b)
			}
		}
		// strict against permissive
		if !k.p && x.err == nil {
			y := rs[key{true, k.b, k.f}]
			if y.err != nil {
				return bad("accepted in strict mode, rejected in permissive mode", mk(key{true, k.b, k.f}), "accepted", y.err.Error())
			}
			if !ab {
				if a, b := x.key(fAll), y.key(fAll); a != b {
					return bad("permissive mode changes the tree of a strict input", mk(key{true, k.b, k.f}), a, b)
				}
			} else if !k.b && !hasService(x.p) {
				if a, b := dump(dropAbsorbed(x.p), fConst|fStart), y.key(fConst|fStart); a != b {
					return bad("permissive mode changes more than absorbing a semicolon behind a closing brace", mk(key{true, k.b, k.f}), a, b)
				}
			} else if !k.b {
				// an rpc's block is not visible in the tree; the empty
				// statements of services are left out of the comparison
				if a, b := dump(dropAbsorbed(x.p), fConst|fStart|fNoSvcEmpty), y.key(fConst|fStart|fNoSvcEmpty); a != b {
					return bad("permissive mode changes more than absorbing a semicolon behind a closing brace", mk(key{true, k.b, k.f}), a, b)
				}
			}
		}
	}
	return nil
}

// orderCase checks that the order, repetition and omission of options is
// irrelevant.
func orderCase(w *Worker, src string) {
	type opt struct {
		o protoparser.Option
		s string
	}
	try := func(os []opt) (res, bool) {
		var po []protoparser.Option
		desc := ""
		for _, o := range os {
			po = append(po, o.o)
			desc += o.s + " "
		}
		var x res
		w.begin(desc, src)
		pe := guard(func() { x.p, x.err = protoparser.Parse(strings.NewReader(src), po...) })
		w.end()
		if pe != nil {
			w.fail(violation{What: "Parse panics", Config: desc, Input: src, Got: pe.Error()})
			return x, false
		}
		return x, true
	}
	for m := 0; m < 16; m++ {
		c := cfg{permissive: m&1 == 0, body: m&2 != 0, debug: m&4 != 0}
		if m&8 != 0 {
			c.filename = optName
		}
		os := []opt{
			{protoparser.WithPermissive(c.permissive), fmt.Sprint("permissive=", c.permissive)},
			{protoparser.WithBodyIncludingComments(c.body), fmt.Sprint("body=", c.body)},
			{protoparser.WithDebug(c.debug), fmt.Sprint("debug=", c.debug)},
			{protoparser.WithFilename(c.filename), fmt.Sprint("filename=", c.filename)},
		}
		var base string
		first := true
		var perm func(cur []opt, rest []opt)
		check := func(cur []opt) {
			x, ok := try(cur)
			if !ok {
				return
			}
			w.compared++
			k := x.key(fAll)
			if first {
				base, first = k, false
				return
			}
			if k != base {
				a, b := diff(base, k)
				d := ""
				for _, o := range cur {
					d += o.s + " "
				}
				w.fail(violation{What: "the order or omission of options changes the result", Config: d, Input: src, Want: a, Got: b})
			}
		}
		perm = func(cur []opt, rest []opt) {
			if len(rest) == 0 {
				check(cur)
				return
			}
			for i := range rest {
				nr := append(append([]opt{}, rest[:i]...), rest[i+1:]...)
				perm(append(cur[:len(cur):len(cur)], rest[i]), nr)
			}
		}
		perm(nil, os)
		// every option with its default value may be left out
		def := []bool{c.permissive, !c.body, !c.debug, c.filename == ""}
		for s := 0; s < 16; s++ {
			var cur []opt
			ok := true
			for i := range os {
				if s&(1<<i) != 0 {
					ok = ok && def[i]
				} else {
					cur = append(cur, os[i])
				}
			}
			if ok {
				check(cur)
			}
		}
	}
}

func init() {
	checks["C12"] = check{"model_checking", "every input of the listed spaces is parsed under all 16 option settings and the documented relations between the results are checked; on the files, all 24 orders and all omissions of default values are run too; states and transitions are those of the grammar automaton walked by the inputs", func(r *Run) {
		r.each([]uni{listUni("option-orders", append([]string{bigDoc, "message M {", "option a = {b:1};", `option a = "x" "y";`, ""}, validDocs...))}, orderCase)
		r.each([]uni{filenamesUni()}, func(w *Worker, name string) {
			for _, src := range filenameDocs {
				optionsNamed(w, src, name)
			}
		})
		r.each(r.docs(docBudgets["C12"]), optionsCase)
	}}
}
