package main

// C23: every exported per-construct function accepts exactly its construct.

import (
	"fmt"
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

type entryFn struct {
	name  string
	call  func(ps *parser.Parser) (interface{}, error)
	model func(r *ref) interface{} // starts at the current token
	body  bool                     // the construct has a body
	kw    string                   // the word it starts with, if any
}

func startKw(kw string, f func(r *ref) interface{}) func(r *ref) interface{} {
	return func(r *ref) interface{} {
		if !r.isKw(kw) {
			r.fail()
		}
		return f(r)
	}
}

var entryFns = []entryFn{
	{"ParseSyntax", func(ps *parser.Parser) (interface{}, error) { return ps.ParseSyntax() }, func(r *ref) interface{} {
		if !r.isKw("syntax") {
			return (*parser.Syntax)(nil)
		}
		return r.syntaxStmt()
	}, false, "syntax"},
	{"ParseEdition", func(ps *parser.Parser) (interface{}, error) { return ps.ParseEdition() }, func(r *ref) interface{} {
		if !r.isKw("edition") {
			return (*parser.Edition)(nil)
		}
		return r.editionStmt()
	}, false, "edition"},
	{"ParseImport", func(ps *parser.Parser) (interface{}, error) { return ps.ParseImport() }, startKw("import", func(r *ref) interface{} { return r.importStmt() }), false, "import"},
	{"ParsePackage", func(ps *parser.Parser) (interface{}, error) { return ps.ParsePackage() }, startKw("package", func(r *ref) interface{} { return r.packageStmt() }), false, "package"},
	{"ParseOption", func(ps *parser.Parser) (interface{}, error) { return ps.ParseOption() }, startKw("option", func(r *ref) interface{} { return r.option() }), false, "option"},
	{"ParseMessage", func(ps *parser.Parser) (interface{}, error) { return ps.ParseMessage() }, startKw("message", func(r *ref) interface{} { return r.message() }), true, "message"},
	{"ParseEnum", func(ps *parser.Parser) (interface{}, error) { return ps.ParseEnum() }, startKw("enum", func(r *ref) interface{} { return r.enum() }), true, "enum"},
	{"ParseService", func(ps *parser.Parser) (interface{}, error) { return ps.ParseService() }, startKw("service", func(r *ref) interface{} { return r.service() }), true, "service"},
	{"ParseExtend", func(ps *parser.Parser) (interface{}, error) { return ps.ParseExtend() }, startKw("extend", func(r *ref) interface{} { return r.extend() }), true, "extend"},
	{"ParseField", func(ps *parser.Parser) (interface{}, error) { return ps.ParseField() }, func(r *ref) interface{} { return r.fieldOrGroup(false) }, true, ""},
	{"ParseMapField", func(ps *parser.Parser) (interface{}, error) { return ps.ParseMapField() }, startKw("map", func(r *ref) interface{} { return r.mapField() }), false, "map"},
	{"ParseOneof", func(ps *parser.Parser) (interface{}, error) { return ps.ParseOneof() }, startKw("oneof", func(r *ref) interface{} { return r.oneof() }), true, "oneof"},
	{"ParseGroupField", func(ps *parser.Parser) (interface{}, error) { return ps.ParseGroupField() }, func(r *ref) interface{} {
		i := r.i
		r.enter(ntField)
		if rep, req, opt := r.label(); (rep || req || opt) && r.kind(kEOF) {
			r.fail()
		}
		if !r.groupAhead() {
			r.wantGroup()
		}
		r.leave()
		r.i = i
		return r.fieldOrGroup(true)
	}, true, ""},
	{"ParseReserved", func(ps *parser.Parser) (interface{}, error) { return ps.ParseReserved() }, startKw("reserved", func(r *ref) interface{} { return r.reserved() }), false, "reserved"},
	{"ParseExtensions", func(ps *parser.Parser) (interface{}, error) { return ps.ParseExtensions() }, startKw("extensions", func(r *ref) interface{} { return r.extensions() }), false, "extensions"},
	{"ParseDeclaration", func(ps *parser.Parser) (interface{}, error) { return ps.ParseDeclaration() }, startKw("declaration", func(r *ref) interface{} { return r.declaration() }), false, "declaration"},
}

// wantGroup rejects at the first token which cannot be that of a group.
func (r *ref) wantGroup() {
	if !r.isKw("group") {
		r.fail()
	}
	for _, ok := range []func(t *tok) bool{func(t *tok) bool { return true },
		func(t *tok) bool { return t.kind == kIdent && capital(t.text) },
		func(t *tok) bool { return t.is('=') },
		func(t *tok) bool { return t.kind == kInt },
		func(t *tok) bool { return t.is('{') }} {
		if !ok(r.cur()) {
			r.fail()
		}
		r.take()
	}
	panic("no group")
}

// entryAt calls e on s and on the model; "" if they agree.
func entryAt(r *ref, e *entryFn, s string, c cfg, lex bool) (msg string, accepted bool) {
	if lex {
		r.lexed.run(s, c.filename)
	}
	var m interface{}
	var rej int
	r.try(c.ref(), func() { m = e.model(r) }, &rej)
	end := 0 // of the construct
	if rej < 0 && r.i > 0 {
		end = r.toks[r.i-1].end
	}
	var res interface{}
	var err error
	pe := guard(func() {
		lx := lexer.NewLexer(strings.NewReader(s), lexer.WithDebug(c.debug), lexer.WithFilename(c.filename))
		ps := parser.NewParser(lx, parser.WithPermissive(c.permissive), parser.WithBodyIncludingComments(c.body))
		res, err = e.call(ps)
		if err != nil || rej >= 0 {
			return
		}
		want := refScan(s, end, scanner.ScanLit)
		if want.err {
			return
		}
		lx.NextLit()
		if lx.Token != want.kind || lx.Pos.Offset != want.start || lx.Text != want.text {
			msg = fmt.Sprintf("%s: the next token is %q at offset %d, not %q at %d", e.name, lx.Text, lx.Pos.Offset, want.text, want.start)
		}
	})
	switch {
	case pe != nil:
		return e.name + " panics: " + pe.Error(), false
	case msg != "":
		return msg, true
	case rej < 0 && err != nil:
		return fmt.Sprintf("%s fails on %q: %v", e.name, clip(s[:end], 300), err), true
	case rej < 0 && (isNilNode(m) != isNilNode(res)):
		return fmt.Sprintf("%s: node nil: %v, model: %v", e.name, isNilNode(res), isNilNode(m)), true
	case rej < 0 && !isNilNode(m):
		if a, b := dump(m, fPos|fFilename), dump(res, fPos|fFilename); a != b {
			a, b = diff(a, b)
			return fmt.Sprintf("%s: %s, model: %s", e.name, b, a), true
		}
		return "", true
	case rej < 0:
		return "", false
	case err == nil:
		return fmt.Sprintf("%s succeeds, but %s", e.name, describeRej(r, rej)), false
	case !isNilNode(res):
		return fmt.Sprintf("%s returns both a node and the error %v", e.name, err), false
	}
	me, ok := typedError(err)
	if !ok {
		return fmt.Sprintf("%s: the error does not carry the typed parse error: %v", e.name, err), false
	}
	if lo, hi := r.errRange(rej); me.Pos.Filename != c.filename || me.Pos.Offset < lo || me.Pos.Offset > hi || !newPosTable(s).ok(me.Pos) {
		return fmt.Sprintf("%s: the error is at %s (offset %d), not in [%d,%d]: %v", e.name, me.Pos, me.Pos.Offset, lo, hi, err), false
	}
	return "", false
}

// piecesAt takes the first tokens of s with the exported functions for what is
// between constructs: the comments before each, the one behind it on its line,
// and whether there is another.
func piecesAt(r *ref, s string, c cfg) (msg string) {
	r.i, r.ci = 0, 0
	lx := lexer.NewLexer(strings.NewReader(s), lexer.WithDebug(c.debug), lexer.WithFilename(c.filename))
	ps := parser.NewParser(lx, parser.WithPermissive(c.permissive), parser.WithBodyIncludingComments(c.body))
	for i := 0; i < 3 && i < len(r.toks); i++ {
		r.i = i
		var want []*parser.Comment
		if i > 0 {
			var sink inlineSink
			ps.MaybeScanInlineComment(&sink)
			if m := r.inline(); (m == nil) != (sink.c == nil) || m != nil && *m != *sink.c {
				return fmt.Sprintf("MaybeScanInlineComment behind token %d gives %v, not %v", i-1, sink.c, m)
			}
		}
		for ; r.ci < len(r.cmts) && r.cmts[r.ci].before == i; r.ci++ {
			want = append(want, r.cmts[r.ci].node())
		}
		got := ps.ParseComments()
		if len(got) != len(want) {
			return fmt.Sprintf("ParseComments before token %d gives %d comments, not %d", i, len(got), len(want))
		}
		for k := range got {
			if *got[k] != *want[k] {
				return fmt.Sprintf("ParseComments before token %d gives %v, not %v", i, *got[k], *want[k])
			}
		}
		t := r.toks[i]
		if t.kind == kBad {
			return ""
		}
		if eof := ps.IsEOF(); eof != (t.kind == kEOF) {
			return fmt.Sprintf("IsEOF before token %d is %v", i, eof)
		}
		if t.is('.') {
			lx.Next()
		} else {
			lx.NextLit()
		}
		if lx.Text != t.text || lx.Pos.Position != t.pos && t.kind != kEOF {
			return fmt.Sprintf("token %d is %q at %s, not %q at %s", i, lx.Text, lx.Pos, t.text, t.pos)
		}
	}
	return ""
}

var entryCfgs = []cfg{cfgPF, cfgSF, cfgPB}

// entryCase calls every function at every token of src.
func entryCase(w *Worker, src string) {
	if w.heads == nil || len(w.heads) > 300000 {
		w.heads = map[uint64]struct{}{}
	}
	var own ref
	own.lexed.run(src, "")
	step := 1 + len(own.toks)/150
	for k := 0; k < len(own.toks); k += step {
		if w.stopped() {
			return
		}
		s := src[own.toks[k].pos.Offset:]
		if k > 0 && own.toks[k-1].end < own.toks[k].pos.Offset && k%2 == 0 {
			s = src[own.toks[k-1].end:] // with the blanks and comments before it
		}
		h := hash64(s)
		if _, ok := w.heads[h]; ok {
			continue
		}
		w.heads[h] = struct{}{}
		for _, c := range entryCfgs {
			w.ref.lexed.run(s, c.filename)
			if !c.body {
				var msg string
				w.begin("pieces "+c.String(), s)
				if pe := guard(func() { msg = piecesAt(&w.ref, s, c) }); pe != nil {
					msg = "panic: " + pe.Error()
				}
				w.end()
				w.compared++
				if msg != "" {
					c := c
					w.fail(violation{What: "an entry point does not do what the grammar of its construct says", Config: c.String(), Input: s, Got: msg,
						again: func() bool {
							var r ref
							r.lexed.run(s, c.filename)
							return guard(func() { msg = piecesAt(&r, s, c) }) != nil || msg != ""
						}})
					return
				}
			}
			for i := range entryFns {
				e := &entryFns[i]
				if c.body && !e.body {
					continue
				}
				if e.kw != "" && own.toks[k].text != e.kw { // fails there: once for every two tokens
					h := hash64(fmt.Sprintf("%d %v %q %q", i, c, own.toks[k].text, own.toks[min(k+1, len(own.toks)-1)].text))
					if _, ok := w.heads[h]; ok {
						continue
					}
					w.heads[h] = struct{}{}
				}
				w.begin(e.name+" "+c.String(), s)
				msg, acc := entryAt(&w.ref, e, s, c, false)
				w.end()
				w.compared++
				if acc {
					w.accepted++
				} else {
					w.rejected++
				}
				if msg != "" {
					w.fail(violation{What: "an entry point does not do what the grammar of its construct says", Config: c.String(), Input: s, Got: msg,
						again: func() bool { msg, _ := entryAt(new(ref), e, s, c, true); return msg != "" }})
					return
				}
			}
		}
	}
}

func init() {
	docBudgets["C23"] = budgets{"vocab": 1, "words": 1, "seq": 5, "nest": 3, "pairs": 3, "blocks": 2, "forms": 20, "gaps": 2, "edits1": 2, "comments": 2, "pump": 20, "far": 129, "chars": 2, "tokens": 2, "viable": 3}
	checks["C23"] = check{"model_checking", "every exported per-construct function is called at every token of every document of the listed spaces, valid or not; success, node, place after it and place of the error are compared with the production of the grammar model for that construct; states and transitions are those of the grammar automaton from there", func(r *Run) {
		r.each(r.docs(docBudgets["C23"]), entryCase)
	}}
}
