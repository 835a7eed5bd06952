package main

// C17: a declaration alone and in a file.

import (
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// entry calls the exported function for the kind of n.  ok is false if there
// is none.
func entry(ps *parser.Parser, lx *lexer.Lexer, n interface{}) (res interface{}, err error, ok bool) {
	ok = true
	switch n.(type) {
	case *parser.Syntax:
		res, err = ps.ParseSyntax()
	case *parser.Edition:
		res, err = ps.ParseEdition()
	case *parser.Import:
		res, err = ps.ParseImport()
	case *parser.Package:
		res, err = ps.ParsePackage()
	case *parser.Option:
		res, err = ps.ParseOption()
	case *parser.Message:
		res, err = ps.ParseMessage()
	case *parser.Enum:
		res, err = ps.ParseEnum()
	case *parser.Service:
		res, err = ps.ParseService()
	case *parser.Extend:
		res, err = ps.ParseExtend()
	case *parser.Field:
		res, err = ps.ParseField()
	case *parser.MapField:
		res, err = ps.ParseMapField()
	case *parser.Oneof:
		res, err = ps.ParseOneof()
	case *parser.GroupField:
		res, err = ps.ParseGroupField()
	case *parser.Reserved:
		res, err = ps.ParseReserved()
	case *parser.Extensions:
		res, err = ps.ParseExtensions()
	case *parser.Declaration:
		res, err = ps.ParseDeclaration()
	case *parser.EmptyStatement:
		err = lx.ReadEmptyStatement()
		res = &parser.EmptyStatement{}
	default:
		return nil, nil, false
	}
	if err == nil && isNilNode(res) {
		err = fmt.Errorf("nothing parsed")
	}
	return
}

func newParser(src string, c cfg) (*parser.Parser, *lexer.Lexer) {
	lx := lexer.NewLexer(strings.NewReader(src), lexer.WithDebug(c.debug), lexer.WithFilename(c.filename))
	return parser.NewParser(lx, parser.WithPermissive(c.permissive), parser.WithBodyIncludingComments(c.body)), lx
}

func metaOf(n interface{}) (m meta.Meta, ok bool) {
	f := reflect.ValueOf(n).Elem().FieldByName("Meta")
	if !f.IsValid() {
		return m, false
	}
	m, ok = f.Interface().(meta.Meta)
	return
}

// stripped: a copy without the comments around the element.
func stripped(n interface{}) interface{} {
	v := reflect.New(reflect.TypeOf(n).Elem())
	v.Elem().Set(reflect.ValueOf(n).Elem())
	for _, name := range []string{"Comments", "InlineComment"} {
		if f := v.Elem().FieldByName(name); f.IsValid() {
			f.Set(reflect.Zero(f.Type()))
		}
	}
	return v.Interface()
}

func children(n interface{}) []interface{} {
	var out []interface{}
	_, lists := parts(n)
	for _, l := range lists {
		out = append(out, l...)
	}
	return out
}

type aloneKey struct {
	typ  reflect.Type
	s    string
	perm bool
	body bool
}

const aloneFlags = fAll &^ fFilename

var aloneTails = []string{"", "}", "\nmessage Z{}", " //c\n}", "/*c*/", "\n\n,", " x"}

// alone parses s by the entry point of n's kind, with several things behind.
// It returns the dump of the node, or an error text.
func alone(s string, n interface{}, c cfg) (string, string) {
	first := ""
	for i, tail := range aloneTails {
		ps, lx := newParser(s+tail, c)
		var res interface{}
		var err error
		var next string
		if pe := guard(func() {
			res, err, _ = entry(ps, lx, n)
			if err == nil {
				want := refScan(s+tail, len(s), 0)
				lx.Next()
				if lx.Token != want.kind || lx.Pos.Offset != want.start || lx.Text != want.text {
					next = fmt.Sprintf("the next token is %q at offset %d, not %q at %d", lx.Text, lx.Pos.Offset, want.text, want.start)
				}
			}
		}); pe != nil {
			err = pe
		}
		if err != nil {
			return "", fmt.Sprintf("alone, followed by %q: error %v", tail, err)
		}
		if next != "" {
			return "", fmt.Sprintf("alone, followed by %q: %s", tail, next)
		}
		d := dump(stripped(res), aloneFlags)
		if i == 0 {
			first = d
		} else if d != first {
			a, b := diff(first, d)
			return "", fmt.Sprintf("followed by %q it parses to %s, followed by nothing to %s", tail, b, a)
		}
	}
	return first, ""
}

// inline receives an inline comment.
type inlineSink struct{ c *parser.Comment }

func (s *inlineSink) SetInlineComment(c *parser.Comment) { s.c = c }

func setComments(n interface{}, cs []*parser.Comment) {
	if f := reflect.ValueOf(n).Elem().FieldByName("Comments"); f.IsValid() {
		f.Set(reflect.ValueOf(cs))
	}
}

// consecutive parses the elements ms (kinds from the model) by consecutive
// calls; got are the elements in the file, or nil.
func consecutive(ps *parser.Parser, lx *lexer.Lexer, ms, got []interface{}, from *meta.Position) string {
	var comments []*parser.Comment
	for i, m := range ms {
		comments = append(comments, ps.ParseComments()...)
		res, err, ok := entry(ps, lx, m)
		if !ok {
			return ""
		}
		if err != nil {
			return fmt.Sprintf("element %d (%s) by consecutive calls: error %v", i, label(m), err)
		}
		setComments(res, comments)
		comments = nil
		if x, ok := res.(parser.HasInlineCommentSetter); ok {
			ps.MaybeScanInlineComment(x)
		}
		if got == nil {
			continue
		}
		want := ""
		if from == nil {
			want = dump(got[i], aloneFlags)
		} else {
			want = dumpFrom(got[i], aloneFlags, *from)
		}
		if d := dump(res, aloneFlags); d != want {
			a, b := diff(want, d)
			return fmt.Sprintf("element %d by consecutive calls: %s, in the file: %s", i, b, a)
		}
	}
	ps.ParseComments()
	return ""
}

type aloneCase struct {
	src  string
	c    cfg
	toks []tok
	memo map[aloneKey][2]string
	n    int64
}

// node compares the element g (of the implementation) with its text alone.
func (a *aloneCase) node(m, g interface{}) string {
	if reflect.TypeOf(m) != reflect.TypeOf(g) || isNilNode(g) {
		return ""
	}
	mm, ok := metaOf(m)
	if _, _, has := entryKind(m); ok && has {
		end := mm.LastPos.Offset
		_, sz := utf8.DecodeRuneInString(a.src[end:])
		s := a.src[mm.Pos.Offset : end+sz]
		k := aloneKey{reflect.TypeOf(m), s, a.c.permissive, a.c.body}
		r, seen := a.memo[k]
		if !seen {
			r[0], r[1] = alone(s, m, a.c)
			if len(a.memo) > 200000 {
				a.memo = map[aloneKey][2]string{}
			}
			a.memo[k] = r
			a.n += int64(len(aloneTails))
		}
		if r[1] != "" {
			return fmt.Sprintf("%q %s", s, r[1])
		}
		if d := dumpFrom(stripped(g), aloneFlags, mm.Pos); d != r[0] {
			x, y := diff(d, r[0])
			return fmt.Sprintf("%q in the file: %s, alone: %s", s, x, y)
		}
	}
	return a.list(m, g)
}

func entryKind(n interface{}) (string, bool, bool) {
	switch n.(type) {
	case *parser.EmptyStatement, *parser.EnumField, *parser.OneofField, *parser.RPC, *parser.Comment:
		return "", false, false
	}
	return "", true, true
}

func (a *aloneCase) list(m, g interface{}) string {
	ms, gs := children(m), children(g)
	if len(ms) != len(gs) {
		return ""
	}
	for i := range ms {
		if reflect.TypeOf(ms[i]) != reflect.TypeOf(gs[i]) {
			return ""
		}
	}
	if _, ok := m.(*parser.Message); ok && !a.c.body {
		mm, _ := metaOf(m)
		for k := range a.toks {
			if a.toks[k].pos.Offset != mm.Pos.Offset || k+2 >= len(a.toks) || !a.toks[k+2].is('{') {
				continue
			}
			open := a.toks[k+2].pos
			last := mm.LastPos.Offset
			_, sz := utf8.DecodeRuneInString(a.src[last:])
			var s string
			if pe := guard(func() {
				ps, lx := newParser(a.src[open.Offset:last+sz], a.c)
				lx.Next()
				ps.MaybeScanInlineComment(&inlineSink{})
				if s = consecutive(ps, lx, ms, gs, &open); s == "" {
					if lx.Next(); lx.Text != "}" {
						s = fmt.Sprintf("behind the last element of the body comes %q", lx.Text)
					}
				}
			}); pe != nil {
				s = pe.Error()
			}
			a.n++
			if s != "" {
				return s
			}
			break
		}
	}
	for i := range ms {
		if s := a.node(ms[i], gs[i]); s != "" {
			return s
		}
	}
	return ""
}

// run checks one document; "" if nothing is wrong.
func (a *aloneCase) run(r *ref, reparse bool, p *parser.Proto, err error) string {
	var m *parser.Proto
	var rej int
	if reparse {
		m, rej = r.reparse(a.c.ref())
	} else {
		m, rej = r.parse(a.src, a.c.ref())
	}
	if rej >= 0 || strings.HasPrefix(a.src, "\ufeff") {
		return ""
	}
	a.toks = r.toks
	ms := children(m)
	var gs []interface{}
	if err == nil {
		gs = children(p)
		if len(gs) != len(ms) {
			return ""
		}
		for i := range ms {
			if reflect.TypeOf(ms[i]) != reflect.TypeOf(gs[i]) {
				return ""
			}
		}
	}
	if !a.c.body {
		var s string
		if pe := guard(func() {
			ps, lx := newParser(a.src, a.c)
			s = consecutive(ps, lx, ms, gs, nil)
			if s == "" && !ps.IsEOF() {
				s = "consecutive calls do not reach the end of the file"
			}
		}); pe != nil {
			s = pe.Error()
		}
		a.n++
		if err != nil {
			if s == "" && len(ms) > 0 {
				return "every declaration is parsed by consecutive calls, but not in the file: " + err.Error()
			}
		} else if s != "" {
			return s
		}
	}
	if err != nil {
		return a.whole("the file", ms, err.Error())
	}
	return a.list(m, p)
}

// whole: something is rejected; then one of its elements must be rejected
// alone, too.
func (a *aloneCase) whole(what string, ms []interface{}, why string) string {
	for _, m := range ms {
		mm, ok := metaOf(m)
		_, _, has := entryKind(m)
		if _, empty := m.(*parser.EmptyStatement); empty {
			continue
		}
		if !ok || !has {
			return ""
		}
		_, sz := utf8.DecodeRuneInString(a.src[mm.LastPos.Offset:])
		s := a.src[mm.Pos.Offset : mm.LastPos.Offset+sz]
		a.n++
		if _, bad := alone(s, m, a.c); bad != "" {
			if _, ok := m.(*parser.Message); ok {
				return a.whole(fmt.Sprintf("the body of %q", s), children(m), bad)
			}
			return ""
		}
	}
	if len(ms) == 0 {
		return ""
	}
	return "every declaration is parsed alone, but " + what + " is rejected: " + why
}

func aloneCheck(w *Worker, src string) {
	if w.memo == nil {
		w.memo = map[aloneKey][2]string{}
	}
	for i, c := range []cfg{cfgP, cfgS, cfgPB} {
		p, err, ok := w.parse(src, c)
		if !ok {
			return
		}
		if err == nil {
			w.accepted++
		} else {
			w.rejected++
		}
		a := &aloneCase{src: src, c: c, memo: w.memo}
		w.begin("declarations alone, "+c.String(), src)
		s := a.run(&w.ref, i > 0, p, err)
		w.end()
		w.execs += a.n - 1
		w.memo = a.memo
		w.compared++
		if s != "" {
			c := c
			w.fail(violation{What: "a declaration parses differently alone and in the file", Config: c.String(), Input: src, Got: s,
				again: func() bool {
					p, err := rawParse(src, c)
					a := &aloneCase{src: src, c: c, memo: map[aloneKey][2]string{}}
					return a.run(new(ref), false, p, err) != ""
				}})
			return
		}
	}
}

func init() {
	checks["C17"] = check{"model_checking", "every declaration of every document of the listed spaces (found by the grammar model) is parsed alone by the exported function for its kind, with seven continuations, and compared with its node in the file up to a shift of positions; files and message bodies are parsed again by consecutive calls; states and transitions are those of the grammar automaton walked by the documents", func(r *Run) {
		us := r.docs(docBudgets["C17"])
		r.each(us, aloneCheck)
	}}
}
