package main

// The checks that compare every parse with the reference model.

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// an oracle judges one execution; nil means the property held.
type oracle func(x *xc) *violation

type xc struct {
	src string
	c   cfg
	rf  *ref // tokens and comments of the model
	p   *parser.Proto
	err error
	m   *parser.Proto // the model's tree, nil if it rejects
	rej int
}

// judge runs the implementation and the model on one input and asks the
// oracle.  lexed must be true if w.ref already holds the tokens of src.
func (w *Worker) judge(src string, cs []cfg, o oracle) {
	for i, c := range cs {
		p, err, ok := w.parse(src, c)
		if !ok {
			return
		}
		var m *parser.Proto
		var rej int
		if i == 0 {
			m, rej = w.ref.parse(src, c.ref())
		} else {
			m, rej = w.ref.reparse(c.ref())
		}
		if err == nil {
			w.accepted++
		} else {
			w.rejected++
		}
		w.compared++
		x := &xc{src, c, &w.ref, p, err, m, rej}
		if v := o(x); v != nil {
			v.Config, v.Input = c.String(), src
			if v.again == nil {
				v.again = func() bool { return rejudge(src, c, o) }
			}
			w.fail(*v)
			return
		}
	}
}

func rejudge(src string, c cfg, o oracle) bool {
	p, err := rawParse(src, c)
	if _, ok := err.(*panicErr); ok {
		return true
	}
	var rf ref
	m, rej := rf.parse(src, c.ref())
	return o(&xc{src, c, &rf, p, err, m, rej}) != nil
}

var (
	cfgP  = cfg{permissive: true}
	cfgS  = cfg{}
	cfgPB = cfg{permissive: true, body: true}
	cfgSB = cfg{body: true}
	cfgPF = cfg{permissive: true, filename: "./Dir//f .proto"}
	cfgSF = cfg{filename: `C:\d\%v.proto`}
)

func errStr(err error) string {
	if err == nil {
		return "accepted"
	}
	return "rejected: " + err.Error()
}

func describeRej(rf *ref, rej int) string {
	if rej < 0 {
		return "accepted"
	}
	t := &rf.toks[rej]
	k := ""
	switch t.kind {
	case kEOF:
		k = " (end of input)"
	case kBad:
		k = " (malformed token)"
	}
	return fmt.Sprintf("rejected at offset %d, token %q%s", t.pos.Offset, t.text, k)
}

func diff(want, got string) (string, string) {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	j := i
	for j > 0 && want[j-1] != '\n' {
		j--
	}
	return clip(want[j:], 700), clip(got[j:], 700)
}

// ---- C01 ---------------------------------------------------------------------

func oAccept(x *xc) *violation {
	if (x.err == nil) == (x.rej < 0) {
		return nil
	}
	what := "a malformed input is accepted"
	if x.err != nil {
		what = "a valid input is rejected"
	}
	return &violation{What: what, Want: describeRej(x.rf, x.rej), Got: errStr(x.err)}
}

// ---- C02 ---------------------------------------------------------------------

func constsDiffer(m, p *parser.Proto) (string, string, bool) {
	cm, cp := constants(m, nil), constants(p, nil)
	if len(cm) != len(cp) {
		return fmt.Sprint(len(cm), " constants"), fmt.Sprint(len(cp), " constants"), true
	}
	for i := range cm {
		if !constEq(cm[i], cp[i]) {
			return fmt.Sprintf("%q", cm[i]), fmt.Sprintf("%q", cp[i]), true
		}
	}
	return "", "", false
}

func oTree(x *xc) *violation {
	if x.err != nil || x.rej >= 0 || x.p == nil {
		return nil
	}
	a, b := dump(x.m, fStruct), dump(x.p, fStruct)
	if a != b {
		a, b = diff(a, b)
		return &violation{What: "the tree differs from what is written", Want: a, Got: b}
	}
	if a, b, bad := constsDiffer(x.m, x.p); bad {
		return &violation{What: "an option constant differs from what is written", Want: a, Got: b}
	}
	return nil
}

// ---- C03 ---------------------------------------------------------------------

// literals of the tree: constants, import locations, reserved names,
// declaration texts
func literals(p *parser.Proto, out []string) []string {
	var rec func(n interface{})
	bd := func(bs []parser.Visitee) {
		for _, b := range bs {
			rec(b)
		}
	}
	rec = func(n interface{}) {
		if isNilNode(n) {
			return
		}
		switch t := n.(type) {
		case *parser.Proto:
			bd(t.ProtoBody)
		case *parser.Message:
			bd(t.MessageBody)
		case *parser.GroupField:
			bd(t.MessageBody)
		case *parser.Extend:
			bd(t.ExtendBody)
		case *parser.Enum:
			bd(t.EnumBody)
		case *parser.Service:
			bd(t.ServiceBody)
		case *parser.Import:
			out = append(out, t.Location)
		case *parser.Reserved:
			out = append(out, t.FieldNames...)
		case *parser.Extensions:
			for _, d := range t.Declarations {
				if d != nil {
					out = append(out, d.Number, d.FullName, d.Type, fmt.Sprint(d.Repeated, d.Reserved))
				}
			}
		}
	}
	rec(p)
	return out
}

func oConst(x *xc) *violation {
	if x.err != nil || x.rej >= 0 || x.p == nil {
		return nil
	}
	if a, b, bad := constsDiffer(x.m, x.p); bad {
		return &violation{What: "a constant does not keep its value", Want: a, Got: b}
	}
	a, b := strings.Join(literals(x.m, nil), "\n"), strings.Join(literals(x.p, nil), "\n")
	if a != b {
		return &violation{What: "a literal does not keep its value", Want: a, Got: b}
	}
	return nil
}

// ---- C04 ---------------------------------------------------------------------

// posOf gives the line and column of every offset of src where a character
// starts; the column of a byte inside a character is 0.
type posTable struct {
	src       string
	line, col []int
}

func newPosTable(src string) *posTable {
	t := &posTable{src: src, line: make([]int, len(src)+1), col: make([]int, len(src)+1)}
	l, c := 1, 1
	for i := 0; i < len(src); {
		_, sz := utf8.DecodeRuneInString(src[i:])
		t.line[i], t.col[i] = l, c
		if src[i] == '\n' {
			l++
			c = 1
		} else {
			c++
		}
		i += sz
	}
	t.line[len(src)], t.col[len(src)] = l, c
	return t
}

func (t *posTable) ok(p meta.Position) bool {
	return p.Offset >= 0 && p.Offset <= len(t.src) && t.col[p.Offset] != 0 && t.line[p.Offset] == p.Line && t.col[p.Offset] == p.Column
}

// metas lists every Meta in the tree with the comment it belongs to, if any.
func metas(n interface{}, f func(m meta.Meta, c *parser.Comment)) {
	if isNilNode(n) {
		return
	}
	cm := func(cs ...*parser.Comment) {
		for _, c := range cs {
			if c != nil {
				f(c.Meta, c)
			}
		}
	}
	bd := func(bs []parser.Visitee) {
		for _, b := range bs {
			metas(b, f)
		}
	}
	op := func(os []*parser.Option) {
		for _, o := range os {
			metas(o, f)
		}
	}
	switch t := n.(type) {
	case *parser.Proto:
		if t.Syntax != nil {
			metas(t.Syntax, f)
		}
		if t.Edition != nil {
			metas(t.Edition, f)
		}
		bd(t.ProtoBody)
	case *parser.Syntax:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.Edition:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.Import:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.Package:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.Option:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.EmptyStatement:
		cm(t.InlineComment)
	case *parser.Comment:
		cm(t)
	case *parser.Message:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.MessageBody)
	case *parser.GroupField:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.MessageBody)
	case *parser.Field:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.MapField:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.Oneof:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment, t.InlineCommentBehindLeftCurly)
		for _, x := range t.OneofFields {
			metas(x, f)
		}
		op(t.Options)
	case *parser.OneofField:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.Reserved:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.Extensions:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment, t.InlineCommentBehindLeftSquare)
		for _, x := range t.Declarations {
			metas(x, f)
		}
	case *parser.Declaration:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment, t.InlineCommentBehindLeftCurly)
	case *parser.Extend:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.ExtendBody)
	case *parser.Enum:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.EnumBody)
	case *parser.EnumField:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment)
	case *parser.Service:
		f(t.Meta, nil)
		cm(t.Comments...)
		cm(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.ServiceBody)
	case *parser.RPC:
		f(t.Meta, nil)
		if t.RPCRequest != nil {
			f(t.RPCRequest.Meta, nil)
		}
		if t.RPCResponse != nil {
			f(t.RPCResponse.Meta, nil)
		}
		cm(t.Comments...)
		cm(t.EmbeddedComments...)
		cm(t.InlineComment, t.InlineCommentBehindLeftCurly)
		op(t.Options)
	}
}

func oPos(x *xc) *violation {
	if x.err != nil || x.p == nil {
		return nil
	}
	pt := newPosTable(x.src)
	var v *violation
	metas(x.p, func(m meta.Meta, c *parser.Comment) {
		if v != nil {
			return
		}
		for i, p := range []meta.Position{m.Pos, m.LastPos} {
			which := []string{"start", "last"}[i]
			if p.Filename != x.c.filename {
				v = &violation{What: which + " position lacks the configured filename", Want: x.c.filename, Got: p.Filename}
			} else if !pt.ok(p) {
				v = &violation{What: which + " position: offset, line and column disagree with the input", Got: fmt.Sprintf("offset %d line %d column %d", p.Offset, p.Line, p.Column)}
			}
		}
		if v == nil && c != nil {
			if !strings.HasPrefix(x.src[m.Pos.Offset:], c.Raw) {
				v = &violation{What: "a comment's start position does not point at its text", Want: clip(x.src[m.Pos.Offset:], 60), Got: c.Raw}
			} else if e := m.Pos.Offset + len(c.Raw); e > len(x.src) || m.LastPos.Offset >= e || lastRune(x.src[:e]) != m.LastPos.Offset {
				v = &violation{What: "a comment's last position is not that of its last character", Want: fmt.Sprint(lastRune(x.src[:e])), Got: fmt.Sprint(m.LastPos.Offset)}
			}
		}
	})
	if v != nil || x.rej >= 0 {
		return v
	}
	if dump(x.m, fStruct) != dump(x.p, fStruct) {
		return nil // C02
	}
	a, b := dump(x.m, fPos), dump(x.p, fPos)
	if a != b {
		a, b = diff(a, b)
		return &violation{What: "a position is not that of the construct's first or last character", Want: a, Got: b}
	}
	return nil
}

func lastRune(s string) int {
	_, sz := utf8.DecodeLastRuneInString(s)
	return len(s) - sz
}

// ---- C05 ---------------------------------------------------------------------

func oComments(x *xc) *violation {
	if x.err != nil || x.rej >= 0 || x.p == nil {
		return nil
	}
	if dump(x.m, fStruct) != dump(x.p, fStruct) {
		return nil // C02
	}
	a, b := dump(x.m, fCmt), dump(x.p, fCmt)
	if a != b {
		if f := knownFinding("rpc-option-comments"); f != nil {
			rc := x.c.ref()
			rc.dropRPC = true
			if m, _ := x.rf.reparse(rc); m != nil && dump(m, fCmt) == b {
				f.seen()
				return nil
			}
		}
		a, b = diff(a, b)
		return &violation{What: "comments are lost, altered, repeated or attached to another element", Want: a, Got: b}
	}
	return nil
}

// ---- C07 ---------------------------------------------------------------------

// wellFormed checks that every body element is non-nil and of a kind that
// may occur there.
func wellFormed(p *parser.Proto) string {
	bad := ""
	say := func(where string, n interface{}) {
		if bad == "" {
			bad = fmt.Sprintf("%s holds %T (nil: %v)", where, n, isNilNode(n))
		}
	}
	var msgBody func(where string, bs []parser.Visitee)
	cmts := func(where string, cs []*parser.Comment) {
		for _, c := range cs {
			if c == nil {
				say(where+" comments", c)
			}
		}
	}
	opts := func(where string, os []*parser.Option) {
		for _, o := range os {
			if o == nil {
				say(where+" options", o)
			} else {
				cmts("option", o.Comments)
			}
		}
	}
	fopts := func(where string, os []*parser.FieldOption) {
		for _, o := range os {
			if o == nil {
				say(where+" options", o)
			}
		}
	}
	field := func(t *parser.Field) { fopts("field", t.FieldOptions); cmts("field", t.Comments) }
	ranges := func(where string, rs []*parser.Range) {
		for _, x := range rs {
			if x == nil {
				say(where+" ranges", x)
			}
		}
	}
	enum := func(t *parser.Enum) {
		cmts("enum", t.Comments)
		for _, b := range t.EnumBody {
			if isNilNode(b) {
				say("enum body", b)
				continue
			}
			switch u := b.(type) {
			case *parser.EnumField:
				cmts("enum value", u.Comments)
				for _, o := range u.EnumValueOptions {
					if o == nil {
						say("enum value options", o)
					}
				}
			case *parser.Option, *parser.EmptyStatement, *parser.Comment:
			case *parser.Reserved:
				ranges("reserved", u.Ranges)
			default:
				say("enum body", b)
			}
		}
	}
	extend := func(t *parser.Extend) {
		cmts("extend", t.Comments)
		for _, b := range t.ExtendBody {
			if isNilNode(b) {
				say("extend body", b)
				continue
			}
			switch u := b.(type) {
			case *parser.Field:
				field(u)
			case *parser.EmptyStatement, *parser.Comment:
			default:
				say("extend body", b)
			}
		}
	}
	msgBody = func(where string, bs []parser.Visitee) {
		for _, b := range bs {
			if isNilNode(b) {
				say(where, b)
				continue
			}
			switch u := b.(type) {
			case *parser.Field:
				field(u)
			case *parser.MapField:
				fopts("map", u.FieldOptions)
				cmts("map", u.Comments)
			case *parser.Oneof:
				cmts("oneof", u.Comments)
				opts("oneof", u.Options)
				for _, f := range u.OneofFields {
					if f == nil {
						say("oneof fields", f)
					} else {
						fopts("oneof field", f.FieldOptions)
						cmts("oneof field", f.Comments)
					}
				}
			case *parser.GroupField:
				cmts("group", u.Comments)
				msgBody("group body", u.MessageBody)
			case *parser.Message:
				cmts("message", u.Comments)
				msgBody("message body", u.MessageBody)
			case *parser.Enum:
				enum(u)
			case *parser.Extend:
				extend(u)
			case *parser.Option:
				cmts("option", u.Comments)
			case *parser.Reserved:
				ranges("reserved", u.Ranges)
			case *parser.Extensions:
				ranges("extensions", u.Ranges)
				for _, d := range u.Declarations {
					if d == nil {
						say("declarations", d)
					}
				}
			case *parser.EmptyStatement, *parser.Comment:
			default:
				say(where, b)
			}
		}
	}
	for _, b := range p.ProtoBody {
		if isNilNode(b) {
			say("file body", b)
			continue
		}
		switch u := b.(type) {
		case *parser.Import:
			cmts("import", u.Comments)
		case *parser.Package:
			cmts("package", u.Comments)
		case *parser.Option:
			cmts("option", u.Comments)
		case *parser.Message:
			cmts("message", u.Comments)
			msgBody("message body", u.MessageBody)
		case *parser.Enum:
			enum(u)
		case *parser.Extend:
			extend(u)
		case *parser.Service:
			cmts("service", u.Comments)
			for _, s := range u.ServiceBody {
				if isNilNode(s) {
					say("service body", s)
					continue
				}
				switch t := s.(type) {
				case *parser.RPC:
					cmts("rpc", t.Comments)
					cmts("rpc embedded", t.EmbeddedComments)
					opts("rpc", t.Options)
					if t.RPCRequest == nil {
						say("rpc request", t.RPCRequest)
					}
					if t.RPCResponse == nil {
						say("rpc response", t.RPCResponse)
					}
				case *parser.Option, *parser.EmptyStatement, *parser.Comment:
				default:
					say("service body", s)
				}
			}
		case *parser.EmptyStatement, *parser.Comment:
		default:
			say("file body", b)
		}
	}
	if p.Meta == nil {
		say("file meta", p.Meta)
	}
	return bad
}

type nullVisitor struct{ n int }

func (v *nullVisitor) VisitComment(*parser.Comment)                    { v.n++ }
func (v *nullVisitor) VisitDeclaration(*parser.Declaration) bool       { v.n++; return true }
func (v *nullVisitor) VisitEdition(*parser.Edition) bool               { v.n++; return true }
func (v *nullVisitor) VisitEmptyStatement(*parser.EmptyStatement) bool { v.n++; return true }
func (v *nullVisitor) VisitEnum(*parser.Enum) bool                     { v.n++; return true }
func (v *nullVisitor) VisitEnumField(*parser.EnumField) bool           { v.n++; return true }
func (v *nullVisitor) VisitExtend(*parser.Extend) bool                 { v.n++; return true }
func (v *nullVisitor) VisitExtensions(*parser.Extensions) bool         { v.n++; return true }
func (v *nullVisitor) VisitField(*parser.Field) bool                   { v.n++; return true }
func (v *nullVisitor) VisitGroupField(*parser.GroupField) bool         { v.n++; return true }
func (v *nullVisitor) VisitImport(*parser.Import) bool                 { v.n++; return true }
func (v *nullVisitor) VisitMapField(*parser.MapField) bool             { v.n++; return true }
func (v *nullVisitor) VisitMessage(*parser.Message) bool               { v.n++; return true }
func (v *nullVisitor) VisitOneof(*parser.Oneof) bool                   { v.n++; return true }
func (v *nullVisitor) VisitOneofField(*parser.OneofField) bool         { v.n++; return true }
func (v *nullVisitor) VisitOption(*parser.Option) bool                 { v.n++; return true }
func (v *nullVisitor) VisitPackage(*parser.Package) bool               { v.n++; return true }
func (v *nullVisitor) VisitReserved(*parser.Reserved) bool             { v.n++; return true }
func (v *nullVisitor) VisitRPC(*parser.RPC) bool                       { v.n++; return true }
func (v *nullVisitor) VisitService(*parser.Service) bool               { v.n++; return true }
func (v *nullVisitor) VisitSyntax(*parser.Syntax) bool                 { v.n++; return true }

var _ parser.Visitor = (*nullVisitor)(nil)
var _ = unordered.InterpretProto

// oTotal does not use the model.
func oTotal(p *parser.Proto, err error) (v *violation) {
	if (p == nil) == (err == nil) {
		return &violation{What: "not exactly one of tree and error", Got: fmt.Sprintf("tree nil: %v, error: %v", p == nil, err)}
	}
	if err != nil {
		if guard(func() { _ = err.Error() }) != nil {
			return &violation{What: "the error cannot be printed"}
		}
		return nil
	}
	if s := wellFormed(p); s != "" {
		return &violation{What: "the tree contains a nil or foreign element", Got: s}
	}
	if pe := guard(func() { p.Accept(&nullVisitor{}) }); pe != nil {
		return &violation{What: "visiting the tree panics", Got: pe.Error() + "\n" + pe.stack}
	}
	var ierr error
	if pe := guard(func() { _, ierr = unordered.InterpretProto(p) }); pe != nil {
		return &violation{What: "interpreting the tree panics", Got: pe.Error() + "\n" + pe.stack}
	}
	if ierr != nil {
		return &violation{What: "interpreting the tree fails", Got: ierr.Error()}
	}
	var jerr error
	var b []byte
	if pe := guard(func() { b, jerr = json.Marshal(p) }); pe != nil {
		return &violation{What: "encoding the tree panics", Got: pe.Error() + "\n" + pe.stack}
	}
	if jerr != nil || len(b) == 0 {
		return &violation{What: "encoding the tree fails", Got: fmt.Sprint(jerr)}
	}
	return nil
}

// ---- C11 ---------------------------------------------------------------------

func typedError(err error) (*meta.Error, bool) {
	var me *meta.Error
	if errors.As(err, &me) && me != nil {
		return me, true
	}
	return nil, false
}

func oErrPos(x *xc) *violation {
	if x.err == nil {
		return nil
	}
	me, ok := typedError(x.err)
	if !ok {
		return &violation{What: "the error does not carry the typed parse error", Got: fmt.Sprintf("%T: %v", x.err, x.err)}
	}
	if me.Pos.Filename != x.c.filename {
		return &violation{What: "the error lacks the configured filename", Want: x.c.filename, Got: me.Pos.Filename}
	}
	if !newPosTable(x.src).ok(me.Pos) {
		return &violation{What: "the error's offset, line and column do not agree with the input", Got: fmt.Sprintf("offset %d line %d column %d: %v", me.Pos.Offset, me.Pos.Line, me.Pos.Column, x.err)}
	}
	if x.rej < 0 {
		return nil // C01
	}
	lo, hi := x.rf.errRange(x.rej)
	if me.Pos.Offset < lo || me.Pos.Offset > hi {
		return &violation{What: "the error is reported at the wrong place", Want: fmt.Sprintf("offset in [%d,%d], %s", lo, hi, describeRej(x.rf, x.rej)), Got: fmt.Sprintf("offset %d: %v", me.Pos.Offset, x.err)}
	}
	return nil
}
