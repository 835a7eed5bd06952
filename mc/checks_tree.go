package main

// Checks on trees: visiting (C13) and unordered interpretation (C14).

import (
	"fmt"
	"reflect"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// ---- C13 ---------------------------------------------------------------------

// parts gives the content of an element: the attached comments (any order
// among themselves) and its lists of elements (each in order).
func parts(n interface{}) (cs []*parser.Comment, lists [][]interface{}) {
	one := func(xs ...*parser.Comment) {
		for _, x := range xs {
			if x != nil {
				cs = append(cs, x)
			}
		}
	}
	bd := func(bs []parser.Visitee) {
		var l []interface{}
		for _, b := range bs {
			l = append(l, b)
		}
		lists = append(lists, l)
	}
	op := func(os []*parser.Option) {
		var l []interface{}
		for _, o := range os {
			l = append(l, o)
		}
		lists = append(lists, l)
	}
	switch t := n.(type) {
	case *parser.Proto:
		var l []interface{}
		if t.Syntax != nil {
			l = append(l, t.Syntax)
		}
		if t.Edition != nil {
			l = append(l, t.Edition)
		}
		for _, b := range t.ProtoBody {
			l = append(l, b)
		}
		lists = append(lists, l)
	case *parser.Syntax:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.Edition:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.Import:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.Package:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.Option:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.EmptyStatement:
		one(t.InlineComment)
	case *parser.Message:
		one(t.Comments...)
		one(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.MessageBody)
	case *parser.GroupField:
		one(t.Comments...)
		one(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.MessageBody)
	case *parser.Field:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.MapField:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.Oneof:
		one(t.Comments...)
		one(t.InlineComment, t.InlineCommentBehindLeftCurly)
		var l []interface{}
		for _, f := range t.OneofFields {
			l = append(l, f)
		}
		lists = append(lists, l)
		op(t.Options)
	case *parser.OneofField:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.Reserved:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.Extensions:
		one(t.Comments...)
		one(t.InlineComment, t.InlineCommentBehindLeftSquare)
		var l []interface{}
		for _, f := range t.Declarations {
			l = append(l, f)
		}
		lists = append(lists, l)
	case *parser.Declaration:
		one(t.Comments...)
		one(t.InlineComment, t.InlineCommentBehindLeftCurly)
	case *parser.Extend:
		one(t.Comments...)
		one(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.ExtendBody)
	case *parser.Enum:
		one(t.Comments...)
		one(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.EnumBody)
	case *parser.EnumField:
		one(t.Comments...)
		one(t.InlineComment)
	case *parser.Service:
		one(t.Comments...)
		one(t.InlineComment, t.InlineCommentBehindLeftCurly)
		bd(t.ServiceBody)
	case *parser.RPC:
		one(t.Comments...)
		one(t.EmbeddedComments...)
		one(t.InlineComment, t.InlineCommentBehindLeftCurly)
		op(t.Options)
	}
	return
}

func label(n interface{}) string {
	switch t := n.(type) {
	case *parser.Comment:
		return fmt.Sprintf("comment %q", t.Raw)
	case *parser.Message:
		return "message " + t.MessageName
	case *parser.Field:
		return "field " + t.FieldName
	case *parser.Option:
		return "option " + t.OptionName
	}
	return strings.TrimPrefix(fmt.Sprintf("%T", n), "*parser.")
}

type event struct {
	n   interface{}
	kin string // the callback
}

// recVisitor records the callbacks and answers by a choice sequence: the
// answers of the declarations at the positions in no are false.
type recVisitor struct {
	ev []event
	no map[int]bool
	pt func() // called at every callback
}

func (v *recVisitor) on(kind string, n interface{}) bool {
	if v.pt != nil {
		v.pt()
	}
	i := len(v.ev)
	v.ev = append(v.ev, event{n, kind})
	return !v.no[i]
}
func (v *recVisitor) VisitComment(n *parser.Comment) { v.on("Comment", n) }
func (v *recVisitor) VisitDeclaration(n *parser.Declaration) bool {
	return v.on("Declaration", n)
}
func (v *recVisitor) VisitEdition(n *parser.Edition) bool { return v.on("Edition", n) }
func (v *recVisitor) VisitEmptyStatement(n *parser.EmptyStatement) bool {
	return v.on("EmptyStatement", n)
}
func (v *recVisitor) VisitEnum(n *parser.Enum) bool             { return v.on("Enum", n) }
func (v *recVisitor) VisitEnumField(n *parser.EnumField) bool   { return v.on("EnumField", n) }
func (v *recVisitor) VisitExtend(n *parser.Extend) bool         { return v.on("Extend", n) }
func (v *recVisitor) VisitExtensions(n *parser.Extensions) bool { return v.on("Extensions", n) }
func (v *recVisitor) VisitField(n *parser.Field) bool           { return v.on("Field", n) }
func (v *recVisitor) VisitGroupField(n *parser.GroupField) bool { return v.on("GroupField", n) }
func (v *recVisitor) VisitImport(n *parser.Import) bool         { return v.on("Import", n) }
func (v *recVisitor) VisitMapField(n *parser.MapField) bool     { return v.on("MapField", n) }
func (v *recVisitor) VisitMessage(n *parser.Message) bool       { return v.on("Message", n) }
func (v *recVisitor) VisitOneof(n *parser.Oneof) bool           { return v.on("Oneof", n) }
func (v *recVisitor) VisitOneofField(n *parser.OneofField) bool { return v.on("OneofField", n) }
func (v *recVisitor) VisitOption(n *parser.Option) bool         { return v.on("Option", n) }
func (v *recVisitor) VisitPackage(n *parser.Package) bool       { return v.on("Package", n) }
func (v *recVisitor) VisitReserved(n *parser.Reserved) bool     { return v.on("Reserved", n) }
func (v *recVisitor) VisitRPC(n *parser.RPC) bool               { return v.on("RPC", n) }
func (v *recVisitor) VisitService(n *parser.Service) bool       { return v.on("Service", n) }
func (v *recVisitor) VisitSyntax(n *parser.Syntax) bool         { return v.on("Syntax", n) }

// consume checks the events from i on against the element n, whose own event
// has been consumed already, and returns the index behind its content.
func consume(n interface{}, ev []event, i int, no map[int]bool) (int, string) {
	cs, lists := parts(n)
	left := len(cs)
	pend := map[*parser.Comment]int{}
	for _, c := range cs {
		pend[c]++
	}
	for i < len(ev) {
		if c, ok := ev[i].n.(*parser.Comment); ok && pend[c] > 0 {
			pend[c]--
			left--
			i++
			continue
		}
		hit := false
		for k := range lists {
			if len(lists[k]) > 0 && lists[k][0] == ev[i].n {
				child := lists[k][0]
				lists[k] = lists[k][1:]
				if want := strings.TrimPrefix(fmt.Sprintf("%T", child), "*parser."); ev[i].kin != want {
					return i, fmt.Sprintf("event %d: %s is announced as %s", i, label(child), ev[i].kin)
				}
				i++
				if _, ok := child.(*parser.Comment); !ok && !no[i-1] {
					var s string
					if i, s = consume(child, ev, i, no); s != "" {
						return i, s
					}
				}
				hit = true
				break
			}
		}
		if !hit {
			break
		}
	}
	if left > 0 {
		for c, k := range pend {
			if k > 0 {
				return i, fmt.Sprintf("within %s: the attached comment %q is not visited (stopped at event %d of %d)", label(n), c.Raw, i, len(ev))
			}
		}
	}
	for k := range lists {
		if len(lists[k]) > 0 {
			return i, fmt.Sprintf("within %s: %s is not visited in its turn (stopped at event %d of %d)", label(n), label(lists[k][0]), i, len(ev))
		}
	}
	return i, ""
}

func visitOnce(p *parser.Proto, no map[int]bool) (*recVisitor, string) {
	v := &recVisitor{no: no}
	if pe := guard(func() { p.Accept(v) }); pe != nil {
		return v, "panic: " + pe.Error()
	}
	i, s := consume(p, v.ev, 0, no)
	if s == "" && i < len(v.ev) {
		s = fmt.Sprintf("event %d: %s %s is visited out of place or again", i, v.ev[i].kin, label(v.ev[i].n))
	}
	return v, s
}

func isDecl(e event) bool { return e.kin != "Comment" }

// visitPatterns runs every pattern with at most bound refusals (any number if
// the tree is small).
func (w *Worker) visitPatterns(src string, p *parser.Proto, c cfg, bound int) bool {
	var rec func(no []int, from int, left int) bool
	rec = func(no []int, from int, left int) bool {
		m := map[int]bool{}
		for _, i := range no {
			m[i] = true
		}
		v, s := visitOnce(p, m)
		w.execs++
		w.compared++
		h := uint64(14695981039346656037)
		for i, e := range v.ev {
			h = (h ^ uint64(len(e.kin)) ^ uint64(e.kin[0])<<8) * 1099511628211
			if m[i] {
				h++
			}
			k := h
			if _, ok := w.cov.states[k]; !ok && len(w.cov.states) < 1<<20 {
				w.cov.states[k] = struct{}{}
			}
		}
		if s != "" {
			no := append([]int{}, no...)
			w.fail(violation{What: "the visitor is not called as told", Config: fmt.Sprintf("%s; false answered at events %v", c, no), Input: src, Got: s,
				again: func() bool {
					p, err := rawParse(src, c)
					if err != nil {
						return true
					}
					_, s := visitOnce(p, m)
					return s != ""
				}})
			return false
		}
		if left == 0 {
			return true
		}
		for i := from; i < len(v.ev); i++ {
			if isDecl(v.ev[i]) {
				if w.stopped() || !rec(append(no[:len(no):len(no)], i), i+1, left-1) {
					return false
				}
			}
		}
		return true
	}
	return rec(nil, 0, bound)
}

func visitCase(w *Worker, src string) {
	w.walk(src, cfgPB)
	p, err, ok := w.parse(src, cfgPB)
	if !ok || err != nil {
		w.rejected++
		return
	}
	w.accepted++
	v := &nullVisitor{}
	if pe := guard(func() { p.Accept(v) }); pe != nil {
		w.fail(violation{What: "visiting panics", Input: src, Config: cfgPB.String(), Got: pe.Error()})
		return
	}
	bound := 1
	switch {
	case v.n <= w.run.q(8, 12):
		bound = 12
	case v.n <= w.run.q(30, 60):
		bound = 2
	}
	before := dump(p, fAll)
	if w.visitPatterns(src, p, cfgPB, bound) {
		if a := dump(p, fAll); a != before {
			a, b := diff(before, a)
			w.fail(violation{What: "visiting changes the tree", Input: src, Config: cfgPB.String(), Want: a, Got: b})
		}
	}
}

// ---- hand-built trees ----------------------------------------------------------

func mkComment(s string) *parser.Comment { return &parser.Comment{Raw: "//" + s} }

// forest builds trees with all slots of comments filled (or not) by mask.
// Every element kind occurs in every body it may be in.
type forest struct {
	n    int
	mask int
	pos  int
}

func (f *forest) c() *parser.Comment {
	f.n++
	return mkComment(fmt.Sprint(f.n))
}
func (f *forest) cs() []*parser.Comment {
	switch {
	case f.mask&1 == 0:
		return nil
	case f.mask&8 != 0:
		return []*parser.Comment{f.c()}
	}
	return []*parser.Comment{f.c(), f.c(), f.c()}
}
func (f *forest) i() *parser.Comment {
	if f.mask&2 == 0 {
		return nil
	}
	return f.c()
}
func (f *forest) l() *parser.Comment {
	if f.mask&4 == 0 {
		return nil
	}
	return f.c()
}
func (f *forest) m() meta.Meta {
	f.pos++
	return meta.Meta{Pos: meta.Position{Filename: "h", Offset: f.pos * 10, Line: f.pos, Column: 1}, LastPos: meta.Position{Filename: "h", Offset: f.pos*10 + 9, Line: f.pos, Column: 10}}
}

const (
	hkImport = iota
	hkPackage
	hkOption
	hkMessage
	hkEnum
	hkService
	hkExtend
	hkEmpty
	hkComment
	hkField
	hkMap
	hkOneof
	hkGroup
	hkReserved
	hkExtensions
	hkEnumField
	hkRPC
	hkForeignOneofField
	hkForeignDeclaration
	hkForeignSyntax
	hkForeignEdition
	hkForeignProto
	hkNil
	hkKinds
)

func (f *forest) node(k, depth int) parser.Visitee {
	f.n++
	name := fmt.Sprint("n", f.n)
	body := func(ks ...int) []parser.Visitee {
		var out []parser.Visitee
		if depth <= 0 {
			return nil
		}
		for _, k := range ks {
			out = append(out, f.node(k, depth-1))
		}
		return out
	}
	switch k {
	case hkImport:
		return &parser.Import{Location: name, Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkPackage:
		return &parser.Package{Name: name, Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkOption:
		return &parser.Option{OptionName: name, Constant: "1", Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkMessage:
		return &parser.Message{MessageName: name, MessageBody: body(msgKinds...), Comments: f.cs(), InlineComment: f.i(), InlineCommentBehindLeftCurly: f.l(), Meta: f.m()}
	case hkEnum:
		return &parser.Enum{EnumName: name, EnumBody: body(enumKinds...), Comments: f.cs(), InlineComment: f.i(), InlineCommentBehindLeftCurly: f.l(), Meta: f.m()}
	case hkService:
		return &parser.Service{ServiceName: name, ServiceBody: body(svcKinds...), Comments: f.cs(), InlineComment: f.i(), InlineCommentBehindLeftCurly: f.l(), Meta: f.m()}
	case hkExtend:
		return &parser.Extend{MessageType: name, ExtendBody: body(extKinds...), Comments: f.cs(), InlineComment: f.i(), InlineCommentBehindLeftCurly: f.l(), Meta: f.m()}
	case hkEmpty:
		return &parser.EmptyStatement{InlineComment: f.i()}
	case hkComment:
		return f.c()
	case hkField:
		return &parser.Field{FieldName: name, Type: "T", FieldNumber: "1", FieldOptions: []*parser.FieldOption{{OptionName: "o", Constant: "2"}}, Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkMap:
		return &parser.MapField{MapName: name, KeyType: "string", Type: "T", FieldNumber: "1", Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkOneof:
		o := &parser.Oneof{OneofName: name, Comments: f.cs(), InlineComment: f.i(), InlineCommentBehindLeftCurly: f.l(), Meta: f.m()}
		for j := 0; depth > 0 && j < 2; j++ {
			o.OneofFields = append(o.OneofFields, f.node(hkForeignOneofField, 0).(*parser.OneofField))
			o.Options = append(o.Options, f.node(hkOption, 0).(*parser.Option))
		}
		return o
	case hkGroup:
		return &parser.GroupField{GroupName: name, FieldNumber: "1", MessageBody: body(msgKinds...), Comments: f.cs(), InlineComment: f.i(), InlineCommentBehindLeftCurly: f.l(), Meta: f.m()}
	case hkReserved:
		return &parser.Reserved{FieldNames: []string{name}, Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkExtensions:
		e := &parser.Extensions{Ranges: []*parser.Range{{Begin: "1", End: "2"}}, Comments: f.cs(), InlineComment: f.i(), InlineCommentBehindLeftSquare: f.l(), Meta: f.m()}
		for j := 0; depth > 0 && j < 2; j++ {
			e.Declarations = append(e.Declarations, f.node(hkForeignDeclaration, 0).(*parser.Declaration))
		}
		return e
	case hkEnumField:
		return &parser.EnumField{Ident: name, Number: "1", Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkRPC:
		r := &parser.RPC{RPCName: name, RPCRequest: &parser.RPCRequest{MessageType: "A", Meta: f.m()}, RPCResponse: &parser.RPCResponse{MessageType: "B", Meta: f.m()}, Comments: f.cs(), EmbeddedComments: f.cs(), InlineComment: f.i(), InlineCommentBehindLeftCurly: f.l(), Meta: f.m()}
		for j := 0; depth > 0 && j < 2; j++ {
			r.Options = append(r.Options, f.node(hkOption, 0).(*parser.Option))
		}
		return r
	case hkForeignOneofField:
		return &parser.OneofField{FieldName: name, Type: "T", FieldNumber: "1", Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkForeignDeclaration:
		return &parser.Declaration{Number: name, Comments: f.cs(), InlineComment: f.i(), InlineCommentBehindLeftCurly: f.l(), Meta: f.m()}
	case hkForeignSyntax:
		return &parser.Syntax{ProtobufVersion: name, Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkForeignEdition:
		return &parser.Edition{Edition: name, Comments: f.cs(), InlineComment: f.i(), Meta: f.m()}
	case hkForeignProto:
		return &parser.Proto{}
	}
	return nil
}

var (
	topKinds  = []int{hkImport, hkPackage, hkOption, hkMessage, hkEnum, hkService, hkExtend, hkEmpty, hkComment}
	msgKinds  = []int{hkField, hkEnum, hkMessage, hkOption, hkOneof, hkMap, hkGroup, hkReserved, hkExtend, hkEmpty, hkExtensions, hkComment}
	enumKinds = []int{hkEnumField, hkOption, hkReserved, hkEmpty, hkComment}
	svcKinds  = []int{hkRPC, hkOption, hkEmpty, hkComment}
	extKinds  = []int{hkField, hkEmpty, hkComment}
)

type block struct {
	name  string
	kinds []int
	wrap  func(bs []parser.Visitee) *parser.Proto
}

var blocks = []block{
	{"file", topKinds, func(bs []parser.Visitee) *parser.Proto {
		return &parser.Proto{ProtoBody: bs, Meta: &parser.ProtoMeta{Filename: "h"}}
	}},
	{"message", msgKinds, func(bs []parser.Visitee) *parser.Proto {
		return &parser.Proto{ProtoBody: []parser.Visitee{&parser.Message{MessageName: "W", MessageBody: bs}}}
	}},
	{"nested message", msgKinds, func(bs []parser.Visitee) *parser.Proto {
		return &parser.Proto{ProtoBody: []parser.Visitee{&parser.Message{MessageName: "V", MessageBody: []parser.Visitee{&parser.Field{FieldName: "x"}, &parser.Message{MessageName: "W", MessageBody: bs}, &parser.Field{FieldName: "y"}}}}}
	}},
	{"group", msgKinds, func(bs []parser.Visitee) *parser.Proto {
		return &parser.Proto{ProtoBody: []parser.Visitee{&parser.Message{MessageName: "V", MessageBody: []parser.Visitee{&parser.GroupField{GroupName: "W", MessageBody: bs}}}}}
	}},
	{"enum", enumKinds, func(bs []parser.Visitee) *parser.Proto {
		return &parser.Proto{ProtoBody: []parser.Visitee{&parser.Enum{EnumName: "W", EnumBody: bs}}}
	}},
	{"nested enum", enumKinds, func(bs []parser.Visitee) *parser.Proto {
		return &parser.Proto{ProtoBody: []parser.Visitee{&parser.Message{MessageName: "V", MessageBody: []parser.Visitee{&parser.Enum{EnumName: "W", EnumBody: bs}}}}}
	}},
	{"service", svcKinds, func(bs []parser.Visitee) *parser.Proto {
		return &parser.Proto{ProtoBody: []parser.Visitee{&parser.Service{ServiceName: "W", ServiceBody: bs}}}
	}},
	{"extend", extKinds, func(bs []parser.Visitee) *parser.Proto {
		return &parser.Proto{ProtoBody: []parser.Visitee{&parser.Extend{MessageType: "W", ExtendBody: bs}}}
	}},
	{"nested extend", extKinds, func(bs []parser.Visitee) *parser.Proto {
		return &parser.Proto{ProtoBody: []parser.Visitee{&parser.Message{MessageName: "V", MessageBody: []parser.Visitee{&parser.Extend{MessageType: "W", ExtendBody: bs}}}}}
	}},
}

// handBuilt: all sequences of <= k kinds in every block x comment masks x depth.
func (r *Run) handBuilt(k int, masks []int, foreign bool, f func(w *Worker, b *block, seq []int, p *parser.Proto, desc string)) {
	for bi := range blocks {
		b := &blocks[bi]
		kinds := b.kinds
		if foreign {
			kinds = nil
			for i := 0; i < hkNil; i++ {
				kinds = append(kinds, i)
			}
		}
		r.Space("hand-built/"+b.name, fmt.Sprintf("all sequences of <= %d of %d element kinds x %d comment masks x 2 depths", k, len(kinds), len(masks)), len(kinds)+1, func(w *Worker, task int) {
			emit := func(seq []int) {
				for _, m := range masks {
					for d := 0; d < 2; d++ {
						if w.stopped() {
							return
						}
						fo := &forest{mask: m}
						var bs []parser.Visitee
						for _, s := range seq {
							bs = append(bs, fo.node(s, d))
						}
						p := b.wrap(bs)
						if m&16 != 0 {
							p.Syntax = fo.node(hkForeignSyntax, 0).(*parser.Syntax)
						}
						if m&32 != 0 {
							p.Edition = fo.node(hkForeignEdition, 0).(*parser.Edition)
						}
						w.cases++
						f(w, b, seq, p, fmt.Sprintf("hand-built %s body of kinds %v, mask %d, depth %d", b.name, seq, m, d))
					}
				}
			}
			if task == 0 {
				emit(nil)
				return
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				emit(seq)
				if len(seq) == k {
					return
				}
				for _, a := range kinds {
					rec(append(seq[:len(seq):len(seq)], a))
				}
			}
			rec([]int{kinds[task-1]})
		})
	}
}

func init() {
	checks["C13"] = check{"model_checking", "hand-built trees (all short sequences of element kinds in every block) and all trees parsed from the listed spaces are visited with every pattern of answers (any number of refusals on small trees, up to two on larger ones); the sequence of callbacks must be the traversal the tree prescribes; states are distinct prefixes of (callback kind, answer) sequences, transitions those of the grammar automaton of the inputs", func(r *Run) {
		r.handBuilt(r.q(2, 3), []int{0, 1, 2, 4, 7, 16 + 7, 32 + 7, 48 + 15}, false, func(w *Worker, b *block, seq []int, p *parser.Proto, desc string) {
			bound := 1
			if len(seq) <= 1 {
				bound = w.run.q(2, 3)
			}
			var rec func(no []int, from, left int) bool
			rec = func(no []int, from, left int) bool {
				m := map[int]bool{}
				for _, i := range no {
					m[i] = true
				}
				v, s := visitOnce(p, m)
				w.execs++
				w.compared++
				if s != "" {
					w.fail(violation{What: "the visitor is not called as told", Config: fmt.Sprintf("false answered at events %v", no), Input: desc, Got: s})
					return false
				}
				if left == 0 {
					return true
				}
				for i := from; i < len(v.ev); i++ {
					if isDecl(v.ev[i]) && !rec(append(no[:len(no):len(no)], i), i+1, left-1) {
						return false
					}
				}
				return true
			}
			rec(nil, 0, bound)
		})
		r.each(r.docs(docBudgets["C13"]), visitCase)
	}}
}

// ---- C14 ---------------------------------------------------------------------

// partition checks one interpreted block: src are the elements of the body,
// out is the struct of lists.
func partition(where string, src []parser.Visitee, out interface{}) string {
	ov := reflect.ValueOf(out)
	if ov.Kind() == reflect.Ptr {
		if ov.IsNil() {
			return where + ": nil body"
		}
		ov = ov.Elem()
	}
	total := 0
	for i := 0; i < ov.NumField(); i++ {
		fv := ov.Field(i)
		fn := ov.Type().Field(i).Name
		if fv.Kind() != reflect.Slice {
			return where + ": unexpected field " + fn
		}
		et := fv.Type().Elem()
		var want []parser.Visitee
		for _, s := range src {
			if kindOf(s) == elemKind(et) {
				want = append(want, s)
			}
		}
		total += fv.Len()
		if fv.Len() != len(want) {
			return fmt.Sprintf("%s.%s: %d elements instead of %d", where, fn, fv.Len(), len(want))
		}
		for j := 0; j < fv.Len(); j++ {
			if s := sameElement(fmt.Sprintf("%s.%s[%d]", where, fn, j), want[j], fv.Index(j).Interface()); s != "" {
				return s
			}
		}
	}
	if total != len(src) {
		return fmt.Sprintf("%s: %d elements in the lists, %d in the body", where, total, len(src))
	}
	return ""
}

func kindOf(n interface{}) string { return elemKind(reflect.TypeOf(n)) }
func elemKind(t reflect.Type) string {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Name()
}

// sameElement: got is the element want itself, or its interpretation.
func sameElement(where string, want parser.Visitee, got interface{}) string {
	if got == interface{}(want) {
		return ""
	}
	gv := reflect.ValueOf(got)
	if gv.Kind() != reflect.Ptr || gv.IsNil() {
		return where + ": nil"
	}
	if !strings.Contains(gv.Type().String(), "unordered.") {
		return where + ": another element (order or identity changed)"
	}
	gv = gv.Elem()
	wv := reflect.ValueOf(want).Elem()
	for i := 0; i < wv.NumField(); i++ {
		n := wv.Type().Field(i).Name
		g := gv.FieldByName(n)
		if !g.IsValid() {
			return where + ": lacks " + n
		}
		if bs, ok := wv.Field(i).Interface().([]parser.Visitee); ok {
			if s := partition(where+"."+n, bs, g.Interface()); s != "" {
				return s
			}
			continue
		}
		if !reflect.DeepEqual(wv.Field(i).Interface(), g.Interface()) {
			return where + "." + n + " differs"
		}
		if g.Kind() == reflect.Ptr && g.Pointer() != wv.Field(i).Pointer() {
			return where + "." + n + " is another object"
		}
	}
	return ""
}

func interpretation(p *parser.Proto, entry func(*parser.Proto) (*unordered.Proto, error)) (s string) {
	var u *unordered.Proto
	var err error
	if pe := guard(func() { u, err = entry(p) }); pe != nil {
		return "panic: " + pe.Error() + "\n" + pe.stack
	}
	if err != nil {
		return "error: " + err.Error()
	}
	if u == nil {
		return "nil result"
	}
	if u.Syntax != p.Syntax {
		return "syntax is not carried over"
	}
	if u.Edition != p.Edition {
		return "edition is not carried over"
	}
	return partition("ProtoBody", p.ProtoBody, u.ProtoBody)
}

// interpretCheck: the whole property on one tree.
func interpretCheck(p *parser.Proto) string {
	before := dump(p, fAll)
	if s := interpretation(p, unordered.InterpretProto); s != "" {
		return "InterpretProto: " + s
	}
	if s := interpretation(p, protoparser.UnorderedInterpret); s != "" {
		return "UnorderedInterpret: " + s
	}
	for _, b := range p.ProtoBody {
		s := ""
		where := fmt.Sprintf("Interpret of %s alone", label(b))
		if pe := guard(func() {
			switch t := b.(type) {
			case *parser.Message:
				u, err := unordered.InterpretMessage(t)
				if err != nil {
					s = err.Error()
				} else {
					s = sameElement(where, t, u)
				}
			case *parser.Enum:
				u, err := unordered.InterpretEnum(t)
				if err != nil {
					s = err.Error()
				} else {
					s = sameElement(where, t, u)
				}
			case *parser.Service:
				u, err := unordered.InterpretService(t)
				if err != nil {
					s = err.Error()
				} else {
					s = sameElement(where, t, u)
				}
			case *parser.Extend:
				u, err := unordered.InterpretExtend(t)
				if err != nil {
					s = err.Error()
				} else {
					s = sameElement(where, t, u)
				}
			}
		}); pe != nil {
			return where + ": panic: " + pe.Error()
		}
		if s != "" {
			return s
		}
	}
	if dump(p, fAll) != before {
		return "the tree is modified"
	}
	return ""
}

func (w *Worker) noteKinds(p *parser.Proto) {
	var h uint64 = 14695981039346656037
	for _, b := range p.ProtoBody {
		h = (h ^ hash64(kindOf(b))) * 1099511628211
	}
	w.cov.states[h] = struct{}{}
}

func interpretCase(w *Worker, src string) {
	w.walk(src, cfgPB)
	for _, c := range []cfg{cfgPB, cfgS} {
		p, err, ok := w.parse(src, c)
		if !ok {
			return
		}
		if err != nil {
			w.rejected++
			continue
		}
		w.accepted++
		w.compared++
		if s := interpretCheck(p); s != "" {
			c := c
			w.fail(violation{What: "the unordered interpretation is not a partition of the tree", Config: c.String(), Input: src, Got: s,
				again: func() bool {
					p, err := rawParse(src, c)
					return err != nil || interpretCheck(p) != ""
				}})
			return
		}
	}
}

func allowed(b *block, seq []int) bool {
	for _, s := range seq {
		ok := false
		for _, k := range b.kinds {
			ok = ok || k == s
		}
		if !ok {
			return false
		}
	}
	return true
}

func init() {
	checks["C14"] = check{"model_checking", "hand-built trees (all short sequences of element kinds, legal and foreign, in every block) and all trees parsed from the listed spaces are interpreted; every list must hold exactly the elements of its kind in order, recursively; states and transitions are those of the grammar automaton of the inputs", func(r *Run) {
		r.Space("nil", "every entry point", 1, func(w *Worker, _ int) {
			w.cases++
			w.execs++
			if pe := guard(func() {
				a, e1 := unordered.InterpretProto(nil)
				b, e2 := unordered.InterpretMessage(nil)
				c, e3 := unordered.InterpretEnum(nil)
				d, e4 := unordered.InterpretService(nil)
				e, e5 := unordered.InterpretExtend(nil)
				f, e6 := protoparser.UnorderedInterpret(nil)
				if a != nil || b != nil || c != nil || d != nil || e != nil || f != nil || e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil || e6 != nil {
					w.fail(violation{What: "interpreting nil does not give nil", Input: "nil"})
				}
			}); pe != nil {
				w.fail(violation{What: "interpreting nil panics", Input: "nil", Got: pe.Error()})
			}
		})
		r.handBuilt(r.q(3, 4), []int{0, 16 + 7, 32 + 7, 48 + 15}, false, func(w *Worker, b *block, seq []int, p *parser.Proto, desc string) {
			w.execs++
			w.compared++
			if s := interpretCheck(p); s != "" {
				w.fail(violation{What: "the unordered interpretation is not a partition of the tree", Input: desc, Got: s})
			}
		})
		r.handBuilt(r.q(2, 3), []int{0}, true, func(w *Worker, b *block, seq []int, p *parser.Proto, desc string) {
			w.execs++
			w.compared++
			if b.name == "group" || b.name == "nested extend" {
				return // not interpreted: carried over as they are
			}
			if b.name == "extend" {
				for _, k := range seq {
					if k == hkGroup {
						return // the parser knows no group there, protobuf does
					}
				}
			}
			var u *unordered.Proto
			var err error
			if pe := guard(func() { u, err = unordered.InterpretProto(p) }); pe != nil {
				w.fail(violation{What: "interpreting a tree with foreign elements panics", Input: desc, Got: pe.Error()})
				return
			}
			if allowed(b, seq) != (err == nil) || (err == nil) != (u != nil) {
				w.fail(violation{What: "a foreign element must give an error, and only that", Input: desc, Want: fmt.Sprint("error: ", !allowed(b, seq)), Got: fmt.Sprint("error: ", err, ", result nil: ", u == nil)})
			}
		})
		r.each(r.docs(docBudgets["C14"]), interpretCase)
	}}
}
