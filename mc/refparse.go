package main

// Reference parser: a recursive descent over the token array, following the
// grammar in the documentation, building the expected parser.* tree with
// positions and comments.

import (
	"strings"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

type refCfg struct {
	permissive bool
	body       bool // bodyIncludingComments
	filename   string
	dropRPC    bool // known finding: comments of options inside an rpc are dropped
}

// A nonterminal of the model's automaton.
type nt uint8

const (
	ntFile nt = iota + 1
	ntSyntax
	ntEdition
	ntImport
	ntPackage
	ntOption
	ntOptName
	ntConst
	ntAggr
	ntList
	ntMessage
	ntMsgBody
	ntField
	ntFieldOpts
	ntMap
	ntGroup
	ntOneof
	ntOneofField
	ntEnum
	ntEnumField
	ntReserved
	ntExtensions
	ntDecl
	ntExtend
	ntService
	ntRPC
	ntRPCType
	ntRPCBlock
	ntType
	ntFullIdent
	ntRange
)

type cover struct {
	states map[uint64]struct{}
	trans  map[uint64]struct{}
}

func newCover() *cover {
	return &cover{map[uint64]struct{}{}, map[uint64]struct{}{}}
}

func (c *cover) merge(o *cover) {
	for k := range o.states {
		c.states[k] = struct{}{}
	}
	for k := range o.trans {
		c.trans[k] = struct{}{}
	}
}

type ref struct {
	lexed
	cfg refCfg
	i   int // next token
	ci  int // next comment not yet attached or dropped

	// automaton: the stack of nonterminals (hashed) and the last token class
	stack []uint64
	last  uint64
	cov   *cover
	// observations for evidence and for dedicated checks
	absorbed int // semicolons absorbed after a closing brace
}

// reject is raised at the first token that cannot continue any valid input.
type reject struct{ tok int }

func (r *ref) rejectAt(i int) { panic(reject{i}) }
func (r *ref) enter(n nt) {
	h := uint64(14695981039346656037)
	if k := len(r.stack); k > 0 {
		h = r.stack[k-1]
	}
	r.stack = append(r.stack, (h^uint64(n))*1099511628211)
	r.last = 0
}
func (r *ref) leave() {
	r.stack = r.stack[:len(r.stack)-1]
	r.last = 1
}

var kwClass = map[string]uint64{}

func init() {
	for i, w := range strings.Fields("syntax edition service rpc returns message extend import package option repeated required optional weak public oneof map reserved extensions number full_name type declaration enum stream group true false inf nan to max int32 string") {
		kwClass[w] = uint64(100 + i)
	}
}

func (t *tok) class() uint64 {
	switch t.kind {
	case kIdent:
		if c, ok := kwClass[t.text]; ok {
			return c
		}
		return 99
	case kPunct:
		return 200 + uint64(t.text[0])
	default:
		return uint64(t.kind) + 2
	}
}

func (r *ref) cur() *tok { return &r.toks[r.i] }
func (r *ref) peek(n int) *tok {
	if r.i+n < len(r.toks) {
		return &r.toks[r.i+n]
	}
	return &r.toks[len(r.toks)-1]
}

// take consumes the current token.
func (r *ref) take() *tok {
	t := &r.toks[r.i]
	if t.kind == kEOF {
		r.rejectAt(r.i)
	}
	if r.cov != nil {
		c := t.class()
		s := r.stack[len(r.stack)-1] + r.last*0x9e3779b97f4a7c15
		r.cov.states[s] = struct{}{}
		r.cov.trans[s*31+c] = struct{}{}
		r.last = c
	}
	r.i++
	return t
}
func (t *tok) is(p byte) bool     { return t.kind == kPunct && t.text[0] == p && len(t.text) == 1 }
func (t *tok) kw(s string) bool   { return t.kind == kIdent && t.text == s }
func (r *ref) isP(p byte) bool    { return r.cur().is(p) }
func (r *ref) isKw(s string) bool { return r.cur().kw(s) }
func (r *ref) kind(k tkind) bool  { return r.cur().kind == k }
func (r *ref) fail()              { r.rejectAt(r.i) }
func (r *ref) punct(p byte) *tok {
	if !r.isP(p) {
		r.fail()
	}
	return r.take()
}
func (r *ref) expect(k tkind) *tok {
	if !r.kind(k) {
		r.fail()
	}
	return r.take()
}

// ---- comments -------------------------------------------------------------

func (c *cmt) node() *parser.Comment {
	return &parser.Comment{Raw: c.raw, Meta: meta.Meta{Pos: c.pos, LastPos: c.last}}
}

// leading takes the comments in front of the current token.
func (r *ref) leading() []*parser.Comment {
	var out []*parser.Comment
	for r.ci < len(r.cmts) && r.cmts[r.ci].before < r.i {
		r.ci++ // inside a declaration: no place in the tree
	}
	for r.ci < len(r.cmts) && r.cmts[r.ci].before == r.i {
		out = append(out, r.cmts[r.ci].node())
		r.ci++
	}
	return out
}

// inline takes the comment on the line of the token just consumed.
func (r *ref) inline() *parser.Comment {
	for r.ci < len(r.cmts) && r.cmts[r.ci].before < r.i {
		r.ci++
	}
	if r.ci < len(r.cmts) && r.cmts[r.ci].before == r.i && r.cmts[r.ci].pos.Line == r.toks[r.i-1].pos.Line {
		c := r.cmts[r.ci].node()
		r.ci++
		return c
	}
	return nil
}

func (r *ref) left(cs []*parser.Comment, body []parser.Visitee) []parser.Visitee {
	if r.cfg.body {
		for _, c := range cs {
			body = append(body, c)
		}
	}
	return body
}

// closing consumes '}' and, in permissive mode, one semicolon behind it.
func (r *ref) closing() meta.Position {
	last := r.punct('}').pos
	if r.cfg.permissive && r.isP(';') {
		last = r.take().pos
		r.absorbed++
	}
	return last
}

func (r *ref) from(start meta.Position) meta.Meta {
	return meta.Meta{Pos: start, LastPos: r.toks[r.i-1].pos}
}

// ---- lexical constructs ---------------------------------------------------

func (r *ref) fullIdent() string {
	r.enter(ntFullIdent)
	s := r.expect(kIdent).text
	for r.isP('.') {
		r.take()
		s += "." + r.expect(kIdent).text
	}
	r.leave()
	return s
}

func (r *ref) messageType() string {
	r.enter(ntType)
	s := ""
	if r.isP('.') {
		r.take()
		s = "."
	}
	s += r.expect(kIdent).text
	for r.isP('.') {
		r.take()
		s += "." + r.expect(kIdent).text
	}
	r.leave()
	return s
}

var refScalars = map[string]bool{"double": true, "float": true, "int32": true, "int64": true, "uint32": true, "uint64": true,
	"sint32": true, "sint64": true, "fixed32": true, "fixed64": true, "sfixed32": true, "sfixed64": true, "bool": true, "string": true, "bytes": true}
var refKeyTypes = map[string]bool{"int32": true, "int64": true, "uint32": true, "uint64": true,
	"sint32": true, "sint64": true, "fixed32": true, "fixed64": true, "sfixed32": true, "sfixed64": true, "bool": true, "string": true}

func (r *ref) fieldType() string {
	if r.kind(kIdent) && refScalars[r.cur().text] {
		return r.take().text
	}
	return r.messageType()
}

func (r *ref) optName() string {
	r.enter(ntOptName)
	part := func() string {
		if r.isP('(') {
			r.take()
			s := "("
			if r.cfg.permissive && r.isP('.') {
				r.take()
				s += "."
			}
			s += r.fullIdent()
			r.punct(')')
			return s + ")"
		}
		return r.expect(kIdent).text
	}
	s := part()
	for r.isP('.') {
		r.take()
		s += "." + part()
	}
	r.leave()
	return s
}

// scalar = fullIdent | [ "-" | "+" ] number | strLit | boolLit
func (r *ref) scalar() string {
	t := r.cur()
	switch {
	case t.kind == kStr:
		r.take()
		if !r.cfg.permissive || !r.kind(kStr) {
			return t.text
		}
		pieces := []string{t.text}
		for r.kind(kStr) {
			pieces = append(pieces, r.take().text)
		}
		return joinStrings(pieces)
	case t.kind == kInt || t.kind == kFloat:
		return r.take().text
	case t.kw("true"), t.kw("false"), t.kw("inf"), t.kw("nan"):
		return r.take().text
	case t.kind == kIdent:
		return r.fullIdent()
	case t.is('-') || t.is('+'):
		r.take()
		n := r.cur()
		if n.kind == kInt || n.kind == kFloat || n.kw("inf") || n.kw("nan") {
			return t.text + r.take().text
		}
	}
	r.fail()
	return ""
}

func (r *ref) constant() string {
	if r.isP('{') && r.cfg.permissive {
		r.enter(ntAggr)
		defer r.leave()
		if r.peek(1).is('}') {
			r.take()
			r.take()
			return "{}"
		}
		return r.aggregate()
	}
	if r.isP('[') && r.cfg.permissive {
		r.enter(ntList)
		defer r.leave()
		r.take()
		if r.isP(']') {
			r.take()
			return "[]"
		}
		s := "[" + r.constant()
		for r.isP(',') {
			r.take()
			s += "," + r.constant()
		}
		r.punct(']')
		return s + "]"
	}
	r.enter(ntConst)
	s := r.scalar()
	r.leave()
	return s
}

func (r *ref) aggregate() string {
	s := r.punct('{').text
	for {
		s += r.expect(kIdent).text
		semi := false
		switch {
		case r.isP(':'):
			r.take()
			s += ":"
			semi = r.isP('{')
		case r.isP('{'):
		default:
			r.fail()
		}
		s += r.constant()
		if semi && r.isP(';') {
			s += r.take().text
		}
		switch {
		case r.isP(',') || r.isP(';'):
			s += r.take().text
			if r.isP('}') {
				return s + r.take().text
			}
		case r.isP('}'):
			return s + r.take().text
		default:
			s += "\n"
		}
	}
}

// ---- statements -----------------------------------------------------------

func (r *ref) semi() { r.punct(';') }

func (r *ref) option() *parser.Option {
	r.enter(ntOption)
	defer r.leave()
	start := r.take().pos
	name := r.optName()
	r.punct('=')
	c := r.constant()
	r.semi()
	return &parser.Option{OptionName: name, Constant: c, Meta: r.from(start)}
}

func (r *ref) optionList() (names, consts []string) {
	if !r.isP('[') {
		return
	}
	r.enter(ntFieldOpts)
	defer r.leave()
	r.take()
	for {
		n := r.optName()
		r.punct('=')
		c := r.constant()
		names = append(names, n)
		consts = append(consts, c)
		if r.isP(',') {
			r.take()
			continue
		}
		r.punct(']')
		return
	}
}

func (r *ref) fieldOptions() []*parser.FieldOption {
	ns, cs := r.optionList()
	var out []*parser.FieldOption
	for i := range ns {
		out = append(out, &parser.FieldOption{OptionName: ns[i], Constant: cs[i]})
	}
	return out
}

func (r *ref) label() (rep, req, opt bool) {
	switch {
	case r.isKw("repeated"):
		rep = true
	case r.isKw("required"):
		req = true
	case r.isKw("optional"):
		opt = true
	default:
		return
	}
	r.take()
	return
}

func capital(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

// groupAhead: an (unlabelled) group starts at the current token.
func (r *ref) groupAhead() bool {
	return r.isKw("group") && r.peek(1).kind == kIdent && capital(r.peek(1).text) &&
		r.peek(2).is('=') && r.peek(3).kind == kInt && r.peek(4).is('{')
}

// fieldOrGroup = [label] ( type name "=" int [options] ";" | "group" Name "=" int messageBody )
func (r *ref) fieldOrGroup(groups bool) parser.Visitee {
	r.enter(ntField)
	defer r.leave()
	start := r.cur().pos
	rep, req, opt := r.label()
	if groups && r.groupAhead() {
		r.enter(ntGroup)
		defer r.leave()
		r.take()
		g := &parser.GroupField{IsRepeated: rep, IsRequired: req, IsOptional: opt}
		g.GroupName = r.take().text
		r.take()
		g.FieldNumber = r.take().text
		var last meta.Position
		g.MessageBody, g.InlineCommentBehindLeftCurly, last = r.messageBody()
		g.Meta = meta.Meta{Pos: start, LastPos: last}
		return g
	}
	f := &parser.Field{IsRepeated: rep, IsRequired: req, IsOptional: opt}
	f.Type = r.fieldType()
	f.FieldName = r.expect(kIdent).text
	r.punct('=')
	f.FieldNumber = r.expect(kInt).text
	f.FieldOptions = r.fieldOptions()
	r.semi()
	f.Meta = r.from(start)
	return f
}

func (r *ref) mapField() *parser.MapField {
	r.enter(ntMap)
	defer r.leave()
	start := r.take().pos
	r.punct('<')
	m := &parser.MapField{}
	if !r.kind(kIdent) || !refKeyTypes[r.cur().text] {
		r.fail()
	}
	m.KeyType = r.take().text
	r.punct(',')
	m.Type = r.fieldType()
	r.punct('>')
	m.MapName = r.expect(kIdent).text
	r.punct('=')
	m.FieldNumber = r.expect(kInt).text
	m.FieldOptions = r.fieldOptions()
	r.semi()
	m.Meta = r.from(start)
	return m
}

func (r *ref) oneof() *parser.Oneof {
	r.enter(ntOneof)
	defer r.leave()
	start := r.take().pos
	o := &parser.Oneof{OneofName: r.expect(kIdent).text}
	r.punct('{')
	o.InlineCommentBehindLeftCurly = r.inline()
	for !r.isP('}') {
		cs := r.leading()
		switch {
		case r.isP(';'):
			r.take()
		case r.isKw("option"):
			op := r.option()
			op.Comments = cs
			op.InlineComment = r.inline()
			o.Options = append(o.Options, op)
		default:
			r.enter(ntOneofField)
			f := &parser.OneofField{}
			fs := r.cur().pos
			f.Type = r.fieldType()
			f.FieldName = r.expect(kIdent).text
			r.punct('=')
			f.FieldNumber = r.expect(kInt).text
			f.FieldOptions = r.fieldOptions()
			r.semi()
			f.Meta = r.from(fs)
			f.Comments = cs
			r.leave()
			f.InlineComment = r.inline()
			o.OneofFields = append(o.OneofFields, f)
		}
	}
	last := r.closing()
	o.Meta = meta.Meta{Pos: start, LastPos: last}
	return o
}

func (r *ref) rangeOf() *parser.Range {
	r.enter(ntRange)
	defer r.leave()
	g := &parser.Range{Begin: r.expect(kInt).text}
	if r.isKw("to") {
		r.take()
		if !r.kind(kInt) && !r.isKw("max") {
			r.fail()
		}
		g.End = r.take().text
	}
	return g
}

func (r *ref) ranges() []*parser.Range {
	out := []*parser.Range{r.rangeOf()}
	for r.isP(',') {
		r.take()
		out = append(out, r.rangeOf())
	}
	return out
}

func (r *ref) reserved() *parser.Reserved {
	r.enter(ntReserved)
	defer r.leave()
	start := r.take().pos
	v := &parser.Reserved{}
	if r.kind(kInt) {
		v.Ranges = r.ranges()
	} else {
		for {
			if !r.kind(kStr) && !r.kind(kIdent) {
				r.fail()
			}
			v.FieldNames = append(v.FieldNames, r.take().text)
			if r.isP(',') {
				r.take()
				continue
			}
			if !r.kind(kStr) && !r.kind(kIdent) {
				break
			}
		}
	}
	r.semi()
	v.Meta = r.from(start)
	return v
}

func (r *ref) declaration() *parser.Declaration {
	r.enter(ntDecl)
	defer r.leave()
	if !r.isKw("declaration") {
		r.fail()
	}
	start := r.take().pos
	r.punct('=')
	r.punct('{')
	d := &parser.Declaration{InlineCommentBehindLeftCurly: r.inline()}
	seen := map[string]bool{}
	for first := true; !r.isP('}'); first = false {
		if !first && r.isP(',') {
			r.take()
		}
		key := r.cur().text
		if r.cur().kind != kIdent || seen[key] {
			r.fail()
		}
		switch key {
		case "number", "full_name", "type", "repeated", "reserved":
		default:
			r.fail()
		}
		seen[key] = true
		r.take()
		r.punct(':')
		switch key {
		case "number":
			d.Number = r.expect(kInt).text
		case "full_name":
			d.FullName = r.expect(kStr).text
		case "type":
			d.Type = r.expect(kStr).text
		default:
			if !r.isKw("true") && !r.isKw("false") {
				r.fail()
			}
			v := r.take().text == "true"
			if key == "repeated" {
				d.Repeated = v
			} else {
				d.Reserved = v
			}
		}
	}
	r.take()
	d.Meta = r.from(start)
	return d
}

func (r *ref) extensions() *parser.Extensions {
	r.enter(ntExtensions)
	defer r.leave()
	start := r.take().pos
	e := &parser.Extensions{Ranges: r.ranges()}
	if r.isP('[') {
		r.take()
		e.InlineCommentBehindLeftSquare = r.inline()
		for {
			cs := r.leading()
			d := r.declaration()
			d.Comments = cs
			e.Declarations = append(e.Declarations, d)
			if !r.isP(',') && !r.isP(']') {
				r.fail()
			}
			end := r.take().is(']')
			d.InlineComment = r.inline()
			if end {
				break
			}
		}
	}
	r.semi()
	e.Meta = r.from(start)
	return e
}

func (r *ref) messageBody() (body []parser.Visitee, curly *parser.Comment, last meta.Position) {
	r.enter(ntMsgBody)
	defer r.leave()
	r.punct('{')
	curly = r.inline()
	for {
		cs := r.leading()
		t := r.cur()
		switch {
		case t.is('}'):
			body = r.left(cs, body)
			last = r.closing()
			return
		case t.is(';'):
			body = r.left(cs, body)
			r.take()
			body = append(body, &parser.EmptyStatement{InlineComment: r.inline()})
		case t.kw("enum"):
			n := r.enum()
			n.Comments, n.InlineComment = cs, r.inline()
			body = append(body, n)
		case t.kw("message"):
			n := r.message()
			n.Comments, n.InlineComment = cs, r.inline()
			body = append(body, n)
		case t.kw("option"):
			n := r.option()
			n.Comments, n.InlineComment = cs, r.inline()
			body = append(body, n)
		case t.kw("oneof"):
			n := r.oneof()
			n.Comments, n.InlineComment = cs, r.inline()
			body = append(body, n)
		case t.kw("map"):
			n := r.mapField()
			n.Comments, n.InlineComment = cs, r.inline()
			body = append(body, n)
		case t.kw("extend"):
			n := r.extend()
			n.Comments, n.InlineComment = cs, r.inline()
			body = append(body, n)
		case t.kw("reserved"):
			n := r.reserved()
			n.Comments, n.InlineComment = cs, r.inline()
			body = append(body, n)
		case t.kw("extensions"):
			n := r.extensions()
			n.Comments, n.InlineComment = cs, r.inline()
			body = append(body, n)
		default:
			n := r.fieldOrGroup(true)
			switch f := n.(type) {
			case *parser.Field:
				f.Comments, f.InlineComment = cs, r.inline()
			case *parser.GroupField:
				f.Comments, f.InlineComment = cs, r.inline()
			}
			body = append(body, n)
		}
	}
}

func (r *ref) message() *parser.Message {
	r.enter(ntMessage)
	defer r.leave()
	start := r.take().pos
	m := &parser.Message{MessageName: r.expect(kIdent).text}
	var last meta.Position
	m.MessageBody, m.InlineCommentBehindLeftCurly, last = r.messageBody()
	m.Meta = meta.Meta{Pos: start, LastPos: last}
	return m
}

func (r *ref) extend() *parser.Extend {
	r.enter(ntExtend)
	defer r.leave()
	start := r.take().pos
	e := &parser.Extend{MessageType: r.messageType()}
	r.punct('{')
	e.InlineCommentBehindLeftCurly = r.inline()
	for {
		cs := r.leading()
		switch {
		case r.isP('}'):
			e.ExtendBody = r.left(cs, e.ExtendBody)
			last := r.closing()
			e.Meta = meta.Meta{Pos: start, LastPos: last}
			return e
		case r.isP(';'):
			e.ExtendBody = r.left(cs, e.ExtendBody)
			r.take()
			e.ExtendBody = append(e.ExtendBody, &parser.EmptyStatement{InlineComment: r.inline()})
		default:
			f := r.fieldOrGroup(false).(*parser.Field)
			f.Comments, f.InlineComment = cs, r.inline()
			e.ExtendBody = append(e.ExtendBody, f)
		}
	}
}

func (r *ref) enum() *parser.Enum {
	r.enter(ntEnum)
	defer r.leave()
	start := r.take().pos
	e := &parser.Enum{EnumName: r.expect(kIdent).text}
	r.punct('{')
	e.InlineCommentBehindLeftCurly = r.inline()
	for {
		cs := r.leading()
		switch {
		case r.isP('}'):
			e.EnumBody = r.left(cs, e.EnumBody)
			last := r.closing()
			e.Meta = meta.Meta{Pos: start, LastPos: last}
			return e
		case r.isP(';'):
			e.EnumBody = r.left(cs, e.EnumBody)
			r.take()
			e.EnumBody = append(e.EnumBody, &parser.EmptyStatement{InlineComment: r.inline()})
		case r.isKw("option"):
			n := r.option()
			n.Comments, n.InlineComment = cs, r.inline()
			e.EnumBody = append(e.EnumBody, n)
		case r.isKw("reserved"):
			n := r.reserved()
			n.Comments, n.InlineComment = cs, r.inline()
			e.EnumBody = append(e.EnumBody, n)
		default:
			r.enter(ntEnumField)
			fs := r.cur().pos
			f := &parser.EnumField{Ident: r.expect(kIdent).text}
			r.punct('=')
			if r.isP('-') {
				r.take()
				f.Number = "-"
			}
			f.Number += r.expect(kInt).text
			ns, vs := r.optionList()
			for i := range ns {
				f.EnumValueOptions = append(f.EnumValueOptions, &parser.EnumValueOption{OptionName: ns[i], Constant: vs[i]})
			}
			r.semi()
			f.Meta = r.from(fs)
			r.leave()
			f.Comments, f.InlineComment = cs, r.inline()
			e.EnumBody = append(e.EnumBody, f)
		}
	}
}

func (r *ref) rpcType() (stream bool, typ string, m meta.Meta) {
	r.enter(ntRPCType)
	defer r.leave()
	start := r.punct('(').pos
	if r.isKw("stream") {
		r.take()
		stream = true
	}
	typ = r.messageType()
	r.punct(')')
	m = r.from(start)
	return
}

func (r *ref) rpc() *parser.RPC {
	r.enter(ntRPC)
	defer r.leave()
	startTok := r.i
	start := r.take().pos
	v := &parser.RPC{RPCName: r.expect(kIdent).text, RPCRequest: &parser.RPCRequest{}, RPCResponse: &parser.RPCResponse{}}
	v.RPCRequest.IsStream, v.RPCRequest.MessageType, v.RPCRequest.Meta = r.rpcType()
	if !r.isKw("returns") {
		r.fail()
	}
	r.take()
	v.RPCResponse.IsStream, v.RPCResponse.MessageType, v.RPCResponse.Meta = r.rpcType()
	if !r.isP('{') && !r.isP(';') {
		r.fail()
	}
	for k := range r.cmts {
		if b := r.cmts[k].before; b > startTok && b <= r.i {
			v.EmbeddedComments = append(v.EmbeddedComments, r.cmts[k].node())
		}
	}
	if r.take().is(';') {
		v.Meta = r.from(start)
		return v
	}
	r.enter(ntRPCBlock)
	v.InlineCommentBehindLeftCurly = r.inline()
	for !r.isP('}') {
		cs := r.leading()
		if r.isP(';') {
			r.take()
			continue
		}
		if !r.isKw("option") {
			r.fail()
		}
		o := r.option()
		o.Comments, o.InlineComment = cs, r.inline()
		if r.cfg.dropRPC {
			o.Comments, o.InlineComment = nil, nil
		}
		v.Options = append(v.Options, o)
	}
	last := r.closing()
	r.leave()
	v.Meta = meta.Meta{Pos: start, LastPos: last}
	return v
}

func (r *ref) service() *parser.Service {
	r.enter(ntService)
	defer r.leave()
	start := r.take().pos
	s := &parser.Service{ServiceName: r.expect(kIdent).text}
	r.punct('{')
	s.InlineCommentBehindLeftCurly = r.inline()
	for {
		cs := r.leading()
		switch {
		case r.isP('}'):
			s.ServiceBody = r.left(cs, s.ServiceBody)
			last := r.closing()
			s.Meta = meta.Meta{Pos: start, LastPos: last}
			return s
		case r.isP(';'):
			s.ServiceBody = r.left(cs, s.ServiceBody)
			r.take()
			s.ServiceBody = append(s.ServiceBody, &parser.EmptyStatement{InlineComment: r.inline()})
		case r.isKw("option"):
			n := r.option()
			n.Comments, n.InlineComment = cs, r.inline()
			s.ServiceBody = append(s.ServiceBody, n)
		case r.isKw("rpc"):
			n := r.rpc()
			n.Comments, n.InlineComment = cs, r.inline()
			s.ServiceBody = append(s.ServiceBody, n)
		default:
			r.fail()
		}
	}
}

func (r *ref) importStmt() *parser.Import {
	r.enter(ntImport)
	defer r.leave()
	start := r.take().pos
	v := &parser.Import{}
	if r.isKw("public") {
		v.Modifier = parser.ImportModifierPublic
		r.take()
	} else if r.isKw("weak") {
		v.Modifier = parser.ImportModifierWeak
		r.take()
	}
	v.Location = r.expect(kStr).text
	r.semi()
	v.Meta = r.from(start)
	return v
}

func (r *ref) packageStmt() *parser.Package {
	r.enter(ntPackage)
	defer r.leave()
	start := r.take().pos
	v := &parser.Package{Name: r.fullIdent()}
	r.semi()
	v.Meta = r.from(start)
	return v
}

func isDecimalLit(s string) bool {
	if s == "" || s[0] < '1' || s[0] > '9' {
		return false
	}
	for _, c := range s {
		if !rDigit(c) {
			return false
		}
	}
	return true
}

func (r *ref) syntaxStmt() *parser.Syntax {
	r.enter(ntSyntax)
	defer r.leave()
	start := r.take().pos
	r.punct('=')
	t := r.cur()
	if t.kind != kStr {
		r.fail()
	}
	v := t.text[1 : len(t.text)-1]
	if v != "proto2" && v != "proto3" {
		r.fail()
	}
	r.take()
	r.semi()
	return &parser.Syntax{ProtobufVersion: v, ProtobufVersionQuote: t.text, Meta: r.from(start)}
}

func (r *ref) editionStmt() *parser.Edition {
	r.enter(ntEdition)
	defer r.leave()
	start := r.take().pos
	r.punct('=')
	t := r.cur()
	if t.kind != kStr {
		r.fail()
	}
	v := t.text[1 : len(t.text)-1]
	if !isDecimalLit(v) {
		r.fail()
	}
	r.take()
	r.semi()
	return &parser.Edition{Edition: v, EditionQuote: t.text, Meta: r.from(start)}
}

func (r *ref) file() *parser.Proto {
	r.enter(ntFile)
	defer r.leave()
	p := &parser.Proto{Meta: &parser.ProtoMeta{Filename: r.cfg.filename}}
	if t := r.cur(); t.kind == kPunct && t.text == "\uFEFF" && t.pos.Offset == 0 {
		r.take()
	}
	cs := r.leading()
	if r.isKw("syntax") {
		p.Syntax = r.syntaxStmt()
		p.Syntax.Comments, p.Syntax.InlineComment = cs, r.inline()
		cs = r.leading()
	}
	if r.isKw("edition") {
		p.Edition = r.editionStmt()
		p.Edition.Comments, p.Edition.InlineComment = cs, r.inline()
		cs = r.leading()
	}
	for {
		t := r.cur()
		switch {
		case t.kind == kEOF:
			p.ProtoBody = r.left(cs, p.ProtoBody)
			return p
		case t.is(';'):
			p.ProtoBody = r.left(cs, p.ProtoBody)
			r.take()
			p.ProtoBody = append(p.ProtoBody, &parser.EmptyStatement{InlineComment: r.inline()})
		case t.kw("import"):
			n := r.importStmt()
			n.Comments, n.InlineComment = cs, r.inline()
			p.ProtoBody = append(p.ProtoBody, n)
		case t.kw("package"):
			n := r.packageStmt()
			n.Comments, n.InlineComment = cs, r.inline()
			p.ProtoBody = append(p.ProtoBody, n)
		case t.kw("option"):
			n := r.option()
			n.Comments, n.InlineComment = cs, r.inline()
			p.ProtoBody = append(p.ProtoBody, n)
		case t.kw("message"):
			n := r.message()
			n.Comments, n.InlineComment = cs, r.inline()
			p.ProtoBody = append(p.ProtoBody, n)
		case t.kw("enum"):
			n := r.enum()
			n.Comments, n.InlineComment = cs, r.inline()
			p.ProtoBody = append(p.ProtoBody, n)
		case t.kw("service"):
			n := r.service()
			n.Comments, n.InlineComment = cs, r.inline()
			p.ProtoBody = append(p.ProtoBody, n)
		case t.kw("extend"):
			n := r.extend()
			n.Comments, n.InlineComment = cs, r.inline()
			p.ProtoBody = append(p.ProtoBody, n)
		default:
			r.fail()
		}
		cs = r.leading()
	}
}

// parse runs the model on src.  rej is the index of the offending token, -1
// if the input is accepted.
func (r *ref) parse(src string, cfg refCfg) (p *parser.Proto, rej int) {
	r.lexed.run(src, cfg.filename)
	return r.reparse(cfg)
}

// reparse parses the tokens already present under another configuration
// (with the same filename).
func (r *ref) reparse(cfg refCfg) (p *parser.Proto, rej int) {
	rej = -1
	r.try(cfg, func() { p = r.file() }, &rej)
	if rej >= 0 {
		p = nil
	}
	return
}

func (r *ref) try(cfg refCfg, f func(), rej *int) {
	r.cfg = cfg
	r.i, r.ci, r.absorbed, r.last = 0, 0, 0, 0
	r.stack = r.stack[:0]
	*rej = -1
	defer func() {
		if e := recover(); e != nil {
			x, ok := e.(reject)
			if !ok {
				panic(e)
			}
			*rej = x.tok
		}
	}()
	f()
}

// errRange is the range of offsets an error position may have.
func (r *ref) errRange(rej int) (lo, hi int) {
	if rej > 0 {
		lo = r.toks[rej-1].end
	}
	t := &r.toks[rej]
	hi = t.pos.Offset
	switch {
	case t.text != "" && t.text[0] == '.':
		// "." may continue a name; the digit behind it cannot
		hi++
	case t.kind == kStr && rej >= 2 && r.toks[rej-1].is('=') && (r.toks[rej-2].kw("syntax") || r.toks[rej-2].kw("edition")):
		// the version inside the quotes may be named
		hi = t.end
	}
	return
}
