package main

// Canonical text of a tree.  Two trees are equal in a projection iff their
// dumps are equal; nil and empty slices are the same.

import (
	"fmt"
	"reflect"
	"strconv"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

type dflags uint

const (
	fPos        dflags = 1 << iota // Meta of declarations
	fCmt                           // attached comments and comment elements (text)
	fCmtPos                        // positions of comments
	fConst                         // option constants
	fFilename                      // filenames
	fNoBodyCmt                     // leave out the comment elements of bodies
	fStart                         // start positions of declarations
	fNoSvcEmpty                    // leave out the empty statements of services
	fStruct     = dflags(0)
	fAll        = fPos | fCmt | fCmtPos | fConst | fFilename
)

type dumper struct {
	b  []byte
	f  dflags
	sh *meta.Position // positions are given relative to this one
}

func (d *dumper) s(x string) { d.b = append(d.b, x...) }
func (d *dumper) q(x string) {
	d.b = append(d.b, ' ', '<')
	d.b = append(d.b, x...)
	d.b = append(d.b, '>')
}
func (d *dumper) bool(n string, v bool) {
	if v {
		d.b = append(d.b, ' ')
		d.b = append(d.b, n...)
	}
}
func (d *dumper) p(p meta.Position) {
	if d.sh != nil {
		p.Offset -= d.sh.Offset
		if p.Line == d.sh.Line {
			p.Column -= d.sh.Column - 1
		}
		p.Line -= d.sh.Line - 1
	}
	if d.f&fFilename != 0 {
		d.s(p.Filename)
	}
	d.b = append(d.b, '@')
	d.b = strconv.AppendInt(d.b, int64(p.Offset), 10)
	d.b = append(d.b, ':')
	d.b = strconv.AppendInt(d.b, int64(p.Line), 10)
	d.b = append(d.b, ':')
	d.b = strconv.AppendInt(d.b, int64(p.Column), 10)
}
func (d *dumper) meta(m meta.Meta) {
	if d.f&fStart != 0 {
		d.s(" ")
		d.p(m.Pos)
	}
	if d.f&fPos != 0 {
		d.s(" ")
		d.p(m.Pos)
		d.s("-")
		d.p(m.LastPos)
	}
}
func (d *dumper) comment(c *parser.Comment) {
	if c == nil {
		d.s("nil-comment")
		return
	}
	d.s("`")
	d.s(c.Raw)
	d.s("`")
	if d.f&fCmtPos != 0 {
		d.p(c.Meta.Pos)
		d.s("-")
		d.p(c.Meta.LastPos)
	}
}
func (d *dumper) cmts(tag string, cs []*parser.Comment) {
	if d.f&fCmt == 0 || len(cs) == 0 {
		return
	}
	d.s(" ")
	d.s(tag)
	d.s("[")
	for _, c := range cs {
		d.comment(c)
		d.s(",")
	}
	d.s("]")
}
func (d *dumper) cmt(tag string, c *parser.Comment) {
	if d.f&fCmt == 0 || c == nil {
		return
	}
	d.s(" ")
	d.s(tag)
	d.comment(c)
}
func (d *dumper) konst(c string) {
	if d.f&fConst != 0 {
		d.q(c)
	}
}
func (d *dumper) opts(os []*parser.Option) {
	for _, o := range os {
		d.node(o)
	}
}
func (d *dumper) fopts(os []*parser.FieldOption) {
	for _, o := range os {
		if o == nil {
			d.s(" nil-fopt")
			continue
		}
		d.s(" fo")
		d.q(o.OptionName)
		d.konst(o.Constant)
	}
}
func (d *dumper) body(bs []parser.Visitee) {
	d.s(" {\n")
	for _, b := range bs {
		if _, ok := b.(*parser.Comment); ok && d.f&fNoBodyCmt != 0 {
			continue
		}
		d.node(b)
	}
	d.s("}")
}

func isNilNode(n interface{}) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func (d *dumper) node(n interface{}) {
	if isNilNode(n) {
		d.s("nil-node\n")
		return
	}
	switch t := n.(type) {
	case *parser.Proto:
		d.s("proto")
		if d.f&fFilename != 0 && t.Meta != nil {
			d.q(t.Meta.Filename)
		}
		d.s("\n")
		if t.Syntax != nil {
			d.node(t.Syntax)
		}
		if t.Edition != nil {
			d.node(t.Edition)
		}
		d.body(t.ProtoBody)
	case *parser.Syntax:
		d.s("syntax")
		d.q(t.ProtobufVersion)
		d.q(t.ProtobufVersionQuote)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.Edition:
		d.s("edition")
		d.q(t.Edition)
		d.q(t.EditionQuote)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.Import:
		d.s("import ")
		d.b = strconv.AppendInt(d.b, int64(t.Modifier), 10)
		d.q(t.Location)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.Package:
		d.s("package")
		d.q(t.Name)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.Option:
		d.s("option")
		d.q(t.OptionName)
		d.konst(t.Constant)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.EmptyStatement:
		d.s("empty")
		d.cmt("I", t.InlineComment)
	case *parser.Comment:
		if d.f&fCmt == 0 {
			return
		}
		d.s("comment ")
		d.comment(t)
	case *parser.Message:
		d.s("message")
		d.q(t.MessageName)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
		d.cmt("L", t.InlineCommentBehindLeftCurly)
		d.body(t.MessageBody)
	case *parser.GroupField:
		d.s("group")
		d.bool("rep", t.IsRepeated)
		d.bool("req", t.IsRequired)
		d.bool("opt", t.IsOptional)
		d.q(t.GroupName)
		d.q(t.FieldNumber)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
		d.cmt("L", t.InlineCommentBehindLeftCurly)
		d.body(t.MessageBody)
	case *parser.Field:
		d.s("field")
		d.bool("rep", t.IsRepeated)
		d.bool("req", t.IsRequired)
		d.bool("opt", t.IsOptional)
		d.q(t.Type)
		d.q(t.FieldName)
		d.q(t.FieldNumber)
		d.fopts(t.FieldOptions)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.MapField:
		d.s("map")
		d.q(t.KeyType)
		d.q(t.Type)
		d.q(t.MapName)
		d.q(t.FieldNumber)
		d.fopts(t.FieldOptions)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.Oneof:
		d.s("oneof")
		d.q(t.OneofName)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
		d.cmt("L", t.InlineCommentBehindLeftCurly)
		d.s(" {\n")
		for _, f := range t.OneofFields {
			d.node(f)
		}
		d.s("|\n")
		d.opts(t.Options)
		d.s("}")
	case *parser.OneofField:
		d.s("ofield")
		d.q(t.Type)
		d.q(t.FieldName)
		d.q(t.FieldNumber)
		d.fopts(t.FieldOptions)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.Reserved:
		d.s("reserved")
		for _, r := range t.Ranges {
			d.rng(r)
		}
		for _, n := range t.FieldNames {
			d.s(" name")
			d.q(n)
		}
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.Extensions:
		d.s("extensions")
		for _, r := range t.Ranges {
			d.rng(r)
		}
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
		d.cmt("L", t.InlineCommentBehindLeftSquare)
		d.s(" [\n")
		for _, x := range t.Declarations {
			d.node(x)
		}
		d.s("]")
	case *parser.Declaration:
		d.s("declaration")
		d.q(t.Number)
		d.q(t.FullName)
		d.q(t.Type)
		d.bool("rep", t.Repeated)
		d.bool("res", t.Reserved)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
		d.cmt("L", t.InlineCommentBehindLeftCurly)
	case *parser.Extend:
		d.s("extend")
		d.q(t.MessageType)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
		d.cmt("L", t.InlineCommentBehindLeftCurly)
		d.body(t.ExtendBody)
	case *parser.Enum:
		d.s("enum")
		d.q(t.EnumName)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
		d.cmt("L", t.InlineCommentBehindLeftCurly)
		d.body(t.EnumBody)
	case *parser.EnumField:
		d.s("efield")
		d.q(t.Ident)
		d.q(t.Number)
		for _, o := range t.EnumValueOptions {
			if o == nil {
				d.s(" nil-eopt")
				continue
			}
			d.s(" eo")
			d.q(o.OptionName)
			d.konst(o.Constant)
		}
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
	case *parser.Service:
		d.s("service")
		d.q(t.ServiceName)
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
		d.cmt("L", t.InlineCommentBehindLeftCurly)
		if d.f&fNoSvcEmpty != 0 {
			d.s(" {\n")
			for _, b := range t.ServiceBody {
				if _, ok := b.(*parser.EmptyStatement); !ok {
					d.node(b)
				}
			}
			d.s("}")
			break
		}
		d.body(t.ServiceBody)
	case *parser.RPC:
		d.s("rpc")
		d.q(t.RPCName)
		if t.RPCRequest == nil {
			d.s(" nil-req")
		} else {
			d.bool("stream", t.RPCRequest.IsStream)
			d.q(t.RPCRequest.MessageType)
			d.meta(t.RPCRequest.Meta)
		}
		d.s(" ->")
		if t.RPCResponse == nil {
			d.s(" nil-resp")
		} else {
			d.bool("stream", t.RPCResponse.IsStream)
			d.q(t.RPCResponse.MessageType)
			d.meta(t.RPCResponse.Meta)
		}
		d.meta(t.Meta)
		d.cmts("C", t.Comments)
		d.cmt("I", t.InlineComment)
		d.cmt("L", t.InlineCommentBehindLeftCurly)
		d.cmts("E", t.EmbeddedComments)
		d.s(" [\n")
		d.opts(t.Options)
		d.s("]")
	default:
		d.s(fmt.Sprintf("foreign-node %T", n))
	}
	d.s("\n")
}

func (d *dumper) rng(r *parser.Range) {
	if r == nil {
		d.s(" nil-range")
		return
	}
	d.s(" r")
	d.q(r.Begin)
	if r.End != "" {
		d.q(r.End)
	}
}

// dumpFrom dumps with positions relative to from.
func dumpFrom(n interface{}, f dflags, from meta.Position) string {
	d := dumper{f: f, sh: &from}
	d.node(n)
	return string(d.b)
}

func dump(n interface{}, f dflags) string {
	var d dumper
	d.f = f
	d.node(n)
	return string(d.b)
}

// constants lists every option constant of a tree in a fixed order.
func constants(n interface{}, out []string) []string {
	if isNilNode(n) {
		return out
	}
	fo := func(os []*parser.FieldOption) {
		for _, o := range os {
			if o != nil {
				out = append(out, o.Constant)
			}
		}
	}
	bd := func(bs []parser.Visitee) {
		for _, b := range bs {
			out = constants(b, out)
		}
	}
	switch t := n.(type) {
	case *parser.Proto:
		bd(t.ProtoBody)
	case *parser.Option:
		out = append(out, t.Constant)
	case *parser.Message:
		bd(t.MessageBody)
	case *parser.GroupField:
		bd(t.MessageBody)
	case *parser.Extend:
		bd(t.ExtendBody)
	case *parser.Enum:
		bd(t.EnumBody)
	case *parser.Service:
		bd(t.ServiceBody)
	case *parser.Field:
		fo(t.FieldOptions)
	case *parser.MapField:
		fo(t.FieldOptions)
	case *parser.OneofField:
		fo(t.FieldOptions)
	case *parser.Oneof:
		for _, f := range t.OneofFields {
			out = constants(f, out)
		}
		for _, o := range t.Options {
			out = constants(o, out)
		}
	case *parser.EnumField:
		for _, o := range t.EnumValueOptions {
			if o != nil {
				out = append(out, o.Constant)
			}
		}
	case *parser.RPC:
		for _, o := range t.Options {
			out = constants(o, out)
		}
	}
	return out
}

// constEq: got denotes what the model constant want denotes.
func constEq(want, got string) bool {
	for {
		i := indexNUL(want)
		if i < 0 {
			return want == got
		}
		if len(got) < i || got[:i] != want[:i] {
			return false
		}
		want, got = want[i:], got[i:]
		if want[1] == '?' {
			return true
		}
		end := 2
		for !(want[end] == 0 && end+1 < len(want) && want[end+1] == 'E' && (end+2 == len(want) || joinEnd(want[end+2:]))) {
			end++
			if end >= len(want) {
				return false
			}
		}
		data := want[2:end]
		want = want[end+2:]
		if got == "" || (got[0] != '"' && got[0] != '\'') {
			return false
		}
		n, ok := refString(got)
		if !ok {
			return false
		}
		b, ok := decodeStr(got[:n])
		if !ok || string(b) != data {
			return false
		}
		got = got[n:]
	}
}

// joinEnd: what may follow a literal inside a constant.
func joinEnd(s string) bool {
	switch s[0] {
	case ',', ';', '}', ']', '\n':
		return true
	}
	return false
}

func indexNUL(s string) int {
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			return i
		}
	}
	return -1
}
