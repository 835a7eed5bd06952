package main

// What an error says (C21).

import (
	"fmt"
	"strconv"
	"strings"
	"sync"

	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
)

// expectedTokens gives, for what an error may say was expected, texts which
// must all be possible there.  Descriptions which are not listed are not
// judged, except single characters, which stand for themselves.
var expectedTokens = map[string][]string{
	"ident": {"a"}, "TIDENT": {"a"}, "fullIdent": {"a"}, "type": {"a"}, "enumName": {"a"}, "messageName": {"a"}, "serviceName": {"a"},
	"oneofName": {"a"}, "groupName": {"A"}, "fieldName": {"a"}, "mapName": {"a"}, "rpcName": {"a"},
	"intLit": {"1"}, "fieldNumber": {"1"}, "number": {"1"}, "TINTLIT or TFLOATLIT": {"1", "1.5"}, "constant": {"1", "a", "'x'", "-1"},
	"strLit": {"'x'"}, "full_name string": {"'x'"}, "type string": {"'x'"}, "repeated bool": {"true"}, "reserved bool": {"false"},
	"returns": {"returns"}, "declaration": {"declaration"}, "package": {"package"}, "option": {"option"}, "enum": {"enum"}, "message": {"message"},
	"service": {"service"}, "rpc": {"rpc"}, "oneof": {"oneof"}, "map": {"map"}, "extend": {"extend"}, "extensions": {"extensions"}, "reserved": {"reserved"}, "group": {"group"}, `"import"`: {"import"},
	"weak, public or strLit": {"weak", "public", "'x'"}, "ident or left paren": {"a", "("}, "ident or bracedFullIdent": {"a", "(a)"},
	"{ or :": {":", "{"}, "{ or ;": {"{", ";"}, ", or ]": {",", "]"}, "keyType constant": {"int32", "string", "bool"}, `"intLit | "max"`: {"1", "max"},
}

var auxRefs = sync.Pool{New: func() interface{} { return new(ref) }}

// oSays: an error quotes the text at its position, and what it says was
// expected could be there.
func oSays(x *xc) *violation {
	if x.err == nil {
		return nil
	}
	me, ok := typedError(x.err)
	if !ok || me.Pos.Offset < 0 || me.Pos.Offset > len(x.src) {
		return nil // C11
	}
	bad := func(what string) *violation {
		return &violation{What: what, Got: fmt.Sprintf("found %q, expected %q, at offset %d: %v", me.Found, me.Expected, me.Pos.Offset, x.err)}
	}
	if s := me.Error(); !strings.Contains(s, strconv.Quote(me.Found)) || !strings.Contains(s, me.Expected) || !strings.Contains(x.err.Error(), s) {
		return bad("the text of the error does not say what was found and expected")
	}
	if me.Expected == "" {
		return bad("the error does not say what was expected")
	}
	f := me.Found
	if q, err := strconv.QuotedPrefix(f); err == nil && strings.HasPrefix(f[len(q):], "(Token=") {
		f, _ = strconv.Unquote(q)
		if !strings.HasSuffix(me.Found, "Pos="+me.Pos.String()+")") {
			return bad("the text of the error has another position than the error")
		}
	}
	if f == "" || !strings.HasPrefix(x.src[me.Pos.Offset:], f) {
		// the position may be the end of the token before
		t := &x.rf.toks[0]
		for i := range x.rf.toks {
			if t = &x.rf.toks[i]; t.pos.Offset >= me.Pos.Offset {
				break
			}
		}
		if !strings.HasPrefix(x.src[t.pos.Offset:], f) {
			return bad("the error quotes something else than the text at its position")
		}
		if f == "" && t.kind != kBad && t.kind != kEOF && t.text != "." {
			return bad("the error quotes nothing")
		}
	}
	if f != "" && !x.wholeToken(f, me.Pos.Offset) {
		return bad("the error quotes only a part of a token")
	}
	if x.rej < 0 {
		return nil // C01
	}
	es, ok := expectedTokens[me.Expected]
	if !ok {
		if len(me.Expected) != 1 {
			return nil
		}
		es = []string{me.Expected}
	}
	r := auxRefs.Get().(*ref)
	defer auxRefs.Put(r)
	before := x.src[:me.Pos.Offset]
	if x.rej > 0 && me.Pos.Offset < x.rf.toks[x.rej].pos.Offset {
		before = x.src[:x.rf.toks[x.rej-1].end]
	}
	version := x.rej >= 2 && x.rf.toks[x.rej-1].is('=') && (x.rf.toks[x.rej-2].kw("syntax") || x.rf.toks[x.rej-2].kw("edition"))
	for _, e := range es {
		forms := []string{e, " " + e}
		if version {
			forms = append(forms, `"`+e+`"`)
		}
		fits := false
		for _, f := range forms {
			if _, rej := r.parse(before+f, x.c.ref()); rej < 0 || r.toks[rej].kind == kEOF {
				fits = true
				break
			}
		}
		if !fits {
			return bad(fmt.Sprintf("what the error says was expected cannot be there: %s", e))
		}
	}
	return nil
}

// wholeToken: f is one token in some mode at or behind off, as far as the place
// of the first rejected token.
func (x *xc) wholeToken(f string, off int) bool {
	for i := 0; i < 3; i++ {
		var end int
		for _, m := range []scanner.Mode{0, scanner.ScanLit, scanner.ScanComment} {
			t := refScan(x.src, off, m)
			if t.text == f && !t.err {
				return true
			}
			if m == 0 {
				end = t.start
			}
		}
		if end <= off {
			break
		}
		off = end
	}
	return false
}

func init() {
	docBudgets["C21"] = docBudgets["C11"]
	checks["C21"] = modelCheck("C21", []cfg{cfgPF, cfgSF}, oSays)
}
