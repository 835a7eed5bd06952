package main

// Reference tokenizer.  It works on the whole text at once, knows no scanning
// modes and never puts anything back; it shares no code with /repo/lexer.

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

type tkind uint8

const (
	kEOF tkind = iota
	kIdent
	kInt
	kFloat
	kStr
	kPunct // one character
	kBad   // malformed string, number or comment; always followed by kEOF
)

type tok struct {
	kind tkind
	text string
	pos  meta.Position
	end  int // byte offset behind the token
}

type cmt struct {
	raw    string
	pos    meta.Position
	last   meta.Position
	before int // index of the token it precedes
}

type lexed struct {
	src  string
	toks []tok
	cmts []cmt
}

func rIdentStart(r rune) bool {
	return r == '_' || ('a' <= r && r <= 'z') || ('A' <= r && r <= 'Z')
}
func rDigit(r rune) bool { return '0' <= r && r <= '9' }
func rOct(r rune) bool   { return '0' <= r && r <= '7' }
func rHex(r rune) bool {
	return rDigit(r) || ('a' <= r && r <= 'f') || ('A' <= r && r <= 'F')
}

// at returns the byte at i or 0xff (never part of an ASCII construct).
func byteAt(s string, i int) rune {
	if i < len(s) {
		return rune(s[i])
	}
	return 0xff
}

// refNumber returns the length of the longest number literal at the start of
// s (which starts with a digit, or with '.'), whether it is a float, and ok.
func refNumber(s string) (n int, float bool, ok bool) {
	digits := func(i int) int {
		for rDigit(byteAt(s, i)) {
			i++
		}
		return i
	}
	exp := func(i int) (int, bool) { // at 'e'
		i++
		if c := byteAt(s, i); c == '+' || c == '-' {
			i++
		}
		j := digits(i)
		return j, j > i
	}
	isE := func(i int) bool { c := byteAt(s, i); return c == 'e' || c == 'E' }
	if s[0] == '.' {
		j := digits(1)
		if j == 1 {
			return j, true, false
		}
		if isE(j) {
			j, ok = exp(j)
			return j, true, ok
		}
		return j, true, true
	}
	if s[0] == '0' {
		if c := byteAt(s, 1); c == 'x' || c == 'X' {
			j := 2
			for rHex(byteAt(s, j)) {
				j++
			}
			return j, false, j > 2
		}
		if rDigit(byteAt(s, 1)) { // a leading zero makes it octal
			j := 1
			for rOct(byteAt(s, j)) {
				j++
			}
			return j, false, true
		}
	}
	j := digits(0)
	if byteAt(s, j) == '.' {
		j = digits(j + 1)
		if isE(j) {
			j, ok = exp(j)
			return j, true, ok
		}
		return j, true, true
	}
	if isE(j) {
		j, ok = exp(j)
		return j, true, ok
	}
	return j, false, true
}

// refString returns the length of the string literal at the start of s.
func refString(s string) (int, bool) {
	q := s[0]
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case q:
			return i + 1, true
		case '\n', 0:
			return i, false
		case '\\':
			if c := byteAt(s, i+1); c == '"' || c == '\'' || c == '\\' {
				i++
			}
		}
	}
	return len(s), false
}

// refComment returns the length of the comment at the start of s.
func refComment(s string) (int, bool) {
	if strings.HasPrefix(s, "//") {
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			return i, true
		}
		return len(s), true
	}
	if strings.HasPrefix(s, "/*") {
		if i := strings.Index(s[2:], "*/"); i >= 0 {
			return i + 4, true
		}
		return len(s), false
	}
	return 1, false
}

func (lx *lexed) run(src, filename string) {
	lx.src = src
	lx.toks = lx.toks[:0]
	lx.cmts = lx.cmts[:0]
	p := meta.Position{Filename: filename, Offset: 0, Line: 1, Column: 1}
	// adv moves p over n bytes and returns the position of the last character.
	adv := func(n int) (last meta.Position) {
		end := p.Offset + n
		for p.Offset < end {
			last = p
			c := src[p.Offset]
			if c == '\n' {
				p.Offset++
				p.Line++
				p.Column = 1
			} else if c < utf8.RuneSelf {
				p.Offset++
				p.Column++
			} else {
				_, sz := utf8.DecodeRuneInString(src[p.Offset:])
				p.Offset += sz
				p.Column++
			}
		}
		return last
	}
	add := func(k tkind, n int) {
		t := tok{kind: k, text: src[p.Offset : p.Offset+n], pos: p}
		adv(n)
		t.end = p.Offset
		lx.toks = append(lx.toks, t)
	}
	for p.Offset < len(src) {
		rest := src[p.Offset:]
		r, sz := utf8.DecodeRuneInString(rest)
		switch {
		case unicode.IsSpace(r):
			adv(sz)
		case rIdentStart(r):
			n := 1
			for n < len(rest) && (rIdentStart(rune(rest[n])) || rDigit(rune(rest[n]))) {
				n++
			}
			add(kIdent, n)
		case r == '/':
			n, ok := refComment(rest)
			if !ok {
				add(kBad, n)
				goto done
			}
			c := cmt{raw: rest[:n], pos: p, before: len(lx.toks)}
			c.last = adv(n)
			lx.cmts = append(lx.cmts, c)
		case r == '"' || r == '\'':
			n, ok := refString(rest)
			if !ok {
				add(kBad, n)
				goto done
			}
			add(kStr, n)
		case rDigit(r) || (r == '.' && rDigit(byteAt(rest, 1))):
			n, fl, ok := refNumber(rest)
			switch {
			case !ok:
				add(kBad, n)
				goto done
			case fl:
				add(kFloat, n)
			default:
				add(kInt, n)
			}
		default:
			add(kPunct, sz)
		}
	}
done:
	lx.toks = append(lx.toks, tok{kind: kEOF, pos: p, end: p.Offset})
}
