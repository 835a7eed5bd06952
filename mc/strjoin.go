package main

import "strings"

// decodeStr decodes a string literal to the bytes it denotes.  ok is false if
// it has an escape the documented grammar does not define.
func decodeStr(lit string) (out []byte, ok bool) {
	ok = true
	s := lit[1 : len(lit)-1]
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c != '\\' {
			out = append(out, c)
			continue
		}
		i++
		if i >= len(s) {
			return out, false
		}
		switch c := s[i]; {
		case c == 'x' || c == 'X':
			v, n := 0, 0
			for n < 2 && rHex(byteAt(s, i+1)) {
				v = v*16 + hexVal(s[i+1])
				i++
				n++
			}
			if n == 0 {
				ok = false
			}
			out = append(out, byte(v))
		case rOct(rune(c)):
			v, n := int(c-'0'), 1
			for n < 3 && rOct(byteAt(s, i+1)) {
				v = v*8 + int(s[i+1]-'0')
				i++
				n++
			}
			out = append(out, byte(v))
		default:
			if k := strings.IndexByte("abfnrtv\\'\"", c); k >= 0 {
				out = append(out, "\a\b\f\n\r\t\v\\'\""[k])
			} else {
				ok = false
				out = append(out, '\\', c)
			}
		}
	}
	return
}

func hexVal(c byte) int {
	switch {
	case c <= '9':
		return int(c - '0')
	case c <= 'F':
		return int(c-'A') + 10
	}
	return int(c-'a') + 10
}

// joinStrings is the model of a merged literal: a marker plus the decoded
// bytes.  The literal the implementation returns is canonicalised in the same
// way before comparing (canonConst), because several spellings are right.
func joinStrings(pieces []string) string {
	var all []byte
	for _, p := range pieces {
		b, ok := decodeStr(p)
		if !ok {
			return "\x00?" // undefined escapes: not constrained
		}
		all = append(all, b...)
	}
	return "\x00J" + string(all) + "\x00E"
}
