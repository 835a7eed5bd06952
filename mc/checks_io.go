package main

// C08 and C09: the environment is the reader.

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"testing/iotest"
	"unicode/utf8"

	"github.com/yoheimuta/go-protoparser/v4/parser"
	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// scriptReader delivers src in pieces of the given sizes (0: an empty read),
// then the rest as one piece, then ends with err.
type scriptReader struct {
	src   string
	sizes []int
	chunk int   // if > 0, every piece has at most this size
	err   error // what comes at the end
	with  bool  // err comes together with the last data
	after int   // what follows err: 0 err again, 1 end of file, 2 more data
	junk  bool  // use the rest of the buffer as scratch space
	more  string

	failed bool
}

func (s *scriptReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.failed {
		switch s.after {
		case 1:
			return 0, io.EOF
		case 2:
			if s.more == "" {
				return 0, io.EOF
			}
			n := copy(p, s.more)
			s.more = s.more[n:]
			return n, nil
		}
		return 0, s.err
	}
	if len(s.src) == 0 && len(s.sizes) == 0 {
		s.failed = true
		return 0, s.err
	}
	n := len(s.src)
	if len(s.sizes) > 0 {
		n = s.sizes[0]
		if n > len(s.src) {
			n = len(s.src)
		}
	}
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	full := n
	if n > len(p) {
		n = len(p)
	}
	if len(s.sizes) > 0 {
		if n < full {
			s.sizes[0] -= n
		} else {
			s.sizes = s.sizes[1:]
		}
	}
	copy(p, s.src[:n])
	s.src = s.src[n:]
	if s.junk {
		for i := n; i < len(p); i++ {
			p[i] = ";}\n"[i%3]
		}
	}
	if s.with && len(s.src) == 0 && len(s.sizes) == 0 && n > 0 {
		s.failed = true
		return n, s.err
	}
	return n, nil
}

// ---- C08 ---------------------------------------------------------------------

var errCustom = errors.New("the disk is on fire")

type tempErr struct{}

func (tempErr) Error() string   { return "try again" }
func (tempErr) Timeout() bool   { return true }
func (tempErr) Temporary() bool { return true }

var readErrs = []error{errCustom, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, tempErr{}}

// isEOFErr claims to be io.EOF without being it.
type isEOFErr struct{}

func (isEOFErr) Error() string   { return "EOF" }
func (isEOFErr) Is(e error) bool { return e == io.EOF }

var moreErrs = []error{fmt.Errorf("read: %w", io.EOF), isEOFErr{}, errors.New("EOF"), &os.PathError{Op: "read", Path: "a", Err: syscall.EIO}, syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded, os.ErrClosed,
	context.Canceled, context.DeadlineExceeded, io.ErrShortBuffer, io.ErrShortWrite, bufio.ErrBufferFull, bufio.ErrNegativeCount, bufio.ErrTooLong, bufio.ErrInvalidUnreadRune, &meta.Error{}, errors.New("")}

type fault struct {
	at    int
	err   error
	with  bool
	chunk int
	after int
}

func (f fault) String() string {
	return fmt.Sprintf("the reader fails at offset %d with %q (%s data, pieces of %d, afterwards %s)", f.at, f.err, map[bool]string{true: "together with the last", false: "after the"}[f.with], f.chunk,
		[]string{"the same error", "end of file", "the rest of the data"}[f.after])
}
func (f fault) reader(src string) *scriptReader {
	return &scriptReader{src: src[:f.at], err: f.err, with: f.with, chunk: f.chunk, after: f.after, more: src[f.at:]}
}

func (w *Worker) parseReader(desc, src string, rd func() io.Reader, c cfg) (*parser.Proto, error, bool) {
	w.begin(desc, src)
	p, err := rawParseReader(rd(), c)
	w.end()
	if pe, ok := err.(*panicErr); ok {
		w.fail(violation{What: "Parse panics: " + desc, Config: c.String(), Input: src, Got: pe.Error() + "\n" + pe.stack,
			again: func() bool { _, err := rawParseReader(rd(), c); _, ok := err.(*panicErr); return ok }})
		return nil, err, false
	}
	return p, err, true
}

// faultCase fails the reader at every offset of src.
func faultCase(errs []error, chunks []int, afters, lo, step int) func(w *Worker, src string) {
	return func(w *Worker, src string) {
		for at := lo; at <= len(src); at += step {
			if w.stopped() {
				return
			}
			_, rej := w.aux.parse(src[:at], cfgP.ref())
			alone := rej < 0 // without the error this would be a whole file
			for ei, e := range errs {
				for _, with := range []bool{false, true} {
					for _, chunk := range chunks {
						for after := 0; after < afters; after++ {
							if after > 0 && ei > 0 {
								continue
							}
							f := fault{at, e, with, chunk, after}
							for _, c := range []cfg{cfgPB, cfgS} {
								p, err, ok := w.parseReader(f.String(), src, func() io.Reader { return f.reader(src) }, c)
								if !ok {
									return
								}
								if alone {
									w.distinct[hash64(fmt.Sprint(src[:at], "\x00", at, ei, with, chunk, after))] = struct{}{}
									w.note("failure behind a valid file")
								} else {
									w.note("failure inside a construct")
								}
								if err == nil || p != nil {
									w.fail(violation{What: "Parse succeeds although the reader failed", Config: c.String() + "; " + f.String(), Input: src,
										Want: "an error", Got: dump(p, 0), again: func() bool {
											p, err := rawParseReader(f.reader(src), c)
											return err == nil || p != nil
										}})
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// asRunes is what a reader of runes makes of bytes that are not UTF-8.
func asRunes(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

var endBytes = []string{"\x00", "\x1a", "\x04", "\x7f", "\ufeff", "\ufffd", "\xff", "\xc3", "\ufffe", "\u0085", "\x1a\x00", "\x00\n", "\xef\xbb", "\U0010ffff"}
var endTails = []string{"", "\n}garbage", "garbage"}

// endCase puts bytes that might be mistaken for an end of input everywhere.
func endCase(endBytes, endTails []string) func(w *Worker, src string) {
	return func(w *Worker, src string) { endCaseOf(w, src, endBytes, endTails) }
}

func endCaseOf(w *Worker, src string, endBytes, endTails []string) {
	for at := 0; at <= len(src); at++ {
		if at < len(src) && !utf8.RuneStart(src[at]) {
			continue
		}
		if w.stopped() {
			return
		}
		for _, b := range endBytes {
			for ti, tail := range endTails {
				doc := src[:at] + b + src[at:]
				if ti > 0 {
					doc = src[:at] + b + tail
				}
				c := cfgP
				if at&1 == 1 {
					c = cfgS
				}
				p, err, ok := w.parse(doc, c)
				if !ok {
					return
				}
				w.distinct[hash64(doc)] = struct{}{}
				if err != nil {
					w.note("unusual bytes: rejected")
					continue
				}
				w.note("unusual bytes: accepted")
				bad := func(r *ref, p *parser.Proto) (string, string, bool) {
					m, rej := r.parse(asRunes(doc), c.ref())
					if rej >= 0 {
						return describeRej(r, rej), "accepted: " + dump(p, 0), true
					}
					want, got := dump(m, fStruct), dump(p, fStruct)
					return want, got, want != got
				}
				if want, got, b := bad(&w.aux, p); b {
					w.fail(violation{What: "Parse succeeds without accounting for the whole input", Config: c.String(), Input: doc, Want: want, Got: got,
						again: func() bool {
							p, err := rawParse(doc, c)
							if err != nil {
								return false
							}
							_, _, b := bad(new(ref), p)
							return b
						}})
					return
				}
			}
		}
	}
}

// stuckReader delivers src, then nothing, without end.
type stuckReader struct{ src string }

func (s *stuckReader) Read(p []byte) (int, error) {
	n := copy(p, s.src)
	s.src = s.src[n:]
	return n, nil
}

const ruleFault = "a case is a document, an offset, an error value, a way of delivering it (with or after the last data, whole or bytewise) and what the reader does next; it is non-trivial if the data delivered before the failure is by itself a valid file (so that only the failure can make Parse fail) or, for the inputs with inserted bytes, always; cases are told apart by all these parts"

func init() {
	checks["C08"] = check{"fault_enumeration", ruleFault, func(r *Run) {
		small := []error{errCustom, io.ErrUnexpectedEOF}
		faults := func(name string, docs []string, errs []error, chunks []int, afters int) {
			const parts = 64
			r.Space(name, fmt.Sprintf("%d documents, a failure at every offset: %d error values, %d ways of delivery, %d continuations", len(docs), len(errs), 2*len(chunks), afters), len(docs)*parts, func(w *Worker, task int) {
				if task%parts == 0 {
					w.cases++
				}
				faultCase(errs, chunks, afters, task%parts, parts)(w, docs[task/parts])
			})
		}
		faults("fault/documents", validDocs, readErrs, []int{0, 1, 7}, 3)
		faults("fault/big", []string{bigDoc}, readErrs, []int{0, 1, 7}, 3)
		faults("fault/more-errors", append([]string{bigDoc}, validDocs...), moreErrs, []int{0}, 1)
		var td []string
		for _, d := range testdata() {
			if r.thorough() || len(d) < 6000 {
				td = append(td, d)
			}
		}
		faults("fault/testdata", td, readErrs[:1], []int{0}, 1)
		us := []uni{seqUni(2), formsUni(1), blocksUni(1), nestUni(2)}
		b := budgets{"comments": r.q(1, 2)}
		for _, c := range cctxs {
			c := c
			us = append(us, r.fit("comments", b, 2, 20, func(k int) uni { return viableTokens(c, k) })...)
		}
		for _, u := range us {
			u.name = "fault/" + u.name
			r.each([]uni{u}, faultCase(small[:r.q(1, 2)], []int{0}, r.q(1, 3), 0, 1))
		}
		if r.thorough() {
			for _, u := range []uni{seqUni(3), pairsUni(0), formsUni(2)} {
				u.name = "fault/deeper-" + u.name
				r.each([]uni{u}, faultCase(small[:1], []int{0}, 1, 0, 1))
			}
		}
		// around the sizes buffers have
		var big []string
		for _, n := range []int{4096, 8192} {
			for d := 0; d <= 24; d++ {
				big = append(big, pad(n-d)+"message M { int32 a = 1; }\n// end\n;")
			}
		}
		r.each([]uni{listUni("fault/buffer-boundary", big)}, func(w *Worker, src string) {
			tail := src[strings.Index(src, "message")-4:]
			for at := 0; at <= len(tail); at++ {
				f := fault{len(src) - len(tail) + at, errCustom, at&1 == 1, 0, 0}
				p, err, ok := w.parseReader(f.String(), src, func() io.Reader { return f.reader(src) }, cfgP)
				if !ok {
					return
				}
				w.distinct[hash64(fmt.Sprint(len(src), at))] = struct{}{}
				if err == nil || p != nil {
					w.fail(violation{What: "Parse succeeds although the reader failed", Config: f.String(), Input: src, Want: "an error",
						again: func() bool { p, err := rawParseReader(f.reader(src), cfgP); return err == nil || p != nil }})
					return
				}
			}
		})
		r.each([]uni{listUni("stuck-reader", append([]string{""}, validDocs...))}, func(w *Worker, src string) {
			p, err, ok := w.parseReader("the reader delivers nothing for ever", src, func() io.Reader { return &stuckReader{src} }, cfgP)
			if ok && (err == nil || p != nil) {
				w.fail(violation{What: "Parse succeeds although the reader never ended", Input: src, again: func() bool {
					p, err := rawParseReader(&stuckReader{src}, cfgP)
					return err == nil || p != nil
				}})
			}
		})
		ec := endCase(endBytes[:r.q(8, len(endBytes))], endTails[:r.q(2, 3)])
		r.each([]uni{listUni("unusual-bytes/documents", validDocs)}, endCase(endBytes, endTails))
		for _, u := range []uni{seqUni(1), blocksUni(r.q(0, 1)), nestUni(r.q(1, 2))} {
			u.name = "unusual-bytes/" + u.name
			r.each([]uni{u}, ec)
		}
		r.each([]uni{listUni("unusual-bytes/big", []string{bigDoc})}, endCase(endBytes[:r.q(3, len(endBytes))], endTails[:r.q(2, 3)]))
		if r.thorough() {
			r.each([]uni{listUni("unusual-bytes/testdata", testdata())}, endCase(endBytes, endTails))
		}
	}}
}

// ---- C09 ---------------------------------------------------------------------

type delivery struct {
	name string
	rd   func(src string) (io.Reader, func())
}

func plain(name string, f func(src string) io.Reader) delivery {
	return delivery{name, func(src string) (io.Reader, func()) { return f(src), nil }}
}

// onlyReader hides every method but Read.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

// runeReader has ReadRune, ReadByte and Read, all correct, and delivers
// pieces of at most two bytes through Read.
type runeReader struct{ *strings.Reader }

func (o runeReader) Read(p []byte) (int, error) {
	if len(p) > 2 {
		p = p[:2]
	}
	return o.Reader.Read(p)
}

func deliveries(thorough bool) []delivery {
	ds := []delivery{
		plain("strings.Reader", func(s string) io.Reader { return strings.NewReader(s) }),
		plain("bytes.Buffer", func(s string) io.Reader { return bytes.NewBufferString(s) }),
		plain("bytes.Reader behind an offset", func(s string) io.Reader {
			r := bytes.NewReader([]byte("message Q{" + s))
			r.Seek(10, io.SeekStart)
			return r
		}),
		plain("strings.Reader behind an offset", func(s string) io.Reader {
			r := strings.NewReader("\n\né;" + s)
			for i := 0; i < 4; i++ {
				r.ReadRune()
			}
			return r
		}),
		plain("bufio.Reader of 16", func(s string) io.Reader { return bufio.NewReaderSize(strings.NewReader(s), 16) }),
		plain("bufio.Reader of 4096 behind an offset", func(s string) io.Reader {
			r := bufio.NewReader(strings.NewReader("abc\n" + s))
			r.ReadString('\n')
			return r
		}),
		plain("bufio.Reader of 65536, peeked", func(s string) io.Reader {
			r := bufio.NewReaderSize(iotest.OneByteReader(strings.NewReader(s)), 1<<16)
			r.Peek(3)
			return r
		}),
		plain("io.LimitReader", func(s string) io.Reader { return io.LimitReader(strings.NewReader(s+"garbage{"), int64(len(s))) }),
		plain("io.SectionReader", func(s string) io.Reader {
			return io.NewSectionReader(strings.NewReader("{}"+s+"garbage{"), 2, int64(len(s)))
		}),
		plain("io.MultiReader", func(s string) io.Reader {
			return io.MultiReader(strings.NewReader(""), strings.NewReader(s[:len(s)/3]), strings.NewReader(""), strings.NewReader(s[len(s)/3:]))
		}),
		plain("io.TeeReader", func(s string) io.Reader { return io.TeeReader(strings.NewReader(s), io.Discard) }),
		plain("one byte", func(s string) io.Reader { return iotest.OneByteReader(strings.NewReader(s)) }),
		plain("half", func(s string) io.Reader { return iotest.HalfReader(strings.NewReader(s)) }),
		plain("data with end", func(s string) io.Reader { return iotest.DataErrReader(strings.NewReader(s)) }),
		plain("one byte, data with end", func(s string) io.Reader { return iotest.DataErrReader(iotest.OneByteReader(strings.NewReader(s))) }),
		plain("a reader with nothing but Read", func(s string) io.Reader { return onlyReader{strings.NewReader(s)} }),
		plain("a reader with ReadRune", func(s string) io.Reader { return runeReader{strings.NewReader(s)} }),
		{"io.Pipe", func(s string) (io.Reader, func()) {
			pr, pw := io.Pipe()
			go func() {
				for i := 0; i < len(s); i += 5 {
					e := i + 5
					if e > len(s) {
						e = len(s)
					}
					if _, err := io.WriteString(pw, s[i:e]); err != nil {
						return
					}
				}
				pw.Close()
			}()
			return pr, func() { pr.Close() }
		}},
		{"os.File behind an offset", func(s string) (io.Reader, func()) {
			f, err := os.CreateTemp("", "mc-file-")
			if err != nil {
				return strings.NewReader(s), nil
			}
			os.Remove(f.Name())
			f.WriteString("import;" + s)
			f.Seek(7, io.SeekStart)
			return f, func() { f.Close() }
		}},
	}
	for _, n := range []int{2, 3, 4, 5, 7, 16, 64, 100, 511, 512, 1000, 4095, 4096, 4097} {
		n := n
		ds = append(ds, plain(fmt.Sprintf("pieces of %d, scribbling", n), func(s string) io.Reader {
			return &scriptReader{src: s, chunk: n, err: io.EOF, with: n&1 == 1, junk: true}
		}))
	}
	for _, n := range []int{1, 2, 99} {
		n := n
		ds = append(ds, plain(fmt.Sprintf("%d empty reads before each piece of 3", n), func(s string) io.Reader {
			var sz []int
			for i := 0; i < len(s); i += 3 {
				for j := 0; j < n; j++ {
					sz = append(sz, 0)
				}
				sz = append(sz, 3)
			}
			for j := 0; j < n; j++ {
				sz = append(sz, 0)
			}
			return &scriptReader{src: s, sizes: sz, err: io.EOF, junk: true}
		}))
	}
	return ds
}

type ioRes struct {
	p   *parser.Proto
	key string
}

func ioKey(p *parser.Proto, err error) string {
	if err == nil {
		return dump(p, fAll)
	}
	me, ok := typedError(err)
	if !ok {
		return "untyped error"
	}
	return fmt.Sprintf("error at %d:%d:%d", me.Pos.Offset, me.Pos.Line, me.Pos.Column)
}

func (w *Worker) sameRead(src, base, desc string, c cfg, rd func() (io.Reader, func())) bool {
	x, done := rd()
	p, err, ok := w.parseReader(desc, src, func() io.Reader { return x }, c)
	if done != nil {
		done()
	}
	if !ok {
		return false
	}
	w.compared++
	if got := ioKey(p, err); got != base {
		want, g := diff(base, got)
		w.fail(violation{What: "the result depends on how the reader delivers the bytes", Config: c.String() + "; delivered by: " + desc, Input: src, Want: want, Got: g,
			again: func() bool {
				b, berr := rawParse(src, c)
				x, done := rd()
				p, err := rawParseReader(x, c)
				if done != nil {
					done()
				}
				return ioKey(b, berr) != ioKey(p, err)
			}})
		return false
	}
	return true
}

func (w *Worker) ioBase(src string, c cfg) (string, bool) {
	p, err, ok := w.parse(src, c)
	if err == nil {
		w.accepted++
	} else {
		w.rejected++
	}
	return ioKey(p, err), ok
}

// partitionCase: every partition of src into pieces x end with/after the
// last data, and with up to two empty reads anywhere if the input is short.
func partitionCase(empties int) func(w *Worker, src string) {
	return func(w *Worker, src string) {
		w.walk(asRunes(src), cfgPF)
		c := cfgPF
		c.body = true
		base, ok := w.ioBase(src, c)
		if !ok {
			return
		}
		n := len(src)
		one := func(sizes []int) bool {
			for _, with := range []bool{false, true} {
				if !w.sameRead(src, base, fmt.Sprintf("pieces %v, end with the last data: %v", sizes, with), c, func() (io.Reader, func()) {
					return &scriptReader{src: src, sizes: append([]int(nil), sizes...), err: io.EOF, with: with, junk: true}, nil
				}) {
					return false
				}
			}
			return true
		}
		var rec func(sizes []int, left, empties int) bool
		rec = func(sizes []int, left, empties int) bool {
			if w.stopped() {
				return false
			}
			if left == 0 {
				if !one(sizes) {
					return false
				}
				return empties == 0 || one(append(sizes, 0))
			}
			if empties > 0 && !rec(append(sizes[:len(sizes):len(sizes)], 0), left, empties-1) {
				return false
			}
			for k := 1; k <= left; k++ {
				if !rec(append(sizes[:len(sizes):len(sizes)], k), left-k, empties) {
					return false
				}
			}
			return true
		}
		rec(nil, n, empties)
	}
}

// cutCase: every single and double cut.
func cutCase(double bool) func(w *Worker, src string) {
	return func(w *Worker, src string) {
		w.walk(asRunes(src), cfgPF)
		c := cfgPF
		c.body = true
		base, ok := w.ioBase(src, c)
		if !ok {
			return
		}
		for i := 1; i < len(src); i++ {
			js := []int{0}
			if double {
				for j := 1; j < len(src)-i; j++ {
					js = append(js, j)
				}
			}
			for _, j := range js {
				if w.stopped() {
					return
				}
				sz := []int{i, j}
				if !w.sameRead(src, base, fmt.Sprintf("pieces %v and the rest", sz), c, func() (io.Reader, func()) {
					return &scriptReader{src: src, sizes: append([]int(nil), sz...), err: io.EOF, with: (i+j)&1 == 1, junk: true}, nil
				}) {
					return
				}
			}
		}
	}
}

func deliveryCase(ds []delivery) func(w *Worker, src string) {
	return func(w *Worker, src string) {
		w.walk(asRunes(src), cfgPF)
		c := cfgPF
		c.body = true
		base, ok := w.ioBase(src, c)
		if !ok {
			return
		}
		for _, d := range ds {
			d := d
			if w.stopped() || !w.sameRead(src, base, d.name, c, func() (io.Reader, func()) { return d.rd(src) }) {
				return
			}
		}
	}
}

var tinyDocs = []string{
	"", ";", "a", "é", "//é\n;", "/*世*/", "/**/;", "//😀", "\ufeff;", "\ufeff", "\ufeff//a", "/*é*/ //b", "import'é';", "import\"a\"",
	"enum A{}", "enum E{};", "package a;", "package é;", "option a=1;"[:9], "enum A{a=1}", "\xff;", "/*\xe4\xb8*/", "//\xc3", "//\xf0\x9f\x98", "import'\xff'", ";\r\n;\r\n", "//a\r\n;", "\n\n;x", "\u00a0;\u2028",
	"\x00", ";\x00;", "extend a{}", "service S{}", "message M{", "message {}"}

func init() {
	checks["C09"] = check{"model_checking", "each document is parsed from one read and then through every delivery of the listed spaces (all partitions of short inputs with and without empty reads, all single and double cuts of longer ones, piece sizes, standard readers); every result (whole tree with positions and comments, or the error position) must be the same; states and transitions are those of the grammar automaton walked by the documents", func(r *Run) {
		r.each([]uni{listUni("partitions/tiny", tinyDocs)}, partitionCase(0))
		var short []string
		for _, d := range tinyDocs {
			if len(d) <= r.q(7, 9) {
				short = append(short, d)
			}
		}
		r.each([]uni{listUni("partitions-with-empty-reads", short)}, partitionCase(2))
		for _, u := range []uni{chars("partitions-file", "", "", append(split("/*\n;\""), "é", "世", "\xff", "\x80", "\ufeff"), r.q(3, 4))} {
			r.each([]uni{u}, partitionCase(r.q(0, 1)))
		}
		r.each([]uni{listUni("cuts/documents", append([]string{bigDoc}, validDocs...))}, cutCase(false))
		for _, u := range []uni{listUni("cuts2/documents", validDocs)} {
			if r.thorough() {
				r.each([]uni{u}, cutCase(true))
			}
		}
		for _, u := range []uni{seqUni(r.q(1, 2)), blocksUni(r.q(0, 1)), formsUni(1)} {
			u.name = "cuts2/" + u.name
			r.each([]uni{u}, func(w *Worker, src string) {
				cutCase(len(src) < w.run.q(40, 80))(w, src)
			})
		}
		ds := deliveries(r.thorough())
		fu := filesUni()
		r.Space("files", fu.bound, fu.n*len(ds), func(w *Worker, task int) {
			fu.run(w, task/len(ds), func(src string) {
				if len(src) > 6000 && !r.thorough() && (strings.Contains(src, "\r") || strings.Contains(src, "\n\n\n\n") || src[0] == '\xef') {
					return
				}
				w.cases++
				deliveryCase(ds[task%len(ds):][:1])(w, src)
			})
		})
		r.each([]uni{seqUni(r.q(1, 2)), blocksUni(r.q(0, 1)), formsUni(r.q(0, 1))}, deliveryCase(ds))
		b := budgets{"comments": 1, "prefix": 1, "bytes": r.q(2, 4), "edits1": 2}
		r.each(r.byteUnis(b), deliveryCase(ds))
		if r.thorough() {
			r.each([]uni{pairsUni(0), r.edit1Uni(editToks2)}, deliveryCase(ds))
			for _, c := range cctxs {
				c := c
				r.each(r.fit("comments", b, 2, 20, func(k int) uni { return viableTokens(c, k) }), deliveryCase(ds))
			}
		}
		r.each([]uni{prefixUni("big", []string{bigDoc}, 1)}, deliveryCase(ds[:r.q(12, len(ds))]))
		// every part of the document on both sides of a buffer boundary
		sizes := []int{16, 64, 512, 1024, 4096, 8192}
		if r.thorough() {
			sizes = append(sizes, 128, 256, 2048, 16384, 32768, 65536)
		}
		var bds []delivery
		for _, d := range ds {
			if strings.HasPrefix(d.name, "pieces of 4") || strings.HasPrefix(d.name, "bufio") || strings.HasPrefix(d.name, "data with") || d.name == "one byte" {
				bds = append(bds, d)
			}
		}
		n := len(boundaryDoc) + 2
		r.Space("boundaries", fmt.Sprintf("a document moved over the boundaries at %v", sizes), len(sizes)*n, func(w *Worker, task int) {
			at, d := sizes[task/n], task%n
			if d > at {
				return
			}
			src := pad(at-d) + boundaryDoc
			w.cases++
			if at >= 4096 && !r.thorough() {
				deliveryCase(bds)(w, src)
				return
			}
			deliveryCase(ds)(w, src)
		})
	}}
}

// pad: n bytes that cost the parser little.
func pad(n int) string {
	u := "option a=\"" + strings.Repeat("x", 240) + "\";\n"
	return strings.Repeat(";", n%len(u)) + strings.Repeat(u, n/len(u))
}

const boundaryDoc = "/*é世*/message M{int32 a=0x1F[b=\"世\"];}//😀\r\n"
