package main

// C10: calls are independent.  The real code runs under a controlled
// scheduler that owns every read and every visitor callback; all histories of
// short length run one after another in one process; the race detector watches
// serial and switched runs.  Every shard is a process of its own, so that what
// it does is deterministic and can be repeated.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/lexer"
	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

// job is one caller: it parses Src and then does Ops with the tree: v visits,
// V visits and refuses every second element, i interprets, j encodes, s
// overwrites everything in the tree afterwards.
type job struct {
	Src    string
	P, B   bool // permissive, body comments
	D      bool
	F      string
	Chunk  int
	Fail   int // the reader fails at this offset, if > 0
	Ops    string
	Shared bool // the tree is parsed before and shared with the other callers
}

func (j job) cfg() cfg { return cfg{permissive: j.P, body: j.B, debug: j.D, filename: j.F} }
func (j job) String() string {
	s := fmt.Sprintf("parse %q (%s, pieces of %d", j.Src, j.cfg(), j.Chunk)
	if j.Fail > 0 {
		s += fmt.Sprintf(", read error at %d", j.Fail)
	}
	s += ")"
	if j.Shared {
		s = "shared tree of " + s
	}
	return s + " then " + j.Ops
}

type stepReader struct {
	src  string
	n    int
	fail int
	off  int
	pt   func()
}

var errStep = errors.New("read failure")

func (s *stepReader) Read(p []byte) (int, error) {
	s.pt()
	if s.fail > 0 && s.off >= s.fail {
		return 0, errStep
	}
	if s.off >= len(s.src) {
		return 0, io.EOF
	}
	n := s.n
	if n > len(s.src)-s.off {
		n = len(s.src) - s.off
	}
	n = copy(p, s.src[s.off:s.off+n])
	s.off += n
	return n, nil
}

// outcome of a job: a key that must always be the same, and the tree with its
// dump, which must stay the same for ever.
type outcome struct {
	key  string
	tree *parser.Proto
	dump string
}

const fEverything = fAll

func (j job) run(tree *parser.Proto, pt func()) (o outcome) {
	var b strings.Builder
	if pe := guard(func() {
		var err error
		if tree == nil {
			tree, err = protoparser.Parse(&stepReader{src: j.Src, n: j.Chunk, fail: j.Fail, pt: pt}, j.cfg().opts()...)
		}
		if err != nil || tree == nil {
			fmt.Fprintf(&b, "tree=%v err=%v %s", tree != nil, err, errKey(err, true))
			return
		}
		o.dump = dump(tree, fEverything)
		b.WriteString(o.dump)
		b.WriteString("\nmeta " + metaFilename(tree))
		for _, op := range j.Ops {
			pt()
			switch op {
			case 'v', 'V':
				v := &recVisitor{pt: pt}
				if op == 'V' {
					v.no = map[int]bool{}
					for i := 1; i < 1000; i += 2 {
						v.no[i] = true
					}
				}
				tree.Accept(v)
				b.WriteString("\nvisit")
				for _, e := range v.ev {
					b.WriteString(" " + e.kin)
				}
			case 'i':
				u, err := protoparser.UnorderedInterpret(tree)
				js, e2 := json.Marshal(u)
				fmt.Fprintf(&b, "\ninterpretation %s %v %v", js, err, e2)
			case 'j':
				js, e2 := json.Marshal(tree)
				fmt.Fprintf(&b, "\njson %s %v", js, e2)
			}
		}
		if d := dump(tree, fEverything); d != o.dump {
			b.WriteString("\nvisiting and interpreting changed the tree to " + d)
		}
		o.tree = tree
	}); pe != nil {
		fmt.Fprintf(&b, "\npanic: %v", pe.v)
		o.tree = nil
	}
	o.key = b.String()
	return
}

// scribble overwrites every string, number and flag reachable from v.
func scribble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scribble(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), seen)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(-7)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// ---- the scheduler ----------------------------------------------------------

type pick struct {
	enabled uint8
	chosen  int8
	cur     int8 // who ran; -1 if it has ended
	preempt int8 // preemptions before this pick
}

type sched struct {
	n        int
	wake     []chan struct{}
	cur      int
	prefix   []int8
	trace    []pick
	preempt  int8
	ended    uint8
	nended   int32
	free     int32
	progress int64
	done     chan struct{}
}

func (s *sched) choose(ended bool) int {
	en := uint8(1<<uint(s.n)-1) &^ s.ended
	k := len(s.trace)
	cur := int8(s.cur)
	if ended {
		cur = -1
	}
	var c int8 = -1
	if k < len(s.prefix) && en&(1<<uint(s.prefix[k])) != 0 {
		c = s.prefix[k]
	} else if cur >= 0 {
		c = cur
	} else {
		for c = 0; en&(1<<uint(c)) == 0; c++ {
		}
	}
	s.trace = append(s.trace, pick{en, c, cur, s.preempt})
	if cur >= 0 && c != cur {
		s.preempt++
	}
	s.cur = int(c)
	return int(c)
}

func (s *sched) point(id int) {
	atomic.AddInt64(&s.progress, 1)
	if atomic.LoadInt32(&s.free) != 0 {
		return
	}
	if c := s.choose(false); c != id {
		s.wake[c] <- struct{}{}
		<-s.wake[id]
	}
}

func (s *sched) end(id int) {
	atomic.AddInt64(&s.progress, 1)
	if atomic.LoadInt32(&s.free) != 0 {
		if int(atomic.AddInt32(&s.nended, 1)) == s.n {
			close(s.done)
		}
		return
	}
	s.ended |= 1 << uint(id)
	if int(atomic.AddInt32(&s.nended, 1)) == s.n {
		close(s.done)
		return
	}
	s.wake[s.choose(true)] <- struct{}{}
}

type unit struct {
	Kind  string // interleave, history, pump
	Jobs  []job
	Bound int // preemptions; -1: no bound
	Max   int // most schedules explored
	Depth int
	First int
	// a single execution
	Only bool
	Seq  []int8
	Want []string // keys, by job
}

type shardResult struct {
	Cases, States, Steps, Points int64
	Incomplete                   string
	What, Got, WantS, Where      string
	Seq                          []int8
	Bad                          bool
}

const blockAfter = 300 * time.Millisecond
const neverAfter = 20 * time.Second

var errNever = errors.New("does not return")

// one runs the jobs under the schedule prefix.
func (u *unit) one(prefix []int8) (s *sched, outs []outcome, err error) {
	n := len(u.Jobs)
	s = &sched{n: n, prefix: prefix, done: make(chan struct{})}
	outs = make([]outcome, n)
	trees := map[string]*parser.Proto{}
	for i := 0; i < n; i++ {
		s.wake = append(s.wake, make(chan struct{}, 2))
	}
	for i, j := range u.Jobs {
		var tree *parser.Proto
		if j.Shared {
			k := fmt.Sprint(j.Src, j.P, j.B, j.F)
			if trees[k] == nil {
				trees[k], _ = rawParse(j.Src, j.cfg())
			}
			tree = trees[k]
		}
		go func(i int, j job) {
			<-s.wake[i]
			outs[i] = j.run(tree, func() { s.point(i) })
			s.end(i)
		}(i, j)
	}
	s.wake[s.choose(true)] <- struct{}{}
	last, since := int64(-1), time.Now()
	for {
		select {
		case <-s.done:
			for i := range outs {
				if t := outs[i].tree; t != nil {
					if d := dump(t, fEverything); d != outs[i].dump {
						a, b := diff(outs[i].dump, d)
						outs[i].key += "\nlater the tree was changed: " + a + " to " + b
					}
				}
			}
			return s, outs, nil
		case <-time.After(blockAfter):
			if p := atomic.LoadInt64(&s.progress); p != last {
				last, since = p, time.Now()
				continue
			}
			if atomic.SwapInt32(&s.free, 1) == 0 {
				for _, w := range s.wake {
					select {
					case w <- struct{}{}:
					default:
					}
				}
			}
			if time.Since(since) > neverAfter {
				return s, nil, errNever
			}
		}
	}
}

func (u *unit) judge(outs []outcome, err error, res *shardResult) bool {
	if err != nil {
		res.Bad, res.What = true, "the calls do not return under this schedule"
		return false
	}
	for i, o := range outs {
		if o.key != u.Want[i] {
			res.Bad = true
			res.What = fmt.Sprintf("caller %d of the concurrent calls gets another result than alone", i)
			res.WantS, res.Got = diff(u.Want[i], o.key)
			return false
		}
	}
	return true
}

func scheduleText(tr []pick) string {
	var b strings.Builder
	run := 0
	for i, p := range tr {
		if i > 0 && p.chosen != tr[i-1].chosen {
			fmt.Fprintf(&b, "caller %d x%d, ", tr[i-1].chosen, run)
			run = 0
		}
		run++
	}
	if len(tr) > 0 {
		fmt.Fprintf(&b, "caller %d to its end", tr[len(tr)-1].chosen)
	}
	return b.String()
}

func picks(tr []pick) []int8 {
	out := make([]int8, len(tr))
	for i, p := range tr {
		out[i] = p.chosen
	}
	return out
}

// interleave explores every schedule with at most Bound preemptions.
func (u *unit) interleave() (res shardResult) {
	type todo struct{ prefix []int8 }
	if u.Only {
		s, outs, err := u.one(u.Seq)
		res.Cases = 1
		u.judge(outs, err, &res)
		res.Seq = picks(s.trace)
		return
	}
	stack := []todo{{nil}}
	blocked := 0
	for len(stack) > 0 {
		if u.Max > 0 && res.Cases >= int64(u.Max) {
			res.Incomplete = fmt.Sprintf("stopped after %d schedules", u.Max)
			return
		}
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		s, outs, err := u.one(t.prefix)
		res.Cases++
		res.States += int64(len(s.trace) - len(t.prefix))
		res.Steps += int64(len(s.trace))
		if !u.judge(outs, err, &res) {
			res.Seq = picks(s.trace)
			res.Where = scheduleText(s.trace)
			return
		}
		if s.free != 0 {
			if blocked++; blocked > 15 {
				res.Incomplete = "the calls wait for each other: only the schedules the implementation allows"
				return
			}
			continue
		}
		for k := len(s.trace) - 1; k >= len(t.prefix); k-- {
			p := s.trace[k]
			for a := int8(0); a < int8(u.alts()); a++ {
				if a == p.chosen || p.enabled&(1<<uint(a)) == 0 {
					continue
				}
				if u.Bound >= 0 && p.cur >= 0 && a != p.cur && int(p.preempt)+1 > u.Bound {
					continue
				}
				np := append(picks(s.trace[:k]), a)
				stack = append(stack, todo{np})
			}
		}
	}
	return
}

func (u *unit) alts() int { return len(u.Jobs) }

// history runs every sequence of calls of the given length that starts with
// First; every call must give what it gives in a fresh process, and every tree
// must stay as it was returned.
func (u *unit) history() (res shardResult) {
	seq := make([]int8, u.Depth)
	nop := func() {}
	progress := int64(0)
	go u.watch(&progress, &seq)
	play := func(seq []int8) bool {
		res.Cases++
		res.States++
		outs := make([]outcome, 0, len(seq))
		bad := func(k int, what, want, got string) bool {
			res.Bad, res.What = true, what
			res.WantS, res.Got = want, got
			res.Seq = append([]int8{}, seq...)
			var b strings.Builder
			for _, x := range seq[:k+1] {
				fmt.Fprintf(&b, "%v; ", u.Jobs[x])
			}
			res.Where = b.String()
			return false
		}
		for k, x := range seq {
			o := u.Jobs[x].run(nil, nop)
			res.Steps++
			atomic.AddInt64(&progress, 1)
			if o.key != u.Want[x] {
				a, b := diff(u.Want[x], o.key)
				return bad(k, fmt.Sprintf("call %d of a sequence of calls gives another result than in a fresh process", k+1), a, b)
			}
			if strings.Contains(u.Jobs[x].Ops, "s") && o.tree != nil {
				scribble(reflect.ValueOf(o.tree), map[uintptr]bool{})
				o.tree = nil
			}
			outs = append(outs, o)
		}
		for k, o := range outs {
			if o.tree == nil {
				continue
			}
			if d := dump(o.tree, fEverything); d != o.dump {
				a, b := diff(o.dump, d)
				return bad(len(seq)-1, fmt.Sprintf("the tree returned by call %d was changed by a later call", k+1), a, b)
			}
		}
		return true
	}
	if u.Only {
		seq = u.Seq
		play(u.Seq)
		return
	}
	seq[0] = int8(u.First)
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == u.Depth {
			return play(seq)
		}
		for x := range u.Jobs {
			seq[k] = int8(x)
			if !rec(k + 1) {
				return false
			}
		}
		return true
	}
	rec(1)
	return
}

// repeat makes every call twice in a row.
func (u *unit) repeat() (res shardResult) {
	nop := func() {}
	progress := int64(0)
	seq := make([]int8, 0)
	go u.watch(&progress, &seq)
	for i, j := range u.Jobs {
		a := j.run(nil, nop)
		b := j.run(nil, nop)
		atomic.AddInt64(&progress, 1)
		res.Cases++
		switch {
		case a.key != b.key:
			res.WantS, res.Got = diff(a.key, b.key)
		case strings.Contains(a.key, "\nvisiting and interpreting changed"):
			k := strings.Index(a.key, "\nvisiting and interpreting changed")
			res.WantS, res.Got = diff(a.dump, a.key[k:])
		case a.tree != nil && dump(a.tree, fEverything) != a.dump:
			res.WantS, res.Got = diff(a.dump, dump(a.tree, fEverything))
		case a.tree != nil && a.tree == b.tree:
			res.WantS, res.Got = "a tree of its own for every call", "the same tree twice"
		default:
			continue
		}
		res.Bad, res.What = true, "the same call made twice gives two results, or using the tree changes it"
		res.Where = j.String()
		res.Steps = int64(i)
		return
	}
	return
}

// pump repeats one call (and, between, one other) many times.
func (u *unit) pump() (res shardResult) {
	nop := func() {}
	progress := int64(0)
	var seq []int8
	go u.watch(&progress, &seq)
	var kept []outcome
	for k := 0; k < u.Max; k++ {
		for x := range u.Jobs {
			o := u.Jobs[x].run(nil, nop)
			res.Steps++
			res.Cases++
			res.States++
			atomic.AddInt64(&progress, 1)
			if o.key != u.Want[x] {
				res.Bad, res.What = true, fmt.Sprintf("the same calls over and over: in round %d the result differs from that in a fresh process", k+1)
				res.WantS, res.Got = diff(u.Want[x], o.key)
				res.Where = fmt.Sprint(u.Jobs)
				return
			}
			if k < 3 {
				kept = append(kept, o)
			}
		}
	}
	for _, o := range kept {
		if o.tree != nil && dump(o.tree, fEverything) != o.dump {
			res.Bad, res.What = true, "an early tree was changed by many later calls"
			res.WantS, res.Got = diff(o.dump, dump(o.tree, fEverything))
			res.Where = fmt.Sprint(u.Jobs)
			return
		}
	}
	return
}

// lexOps are what the user of a lexer does: n, l, k, c scan; p and P look ahead,
// P beyond the end of the input; b scans and puts back.
const lexOps = "nlkcpPb"

// lexUser is one lexer and what its user has done with it.
type lexUser struct {
	src, ops string
	lx       *lexer.Lexer
	k        int
	seen     strings.Builder
}

// step makes the lexer or does the next operation; it tells whether one is left.
func (u *lexUser) step() bool {
	if u.lx == nil {
		u.lx = lexer.NewLexer(strings.NewReader(u.src), lexer.WithFilename(u.ops))
		u.lx.Error = func(*lexer.Lexer, error) {}
	} else {
		var t scanner.Token
		switch u.ops[u.k] {
		case 'n':
			u.lx.Next()
		case 'l':
			u.lx.NextLit()
		case 'k':
			u.lx.NextKeyword()
		case 'c':
			u.lx.NextComment()
		case 'p':
			t = u.lx.PeekN(2)
		case 'P':
			t = u.lx.PeekN(9)
		case 'b':
			u.lx.Next()
			u.lx.UnNext()
		}
		u.k++
		fmt.Fprintf(&u.seen, "%c: peek %v token %v %q raw %q at %s; ", u.ops[u.k-1], t, u.lx.Token, u.lx.Text, string(u.lx.RawText), u.lx.Pos.Position)
	}
	return u.k < len(u.ops)
}

// lexers runs lexers which are alive at the same time, in every order of their
// operations: each user sees what it sees alone.
func (u *unit) lexers() (res shardResult) {
	progress := int64(0)
	var none []int8
	go u.watch(&progress, &none)
	n := len(u.Jobs)
	var scripts []string
	var gen func(p string)
	gen = func(p string) {
		if len(p) == u.Depth {
			scripts = append(scripts, p)
			return
		}
		for _, c := range lexOps {
			gen(p + string(c))
		}
	}
	gen("")
	alone := make([]map[string]string, n)
	for i := range alone {
		alone[i] = map[string]string{}
		for _, sc := range scripts {
			l := lexUser{src: u.Jobs[i].Src, ops: sc}
			for l.step() {
			}
			alone[i][sc] = l.seen.String()
		}
	}
	// orders of the steps: each lexer is made and does Depth operations
	var orders [][]int8
	left := make([]int, n)
	for i := range left {
		left[i] = u.Depth + 1
	}
	var perm func(p []int8)
	perm = func(p []int8) {
		if len(p) == n*(u.Depth+1) {
			orders = append(orders, append([]int8{}, p...))
			return
		}
		for i := range left {
			if left[i] > 0 {
				left[i]--
				perm(append(p, int8(i)))
				left[i]++
			}
		}
	}
	perm(nil)
	pick := make([]string, n)
	var rec func(k int) bool
	rec = func(k int) bool {
		if k < n {
			for i, sc := range scripts {
				if k == 0 && i%u.Max != u.First {
					continue
				}
				pick[k] = sc
				if !rec(k + 1) {
					return false
				}
			}
			return true
		}
		for _, ord := range orders {
			us := make([]lexUser, n)
			for i := range us {
				us[i].src, us[i].ops = u.Jobs[i].Src, pick[i]
			}
			for _, i := range ord {
				us[i].step()
			}
			res.Cases++
			res.States++
			res.Steps += int64(len(ord))
			atomic.AddInt64(&progress, 1)
			for i := range us {
				if g := us[i].seen.String(); g != alone[i][pick[i]] {
					res.Bad, res.What = true, fmt.Sprintf("the user of lexer %d sees something else than with that lexer alone", i)
					res.WantS, res.Got = diff(alone[i][pick[i]], g)
					res.Where = fmt.Sprintf("texts %v, operations %q, order %v", u.Jobs, pick, ord)
					return false
				}
			}
		}
		return true
	}
	rec(0)
	return
}

// watch ends the process if a call does not return.
func (u *unit) watch(progress *int64, seq *[]int8) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		if p := atomic.LoadInt64(progress); p != last {
			last, since = p, time.Now()
		} else if time.Since(since) > neverAfter {
			res := shardResult{Bad: true, What: "a call of a sequence of calls does not return", Seq: append([]int8{}, *seq...), Where: fmt.Sprint(u.Jobs)}
			json.NewEncoder(os.Stdout).Encode(res)
			os.Exit(0)
		}
	}
}

// indepMain is the shard process.
func indepMain(args []string) {
	b, err := os.ReadFile(args[1])
	if err != nil {
		os.Exit(2)
	}
	switch args[0] {
	case "solo":
		var j job
		json.Unmarshal(b, &j)
		json.NewEncoder(os.Stdout).Encode(j.runSolo().key)
		os.Exit(0)
	case "race":
		raceMain(b)
		os.Exit(0)
	}
	var u unit
	if err := json.Unmarshal(b, &u); err != nil {
		os.Exit(2)
	}
	// one processor and collections only when memory runs short: what a shard
	// does is the same every time, also with pools.
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(768 << 20)
	var res shardResult
	switch u.Kind {
	case "interleave":
		res = u.interleave()
	case "history":
		res = u.history()
	case "pump":
		res = u.pump()
	case "repeat":
		res = u.repeat()
	case "lexers":
		res = u.lexers()
	}
	json.NewEncoder(os.Stdout).Encode(res)
	os.Exit(0)
}

func (j job) runSolo() outcome {
	var tree *parser.Proto
	if j.Shared {
		tree, _ = rawParse(j.Src, j.cfg())
	}
	return j.run(tree, func() {})
}

// ---- the parent -------------------------------------------------------------

type indep struct {
	r    *Run
	dir  string
	mu   sync.Mutex
	n    int
	solo map[job]string
	race []string

	states, steps, cases int64
	notes                []string
}

func (x *indep) file(v interface{}) string {
	b, _ := json.Marshal(v)
	x.mu.Lock()
	x.n++
	p := filepath.Join(x.dir, fmt.Sprintf("indep-%d.json", x.n))
	x.mu.Unlock()
	os.WriteFile(p, b, 0o600)
	return p
}

// call runs a shard process.
func (x *indep) call(mode string, v interface{}, out interface{}, limit time.Duration) error {
	f := x.file(v)
	defer os.Remove(f)
	cmd := exec.Command("/proc/self/exe", "indep", mode, f)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		return err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return fmt.Errorf("%v: %s", err, clip(eb.String(), 1500))
		}
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return errNever
	}
	return json.Unmarshal(ob.Bytes(), out)
}

// fresh gives the result of the job in a fresh process.
func (x *indep) fresh(w *Worker, j job) string {
	x.mu.Lock()
	k, ok := x.solo[j]
	x.mu.Unlock()
	if ok {
		return k
	}
	if err := x.call("solo", j, &k, 60*time.Second); err != nil {
		w.fail(violation{What: "a call alone in a fresh process does not return", Config: j.cfg().String(), Input: j.Src, Got: err.Error(),
			again: func() bool { var k string; return x.call("solo", j, &k, 60*time.Second) != nil }})
		k = "?"
	}
	x.mu.Lock()
	x.solo[j] = k
	x.mu.Unlock()
	return k
}

const repeatBatch = 400

// enqueue collects calls to be repeated; a batch runs in a process of its own.
func (x *indep) enqueue(w *Worker, j job) {
	w.batch = append(w.batch, j)
	if len(w.batch) >= repeatBatch {
		x.flush(w)
	}
}

func (x *indep) flush(w *Worker) {
	if len(w.batch) == 0 || w.stopped() {
		return
	}
	u := unit{Kind: "repeat", Jobs: w.batch}
	w.batch = nil
	w.execs += int64(2 * len(u.Jobs))
	w.compared += int64(len(u.Jobs))
	var res shardResult
	err := x.call("unit", u, &res, 300*time.Second)
	if err != nil {
		w.fail(violation{What: "the process dies when calls are repeated: " + firstLine(err.Error()), Config: fmt.Sprint(u.Jobs), Got: err.Error(),
			again: func() bool { return x.call("unit", u, &shardResult{}, 300*time.Second) != nil }})
		return
	}
	if res.Bad {
		bad := u.Jobs[res.Steps]
		if strings.HasPrefix(res.What, "a call of") {
			bad = job{}
		}
		n := 0
		w.fail(violation{What: res.What, Config: res.Where, Input: bad.Src, Want: res.WantS, Got: res.Got,
			again: func() bool {
				if n++; n > 2 {
					return true
				}
				var o shardResult
				return x.call("unit", u, &o, 300*time.Second) == nil && o.Bad
			}})
	}
}

// shard runs one unit and reports what it found.
func (x *indep) shard(w *Worker, u unit) {
	for _, j := range u.Jobs {
		u.Want = append(u.Want, x.fresh(w, j))
	}
	var res shardResult
	limit := time.Until(x.r.deadline)
	if limit < time.Second {
		return
	}
	err := x.call("unit", u, &res, limit+30*time.Second)
	if err == errNever {
		x.mu.Lock()
		x.notes = append(x.notes, "a shard was ended at the deadline")
		x.mu.Unlock()
		return
	}
	input := ""
	for _, j := range u.Jobs {
		input += j.Src + "\x1e"
	}
	if len(input) > 300 || u.Kind == "history" {
		input = ""
	}
	if err != nil {
		var again shardResult
		w.fail(violation{What: "the process dies: " + firstLine(err.Error()), Config: fmt.Sprint(u.Kind, " ", u.Jobs), Input: input, Got: err.Error(),
			again: func() bool { return x.call("unit", u, &again, 600*time.Second) != nil }})
		return
	}
	atomic.AddInt64(&x.states, res.States)
	atomic.AddInt64(&x.steps, res.Steps)
	atomic.AddInt64(&x.cases, res.Cases)
	w.cases += res.Cases
	w.execs += res.Cases * int64(len(u.Jobs))
	w.compared += res.Cases
	if res.Incomplete != "" {
		x.mu.Lock()
		x.notes = append(x.notes, fmt.Sprint(u.Kind, " ", u.Jobs, ": ", res.Incomplete))
		x.mu.Unlock()
	}
	if !res.Bad {
		return
	}
	only := u
	only.Only, only.Seq = true, res.Seq
	var o shardResult
	how := "in a fresh process, this schedule or sequence alone"
	if u.Kind == "pump" || x.call("unit", only, &o, 600*time.Second) != nil || !o.Bad {
		how = "by repeating the exploration of this shard in a fresh process"
		only = u
	}
	n := 0
	w.fail(violation{What: res.What, Config: u.Kind + " " + res.Where, Input: input, Want: res.WantS, Got: res.Got + "\n(reproduced " + how + ")",
		again: func() bool {
			if n++; n > 2 { // two repetitions are enough for a deterministic shard
				return true
			}
			var o shardResult
			return x.call("unit", only, &o, 600*time.Second) == nil && o.Bad
		}})
}

func interleavings(n, m int) int64 {
	c := int64(1)
	for i := 1; i <= m; i++ {
		c = c * int64(n+i) / int64(i)
	}
	return c
}

// ---- the race detector --------------------------------------------------------

// turn is handed over without any synchronisation that the race detector could
// take for an ordering: whatever two callers share shows as a race although
// they run one after the other.
var turn int32
var turnFree int32

//go:norace
func waitTurn(id int32) {
	for turn != id && turnFree == 0 {
		runtime.Gosched()
	}
}

//go:norace
func setTurn(id int32) { turn = id }

//go:norace
func freeTurn() { turnFree = 1 }

//go:norace
func resetTurn() { turn = -1; turnFree = 0 }

//go:norace
func turnIs() int32 { return turn }

type raceUnit struct {
	Jobs   []job
	Switch int // the first caller stops at this point and lets the others run; -1: serial
	Tag    string
}

func raceMain(b []byte) {
	var us []raceUnit
	json.Unmarshal(b, &us)
	runtime.GOMAXPROCS(2)
	for i, u := range us {
		fmt.Fprintf(os.Stderr, "\n=== UNIT %d\n", i)
		u.run()
	}
	fmt.Fprintf(os.Stderr, "\n=== END\n")
}

func (u raceUnit) run() {
	resetTurn()
	trees := map[string]*parser.Proto{}
	n := len(u.Jobs)
	var wg sync.WaitGroup
	for i, j := range u.Jobs {
		var tree *parser.Proto
		if j.Shared {
			k := fmt.Sprint(j.Src, j.P, j.B, j.F)
			if trees[k] == nil {
				trees[k], _ = rawParse(j.Src, j.cfg())
			}
			tree = trees[k]
		}
		wg.Add(1)
		go func(i int32, j job) {
			defer wg.Done()
			waitTurn(i)
			k := 0
			j.run(tree, func() {
				if i == 0 && u.Switch >= 0 {
					if k++; k == u.Switch {
						setTurn(1)
						waitTurn(0)
					}
				}
			})
			next := i + 1
			if next == int32(n) {
				next = 0
			}
			setTurn(next)
		}(int32(i), j)
	}
	setTurn(0)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		freeTurn() // the callers wait for each other
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			fmt.Fprintf(os.Stderr, "\n=== STUCK\n")
			os.Exit(0)
		}
	}
}

// races runs the units in the race build and returns the reports with frames
// of go-protoparser, by unit.
func (x *indep) races(us []raceUnit) (map[int]string, string, error) {
	f := x.file(us)
	defer os.Remove(f)
	bin := filepath.Join(verifDir(), ".bin", "mc-race")
	cmd := exec.Command(bin, "indep", "race", f)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=7 atexit_sleep_ms=0")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return nil, "", fmt.Errorf("%v: %s", err, clip(eb.String(), 1000))
		}
	case <-time.After(400 * time.Second):
		cmd.Process.Kill()
		<-done
		return nil, "", errNever
	}
	out := map[int]string{}
	seen := 0
	stuck := ""
	for _, part := range strings.Split(eb.String(), "\n=== ")[1:] {
		var k int
		if strings.HasPrefix(part, "STUCK") {
			stuck = "STUCK"
		}
		if n, _ := fmt.Sscanf(part, "UNIT %d", &k); n != 1 {
			continue
		}
		seen++
		for _, rep := range strings.Split(part, "==================") {
			if strings.Contains(rep, "WARNING: DATA RACE") && ownRace(rep) && out[k] == "" {
				out[k] = rep
			}
		}
	}
	if seen != len(us) && stuck == "" {
		return nil, "", fmt.Errorf("%d of %d units ran: %s", seen, len(us), clip(eb.String(), 1000))
	}
	return out, stuck, nil
}

// ownRace: in one of the two accesses the innermost function that belongs
// neither to the runtime nor to the standard library is go-protoparser's.
func ownRace(rep string) bool {
	for _, blk := range strings.Split(rep, "\n\n") {
		head := strings.TrimSpace(blk)
		head = strings.TrimPrefix(head, "WARNING: DATA RACE\n")
		low := strings.ToLower(head)
		if !strings.HasPrefix(low, "read at") && !strings.HasPrefix(low, "write at") && !strings.HasPrefix(low, "previous") && !strings.HasPrefix(low, "atomic") {
			continue
		}
		for _, l := range strings.Split(blk, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "main.") {
				break
			}
			if strings.HasPrefix(l, "github.com/yoheimuta/go-protoparser") {
				return true
			}
		}
	}
	return false
}

// ---- the spaces ---------------------------------------------------------------

func j1(src, ops string) job { return job{Src: src, P: true, Chunk: 1, Ops: ops} }

// tiny callers: every interleaving is explored.
var tinyJobs = []job{
	j1(";;", "v"), j1("//a\n;", "v"), j1("/**/;", ""), j1("é", ""), j1(`"a`, ""), j1("enum", ""), j1(".1", ""),
	{Src: "enum E{}", P: true, Chunk: 2, Ops: "v"}, {Src: "package a;", P: true, Chunk: 3, Ops: "v"}, {Src: "import'a'", P: true, Chunk: 3},
	{Src: "option a=-1;", Chunk: 4, F: "f", Ops: "vi"}, {Src: "message M{a b=1;}", P: true, B: true, Chunk: 6, Ops: "i"},
	{Src: "option a='a'\"b\";", P: true, Chunk: 4, Ops: "v"}, {Src: "service S{rpc", P: true, Chunk: 5, Fail: 12},
	{Src: "syntax='proto3';", P: true, Chunk: 5, F: "g", D: true},
}

// callers with every construct: schedules up to a preemption bound.
var midJobs = []job{
	{Src: "message M{int32 a=1[x=\"b\"];//c\n}", P: true, Ops: "v"},
	{Src: "option o=\"a\" 'b\"';", P: true, Ops: "v"},
	{Src: "option o={a:[1,2]b{}};", P: true},
	{Src: "service S{//c\nrpc R(A)returns(stream .B){}}", P: true, B: true, Ops: "i"},
	{Src: "enum E{reserved 1 to 2,-4;A=0;option b=inf;}", Ops: "v"},
	{Src: "message M{repeated group G=1{}}", P: true, F: "a"},
	{Src: "message M{map<string,.a.B>m=1;oneof o{T b=2;}}", P: true, F: "b", Ops: "v"},
	{Src: "extend a.B{optional int32 c=1;}", P: true, D: true},
	{Src: "message M{extensions 1 to max[declaration={number:1}];}", P: true},
	{Src: "/*é*/\r\nmessage //世\nM{}//x", P: true, B: true, Ops: "vi"},
	{Src: "syntax=\"proto3\";import public\"a\";", P: true, Ops: "v"},
	{Src: "edition='2023';package a.b;;", F: "é"},
	// failures
	{Src: "message M{int32 a=;}", P: true, F: "c"},
	{Src: "message M{\"x\\", P: true},
	{Src: "enum E{reserved 1,\"a\"}", P: true},
	{Src: "message M{/*/", P: true, B: true},
	{Src: "message M{a b=1;};service S{}", Fail: 14},
	{Src: "option a={b:1};"},
}

func withChunk(js []job, n int) []job {
	out := append([]job{}, js...)
	for i := range out {
		out[i].Chunk = n
	}
	return out
}

// shared trees: what the callers do with them at the same time.
var sharedSrc = "//h\nsyntax='proto3';message M{//l\nint32 a=1[x=1];//i\nenum E{A=0;}oneof o{T b=2;}map<int32,T>c=3;reserved 5;}service S{rpc R(A)returns(B){option o=1;}};//t"

func sharedJob(ops string) job {
	return job{Src: sharedSrc, P: true, B: true, Shared: true, Ops: ops}
}

func init() {
	checks["C10"] = check{"model_checking", "the real code runs under a controlled scheduler: every read and every visitor callback is a point at which any other caller may go on; all schedules of the listed bound, and all sequences of calls of the listed length, are executed, each result is compared with that of the same call alone in a fresh process, and every tree must stay as it was returned.  states are the distinct schedule prefixes and call sequences, transitions the steps executed; the race detector watches serial and switched runs of the same callers", func(r *Run) {
		dir := r.rundir
		x := &indep{r: r, dir: dir, solo: map[job]string{}}
		cfgs := []cfg{cfgP, cfgPB, cfgS}

		// results do not change when calls are repeated; the tree survives its uses
		b := budgets{"seq": r.q(4, 1), "pairs": r.q(2, 1), "forms": r.q(3, 1), "edits1": 1, "comments": 1, "nest": r.q(2, 1), "chars": 1, "viable": 1, "pump": 10}
		r.each(r.docs(b), func(w *Worker, src string) {
			w.walk(src, cfgP)
			for _, c := range cfgs {
				j := job{Src: src, P: c.permissive, B: c.body, Chunk: 1 << 20, Ops: "vViji"}
				x.enqueue(w, j)
			}
		})
		r.Space("repeat/rest", "the last batches of the spaces above", len(r.workers), func(_ *Worker, k int) { x.flush(r.workers[k]) })

		type space struct {
			name, bound string
			us          []unit
		}
		var spaces []space
		pairs := func(js []job, bound, max int) (us []unit) {
			for i := range js {
				for k := i; k < len(js); k++ {
					us = append(us, unit{Kind: "interleave", Jobs: []job{js[i], js[k]}, Bound: bound, Max: max})
				}
			}
			return
		}
		triples := func(js []job, bound, max int) (us []unit) {
			for i := range js {
				for k := i; k < len(js); k++ {
					for l := k; l < len(js); l++ {
						us = append(us, unit{Kind: "interleave", Jobs: []job{js[i], js[k], js[l]}, Bound: bound, Max: max})
					}
				}
			}
			return
		}
		max := r.q(60000, 3000000)
		spaces = append(spaces, space{"interleavings/tiny", fmt.Sprintf("all schedules of every pair of %d callers, no preemption bound", len(tinyJobs)), pairs(tinyJobs, -1, max)})
		pb := r.q(2, 5)
		spaces = append(spaces, space{"interleavings/bytes", fmt.Sprintf("every pair of %d callers reading byte by byte, <= %d preemptions", len(midJobs), r.q(2, 3)), pairs(withChunk(midJobs, 1), r.q(2, 3), max)})
		spaces = append(spaces, space{"interleavings/pieces", fmt.Sprintf("every pair of %d callers reading 5 bytes at a time, <= %d preemptions", len(midJobs), pb), pairs(withChunk(midJobs, 5), pb, max)})
		spaces = append(spaces, space{"interleavings/three", fmt.Sprintf("three of %d callers reading 9 bytes at a time, <= %d preemptions", r.q(8, 12), r.q(2, 3)), triples(withChunk(midJobs, 9)[:r.q(8, 12)], r.q(2, 3), max)})
		var sh []job
		for _, ops := range []string{"v", "V", "vi", "iv", "j", "ij"} {
			sh = append(sh, sharedJob(ops))
		}
		spaces = append(spaces, space{"interleavings/shared-tree", fmt.Sprintf("every pair of %d users of one tree, <= %d preemptions at visitor callbacks", len(sh), r.q(2, 3)), pairs(sh, r.q(2, 3), max)})

		hist := append([]job{}, withChunk(tinyJobs, 1<<20)...)
		hist = append(hist, withChunk(midJobs, 1<<20)...)
		for _, j := range withChunk(midJobs, 1<<20)[:r.q(4, 8)] {
			j.Ops = "vis"
			hist = append(hist, j)
		}
		hs := func(js []job, depth int) (us []unit) {
			for i := range js {
				us = append(us, unit{Kind: "history", Jobs: js, Depth: depth, First: i})
			}
			return
		}
		spaces = append(spaces, space{"histories", fmt.Sprintf("all sequences of %d calls out of %d, in one process", r.q(3, 3), len(hist)), hs(hist, 3)})
		spaces = append(spaces, space{"histories/longer", fmt.Sprintf("all sequences of %d calls out of %d, in one process", r.q(4, 5), r.q(10, 12)), hs(withChunk(midJobs, 1<<20)[6:][:r.q(10, 12)], r.q(4, 5))})
		var pump []unit
		for i := range hist {
			pump = append(pump, unit{Kind: "pump", Jobs: []job{hist[i], hist[(i+7)%len(hist)]}, Max: r.q(1500, 40000)})
		}
		spaces = append(spaces, space{"histories/pumping", fmt.Sprintf("%d pairs of calls, every count of repetitions 1..%d", len(pump), r.q(1500, 40000)), pump})

		const parts = 16
		for _, l := range []struct{ n, d int }{{2, r.q(2, 3)}, {3, 1}} {
			var us []unit
			for i := 0; i < parts; i++ {
				us = append(us, unit{Kind: "lexers", Jobs: []job{{Src: "a bb/*c*/ 'd'\n\n.5"}, {Src: "x{yyyy\n//z\n\"w\"1"}, {Src: "é true"}}[:l.n], Depth: l.d, First: i, Max: parts})
			}
			spaces = append(spaces, space{fmt.Sprintf("lexers/%d", l.n), fmt.Sprintf("%d lexers alive at the same time, every sequence of %d of %d operations on each, in every order", l.n, l.d, len(lexOps)), us})
		}

		for _, s := range spaces {
			s := s
			r.Space(s.name, s.bound, len(s.us), func(w *Worker, k int) {
				x.shard(w, s.us[k])
				if k == len(s.us)/2 {
					w.sample(map[string]string{"space": s.name, "callers": fmt.Sprint(s.us[k].Jobs)})
				}
			})
		}

		// races
		var rj []job
		rj = append(rj, withChunk(tinyJobs, 4)...)
		rj = append(rj, withChunk(midJobs, 16)...)
		rj = append(rj, sh...)
		for i := range rj {
			if !rj[i].Shared && rj[i].Fail == 0 {
				rj[i].Ops = "vi"
			}
		}
		var ru []raceUnit
		for i := range rj {
			for k := range rj {
				for _, sw := range []int{-1, 2, 6}[:r.q(2, 3)] {
					if !r.thorough() && sw >= 0 && (i+k)%4 != 0 {
						continue
					}
					ru = append(ru, raceUnit{Jobs: []job{rj[i], rj[k]}, Switch: sw})
				}
			}
		}
		const per = 100
		r.Space("races", fmt.Sprintf("race detector on every ordered pair of %d callers, one after the other and switched, without any ordering between them", len(rj)), (len(ru)+per-1)/per, func(w *Worker, k int) {
			us := ru[k*per:]
			if len(us) > per {
				us = us[:per]
			}
			got, stuck, err := x.races(us)
			if err != nil {
				x.mu.Lock()
				x.race = append(x.race, err.Error())
				x.mu.Unlock()
				return
			}
			_ = stuck
			w.cases += int64(len(us))
			w.execs += int64(2 * len(us))
			for i, rep := range got {
				u := us[i]
				seen := 0
				// a report names the two accesses, so it proves the race; a second one, of
				// this unit or (the detector makes pools forget at random) of this batch, suffices.
				w.fail(violation{What: "two calls on different goroutines race", Config: fmt.Sprint("switch at ", u.Switch, ": ", u.Jobs), Want: "no memory shared without ordering", Got: rep,
					again: func() bool {
						for k := 0; k < 6 && seen == 0; k++ {
							b := us
							if k == 0 {
								b = []raceUnit{u}
							}
							if g, _, err := x.races(b); err == nil {
								seen += len(g)
							}
						}
						return seen > 0
					}})
				break
			}
		})
		for _, w := range r.workers {
			r.extra["repeated_calls"] = w.cases
		}
		cov := newCover()
		var rest int64
		for _, w := range r.workers {
			cov.merge(w.cov)
			rest += w.compared
		}
		r.extra["states"] = x.states + int64(len(cov.states))
		r.extra["transitions"] = x.steps + int64(len(cov.trans))
		r.extra["schedule_prefixes_and_sequences"] = x.states
		r.extra["scheduler_steps"] = x.steps
		r.extra["schedules_and_sequences_run"] = x.cases
		delete(r.extra, "repeated_calls")
		if len(x.notes) > 0 {
			if len(x.notes) > 20 {
				x.notes = append(x.notes[:20], fmt.Sprintf("and %d more", len(x.notes)-20))
			}
			r.extra["incomplete"] = x.notes
			r.extra["exhaustive"] = false
		}
		if len(x.race) > 0 {
			r.extra["race_detector_unavailable"] = clip(x.race[0], 500)
		}
		r.assume = append(r.assume, "callers can be preempted only at reads and visitor callbacks; between those points the race detector stands in")
	}}
}
