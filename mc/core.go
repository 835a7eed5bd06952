package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

// cfg is one setting of the options of protoparser.Parse.
type cfg struct {
	permissive bool
	body       bool
	debug      bool
	filename   string
}

func (c cfg) ref() refCfg {
	return refCfg{permissive: c.permissive, body: c.body, filename: c.filename}
}
func (c cfg) opts() []protoparser.Option {
	o := []protoparser.Option{protoparser.WithPermissive(c.permissive), protoparser.WithBodyIncludingComments(c.body)}
	if c.debug {
		o = append(o, protoparser.WithDebug(true))
	}
	if c.filename != "" {
		o = append(o, protoparser.WithFilename(c.filename))
	}
	return o
}
func (c cfg) String() string {
	return fmt.Sprintf("permissive=%v bodyIncludingComments=%v debug=%v filename=%q", c.permissive, c.body, c.debug, c.filename)
}

type violation struct {
	Property string      `json:"property"`
	Space    string      `json:"space"`
	What     string      `json:"what"`
	Config   string      `json:"config,omitempty"`
	Input    string      `json:"input"`
	Quoted   string      `json:"input_quoted"`
	Want     string      `json:"want,omitempty"`
	Got      string      `json:"got,omitempty"`
	Confirm  string      `json:"confirmed,omitempty"`
	again    func() bool // re-executes; true if still violated
}

type spaceStat struct {
	Name     string  `json:"name"`
	Bound    string  `json:"bound"`
	Cases    int64   `json:"cases"`
	Complete bool    `json:"complete"`
	Wall     float64 `json:"wall_s"`
}

type Run struct {
	prop     string
	tier     string
	seed     int
	start    time.Time
	deadline time.Time
	rundir   string
	nw       int
	scale    int // thorough budgets are this many times the quick ones
	workers  []*Worker

	stop     int32 // deadline reached or enough violations
	timedOut int32
	mu       sync.Mutex
	viols    []violation
	firstV   time.Time
	spaces   []spaceStat
	samples  []interface{}
	level    string
	extra    map[string]interface{}
	rule     string
	assume   []string
	skipped  []violation // not confirmed
}

type Worker struct {
	id   int
	run  *Run
	ref  ref
	aux  ref // for viability, without coverage
	cov  *cover
	mm   []byte
	t0   int64 // atomic: start of the current execution, 0 if idle
	desc string

	cases    int64
	execs    int64 // executions of the implementation
	compared int64 // executions compared with the model or with each other
	accepted int64
	rejected int64
	distinct map[uint64]struct{}
	out      map[string]int64 // outcome classes
	space    string
	memo     map[aloneKey][2]string // C17
	heads    map[uint64]struct{}    // C23
	batch    []job                  // C10
}

const slot = 1 << 20

func (r *Run) thorough() bool { return r.tier == "thorough" }
func (r *Run) stopped() bool  { return atomic.LoadInt32(&r.stop) != 0 }
func (w *Worker) stopped() bool {
	return atomic.LoadInt32(&w.run.stop) != 0
}

// q picks a bound by tier.
func (r *Run) q(quick, thorough int) int {
	if r.thorough() {
		return thorough
	}
	return quick
}

// begin publishes the input about to be executed, so that a crash or a hang
// of the whole process can be attributed to it.
func (w *Worker) begin(desc, src string) {
	if w.mm != nil {
		n := len(src)
		if n > slot-512 {
			n = slot - 512
		}
		d := len(desc)
		if d > 400 {
			d = 400
		}
		binary.LittleEndian.PutUint32(w.mm[4:], uint32(d))
		binary.LittleEndian.PutUint32(w.mm[8:], uint32(n))
		copy(w.mm[16:], desc[:d])
		copy(w.mm[512:], src[:n])
		*(*uint32)(unsafe.Pointer(&w.mm[0])) = 1
	}
	atomic.StoreInt64(&w.t0, time.Now().UnixNano())
}
func (w *Worker) end() {
	atomic.StoreInt64(&w.t0, 0)
	if w.mm != nil {
		*(*uint32)(unsafe.Pointer(&w.mm[0])) = 0
	}
	w.execs++
}

type panicErr struct {
	v     interface{}
	stack string
}

func (e *panicErr) Error() string { return fmt.Sprintf("panic: %v", e.v) }

// guard runs f (code under test) and turns a panic into an error.
func guard(f func()) (pe *panicErr) {
	defer func() {
		if e := recover(); e != nil {
			pe = &panicErr{e, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// rawParse runs the implementation without bookkeeping.
func rawParse(src string, c cfg) (p *parser.Proto, err error) {
	return rawParseReader(strings.NewReader(src), c)
}

func rawParseReader(rd io.Reader, c cfg) (p *parser.Proto, err error) {
	if pe := guard(func() { p, err = protoparser.Parse(rd, c.opts()...) }); pe != nil {
		return nil, pe
	}
	return
}

// parse runs the implementation on src.  A panic is a violation of whatever
// property is being checked.
func (w *Worker) parse(src string, c cfg) (*parser.Proto, error, bool) {
	w.begin(c.String(), src)
	p, err := rawParse(src, c)
	w.end()
	if pe, ok := err.(*panicErr); ok {
		w.fail(violation{What: "Parse panics", Config: c.String(), Input: src, Got: pe.Error() + "\n" + pe.stack,
			again: func() bool { _, err := rawParse(src, c); _, ok := err.(*panicErr); return ok }})
		return nil, err, false
	}
	return p, err, true
}

func (w *Worker) fail(v violation) {
	r := w.run
	v.Property = r.prop
	v.Space = w.space
	v.Quoted = fmt.Sprintf("%q", v.Input)
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.viols) == 0 {
		r.firstV = time.Now()
	}
	r.viols = append(r.viols, v)
	if os.Getenv("MC_NOSTOP") == "" && len(r.viols) >= 400 || os.Getenv("MC_NOSTOP") == "" && time.Since(r.firstV) > 4*time.Second {
		atomic.StoreInt32(&r.stop, 1)
	}
}

func (w *Worker) sample(x interface{}) {
	r := w.run
	r.mu.Lock()
	if len(r.samples) < 60 {
		r.samples = append(r.samples, x)
	}
	r.mu.Unlock()
}

func (w *Worker) note(class string) {
	w.out[class]++
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Space runs tasks 0..n-1 on all workers.
func (r *Run) Space(name, bound string, n int, f func(w *Worker, task int)) {
	if r.stopped() {
		r.mu.Lock()
		r.spaces = append(r.spaces, spaceStat{Name: name, Bound: bound})
		r.mu.Unlock()
		return
	}
	t0 := time.Now()
	var before int64
	for _, w := range r.workers {
		before += w.cases
		w.space = name
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for _, w := range r.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.stopped() {
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
	var after int64
	for _, w := range r.workers {
		after += w.cases
	}
	r.spaces = append(r.spaces, spaceStat{Name: name, Bound: bound, Cases: after - before, Complete: !r.stopped(), Wall: time.Since(t0).Seconds()})
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%-40s %10d cases %6.1fs complete=%v viol=%d\n", name, after-before, time.Since(t0).Seconds(), !r.stopped(), len(r.viols))
	}
}

// monitor watches the deadline, hangs and memory.
func (r *Run) monitor() {
	hang := 25 * time.Second
	var ms runtime.MemStats
	for i := 0; ; i++ {
		time.Sleep(100 * time.Millisecond)
		now := time.Now()
		if now.After(r.deadline) && !r.stopped() {
			atomic.StoreInt32(&r.timedOut, 1)
			atomic.StoreInt32(&r.stop, 1)
		}
		for _, w := range r.workers {
			t := atomic.LoadInt64(&w.t0)
			if t != 0 && now.Sub(time.Unix(0, t)) > hang {
				r.abort("hang", w)
			}
		}
		if i%5 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapInuse > 10<<30 {
				// the longest running execution is the suspect
				var worst *Worker
				for _, w := range r.workers {
					t := atomic.LoadInt64(&w.t0)
					if t != 0 && (worst == nil || t < atomic.LoadInt64(&worst.t0)) {
						worst = w
					}
				}
				if worst != nil {
					r.abort("memory", worst)
				}
			}
		}
		// after a deadline the spaces must wind down; if they do not, a
		// harness loop forgot to look: end with what there is
		if now.After(r.deadline.Add(90 * time.Second)) {
			os.Exit(r.finish())
		}
	}
}

func (r *Run) abort(why string, w *Worker) {
	rec := map[string]interface{}{"why": why, "worker": w.id}
	b, _ := json.Marshal(rec)
	os.WriteFile(filepath.Join(r.rundir, "abort.json"), b, 0o644)
	os.Exit(97)
}

func (r *Run) confirm() (violation, bool) {
	vs := r.viols
	sort.SliceStable(vs, func(i, j int) bool { return len(vs[i].Input) < len(vs[j].Input) })
	t0 := time.Now()
	for k, v := range vs {
		if time.Since(t0) > time.Minute && v.again != nil {
			continue
		}
		if k > 400 || k > 60 && v.again == nil {
			break
		}
		if v.again != nil {
			// an implementation whose answer varies (the order of a map, say) fails now and then
			n, tries := 0, 0
			for tries < 5 || n > 0 && n < 2 && tries < 20 || n == 0 && tries < 10 {
				if v.again() {
					n++
				}
				tries++
			}
			v.Confirm = fmt.Sprintf("%d of %d", n, tries)
			if n < 2 {
				r.skipped = append(r.skipped, v)
				continue
			}
			v.Confirm += " re-executions"
		} else {
			v.Confirm = "deterministic"
		}
		return v, true
	}
	return violation{}, false
}

// unconfirmed is the status of a run whose only anomalies do not repeat: the
// supervisor runs the check again with a single worker.
const unconfirmed = 98

// finish writes the evidence, reports and returns the exit status.
func (r *Run) finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	v, bad := r.confirm()
	for _, f := range findings {
		if f.prop == r.prop && f.n > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, f.what)
			if r.extra["known_findings_seen"] == nil {
				r.extra["known_findings_seen"] = map[string]int64{}
			}
			r.extra["known_findings_seen"].(map[string]int64)[f.key] = f.n
		}
	}
	r.evidence(bad)
	if !bad {
		if len(r.skipped) > 0 && os.Getenv("MC_WORKERS") == "" && r.rundir != "" {
			return unconfirmed
		}
		for _, s := range r.skipped {
			fmt.Printf("note: not reproducible (%s), not reported: %s input=%s\n", s.Confirm, s.What, s.Quoted)
		}
		fmt.Printf("%s %s: no violation in %.1fs\n", r.prop, r.tier, time.Since(r.start).Seconds())
		return 0
	}
	path := r.writeReplay(v)
	fmt.Printf("%s: %s\n  config: %s\n  input:  %s\n  want: %s\n  got:  %s\n", v.Space, v.What, v.Config, clip(v.Quoted, 600), clip(v.Want, 1500), clip(v.Got, 1500))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// finding is a genuine defect that is recorded in known-findings.txt and not
// repaired.  Its key selects the exact deviation of the model that describes it.
type finding struct {
	prop, key, what string
	n               int64
}

func (f *finding) seen() { atomic.AddInt64(&f.n, 1) }

var findings = loadFindings()

// loadFindings reads the lines "known: property=ID key=KEY WHAT".
func loadFindings() []*finding {
	var out []*finding
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			out = append(out, &finding{prop: f[0][len("property="):], key: f[1][4:], what: f[2]})
		}
	}
	return out
}

func knownFinding(key string) *finding {
	for _, f := range findings {
		if f.key == key {
			return f
		}
	}
	return nil
}

func (r *Run) writeReplay(v violation) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	name := fmt.Sprintf("%s-%08x.json", r.prop, uint32(hash64(v.Space+v.What+v.Config+v.Input)))
	path := filepath.Join(dir, name)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func (r *Run) evidence(violated bool) {
	cov := newCover()
	var cases, execs, compared, acc, rej int64
	distinct := map[uint64]struct{}{}
	out := map[string]int64{}
	for _, w := range r.workers {
		cov.merge(w.cov)
		cases += w.cases
		execs += w.execs
		compared += w.compared
		acc += w.accepted
		rej += w.rejected
		for k := range w.distinct {
			distinct[k] = struct{}{}
		}
		for k, v := range w.out {
			out[k] += v
		}
	}
	complete := len(r.spaces) > 0
	for _, s := range r.spaces {
		complete = complete && s.Complete
	}
	c := map[string]interface{}{
		"executions":            execs,
		"cases":                 cases,
		"spaces":                r.spaces,
		"exhaustive":            complete,
		"samples":               r.samples,
		"rule":                  r.rule,
		"deadline_hit":          atomic.LoadInt32(&r.timedOut) != 0,
		"unconfirmed_anomalies": len(r.skipped),
	}
	if acc+rej > 0 {
		c["inputs_accepted"] = acc
		c["inputs_rejected"] = rej
	}
	if r.level == "model_checking" {
		c["states"] = len(cov.states)
		c["transitions"] = len(cov.trans)
		c["traces_validated_against_impl"] = compared
	}
	if len(r.samples) == 0 {
		c["samples"] = []interface{}{"(interrupted before a sample was taken)"}
	}
	if r.level == "fault_enumeration" {
		c["evaluations"] = execs
		delete(c, "executions")
		c["distinct_nontrivial"] = len(distinct)
	}
	if len(out) > 0 {
		c["outcomes"] = out
	}
	for k, v := range r.extra {
		c[k] = v
	}
	nv := 0
	if violated {
		nv = len(r.viols)
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": r.level,
		"coverage": c, "wall_s": time.Since(r.start).Seconds(), "violations": nv,
		"assumptions": append([]string{"inputs outside the listed spaces are not covered"}, r.assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
}

func mmapSlots(path string, n int) ([]byte, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(int64(n) * slot); err != nil {
		return nil, err
	}
	return syscall.Mmap(int(f.Fd()), 0, n*slot, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
}

func newRun(prop, tier, rundir string) *Run {
	r := &Run{prop: prop, tier: tier, start: time.Now(), rundir: rundir, extra: map[string]interface{}{}, scale: 12}
	if n, err := strconv.Atoi(os.Getenv("MC_SCALE")); err == nil {
		r.scale = n
	}
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &r.seed)
	budget := 150 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	r.deadline = r.start.Add(budget)
	r.nw = runtime.GOMAXPROCS(0)
	if n, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil && n > 0 {
		r.nw = n
		r.deadline = r.start.Add(4 * budget)
	}
	var mm []byte
	if rundir != "" {
		mm, _ = mmapSlots(filepath.Join(rundir, "current"), r.nw)
	}
	for i := 0; i < r.nw; i++ {
		w := &Worker{id: i, run: r, cov: newCover(), distinct: map[uint64]struct{}{}, out: map[string]int64{}}
		w.ref.cov = w.cov
		if mm != nil {
			w.mm = mm[i*slot : (i+1)*slot]
		}
		r.workers = append(r.workers, w)
	}
	return r
}
