package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

type check struct {
	level string
	rule  string
	run   func(r *Run)
}

var checks = map[string]check{}

// ballast keeps the collector from running all the time on a tiny heap.
var ballast []byte

func usage() {
	fmt.Println("usage: mc CHECK [quick|thorough] | mc one FILE | mc replay FILE")
	os.Exit(2)
}

func main() {
	runtime.LockOSThread() // children die with this thread
	log.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	ballast = make([]byte, 64<<20)
	debug.SetGCPercent(800)
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "deep":
		debug.SetMaxStack(1000000000)
		deepInput(os.Args[2])
		return
	case "one":
		oneInput(os.Args[2])
		return
	case "indep":
		indepMain(os.Args[2:])
		return
	case "replay":
		replay(os.Args[2])
		return
	}
	if os.Args[1] == "sizes" {
		sizes(os.Args[2], os.Args[3])
		return
	}
	prop := os.Args[1]
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	c, ok := checks[prop]
	if !ok {
		usage()
	}
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(supervise(prop, tier, c))
	}
	r := newRun(prop, tier, os.Getenv("MC_RUNDIR"))
	r.level = c.level
	r.rule = c.rule
	go r.monitor()
	c.run(r)
	os.Exit(r.finish())
}

// supervise runs the check in a child process.  If the child dies or gets
// stuck inside the code under test, the input responsible is found, confirmed
// alone, and reported.
func supervise(prop, tier string, c check) int {
	dir, err := os.MkdirTemp("", "mc-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	start := time.Now()
	report := func(v violation) int {
		r := newRun(prop, tier, "")
		r.level, r.rule, r.start = c.level, c.rule, start
		v.Property = prop
		r.spaces = []spaceStat{{Name: "interrupted", Bound: "interrupted by the violation"}}
		r.viols = []violation{v}
		r.workers[0].execs = 1
		r.evidence(true)
		p := r.writeReplay(v)
		fmt.Printf("%s\n  config: %s\n  input:  %s\n", v.What, v.Config, clip(v.Quoted, 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		return 1
	}
	var before []violation
	single := false
	for attempt := 0; attempt < 3; attempt++ {
		cmd := exec.Command("/proc/self/exe", prop, tier)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.Env = append(os.Environ(), "MC_CHILD=1", "MC_RUNDIR="+dir)
		if single {
			cmd.Env = append(cmd.Env, "MC_WORKERS=1")
		}
		os.Remove(filepath.Join(dir, "current"))
		os.Remove(filepath.Join(dir, "abort.json"))
		cmd.Stdout = os.Stdout
		var eb bytes.Buffer
		if os.Getenv("MC_VERBOSE") != "" {
			cmd.Stderr = io.MultiWriter(&eb, os.Stderr)
		} else {
			cmd.Stderr = &eb
		}
		err := cmd.Run()
		if err == nil {
			return 0
		}
		code := cmd.ProcessState.ExitCode()
		if code == 1 {
			return 1
		}
		if code == unconfirmed {
			fmt.Println("anomalies that do not repeat: once more with a single worker")
			single = true
			continue
		}
		msg := eb.String()
		why := "the process dies: " + firstLine(msg)
		if b, err := os.ReadFile(filepath.Join(dir, "abort.json")); err == nil {
			var rec map[string]interface{}
			json.Unmarshal(b, &rec)
			why = fmt.Sprint("no end in sight (", rec["why"], ")")
		}
		fmt.Printf("child ended abnormally (status %d): %s\n", code, why)
		now := inFlight(dir)
		if v, ok := blame(dir, now); ok {
			v.What = "Parse does not return on this input: " + why
			return report(v)
		}
		// the same thing was running when an earlier attempt ended, or nothing
		// else was running
		for _, v := range now {
			same := single && len(now) == 1
			for _, o := range before {
				same = same || o.Config == v.Config && o.Input == v.Input
			}
			if same {
				v.What = "the code under test does not return: " + why
				v.Got = clip(msg, 4000)
				v.Confirm = "every attempt ended here"
				return report(v)
			}
		}
		before = append(before, now...)
		single = attempt >= 1
		if attempt == 2 {
			fmt.Println(clip(msg, 4000))
		}
	}
	return 2
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return clip(s, 200)
}

// inFlight gives what was running when the child ended.
func inFlight(dir string) (out []violation) {
	b, err := os.ReadFile(filepath.Join(dir, "current"))
	if err != nil {
		return nil
	}
	for off := 0; off+slot <= len(b); off += slot {
		s := b[off : off+slot]
		if binary.LittleEndian.Uint32(s) == 0 {
			continue
		}
		d, n := binary.LittleEndian.Uint32(s[4:]), binary.LittleEndian.Uint32(s[8:])
		desc, src := string(s[16:16+d]), string(s[512:512+n])
		out = append(out, violation{Config: desc, Input: src, Quoted: fmt.Sprintf("%q", src)})
	}
	return out
}

// blame parses the inputs that were running when the child ended, each in a
// process of its own.
func blame(dir string, now []violation) (violation, bool) {
	for _, v := range now {
		desc, src := v.Config, v.Input
		f := filepath.Join(dir, "one.json")
		j, _ := json.Marshal(map[string][]byte{"input": []byte(src)})
		os.WriteFile(f, j, 0o600)
		bad := 0
		for i := 0; i < 2; i++ {
			cmd := exec.Command("/proc/self/exe", "one", f)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=off")
			if err := cmd.Start(); err != nil {
				continue
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case err := <-done:
				if err != nil {
					bad++
				}
			case <-time.After(40 * time.Second):
				cmd.Process.Kill()
				<-done
				bad++
			}
		}
		if bad == 2 {
			return violation{Config: desc, Input: src, Quoted: fmt.Sprintf("%q", src), Confirm: "2 of 2 re-executions in fresh processes"}, true
		}
	}
	return violation{}, false
}

// oneInput parses one input under every configuration; exits 0 if it returns.
func oneInput(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		os.Exit(0)
	}
	var m map[string][]byte
	if json.Unmarshal(b, &m) != nil {
		os.Exit(0)
	}
	go func() { // memory runaway
		for {
			time.Sleep(50 * time.Millisecond)
			if rss() > 8<<30 {
				os.Exit(3)
			}
		}
	}()
	for _, c := range allCfgs {
		rawParse(string(m["input"]), c)
	}
	os.Exit(0)
}

func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	var a, r int64
	fmt.Sscanf(string(b), "%d %d", &a, &r)
	return r * int64(os.Getpagesize())
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("property %s: %s\nconfig %s\ninput %q\nwant %s\ngot %s\n", v.Property, v.What, v.Config, v.Input, v.Want, v.Got)
	for _, c := range allCfgs {
		p, err := rawParse(v.Input, c)
		fmt.Printf("--- now, %s\nerr=%v\n", c, err)
		if p != nil {
			fmt.Println(dump(p, fAll))
		}
		var r ref
		_, rej := r.parse(v.Input, c.ref())
		if rej >= 0 {
			lo, hi := r.errRange(rej)
			fmt.Printf("model: rejects at token %d %q, offset in [%d,%d]\n", rej, r.toks[rej].text, lo, hi)
		} else {
			fmt.Println("model: accepts")
		}
	}
}

var allCfgs = []cfg{
	{permissive: true}, {permissive: true, body: true}, {permissive: false}, {permissive: false, body: true},
	{permissive: true, filename: "f.proto"}, {permissive: true, debug: true},
}

// sizes counts the documents of every universe without running anything.
func sizes(prop, tier string) {
	r := newRun("sizes", tier, "")
	var tot int64
	for _, u := range append(r.docs(docBudgets[prop]), r.docs(optBudgets)...) {
		n := r.count(u, 1<<40)
		tot += n
		fmt.Printf("%-34s %10d docs  %s\n", u.name, n, u.bound)
	}
	fmt.Printf("%d docs, chosen and counted in %.1fs\n", tot, time.Since(r.start).Seconds())
}
