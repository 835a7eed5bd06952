package main

// The JSON form of the trees and the dump tool (C22).

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/yoheimuta/go-protoparser/v4/interpret/unordered"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

// jsonDiff compares a value with its decoded JSON form: an object with exactly
// the exported fields under their own names, an array with the elements in
// order, null for what is absent.
func jsonDiff(v reflect.Value, j interface{}, path string) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			if j != nil {
				return fmt.Sprintf("%s is nil, but %v in JSON", path, j)
			}
			return ""
		}
		return jsonDiff(v.Elem(), j, path)
	case reflect.Slice:
		if v.IsNil() && j == nil {
			return ""
		}
		a, ok := j.([]interface{})
		if !ok || len(a) != v.Len() {
			return fmt.Sprintf("%s has %d elements, but JSON has %T with %d", path, v.Len(), j, len(a))
		}
		for i := range a {
			if s := jsonDiff(v.Index(i), a[i], fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
		return ""
	case reflect.Struct:
		o, ok := j.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s is a struct, but %T in JSON", path, j)
		}
		n := 0
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			n++
			e, ok := o[f.Name]
			if !ok {
				return fmt.Sprintf("%s.%s is missing in JSON", path, f.Name)
			}
			if s := jsonDiff(v.Field(i), e, path+"."+f.Name); s != "" {
				return s
			}
		}
		if n != len(o) {
			return fmt.Sprintf("%s has %d fields, but %d in JSON", path, n, len(o))
		}
		return ""
	case reflect.String:
		if s, ok := j.(string); !ok || s != v.String() {
			return fmt.Sprintf("%s is %q, but %v in JSON", path, v.String(), j)
		}
		return ""
	case reflect.Bool:
		if b, ok := j.(bool); !ok || b != v.Bool() {
			return fmt.Sprintf("%s is %v, but %v in JSON", path, v.Bool(), j)
		}
		return ""
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n, ok := j.(json.Number); !ok || n.String() != strconv.FormatInt(v.Int(), 10) {
			return fmt.Sprintf("%s is %d, but %v in JSON", path, v.Int(), j)
		}
		return ""
	}
	return "" // no other kinds in the trees so far
}

func jsonOf(v interface{}) (s string) {
	pe := guard(func() {
		b, err := json.Marshal(v)
		if err != nil {
			s = "encoding fails: " + err.Error()
			return
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var j interface{}
		if err := d.Decode(&j); err != nil {
			s = "the encoding is not JSON: " + err.Error()
			return
		}
		s = jsonDiff(reflect.ValueOf(v), j, reflect.TypeOf(v).Elem().Name())
	})
	if pe != nil {
		return "encoding panics: " + pe.Error()
	}
	return
}

// interfaces says whether the unordered tree holds elements which are kept as
// they were parsed, with a body of interface values.
func interfaces(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface:
		return true
	case reflect.Ptr:
		return !v.IsNil() && interfaces(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if interfaces(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		switch v.Type() {
		case reflect.TypeOf(parser.GroupField{}), reflect.TypeOf(parser.Extend{}):
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			if interfaces(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

func jsonTree(p *parser.Proto) string {
	if s := jsonOf(p); s != "" {
		return s
	}
	u, err := unordered.InterpretProto(p)
	if err != nil {
		return "interpreting fails: " + err.Error()
	}
	if s := jsonOf(u); s != "" {
		return "unordered: " + s
	}
	if interfaces(reflect.ValueOf(u)) {
		return ""
	}
	b, _ := json.Marshal(u)
	var back *unordered.Proto
	var s string
	if pe := guard(func() {
		if err := json.Unmarshal(b, &back); err != nil {
			s = "unordered: decoding the encoded tree fails: " + err.Error()
		} else if !reflect.DeepEqual(u, back) {
			c, _ := json.Marshal(back)
			s = "unordered: the decoded tree differs from the encoded one: " + clip(string(c), 400) + " instead of " + clip(string(b), 400)
		}
	}); pe != nil {
		return "unordered: decoding panics: " + pe.Error()
	}
	return s
}

func jsonCase(w *Worker, src string) {
	w.walk(src, cfgPB)
	for _, c := range []cfg{cfgPB, cfgSF} {
		p, err, ok := w.parse(src, c)
		if !ok {
			return
		}
		if err != nil {
			w.rejected++
			continue
		}
		w.accepted++
		w.compared++
		if s := jsonTree(p); s != "" {
			c := c
			w.fail(violation{What: "the JSON form is not the tree", Config: c.String(), Input: src, Got: s,
				again: func() bool {
					p, err := rawParse(src, c)
					return err != nil || jsonTree(p) != ""
				}})
			return
		}
	}
}

// ---- the dump tool --------------------------------------------------------------

func dumpDocs() []string {
	ds := []string{"", "\n", ";", "x", "syntax = \"proto3\";", "syntax = \"proto2\";\nmessage M { optional group G = 1 { } }", "message M {};", "message M {", "option a = { b: 1 };",
		"// only a comment", "message M { int32 a = 1; // x\n // y\n }", "import \"<&>é\";", "message M { reserved \"a\" }", "/*", "\xff", "edition = \"2023\";\nextend a { int32 b = 1; }\n"}
	for _, f := range testdata() {
		ds = append(ds, f)
	}
	return ds
}

func dumpTool(r *Run) {
	dir, err := os.MkdirTemp("", "mc-dump")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "dump")
	cmd := exec.Command("go", "build", "-o", bin, "./_example/dump")
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.Space("dump-tool", "building it", 1, func(w *Worker, _ int) {
			w.fail(violation{What: "the dump tool does not build", Input: "_example/dump", Got: string(out)})
		})
		return
	}
	docs := dumpDocs()
	r.Space("dump-tool", fmt.Sprintf("%d files and a missing one under all settings of the three flags, present and left out", len(docs)), len(docs)+1, func(w *Worker, task int) {
		name := filepath.Join(dir, fmt.Sprintf("d%d.proto", task))
		src, missing := "", task == len(docs)
		if !missing {
			src = docs[task]
			if err := os.WriteFile(name, []byte(src), 0o600); err != nil {
				panic(err)
			}
		}
		for k := 0; k < 27; k++ {
			if w.stopped() {
				return
			}
			args := []string{"-proto=" + name}
			val := map[string]bool{"debug": false, "permissive": true, "unordered": false}
			n := k
			for _, f := range []string{"debug", "permissive", "unordered"} {
				if n%3 != 2 {
					val[f] = n%3 == 1
					args = append(args, fmt.Sprintf("-%s=%v", f, val[f]))
				}
				n /= 3
			}
			w.cases++
			w.execs++
			w.compared++
			f := func() string {
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				defer cancel()
				c := exec.CommandContext(ctx, bin, args...)
				var out, errb bytes.Buffer
				c.Stdout, c.Stderr = &out, &errb
				runErr := c.Run()
				if missing {
					if c.ProcessState.ExitCode() != 1 || out.Len() > 0 || errb.Len() == 0 {
						return fmt.Sprintf("a missing file: exit %v, output %q, errors %q", runErr, out.String(), errb.String())
					}
					return ""
				}
				p, perr := rawParse(src, cfg{permissive: val["permissive"], filename: filepath.Base(name)})
				if perr != nil {
					if c.ProcessState.ExitCode() != 1 || out.Len() > 0 || errb.Len() == 0 {
						return fmt.Sprintf("a malformed file: %v, output %q, errors %q", runErr, clip(out.String(), 200), clip(errb.String(), 200))
					}
					return ""
				}
				var v interface{} = p
				if val["unordered"] {
					u, err := unordered.InterpretProto(p)
					if err != nil {
						return ""
					}
					v = u
				}
				want, _ := json.Marshal(v)
				var got bytes.Buffer
				if err := json.Compact(&got, out.Bytes()); runErr != nil || err != nil || got.String() != string(want) {
					return fmt.Sprintf("%v, output %s, errors %q", runErr, clip(got.String(), 300), clip(errb.String(), 200))
				}
				return ""
			}
			if s := f(); s != "" {
				w.fail(violation{What: "the dump tool does not print the tree", Config: strings.Join(args[1:], " "), Input: src, Got: s, again: func() bool { return f() != "" }})
				return
			}
		}
	})
}

func init() {
	docBudgets["C22"] = budgets{"vocab": 1, "twins": 1, "seq": 20, "nest": 20, "pairs": 20, "blocks": 20, "forms": 30, "gaps": 2, "edits1": 1, "comments": 15, "pump": 20, "far": 300, "chars": 1, "tokens": 0, "viable": 1, "rune-s": 1, "rune-c": 1}
	checks["C22"] = check{"model_checking", "every tree parsed from the listed spaces, and its unordered interpretation, is encoded as JSON, decoded generically and compared field by field with the tree; the unordered ones are decoded into their own type and compared again; the dump tool runs on files under all settings of its flags; states and transitions are those of the grammar automaton walked by the inputs", func(r *Run) {
		dumpTool(r)
		r.each(r.docs(docBudgets["C22"]), jsonCase)
	}}
}
