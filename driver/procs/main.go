// procs replays histories of generator runs. Every history has a fresh copy of
// the modules; every "start" in it is a new process; after every step all
// files are compared with what they were before.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/iv-menshenin/valyjson/generator"
)

type file struct {
	ID, Path, V1, V2, Out, Dir string
	Mod                        int
	G                          bool
}

type op struct {
	Op    string `json:"op"`
	F     string `json:"f,omitempty"`
	Cwd   string `json:"cwd,omitempty"`
	Style string `json:"style,omitempty"`
	How   string `json:"how,omitempty"`
	V     int    `json:"v,omitempty"`
}

type history struct {
	H int  `json:"h"`
	S []op `json:"s"`
}

type change struct {
	P string `json:"p"`
	C string `json:"c"`
}

type event struct {
	op
	Ok  bool     `json:"ok"`
	Err string   `json:"err"`
	Ch  []change `json:"ch"`
}

type trace struct {
	H int     `json:"h"`
	S []event `json:"s"`
}

type job struct {
	Root string
	Ops  []op
}

var files = map[string]file{}
var order []file

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func module(root string, f file) string { return filepath.Join(root, fmt.Sprintf("m%d", f.Mod)) }
func put(name, text string) {
	must(os.MkdirAll(filepath.Dir(name), 0o755))
	must(os.WriteFile(name, []byte(text), 0o644))
}

// dir gives the directory a history means by name
func dir(root, name string, f file) string {
	m := module(root, f)
	switch name {
	case "mod":
		return m
	case "own":
		return filepath.Join(m, f.Dir)
	case "sub":
		return filepath.Join(m, "plain", "sub")
	case "other":
		return filepath.Join(root, fmt.Sprintf("m%d", 3-f.Mod), "x")
	case "out":
		return root
	}
	return "/"
}

// named gives the file name in the given style, as seen from cwd
func named(root, cwd, style string, f file, rel string) string {
	abs := filepath.Join(module(root, f), rel)
	r, err := filepath.Rel(cwd, abs)
	must(err)
	switch style {
	case "rel":
		return r
	case "dot":
		return "./" + r
	case "unclean":
		return filepath.Dir(abs) + "/../" + filepath.Base(filepath.Dir(abs)) + "//" + filepath.Base(abs)
	case "updown":
		up, err := filepath.Rel(cwd, module(root, f))
		must(err)
		return up + "/plain/../" + rel
	case "link":
		return filepath.Join(root, fmt.Sprintf("link%d", f.Mod), rel)
	}
	return abs
}

func generate(in, out string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	g := generator.New(in)
	if err := g.Parse(); err != nil {
		return err
	}
	g.BuildDecoders()
	g.BuildEncoders()
	g.FixImports()
	g.Print(out)
	return nil
}

func snapshot(root string) map[string]string {
	out := map[string]string{}
	must(filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if i.Mode()&os.ModeSymlink != 0 {
			to, _ := os.Readlink(p)
			out[rel] = "link " + to
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := sha256.Sum256(b)
		out[rel] = hex.EncodeToString(s[:8])
		return nil
	}))
	return out
}

func diff(a, b map[string]string) []change {
	out := []change{}
	for p, c := range b {
		if a[p] != c {
			out = append(out, change{p, c})
		}
	}
	for p := range a {
		if _, ok := b[p]; !ok {
			out = append(out, change{p, "gone"})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].P < out[j].P })
	return out
}

func content(root string, refs string, o op, f file) string {
	switch o.How {
	case "junk":
		return "this is not go\n"
	case "long":
		return "package " + strings.Repeat("x", 70000) + "\n"
	case "empty":
		return ""
	case "cut":
		b, err := os.ReadFile(filepath.Join(refs, f.ID+".go"))
		must(err)
		return string(b[:len(b)/2])
	case "old":
		b, err := os.ReadFile(filepath.Join(refs, f.ID+".old.go"))
		must(err)
		return string(b)
	}
	must(fmt.Errorf("how %q", o.How))
	return ""
}

// child runs one process of a history
func child(refs string) {
	var j job
	must(json.NewDecoder(os.Stdin).Decode(&j))
	w := json.NewEncoder(os.Stdout)
	before := snapshot(j.Root)
	for _, o := range j.Ops {
		e := event{op: o, Ok: true}
		f := files[o.F]
		switch o.Op {
		case "gen":
			cwd := dir(j.Root, o.Cwd, f)
			must(os.Chdir(cwd))
			if err := generate(named(j.Root, cwd, o.Style, f, f.Path), named(j.Root, cwd, o.Style, f, f.Out)); err != nil {
				e.Ok, e.Err = false, strings.ReplaceAll(err.Error(), j.Root, "")
			}
		case "edit":
			text := f.V1
			if o.V == 2 {
				text = f.V2
			}
			put(filepath.Join(module(j.Root, f), f.Path), text)
		case "spoil":
			p := filepath.Join(module(j.Root, f), f.Out)
			if o.How == "absent" {
				os.Remove(p)
			} else {
				put(p, content(j.Root, refs, o, f))
			}
		case "static":
			p := filepath.Join(module(j.Root, f), f.Dir, os.Getenv("VJ_STATIC"))
			if o.How == "absent" {
				os.Remove(p)
			} else {
				put(p, content(j.Root, refs, o, f))
			}
		}
		after := snapshot(j.Root)
		e.Ch = diff(before, after)
		before = after
		must(w.Encode(e))
	}
}

func run(h history, scratch string) trace {
	root := filepath.Join(scratch, fmt.Sprintf("h%d", h.H))
	defer os.RemoveAll(root)
	for _, f := range order {
		put(filepath.Join(module(root, f), f.Path), f.V1)
	}
	for m := 1; m <= 2; m++ {
		put(fmt.Sprintf("%s/m%d/go.mod", root, m), "module "+os.Getenv("VJ_MODULE")+"\n\ngo 1.18\n")
		must(os.MkdirAll(fmt.Sprintf("%s/m%d/plain/sub", root, m), 0o755))
		must(os.Symlink(fmt.Sprintf("m%d", m), fmt.Sprintf("%s/link%d", root, m)))
	}
	t := trace{H: h.H}
	for i := 0; i < len(h.S); {
		j := i + 1
		for j < len(h.S) && h.S[j].Op != "start" {
			j++
		}
		in, err := json.Marshal(job{root, h.S[i:j]})
		must(err)
		c := exec.Command(os.Args[0], "child", os.Args[2], os.Args[3])
		c.Stdin = bytes.NewReader(in)
		var errs bytes.Buffer
		c.Stderr = &errs
		out, err := c.Output()
		n := 0
		s := bufio.NewScanner(bytes.NewReader(out))
		s.Buffer(nil, 1<<26)
		for s.Scan() {
			var e event
			if json.Unmarshal(s.Bytes(), &e) != nil {
				continue // something the generator printed
			}
			t.S = append(t.S, e)
			n++
		}
		if err != nil && c.ProcessState.ExitCode() == 3 {
			must(fmt.Errorf("%v: %s", err, errs.String()))
		}
		if n < j-i { // died
			msg := errs.String()
			if len(msg) > 800 {
				msg = msg[:800]
			}
			t.S = append(t.S, event{op: h.S[i+n], Err: fmt.Sprintf("the process dies: %v: %s", err, msg), Ch: []change{}})
			break
		}
		i = j
	}
	return t
}

// usage: procs run|child FILES REFS [HISTORIES OUT SCRATCH]
func main() {
	b, err := os.ReadFile(os.Args[2])
	must(err)
	must(json.Unmarshal(b, &order))
	for _, f := range order {
		files[f.ID] = f
	}
	if os.Args[1] == "child" {
		child(os.Args[3])
		return
	}
	if os.Args[1] == "refs" { // SCRATCH: write the outputs of both versions into REFS
		for _, f := range order {
			if !f.G {
				continue
			}
			for v, suffix := range map[int]string{1: ".go", 2: ".old.go"} {
				root := filepath.Join(os.Args[4], "ref")
				for _, g := range order {
					put(filepath.Join(module(root, g), g.Path), g.V1)
				}
				put(fmt.Sprintf("%s/m%d/go.mod", root, f.Mod), "module "+os.Getenv("VJ_MODULE")+"\n\ngo 1.18\n")
				if v == 2 {
					put(filepath.Join(module(root, f), f.Path), f.V2)
				}
				out := filepath.Join(module(root, f), f.Out)
				generate(filepath.Join(module(root, f), f.Path), out)
				text, err := os.ReadFile(out)
				if err != nil {
					text = []byte("package none\n\nfunc gone() {\n}\n")
				}
				put(filepath.Join(os.Args[3], f.ID+suffix), string(text))
				must(os.RemoveAll(root))
			}
		}
		return
	}
	in, err := os.Open(os.Args[4])
	must(err)
	var hs []history
	s := bufio.NewScanner(in)
	s.Buffer(nil, 1<<26)
	for s.Scan() {
		var h history
		must(json.Unmarshal(s.Bytes(), &h))
		hs = append(hs, h)
	}
	out := make([]trace, len(hs))
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				out[i] = run(hs[i], os.Args[6])
			}
		}()
	}
	for i := range hs {
		next <- i
	}
	close(next)
	wg.Wait()
	o, err := os.Create(os.Args[5])
	must(err)
	w := json.NewEncoder(o)
	for _, t := range out {
		must(w.Encode(t))
	}
	must(o.Close())
}
