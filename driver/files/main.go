// files reads source files, runs the generator on each in a module of its own
// and reports whether it succeeds, whether the package compiles together with
// the hand-written rest, and which methods the generated file declares.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/iv-menshenin/valyjson/generator"
)

type input struct {
	H    int    `json:"h"`
	Src  string `json:"src"`
	Stub string `json:"stub"`
}

type event struct {
	H    int                 `json:"h"`
	Gen  string              `json:"gen"`
	Comp string              `json:"comp"`
	M    map[string][]string `json:"m"`
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func generate(f, out string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	g := generator.New(f)
	if err := g.Parse(); err != nil {
		return err
	}
	g.BuildDecoders()
	g.BuildEncoders()
	g.FixImports()
	g.Print(out)
	return nil
}

func base(e ast.Expr) string {
	for {
		switch t := e.(type) {
		case *ast.StarExpr:
			e = t.X
		case *ast.ParenExpr:
			e = t.X
		case *ast.Ident:
			return t.Name
		default:
			return fmt.Sprintf("%T", e)
		}
	}
}

// args: module directory, export table, input, output
func main() {
	dir := os.Args[1]
	exports := map[string]string{}
	b, err := os.ReadFile(os.Args[2])
	must(err)
	must(json.Unmarshal(b, &exports))
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if exports[path] == "" {
			c := exec.Command("go", "list", "-export", "-f", "{{.Export}}", path)
			c.Dir = dir
			b, err := c.Output()
			if err != nil || len(strings.TrimSpace(string(b))) == 0 {
				return nil, fmt.Errorf("no package %s", path)
			}
			exports[path] = strings.TrimSpace(string(b))
		}
		return os.Open(exports[path])
	})
	in, err := os.Open(os.Args[3])
	must(err)
	res, err := os.Create(os.Args[4])
	must(err)
	w := bufio.NewWriter(res)
	s := bufio.NewScanner(in)
	s.Buffer(nil, 1<<24)
	src, stub, out := filepath.Join(dir, "p", "types.go"), filepath.Join(dir, "p", "rest.go"), filepath.Join(dir, "p", "types_json.go")
	for s.Scan() {
		var x input
		must(json.Unmarshal(s.Bytes(), &x))
		must(os.RemoveAll(filepath.Join(dir, "p")))
		must(os.MkdirAll(filepath.Join(dir, "p"), 0o755))
		must(os.WriteFile(src, []byte(x.Src), 0o644))
		ev := event{H: x.H, M: map[string][]string{}}
		if err := generate(src, out); err != nil {
			ev.Gen = err.Error()
		} else {
			must(os.WriteFile(stub, []byte(x.Stub), 0o644))
			ev.Comp = compile(fset, imp, filepath.Join(dir, "p"), out, ev.M)
		}
		j, err := json.Marshal(ev)
		must(err)
		_, err = w.Write(append(j, '\n'))
		must(err)
	}
	must(s.Err())
	must(w.Flush())
}

func compile(fset *token.FileSet, imp types.Importer, dir, out string, m map[string][]string) string {
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	must(err)
	var fs []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, nil, parser.SkipObjectResolution)
		if err != nil {
			return err.Error()
		}
		fs = append(fs, f)
		if n != out {
			continue
		}
		for _, d := range f.Decls {
			if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv != nil && len(fn.Recv.List) == 1 {
				t := base(fn.Recv.List[0].Type)
				m[t] = append(m[t], fn.Name.Name)
			}
		}
	}
	for t := range m {
		sort.Strings(m[t])
	}
	var errs []string
	conf := types.Config{Importer: imp, Error: func(err error) {
		if len(errs) < 8 {
			errs = append(errs, err.Error())
		}
	}}
	conf.Check("corp/p", fset, fs, nil)
	return strings.Join(errs, "\n")
}
