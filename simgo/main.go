// Command simgo makes a copy of the packages under test, the third-party packages they use, the
// standard context package and the harness in which every source of nondeterminism is a call into
// the simulator runtime (verif.local/vsim). The rewriting is type-directed, so it depends on what the
// code does and not on how it is written.
//
//	simgo -repo /repo -sim /verif/sim -harness /verif/harness -out DIR
//
// It leaves a module tree in DIR; the program is built in DIR/harness.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repoDir    = flag.String("repo", "/repo", "module under test")
	simDir     = flag.String("sim", "/verif/sim", "simulator runtime")
	harnessDir = flag.String("harness", "/verif/harness", "harness")
	outDir     = flag.String("out", "", "output directory")
	repoPath   string
)

const (
	vsimPath    = "verif.local/vsim"
	ctxPath     = "verif.local/vctx"
	harnessPath = "verif.local/harness"
)

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simgo: "+format+"\n", a...)
	os.Exit(3)
}

type jmod struct {
	Path, Version, Dir, GoVersion string
	Main                          bool
	Replace                       *jmod
}

type jpkg struct {
	ImportPath, Name, Dir, Export string
	Standard                      bool
	GoFiles, CgoFiles, SFiles     []string
	EmbedFiles                    []string
	Imports                       []string
	ImportMap                     map[string]string
	Module                        *jmod
	Error                         *struct{ Err string }
}

type pkg struct {
	j     *jpkg
	files []*ast.File
	names []string
	tp    *types.Package
	info  *types.Info
	out   string // import path in the output
	repo  bool
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func write(p, s string) {
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, []byte(s), 0o644))
}

func run(dir string, name string, args ...string) []byte {
	c := exec.Command(name, args...)
	c.Dir = dir
	var e bytes.Buffer
	c.Stderr = &e
	o, err := c.Output()
	if err != nil {
		fatal("%s %s: %v\n%s", name, strings.Join(args, " "), err, e.String())
	}
	return o
}

func modulePath(dir string) string {
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`)
		}
	}
	fatal("no module line in %s/go.mod", dir)
	return ""
}

func main() {
	flag.Parse()
	if *outDir == "" {
		fatal("-out is required")
	}
	repoPath = modulePath(*repoDir)

	// a module that sees everything
	lm := filepath.Join(*outDir, "list")
	write(filepath.Join(lm, "go.mod"), fmt.Sprintf(`module verif.local/list

go 1.21

require (
	%s v0.0.0
	%s v0.0.0
	%s v0.0.0
)

replace %s => %s
replace %s => %s
replace %s => %s
`, repoPath, vsimPath, harnessPath, repoPath, *repoDir, vsimPath, *simDir, harnessPath, *harnessDir))
	if b, err := os.ReadFile(filepath.Join(*repoDir, "go.sum")); err == nil {
		write(filepath.Join(lm, "go.sum"), string(b))
	}
	out := run(lm, "go", "list", "-mod=mod", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,Standard,GoFiles,CgoFiles,SFiles,EmbedFiles,Imports,ImportMap,Module,Error", harnessPath, "context", repoPath+"/...")
	var order []*pkg
	byPath := map[string]*pkg{}
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var j jpkg
		if err := dec.Decode(&j); err == io.EOF {
			break
		} else {
			must(err)
		}
		if j.Error != nil {
			fatal("%s: %s", j.ImportPath, j.Error.Err)
		}
		exports[j.ImportPath] = j.Export
		if strings.HasPrefix(j.ImportPath, vsimPath) {
			continue
		}
		if j.Standard && j.ImportPath != "context" {
			continue
		}
		if len(j.CgoFiles) > 0 || len(j.SFiles) > 0 || len(j.EmbedFiles) > 0 {
			fatal("%s: cgo, assembly and embedded files are not supported", j.ImportPath)
		}
		p := &pkg{j: &j, out: j.ImportPath}
		if j.ImportPath == "context" {
			p.out = ctxPath
		}
		p.repo = j.Module != nil && j.Module.Path == repoPath
		order = append(order, p)
		byPath[j.ImportPath] = p
	}

	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range order {
		for _, f := range p.j.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.j.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			must(err)
			p.files = append(p.files, af)
			p.names = append(p.names, f)
		}
		p.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
			Instances: map[*ast.Ident]types.Instance{},
		}
		gv := ""
		if p.j.Module != nil && p.j.Module.GoVersion != "" {
			gv = "go" + p.j.Module.GoVersion
		}
		conf := types.Config{
			GoVersion: gv,
			Sizes:     types.SizesFor("gc", "amd64"),
			Importer: imp(func(path string) (*types.Package, error) {
				if m, ok := p.j.ImportMap[path]; ok {
					path = m
				}
				if path == "unsafe" {
					return types.Unsafe, nil
				}
				if q := byPath[path]; q != nil && q.tp != nil && path != "context" {
					return q.tp, nil
				}
				return gc.Import(path)
			}),
		}
		tp, err := conf.Check(p.j.ImportPath, fset, p.files, p.info)
		must(err)
		p.tp = tp
	}

	mods := map[string]*jmod{}
	modOut := map[string]string{}
	for _, p := range order {
		r := &rewriter{fset: fset, p: p}
		dir := ""
		if p.out == ctxPath {
			dir = filepath.Join(*outDir, "ctx")
		} else {
			m := p.j.Module
			mods[m.Path] = m
			base := "m_" + strings.NewReplacer("/", "_", ".", "_").Replace(m.Path)
			if m.Path == harnessPath {
				base = "harness"
			}
			modOut[m.Path] = base
			rel := strings.TrimPrefix(strings.TrimPrefix(p.j.ImportPath, m.Path), "/")
			dir = filepath.Join(*outDir, base, rel)
		}
		must(os.MkdirAll(dir, 0o755))
		r.rewrite(dir)
	}

	var paths []string
	for m := range mods {
		paths = append(paths, m)
	}
	sort.Strings(paths)
	ver := func(m string) string {
		v := mods[m].Version
		if v == "" {
			v = "v0.0.0"
		}
		return v
	}
	var reqs, repl strings.Builder
	fmt.Fprintf(&reqs, "require %s v0.0.0\nrequire %s v0.0.0\n", vsimPath, ctxPath)
	fmt.Fprintf(&repl, "replace %s => %s\nreplace %s => %s\n", vsimPath, *simDir, ctxPath, filepath.Join(*outDir, "ctx"))
	for _, m := range paths {
		if m == harnessPath {
			continue
		}
		fmt.Fprintf(&reqs, "require %s %s\n", m, ver(m))
		fmt.Fprintf(&repl, "replace %s => %s\n", m, filepath.Join(*outDir, modOut[m]))
	}
	gover := func(v string) string {
		var a, b int
		fmt.Sscanf(v, "%d.%d", &a, &b)
		if a < 1 || (a == 1 && b < 20) {
			return "1.20"
		}
		return v
	}
	for _, m := range paths {
		s := fmt.Sprintf("module %s\n\ngo %s\n\n", m, gover(mods[m].GoVersion))
		if m == harnessPath {
			s += reqs.String() + repl.String()
		} else {
			s += fmt.Sprintf("require %s v0.0.0\nrequire %s v0.0.0\n", vsimPath, ctxPath)
		}
		write(filepath.Join(*outDir, modOut[m], "go.mod"), s)
	}
	write(filepath.Join(*outDir, "ctx", "go.mod"), fmt.Sprintf("module %s\n\ngo 1.21\n\nrequire %s v0.0.0\n", ctxPath, vsimPath))
}

type imp func(string) (*types.Package, error)

func (f imp) Import(p string) (*types.Package, error) { return f(p) }
