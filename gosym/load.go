package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"text/template"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/blocktree/go-owcdrivers"

var repoDir = "/repo"

type Engine struct {
	fset *token.FileSet
	prog *ssa.Program
	itoa *ssa.Function
	pkgs map[string]*ssa.Package
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) model(name string) *ssa.Function { return nil }

// HarnessFile is one harness source instantiated for one package.
type HarnessFile struct {
	Prop    string
	Src     string // template path
	Pkg     string // repo-relative package directory
	Overlay string // virtual file name inside the package
	Text    string
	Funcs   []string
	Dropped string
}

// readHarnesses instantiates all templates of a property directory.
//
// Header lines: //verif:pkg <dir> [key=value ...] (one per target package).
func readHarnesses(dir, prop string) ([]*HarnessFile, error) {
	ents, err := filepath.Glob(filepath.Join(dir, prop, "*.go.tmpl"))
	if err != nil {
		return nil, err
	}
	sort.Strings(ents)
	var out []*HarnessFile
	for _, f := range ents {
		raw, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		base := strings.TrimSuffix(filepath.Base(f), ".go.tmpl")
		var body []string
		type tgt struct {
			pkg string
			kv  map[string]string
		}
		var tgts []tgt
		var lines []string
		for _, l := range strings.Split(string(raw), "\n") {
			if strings.HasPrefix(l, "//verif:include ") {
				inc, err := os.ReadFile(filepath.Join(dir, strings.TrimSpace(l[len("//verif:include "):])))
				if err != nil {
					return nil, err
				}
				lines = append(lines, strings.Split(string(inc), "\n")...)
				continue
			}
			lines = append(lines, l)
		}
		for _, l := range lines {
			if strings.HasPrefix(l, "//verif:pkg ") {
				fs := strings.Fields(l[len("//verif:pkg "):])
				t := tgt{fs[0], map[string]string{}}
				for _, kv := range fs[1:] {
					i := strings.IndexByte(kv, '=')
					if i < 0 {
						t.kv[kv] = "1"
					} else {
						t.kv[kv[:i]] = kv[i+1:]
					}
				}
				tgts = append(tgts, t)
				body = append(body, "")
				continue
			}
			body = append(body, l)
		}
		tm, err := template.New(base).Delims("«", "»").Option("missingkey=zero").Parse(strings.Join(body, "\n"))
		if err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		for _, t := range tgts {
			var b bytes.Buffer
			data := map[string]string{"Pkg": filepath.Base(t.pkg), "Dir": t.pkg}
			for k, v := range t.kv {
				data[k] = v
			}
			if err := tm.Execute(&b, data); err != nil {
				return nil, fmt.Errorf("%s: %v", f, err)
			}
			h := &HarnessFile{Prop: prop, Src: f, Pkg: t.pkg, Overlay: filepath.Join(repoDir, t.pkg, "zz_verif_"+strings.ToLower(prop)+"_"+base+".go"), Text: b.String()}
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, h.Overlay, h.Text, 0)
			if err != nil {
				return nil, fmt.Errorf("%s for %s: %v", f, t.pkg, err)
			}
			for _, d := range af.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "Verif_") && fd.Recv == nil {
					h.Funcs = append(h.Funcs, fd.Name.Name)
				}
			}
			out = append(out, h)
		}
	}
	return out, nil
}

func repoEnv() []string {
	var env []string
	drop := map[string]bool{"GOFLAGS": true, "GOPROXY": true, "GOTOOLCHAIN": true, "GO111MODULE": true, "GOWORK": true, "CGO_ENABLED": true, "GOPATH": true, "GOMODCACHE": true, "HOME": true, "PATH": true, "GOROOT": true}
	for _, e := range os.Environ() {
		if i := strings.IndexByte(e, '='); i > 0 && drop[e[:i]] {
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root", "PATH=/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=1", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOFLAGS=-mod=readonly -modfile=/opt/vp/owcdrivers.mod")
}

func overlayFor(hs []*HarnessFile, symSrc []byte) map[string][]byte {
	ov := map[string][]byte{filepath.Join(repoDir, "zzverif/sym/sym.go"): symSrc}
	for _, h := range hs {
		if h.Dropped == "" {
			ov[h.Overlay] = []byte(h.Text)
		}
	}
	return ov
}

// loadEngine type-checks the repo packages with the harnesses and builds SSA. Harness files that
// do not type-check against the current tree are dropped (noted).
func loadEngine(hs []*HarnessFile, symSrc []byte) (*Engine, error) {
	for round := 0; round < 6; round++ {
		var pats []string
		seen := map[string]bool{}
		for _, h := range hs {
			if h.Dropped == "" && !seen[h.Pkg] {
				seen[h.Pkg] = true
				pats = append(pats, "./"+h.Pkg)
			}
		}
		if len(pats) == 0 {
			return &Engine{pkgs: map[string]*ssa.Package{}}, nil
		}
		fset := token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: repoEnv(), Fset: fset, Overlay: overlayFor(hs, symSrc), ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
		}}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := false
		var hard []string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				file := e.Pos
				if i := strings.IndexByte(file, ':'); i > 0 {
					file = file[:i]
				}
				hit := false
				for _, h := range hs {
					if h.Overlay == file && h.Dropped == "" {
						h.Dropped = e.Error()
						hit = true
					}
				}
				if hit {
					bad = true
				} else {
					hard = append(hard, e.Error())
				}
			}
		}
		if bad {
			continue
		}
		if len(hard) > 0 {
			return nil, fmt.Errorf("load: %s", strings.Join(hard, "; "))
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		e := &Engine{fset: fset, prog: prog, pkgs: map[string]*ssa.Package{}}
		for _, p := range pkgs {
			sp := prog.Package(p.Types)
			if sp != nil {
				e.pkgs[strings.TrimPrefix(p.PkgPath, modPath+"/")] = sp
			}
		}
		return e, nil
	}
	return nil, fmt.Errorf("harness does not settle")
}
