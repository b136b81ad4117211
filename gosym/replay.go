package main

import (
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

//go:embed embed/sym.go.txt
var symSrc []byte

//go:embed embed/mock.go.txt
var mockSrc []byte

var mockFuncs = []string{"Hash", "Hmac", "GenPubkey", "Point_mulBaseG", "Point_mulBaseG_add", "PointDecompress", "Signature", "Verify", "RecoverPubkey", "CURVE25519_convert_X_to_Ed", "CURVE25519_convert_Ed_to_X"}

type replayer struct {
	mu      sync.Mutex
	dir     string
	ready   bool
	modfile string
	err     error
	bins    map[string]string
}

func newReplayer() *replayer { return &replayer{bins: map[string]string{}} }

func (r *replayer) close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if info.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0o644)
	})
}

func (r *replayer) setup() error {
	if r.ready || r.err != nil {
		return r.err
	}
	d, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		r.err = err
		return err
	}
	r.dir = d
	mod, err := os.ReadFile("/opt/vp/owcdrivers.mod")
	if err != nil {
		r.err = err
		return err
	}
	ow := filepath.Join(d, "owcrypt")
	if err := copyTree("/root/go/pkg/mod/github.com/blocktree/go-owcrypt@v1.1.13", ow); err != nil {
		r.err = err
		return err
	}
	for _, f := range []string{"eccset.go", "hashset.go"} {
		b, err := os.ReadFile(filepath.Join(ow, f))
		if err != nil {
			r.err = err
			return err
		}
		s := string(b)
		for _, n := range mockFuncs {
			s = strings.Replace(s, "func "+n+"(", "func real"+n+"(", 1)
		}
		os.WriteFile(filepath.Join(ow, f), []byte(s), 0o644)
	}
	os.WriteFile(filepath.Join(ow, "zz_mock.go"), mockSrc, 0o644)
	sum, _ := os.ReadFile("/opt/vp/owcdrivers.sum")
	m := string(mod) + "\nreplace github.com/blocktree/go-owcrypt => " + ow + "\n"
	r.modfile = filepath.Join(d, "r.mod")
	os.WriteFile(r.modfile, []byte(m), 0o644)
	os.WriteFile(filepath.Join(d, "r.sum"), sum, 0o644)
	r.ready = true
	return nil
}

var pkgClause = regexp.MustCompile(`(?m)^package (\w+)`)

// build compiles the native test binary holding the harness file.
func (r *replayer) build(h *HarnessFile, all []*HarnessFile) (string, error) {
	if b, ok := r.bins[h.Overlay]; ok {
		if b == "" {
			return "", fmt.Errorf("replay build failed before")
		}
		return b, nil
	}
	r.bins[h.Overlay] = ""
	if err := r.setup(); err != nil {
		return "", err
	}
	d, _ := os.MkdirTemp(r.dir, "b")
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, h.Overlay, h.Text, parser.PackageClauseOnly)
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"testing\"\n\t\"%s/zzverif/sym\"\n)\n\nvar verifTable = map[string]func(){\n", af.Name.Name, modPath)
	for _, f := range h.Funcs {
		fmt.Fprintf(&sb, "\t%q: %s,\n", f, f)
	}
	sb.WriteString(`}

func TestVerifReplay(t *testing.T) {
	defer func() {
		r := recover()
		switch e := r.(type) {
		case nil:
			fmt.Println("REPLAY-RESULT: ok")
		case sym.AssertFail:
			fmt.Println("REPLAY-RESULT: assert " + e.Label)
		case sym.AssumeFail:
			fmt.Println("REPLAY-RESULT: assume")
		default:
			fmt.Printf("REPLAY-RESULT: panic %v\n", r)
		}
	}()
	verifTable[os.Getenv("VERIF_FUNC")]()
}
`)
	ov := map[string]string{}
	put := func(virt, name, text string) {
		p := filepath.Join(d, name)
		os.WriteFile(p, []byte(text), 0o644)
		ov[virt] = p
	}
	put(h.Overlay, "harness.go", h.Text)
	for i, o := range all {
		if o != h && o.Pkg == h.Pkg && o.Dropped == "" {
			put(o.Overlay, fmt.Sprintf("helper%d.go", i), o.Text)
		}
	}
	put(filepath.Join(repoDir, h.Pkg, "zz_verif_replay_test.go"), "replay_test.go", sb.String())
	put(filepath.Join(repoDir, "zzverif/sym/sym.go"), "sym.go", string(symSrc))
	// the package's own tests are not compiled in
	ents, _ := filepath.Glob(filepath.Join(repoDir, h.Pkg, "*_test.go"))
	for _, e := range ents {
		ov[e] = ""
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(d, "overlay.json")
	os.WriteFile(of, oj, 0o644)
	bin := filepath.Join(d, "t.test")
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+h.Pkg)
	cmd.Dir = repoDir
	for _, e := range repoEnv() {
		if strings.HasPrefix(e, "GOFLAGS=") {
			e = "GOFLAGS=-mod=mod -modfile=" + r.modfile
		}
		cmd.Env = append(cmd.Env, e)
	}
	if p, err := exec.LookPath("/opt/veriftools/go1.27.3/bin/go"); err == nil {
		cmd.Path = p
		cmd.Args[0] = p
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v: %s", err, tail(string(out), 1500))
	}
	r.bins[h.Overlay] = bin
	return bin, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// run replays one model; mock selects idealised crypto values from the model.
func (r *replayer) run(h *HarnessFile, all []*HarnessFile, fn, modelFile string, mock bool, tier string) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	bin, err := r.build(h, all)
	if err != nil {
		return "", err
	}
	wd, _ := os.MkdirTemp(r.dir, "w")
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.v")
	cmd.Dir = wd
	mv := "0"
	if mock {
		mv = "1"
	}
	cmd.Env = append(repoEnv(), "VERIF_MODEL="+modelFile, "VERIF_FUNC="+fn, "VERIF_MOCK="+mv, "VERIF_TIER="+tier)
	out, err := cmd.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		if i := strings.Index(l, "REPLAY-RESULT: "); i >= 0 {
			return l[i+len("REPLAY-RESULT: "):], nil
		}
	}
	if ctx.Err() != nil {
		return "timeout", nil
	}
	return "", fmt.Errorf("replay: %v %s", err, tail(string(out), 600))
}
