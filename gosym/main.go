package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type job struct {
	h    *HarnessFile
	fn   string
	x    *Exec
	wall float64
	err  string
	outN map[string]int
}

var active sync.Map // *Exec currently running
var jobCap = 240 * time.Second

// memoryGuard ends the exploration that has executed most steps whenever the heap grows past the limit.
func memoryGuard(limit uint64) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(300 * time.Millisecond)
		metrics.Read(sample)
		if sample[0].Value.Uint64() < limit {
			continue
		}
		runtime.GC()
		metrics.Read(sample)
		if sample[0].Value.Uint64() < limit*3/4 {
			continue
		}
		var worst *Exec
		active.Range(func(k, _ interface{}) bool {
			if x := k.(*Exec); !x.kill.Load() && (worst == nil || x.tc.size() > worst.tc.size()) {
				worst = x
			}
			return true
		})
		if worst != nil {
			worst.kill.Store(true)
			time.Sleep(3 * time.Second)
			runtime.GC()
		}
	}
}

func (j *job) name() string { return j.h.Pkg + "." + j.fn }

func runJob(e *Engine, j *job, thorough bool, deadline time.Time) {
	t0 := time.Now()
	x := NewExec(e, j.name())
	j.x = x
	active.Store(x, true)
	defer active.Delete(x)
	x.thorough = thorough
	if d := t0.Add(jobCap); d.Before(deadline) {
		deadline = d
	}
	x.deadline = deadline
	x.sol.deadline = deadline
	j.outN = map[string]int{}
	defer func() {
		j.wall = time.Since(t0).Seconds()
		defer x.sol.Close()
		defer x.solveProbes()
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				x.note("harness aborted: %s", u.msg)
				return
			}
			j.err = fmt.Sprintf("%v", r)
			x.note("engine failure: %v", r)
			if os.Getenv("GOSYM_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	sp := e.pkgs[j.h.Pkg]
	if sp == nil {
		j.err = "package not loaded"
		return
	}
	fn := sp.Func(j.fn)
	if fn == nil {
		j.err = "harness function missing"
		return
	}
	st := x.newState()
	outs := x.callFn(st, fn, nil, nil, 0)
	for _, o := range outs {
		switch o.kind {
		case kReturn:
			j.outN["return"]++
		case kPanic:
			j.outN["panic"]++
			r, m := x.check(o.st, x.tc.True, true)
			if r == Unsat {
				continue
			}
			if r == Unknown {
				x.note("panic path undecided: %s %s", o.msg, o.pos)
				x.probe(o.st, o.pos)
				continue
			}
			x.addViolation(o.st, &Violation{Harness: x.harness, Label: "panic " + o.msg, Kind: "panic", Msg: o.msg, Pos: o.pos, Model: m})
		case kAbort:
			j.outN["abort"]++
		}
	}
}

// solveProbes finds inputs for the probe points that do not come with some.
func (x *Exec) solveProbes() {
	if x.kill.Load() || len(x.viol) > 0 {
		x.probes = nil
		return
	}
	x.deadline = time.Now().Add(15 * time.Second)
	x.sol.deadline = x.deadline
	for _, p := range x.probes {
		if p.model == nil && time.Now().Before(x.deadline) {
			func() {
				defer func() { recover() }()
				_, p.model = x.check(p.st, x.tc.True, false)
			}()
		}
		p.st = nil
	}
}

func (x *Exec) modelFile(m *Model, path string, meta map[string]interface{}) error {
	in := map[string][]uint64{}
	for _, iv := range x.inputs {
		var v []uint64
		for _, t := range iv.terms {
			v = append(v, m.Eval64(t))
		}
		in[iv.name] = v
	}
	meta["Inputs"] = in
	meta["UF"] = x.ufTable(m)
	b, err := json.MarshalIndent(meta, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

type finding struct{ prop, id, text string }

func readKnown(path string) map[string]finding {
	r := map[string]finding{}
	b, err := os.ReadFile(path)
	if err != nil {
		return r
	}
	re := regexp.MustCompile(`^known: property=(\S+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			r[m[1]+"/"+m[2]] = finding{m[1], m[2], m[3]}
		}
	}
	return r
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	}
	os.Exit(2)
}

var probed int // unfinished paths run natively

func checkCmd(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick|thorough")
	root := fs.String("root", "/verif", "verification root")
	only := fs.String("only", "", "regexp of harness names")
	budget := fs.Int("budget", 0, "seconds for the exploration")
	verbose := fs.Bool("v", false, "verbose")
	noReplay := fs.Bool("noreplay", false, "skip native replay")
	nw := fs.Int("j", 0, "workers")
	fs.Parse(args)
	t0 := time.Now()
	if *budget == 0 {
		*budget = 600
		if *tier == "thorough" {
			*budget = 3000
		}
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	hs, err := readHarnesses(filepath.Join(*root, "harness"), *prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	var onlyRe *regexp.Regexp
	if *only != "" {
		onlyRe = regexp.MustCompile(*only)
		var keep []*HarnessFile
		for _, h := range hs {
			ok := len(h.Funcs) == 0
			for _, f := range h.Funcs {
				if onlyRe.MatchString(h.Pkg + "." + f) {
					ok = true
				}
			}
			if ok {
				keep = append(keep, h)
			}
		}
		hs = keep
	}
	eng, err := loadEngine(hs, symSrc)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	var jobs []*job
	for _, h := range hs {
		if h.Dropped != "" {
			fmt.Printf("NOTE harness %s for %s does not fit the current tree and was dropped: %s\n", filepath.Base(h.Src), h.Pkg, h.Dropped)
			continue
		}
		for _, f := range h.Funcs {
			if strings.HasSuffix(f, "_T") && *tier != "thorough" {
				continue
			}
			j := &job{h: h, fn: f}
			if onlyRe != nil && !onlyRe.MatchString(j.name()) {
				continue
			}
			jobs = append(jobs, j)
		}
	}
	w := *nw
	if w == 0 {
		w = min(8, runtime.NumCPU())
	}
	if *tier == "thorough" {
		jobCap = 1500 * time.Second
	}
	go memoryGuard(12 << 30)
	deadline := time.Now().Add(time.Duration(*budget) * time.Second)
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				runJob(eng, j, *tier == "thorough", deadline)
				if *verbose {
					x := j.x
					fmt.Printf("  %-60s %6.1fs paths=%d outs=%v asserts=%d/%d steps=%d forks=%d merges=%d reached=%d viol=%d\n", j.name(), j.wall, x.paths, j.outN, x.assertOK, x.asserts, x.steps, x.forkN, x.merges, len(x.reached), len(x.viol))
					for _, n := range sortedKeys(x.notes) {
						fmt.Printf("      note: %s (x%d)\n", n, x.notes[n])
					}
					if j.err != "" {
						fmt.Println("      ERROR", j.err)
					}
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()

	known := readKnown(filepath.Join(*root, "known_findings.txt"))
	rp := newReplayer()
	defer rp.close()
	evDir := filepath.Join(*root, "evidence")
	rdir := filepath.Join(evDir, "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, *prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	nviol, n := 0, 0
	var unrepro []string
	knownSeen := map[string]bool{}
	byLabel := map[string]bool{}
	validated := 0
	for _, j := range jobs {
		if j.x == nil {
			continue
		}
		for _, v := range j.x.viol {
			if v.Model == nil {
				j.x.note("violation without model: %s", v.Label)
				continue
			}
			if v.Known != "" && knownSeen[v.Known] {
				continue
			}
			n++
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", *prop, n))
			meta := map[string]interface{}{"property": *prop, "harness": j.name(), "func": j.fn, "pkg": j.h.Pkg, "template": j.h.Src, "kind": v.Kind, "label": v.Label, "pos": v.Pos, "tier": *tier}
			if err := j.x.modelFile(v.Model, path, meta); err != nil {
				continue
			}
			ok, how := *noReplay, "not replayed"
			if !*noReplay {
				for _, mock := range []bool{false, true} {
					res, err := rp.run(j.h, hs, j.fn, path, mock, *tier)
					if err != nil {
						how = err.Error()
						continue
					}
					validated++
					want := "panic "
					if v.Kind == "assert" {
						want = "assert " + v.Label
					}
					// any failed assertion or panic of the same harness on this input is a reproduction
					if strings.HasPrefix(res, "assert ") || strings.HasPrefix(res, "panic ") {
						ok = true
						how = "native run: " + res
						if mock {
							how += " (crypto results taken from the model)"
						}
						if v.Known != "" && res != want {
							ok, how = true, how+" expected "+want
						}
						break
					}
					how = "native run: " + res
				}
			}
			if !ok {
				unrepro = append(unrepro, fmt.Sprintf("%s %s %s (%s)", j.name(), v.Label, v.Pos, how))
				fmt.Printf("NOTE counterexample not reproduced natively, not reported: %s: %s at %s [%s]\n", j.name(), v.Label, v.Pos, how)
				continue
			}
			if v.Known != "" {
				knownSeen[v.Known] = true
				if f, ok := known[*prop+"/"+v.Known]; ok {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.text)
					continue
				}
			}
			nviol++
			if byLabel[v.Label] && nviol > 20 {
				continue
			}
			byLabel[v.Label] = true
			fmt.Printf("counterexample in %s: %s at %s; %s\n", j.name(), v.Label, v.Pos, how)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		}
	}
	// where the exploration stopped short, the real code is at least run on the inputs that lead there
	probed = 0
	if !*noReplay {
		t1 := time.Now()
		for _, j := range jobs {
			if j.x == nil || nviol > 0 {
				continue
			}
			for _, p := range j.x.probes {
				if p.model == nil || time.Since(t1) > 120*time.Second {
					continue
				}
				path := filepath.Join(rdir, fmt.Sprintf("%s-probe.json", *prop))
				meta := map[string]interface{}{"property": *prop, "harness": j.name(), "func": j.fn, "pkg": j.h.Pkg, "template": j.h.Src, "kind": "probe", "label": "inputs leading to " + p.where, "pos": p.where, "tier": *tier}
				if err := j.x.modelFile(p.model, path, meta); err != nil {
					continue
				}
				res, err := rp.run(j.h, hs, j.fn, path, false, *tier)
				if err != nil {
					continue
				}
				probed++
				if strings.HasPrefix(res, "assert ") || strings.HasPrefix(res, "panic ") {
					nviol++
					fmt.Printf("counterexample in %s on the way to %s; native run: %s\n", j.name(), p.where, res)
					fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
					break
				}
			}
		}
	}
	if *verbose && probed > 0 {
		fmt.Printf("%d unfinished paths run natively\n", probed)
	}
	writeEvidence(evDir, *prop, *tier, jobs, hs, nviol, unrepro, loadS, time.Since(t0).Seconds(), validated, rp)
	if *verbose {
		fmt.Printf("load %.1fs total %.1fs queries=%d finite=%d cached=%d sat=%d unsat=%d unknown=%d solver=%.1fs\n", loadS, time.Since(t0).Seconds(), statQueries, statFinite, statCached, statSat, statUnsat, statUnknown, float64(statSolverNs)/1e9)
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func writeEvidence(dir, prop, tier string, jobs []*job, hs []*HarnessFile, nviol int, unrepro []string, loadS, wall float64, validated int, rp *replayer) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	funcs := map[string]int{}
	notes := map[string]int{}
	labels := map[string]int{}
	var hl []map[string]interface{}
	paths, asserts, ok, forks, merges := 0, 0, 0, 0, 0
	var steps int64
	uf := map[string]int{}
	var samples []interface{}
	vac := []string{}
	for _, j := range jobs {
		x := j.x
		if x == nil {
			continue
		}
		for f, n := range x.funcs {
			if strings.Contains(f, modPath) && !strings.Contains(f, "Verif_") && !strings.Contains(f, "zzverif") {
				funcs[strings.ReplaceAll(f, modPath+"/", "")] += n
			}
		}
		for k, n := range x.notes {
			notes[k] += n
		}
		for k, n := range x.labels {
			labels[k] += n
		}
		for k, a := range x.ufs {
			uf[k] += len(a)
		}
		paths += x.paths
		asserts += x.asserts
		ok += x.assertOK
		steps += x.steps
		forks += x.forkN
		merges += x.merges
		if len(x.reached) == 0 {
			vac = append(vac, j.name())
		}
		for _, l := range sortedKeys(x.reachModel) {
			if len(samples) < 12 {
				in := map[string]string{}
				for _, iv := range x.inputs {
					var s []string
					for _, t := range iv.terms {
						s = append(s, fmt.Sprintf("%x", x.reachModel[l].Eval64(t)))
					}
					in[iv.name] = strings.Join(s, " ")
				}
				samples = append(samples, map[string]interface{}{"harness": j.name(), "reach": l, "inputs": in})
			}
			break
		}
		hl = append(hl, map[string]interface{}{"harness": j.name(), "wall_s": j.wall, "paths": x.paths, "assertions": x.asserts, "discharged": x.assertOK, "instructions": x.steps, "reached": sortedKeys(x.reached), "outcomes": j.outN, "input_bits": inputBits(x), "incomplete": sortedKeys(x.notes)})
	}
	var dropped []string
	for _, h := range hs {
		if h.Dropped != "" {
			dropped = append(dropped, h.Src+" for "+h.Pkg+": "+h.Dropped)
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": nviol,
		"coverage": map[string]interface{}{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated,
			"forks": forks, "merges": merges,
			"assertions_checked": asserts, "assertions_discharged": ok, "assertion_labels": labels,
			"functions_encoded": sortedKeys(funcs), "functions_encoded_count": len(funcs),
			"queries":  map[string]interface{}{"total": statQueries, "sat": statSat, "unsat": statUnsat, "unknown": statUnknown, "cached": statCached, "finite_domain_pruning": statFinite, "portfolio": statHard},
			"solver_s": float64(statSolverNs) / 1e9, "load_s": loadS,
			"harnesses": hl, "bounds_not_covered": notes, "dropped_harnesses": dropped, "vacuous_harnesses": vac,
			"idealised_functions": uf, "unreproduced_counterexamples": unrepro, "unfinished_paths_run_natively": probed, "samples": samples,
			"explanation": "bounded symbolic execution of the SSA of /repo's current source; states = complete symbolic paths, transitions = SSA instructions executed; each assertion discharged by an SMT query over all input values within the harness bounds",
		},
		"assumptions": []string{
			"cryptographic primitives of go-owcrypt / std are functions known only through their length, range and sign/verify laws (uninterpreted functions)",
			"loop and size bounds are those of the harness inputs (input_bits per harness); everything listed in bounds_not_covered lies outside this run",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}

func inputBits(x *Exec) int {
	n := 0
	for _, iv := range x.inputs {
		for _, t := range iv.terms {
			n += max(1, t.W)
		}
	}
	return n
}

func replayCmd(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("root", "/verif", "verification root")
	mock := fs.Bool("mock", false, "use the model's crypto results")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct{ Property, Pkg, Func, Template, Tier string }
	json.Unmarshal(b, &m)
	hs, err := readHarnesses(filepath.Join(*root, "harness"), m.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp := newReplayer()
	defer rp.close()
	abs, _ := filepath.Abs(fs.Arg(0))
	for _, h := range hs {
		if h.Pkg == m.Pkg && h.Src == m.Template {
			r, err := rp.run(h, hs, m.Func, abs, *mock, m.Tier)
			fmt.Println(r, err)
			return 0
		}
	}
	return 2
}

var _ = ssa.BuilderMode(0)
