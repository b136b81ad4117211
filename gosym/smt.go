package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Global solver statistics for the evidence file.
var (
	statQueries  int64
	statSat      int64
	statUnsat    int64
	statUnknown  int64
	statCached   int64
	statFinite   int64
	statSolverNs int64
	statHard     int64
	solverSem    = make(chan struct{}, 16)
	solverByName sync.Map
)

func z3Path() string {
	if p := os.Getenv("GOSYM_Z3"); p != "" {
		return p
	}
	for _, n := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}

type Solver struct {
	tc       *TC
	cmd      *exec.Cmd
	in       *bufio.Writer
	inC      io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	axioms   []*Term
	axByVar  map[int][]int
	defAx    map[int]bool      // definitions of cut variables: left out of the abstract query
	axPair   map[int][2]*ufApp // congruence axioms: relevant only where both applications are
	appByVar map[int][]*ufApp
	cache    map[string]cacheEnt
	dom      map[int]Set256
	softMs   int
	hardMs   int
	deadline time.Time
	nq       int64
	logf     func(string, ...interface{})
}

var slowQ = os.Getenv("GOSYM_SLOW") != ""
var dumpQ = os.Getenv("GOSYM_DUMPQ") != ""

type cacheEnt struct {
	r Res
	m map[int]*big.Int
}

func NewSolver(tc *TC) *Solver {
	return &Solver{tc: tc, defined: map[int]bool{}, axByVar: map[int][]int{}, defAx: map[int]bool{}, axPair: map[int][2]*ufApp{}, appByVar: map[int][]*ufApp{}, cache: map[string]cacheEnt{}, softMs: 3000, hardMs: 60000}
}

func (s *Solver) AddAxiom(t *Term) {
	if t.isTrue() {
		return
	}
	i := len(s.axioms)
	s.axioms = append(s.axioms, t)
	for _, v := range t.Support() {
		s.axByVar[v] = append(s.axByVar[v], i)
	}
}

// AddLaw adds an axiom that constrains nothing but the result trig of a function application:
// it can always be met by a choice of trig, so it is relevant only where trig occurs.
func (s *Solver) AddLaw(trig, t *Term) {
	sup := trig.Support()
	if len(sup) == 0 {
		s.AddAxiom(t)
		return
	}
	if t.isTrue() {
		return
	}
	i := len(s.axioms)
	s.axioms = append(s.axioms, t)
	for _, v := range sup {
		s.axByVar[v] = append(s.axByVar[v], i)
	}
}

// AddPairAxiom adds a congruence axiom relating two applications of one function.
func (s *Solver) AddPairAxiom(a, b *ufApp, t *Term) {
	if t.isTrue() {
		return
	}
	for _, p := range []*ufApp{a, b} {
		if p.reg {
			continue
		}
		p.reg = true
		for _, o := range p.out {
			for _, v := range o.Support() {
				s.appByVar[v] = append(s.appByVar[v], p)
				p.hasVar = true
				p.outVars = append(p.outVars, v)
			}
		}
		if !p.hasVar {
			continue
		}
		seen := map[int]bool{}
		for _, a := range p.args {
			for _, o := range a {
				for _, v := range o.Support() {
					if !seen[v] {
						seen[v] = true
						p.argVars = append(p.argVars, v)
					}
				}
			}
		}
	}
	s.axPair[len(s.axioms)] = [2]*ufApp{a, b}
	s.AddAxiom(t)
}

// live computes the applications whose result some conjunct of the state can depend on; the
// others are unconstrained, so congruence with them is vacuous.
func (s *Solver) live(sets ...[]*Term) map[*ufApp]bool {
	apps := map[*ufApp]bool{}
	seen := map[int]bool{}
	var work []int
	add := func(v int) {
		if !seen[v] {
			seen[v] = true
			work = append(work, v)
		}
	}
	for _, set := range sets {
		for _, t := range set {
			for _, v := range t.Support() {
				add(v)
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range s.appByVar[v] {
			if !apps[a] {
				apps[a] = true
				for _, w := range a.argVars {
					add(w)
				}
			}
		}
		for _, i := range s.axByVar[v] {
			if _, ok := s.axPair[i]; !ok {
				for _, w := range s.axioms[i].Support() {
					add(w)
				}
			}
		}
	}
	return apps
}

func (s *Solver) start() error {
	if s.cmd != nil {
		return nil
	}
	cmd := exec.Command(z3Path(), "-in", "-smt2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.inC, s.in, s.out = cmd, w, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int]bool{}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n", s.softMs)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(t *Term) string {
	if t.W == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.W)
}

func constStr(w int, v *big.Int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*s", w/4, v.Text(16))
	}
	return fmt.Sprintf("#b%0*s", w, v.Text(2))
}

func refOf(t *Term) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.C == 1 {
				return "true"
			}
			return "false"
		}
		return constStr(t.W, t.BigVal())
	case OVar:
		return fmt.Sprintf("v%d", t.C)
	}
	return fmt.Sprintf("t%d", t.ID)
}

// emit writes definitions for t (recursively) once.
func emit(w io.Writer, t *Term, defined map[int]bool) {
	if t.Op == OConst || defined[t.ID] {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.A) {
			a := f.t.A[f.i]
			f.i++
			if a.Op != OConst && !defined[a.ID] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if defined[x.ID] {
			continue
		}
		defined[x.ID] = true
		if x.Op == OVar {
			fmt.Fprintf(w, "(declare-fun v%d () %s)\n", x.C, sortOf(x))
			continue
		}
		fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.ID, sortOf(x), body(x))
	}
}

func body(t *Term) string {
	switch t.Op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.C)+t.W-1, t.C, refOf(t.A[0]))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A[0].W, refOf(t.A[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, refOf(t.A[0]))
	case OInSet:
		x := t.A[0]
		n := 1 << uint(x.W)
		var parts []string
		for i := 0; i < n; {
			if !t.Set.has(uint64(i)) {
				i++
				continue
			}
			j := i
			for j+1 < n && t.Set.has(uint64(j+1)) {
				j++
			}
			ci, cj := constStr(x.W, big.NewInt(int64(i))), constStr(x.W, big.NewInt(int64(j)))
			switch {
			case i == j:
				parts = append(parts, fmt.Sprintf("(= %s %s)", refOf(x), ci))
			case i == 0:
				parts = append(parts, fmt.Sprintf("(bvule %s %s)", refOf(x), cj))
			case j == n-1:
				parts = append(parts, fmt.Sprintf("(bvuge %s %s)", refOf(x), ci))
			default:
				parts = append(parts, fmt.Sprintf("(and (bvuge %s %s) (bvule %s %s))", refOf(x), ci, refOf(x), cj))
			}
			i = j + 1
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(or " + strings.Join(parts, " ") + ")"
	case OTable:
		x := t.A[0]
		return muxTree(t, x, 0, t.Tbl.n(), x.W-1)
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opNames[t.Op])
	if t.Op == OXorN && t.C == 1 {
		sb.WriteString(" #b1")
	}
	for _, a := range t.A {
		sb.WriteString(" ")
		sb.WriteString(refOf(a))
	}
	sb.WriteString(")")
	return sb.String()
}

func muxTree(t, x *Term, lo, hi, bit int) string {
	same := true
	for i := lo + 1; i < hi; i++ {
		if t.Tbl.at(int(i)) != t.Tbl.at(int(lo)) {
			same = false
			break
		}
	}
	if same || bit < 0 {
		return constStr(t.W, new(big.Int).SetUint64(t.Tbl.at(int(lo))))
	}
	mid := (lo + hi) / 2
	return fmt.Sprintf("(ite (= ((_ extract %d %d) %s) #b1) %s %s)", bit, bit, refOf(x), muxTree(t, x, mid, hi, bit-1), muxTree(t, x, lo, mid, bit-1))
}

// slice returns the conjuncts (and axioms) transitively sharing variables with seeds.
func (s *Solver) slice(seeds []*Term, pool []*Term) []*Term {
	vars := map[int]bool{}
	var work []int
	addVars := func(t *Term) {
		for _, v := range t.Support() {
			if !vars[v] {
				vars[v] = true
				work = append(work, v)
			}
		}
	}
	out := append([]*Term{}, seeds...)
	for _, t := range seeds {
		addVars(t)
	}
	byVar := map[int][]int{}
	for i, t := range pool {
		for _, v := range t.Support() {
			byVar[v] = append(byVar[v], i)
		}
	}
	usedP := make([]bool, len(pool))
	usedA := map[int]bool{}
	var live map[*ufApp]bool
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, i := range byVar[v] {
			if !usedP[i] {
				usedP[i] = true
				out = append(out, pool[i])
				addVars(pool[i])
			}
		}
		for _, i := range s.axByVar[v] {
			if !usedA[i] {
				usedA[i] = true
				if p, ok := s.axPair[i]; ok {
					if live == nil {
						live = s.live(seeds, pool)
					}
					if p[0].hasVar && !live[p[0]] || p[1].hasVar && !live[p[1]] {
						continue
					}
				}
				out = append(out, s.axioms[i])
				addVars(s.axioms[i])
			}
		}
	}
	return out
}

// Check decides satisfiability of the conjunction of q; the caller has sliced. Returns partial model for involved vars.
func (s *Solver) Check(q []*Term, hard bool) (Res, map[int]*big.Int) {
	seen := map[int]bool{}
	var cs []*Term
	for _, t := range q {
		if t.isTrue() || seen[t.ID] {
			continue
		}
		if t.isFalse() {
			return Unsat, nil
		}
		seen[t.ID] = true
		cs = append(cs, t)
	}
	if len(cs) == 0 {
		return Sat, map[int]*big.Int{}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	var kb strings.Builder
	for _, t := range cs {
		fmt.Fprintf(&kb, "%d,", t.ID)
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok && (e.r != Unknown || !hard) {
		atomic.AddInt64(&statCached, 1)
		return e.r, e.m
	}
	// quick: all conjuncts are InSet over distinct var atoms
	if m, ok := trivialSets(cs); ok {
		s.cache[key] = cacheEnt{Sat, m}
		return Sat, m
	}
	if m, ok := singleXor(cs); ok {
		atomic.AddInt64(&statFinite, 1)
		s.cache[key] = cacheEnt{Sat, m}
		return Sat, m
	}
	if !hard {
		if r, m, ok := s.finiteDomain(cs); ok {
			atomic.AddInt64(&statFinite, 1)
			return r, m
		}
	}
	t0 := time.Now()
	if !s.deadline.IsZero() && t0.After(s.deadline) {
		panic(unsupported("time budget exhausted"))
	}
	atomic.AddInt64(&statQueries, 1)
	if dumpQ && statQueries%23 == 0 {
		fmt.Fprintf(os.Stderr, "Q hard=%v n=%d\n", hard, len(cs))
		for _, t := range cs {
			fmt.Fprintf(os.Stderr, "   %v  | %.300s\n", len(t.Support()), t.String())
		}
	}
	s.nq++
	r, m := Unknown, map[int]*big.Int(nil)
	if s.abstract(cs) {
		r = Unsat
	} else {
		r, m = s.incremental(cs)
	}
	if r == Unknown {
		atomic.AddInt64(&statHard, 1)
		ms := s.hardMs
		if !hard {
			ms = s.hardMs / 3
		}
		r, m = s.portfolio(cs, time.Duration(ms)*time.Millisecond)
	}
	atomic.AddInt64(&statSolverNs, int64(time.Since(t0)))
	if slowQ && time.Since(t0) > 2*time.Second {
		fmt.Fprintf(os.Stderr, "SLOW %.1fs r=%v hard=%v n=%d\n", time.Since(t0).Seconds(), r, hard, len(cs))
		for _, t := range q {
			fmt.Fprintf(os.Stderr, "   %d  | %.400s\n", len(t.Support()), t.String())
		}
	}
	switch r {
	case Sat:
		atomic.AddInt64(&statSat, 1)
	case Unsat:
		atomic.AddInt64(&statUnsat, 1)
	default:
		atomic.AddInt64(&statUnknown, 1)
	}
	if d := time.Since(t0); d > 5*time.Second && s.logf != nil {
		s.logf("slow query %.1fs -> %v (%d conjuncts)", d.Seconds(), r, len(cs))
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

func trivialSets(cs []*Term) (map[int]*big.Int, bool) {
	m := map[int]*big.Int{}
	for _, t := range cs {
		if t.Op != OInSet || t.A[0].Op != OVar {
			return nil, false
		}
		v := int(t.A[0].C)
		if _, dup := m[v]; dup {
			return nil, false
		}
		for i := uint64(0); i < 256; i++ {
			if t.Set.has(i) {
				m[v] = new(big.Int).SetUint64(i)
				break
			}
		}
	}
	return m, true
}

func (s *Solver) incremental(cs []*Term) (Res, map[int]*big.Int) {
	if err := s.start(); err != nil {
		return Unknown, nil
	}
	var sup []int
	for _, t := range cs {
		emit(s.in, t, s.defined)
		sup = mergeInts(sup, t.Support())
	}
	s.in.WriteString("(push)\n")
	for _, t := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", refOf(t))
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	timer := time.AfterFunc(time.Duration(s.softMs)*time.Millisecond+4*time.Second, func() { s.cmd.Process.Kill() })
	line, err := s.out.ReadString('\n')
	timer.Stop()
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		s.in.WriteString("(pop)\n")
		return Unsat, nil
	case "sat":
		m := map[int]*big.Int{}
		if len(sup) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range sup {
				fmt.Fprintf(s.in, "v%d ", v)
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := readSexp(s.out)
			if err != nil || strings.HasPrefix(txt, "(error") {
				s.Close()
				return Unknown, nil
			}
			parseValues(txt, m)
		}
		s.in.WriteString("(pop)\n")
		return Sat, m
	case "unknown", "timeout":
		s.in.WriteString("(pop)\n")
		return Unknown, nil
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver said:", line)
	}
	s.Close()
	return Unknown, nil
}

func readSexp(r *bufio.Reader) (string, error) {
	var b bytes.Buffer
	depth := 0
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if depth == 0 && (c == '\n' || c == ' ') {
			continue
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		}
	}
}

func parseValues(txt string, m map[int]*big.Int) {
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(f); i += 2 {
		var id int
		if _, err := fmt.Sscanf(f[i], "v%d", &id); err != nil {
			// malformed; try to resync
			i--
			continue
		}
		v := f[i+1]
		x := new(big.Int)
		switch {
		case v == "true":
			x.SetInt64(1)
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			x.SetString(v[2:], 16)
		case strings.HasPrefix(v, "#b"):
			x.SetString(v[2:], 2)
		}
		m[id] = x
	}
}

func wideArith(t *Term) bool {
	switch t.Op {
	case OAdd, OSub, OMul, OURem, OUDiv:
		return t.W >= 128
	}
	return false
}

// abstract tries the query with every wide sum, product and remainder replaced by an unknown: if that
// is already unsatisfiable, so is the query.
func (s *Solver) abstract(all []*Term) bool {
	var cs []*Term
	for _, t := range all {
		if !s.defAx[t.ID] {
			cs = append(cs, t)
		}
	}
	var wide []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if wideArith(t) {
			wide = append(wide, t)
			return
		}
		for _, a := range t.A {
			walk(a)
		}
	}
	for _, t := range cs {
		walk(t)
	}
	if len(wide) == 0 && len(cs) == len(all) {
		return false
	}
	var buf bytes.Buffer
	buf.WriteString("(set-logic QF_BV)\n")
	def := map[int]bool{}
	for _, t := range wide {
		def[t.ID] = true
		fmt.Fprintf(&buf, "(declare-fun t%d () %s)\n", t.ID, sortOf(t))
	}
	for _, t := range cs {
		emit(&buf, t, def)
	}
	for _, t := range cs {
		fmt.Fprintf(&buf, "(assert %s)\n", refOf(t))
	}
	buf.WriteString("(check-sat)\n")
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, z3Path(), "-in", "-smt2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = &buf
	out, _ := cmd.Output()
	return strings.TrimSpace(string(out)) == "unsat"
}

// portfolio runs one-shot solvers in parallel and takes the first definite answer.
func (s *Solver) portfolio(cs []*Term, d time.Duration) (Res, map[int]*big.Int) {
	if !s.deadline.IsZero() {
		if left := time.Until(s.deadline); left < d {
			d = left
		}
	}
	if d < 100*time.Millisecond {
		return Unknown, nil
	}
	var buf bytes.Buffer
	buf.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	def := map[int]bool{}
	var sup []int
	for _, t := range cs {
		emit(&buf, t, def)
		sup = mergeInts(sup, t.Support())
	}
	for _, t := range cs {
		fmt.Fprintf(&buf, "(assert %s)\n", refOf(t))
	}
	buf.WriteString("(check-sat)\n")
	if len(sup) > 0 {
		buf.WriteString("(get-value (")
		for _, v := range sup {
			fmt.Fprintf(&buf, "v%d ", v)
		}
		buf.WriteString("))\n")
	}
	if p := os.Getenv("GOSYM_DUMP"); p != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", p, time.Now().UnixNano()), buf.Bytes(), 0644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	type ans struct {
		r    Res
		m    map[int]*big.Int
		name string
	}
	ch := make(chan ans, 4)
	cmds := [][]string{{z3Path(), "-in", "-smt2"}, {"cvc5", "--lang=smt2", "--produce-models", "--bv-solver=bitblast"}}
	for _, c := range cmds {
		c := c
		go func() {
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			cmd.Stdin = bytes.NewReader(buf.Bytes())
			out, _ := cmd.Output()
			txt := string(out)
			i := strings.IndexByte(txt, '\n')
			if i < 0 {
				ch <- ans{Unknown, nil, c[0]}
				return
			}
			switch strings.TrimSpace(txt[:i]) {
			case "sat":
				m := map[int]*big.Int{}
				if strings.Contains(txt[i:], "(error") {
					ch <- ans{Unknown, nil, c[0]}
					return
				}
				parseValues(txt[i:], m)
				ch <- ans{Sat, m, c[0]}
			case "unsat":
				ch <- ans{Unsat, nil, c[0]}
			default:
				ch <- ans{Unknown, nil, c[0]}
			}
		}()
	}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
