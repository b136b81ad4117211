package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Kind int

const (
	kStop Kind = iota
	kReturn
	kPanic
	kAbort
)

type Outcome struct {
	kind Kind
	st   *State
	fr   *Frame
	val  Value
	msg  string
	pos  string
}

type Frame struct {
	fn     *ssa.Function
	info   *FnInfo
	regs   []Value
	forks  []int32
	depth  int
	defers []deferred
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, info: f.info, depth: f.depth}
	n.regs = append([]Value(nil), f.regs...)
	n.forks = append([]int32(nil), f.forks...)
	n.defers = append([]deferred(nil), f.defers...)
	return n
}

type FnInfo struct {
	num    map[ssa.Value]int
	n      int
	ipdom  []*ssa.BasicBlock
	liveIn [][]uint64
}

type Violation struct {
	Harness string
	Label   string
	Kind    string // assert | panic
	Msg     string
	Pos     string
	Model   *Model
	PC      []*Term
	Known   string
}

// Exec runs one harness.
// probe remembers the inputs that lead to a place the exploration could not get past; the
// harness is run natively on them afterwards.
func (x *Exec) probe(st *State, where string) {
	if st == nil || len(x.probes) >= 24 || x.probeAt[where] >= 3 {
		return
	}
	if x.probeAt == nil {
		x.probeAt = map[string]int{}
	}
	x.probeAt[where]++
	x.probes = append(x.probes, &probePoint{st: st, model: st.model, where: where})
}

type probePoint struct {
	st    *State
	model *Model
	where string
}

type Exec struct {
	probes       []*probePoint
	probeAt      map[string]int
	eng          *Engine
	tc           *TC
	sol          *Solver
	base         map[int]*Obj
	globals      map[*ssa.Global]int
	inited       map[*ssa.Package]bool
	initMode     bool
	nextObj      int
	nextState    int64
	infos        map[*ssa.Function]*FnInfo
	steps        int64
	deadline     time.Time
	kill         atomic.Bool
	maxSteps     int64
	forkLimit    int32
	notes        map[string]int
	viol         []*Violation
	violKeys     map[string]bool
	funcs        map[string]int
	inputs       []inputVar
	ufs          map[string][]*ufApp
	nfresh       int
	errIDs       map[string]int
	errMsgs      []string
	errWraps     map[*Term][]ErrV
	clock        [2]*Term
	reached      map[string]bool
	asserts      int
	assertOK     int
	paths        int
	merges       int
	forkN        int
	harness      string
	thorough     bool
	stubs        map[string]Value
	tokens       []*Token
	jsonTab      []jsonEnt
	mergeOff     bool
	modTab       map[string]*Term
	pairPre      map[string]prefixEnt
	pairs        map[string]bool // functions idealised as inverse codecs (true: encoder)
	pairTab      []pairEnt
	opaque       map[string]int // functions replaced by uninterpreted strings of that length
	axN          int
	maxViol      int
	labels       map[string]int
	stringIDs    map[string]int
	injective    bool
	reachModel   map[string]*Model
	noSignVerify bool
	prov         []provPoint
}

type inputVar struct {
	name  string
	terms []*Term // one per element
	kind  string
}

func NewExec(e *Engine, name string) *Exec {
	tc := NewTC()
	x := &Exec{eng: e, tc: tc, sol: NewSolver(tc), base: map[int]*Obj{}, globals: map[*ssa.Global]int{}, inited: map[*ssa.Package]bool{},
		infos: map[*ssa.Function]*FnInfo{}, notes: map[string]int{}, violKeys: map[string]bool{}, funcs: map[string]int{}, ufs: map[string][]*ufApp{},
		errIDs: map[string]int{}, reached: map[string]bool{}, harness: name, stubs: map[string]Value{}, maxSteps: 400_000_000, forkLimit: 3000, maxViol: 5, labels: map[string]int{}, reachModel: map[string]*Model{}}
	x.errMsgs = []string{""}
	x.errWraps = map[*Term][]ErrV{}
	return x
}

func (x *Exec) note(format string, a ...interface{}) {
	x.notes[fmt.Sprintf(format, a...)]++
}

// ---------- function info ----------

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	fi := &FnInfo{num: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.num[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.ipdom = ipdoms(fn)
	x.liveness(fn, fi)
	x.infos[fn] = fi
	return fi
}

func (x *Exec) liveness(fn *ssa.Function, fi *FnInfo) {
	nb := len(fn.Blocks)
	words := (fi.n + 63) / 64
	use := make([][]uint64, nb)
	def := make([][]uint64, nb)
	phiUse := make([][]uint64, nb) // values used by successors' phis at end of block
	fi.liveIn = make([][]uint64, nb)
	for i := range use {
		use[i], def[i], phiUse[i], fi.liveIn[i] = make([]uint64, words), make([]uint64, words), make([]uint64, words), make([]uint64, words)
	}
	set := func(s []uint64, i int) { s[i>>6] |= 1 << uint(i&63) }
	has := func(s []uint64, i int) bool { return s[i>>6]>>uint(i&63)&1 == 1 }
	for bi, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				set(def[bi], fi.num[phi])
				// phi values count as live-in of their block (already evaluated on the edge)
				set(use[bi], fi.num[phi])
				for k, e := range phi.Edges {
					if n, ok := fi.num[e]; ok {
						set(phiUse[b.Preds[k].Index], n)
					}
				}
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if n, ok := fi.num[*op]; ok && !has(def[bi], n) {
					set(use[bi], n)
				}
			}
			if v, ok := in.(ssa.Value); ok {
				set(def[bi], fi.num[v])
			}
		}
	}
	// named results via defer: conservative (Alloc based), fine.
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := append([]uint64(nil), phiUse[bi]...)
			for _, s := range b.Succs {
				li := fi.liveIn[s.Index]
				// exclude phis defined in s
				for w := range out {
					out[w] |= li[w]
				}
				for _, in := range s.Instrs {
					if phi, ok := in.(*ssa.Phi); ok {
						n := fi.num[phi]
						if !has(phiUse[bi], n) {
							out[n>>6] &^= 1 << uint(n&63)
						}
					} else {
						break
					}
				}
			}
			for w := range out {
				nv := use[bi][w] | (out[w] &^ def[bi][w])
				if nv != fi.liveIn[bi][w] {
					fi.liveIn[bi][w] = nv
					changed = true
				}
			}
		}
	}
}

// ipdoms computes immediate post-dominators ignoring panic exits and early returns.
func ipdoms(fn *ssa.Function) []*ssa.BasicBlock {
	n := len(fn.Blocks)
	res := make([]*ssa.BasicBlock, n)
	if n == 0 {
		return res
	}
	var rets []*ssa.BasicBlock
	var mainRet *ssa.BasicBlock
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			rets = append(rets, b)
			if mainRet == nil || r.Pos() >= mainRet.Instrs[len(mainRet.Instrs)-1].Pos() {
				mainRet = b
			}
		}
	}
	if mainRet == nil {
		return res
	}
	_ = rets
	// reach: blocks that can reach mainRet
	reach := make([]bool, n)
	var dfs func(b *ssa.BasicBlock)
	var order []*ssa.BasicBlock // postorder on reverse graph
	dfs = func(b *ssa.BasicBlock) {
		reach[b.Index] = true
		for _, p := range b.Preds {
			if !reach[p.Index] {
				dfs(p)
			}
		}
		order = append(order, b)
	}
	dfs(mainRet)
	rpo := make([]int, n)
	for i := range rpo {
		rpo[i] = -1
	}
	for i, b := range order {
		rpo[b.Index] = len(order) - 1 - i
	}
	idom := make([]int, n)
	for i := range idom {
		idom[i] = -1
	}
	idom[mainRet.Index] = mainRet.Index
	inter := func(a, b int) int {
		for a != b {
			for rpo[a] > rpo[b] {
				a = idom[a]
			}
			for rpo[b] > rpo[a] {
				b = idom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for i := len(order) - 1; i >= 0; i-- {
			b := order[i]
			if b == mainRet {
				continue
			}
			nd := -1
			for _, s := range b.Succs {
				if !reach[s.Index] || idom[s.Index] < 0 {
					continue
				}
				if nd < 0 {
					nd = s.Index
				} else {
					nd = inter(nd, s.Index)
				}
			}
			if nd >= 0 && idom[b.Index] != nd {
				idom[b.Index] = nd
				changed = true
			}
		}
	}
	for _, b := range fn.Blocks {
		if reach[b.Index] && b != mainRet && idom[b.Index] >= 0 {
			res[b.Index] = fn.Blocks[idom[b.Index]]
		}
	}
	return res
}

// ---------- feasibility ----------

func (x *Exec) freshenModel(st *State) {
	if st.model == nil {
		return
	}
	for i := st.model.nAx(); i < len(x.sol.axioms); i++ {
		if p, ok := x.sol.axPair[i]; ok && !st.model.strict && !(st.model.assigned(p[0]) && st.model.assigned(p[1])) {
			continue
		}
		if st.model.Eval64(x.sol.axioms[i]) != 1 {
			st.model = nil
			return
		}
	}
	st.model.axSeen = len(x.sol.axioms)
}

// assigned: the model gives the application's result a value
func (m *Model) assigned(a *ufApp) bool {
	if !a.hasVar {
		return true
	}
	for _, v := range a.outVars {
		if m.v[v] != nil {
			return true
		}
	}
	return false
}

// defaulted: t depends on a function result the model leaves open
func (s *Solver) defaulted(m *Model, t *Term) bool {
	for _, v := range t.Support() {
		if m.v[v] == nil && len(s.appByVar[v]) > 0 {
			return true
		}
	}
	return false
}

func (x *Exec) check(st *State, cond *Term, hard bool) (Res, *Model) {
	if cond.isFalse() {
		return Unsat, nil
	}
	x.freshenModel(st)
	if st.model != nil && st.model.Eval64(cond) == 1 {
		if st.model.strict || !x.sol.defaulted(st.model, cond) {
			return Sat, st.model
		}
		n := &Model{v: st.model.v, memo: st.model.memo, m64: st.model.m64, strict: true}
		ok := true
		for _, a := range x.sol.axioms {
			if n.Eval64(a) != 1 {
				ok = false
				break
			}
		}
		if ok {
			n.axSeen = len(x.sol.axioms)
			return Sat, n
		}
	}
	if cond.isTrue() && st.model != nil {
		return Sat, st.model
	}
	pool := st.pc.list()
	var q []*Term
	if st.model == nil {
		q = x.sol.slice(append([]*Term{cond}, pool...), nil)
	} else {
		q = x.sol.slice([]*Term{cond}, pool)
	}
	r, mv := x.sol.Check(q, hard)
	if r != Sat {
		return r, nil
	}
	m := NewModel()
	if st.model != nil {
		m.strict = st.model.strict
		for k, v := range st.model.v {
			m.v[k] = v
		}
	}
	for k, v := range mv {
		m.v[k] = v
	}
	return Sat, m
}

// branch splits st on cond. Either result may be nil when infeasible. st is consumed.
func (x *Exec) branch(st *State, cond *Term) (*State, *State) {
	if cond.Op == OConst {
		if cond.C == 1 {
			return st, nil
		}
		return nil, st
	}
	// syntactic: cond or its negation already in pc
	nc := x.tc.Not(cond)
	for p := st.pc; p != nil; p = p.parent {
		if p.cond == cond {
			return st, nil
		}
		if p.cond == nc {
			return nil, st
		}
	}
	r1, m1 := x.check(st, cond, false)
	if r1 == Unsat {
		return nil, st
	}
	r2, m2 := x.check(st, nc, false)
	if r2 == Unsat {
		if r1 == Sat {
			st.model = m1
		}
		return st, nil
	}
	if r1 == Unknown || r2 == Unknown {
		x.note("feasibility unknown (both sides explored)")
	}
	f := x.forkState(st)
	x.forkN++
	st.assume(cond)
	st.model = m1
	f.assume(nc)
	f.model = m2
	return st, f
}

type cstate struct {
	st *State
	v  uint64
}

// concretize enumerates all feasible values of t (bounded).
func (x *Exec) concretize(st *State, t *Term, limit int) []cstate {
	if t.Op == OConst {
		return []cstate{{st, t.C}}
	}
	var out []cstate
	cur := st
	for {
		r, m := x.check(cur, x.tc.True, false)
		if r == Unsat {
			return out
		}
		if r == Unknown {
			x.note("concretisation: solver unknown")
			return out
		}
		v := m.Eval64(t)
		cur.model = m
		c := x.tc.Eq(t, x.tc.BV(t.W, v))
		a, b := x.branch(cur, c)
		if a != nil {
			out = append(out, cstate{a, v})
		}
		if b == nil {
			return out
		}
		cur = b
		if len(out) >= limit {
			x.note("concretisation limit %d reached", limit)
			return out
		}
	}
}

// ---------- running ----------

func posStr(fset *token.FileSet, p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

func (x *Exec) posOf(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if in.Block() != nil {
			for _, o := range in.Block().Instrs {
				if o.Pos().IsValid() {
					p = o.Pos()
				}
				if o == in {
					break
				}
			}
		}
	}
	return in.Parent().Name() + "@" + posStr(x.eng.fset, p)
}

const maxDepth = 400

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, bind []Value, depth int) []Outcome {
	if depth > maxDepth {
		panic(unsupported("call depth"))
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	x.funcs[fn.String()]++
	fi := x.info(fn)
	fr := &Frame{fn: fn, info: fi, regs: make([]Value, fi.n), forks: make([]int32, len(fn.Blocks)), depth: depth}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("arg count %s %d/%d", fn, len(args), len(fn.Params))))
	}
	for i, p := range fn.Params {
		fr.regs[fi.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[fi.num[p]] = bind[i]
	}
	basePC := st.pc
	forkObj := x.nextObj
	outs := x.run(fr, st, fn.Blocks[0], 0, nil)
	if len(outs) <= 1 {
		return outs
	}
	return x.mergeOutcomes(outs, basePC, forkObj, nil)
}

func (x *Exec) tick() {
	x.steps++
	if x.steps&0xf == 0 {
		if x.steps > x.maxSteps {
			panic(unsupported("step budget exhausted"))
		}
		if time.Now().After(x.deadline) {
			panic(unsupported("time budget exhausted"))
		}
		if x.kill.Load() {
			panic(unsupported("memory budget exhausted"))
		}
	}
}

func (x *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, i int, stop *ssa.BasicBlock) (outs []Outcome) {
	var cur ssa.Instruction
	if !x.initMode {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(unsupportedErr)
				if !ok {
					if os.Getenv("GOSYM_DEBUG") != "" {
						panic(r)
					}
					u = unsupported(fmt.Sprintf("engine: %v", r))
				}
				where := ""
				if cur != nil {
					where = x.posOf(cur)
				}
				x.note("path aborted: %s [%s]", u.msg, where)
				x.probe(st, where)
				outs = append(outs, Outcome{kind: kAbort})
			}
		}()
	}
	for {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			cur = in
			x.tick()
			switch ins := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				x.phis(fr, b, b.Succs[0])
				if b.Succs[0] == stop {
					return append(outs, Outcome{kind: kStop, st: st, fr: fr})
				}
				b, i = b.Succs[0], -1
				goto nextBlock
			case *ssa.If:
				c := x.pin(st, x.term(fr, ins.Cond))
				var t, f *State
				if c.Op == OConst {
					if c.C == 1 {
						t = st
					} else {
						f = st
					}
				} else {
					basePC := st.pc
					t, f = x.branch(st, c)
					if t != nil && f != nil {
						fr.forks[b.Index]++
						if fr.forks[b.Index] > x.forkLimit {
							x.note("unwind: fork limit %d at %s", x.forkLimit, x.posOf(ins))
							x.probe(st, x.posOf(ins))
							return append(outs, Outcome{kind: kAbort})
						}
						forkObj := x.nextObj
						J := fr.info.ipdom[b.Index]
						sub := stop
						if J != nil {
							sub = J
						}
						fr2 := fr.clone()
						var o1, o2 []Outcome
						pre := b
						o1 = x.enter(fr, t, pre, b.Succs[0], sub)
						o2 = x.enter(fr2, f, pre, b.Succs[1], sub)
						all := append(o1, o2...)
						if J == nil {
							return append(outs, all...)
						}
						var at, rest []Outcome
						for _, o := range all {
							if o.kind == kStop {
								at = append(at, o)
							} else {
								rest = append(rest, o)
							}
						}
						outs = append(outs, rest...)
						if len(at) > 1 {
							at = x.mergeOutcomes(at, basePC, forkObj, J)
						}
						if J == stop {
							return append(outs, at...)
						}
						if len(at) == 0 {
							return outs
						}
						for k := 0; k < len(at)-1; k++ {
							outs = append(outs, x.run(at[k].fr, at[k].st, J, 0, stop)...)
						}
						l := at[len(at)-1]
						fr, st, b, i = l.fr, l.st, J, -1
						goto nextBlock
					}
				}
				k := 0
				if t == nil {
					k = 1
					st = f
				} else {
					st = t
				}
				x.phis(fr, b, b.Succs[k])
				if b.Succs[k] == stop {
					return append(outs, Outcome{kind: kStop, st: st, fr: fr})
				}
				b, i = b.Succs[k], -1
				goto nextBlock
			case *ssa.Return:
				var v Value
				switch len(ins.Results) {
				case 0:
				case 1:
					v = x.val(fr, ins.Results[0])
				default:
					tv := make(TupleV, len(ins.Results))
					for k, r := range ins.Results {
						tv[k] = x.val(fr, r)
					}
					v = tv
				}
				x.paths++
				return append(outs, Outcome{kind: kReturn, st: st, val: v})
			case *ssa.Panic:
				msg := "panic"
				if iv, ok := x.val(fr, ins.X).(IfaceV); ok {
					if s, ok := iv.v.(StrV); ok && !s.sym {
						msg = "panic: " + s.s
					}
				}
				return append(outs, x.unwind(fr, Outcome{kind: kPanic, st: st, msg: msg, pos: x.posOf(ins)})...)
			case *ssa.RunDefers:
				ds := fr.defers
				fr.defers = nil
				for k := len(ds) - 1; k >= 0; k-- {
					ro := x.callValue(st, fr, ds[k].fn, ds[k].args, ins)
					var good []Outcome
					for _, o := range ro {
						if o.kind == kReturn {
							good = append(good, o)
						} else {
							outs = append(outs, o)
						}
					}
					if len(good) != 1 {
						panic(unsupported("forking deferred call"))
					}
					st = good[0].st
				}
				continue
			case *ssa.Defer:
				fv, args := x.callTarget(st, fr, &ins.Call)
				fr.defers = append(fr.defers, deferred{fn: fv, args: args})
				continue
			}
			rs := x.step(fr, st, in)
			if len(rs) == 1 && rs[0].kind == kReturn {
				st = rs[0].st
				if v, ok := in.(ssa.Value); ok {
					rv := rs[0].val
					if tv, ok := rv.(*Term); ok {
						rv = x.pin(st, tv)
					}
					fr.regs[fr.info.num[v]] = rv
				}
				continue
			}
			var good []Outcome
			for _, o := range rs {
				if o.kind == kReturn {
					good = append(good, o)
				} else {
					outs = append(outs, x.unwind(fr, o)...)
				}
			}
			if len(good) == 0 {
				return outs
			}
			for k := 0; k < len(good)-1; k++ {
				f2 := fr.clone()
				if v, ok := in.(ssa.Value); ok {
					f2.regs[fr.info.num[v]] = good[k].val
				}
				outs = append(outs, x.run(f2, good[k].st, b, i+1, stop)...)
			}
			l := good[len(good)-1]
			st = l.st
			if v, ok := in.(ssa.Value); ok {
				fr.regs[fr.info.num[v]] = l.val
			}
		}
		panic(unsupported("fell off block"))
	nextBlock:
		i = 0
	}
}

// unwind runs the deferred calls of a frame that panicked; a deferred call
// that recovers turns the panic into a return through the function's recover block.
func (x *Exec) unwind(fr *Frame, o Outcome) []Outcome {
	if o.kind != kPanic || len(fr.defers) == 0 {
		return []Outcome{o}
	}
	f2 := fr.clone()
	ds := f2.defers
	f2.defers = nil
	st := o.st
	st.panicking = &o.msg
	for k := len(ds) - 1; k >= 0; k-- {
		ro := x.callValue(st, f2, ds[k].fn, ds[k].args, fr.fn.Blocks[0].Instrs[0])
		if len(ro) != 1 || ro[0].kind != kReturn {
			panic(unsupported("forking or panicking deferred call during a panic"))
		}
		st = ro[0].st
	}
	if st.panicking != nil {
		st.panicking = nil
		o.st = st
		return []Outcome{o}
	}
	if fr.fn.Recover == nil {
		rs := fr.fn.Signature.Results()
		switch rs.Len() {
		case 0:
			return []Outcome{{kind: kReturn, st: st}}
		case 1:
			return []Outcome{{kind: kReturn, st: st, val: x.zero(rs.At(0).Type())}}
		}
		tv := make(TupleV, rs.Len())
		for i := range tv {
			tv[i] = x.zero(rs.At(i).Type())
		}
		return []Outcome{{kind: kReturn, st: st, val: tv}}
	}
	return x.run(f2, st, fr.fn.Recover, 0, nil)
}

func (x *Exec) enter(fr *Frame, st *State, from, to, stop *ssa.BasicBlock) []Outcome {
	x.phis(fr, from, to)
	if to == stop {
		return []Outcome{{kind: kStop, st: st, fr: fr}}
	}
	return x.run(fr, st, to, 0, stop)
}

func (x *Exec) phis(fr *Frame, from, to *ssa.BasicBlock) {
	if len(to.Instrs) == 0 {
		return
	}
	if _, ok := to.Instrs[0].(*ssa.Phi); !ok {
		return
	}
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	// an If with both successors equal: edges identical value-wise only if phis agree; go/ssa keeps duplicates
	var vals []Value
	var idx []int
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(fr, phi.Edges[k]))
		idx = append(idx, fr.info.num[phi])
	}
	for i := range vals {
		fr.regs[idx[i]] = vals[i]
	}
}

// ---------- merging ----------

func (x *Exec) mergeOutcomes(outs []Outcome, basePC *PC, forkObj int, J *ssa.BasicBlock) []Outcome {
	if x.mergeOff {
		return outs
	}
	var res []Outcome
	for _, o := range outs {
		if o.kind == kAbort {
			if len(res) == 0 || res[len(res)-1].kind != kAbort {
				res = append(res, o)
			}
			continue
		}
		done := false
		for i := range res {
			if res[i].kind != o.kind {
				continue
			}
			if m, ok := x.merge2(res[i], o, basePC, forkObj, J); ok {
				res[i] = m
				done = true
				x.merges++
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

func pcAbove(p, base *PC) []*Term {
	var r []*Term
	for ; p != base; p = p.parent {
		if p == nil {
			return nil
		}
		r = append(r, p.cond)
	}
	// reverse: oldest first
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (x *Exec) merge2(a, b Outcome, base *PC, forkObj int, J *ssa.BasicBlock) (Outcome, bool) {
	tc := x.tc
	l1, l2 := pcAbove(a.st.pc, base), pcAbove(b.st.pc, base)
	// discriminating condition
	k := 0
	for k < len(l1) && k < len(l2) && l1[k] == l2[k] {
		k++
	}
	var c *Term
	if k < len(l1) && k < len(l2) && tc.Not(l1[k]) == l2[k] {
		c = l1[k]
	} else {
		c = tc.AndN(l1[k:]...)
		if c.isTrue() {
			c = tc.Not(tc.AndN(l2[k:]...))
		}
	}
	m := &merger{x: x, c: c, s1: a.st, s2: b.st, forkObj: forkObj}
	res := Outcome{kind: a.kind}
	switch a.kind {
	case kReturn:
		v, ok := m.val(a.val, b.val)
		if !ok {
			return res, false
		}
		res.val = v
	case kPanic:
		res.msg, res.pos = a.msg, a.pos
		if a.pos != b.pos {
			return res, false
		}
	case kStop:
		live := a.fr.info.liveIn[J.Index]
		nf := a.fr.clone()
		if len(a.fr.defers) != len(b.fr.defers) {
			return res, false
		}
		for i := range nf.regs {
			if live[i>>6]>>uint(i&63)&1 == 0 {
				nf.regs[i] = nil
				continue
			}
			v, ok := m.val(a.fr.regs[i], b.fr.regs[i])
			if !ok {
				return res, false
			}
			nf.regs[i] = v
		}
		for i := range nf.forks {
			nf.forks[i] = max(a.fr.forks[i], b.fr.forks[i])
		}
		res.fr = nf
	}
	type upd struct {
		id int
		v  Value
	}
	var ups []upd
	done := map[int]bool{}
	mergeObj := func(id1, id2 int) bool {
		o1, ok1 := a.st.heap[id1]
		o2, ok2 := b.st.heap[id2]
		if !ok1 {
			o1 = x.base[id1]
		}
		if !ok2 {
			o2 = x.base[id2]
		}
		if o1 == nil || o2 == nil {
			return false
		}
		if o1 == o2 {
			return true
		}
		v, ok := m.val(o1.v, o2.v)
		if !ok {
			return false
		}
		ups = append(ups, upd{id1, v})
		return true
	}
	for id, o := range a.st.heap {
		if id > forkObj && x.base[id] == nil {
			continue
		}
		if b.st.heap[id] == o {
			continue
		}
		done[id] = true
		if !mergeObj(id, id) {
			return res, false
		}
	}
	for id := range b.st.heap {
		if id > forkObj && x.base[id] == nil {
			continue
		}
		if _, ok := a.st.heap[id]; ok {
			continue
		}
		if !mergeObj(id, id) {
			return res, false
		}
	}
	for len(m.queue) > 0 {
		id := m.queue[len(m.queue)-1]
		m.queue = m.queue[:len(m.queue)-1]
		if !mergeObj(id, m.p12[id]) {
			return res, false
		}
	}
	// build merged state (reuse a.st)
	ns := &State{heap: make(map[int]*Obj, len(a.st.heap)), model: a.st.model, scope: a.st.scope}
	x.nextState++
	ns.id = x.nextState
	for id, o := range a.st.heap {
		ns.heap[id] = o
	}
	for id, o := range b.st.heap {
		if _, ok := ns.heap[id]; !ok && id <= forkObj {
			ns.heap[id] = o
		}
	}
	for _, u := range ups {
		ns.heap[u.id] = &Obj{owner: ns.id, v: u.v}
	}
	ns.pc = base
	for i := 0; i < k; i++ {
		ns.assume(l1[i])
	}
	ns.assume(tc.OrN(tc.AndN(l1[k:]...), tc.AndN(l2[k:]...)))
	res.st = ns
	return res, true
}

// ---------- values ----------

func (x *Exec) val(fr *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return Ptr{obj: x.global(c)}
	case *ssa.Function:
		return &Closure{fn: c}
	case *ssa.Builtin:
		return BuiltinV{c.Name()}
	}
	n, ok := fr.info.num[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %T", v)))
	}
	r := fr.regs[n]
	if p, ok := r.(Poison); ok && !x.initMode {
		panic(unsupported("poison: " + p.why))
	}
	return r
}

func (x *Exec) term(fr *Frame, v ssa.Value) *Term {
	r := x.val(fr, v)
	t, ok := r.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("expected scalar, got %T", r)))
	}
	return t
}

func (x *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(unsupported("type param const"))
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("const of " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.tc.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(c.Value)
			return conc(string(rune(n)))
		}
		return conc(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w := intWidth(b)
		iv := constant.ToInt(c.Value)
		bi, _ := new(big.Int).SetString(iv.ExactString(), 10)
		return x.tc.BVBig(w, bi)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return FloatV(f)
	case b.Kind() == types.UnsafePointer:
		return Ptr{}
	}
	panic(unsupported("const " + c.String()))
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isNamed(t types.Type, full string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path()+"."+o.Name() == full
}

func (x *Exec) zero(t types.Type) Value {
	if isNamed(t, "math/big.Int") {
		return BigV{x.tc.False, x.tc.BV(1, 0)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.tc.False
		case u.Info()&types.IsString != 0:
			return conc("")
		case u.Info()&types.IsInteger != 0:
			return x.tc.BV(intWidth(u), 0)
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return IfaceV{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return Ptr{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			panic(unsupported("huge array"))
		}
		a := &ArrV{e: make([]Value, n)}
		if n > 0 {
			z := x.zero(u.Elem())
			_, agg1 := z.(*StructV)
			_, agg2 := z.(*ArrV)
			for i := range a.e {
				if i > 0 && (agg1 || agg2) {
					z = deepCopy(z)
				}
				a.e[i] = z
			}
		}
		return a
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = x.zero(u.At(i).Type())
		}
		return tv
	}
	panic(unsupported("zero of " + t.String()))
}

func (x *Exec) global(g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		if g.Pkg != nil && !x.inited[g.Pkg] {
			x.initPkg(g.Pkg)
		}
		return id
	}
	x.nextObj++
	id := x.nextObj
	x.globals[g] = id
	x.base[id] = &Obj{v: x.safeZero(g.Type().(*types.Pointer).Elem())}
	if g.Pkg != nil {
		x.initPkg(g.Pkg)
	}
	return id
}

func (x *Exec) safeZero(t types.Type) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			v = Poison{fmt.Sprint(r)}
		}
	}()
	return x.zero(t)
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "time": true, "internal/poll": true, "crypto/rand": true, "net": true, "sync": true, "math/rand": true, "math/rand/v2": true, "internal/godebug": true, "crypto/internal/fips140": true, "fmt": true}

// initPkg interprets the package initialiser concretely and tolerantly.
func (x *Exec) initPkg(p *ssa.Package) {
	if x.inited[p] {
		return
	}
	x.inited[p] = true
	path := p.Pkg.Path()
	if skipInit[path] || strings.HasPrefix(path, "runtime") || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "crypto/internal") {
		return
	}
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	x.runInit(f)
}

func (x *Exec) runInit(f *ssa.Function) {
	saved := x.initMode
	x.initMode = true
	defer func() { x.initMode = saved }()
	st := &State{heap: map[int]*Obj{}, id: -1}
	fi := x.info(f)
	fr := &Frame{fn: f, info: fi, regs: make([]Value, fi.n), forks: make([]int32, len(f.Blocks))}
	b := f.Blocks[0]
	steps := 0
	for {
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			steps++
			if steps > 2_000_000 {
				return
			}
			switch ins := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				if u, ok := ins.Cond.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Name() == "init$guard" {
						next = b.Succs[1]
						break
					}
				}
				c, ok := x.tryVal(fr, ins.Cond).(*Term)
				if !ok || c.Op != OConst {
					return
				}
				if c.C == 1 {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				return
			case *ssa.Call:
				if callee := ins.Call.StaticCallee(); callee != nil && callee.Name() == "init" && callee.Pkg != f.Pkg {
					continue // dependencies are initialised lazily
				}
				if callee := ins.Call.StaticCallee(); callee != nil && strings.HasPrefix(callee.Name(), "init#") && callee.Pkg == f.Pkg {
					x.tolerant(fr, st, in)
					continue
				}
				x.tolerant(fr, st, in)
			default:
				x.tolerant(fr, st, in)
			}
		}
		if next == nil {
			return
		}
		func() {
			defer func() { recover() }()
			x.phis(fr, b, next)
		}()
		b = next
	}
}

func (x *Exec) tryVal(fr *Frame, v ssa.Value) (r Value) {
	defer func() {
		if e := recover(); e != nil {
			r = Poison{fmt.Sprint(e)}
		}
	}()
	return x.val(fr, v)
}

func (x *Exec) tolerant(fr *Frame, st *State, in ssa.Instruction) {
	set := func(v Value) {
		if sv, ok := in.(ssa.Value); ok {
			fr.regs[fr.info.num[sv]] = v
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GOSYM_DEBUG") == "2" {
				fmt.Fprintln(os.Stderr, "init:", in, r)
			}
			set(Poison{fmt.Sprint(r)})
			if s, ok := in.(*ssa.Store); ok {
				func() {
					defer func() { recover() }()
					if p, ok := x.val(fr, s.Addr).(Ptr); ok {
						x.store(st, p, Poison{fmt.Sprint(r)})
					}
				}()
			}
		}
	}()
	rs := x.step(fr, st, in)
	if len(rs) == 1 && rs[0].kind == kReturn {
		set(rs[0].val)
		return
	}
	set(Poison{"init outcome"})
}

func ret(st *State, v Value) []Outcome { return []Outcome{{kind: kReturn, st: st, val: v}} }

func (x *Exec) panicOut(st *State, in ssa.Instruction, msg string) Outcome {
	return Outcome{kind: kPanic, st: st, msg: msg, pos: x.posOf(in)}
}

// guard splits on ok; the failing side becomes a panic outcome.
func (x *Exec) guard(st *State, in ssa.Instruction, ok *Term, msg string, outs *[]Outcome) *State {
	g, bad := x.branch(st, ok)
	if bad != nil {
		*outs = append(*outs, x.panicOut(bad, in, msg))
	}
	return g
}

func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) []Outcome {
	tc := x.tc
	switch ins := in.(type) {
	case *ssa.Alloc:
		id := x.alloc(st, x.zero(ins.Type().Underlying().(*types.Pointer).Elem()))
		return ret(st, Ptr{obj: id})
	case *ssa.Store:
		p, ok := x.val(fr, ins.Addr).(Ptr)
		if !ok {
			panic(unsupported("store to non-pointer"))
		}
		if p.obj == 0 {
			return []Outcome{x.panicOut(st, in, "nil pointer dereference")}
		}
		x.store(st, p, x.val(fr, ins.Val))
		return ret(st, nil)
	case *ssa.UnOp:
		return x.unop(fr, st, ins)
	case *ssa.BinOp:
		return x.binop(fr, st, ins)
	case *ssa.Call:
		return x.call(fr, st, ins)
	case *ssa.ChangeInterface:
		return ret(st, x.val(fr, ins.X))
	case *ssa.ChangeType:
		return ret(st, x.val(fr, ins.X))
	case *ssa.Convert:
		return x.convert(st, in, x.val(fr, ins.X), ins.X.Type(), ins.Type())
	case *ssa.MultiConvert:
		return x.convert(st, in, x.val(fr, ins.X), ins.X.Type(), ins.Type())
	case *ssa.Extract:
		tv, ok := x.val(fr, ins.Tuple).(TupleV)
		if !ok {
			panic(unsupported("extract of non-tuple"))
		}
		return ret(st, tv[ins.Index])
	case *ssa.Field:
		s := x.val(fr, ins.X).(*StructV)
		return ret(st, s.f[ins.Field])
	case *ssa.FieldAddr:
		p, ok := x.val(fr, ins.X).(Ptr)
		if !ok {
			panic(unsupported(fmt.Sprintf("fieldaddr of %T", x.val(fr, ins.X))))
		}
		if p.obj == 0 {
			return []Outcome{x.panicOut(st, in, "nil pointer dereference")}
		}
		if p.sidx != nil {
			panic(unsupported("field of symbolic element"))
		}
		np := append(append(make([]int, 0, len(p.path)+1), p.path...), ins.Field)
		return ret(st, Ptr{obj: p.obj, path: np})
	case *ssa.IndexAddr:
		return x.indexAddr(fr, st, ins)
	case *ssa.Index:
		xv := x.val(fr, ins.X)
		idx := x.idxTerm(fr, ins.Index)
		switch a := xv.(type) {
		case *ArrV:
			var outs []Outcome
			g := x.guard(st, in, tc.Ult(idx, tc.BV(64, uint64(len(a.e)))), "index out of range", &outs)
			if g != nil {
				outs = append(outs, Outcome{kind: kReturn, st: g, val: x.selectElem(a.e, idx)})
			}
			return outs
		case StrV:
			return x.strIndex(st, in, a, idx)
		}
		panic(unsupported(fmt.Sprintf("index of %T", xv)))
	case *ssa.Lookup:
		return x.lookup(fr, st, ins)
	case *ssa.MakeClosure:
		b := make([]Value, len(ins.Bindings))
		for i, v := range ins.Bindings {
			b[i] = x.val(fr, v)
		}
		return ret(st, &Closure{fn: ins.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeInterface:
		v := x.val(fr, ins.X)
		return ret(st, IfaceV{ins.X.Type(), v})
	case *ssa.MakeMap:
		return ret(st, MapV{x.alloc(st, &MapObj{})})
	case *ssa.MakeSlice:
		return x.makeSlice(fr, st, ins)
	case *ssa.MapUpdate:
		m, ok := x.val(fr, ins.Map).(MapV)
		if !ok {
			panic(unsupported("mapupdate"))
		}
		if m.obj == 0 {
			return []Outcome{x.panicOut(st, in, "assignment to entry in nil map")}
		}
		return x.mapUpdate(st, m, x.val(fr, ins.Key), x.val(fr, ins.Value))
	case *ssa.Range:
		switch v := x.val(fr, ins.X).(type) {
		case StrV:
			if v.tok != nil {
				panic(unsupported("range over token string"))
			}
			return ret(st, Ptr{obj: x.alloc(st, &RangeIter{str: &v})})
		case MapV:
			it := &RangeIter{m: &MapObj{}, mobj: v.obj}
			if v.obj != 0 {
				mo := x.obj(st, v.obj).v.(*MapObj)
				it.m = &MapObj{keys: append([]Value{}, mo.keys...), vals: append([]Value{}, mo.vals...)}
			}
			return ret(st, Ptr{obj: x.alloc(st, it)})
		}
		panic(unsupported("range"))
	case *ssa.Next:
		return x.next(fr, st, ins)
	case *ssa.Slice:
		return x.slice(fr, st, ins)
	case *ssa.SliceToArrayPointer:
		s := x.val(fr, ins.X).(SliceV)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			return []Outcome{x.panicOut(st, in, "slice to array pointer: length")}
		}
		arr := walk(x.obj(st, s.obj).v, s.path).(*ArrV)
		if s.off == 0 && len(arr.e) == n {
			return ret(st, Ptr{obj: s.obj, path: s.path})
		}
		// aliasing view not representable: only allow when immediately dereferenced
		cp := &ArrV{e: append([]Value{}, arr.e[s.off:s.off+n]...)}
		return ret(st, Ptr{obj: x.alloc(st, deepCopy(cp))})
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, ins)
	}
	panic(unsupported(fmt.Sprintf("instr %T", in)))
}

func (x *Exec) idxTerm(fr *Frame, v ssa.Value) *Term {
	t := x.term(fr, v)
	return x.tc.Resize(t, 64, isSigned(v.Type()))
}

func (x *Exec) indexAddr(fr *Frame, st *State, ins *ssa.IndexAddr) []Outcome {
	tc := x.tc
	idx := x.idxTerm(fr, ins.Index)
	var outs []Outcome
	switch b := x.val(fr, ins.X).(type) {
	case SliceV:
		g := x.guard(st, ins, tc.Ult(idx, tc.BV(64, uint64(b.len))), "index out of range", &outs)
		if g == nil {
			return outs
		}
		if idx.Op == OConst {
			np := append(append(make([]int, 0, len(b.path)+1), b.path...), b.off+int(idx.C))
			return append(outs, Outcome{kind: kReturn, st: g, val: Ptr{obj: b.obj, path: np}})
		}
		return append(outs, x.symElem(g, ins, b.obj, b.path, b.off, b.len, idx)...)
	case Ptr:
		if b.obj == 0 {
			return []Outcome{x.panicOut(st, ins, "nil pointer dereference")}
		}
		if b.sidx != nil {
			panic(unsupported("index of symbolic element"))
		}
		n := int(ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		g := x.guard(st, ins, tc.Ult(idx, tc.BV(64, uint64(n))), "index out of range", &outs)
		if g == nil {
			return outs
		}
		if idx.Op == OConst {
			np := append(append(make([]int, 0, len(b.path)+1), b.path...), int(idx.C))
			return append(outs, Outcome{kind: kReturn, st: g, val: Ptr{obj: b.obj, path: np}})
		}
		return append(outs, x.symElem(g, ins, b.obj, b.path, 0, n, idx)...)
	}
	panic(unsupported("indexaddr"))
}

func (x *Exec) symElem(st *State, in ssa.Instruction, obj int, path []int, off, n int, idx *Term) []Outcome {
	arr := walk(x.obj(st, obj).v, path).(*ArrV)
	scalar := n > 0
	if n > 0 {
		switch arr.e[off].(type) {
		case *Term:
		default:
			scalar = false
		}
	}
	if scalar {
		return ret(st, Ptr{obj: obj, path: path, sidx: idx, sn: n, soff: off})
	}
	var outs []Outcome
	for _, c := range x.concretize(st, idx, 512) {
		np := append(append(make([]int, 0, len(path)+1), path...), off+int(c.v))
		outs = append(outs, Outcome{kind: kReturn, st: c.st, val: Ptr{obj: obj, path: np}})
	}
	return outs
}

func (x *Exec) strIndex(st *State, in ssa.Instruction, s StrV, idx *Term) []Outcome {
	tc := x.tc
	var outs []Outcome
	if s.tok != nil {
		panic(unsupported("index into token string"))
	}
	n := s.Len()
	g := x.guard(st, in, tc.Ult(idx, tc.BV(64, uint64(n))), "index out of range", &outs)
	if g == nil {
		return outs
	}
	if idx.Op == OConst {
		return append(outs, Outcome{kind: kReturn, st: g, val: s.at(tc, int(idx.C))})
	}
	el := make([]Value, n)
	for i := range el {
		el[i] = s.at(tc, i)
	}
	return append(outs, Outcome{kind: kReturn, st: g, val: x.selectElem(el, idx)})
}

func (x *Exec) unop(fr *Frame, st *State, ins *ssa.UnOp) []Outcome {
	tc := x.tc
	v := x.val(fr, ins.X)
	switch ins.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported(fmt.Sprintf("deref %T", v)))
		}
		if p.obj == 0 {
			return []Outcome{x.panicOut(st, ins, "nil pointer dereference")}
		}
		r := x.load(st, p)
		if ps, ok := r.(Poison); ok && !x.initMode {
			panic(unsupported("poison global: " + ps.why))
		}
		return ret(st, r)
	case token.NOT:
		return ret(st, tc.Not(v.(*Term)))
	case token.SUB:
		if f, ok := v.(FloatV); ok {
			return ret(st, -f)
		}
		return ret(st, tc.Neg(v.(*Term)))
	case token.XOR:
		return ret(st, tc.BVNot(v.(*Term)))
	}
	panic(unsupported("unop " + ins.Op.String()))
}

func (x *Exec) binop(fr *Frame, st *State, ins *ssa.BinOp) []Outcome {
	tc := x.tc
	a, b := x.val(fr, ins.X), x.val(fr, ins.Y)
	switch ins.Op {
	case token.EQL, token.NEQ:
		c := x.equal(st, a, b)
		if ins.Op == token.NEQ {
			c = tc.Not(c)
		}
		return ret(st, c)
	}
	if fa, ok := a.(FloatV); ok {
		fb := b.(FloatV)
		switch ins.Op {
		case token.ADD:
			return ret(st, fa+fb)
		case token.SUB:
			return ret(st, fa-fb)
		case token.MUL:
			return ret(st, fa*fb)
		case token.QUO:
			return ret(st, fa/fb)
		case token.LSS:
			return ret(st, tc.Bool(fa < fb))
		case token.LEQ:
			return ret(st, tc.Bool(fa <= fb))
		case token.GTR:
			return ret(st, tc.Bool(fa > fb))
		case token.GEQ:
			return ret(st, tc.Bool(fa >= fb))
		}
	}
	if sa, ok := a.(StrV); ok {
		sb := b.(StrV)
		switch ins.Op {
		case token.ADD:
			return ret(st, x.strCat(sa, sb))
		case token.LSS:
			return ret(st, x.strLess(sa, sb, false))
		case token.LEQ:
			return ret(st, x.strLess(sa, sb, true))
		case token.GTR:
			return ret(st, x.strLess(sb, sa, false))
		case token.GEQ:
			return ret(st, x.strLess(sb, sa, true))
		}
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T,%T", ins.Op, a, b)))
	}
	signed := isSigned(ins.X.Type())
	switch ins.Op {
	case token.ADD:
		return ret(st, tc.Add(p, q))
	case token.SUB:
		return ret(st, tc.Sub(p, q))
	case token.MUL:
		return ret(st, tc.Mul(p, q))
	case token.AND:
		return ret(st, tc.And(p, q))
	case token.OR:
		return ret(st, tc.Or(p, q))
	case token.XOR:
		return ret(st, tc.Xor(p, q))
	case token.AND_NOT:
		return ret(st, tc.And(p, tc.BVNot(q)))
	case token.QUO, token.REM:
		var outs []Outcome
		g := x.guard(st, ins, tc.Ne(q, tc.BV(q.W, 0)), "integer divide by zero", &outs)
		if g == nil {
			return outs
		}
		var r *Term
		switch {
		case ins.Op == token.QUO && signed:
			r = tc.SDiv(p, q)
		case ins.Op == token.QUO:
			r = tc.UDiv(p, q)
		case signed:
			r = tc.SRem(p, q)
		default:
			r = tc.URem(p, q)
		}
		return append(outs, Outcome{kind: kReturn, st: g, val: r})
	case token.SHL, token.SHR:
		var outs []Outcome
		if isSigned(ins.Y.Type()) {
			g := x.guard(st, ins, tc.Sle(tc.BV(q.W, 0), q), "negative shift amount", &outs)
			if g == nil {
				return outs
			}
			st = g
		}
		// bring shift count to width of p, saturating
		var cnt *Term
		if q.W > p.W {
			big := tc.Ule(tc.BV(q.W, uint64(p.W)), q)
			cnt = tc.Ite(big, tc.BV(p.W, uint64(p.W)), tc.Extract(q, p.W-1, 0))
			if p.W == 8 && p.W < 8 {
				panic("unreachable")
			}
		} else {
			cnt = tc.ZExt(q, p.W)
		}
		var r *Term
		switch {
		case ins.Op == token.SHL:
			r = tc.Shl(p, cnt)
		case signed:
			r = tc.AShr(p, cnt)
		default:
			r = tc.LShr(p, cnt)
		}
		return append(outs, Outcome{kind: kReturn, st: st, val: r})
	case token.LSS:
		if signed {
			return ret(st, tc.Slt(p, q))
		}
		return ret(st, tc.Ult(p, q))
	case token.LEQ:
		if signed {
			return ret(st, tc.Sle(p, q))
		}
		return ret(st, tc.Ule(p, q))
	case token.GTR:
		if signed {
			return ret(st, tc.Slt(q, p))
		}
		return ret(st, tc.Ult(q, p))
	case token.GEQ:
		if signed {
			return ret(st, tc.Sle(q, p))
		}
		return ret(st, tc.Ule(q, p))
	}
	panic(unsupported("binop " + ins.Op.String()))
}

func (x *Exec) strCat(a, b StrV) StrV {
	if a.tok != nil && b.Len() == 0 {
		return a
	}
	if b.tok != nil && a.Len() == 0 {
		return b
	}
	if !a.sym && !b.sym {
		return conc(a.s + b.s)
	}
	r := append(append([]*Term{}, a.bytes(x.tc)...), b.bytes(x.tc)...)
	return mkStr(r)
}

func (x *Exec) strEq(a, b StrV) *Term {
	if !a.sym && !b.sym {
		return x.tc.Bool(a.s == b.s)
	}
	if a.tok != nil && a.tok == b.tok {
		return x.tc.True
	}
	if a.Len() != b.Len() {
		return x.tc.False
	}
	return x.bytesEq(a.bytes(x.tc), b.bytes(x.tc))
}

func (x *Exec) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return x.tc.False
	}
	cs := make([]*Term, len(a))
	for i := range a {
		cs[i] = x.tc.Eq(a[i], b[i])
		if cs[i].isFalse() {
			return x.tc.False
		}
	}
	return x.tc.AndN(cs...)
}

func (x *Exec) bytesLess(a, b []*Term, orEq bool) *Term {
	tc := x.tc
	n := min(len(a), len(b))
	var r *Term
	if orEq {
		r = tc.Bool(len(a) <= len(b))
	} else {
		r = tc.Bool(len(a) < len(b))
	}
	for i := n - 1; i >= 0; i-- {
		r = tc.Ite(tc.Eq(a[i], b[i]), r, tc.Ult(a[i], b[i]))
	}
	return r
}

func (x *Exec) strLess(a, b StrV, orEq bool) *Term {
	return x.bytesLess(a.bytes(x.tc), b.bytes(x.tc), orEq)
}

func (x *Exec) equal(st *State, a, b Value) *Term {
	tc := x.tc
	switch p := a.(type) {
	case *Term:
		return tc.Eq(p, b.(*Term))
	case FloatV:
		return tc.Bool(p == b.(FloatV))
	case StrV:
		return x.strEq(p, b.(StrV))
	case Ptr:
		q := b.(Ptr)
		if p.sidx != q.sidx {
			panic(unsupported("compare symbolic pointers"))
		}
		return tc.Bool(p.obj == q.obj && samePath(p.path, q.path))
	case SliceV:
		q := b.(SliceV)
		return tc.Bool(p.obj == 0 && q.obj == 0)
	case MapV:
		return tc.Bool(p.obj == b.(MapV).obj)
	case *Closure:
		q, _ := b.(*Closure)
		return tc.Bool(p == nil && q == nil)
	case BuiltinV:
		return tc.False
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			panic(unsupported("iface compare"))
		}
		if p.t == nil || q.t == nil {
			return tc.Bool(p.t == nil && q.t == nil)
		}
		if !types.Identical(p.t, q.t) {
			return tc.False
		}
		return x.equal(st, p.v, q.v)
	case ErrV:
		return tc.Eq(p.id, b.(ErrV).id)
	case *StructV:
		q := b.(*StructV)
		var cs []*Term
		for i := range p.f {
			cs = append(cs, x.equal(st, p.f[i], q.f[i]))
		}
		return tc.AndN(cs...)
	case *ArrV:
		q := b.(*ArrV)
		var cs []*Term
		for i := range p.e {
			cs = append(cs, x.equal(st, p.e[i], q.e[i]))
		}
		return tc.AndN(cs...)
	}
	panic(unsupported(fmt.Sprintf("equal %T", a)))
}

func basic(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func (x *Exec) convert(st *State, in ssa.Instruction, v Value, from, to types.Type) []Outcome {
	tc := x.tc
	fb, tb := basic(from), basic(to)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return ret(st, tc.Resize(v.(*Term), intWidth(tb), fb.Info()&types.IsUnsigned == 0))
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return ret(st, v)
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		t := v.(*Term)
		if t.Op == OConst {
			return ret(st, conc(string(rune(sx(t.C, t.W)))))
		}
		if t.W <= 64 && t.hi < 0x80 {
			return ret(st, mkStr([]*Term{tc.Extract(tc.ZExt(t, 64), 7, 0)}))
		}
		// rune < 0x80 branch
		t64 := tc.Resize(t, 64, fb.Info()&types.IsUnsigned == 0)
		var outs []Outcome
		g, bad := x.branch(st, tc.Ult(t64, tc.BV(64, 0x80)))
		if g != nil {
			outs = append(outs, Outcome{kind: kReturn, st: g, val: mkStr([]*Term{tc.Extract(t64, 7, 0)})})
		}
		if bad != nil {
			g2, bad2 := x.branch(bad, tc.Ult(t64, tc.BV(64, 0x800)))
			if g2 != nil {
				b0 := tc.Or(tc.BV(8, 0xC0), tc.ZExt(tc.Extract(t64, 10, 6), 8))
				b1 := tc.Or(tc.BV(8, 0x80), tc.ZExt(tc.Extract(t64, 5, 0), 8))
				outs = append(outs, Outcome{kind: kReturn, st: g2, val: mkStr([]*Term{b0, b1})})
			}
			if bad2 != nil {
				panic(unsupported("symbolic rune >= 0x800 to string"))
			}
		}
		return outs
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 {
			return ret(st, FloatV(float32(v.(FloatV))))
		}
		return ret(st, v)
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		t := v.(*Term)
		if t.Op != OConst {
			panic(unsupported("symbolic int to float"))
		}
		if fb.Info()&types.IsUnsigned == 0 {
			return ret(st, FloatV(float64(sx(t.C, t.W))))
		}
		return ret(st, FloatV(float64(t.C)))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		f := float64(v.(FloatV))
		if tb.Info()&types.IsUnsigned != 0 {
			return ret(st, tc.BV(intWidth(tb), uint64(f)))
		}
		return ret(st, tc.BV(intWidth(tb), uint64(int64(f))))
	}
	if s, ok := v.(StrV); ok {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			eb := basic(sl.Elem())
			if eb != nil && eb.Kind() == types.Byte {
				if s.tok != nil {
					panic(unsupported("bytes of token string"))
				}
				return ret(st, x.newByteSlice(st, append([]*Term{}, s.bytes(tc)...)))
			}
			if eb != nil && eb.Kind() == types.Rune {
				return x.runes(st, s)
			}
		}
	}
	if s, ok := v.(SliceV); ok && tb != nil && tb.Info()&types.IsString != 0 {
		eb := basic(from.Underlying().(*types.Slice).Elem())
		if eb.Kind() == types.Byte {
			return ret(st, mkStr(x.sliceTerms(st, s)))
		}
		if eb.Kind() == types.Rune {
			ts := x.sliceTerms(st, s)
			var r []*Term
			cur := st
			for _, t := range ts {
				if t.Op == OConst {
					r = append(r, x.symBytes([]byte(string(rune(int32(t.C)))))...)
					continue
				}
				if t.hi < 0x80 {
					r = append(r, tc.Extract(t, 7, 0))
					continue
				}
				g, bad := x.branch(cur, tc.Ult(t, tc.BV(t.W, 0x80)))
				if bad != nil {
					panic(unsupported("symbolic non-ascii rune slice to string"))
				}
				cur = g
				r = append(r, tc.Extract(t, 7, 0))
			}
			return ret(cur, mkStr(r))
		}
	}
	if p, ok := v.(Ptr); ok {
		return ret(st, p) // unsafe.Pointer conversions
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s", from, to)))
}

// runes converts a string to []rune, forking on ASCII-ness of symbolic bytes.
func (x *Exec) runes(st *State, s StrV) []Outcome {
	tc := x.tc
	if !s.sym {
		rs := []rune(s.s)
		e := make([]Value, len(rs))
		for i, r := range rs {
			e[i] = tc.BV(32, uint64(uint32(r)))
		}
		id := x.alloc(st, &ArrV{e: e})
		return ret(st, SliceV{obj: id, len: len(e), cap: len(e)})
	}
	cur := st
	e := []Value{}
	for i := 0; i < len(s.b); i++ {
		t := s.b[i]
		g, bad := x.branch(cur, tc.Ult(t, tc.BV(8, 0x80)))
		if bad != nil {
			x.note("non-ASCII symbolic string bytes in []rune conversion not explored")
		}
		if g == nil {
			return []Outcome{{kind: kAbort}}
		}
		cur = g
		e = append(e, tc.ZExt(t, 32))
	}
	id := x.alloc(cur, &ArrV{e: e})
	return ret(cur, SliceV{obj: id, len: len(e), cap: len(e)})
}

func (x *Exec) makeSlice(fr *Frame, st *State, ins *ssa.MakeSlice) []Outcome {
	tc := x.tc
	ln, cp := x.idxTerm(fr, ins.Len), x.idxTerm(fr, ins.Cap)
	var outs []Outcome
	const lim = 1 << 24
	g := x.guard(st, ins, tc.Ult(ln, tc.BV(64, lim)), "makeslice: len out of range", &outs)
	if g == nil {
		return outs
	}
	elem := ins.Type().Underlying().(*types.Slice).Elem()
	for _, c := range x.concretize(g, ln, 300) {
		var subs []cstate
		if cp == ln {
			subs = []cstate{{c.st, c.v}}
		} else {
			subs = x.concretize(c.st, cp, 300)
		}
		for _, k := range subs {
			if k.v < c.v || k.v > lim {
				outs = append(outs, x.panicOut(k.st, ins, "makeslice: cap out of range"))
				continue
			}
			e := make([]Value, k.v)
			if len(e) > 0 {
				z := x.zero(elem)
				_, a1 := z.(*StructV)
				_, a2 := z.(*ArrV)
				for i := range e {
					if i > 0 && (a1 || a2) {
						z = deepCopy(z)
					}
					e[i] = z
				}
			}
			id := x.alloc(k.st, &ArrV{e: e})
			outs = append(outs, Outcome{kind: kReturn, st: k.st, val: SliceV{obj: id, len: int(c.v), cap: int(k.v)}})
		}
	}
	return outs
}

func (x *Exec) slice(fr *Frame, st *State, ins *ssa.Slice) []Outcome {
	tc := x.tc
	xv := x.val(fr, ins.X)
	var length, capacity int
	switch v := xv.(type) {
	case StrV:
		length, capacity = v.Len(), v.Len()
		if v.tok != nil && (ins.Low != nil || ins.High != nil) {
			panic(unsupported("slice of token string"))
		}
	case SliceV:
		length, capacity = v.len, v.cap
	case Ptr:
		if v.obj == 0 {
			return []Outcome{x.panicOut(st, ins, "nil pointer dereference")}
		}
		n := int(ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		length, capacity = n, n
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", xv)))
	}
	lo, hi, mx := tc.BV(64, 0), tc.BV(64, uint64(length)), tc.BV(64, uint64(capacity))
	if ins.Low != nil {
		lo = x.idxTerm(fr, ins.Low)
	}
	if ins.High != nil {
		hi = x.idxTerm(fr, ins.High)
	}
	if ins.Max != nil {
		mx = x.idxTerm(fr, ins.Max)
	}
	var outs []Outcome
	ok := tc.AndN(tc.Ule(mx, tc.BV(64, uint64(capacity))), tc.Ule(hi, mx), tc.Ule(lo, hi))
	g := x.guard(st, ins, ok, "slice bounds out of range", &outs)
	if g == nil {
		return outs
	}
	// symbolic string/byte window of constant width
	if (lo.Op != OConst || hi.Op != OConst) && ins.Max == nil {
		if s, isStr := xv.(StrV); isStr {
			d := tc.Sub(hi, lo)
			if d.Op != OConst {
				x.freshenModel(g)
				dv := tc.BV(64, 1)
				if g.model != nil {
					dv = tc.BV(64, g.model.Eval64(d))
				}
				if r, _ := x.check(g, tc.Ne(d, dv), false); r == Unsat {
					d = dv
				}
			}
			if d.Op == OConst && d.C <= uint64(length) {
				n := int(d.C)
				el := make([]*Term, n)
				for i := 0; i < n; i++ {
					var src []Value
					for k := 0; k+n <= length; k++ {
						src = append(src, s.at(tc, k+i))
					}
					el[i] = x.selectElem(src, lo).(*Term)
				}
				return append(outs, Outcome{kind: kReturn, st: g, val: mkStr(el)})
			}
		}
	}
	for _, a := range x.concretize(g, lo, 600) {
		for _, b := range x.concretize(a.st, hi, 600) {
			for _, c := range x.concretize(b.st, mx, 600) {
				l, h, m := int(a.v), int(b.v), int(c.v)
				var r Value
				switch v := xv.(type) {
				case StrV:
					if v.tok != nil {
						r = v
					} else {
						r = v.sub(l, h)
					}
				case SliceV:
					if v.obj == 0 {
						r = SliceV{}
					} else {
						r = SliceV{obj: v.obj, path: v.path, off: v.off + l, len: h - l, cap: m - l}
					}
				case Ptr:
					r = SliceV{obj: v.obj, path: v.path, off: l, len: h - l, cap: m - l}
				}
				outs = append(outs, Outcome{kind: kReturn, st: c.st, val: r})
			}
		}
	}
	return outs
}

func (x *Exec) typeAssert(fr *Frame, st *State, ins *ssa.TypeAssert) []Outcome {
	iv, ok := x.val(fr, ins.X).(IfaceV)
	if !ok {
		panic(unsupported("typeassert of non-iface"))
	}
	match := false
	var res Value
	if iv.t != nil {
		if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
			if iv.t == opaqueErrType {
				match = it.NumMethods() == 0 || (it.NumMethods() == 1 && it.Method(0).Name() == "Error")
			} else {
				match = types.Implements(iv.t, it)
			}
			res = iv
		} else {
			match = types.Identical(iv.t, ins.AssertedType)
			res = iv.v
		}
	}
	if ins.CommaOk {
		if !match {
			res = x.zero(ins.AssertedType)
		}
		return ret(st, TupleV{res, x.tc.Bool(match)})
	}
	if !match {
		return []Outcome{x.panicOut(st, ins, "interface conversion")}
	}
	return ret(st, res)
}

// ---------- maps ----------

func (x *Exec) keyEq(st *State, a, b Value) *Term { return x.equal(st, a, b) }

func (x *Exec) mapFind(st *State, m *MapObj, k Value) (exact int, conds []*Term) {
	conds = make([]*Term, len(m.keys))
	exact = -1
	for i, kk := range m.keys {
		c := x.keyEq(st, kk, k)
		conds[i] = c
		if c.isTrue() {
			exact = i
			return
		}
	}
	return
}

func (x *Exec) lookup(fr *Frame, st *State, ins *ssa.Lookup) []Outcome {
	xv := x.val(fr, ins.X)
	if s, ok := xv.(StrV); ok {
		return x.strIndex(st, ins, s, x.idxTerm(fr, ins.Index))
	}
	m := xv.(MapV)
	elem := ins.X.Type().Underlying().(*types.Map).Elem()
	mk := func(v Value, ok *Term) Value {
		if ins.CommaOk {
			return TupleV{v, ok}
		}
		return v
	}
	if m.obj == 0 {
		return ret(st, mk(x.zero(elem), x.tc.False))
	}
	mo := x.obj(st, m.obj).v.(*MapObj)
	k := x.val(fr, ins.Index)
	ex, conds := x.mapFind(st, mo, k)
	if ex >= 0 {
		sym := false
		for i := 0; i < ex; i++ {
			if !conds[i].isFalse() {
				sym = true
			}
		}
		if !sym {
			return ret(st, mk(deepCopy(mo.vals[ex]), x.tc.True))
		}
	}
	var outs []Outcome
	cur := st
	for i := range mo.keys {
		if conds[i] == nil || conds[i].isFalse() {
			continue
		}
		g, rest := x.branch(cur, conds[i])
		if g != nil {
			outs = append(outs, Outcome{kind: kReturn, st: g, val: mk(deepCopy(mo.vals[i]), x.tc.True)})
		}
		if rest == nil {
			return outs
		}
		cur = rest
	}
	return append(outs, Outcome{kind: kReturn, st: cur, val: mk(x.zero(elem), x.tc.False)})
}

func (x *Exec) mapUpdate(st *State, m MapV, k, v Value) []Outcome {
	mo := x.obj(st, m.obj).v.(*MapObj)
	var outs []Outcome
	cur := st
	_, conds := x.mapFind(st, mo, k)
	for i := range mo.keys {
		if conds[i] == nil || conds[i].isFalse() {
			continue
		}
		g, rest := x.branch(cur, conds[i])
		if g != nil {
			w := x.objW(g, m.obj).v.(*MapObj)
			w.vals[i] = deepCopy(v)
			outs = append(outs, Outcome{kind: kReturn, st: g})
		}
		if rest == nil {
			return outs
		}
		cur = rest
	}
	w := x.objW(cur, m.obj).v.(*MapObj)
	w.keys = append(w.keys, deepCopy(k))
	w.vals = append(w.vals, deepCopy(v))
	return append(outs, Outcome{kind: kReturn, st: cur})
}

func (x *Exec) next(fr *Frame, st *State, ins *ssa.Next) []Outcome {
	tc := x.tc
	p := x.val(fr, ins.Iter).(Ptr)
	it := x.obj(st, p.obj).v.(*RangeIter)
	tup := ins.Type().(*types.Tuple)
	if it.str != nil {
		s := *it.str
		if it.pos >= s.Len() {
			return ret(st, TupleV{tc.False, tc.BV(64, 0), tc.BV(32, 0)})
		}
		pos := it.pos
		adv := func(st *State, n int) {
			o := x.objW(st, p.obj)
			ni := *it
			ni.pos = pos + n
			o.v = &ni
		}
		if !s.sym {
			for i, r := range s.s[pos:] {
				_ = i
				n := len(string(r))
				if r == 0xFFFD {
					n = 1
					if strings.HasPrefix(s.s[pos:], "\uFFFD") {
						n = 3
					}
				}
				adv(st, n)
				return ret(st, TupleV{tc.True, tc.BV(64, uint64(pos)), tc.BV(32, uint64(uint32(r)))})
			}
		}
		t := s.b[pos]
		g, bad := x.branch(st, tc.Ult(t, tc.BV(8, 0x80)))
		var outs []Outcome
		if bad != nil {
			x.note("non-ASCII symbolic string bytes in range loop not explored")
			outs = append(outs, Outcome{kind: kAbort})
		}
		if g != nil {
			adv(g, 1)
			outs = append(outs, Outcome{kind: kReturn, st: g, val: TupleV{tc.True, tc.BV(64, uint64(pos)), tc.ZExt(t, 32)}})
		}
		return outs
	}
	// map: iterate in sorted order when keys are concrete (Go order is unspecified)
	if it.pos >= len(it.m.keys) {
		return ret(st, TupleV{tc.False, x.zeroOr(tup.At(1).Type()), x.zeroOr(tup.At(2).Type())})
	}
	idx := it.pos
	o := x.objW(st, p.obj)
	ni := *it
	ni.pos++
	o.v = &ni
	return ret(st, TupleV{tc.True, it.m.keys[idx], it.m.vals[idx]})
}

func (x *Exec) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return x.zero(t)
}

// ---------- calls ----------

func (x *Exec) callTarget(st *State, fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := x.val(fr, c.Value)
		iv, ok := recv.(IfaceV)
		if !ok {
			panic(unsupported("invoke on non-iface"))
		}
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
		}
		if iv.t == nil {
			return nil, args
		}
		if iv.t == opaqueErrType {
			return &Closure{intr: "opaqueErr." + c.Method.Name(), recv: iv.v}, args
		}
		if iv.t == opaqueHashType {
			return &Closure{intr: "hash." + c.Method.Name(), recv: iv.v}, args
		}
		if ov, ok := iv.v.(OpaqueV); ok {
			return &Closure{intr: "opaque." + ov.kind + "." + c.Method.Name(), recv: iv.v}, append([]Value{iv.v}, args...)
		}
		fn := x.eng.lookupMethod(iv.t, c.Method)
		if fn == nil {
			panic(unsupported("method " + c.Method.Name() + " of " + iv.t.String()))
		}
		return &Closure{fn: fn}, append([]Value{iv.v}, args...)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	return x.val(fr, c.Value), args
}

func (x *Exec) call(fr *Frame, st *State, ins *ssa.Call) []Outcome {
	if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, ins, b.Name())
	}
	fv, args := x.callTarget(st, fr, &ins.Call)
	if fv == nil {
		return []Outcome{x.panicOut(st, ins, "nil interface method call")}
	}
	return x.callValue(st, fr, fv, args, ins)
}

func (x *Exec) callValue(st *State, fr *Frame, fv Value, args []Value, in ssa.Instruction) []Outcome {
	cl, ok := fv.(*Closure)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
	if cl == nil {
		return []Outcome{x.panicOut(st, in, "nil func call")}
	}
	if cl.intr != "" {
		if f, ok := intrinsics[cl.intr]; ok {
			return f(&callCtx{x: x, st: st, args: args, fr: fr, in: in, recv: cl.recv})
		}
		panic(unsupported("intrinsic " + cl.intr))
	}
	name := fnName(cl.fn)
	if f, ok := intrinsics[name]; ok {
		return callIntr(f, &callCtx{x: x, st: st, args: args, fr: fr, in: in, fn: cl.fn})
	}
	if f := prefixIntrinsic(cl.fn, name); f != nil {
		if r := f(&callCtx{x: x, st: st, args: args, fr: fr, in: in, fn: cl.fn}); r != nil {
			return r
		}
	}
	if n, ok := x.opaque[cl.fn.Name()]; ok && cl.fn.Pkg != nil && strings.HasPrefix(cl.fn.Pkg.Pkg.Path(), repoMod) {
		if r := x.opaqueCall(st, cl.fn, args, n); r != nil {
			return r
		}
	}
	if enc, ok := x.pairs[cl.fn.Name()]; ok && cl.fn.Pkg != nil && strings.HasPrefix(cl.fn.Pkg.Pkg.Path(), repoMod) {
		if r := x.pairCall(st, cl.fn, args, enc); r != nil {
			return r
		}
	}
	if alt := x.eng.model(name); alt != nil {
		cl = &Closure{fn: alt, bind: nil}
	}
	if len(cl.fn.Blocks) == 0 {
		panic(unsupported("external " + name))
	}
	return x.callFn(st, cl.fn, args, cl.bind, fr.depth+1)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (x *Exec) builtin(fr *Frame, st *State, ins *ssa.Call, name string) []Outcome {
	tc := x.tc
	args := make([]Value, len(ins.Call.Args))
	for i, a := range ins.Call.Args {
		args[i] = x.val(fr, a)
	}
	switch name {
	case "len":
		switch v := args[0].(type) {
		case StrV:
			return ret(st, tc.BV(64, uint64(v.Len())))
		case SliceV:
			return ret(st, tc.BV(64, uint64(v.len)))
		case MapV:
			if v.obj == 0 {
				return ret(st, tc.BV(64, 0))
			}
			return ret(st, tc.BV(64, uint64(len(x.obj(st, v.obj).v.(*MapObj).keys))))
		case *ArrV:
			return ret(st, tc.BV(64, uint64(len(v.e))))
		case Ptr:
			n := ins.Call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return ret(st, tc.BV(64, uint64(n)))
		}
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			return ret(st, tc.BV(64, uint64(v.cap)))
		case *ArrV:
			return ret(st, tc.BV(64, uint64(len(v.e))))
		case Ptr:
			n := ins.Call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return ret(st, tc.BV(64, uint64(n)))
		}
	case "append":
		return x.appendB(st, ins, args)
	case "copy":
		dst := args[0].(SliceV)
		var src []Value
		switch s := args[1].(type) {
		case StrV:
			for _, t := range s.bytes(tc) {
				src = append(src, t)
			}
		case SliceV:
			if s.obj != 0 && s.len > 0 {
				arr := walk(x.obj(st, s.obj).v, s.path).(*ArrV)
				src = append(src, arr.e[s.off:s.off+s.len]...)
			}
		}
		n := min(dst.len, len(src))
		if n > 0 {
			arr := walk(x.objW(st, dst.obj).v, dst.path).(*ArrV)
			for i := 0; i < n; i++ {
				arr.e[dst.off+i] = deepCopy(src[i])
			}
		}
		return ret(st, tc.BV(64, uint64(n)))
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return ret(st, nil)
		}
		mo := x.obj(st, m.obj).v.(*MapObj)
		ex, conds := x.mapFind(st, mo, args[1])
		for i, c := range conds {
			if i != ex && c != nil && !c.isFalse() {
				panic(unsupported("symbolic delete"))
			}
		}
		if ex >= 0 {
			w := x.objW(st, m.obj).v.(*MapObj)
			w.keys = append(w.keys[:ex:ex], w.keys[ex+1:]...)
			w.vals = append(w.vals[:ex:ex], w.vals[ex+1:]...)
		}
		return ret(st, nil)
	case "clear":
		switch v := args[0].(type) {
		case MapV:
			if v.obj != 0 {
				x.objW(st, v.obj).v = &MapObj{}
			}
			return ret(st, nil)
		case SliceV:
			if v.len > 0 {
				z := x.zero(ins.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
				arr := walk(x.objW(st, v.obj).v, v.path).(*ArrV)
				for i := 0; i < v.len; i++ {
					arr.e[v.off+i] = deepCopy(z)
				}
			}
			return ret(st, nil)
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch p := r.(type) {
			case *Term:
				q := a.(*Term)
				var lt *Term
				if isSigned(ins.Type()) {
					lt = tc.Slt(p, q)
				} else {
					lt = tc.Ult(p, q)
				}
				if name == "min" {
					r = tc.Ite(lt, p, q)
				} else {
					r = tc.Ite(lt, q, p)
				}
			default:
				panic(unsupported("min/max"))
			}
		}
		return ret(st, r)
	case "print", "println":
		return ret(st, nil)
	case "recover":
		if st.panicking != nil {
			m := *st.panicking
			st.panicking = nil
			return ret(st, IfaceV{t: types.Typ[types.String], v: conc(m)})
		}
		return ret(st, IfaceV{})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			return []Outcome{x.panicOut(st, ins, "nil receiver")}
		}
		return ret(st, args[0])
	case "String": // unsafe.String(ptr, len)
		p := args[0].(Ptr)
		n := args[1].(*Term)
		if n.Op != OConst {
			break
		}
		if n.C == 0 {
			return ret(st, conc(""))
		}
		arr, off := x.ptrArr(st, p)
		r := make([]*Term, n.C)
		for i := range r {
			r[i] = arr.e[off+i].(*Term)
		}
		return ret(st, mkStr(r))
	case "SliceData":
		s := args[0].(SliceV)
		if s.obj == 0 {
			return ret(st, Ptr{})
		}
		return ret(st, Ptr{obj: s.obj, path: append(append([]int{}, s.path...), s.off)})
	case "StringData":
		s := args[0].(StrV)
		sl := x.newByteSlice(st, s.bytes(tc))
		return ret(st, Ptr{obj: sl.obj, path: []int{0}})
	case "Slice": // unsafe.Slice(ptr,len)
		p := args[0].(Ptr)
		n := args[1].(*Term)
		if n.Op != OConst {
			break
		}
		if p.obj == 0 {
			return ret(st, SliceV{})
		}
		k := len(p.path) - 1
		return ret(st, SliceV{obj: p.obj, path: append([]int{}, p.path[:k]...), off: p.path[k], len: int(n.C), cap: int(n.C)})
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) ptrArr(st *State, p Ptr) (*ArrV, int) {
	k := len(p.path) - 1
	return walk(x.obj(st, p.obj).v, p.path[:k]).(*ArrV), p.path[k]
}

func (x *Exec) appendB(st *State, ins *ssa.Call, args []Value) []Outcome {
	tc := x.tc
	s := args[0].(SliceV)
	var add []Value
	switch v := args[1].(type) {
	case StrV:
		if v.tok != nil {
			panic(unsupported("append token"))
		}
		for _, t := range v.bytes(tc) {
			add = append(add, t)
		}
	case SliceV:
		if v.obj != 0 && v.len > 0 {
			arr := walk(x.obj(st, v.obj).v, v.path).(*ArrV)
			for _, e := range arr.e[v.off : v.off+v.len] {
				add = append(add, deepCopy(e))
			}
		}
	default:
		panic(unsupported("append"))
	}
	if len(add) == 0 {
		return ret(st, s)
	}
	n := s.len + len(add)
	if s.obj != 0 && n <= s.cap {
		arr := walk(x.objW(st, s.obj).v, s.path).(*ArrV)
		copy(arr.e[s.off+s.len:], add)
		return ret(st, SliceV{obj: s.obj, path: s.path, off: s.off, len: n, cap: s.cap})
	}
	nc := growCap(s.cap, n, x.elemSize(ins.Call.Args[0].Type()))
	e := make([]Value, nc)
	if s.obj != 0 {
		arr := walk(x.obj(st, s.obj).v, s.path).(*ArrV)
		for i := 0; i < s.len; i++ {
			e[i] = deepCopy(arr.e[s.off+i])
		}
	}
	copy(e[s.len:], add)
	if nc > n {
		z := x.zero(ins.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
		for i := n; i < nc; i++ {
			e[i] = deepCopy(z)
		}
	}
	id := x.alloc(st, &ArrV{e: e})
	return ret(st, SliceV{obj: id, len: n, cap: nc})
}

func (x *Exec) elemSize(t types.Type) int {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return 1
	}
	defer func() { recover() }()
	return int(types.SizesFor("gc", "amd64").Sizeof(sl.Elem()))
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors runtime.growslice so that aliasing behaviour of append matches.
func growCap(old, need, es int) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es <= 0 {
		return nc
	}
	sz := nc * es
	if sz <= 32768 {
		i := sort.SearchInts(sizeClasses, sz)
		if i < len(sizeClasses) {
			return sizeClasses[i] / es
		}
	}
	pg := (sz + 8191) / 8192 * 8192
	return pg / es
}

const repoMod = "github.com/blocktree/go-owcdrivers/"

// opaqueCall abstracts a pure function of byte strings by an uninterpreted string (sym.Opaque);
// concrete arguments still run the real code.
func (x *Exec) opaqueCall(st *State, fn *ssa.Function, args []Value, n int) []Outcome {
	var ts [][]*Term
	conc := true
	for _, a := range args {
		var t []*Term
		switch v := a.(type) {
		case SliceV:
			if v.len > 0 {
				t = (&callCtx{x: x, st: st, args: []Value{v}}).bytes(0)
			}
		case StrV:
			t = v.bytes(x.tc)
		case *Term:
			if v.W == 0 || v.W%8 != 0 {
				return nil
			}
			t = termBytesBE(x.tc, v, v.W/8)
		default:
			return nil
		}
		if !allConst(t) {
			conc = false
		}
		ts = append(ts, t)
	}
	if conc {
		return nil
	}
	out := x.uf("opq_"+fn.Name(), ts, n, nil, nil)
	val := func(st *State) Value {
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			return x.newByteSlice(st, out)
		}
		return mkStr(out)
	}
	if fn.Signature.Results().Len() == 2 { // and an error, or none
		bit := x.uf("opqerr_"+fn.Name(), ts, 1, func() []*Term { return []*Term{x.tc.ZExt(x.fresh(1, "err"), 8)} }, nil)
		var outs []Outcome
		a, b := x.branch(st, x.tc.Eq(bit[0], x.tc.b8[0]))
		if a != nil {
			outs = append(outs, Outcome{kind: kReturn, st: a, val: TupleV{val(a), IfaceV{}}})
		}
		if b != nil {
			outs = append(outs, Outcome{kind: kReturn, st: b, val: TupleV{SliceV{}, x.mkErr("opaque " + fn.Name())}})
		}
		return outs
	}
	return ret(st, val(st))
}

type prefixEnt struct {
	s string
	n int
}

type pairEnt struct {
	key  string
	txt  []*Term
	raw  []*Term
	zero *Term // the character of a leading zero byte
}

// valKey renders a concrete value (the codec's alphabet); ok is false if it is symbolic.
func (x *Exec) valKey(st *State, v Value, sb *strings.Builder, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *Term:
		if v.Op != OConst {
			return false
		}
		fmt.Fprintf(sb, "%d,", v.C)
	case StrV:
		if v.sym {
			return false
		}
		fmt.Fprintf(sb, "%q,", v.s)
	case *StructV:
		for _, f := range v.f {
			if !x.valKey(st, f, sb, depth+1) {
				return false
			}
		}
	case *ArrV:
		for _, f := range v.e {
			if !x.valKey(st, f, sb, depth+1) {
				return false
			}
		}
	case Ptr:
		if v.obj == 0 {
			sb.WriteString("nil,")
			return true
		}
		return x.valKey(st, x.load(st, v), sb, depth+1)
	case SliceV:
		fmt.Fprintf(sb, "s%d,", v.len)
	default:
		return false
	}
	return true
}

// pairCall idealises a text codec (sym.Pair): encoding symbolic bytes gives a text of unknown
// characters, and decoding that very text gives the bytes back. Arguments depending on no more than
// one unknown byte run the code.
func (x *Exec) pairCall(st *State, fn *ssa.Function, args []Value, enc bool) []Outcome {
	var sb strings.Builder
	for _, a := range args[1:] {
		if !x.valKey(st, a, &sb, 0) {
			return nil
		}
	}
	key := sb.String()
	if enc {
		s, ok := args[0].(SliceV)
		if !ok || s.len == 0 {
			return nil
		}
		b := x.sliceTerms(st, s)
		vars := map[int]bool{}
		for _, t := range b {
			for _, v := range t.Support() {
				vars[v] = true
			}
		}
		if len(vars) < 2 {
			return nil // the real code copes
		}
		n := int(float64(len(b))*1.36566) + 1
		h := fnv.New32()
		h.Write([]byte(key))
		pre, full := x.pairPrefix(st, fn, args, b, key)
		if full > 0 {
			n = full
		}
		t := append([]*Term{}, x.uf(fmt.Sprintf("b58_%x", h.Sum32()), [][]*Term{b}, n, nil, nil)...)
		for i := range pre {
			t[i] = x.tc.b8[pre[i]]
		}
		x.pairTab = append(x.pairTab, pairEnt{key, t, b, x.pairZero(st, fn, args, key)})
		return ret(st, mkStr(t))
	}
	s, ok := args[0].(StrV)
	if !ok || !s.sym {
		return nil
	}
	t := s.bytes(x.tc)
	for _, e := range x.pairTab {
		if e.key == key && sameTerms(e.txt, t) {
			return ret(st, TupleV{x.newByteSlice(st, e.raw), IfaceV{}})
		}
	}
	// every extra leading zero character is one more leading zero byte
	for _, e := range x.pairTab {
		k := len(t) - len(e.txt)
		if e.key != key || k <= 0 || e.zero == nil || !sameTerms(e.txt, t[k:]) {
			continue
		}
		raw := append([]*Term{}, e.raw...)
		for _, c := range t[:k] {
			if c != e.zero {
				raw = nil
				break
			}
			raw = append([]*Term{x.tc.b8[0]}, raw...)
		}
		if raw != nil {
			return ret(st, TupleV{x.newByteSlice(st, raw), IfaceV{}})
		}
	}
	return nil
}

// pairZero: the real encoder's character for a zero byte, where it maps {0} to one and {0,0} to two of them.
func (x *Exec) pairZero(st *State, fn *ssa.Function, args []Value, key string) *Term {
	for _, e := range x.pairTab {
		if e.key == key {
			return e.zero
		}
	}
	var txt [2]string
	for i := range txt {
		s2 := x.forkState(st)
		d := []*Term{x.tc.b8[0], x.tc.b8[0]}[:i+1]
		outs := x.callFn(s2, fn, append([]Value{x.newByteSlice(s2, d)}, args[1:]...), nil, 1)
		if len(outs) != 1 || outs[0].kind != kReturn {
			return nil
		}
		v, ok := outs[0].val.(StrV)
		if !ok || v.sym {
			return nil
		}
		txt[i] = v.s
	}
	if len(txt[0]) != 1 || txt[1] != txt[0]+txt[0] {
		return nil
	}
	return x.tc.b8[txt[0][0]]
}

// pairPrefix: leading constant bytes bound the encoded number from both sides; where the real
// encoder gives texts of one length for both bounds, that length and their common leading
// characters are those of every text between them.
func (x *Exec) pairPrefix(st *State, fn *ssa.Function, args []Value, b []*Term, key string) (string, int) {
	c := 0
	for c < len(b) && b[c].Op == OConst {
		c++
	}
	if c == 0 || b[0].C == 0 {
		return "", 0
	}
	k := fmt.Sprintf("%s|%d", key, len(b))
	for _, t := range b[:c] {
		k += fmt.Sprintf(",%d", t.C)
	}
	if x.pairPre == nil {
		x.pairPre = map[string]prefixEnt{}
	}
	if r, ok := x.pairPre[k]; ok {
		return r.s, r.n
	}
	var txt [2]string
	for i, fill := range []int{0, 255} {
		d := append([]*Term{}, b[:c]...)
		for len(d) < len(b) {
			d = append(d, x.tc.b8[fill])
		}
		s2 := x.forkState(st)
		a2 := append([]Value{x.newByteSlice(s2, d)}, args[1:]...)
		outs := x.callFn(s2, fn, a2, nil, 1)
		if len(outs) != 1 || outs[0].kind != kReturn {
			return "", 0
		}
		v, ok := outs[0].val.(StrV)
		if !ok || v.sym {
			return "", 0
		}
		txt[i] = v.s
	}
	pre, n := "", 0
	if len(txt[0]) == len(txt[1]) {
		n = len(txt[0])
		for len(pre) < n && txt[0][len(pre)] == txt[1][len(pre)] {
			pre = txt[0][:len(pre)+1]
		}
	}
	x.pairPre[k] = prefixEnt{pre, n}
	return pre, n
}

// nilArg is raised by intrinsics whose Go counterpart would dereference a nil pointer.
type nilArg struct{}

func callIntr(f intrFn, c *callCtx) (out []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(nilArg); !ok {
				panic(r)
			}
			out = c.panicv("invalid memory address or nil pointer dereference")
		}
	}()
	return f(c)
}
