package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	x    *Exec
	st   *State
	args []Value
	fr   *Frame
	in   ssa.Instruction
	fn   *ssa.Function
	recv Value
}

type intrFn func(c *callCtx) []Outcome

var intrinsics map[string]intrFn

func (c *callCtx) ret(v Value) []Outcome { return ret(c.st, v) }
func (c *callCtx) str(i int) StrV {
	s, ok := c.args[i].(StrV)
	if !ok {
		panic(unsupported(fmt.Sprintf("string arg %T", c.args[i])))
	}
	return s
}
func (c *callCtx) cstr(i int) string {
	s := c.str(i)
	if s.sym {
		panic(unsupported("symbolic string argument"))
	}
	return s.s
}
func (c *callCtx) term(i int) *Term {
	t, ok := c.args[i].(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("scalar arg %T", c.args[i])))
	}
	return t
}
func (c *callCtx) cint(i int) int64 {
	t := c.term(i)
	if t.Op != OConst {
		panic(unsupported("symbolic int argument"))
	}
	return sx(t.C, t.W)
}
func (c *callCtx) bytes(i int) []*Term { return c.x.sliceTerms(c.st, c.args[i]) }
func (c *callCtx) panicv(msg string) []Outcome {
	return []Outcome{c.x.panicOut(c.st, c.in, msg)}
}

func (x *Exec) fresh(w int, pfx string) *Term {
	x.nfresh++
	return x.tc.Var(w, fmt.Sprintf("%s!%d", pfx, x.nfresh))
}

func (x *Exec) mkErr(msg string) IfaceV {
	id, ok := x.errIDs[msg]
	if !ok {
		id = len(x.errMsgs)
		x.errMsgs = append(x.errMsgs, msg)
		x.errIDs[msg] = id
	}
	return IfaceV{opaqueErrType, ErrV{x.tc.BV(32, uint64(id))}}
}

const symPkg = "github.com/blocktree/go-owcdrivers/zzverif/sym."

func (x *Exec) input(name, kind string, n, w int) []*Term {
	for _, in := range x.inputs {
		if in.name == name {
			if len(in.terms) != n {
				break
			}
			return in.terms
		}
	}
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = x.tc.Var(w, fmt.Sprintf("%s_%d", name, i))
	}
	x.inputs = append(x.inputs, inputVar{name: name, terms: ts, kind: kind})
	return ts
}

func (x *Exec) reportAssert(st *State, cond *Term, label string, in ssa.Instruction) *State {
	x.asserts++
	x.labels[label]++
	nc := x.tc.Not(cond)
	if nc.isFalse() {
		x.assertOK++
		return st
	}
	r, m := x.check(st, nc, true)
	switch r {
	case Unsat:
		x.assertOK++
		return st
	case Unknown:
		x.note("assertion undecided (solver limit): %s", label)
		x.probe(st, x.posOf(in))
		return st
	}
	x.addViolation(st, &Violation{Harness: x.harness, Label: label, Kind: "assert", Msg: label, Pos: x.posOf(in), Model: m})
	r2, m2 := x.check(st, cond, false)
	if r2 == Unsat {
		return nil
	}
	st.assume(cond)
	st.model = m2
	return st
}

func (x *Exec) addViolation(st *State, v *Violation) {
	key := v.Kind + "|" + v.Label
	if v.Kind == "panic" {
		key += "|" + v.Pos
	}
	if x.violKeys[key] {
		return
	}
	x.violKeys[key] = true
	// complete the model: re-solve with the full path condition and axioms
	if v.Model == nil {
		_, v.Model = x.check(st, x.tc.True, true)
	}
	v.PC = st.pc.list()
	x.viol = append(x.viol, v)
}

func strOf(v Value) (StrV, bool) {
	switch a := v.(type) {
	case StrV:
		return a, true
	case IfaceV:
		return strOf(a.v)
	}
	return StrV{}, false
}

func init() {
	I := map[string]intrFn{}
	intrinsics = I
	sym := func(n string, f intrFn) { I[symPkg+n] = f }
	sym("Byte", func(c *callCtx) []Outcome { return c.ret(c.x.input(c.st.scope+c.cstr(0), "byte", 1, 8)[0]) })
	sym("U16", func(c *callCtx) []Outcome { return c.ret(c.x.input(c.st.scope+c.cstr(0), "u16", 1, 16)[0]) })
	sym("U32", func(c *callCtx) []Outcome { return c.ret(c.x.input(c.st.scope+c.cstr(0), "u32", 1, 32)[0]) })
	sym("U64", func(c *callCtx) []Outcome { return c.ret(c.x.input(c.st.scope+c.cstr(0), "u64", 1, 64)[0]) })
	sym("I64", func(c *callCtx) []Outcome { return c.ret(c.x.input(c.st.scope+c.cstr(0), "u64", 1, 64)[0]) })
	sym("Bool", func(c *callCtx) []Outcome { return c.ret(c.x.input(c.st.scope+c.cstr(0), "bool", 1, 0)[0]) })
	sym("Bytes", func(c *callCtx) []Outcome {
		ts := c.x.input(c.st.scope+c.cstr(0), "bytes", int(c.cint(1)), 8)
		return c.ret(c.x.newByteSlice(c.st, ts))
	})
	sym("Str", func(c *callCtx) []Outcome {
		ts := c.x.input(c.st.scope+c.cstr(0), "bytes", int(c.cint(1)), 8)
		return c.ret(mkStr(ts))
	})
	sym("Ascii", func(c *callCtx) []Outcome { // 7-bit characters
		ts := c.x.input(c.st.scope+c.cstr(0), "ascii", int(c.cint(1)), 7)
		r := make([]*Term, len(ts))
		for i := range ts {
			r[i] = c.x.tc.ZExt(ts[i], 8)
		}
		return c.ret(mkStr(r))
	})
	sym("Int", func(c *callCtx) []Outcome {
		lo, hi := c.cint(1), c.cint(2)
		w := 1
		for (int64(1) << uint(w)) < hi-lo+1 {
			w++
		}
		t := c.x.input(c.st.scope+c.cstr(0), fmt.Sprintf("int:%d", lo), 1, w)[0]
		c.st.assume(c.x.tc.Ule(t, c.x.tc.BV(w, uint64(hi-lo))))
		c.st.model = nil
		return c.ret(c.x.tc.Add(c.x.tc.ZExt(t, 64), c.x.tc.BV(64, uint64(lo))))
	})
	sym("Choose", func(c *callCtx) []Outcome {
		n := c.cint(1)
		t := c.x.input(c.st.scope+c.cstr(0), "choose", 1, 8)[0]
		var outs []Outcome
		cur := c.st
		for i := int64(0); i < n; i++ {
			var g *State
			if i == n-1 {
				g = cur
			} else {
				g = c.x.forkState(cur)
			}
			g.assume(c.x.tc.Eq(t, c.x.tc.BV(8, uint64(i))))
			g.model = nil
			if r, m := c.x.check(g, c.x.tc.True, false); r == Unsat {
				continue
			} else {
				g.model = m
			}
			outs = append(outs, Outcome{kind: kReturn, st: g, val: c.x.tc.BV(64, uint64(i))})
		}
		return outs
	})
	sym("Scope", func(c *callCtx) []Outcome {
		c.st.scope = c.cstr(0)
		return ret(c.st, nil)
	})
	sym("Assume", func(c *callCtx) []Outcome {
		g, _ := c.x.branch(c.st, c.term(0))
		if g == nil {
			return []Outcome{}
		}
		return ret(g, nil)
	})
	sym("Assert", func(c *callCtx) []Outcome {
		st := c.x.reportAssert(c.st, c.term(0), c.cstr(1), c.in)
		if st == nil {
			return []Outcome{}
		}
		return ret(st, nil)
	})
	sym("AssertKnown", func(c *callCtx) []Outcome {
		// AssertKnown(cond, label, findingID, findingCond)
		b, l, id, kf := c.term(0), c.cstr(1), c.cstr(2), c.term(3)
		if !kf.isFalse() && !b.isTrue() && !c.x.violKeys["known|"+id] {
			if r, m := c.x.check(c.st, c.x.tc.AndN(c.x.tc.Not(b), kf), true); r == Sat {
				c.x.violKeys["known|"+id] = true
				c.x.viol = append(c.x.viol, &Violation{Harness: c.x.harness, Label: l + "@" + id, Kind: "assert", Pos: c.x.posOf(c.in), Model: m, Known: id})
			}
		}
		st := c.x.reportAssert(c.st, c.x.tc.OrN(b, kf), l, c.in)
		if st == nil {
			return []Outcome{}
		}
		g, _ := c.x.branch(st, b)
		if g == nil {
			return []Outcome{}
		}
		return ret(g, nil)
	})
	sym("CollisionFree", func(c *callCtx) []Outcome {
		c.x.injective = true
		return c.ret(nil)
	})
	sym("Reach", func(c *callCtx) []Outcome {
		l := c.cstr(0)
		if !c.x.reached[l] {
			if r, m := c.x.check(c.st, c.x.tc.True, true); r == Sat {
				c.x.reached[l] = true
				c.x.reachModel[l] = m
			}
		}
		return c.ret(nil)
	})
	sym("Thorough", func(c *callCtx) []Outcome { return c.ret(c.x.tc.Bool(c.x.thorough)) })
	sym("Symbolic", func(c *callCtx) []Outcome { return c.ret(c.x.tc.True) })
	sym("Dump", func(c *callCtx) []Outcome {
		s := ""
		switch v := c.args[1].(IfaceV).v.(type) {
		case SliceV:
			s = fmt.Sprint(c.x.sliceTerms(c.st, v))
		default:
			s = fmt.Sprint(v)
		}
		fmt.Println("DUMP", c.cstr(0), s)
		return c.ret(nil)
	})
	sym("Try", func(c *callCtx) []Outcome {
		base, fo := c.st.pc, c.x.nextObj
		outs := c.x.callValue(c.st, c.fr, c.args[0], nil, c.in)
		var res []Outcome
		for _, o := range outs {
			switch o.kind {
			case kReturn:
				res = append(res, Outcome{kind: kReturn, st: o.st, val: c.x.tc.False})
			case kPanic:
				res = append(res, Outcome{kind: kReturn, st: o.st, val: c.x.tc.True})
			default:
				res = append(res, o)
			}
		}
		return c.x.mergeOutcomes(res, base, fo, nil)
	})
	sym("EqBytes", func(c *callCtx) []Outcome { return c.ret(c.x.bytesEq(c.bytes(0), c.bytes(1))) })
	sym("And", func(c *callCtx) []Outcome { return c.ret(c.x.tc.AndN(c.term(0), c.term(1))) })
	sym("Or", func(c *callCtx) []Outcome { return c.ret(c.x.tc.OrN(c.term(0), c.term(1))) })
	sym("Implies", func(c *callCtx) []Outcome { return c.ret(c.x.tc.Implies(c.term(0), c.term(1))) })
	sym("Split", func(c *callCtx) []Outcome { // force a case split on an int value
		var outs []Outcome
		for _, k := range c.x.concretize(c.st, c.term(0), 1000) {
			outs = append(outs, Outcome{kind: kReturn, st: k.st, val: c.x.tc.BV(64, k.v)})
		}
		return outs
	})
	sym("Hex", func(c *callCtx) []Outcome { return c.ret(mkStr(c.x.hexEnc(c.bytes(0)))) })
	sym("Opaque", func(c *callCtx) []Outcome {
		if c.x.opaque == nil {
			c.x.opaque = map[string]int{}
		}
		c.x.opaque[c.cstr(0)] = int(c.term(1).C)
		return c.ret(nil)
	})
	sym("Pair", func(c *callCtx) []Outcome {
		if c.x.pairs == nil {
			c.x.pairs = map[string]bool{}
		}
		c.x.pairs[c.cstr(0)] = true
		c.x.pairs[c.cstr(1)] = false
		return c.ret(nil)
	})
	sym("NoMerge", func(c *callCtx) []Outcome {
		c.x.mergeOff = true
		return c.ret(nil)
	})

	// errors / fmt
	I["errors.New"] = func(c *callCtx) []Outcome {
		s := c.str(0)
		if s.sym {
			return c.ret(c.x.mkErr("symbolic error at " + c.x.posOf(c.in)))
		}
		return c.ret(c.x.mkErr(s.s + "#" + c.x.posOf(c.in)))
	}
	I["github.com/pkg/errors.New"] = I["errors.New"]
	I["github.com/pkg/errors.Errorf"] = func(c *callCtx) []Outcome { return c.ret(c.x.mkErr("errorf#" + c.x.posOf(c.in))) }
	I["github.com/pkg/errors.Wrap"] = func(c *callCtx) []Outcome {
		if c.args[0].(IfaceV).t == nil {
			return c.ret(IfaceV{})
		}
		return c.ret(c.x.mkErr("wrap#" + c.x.posOf(c.in)))
	}
	I["fmt.Errorf"] = func(c *callCtx) []Outcome {
		e := c.x.mkErr("errorf#" + c.x.posOf(c.in))
		if f := c.str(0); !f.sym && strings.Contains(f.s, "%w") {
			for _, a := range c.ifaceSlice(c.args[1]) {
				if iv, ok := a.(IfaceV); ok {
					if ev, ok := iv.v.(ErrV); ok {
						c.x.errWraps[e.v.(ErrV).id] = append(c.x.errWraps[e.v.(ErrV).id], ev)
					}
				}
			}
		}
		return c.ret(e)
	}
	I["errors.Is"] = func(c *callCtx) []Outcome {
		a, b := c.args[0].(IfaceV), c.args[1].(IfaceV)
		if a.t == nil || b.t == nil {
			return c.ret(c.x.tc.Bool(a.t == nil && b.t == nil))
		}
		ea, ok1 := a.v.(ErrV)
		eb, ok2 := b.v.(ErrV)
		if !ok1 || !ok2 {
			panic(unsupported("errors.Is on user-defined errors"))
		}
		r := c.x.tc.Eq(ea.id, eb.id)
		for _, w := range c.x.errWraps[ea.id] {
			r = c.x.tc.Or(r, c.x.tc.Eq(w.id, eb.id))
		}
		return c.ret(r)
	}
	I["errors.Unwrap"] = func(c *callCtx) []Outcome {
		if a := c.args[0].(IfaceV); a.t != nil {
			if ea, ok := a.v.(ErrV); ok && len(c.x.errWraps[ea.id]) > 0 {
				return c.ret(IfaceV{opaqueErrType, c.x.errWraps[ea.id][0]})
			}
		}
		return c.ret(IfaceV{})
	}
	fprint := func(c *callCtx, s StrV) []Outcome {
		w := c.args[0].(IfaceV)
		if w.t == nil {
			panic(unsupported("fmt.Fprint to nil"))
		}
		fn := c.x.eng.prog.LookupMethod(w.t, nil, "Write")
		if fn == nil || fn.Pkg != nil && fn.Pkg.Pkg.Path() == "os" {
			return c.ret(TupleV{c.x.tc.BV(64, uint64(s.Len())), IfaceV{}})
		}
		return c.x.callFn(c.st, fn, []Value{w.v, c.x.newByteSlice(c.st, s.bytes(c.x.tc))}, nil, c.fr.depth+1)
	}
	I["fmt.Fprintf"] = func(c *callCtx) []Outcome { return fprint(c, c.sprintf(c.cstr(1), c.args[2])) }
	I["fmt.Fprint"] = func(c *callCtx) []Outcome {
		return fprint(c, c.sprint(c.args[1], false))
	}
	I["fmt.Fprintln"] = func(c *callCtx) []Outcome {
		return fprint(c, c.sprint(c.args[1], true))
	}
	I["fmt.Sprintln"] = func(c *callCtx) []Outcome { return c.ret(c.sprint(c.args[0], true)) }
	I["opaqueErr.Error"] = func(c *callCtx) []Outcome {
		e := c.recv.(ErrV)
		if e.id.Op == OConst {
			m := c.x.errMsgs[e.id.C]
			if i := strings.LastIndexByte(m, '#'); i >= 0 {
				m = m[:i]
			}
			return c.ret(conc(m))
		}
		return c.ret(conc("<error>"))
	}
	nop := func(c *callCtx) []Outcome { return c.ret(TupleV{c.x.tc.BV(64, 0), IfaceV{}}) }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		I[n] = nop
	}
	for _, n := range []string{"log.Println", "log.Printf", "log.Print"} {
		I[n] = func(c *callCtx) []Outcome { return c.ret(nil) }
	}
	I["fmt.Sprintf"] = func(c *callCtx) []Outcome { return c.ret(c.sprintf(c.cstr(0), c.args[1])) }
	I["fmt.Sprint"] = func(c *callCtx) []Outcome { return c.ret(c.sprint(c.args[0], false)) }

	// bytes / strings primitives
	I["bytes.Equal"] = func(c *callCtx) []Outcome { return c.ret(c.x.bytesEq(c.bytes(0), c.bytes(1))) }
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["bytes.Compare"] = func(c *callCtx) []Outcome { return c.ret(c.x.cmp3(c.bytes(0), c.bytes(1))) }
	I["internal/bytealg.Compare"] = I["bytes.Compare"]
	cs := func(c *callCtx) []Outcome {
		return c.ret(c.x.cmp3(c.str(0).bytes(c.x.tc), c.str(1).bytes(c.x.tc)))
	}
	I["internal/bytealg.CompareString"] = cs
	I["strings.Compare"] = cs
	I["cmp.Compare[string]"] = cs
	sb := func(c *callCtx, i int) []*Term {
		switch v := c.args[i].(type) {
		case StrV:
			if v.tok != nil {
				panic(unsupported("token string op"))
			}
			return v.bytes(c.x.tc)
		}
		return c.bytes(i)
	}
	index := func(c *callCtx) []Outcome { return c.ret(c.x.indexOf(sb(c, 0), sb(c, 1))) }
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		I[n] = index
	}
	indexB := func(c *callCtx) []Outcome { return c.ret(c.x.indexOf(sb(c, 0), []*Term{c.term(1)})) }
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		I[n] = indexB
	}
	lastB := func(c *callCtx) []Outcome { return c.ret(c.x.lastIndexOf(sb(c, 0), []*Term{c.term(1)})) }
	for _, n := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		I[n] = lastB
	}
	I["strings.LastIndex"] = func(c *callCtx) []Outcome { return c.ret(c.x.lastIndexOf(sb(c, 0), sb(c, 1))) }
	I["bytes.LastIndex"] = I["strings.LastIndex"]
	I["strings.Contains"] = func(c *callCtx) []Outcome {
		return c.ret(c.x.tc.Not(c.x.tc.Eq(c.x.indexOf(sb(c, 0), sb(c, 1)), c.x.tc.BV(64, ^uint64(0)))))
	}
	I["bytes.Contains"] = I["strings.Contains"]
	I["strings.ContainsRune"] = func(c *callCtx) []Outcome {
		if r := c.term(1); r.Op == OConst && r.C < 0x80 {
			return c.ret(c.x.tc.Not(c.x.tc.Eq(c.x.indexOf(sb(c, 0), []*Term{c.x.tc.BV(8, r.C)}), c.x.tc.BV(64, ^uint64(0)))))
		}
		return c.x.callFn(c.st, c.fn, c.args, nil, c.fr.depth+1)
	}
	count := func(c *callCtx) []Outcome {
		t := c.x.tc
		b := sb(c, 0)
		r := t.BV(64, 0)
		for _, e := range b {
			r = t.Add(r, t.Ite(t.Eq(e, c.term(1)), t.BV(64, 1), t.BV(64, 0)))
		}
		if r.Op == OConst {
			return c.ret(r)
		}
		var out []Outcome
		for _, cs := range c.x.concretize(c.st, r, 256) {
			out = append(out, Outcome{kind: kReturn, st: cs.st, val: t.BV(64, cs.v)})
		}
		return out
	}
	I["internal/bytealg.Count"] = count
	I["internal/bytealg.CountString"] = count
	I["internal/bytealg.MakeNoZero"] = func(c *callCtx) []Outcome {
		n := int(c.cint(0))
		e := make([]Value, n)
		for i := range e {
			e[i] = c.x.tc.b8[0]
		}
		return c.ret(SliceV{obj: c.x.alloc(c.st, &ArrV{e: e}), len: n, cap: n})
	}
	I["(*strings.Builder).copyCheck"] = func(c *callCtx) []Outcome { return c.ret(nil) }
	I["internal/race.Enabled"] = nil
	delete(I, "internal/race.Enabled")
	mapCase := func(f func(byte) byte) intrFn {
		return func(c *callCtx) []Outcome {
			s := c.str(0)
			if s.tok != nil {
				panic(unsupported("case map of token"))
			}
			if !s.sym {
				bs := []byte(s.s)
				ascii := true
				for _, b := range bs {
					if b >= 0x80 {
						ascii = false
					}
				}
				if ascii {
					for i := range bs {
						bs[i] = f(bs[i])
					}
					return c.ret(conc(string(bs)))
				}
				return c.x.callFn(c.st, c.fn, c.args, nil, c.fr.depth+1)
			}
			var ok []*Term
			for _, t := range s.b {
				ok = append(ok, c.x.tc.Ult(t, c.x.tc.BV(8, 0x80)))
			}
			g, bad := c.x.branch(c.st, c.x.tc.AndN(ok...))
			var outs []Outcome
			if bad != nil {
				c.x.note("non-ASCII strings in case mapping not explored")
				outs = append(outs, Outcome{kind: kAbort})
			}
			if g != nil {
				var tb [256]uint64
				for i := range tb {
					tb[i] = uint64(f(byte(i)))
				}
				r := make([]*Term, len(s.b))
				for i, t := range s.b {
					r[i] = c.x.mapByte(t, tb[:])
				}
				outs = append(outs, Outcome{kind: kReturn, st: g, val: mkStr(r)})
			}
			return outs
		}
	}
	lower := func(b byte) byte {
		if b >= 'A' && b <= 'Z' {
			return b + 32
		}
		return b
	}
	upper := func(b byte) byte {
		if b >= 'a' && b <= 'z' {
			return b - 32
		}
		return b
	}
	I["strings.ToLower"] = mapCase(lower)
	I["strings.ToUpper"] = mapCase(upper)
	I["strings.EqualFold"] = func(c *callCtx) []Outcome {
		a, b := c.str(0), c.str(1)
		if !a.sym && !b.sym {
			return c.ret(c.x.tc.Bool(strings.EqualFold(a.s, b.s)))
		}
		var tb [256]uint64
		for i := range tb {
			tb[i] = uint64(lower(byte(i)))
		}
		if a.Len() != b.Len() {
			return c.ret(c.x.tc.False) // ASCII folding (non-ASCII folds such as U+212A outside the bound)
		}
		var eq []*Term
		for i := 0; i < a.Len(); i++ {
			eq = append(eq, c.x.tc.Eq(c.x.mapByte(a.at(c.x.tc, i), tb[:]), c.x.mapByte(b.at(c.x.tc, i), tb[:])))
		}
		return c.ret(c.x.tc.AndN(eq...))
	}

	// hex
	I["encoding/hex.EncodeToString"] = func(c *callCtx) []Outcome { return c.ret(mkStr(c.x.hexEnc(c.bytes(0)))) }
	I["encoding/hex.DecodeString"] = func(c *callCtx) []Outcome {
		s := c.str(0)
		if s.tok != nil {
			panic(unsupported("hex of token"))
		}
		b := s.bytes(c.x.tc)
		if len(b)%2 == 1 {
			return c.x.callFn(c.st, c.fn, c.args, nil, c.fr.depth+1)
		}
		var ok []*Term
		for _, t := range b {
			ok = append(ok, c.x.inTable(t, hexSet))
		}
		g, bad := c.x.branch(c.st, c.x.tc.AndN(ok...))
		var outs []Outcome
		if bad != nil {
			// prefix bytes before the first invalid character are unspecified for callers that ignore the error
			outs = append(outs, c.x.callFn(bad, c.fn, c.args, nil, c.fr.depth+1)...)
		}
		if g != nil {
			outs = append(outs, Outcome{kind: kReturn, st: g, val: TupleV{c.x.newByteSlice(g, c.x.hexDec(b)), IfaceV{}}})
		}
		return outs
	}

	// math/bits
	I["math/bits.Len64"] = func(c *callCtx) []Outcome {
		t := c.term(0)
		tc := c.x.tc
		r := tc.BV(64, 0)
		for i := 0; i < 64; i++ {
			r = tc.Ite(tc.Eq(tc.Extract(t, i, i), tc.BV(1, 1)), tc.BV(64, uint64(i+1)), r)
		}
		return c.ret(r)
	}

	// strconv
	conc1 := func(f func(c *callCtx) Value) intrFn {
		return func(c *callCtx) []Outcome {
			for _, a := range c.args {
				switch v := a.(type) {
				case *Term:
					if v.Op != OConst {
						return c.x.callFn(c.st, c.fn, c.args, nil, c.fr.depth+1)
					}
				case StrV:
					if v.sym {
						return c.x.callFn(c.st, c.fn, c.args, nil, c.fr.depth+1)
					}
				}
			}
			return c.ret(f(c))
		}
	}
	I["strconv.Itoa"] = conc1(func(c *callCtx) Value { return conc(strconv.Itoa(int(c.cint(0)))) })
	dec := func(old intrFn) intrFn { // decimal text of a symbolic number: uninterpreted, where the harness asks (sym.Opaque)
		return func(c *callCtx) []Outcome {
			if n, ok := c.x.opaque["strconv"]; ok {
				if t := c.term(0); t.Op != OConst && (len(c.args) < 2 || c.cint(1) == 10) {
					w := c.x.tc.SExt(t, 72)
					if c.fn.Name() == "FormatUint" {
						w = c.x.tc.ZExt(t, 72)
					}
					return c.ret(mkStr(c.x.uf("decimal", [][]*Term{termBytesBE(c.x.tc, w, 9)}, n, nil, nil)))
				}
			}
			return old(c)
		}
	}
	I["strconv.FormatInt"] = conc1(func(c *callCtx) Value { return conc(strconv.FormatInt(c.cint(0), int(c.cint(1)))) })
	I["strconv.FormatUint"] = conc1(func(c *callCtx) Value { return conc(strconv.FormatUint(uint64(c.cint(0)), int(c.cint(1)))) })
	for _, f := range []string{"strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint"} {
		I[f] = dec(I[f])
	}

	// time / rand
	I["time.Now"] = func(c *callCtx) []Outcome {
		z := c.x.zero(c.fn.Signature.Results().At(0).Type())
		return c.ret(z)
	}
	// the clock stands still during a run: one legal behaviour of time, at every instant until 2106
	clock := func(c *callCtx) (sec, nsec *Term) {
		if c.x.clock[0] == nil {
			c.x.clock[0] = c.x.tc.ZExt(c.x.fresh(32, "clock"), 64)
			c.x.clock[1] = c.x.tc.ZExt(c.x.fresh(29, "clockns"), 64)
		}
		return c.x.clock[0], c.x.clock[1]
	}
	unixFn := func(per uint64) intrFn {
		return func(c *callCtx) []Outcome {
			s, ns := clock(c)
			tc := c.x.tc
			if per == 1 {
				return c.ret(s)
			}
			return c.ret(tc.Add(tc.Mul(s, tc.BV(64, per)), tc.UDiv(ns, tc.BV(64, 1000000000/per))))
		}
	}
	I["(time.Time).Unix"] = unixFn(1)
	I["(time.Time).UnixMilli"] = unixFn(1000)
	I["(time.Time).UnixMicro"] = unixFn(1000000)
	I["(time.Time).UnixNano"] = unixFn(1000000000)
	I["crypto/rand.Read"] = func(c *callCtx) []Outcome {
		s := c.args[0].(SliceV)
		if s.len > 0 {
			arr := walk(c.x.objW(c.st, s.obj).v, s.path).(*ArrV)
			for i := 0; i < s.len; i++ {
				arr.e[s.off+i] = c.x.fresh(8, "rand")
			}
		}
		return c.ret(TupleV{c.x.tc.BV(64, uint64(s.len)), IfaceV{}})
	}
	I["runtime.KeepAlive"] = func(c *callCtx) []Outcome { return c.ret(nil) }
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice
	I["(*sync.Mutex).Lock"] = func(c *callCtx) []Outcome { return c.ret(nil) }
	I["(*sync.Mutex).Unlock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).RLock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).RUnlock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.Once).Do"] = func(c *callCtx) []Outcome {
		p := c.args[0].(Ptr)
		o := c.x.obj(c.st, p.obj)
		s := walk(o.v, p.path)
		key := fmt.Sprintf("once:%d:%v", p.obj, p.path)
		_ = s
		if c.x.stubs[key] != nil {
			return c.ret(nil)
		}
		c.x.stubs[key] = true
		return c.x.callValue(c.st, c.fr, c.args[1], nil, c.in)
	}
	initBig(I)
	initCrypto(I)
	initJSON(I)
	initRegexp(I)
}

// sortSlice: insertion sort with the caller's less (order of equal elements as a stable sort).
func sortSlice(c *callCtx) []Outcome {
	iv := c.args[0].(IfaceV)
	s := iv.v.(SliceV)
	less := c.args[1]
	tc := c.x.tc
	cur := []*State{c.st}
	var outs []Outcome
	for i := 1; i < s.len; i++ {
		var next []*State
		for _, st0 := range cur {
			work := []cstate{{st0, uint64(i)}}
			for len(work) > 0 {
				w := work[len(work)-1]
				work = work[:len(work)-1]
				j := int(w.v)
				if j == 0 {
					next = append(next, w.st)
					continue
				}
				for _, o := range c.x.callValue(w.st, c.fr, less, []Value{tc.BV(64, uint64(j)), tc.BV(64, uint64(j-1))}, c.in) {
					if o.kind != kReturn {
						outs = append(outs, o)
						continue
					}
					a, b := c.x.branch(o.st, o.val.(*Term))
					if a != nil {
						arr := walk(c.x.objW(a, s.obj).v, s.path).(*ArrV)
						arr.e[s.off+j], arr.e[s.off+j-1] = arr.e[s.off+j-1], arr.e[s.off+j]
						work = append(work, cstate{a, uint64(j - 1)})
					}
					if b != nil {
						next = append(next, b)
					}
				}
			}
		}
		cur = next
	}
	for _, st := range cur {
		outs = append(outs, Outcome{kind: kReturn, st: st})
	}
	return outs
}

func (c *callCtx) ifaceSlice(v Value) []Value {
	s := v.(SliceV)
	if s.obj == 0 || s.len == 0 {
		return nil
	}
	arr := walk(c.x.obj(c.st, s.obj).v, s.path).(*ArrV)
	return arr.e[s.off : s.off+s.len]
}

func (c *callCtx) upper(b []*Term) StrV {
	var tb [256]uint64
	for i := range tb {
		tb[i] = uint64(i)
		if i >= 'a' && i <= 'z' {
			tb[i] -= 32
		}
	}
	r := make([]*Term, len(b))
	for i, t := range b {
		r[i] = c.x.mapByte(t, tb[:])
	}
	return mkStr(r)
}

func (c *callCtx) fmtOne(verb byte, flags string, v Value) StrV {
	tc := c.x.tc
	iv, _ := v.(IfaceV)
	if iv.t == nil {
		return conc("<nil>")
	}
	signed := isSigned(iv.t)
	switch a := iv.v.(type) {
	case StrV:
		if verb == 'v' || verb == 's' {
			return a
		}
		if verb == 'x' {
			return mkStr(c.x.hexEnc(a.bytes(tc)))
		}
		if verb == 'X' {
			return c.upper(c.x.hexEnc(a.bytes(tc)))
		}
		if verb == 'q' && !a.sym {
			return conc(strconv.Quote(a.s))
		}
	case *Term:
		if a.Op == OConst && a.W > 0 {
			var arg interface{}
			if signed {
				arg = sx(a.C, a.W)
			} else {
				arg = a.C
			}
			if a.W == 32 && signed && verb == 'c' {
				arg = rune(sx(a.C, 32))
			}
			return conc(fmt.Sprintf("%"+flags+string(verb), arg))
		}
		if a.Op == OConst {
			return conc(fmt.Sprintf("%v", a.C == 1))
		}
		if verb == 'c' {
			return mkStr([]*Term{tc.Extract(tc.ZExt(a, 64), 7, 0)})
		}
		if (verb == 'x' || verb == 'X') && !signed && len(flags) == 2 && flags[0] == '0' || a.W > 8 && !signed && flags == fmt.Sprintf("0%d", a.W/4) {
			if flags == fmt.Sprintf("0%d", a.W/4) && (verb == 'x' || verb == 'X') {
				var bs []*Term
				for k := a.W - 8; k >= 0; k -= 8 {
					bs = append(bs, tc.Extract(a, k+7, k))
				}
				if verb == 'X' {
					return c.upper(c.x.hexEnc(bs))
				}
				return mkStr(c.x.hexEnc(bs))
			}
		}
		if (verb == 'd' || verb == 'v') && flags == "" && c.x.eng.itoa != nil {
			return c.x.symItoa(c, a, signed)
		}
	case SliceV:
		if verb == 'x' {
			return mkStr(c.x.hexEnc(c.x.sliceTerms(c.st, a)))
		}
		if verb == 'X' {
			return c.upper(c.x.hexEnc(c.x.sliceTerms(c.st, a)))
		}
		if verb == 's' {
			return mkStr(c.x.sliceTerms(c.st, a))
		}
	case *ArrV:
		if (verb == 'x' || verb == 'X') && len(a.e) > 0 {
			var bs []*Term
			for _, e := range a.e {
				if t, ok := e.(*Term); ok && t.W == 8 {
					bs = append(bs, t)
				}
			}
			if len(bs) == len(a.e) {
				if verb == 'X' {
					return c.upper(c.x.hexEnc(bs))
				}
				return mkStr(c.x.hexEnc(bs))
			}
		}
	case ErrV:
		return conc("<error>")
	}
	if _, ok := iv.v.(*Term); !ok {
		return conc("<" + iv.t.String() + ">") // opaque formatting (diagnostics only)
	}
	panic(unsupported("fmt verb " + string(verb)))
}

// symItoa is only used for small ranges; digits chosen by table over a case split are handled by callers.
func (x *Exec) symItoa(c *callCtx, a *Term, signed bool) StrV {
	panic(unsupported("symbolic integer formatting"))
}

func (c *callCtx) sprint(av Value, ln bool) StrV {
	el := c.ifaceSlice(av)
	r := conc("")
	for i, e := range el {
		if i > 0 {
			_, s1 := strOf(el[i-1])
			_, s2 := strOf(e)
			if ln || !s1 && !s2 {
				r = c.x.strCat(r, conc(" "))
			}
		}
		r = c.x.strCat(r, c.fmtOne('v', "", e))
	}
	if ln {
		r = c.x.strCat(r, conc("\n"))
	}
	return r
}

func (c *callCtx) sprintf(f string, av Value) StrV {
	el := c.ifaceSlice(av)
	r := conc("")
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			r = c.x.strCat(r, conc(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			r = c.x.strCat(r, conc("%"))
			continue
		}
		j := i
		for j < len(f) && strings.IndexByte("0123456789.+-# ", f[j]) >= 0 {
			j++
		}
		if j >= len(f) || k >= len(el) {
			break
		}
		r = c.x.strCat(r, c.fmtOne(f[j], f[i:j], el[k]))
		k++
		i = j
	}
	return r
}

const hexDigits = "0123456789abcdef"

var hexSet = func() (s Set256) {
	for _, ch := range "0123456789abcdefABCDEF" {
		s.add(uint64(ch))
	}
	return
}()

func (x *Exec) inTable(t *Term, s Set256) *Term {
	if t.Op == OConst {
		return x.tc.Bool(s.has(t.C))
	}
	return x.tc.InSet(t, s)
}

func (x *Exec) mapByte(t *Term, tb []uint64) *Term {
	if t.Op == OIte {
		return x.tc.Ite(t.A[0], x.mapByte(t.A[1], tb), x.mapByte(t.A[2], tb))
	}
	return x.tc.Table(t, tb, 8)
}

func (x *Exec) hexEnc(b []*Term) []*Term {
	r := make([]*Term, 0, 2*len(b))
	tb := make([]uint64, 16)
	for i := range tb {
		tb[i] = uint64(hexDigits[i])
	}
	for _, t := range b {
		r = append(r, x.tc.Table(x.tc.Extract(t, 7, 4), tb, 8), x.tc.Table(x.tc.Extract(t, 3, 0), tb, 8))
	}
	return r
}

func (x *Exec) hexDec(b []*Term) []*Term {
	tb := make([]uint64, 256)
	for i := 0; i < 16; i++ {
		tb[hexDigits[i]] = uint64(i)
		tb[strings.ToUpper(hexDigits)[i]] = uint64(i)
	}
	r := make([]*Term, len(b)/2)
	for i := range r {
		h, l := x.mapNib(b[2*i], tb), x.mapNib(b[2*i+1], tb)
		r[i] = x.tc.Concat(h, l)
	}
	return r
}

func (x *Exec) mapNib(t *Term, tb []uint64) *Term {
	if t.Op == OIte {
		return x.tc.Ite(t.A[0], x.mapNib(t.A[1], tb), x.mapNib(t.A[2], tb))
	}
	return x.tc.Table(t, tb, 4)
}

func (x *Exec) cmp3(a, b []*Term) *Term {
	tc := x.tc
	n := min(len(a), len(b))
	var r *Term
	switch {
	case len(a) < len(b):
		r = tc.BV(64, ^uint64(0))
	case len(a) > len(b):
		r = tc.BV(64, 1)
	default:
		r = tc.BV(64, 0)
	}
	for i := n - 1; i >= 0; i-- {
		r = tc.Ite(tc.Eq(a[i], b[i]), r, tc.Ite(tc.Ult(a[i], b[i]), tc.BV(64, ^uint64(0)), tc.BV(64, 1)))
	}
	return r
}

func (x *Exec) indexOf(s, sub []*Term) *Term {
	if len(sub) == 1 && allConst(s) {
		tb := make([]uint64, 256)
		for i := range tb {
			tb[i] = ^uint64(0)
		}
		for i := len(s) - 1; i >= 0; i-- {
			tb[s[i].C] = uint64(i)
		}
		return x.tc.Table(sub[0], tb, 64)
	}
	tc := x.tc
	if len(sub) == 0 {
		return tc.BV(64, 0)
	}
	// constant table lookups: single symbolic byte in constant string
	r := tc.BV(64, ^uint64(0))
	for i := len(s) - len(sub); i >= 0; i-- {
		r = tc.Ite(x.bytesEq(s[i:i+len(sub)], sub), tc.BV(64, uint64(i)), r)
	}
	return r
}

func (x *Exec) lastIndexOf(s, sub []*Term) *Term {
	tc := x.tc
	if len(sub) == 0 {
		return tc.BV(64, uint64(len(s)))
	}
	r := tc.BV(64, ^uint64(0))
	for i := 0; i+len(sub) <= len(s); i++ {
		r = tc.Ite(x.bytesEq(s[i:i+len(sub)], sub), tc.BV(64, uint64(i)), r)
	}
	return r
}

// prefixIntrinsic intercepts functions by pattern.
func prefixIntrinsic(fn *ssa.Function, name string) intrFn {
	return nil
}

// ---------- math/big ----------

func (x *Exec) bigOf(st *State, v Value) (BigV, Ptr) {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("big receiver"))
	}
	if p.obj == 0 {
		panic(nilArg{})
	}
	b, ok := x.load(st, p).(BigV)
	if !ok {
		panic(unsupported("big.Int representation"))
	}
	return b, p
}

func trimMag(tc *TC, m *Term) *Term {
	switch m.Op {
	case OConst:
		n := max(1, m.BigVal().BitLen())
		if n < m.W {
			return tc.BVBig(n, m.BigVal())
		}
	case OZExt:
		return trimMag(tc, m.A[0])
	case OIte:
		a, b := trimMag(tc, m.A[1]), trimMag(tc, m.A[2])
		w := max(a.W, b.W)
		if w < m.W {
			return tc.Ite(m.A[0], tc.ZExt(a, w), tc.ZExt(b, w))
		}
	}
	if m.W <= 64 {
		n := 1
		for n < m.W && m.hi>>uint(n) != 0 {
			n++
		}
		if n < m.W {
			return tc.Extract(m, n-1, 0)
		}
	}
	return m
}

func zx2(tc *TC, a, b *Term) (*Term, *Term) {
	w := max(a.W, b.W)
	return tc.ZExt(a, w), tc.ZExt(b, w)
}

func (x *Exec) bigAdd(a, b BigV) BigV {
	tc := x.tc
	m1, m2 := zx2(tc, a.mag, b.mag)
	w := m1.W + 1
	p, q := tc.ZExt(m1, w), tc.ZExt(m2, w)
	same := tc.Eq(a.neg, b.neg)
	sum := tc.Add(p, q)
	ge := tc.Ule(m2, m1)
	diff := tc.Ite(ge, tc.Sub(p, q), tc.Sub(q, p))
	mag := tc.Ite(same, sum, diff)
	neg := tc.Ite(same, a.neg, tc.Ite(ge, a.neg, b.neg))
	mag = trimMag(tc, mag)
	neg = tc.AndN(neg, tc.Not(tc.Eq(mag, tc.BV(mag.W, 0))))
	return BigV{neg, mag}
}

func (x *Exec) bigCmp(a, b BigV) *Term {
	tc := x.tc
	m1, m2 := zx2(tc, a.mag, b.mag)
	lt, eq := tc.Ult(m1, m2), tc.Eq(m1, m2)
	z, one, mone := tc.BV(64, 0), tc.BV(64, 1), tc.BV(64, ^uint64(0))
	pos := tc.Ite(eq, z, tc.Ite(lt, mone, one))
	negc := tc.Ite(eq, z, tc.Ite(lt, one, mone))
	return tc.Ite(tc.AndN(a.neg, b.neg), negc, tc.Ite(a.neg, mone, tc.Ite(b.neg, one, pos)))
}

func (x *Exec) bigMod(a, m *Term) *Term { // unsigned
	tc := x.tc
	if m.Op == OConst && a.Op != OConst && a.W > 64 && m.BigVal().Sign() > 0 {
		// small quotient: a = q*m + r with r < m defines q and r
		mv := m.BigVal()
		qm := new(big.Int).Rsh(new(big.Int).Lsh(big.NewInt(1), uint(a.W)), 0)
		qm.Div(qm, mv)
		if qm.Sign() == 0 {
			return a
		}
		if qm.BitLen() <= 8 {
			k := fmt.Sprintf("%d/%s", a.ID, mv.Text(16))
			if r, ok := x.modTab[k]; ok {
				return r
			}
			if x.modTab == nil {
				x.modTab = map[string]*Term{}
			}
			w := max(a.W, mv.BitLen()) + 1
			r, q := x.fresh(mv.BitLen(), "mod"), x.fresh(qm.BitLen(), "quo")
			app := &ufApp{args: [][]*Term{{a}}, out: []*Term{r, q}}
			bound := tc.Ult(r, tc.BVBig(r.W, mv))
			prod := tc.BVBig(w, new(big.Int))
			for i := 0; i < q.W; i++ {
				part := tc.Ite(tc.Eq(tc.Extract(q, i, i), tc.BV(1, 1)), tc.BVBig(w, new(big.Int).Lsh(mv, uint(i))), tc.BVBig(w, new(big.Int)))
				prod = tc.Add(prod, part)
			}
			def := tc.AndN(tc.Eq(tc.ZExt(a, w), tc.Add(prod, tc.ZExt(r, w))), tc.Ule(q, tc.BVBig(q.W, qm)))
			x.sol.AddPairAxiom(app, app, bound)
			x.sol.AddPairAxiom(app, app, def)
			x.sol.defAx[def.ID] = true
			x.modTab[k] = r
			return r
		}
	}
	if m.Op == OConst && a.Op != OConst {
		// small quotient: conditional subtraction
		mv := m.BigVal()
		maxA := new(big.Int).Lsh(big.NewInt(1), uint(a.W))
		q := new(big.Int).Div(maxA, mv)
		if q.IsInt64() && q.Int64() <= 8 {
			w := max(a.W, mv.BitLen()+1)
			r := tc.ZExt(a, w)
			for k := q.Int64(); k >= 1; k-- {
				_ = k
				mm := tc.BVBig(w, mv)
				r = tc.Ite(tc.Ule(mm, r), tc.Sub(r, mm), r)
			}
			return trimMag(tc, tc.Extract(r, mv.BitLen()-1, 0))
		}
	}
	p, q := zx2(tc, a, m)
	r := tc.URem(p, q)
	if m.Op == OConst {
		r = tc.Extract(r, min(r.W, m.BigVal().BitLen())-1, 0)
	}
	return trimMag(tc, r)
}

func termBytesBE(tc *TC, m *Term, n int) []*Term {
	w := n * 8
	if m.W < w {
		m = tc.ZExt(m, w)
	}
	r := make([]*Term, n)
	for i := 0; i < n; i++ {
		hi := w - 1 - 8*i
		r[i] = tc.Extract(m, hi, hi-7)
	}
	return r
}

func initBig(I map[string]intrFn) {
	P := "(*math/big.Int)."
	setp := func(c *callCtx, b BigV) []Outcome {
		p := c.args[0].(Ptr)
		if p.obj == 0 {
			return c.panicv("nil *big.Int")
		}
		c.x.store(c.st, p, b)
		return c.ret(p)
	}
	get := func(c *callCtx, i int) BigV { b, _ := c.x.bigOf(c.st, c.args[i]); return b }
	abs64 := func(c *callCtx, t *Term) BigV {
		tc := c.x.tc
		neg := tc.Slt(t, tc.BV(64, 0))
		return BigV{neg, trimMag(tc, tc.Ite(neg, tc.Neg(t), t))}
	}
	I["math/big.NewInt"] = func(c *callCtx) []Outcome {
		return c.ret(Ptr{obj: c.x.alloc(c.st, abs64(c, c.term(0)))})
	}
	I[P+"SetInt64"] = func(c *callCtx) []Outcome { return setp(c, abs64(c, c.term(1))) }
	I[P+"SetUint64"] = func(c *callCtx) []Outcome {
		return setp(c, BigV{c.x.tc.False, trimMag(c.x.tc, c.term(1))})
	}
	I[P+"Set"] = func(c *callCtx) []Outcome { return setp(c, get(c, 1)) }
	I[P+"SetBytes"] = func(c *callCtx) []Outcome {
		b := c.bytes(1)
		if len(b) == 0 {
			return setp(c, BigV{c.x.tc.False, c.x.tc.BV(1, 0)})
		}
		return setp(c, BigV{c.x.tc.False, trimMag(c.x.tc, c.x.tc.Concat(b...))})
	}
	I[P+"SetString"] = func(c *callCtx) []Outcome {
		s := c.str(1)
		base := int(c.cint(2))
		if s.sym && base == 16 && len(s.b) > 0 {
			b := s.b
			if len(b)%2 == 1 {
				b = append([]*Term{c.x.tc.b8['0']}, b...)
			}
			var ok []*Term
			for _, t := range b {
				ok = append(ok, c.x.inTable(t, hexSet))
			}
			g, bad := c.x.branch(c.st, c.x.tc.AndN(ok...))
			if bad != nil {
				panic(unsupported("big.SetString non-hex symbolic"))
			}
			c.st = g
			p := c.args[0].(Ptr)
			c.x.store(c.st, p, BigV{c.x.tc.False, trimMag(c.x.tc, c.x.tc.Concat(c.x.hexDec(b)...))})
			return c.ret(TupleV{p, c.x.tc.True})
		}
		v, ok := new(big.Int).SetString(c.cstr(1), base)
		if !ok {
			return c.ret(TupleV{Ptr{}, c.x.tc.False})
		}
		p := c.args[0].(Ptr)
		c.x.store(c.st, p, c.x.bigConst(v))
		return c.ret(TupleV{p, c.x.tc.True})
	}
	I[P+"Cmp"] = func(c *callCtx) []Outcome { return c.ret(c.x.bigCmp(get(c, 0), get(c, 1))) }
	I[P+"CmpAbs"] = func(c *callCtx) []Outcome {
		a, b := get(c, 0), get(c, 1)
		a.neg, b.neg = c.x.tc.False, c.x.tc.False
		return c.ret(c.x.bigCmp(a, b))
	}
	I[P+"Sign"] = func(c *callCtx) []Outcome {
		return c.ret(c.x.bigCmp(get(c, 0), BigV{c.x.tc.False, c.x.tc.BV(1, 0)}))
	}
	I[P+"Add"] = func(c *callCtx) []Outcome { return setp(c, c.x.bigAdd(get(c, 1), get(c, 2))) }
	I[P+"Sub"] = func(c *callCtx) []Outcome {
		b := get(c, 2)
		tc := c.x.tc
		nb := BigV{tc.AndN(tc.Not(b.neg), tc.Not(tc.Eq(b.mag, tc.BV(b.mag.W, 0)))), b.mag}
		return setp(c, c.x.bigAdd(get(c, 1), nb))
	}
	I[P+"Neg"] = func(c *callCtx) []Outcome {
		b := get(c, 1)
		tc := c.x.tc
		return setp(c, BigV{tc.AndN(tc.Not(b.neg), tc.Not(tc.Eq(b.mag, tc.BV(b.mag.W, 0)))), b.mag})
	}
	I[P+"Abs"] = func(c *callCtx) []Outcome { return setp(c, BigV{c.x.tc.False, get(c, 1).mag}) }
	I[P+"Mul"] = func(c *callCtx) []Outcome {
		a, b := get(c, 1), get(c, 2)
		tc := c.x.tc
		w := a.mag.W + b.mag.W
		m := trimMag(tc, tc.Mul(tc.ZExt(a.mag, w), tc.ZExt(b.mag, w)))
		neg := tc.AndN(tc.Not(tc.Eq(a.neg, b.neg)), tc.Not(tc.Eq(m, tc.BV(m.W, 0))))
		return setp(c, BigV{neg, m})
	}
	divmod := func(c *callCtx, wantDiv, wantMod bool) (BigV, BigV) {
		a, b := get(c, 1), get(c, 2)
		tc := c.x.tc
		if !a.neg.isFalse() || !b.neg.isFalse() {
			g, bad := c.x.branch(c.st, tc.AndN(tc.Not(a.neg), tc.Not(b.neg)))
			if bad != nil {
				panic(unsupported("big div/mod of possibly negative value"))
			}
			c.st = g
		}
		if b.mag.isZero() {
			panic(unsupported("big division by zero"))
		}
		var q, r BigV
		if wantDiv {
			m1, m2 := zx2(tc, a.mag, b.mag)
			q = BigV{tc.False, trimMag(tc, tc.UDiv(m1, m2))}
		}
		if wantMod {
			r = BigV{tc.False, c.x.bigMod(a.mag, b.mag)}
		}
		return q, r
	}
	I[P+"Mod"] = func(c *callCtx) []Outcome { _, r := divmod(c, false, true); return setp(c, r) }
	I[P+"Rem"] = I[P+"Mod"]
	I[P+"Div"] = func(c *callCtx) []Outcome { q, _ := divmod(c, true, false); return setp(c, q) }
	I[P+"Quo"] = I[P+"Div"]
	I[P+"DivMod"] = func(c *callCtx) []Outcome {
		q, r := divmod(c, true, true)
		p, mp := c.args[0].(Ptr), c.args[3].(Ptr)
		c.x.store(c.st, p, q)
		c.x.store(c.st, mp, r)
		return c.ret(TupleV{p, mp})
	}
	I[P+"QuoRem"] = I[P+"DivMod"]
	I[P+"Lsh"] = func(c *callCtx) []Outcome {
		a := get(c, 1)
		n := int(c.cint(2))
		if n == 0 {
			return setp(c, a)
		}
		return setp(c, BigV{a.neg, c.x.tc.Concat(a.mag, c.x.tc.BV(n, 0))})
	}
	I[P+"Rsh"] = func(c *callCtx) []Outcome {
		a := get(c, 1)
		n := int(c.cint(2))
		if !a.neg.isFalse() {
			panic(unsupported("rsh negative"))
		}
		if n >= a.mag.W {
			return setp(c, BigV{a.neg, c.x.tc.BV(1, 0)})
		}
		return setp(c, BigV{a.neg, c.x.tc.Extract(a.mag, a.mag.W-1, n)})
	}
	I[P+"Exp"] = func(c *callCtx) []Outcome {
		a, b := get(c, 1), get(c, 2)
		mp := c.args[3].(Ptr)
		if a.mag.Op != OConst || b.mag.Op != OConst {
			panic(unsupported("symbolic Exp"))
		}
		var m *big.Int
		if mp.obj != 0 {
			mb := get(c, 3)
			m = mb.mag.BigVal()
		}
		return setp(c, c.x.bigConst(new(big.Int).Exp(a.mag.BigVal(), b.mag.BigVal(), m)))
	}
	I[P+"Bytes"] = func(c *callCtx) []Outcome {
		b := get(c, 0)
		return c.x.bigBytes(c.st, b.mag)
	}
	I[P+"FillBytes"] = func(c *callCtx) []Outcome {
		b := get(c, 0)
		s := c.args[1].(SliceV)
		tc := c.x.tc
		var outs []Outcome
		st := c.st
		if b.mag.W > 8*s.len {
			hi := tc.Extract(b.mag, b.mag.W-1, 8*s.len)
			st = c.x.guard(st, c.in, tc.Eq(hi, tc.BV(hi.W, 0)), "FillBytes: too small", &outs)
			if st == nil {
				return outs
			}
		}
		m := b.mag
		if m.W > 8*s.len {
			m = tc.Extract(m, 8*s.len-1, 0)
		}
		bs := termBytesBE(tc, m, s.len)
		if s.len > 0 {
			arr := walk(c.x.objW(st, s.obj).v, s.path).(*ArrV)
			for i, t := range bs {
				arr.e[s.off+i] = t
			}
		}
		return append(outs, Outcome{kind: kReturn, st: st, val: s})
	}
	low64 := func(c *callCtx) *Term {
		m := get(c, 0).mag
		if m.W > 64 {
			return c.x.tc.Extract(m, 63, 0)
		}
		return c.x.tc.ZExt(m, 64)
	}
	I[P+"Uint64"] = func(c *callCtx) []Outcome { return c.ret(low64(c)) }
	I[P+"Int64"] = func(c *callCtx) []Outcome {
		t := low64(c)
		return c.ret(c.x.tc.Ite(get(c, 0).neg, c.x.tc.Neg(t), t))
	}
	I[P+"IsUint64"] = func(c *callCtx) []Outcome {
		b := get(c, 0)
		tc := c.x.tc
		if b.mag.W <= 64 {
			return c.ret(tc.Not(b.neg))
		}
		hi := tc.Extract(b.mag, b.mag.W-1, 64)
		return c.ret(tc.AndN(tc.Not(b.neg), tc.Eq(hi, tc.BV(hi.W, 0))))
	}
	I[P+"BitLen"] = func(c *callCtx) []Outcome {
		m := get(c, 0).mag
		tc := c.x.tc
		r := tc.BV(64, 0)
		for i := 0; i < m.W; i++ {
			r = tc.Ite(tc.Eq(tc.Extract(m, i, i), tc.BV(1, 1)), tc.BV(64, uint64(i+1)), r)
		}
		return c.ret(r)
	}
	I[P+"Bit"] = func(c *callCtx) []Outcome {
		m := get(c, 0).mag
		n := int(c.cint(1))
		tc := c.x.tc
		if n >= m.W {
			return c.ret(tc.BV(64, 0))
		}
		return c.ret(tc.ZExt(tc.Extract(m, n, n), 64))
	}
	txt := func(c *callCtx, base int) []Outcome {
		b := get(c, 0)
		if b.mag.Op != OConst || b.neg.Op != OConst {
			if base == 16 && b.neg.isFalse() {
				// minimal hex text: fork on nibble count
				return c.x.bigHex(c.st, b.mag)
			}
			panic(unsupported("symbolic big text"))
		}
		v := new(big.Int).Set(b.mag.BigVal())
		if b.neg.isTrue() {
			v.Neg(v)
		}
		return c.ret(conc(v.Text(base)))
	}
	I[P+"String"] = func(c *callCtx) []Outcome { return txt(c, 10) }
	I[P+"Text"] = func(c *callCtx) []Outcome { return txt(c, int(c.cint(1))) }
}

func (x *Exec) bigConst(v *big.Int) BigV {
	m := new(big.Int).Abs(v)
	return BigV{x.tc.Bool(v.Sign() < 0), x.tc.BVBig(max(1, m.BitLen()), m)}
}

func (x *Exec) bigBytes(st *State, m *Term) []Outcome {
	tc := x.tc
	if m.Op == OConst {
		return ret(st, x.newByteSlice(st, x.symBytes(m.BigVal().Bytes())))
	}
	n := (m.W + 7) / 8
	w := n * 8
	mm := tc.ZExt(m, w)
	var outs []Outcome
	cur := st
	for k := n; k >= 0; k-- {
		// exactly k bytes iff top n-k bytes zero and byte k nonzero
		if k == 0 {
			outs = append(outs, Outcome{kind: kReturn, st: cur, val: x.newByteSlice(cur, nil)})
			break
		}
		top := tc.Extract(mm, 8*k-1, 8*(k-1))
		a, b := x.branch(cur, tc.Not(tc.Eq(top, tc.BV(8, 0))))
		if a != nil {
			outs = append(outs, Outcome{kind: kReturn, st: a, val: x.newByteSlice(a, termBytesBE(tc, tc.Extract(mm, 8*k-1, 0), k))})
		}
		if b == nil {
			break
		}
		cur = b
	}
	return outs
}

func (x *Exec) bigHex(st *State, m *Term) []Outcome {
	tc := x.tc
	n := (m.W + 3) / 4
	mm := tc.ZExt(m, n*4)
	tb := make([]uint64, 16)
	for i := range tb {
		tb[i] = uint64(hexDigits[i])
	}
	var outs []Outcome
	cur := st
	for k := n; k >= 1; k-- {
		mk := func() StrV {
			r := make([]*Term, k)
			for i := 0; i < k; i++ {
				h := 4*(k-i) - 1
				r[i] = tc.Table(tc.Extract(mm, h, h-3), tb, 8)
			}
			return mkStr(r)
		}
		if k == 1 {
			outs = append(outs, Outcome{kind: kReturn, st: cur, val: mk()})
			break
		}
		a, b := x.branch(cur, tc.Not(tc.Eq(tc.Extract(mm, 4*k-1, 4*k-4), tc.BV(4, 0))))
		if a != nil {
			outs = append(outs, Outcome{kind: kReturn, st: a, val: mk()})
		}
		if b == nil {
			break
		}
		cur = b
	}
	return outs
}

func typeName(t types.Type) string { return types.TypeString(t, nil) }
