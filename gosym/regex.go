package main

import (
	"regexp"
	"regexp/syntax"
)

// Regular expressions: the pattern is concrete, the text may be symbolic. Matching is decided by
// simulating the compiled pattern (Go's own regexp/syntax program) with one Boolean term per
// instruction and text position, so the answer is exact for every ASCII text of the given length.

func (x *Exec) reMatch(pat string, text []*Term) *Term {
	tc := x.tc
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		panic(unsupported("regexp " + err.Error()))
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsupported("regexp " + err.Error()))
	}
	n := len(text)
	matched := tc.False
	active := map[uint32]*Term{}
	// follow adds pc (and what it reaches without consuming) at position i
	var follow func(set map[uint32]*Term, pc uint32, cond *Term, i int, depth int)
	follow = func(set map[uint32]*Term, pc uint32, cond *Term, i, depth int) {
		if cond.isFalse() {
			return
		}
		if o, ok := set[pc]; ok {
			nw := tc.OrN(o, cond)
			if nw == o {
				return
			}
			set[pc] = nw
		} else {
			set[pc] = cond
		}
		if depth > 10000 {
			panic(unsupported("regexp depth"))
		}
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			follow(set, in.Out, cond, i, depth+1)
			follow(set, in.Arg, cond, i, depth+1)
		case syntax.InstCapture, syntax.InstNop:
			follow(set, in.Out, cond, i, depth+1)
		case syntax.InstEmptyWidth:
			var have syntax.EmptyOp
			if i == 0 {
				have |= syntax.EmptyBeginText | syntax.EmptyBeginLine
			}
			if i == n {
				have |= syntax.EmptyEndText | syntax.EmptyEndLine
			}
			want := syntax.EmptyOp(in.Arg)
			if want&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				panic(unsupported("regexp line or word boundary"))
			}
			if want&^have == 0 {
				follow(set, in.Out, cond, i, depth+1)
			}
		case syntax.InstMatch:
			matched = tc.OrN(matched, cond)
		}
	}
	for i := 0; ; i++ {
		follow(active, uint32(prog.Start), tc.True, i, 0) // unanchored search
		if i == n {
			return matched
		}
		next := map[uint32]*Term{}
		for pc := range prog.Inst {
			cond, ok := active[uint32(pc)]
			if !ok {
				continue
			}
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				var s Set256
				for r := rune(0); r < 0x80; r++ {
					if in.MatchRune(r) {
						s.add(uint64(r))
					}
				}
				follow(next, in.Out, tc.AndN(cond, x.inTable(text[i], s)), i+1, 0)
			}
		}
		active = next
	}
}

func initRegexp(I map[string]intrFn) {
	mk := func(c *callCtx) Value {
		pat := c.cstr(0)
		return Ptr{obj: c.x.alloc(c.st, OpaqueV{kind: "regexp", data: []Value{conc(pat)}})}
	}
	I["regexp.MustCompile"] = func(c *callCtx) []Outcome {
		if _, err := regexp.Compile(c.cstr(0)); err != nil {
			return c.panicv(err.Error())
		}
		return c.ret(mk(c))
	}
	I["regexp.Compile"] = func(c *callCtx) []Outcome {
		if _, err := regexp.Compile(c.cstr(0)); err != nil {
			return c.ret(TupleV{Ptr{}, c.x.mkErr(err.Error())})
		}
		return c.ret(TupleV{mk(c), IfaceV{}})
	}
	match := func(c *callCtx, pat string, text []*Term) []Outcome {
		tc := c.x.tc
		concrete := true
		b := make([]byte, len(text))
		var ok []*Term
		for i, t := range text {
			if t.Op == OConst {
				b[i] = byte(t.C)
			} else {
				concrete = false
			}
			ok = append(ok, tc.Ult(t, tc.BV(8, 0x80)))
		}
		if concrete {
			return c.ret(tc.Bool(regexp.MustCompile(pat).Match(b)))
		}
		g, bad := c.x.branch(c.st, tc.AndN(ok...))
		var outs []Outcome
		if bad != nil {
			c.x.note("non-ASCII text in a regular expression not explored")
			outs = append(outs, Outcome{kind: kAbort})
		}
		if g != nil {
			outs = append(outs, Outcome{kind: kReturn, st: g, val: c.x.reMatch(pat, text)})
		}
		return outs
	}
	pat := func(c *callCtx) string {
		p, ok := c.args[0].(Ptr)
		if !ok || p.obj == 0 {
			panic(nilArg{})
		}
		o, ok := c.x.load(c.st, p).(OpaqueV)
		if !ok || o.kind != "regexp" {
			panic(unsupported("regexp value"))
		}
		return o.data[0].(StrV).s
	}
	I["(*regexp.Regexp).MatchString"] = func(c *callCtx) []Outcome {
		s := c.str(1)
		t := make([]*Term, s.Len())
		for i := range t {
			t[i] = s.at(c.x.tc, i)
		}
		return match(c, pat(c), t)
	}
	I["(*regexp.Regexp).Match"] = func(c *callCtx) []Outcome { return match(c, pat(c), c.bytes(1)) }
}
