package main

import (
	"math/big"
	"math/bits"
	"sort"
)

// GF(2)-linear normal form. A 1-bit OXorN term is the parity C xor the sum of its
// arguments: pairwise different, sorted, at most one per byte-sized atom, none constant.
// Checksum codes (BCH polynomials, CRC) become sets of input bits, so that two
// computations of the same linear map are the same term.

func (tc *TC) XorBits(xs ...*Term) *Term {
	parity := uint64(0)
	odd := map[int]*Term{}
	var atoms map[*Term]*Term
	var add func(x *Term)
	add = func(x *Term) {
		switch {
		case x.Op == OConst:
			parity ^= x.C & 1
		case x.Op == OXorN:
			parity ^= x.C
			for _, a := range x.A {
				add(a)
			}
		case x.Op == ONot:
			parity ^= 1
			add(x.A[0])
		case x.Op == OXor:
			add(x.A[0])
			add(x.A[1])
		case x.atom != nil:
			if atoms == nil {
				atoms = map[*Term]*Term{}
			}
			if o, ok := atoms[x.atom]; ok {
				r := tc.lift(&Term{Op: OXor, W: 1, A: []*Term{o, x}})
				if r == nil {
					panic("xor lift")
				}
				if r.Op == OConst {
					parity ^= r.C & 1
					delete(atoms, x.atom)
				} else {
					atoms[x.atom] = r
				}
			} else {
				atoms[x.atom] = x
			}
		default:
			if _, ok := odd[x.ID]; ok {
				delete(odd, x.ID)
			} else {
				odd[x.ID] = x
			}
		}
	}
	for _, x := range xs {
		add(x)
	}
	args := make([]*Term, 0, len(odd)+len(atoms))
	for _, x := range odd {
		args = append(args, x)
	}
	for _, x := range atoms {
		if x.Op == OTable && x.Tbl.at(int(x.A[0].lo)) == 1 {
			n := make([]uint64, x.Tbl.n())
			for i, v := range x.Tbl.all() {
				n[i] = v ^ 1
			}
			parity ^= 1
			x = tc.Table(x.A[0], n, 1)
		}
		args = append(args, x)
	}
	if len(args) == 0 {
		return tc.BV(1, parity)
	}
	if len(args) == 1 {
		if parity == 0 {
			return args[0]
		}
		x := args[0]
		if r := tc.lift(&Term{Op: ONot, W: 1, A: []*Term{x}}); r != nil {
			return r
		}
		return tc.mk(&Term{Op: ONot, W: 1, A: []*Term{x}})
	}
	sort.Slice(args, func(i, j int) bool { return args[i].ID < args[j].ID })
	return tc.mk(&Term{Op: OXorN, W: 1, C: parity, A: args})
}

func hasXorN(t *Term) bool {
	switch t.Op {
	case OXorN:
		return true
	case OZExt:
		return hasXorN(t.A[0])
	case OConcat:
		for _, p := range t.A {
			if p.Op == OXorN {
				return true
			}
		}
	}
	return false
}

// bit1 is the boolean c as a 1-bit term.
func (tc *TC) bit1(c *Term) *Term {
	switch c.Op {
	case OConst:
		return tc.BV(1, c.C)
	case OBNot:
		return tc.XorBits(tc.bit1(c.A[0]), tc.BV(1, 1))
	case OEq:
		if c.A[0].W == 1 && c.A[1].Op == OConst {
			if c.A[1].C == 1 {
				return c.A[0]
			}
			return tc.XorBits(c.A[0], tc.BV(1, 1))
		}
	case OInSet:
		n := 1 << uint(c.A[0].W)
		tb := make([]uint64, n)
		for i := range tb {
			if c.Set.has(uint64(i)) {
				tb[i] = 1
			}
		}
		return tc.Table(c.A[0], tb, 1)
	}
	return nil
}

// xdiff returns a xor b when it is visibly a nonzero constant.
func (tc *TC) xdiff(a, b *Term) (uint64, bool) {
	base := func(t *Term) (*Term, uint64) {
		if t.Op == OXor && t.A[1].Op == OConst {
			return t.A[0], t.A[1].C
		}
		return t, 0
	}
	if a.W > 64 {
		return 0, false
	}
	x, k := base(a)
	y, l := base(b)
	if x == y {
		return k ^ l, true
	}
	if a.W == 1 {
		if z := tc.XorBits(a, b); z.Op == OConst {
			return z.C, true
		}
		return 0, false
	}
	if a.W < 8 && a.atom != nil && a.atom == b.atom {
		if z := tc.lift(&Term{Op: OXor, W: a.W, A: []*Term{a, b}}); z != nil && z.Op == OConst {
			return z.C, true
		}
		return 0, false
	}
	if !hasXorN(a) && !hasXorN(b) {
		return 0, false
	}
	ra, rb := tc.alignPieces(a, b)
	if ra == nil {
		ra, rb = []*Term{a}, []*Term{b}
	}
	d := uint64(0)
	for i := range ra {
		p, q := ra[i], rb[i]
		d <<= uint(p.W)
		switch {
		case p == q:
		case p.Op == OConst && q.Op == OConst:
			d |= p.C ^ q.C
		case p.W == 1:
			z := tc.XorBits(p, q)
			if z.Op != OConst {
				return 0, false
			}
			d |= z.C
		case p.atom != nil && p.atom == q.atom:
			z := tc.lift(&Term{Op: OXor, W: p.W, A: []*Term{p, q}})
			if z == nil || z.Op != OConst {
				return 0, false
			}
			d |= z.C
		default:
			x, k := base(p)
			y, l := base(q)
			if x != y {
				return 0, false
			}
			d |= k ^ l
		}
	}
	return d, true
}

// xorIte is ite(c,a,b) with a = b xor K as b xor (K if c).
func (tc *TC) xorIte(c, a, b *Term) *Term {
	k, ok := tc.xdiff(a, b)
	if !ok || (a.W >= 8 && bits.OnesCount64(k) < 2 && !hasXorN(a) && !hasXorN(b)) {
		return nil
	}
	cb := tc.bit1(c)
	if cb == nil {
		return nil
	}
	var out []*Term
	for i := a.W - 1; i >= 0; {
		if k>>uint(i)&1 == 1 {
			out = append(out, tc.XorBits(tc.Extract(b, i, i), cb))
			i--
			continue
		}
		j := i
		for j > 0 && k>>uint(j-1)&1 == 0 {
			j--
		}
		out = append(out, tc.Extract(b, i, j))
		i = j - 1
	}
	return tc.Concat(out...)
}

// singleXor solves a lone linear equation: some argument that is a function of one
// byte variable can be given either value.
func singleXor(cs []*Term) (map[int]*big.Int, bool) {
	if len(cs) != 1 {
		return nil, false
	}
	t, want := cs[0], uint64(1)
	if t.Op == OBNot {
		t, want = t.A[0], 0
	}
	if t.Op != OEq || t.A[1].Op != OConst || t.A[0].Op != OXorN {
		return nil, false
	}
	x := t.A[0]
	for _, a := range x.A {
		if a.atom == nil {
			continue
		}
		sup := a.Support()
		if len(sup) != 1 || a.atom.Op != OVar {
			continue
		}
		m := NewModel()
		for i := 0; i < 1<<uint(a.atom.W); i++ {
			m.v[sup[0]] = big.NewInt(int64(i))
			clear(m.memo)
			clear(m.m64)
			if m.Eval64(t) == want {
				out := map[int]*big.Int{}
				for _, v := range x.Support() {
					out[v] = big.NewInt(0)
				}
				out[sup[0]] = big.NewInt(int64(i))
				return out, true
			}
		}
	}
	return nil, false
}
