package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	OBNot // boolean
	OBAnd
	OBOr
	OInSet // boolean: x in 256-bit set (x width <= 8)
	OEq
	OUlt
	OUle
	OSlt
	OSle
	ONot // bitwise
	OAnd
	OOr
	OXor
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OConcat // args msb first
	OExtract
	OZExt
	OSExt
	OIte
	OTable // args[0] index (width<=8), Tbl
	OXorN  // 1-bit: parity C xor all args
)

var opNames = map[Op]string{OBNot: "not", OBAnd: "and", OBOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	ONot: "bvnot", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat", OIte: "ite", OXorN: "bvxor"}

type Set256 [4]uint64

func (s *Set256) has(i uint64) bool { return s[i>>6]>>(i&63)&1 == 1 }
func (s *Set256) add(i uint64)      { s[i>>6] |= 1 << (i & 63) }
func (s *Set256) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}

func (s *Set256) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *Set256) first() uint64 {
	for i := uint64(0); i < 256; i++ {
		if s.has(i) {
			return i
		}
	}
	return 0
}

// Term is a hash-consed SMT term. W==0 means Bool.
type Term struct {
	Op   Op
	W    int
	A    []*Term
	C    uint64 // const value (w<=64), or extract low bit
	Big  *big.Int
	Name string
	Set  Set256
	Tbl  Tab
	ID   int
	lo   uint64
	hi   uint64
	kz   uint64 // known-zero bits (w<=64)
	atom *Term  // term is a function of this single <=8-bit atom
	sup  []int  // sorted var ids
	supN bool
}

// Tab is a lookup table packed into as few bytes per entry as its largest entry needs.
type Tab struct {
	s string
	w byte
}

func (tc *TC) pack(t []uint64) Tab {
	m := uint64(0)
	for _, v := range t {
		m |= v
	}
	w := 1
	for w < 8 && m>>(8*uint(w)) != 0 {
		w++
	}
	if cap(tc.packbuf) < len(t)*w {
		tc.packbuf = make([]byte, len(t)*8)
	}
	b := tc.packbuf[:0]
	for _, v := range t {
		for i := 0; i < w; i++ {
			b = append(b, byte(v>>(8*uint(i))))
		}
	}
	tc.packbuf = b
	return Tab{string(b), byte(w)}
}

func (t Tab) n() int {
	if t.w == 0 {
		return 0
	}
	return len(t.s) / int(t.w)
}

func (t Tab) at(i int) uint64 {
	w := int(t.w)
	if w == 1 {
		return uint64(t.s[i])
	}
	v := uint64(0)
	for k := w - 1; k >= 0; k-- {
		v = v<<8 | uint64(t.s[i*w+k])
	}
	return v
}

func (t Tab) all() []uint64 {
	r := make([]uint64, t.n())
	for i := range r {
		r[i] = t.at(i)
	}
	return r
}

type TC struct {
	packbuf []byte
	tab     map[string]*Term
	terms   int
	vars    []*Term
	True    *Term
	False   *Term
	b8      [256]*Term
	keybuf  []byte
}

func NewTC() *TC {
	tc := &TC{tab: map[string]*Term{}}
	tc.True = tc.mk(&Term{Op: OConst, W: 0, C: 1})
	tc.False = tc.mk(&Term{Op: OConst, W: 0, C: 0})
	for i := range tc.b8 {
		tc.b8[i] = tc.BV(8, uint64(i))
	}
	return tc
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func (tc *TC) mk(t *Term) *Term {
	k := tc.keybuf[:0]
	k = append(k, byte(t.Op), byte(t.W), byte(t.W>>8))
	app := func(v uint64) {
		k = append(k, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
	}
	switch t.Op {
	case OConst:
		if t.Big != nil {
			k = append(k, t.Big.Bytes()...)
		} else {
			app(t.C)
		}
	case OVar:
		k = append(k, t.Name...)
	default:
		app(t.C)
		for _, a := range t.A {
			k = append(k, byte(a.ID), byte(a.ID>>8), byte(a.ID>>16), byte(a.ID>>24))
		}
		if t.Op == OInSet {
			for _, s := range t.Set {
				app(s)
			}
		}
		if t.Op == OTable {
			k = append(k, t.Tbl.w)
			k = append(k, t.Tbl.s...)
		}
	}
	tc.keybuf = k
	if r, ok := tc.tab[string(k)]; ok {
		return r
	}
	t.ID = tc.terms
	tc.terms++
	tc.annotate(t)
	ks := string(k)
	if t.Op == OTable { // the key holds the packed table: share it
		t.Tbl.s = ks[len(ks)-len(t.Tbl.s):]
	}
	tc.tab[ks] = t
	return t
}

func (tc *TC) annotate(t *Term) {
	w := t.W
	// atom
	switch t.Op {
	case OConst:
	case OVar:
		if w > 0 && w <= 8 {
			t.atom = t
		}
	default:
		var at *Term
		ok := true
		for _, a := range t.A {
			if a.Op == OConst {
				continue
			}
			if a.atom == nil || (at != nil && a.atom != at) {
				ok = false
				break
			}
			at = a.atom
		}
		if ok && at != nil {
			t.atom = at
		} else if t.Op == OExtract && w <= 8 {
			t.atom = t
		}
	}
	if w == 0 || w > 64 {
		return
	}
	m := mask(w)
	t.lo, t.hi = 0, m
	kz := uint64(0)
	a := func(i int) *Term { return t.A[i] }
	small := func(i int) bool { return t.A[i].W <= 64 }
	switch t.Op {
	case OConst:
		t.lo, t.hi = t.C, t.C
		kz = ^t.C & m
	case OZExt:
		t.lo, t.hi = a(0).lo, a(0).hi
		kz = (a(0).kz | ^mask(a(0).W)) & m
	case OAnd:
		kz = a(0).kz | a(1).kz
		t.hi = min(a(0).hi, a(1).hi)
	case OOr:
		kz = a(0).kz & a(1).kz
		t.lo = max(a(0).lo, a(1).lo)
	case OXor:
		kz = a(0).kz & a(1).kz
	case OAdd:
		h, c := bits.Add64(a(0).hi, a(1).hi, 0)
		if c == 0 && h <= m {
			t.lo, t.hi = a(0).lo+a(1).lo, h
		}
	case OSub:
		if a(0).lo >= a(1).hi {
			t.lo, t.hi = a(0).lo-a(1).hi, a(0).hi-a(1).lo
		}
	case OMul:
		h, l := bits.Mul64(a(0).hi, a(1).hi)
		if h == 0 && l <= m {
			t.lo, t.hi = a(0).lo*a(1).lo, l
		}
	case OUDiv:
		if a(1).lo > 0 {
			t.lo, t.hi = a(0).lo/a(1).hi, a(0).hi/a(1).lo
		}
	case OURem:
		if a(1).lo > 0 {
			t.hi = min(a(0).hi, a(1).hi-1)
		}
	case OShl:
		if a(1).Op == OConst && a(1).C < uint64(w) {
			s := uint(a(1).C)
			if a(0).hi <= m>>s {
				t.lo, t.hi = a(0).lo<<s, a(0).hi<<s
			}
			kz = (a(0).kz<<s | (1<<s - 1)) & m
		}
	case OLShr:
		if a(1).Op == OConst && a(1).C < uint64(w) {
			s := uint(a(1).C)
			t.lo, t.hi = a(0).lo>>s, a(0).hi>>s
			kz = (a(0).kz>>s | ^(m >> s)) & m
		} else {
			t.hi = a(0).hi
		}
	case OConcat:
		for _, x := range t.A {
			kz = kz<<uint(x.W) | x.kz
		}
		lo, hi := uint64(0), uint64(0)
		for _, x := range t.A {
			lo = lo<<uint(x.W) | x.lo
			hi = hi<<uint(x.W) | x.hi
		}
		t.lo, t.hi = lo, hi
	case OExtract:
		if small(0) {
			kz = (a(0).kz >> t.C) & m
			if a(0).hi>>t.C <= m {
				t.lo, t.hi = a(0).lo>>t.C, a(0).hi>>t.C
			}
		}
	case OIte:
		t.lo, t.hi = min(a(1).lo, a(2).lo), max(a(1).hi, a(2).hi)
		kz = a(1).kz & a(2).kz
	case OTable:
		lo, hi := m, uint64(0)
		kz = m
		for i := a(0).lo; i <= a(0).hi && i < uint64(t.Tbl.n()); i++ {
			v := t.Tbl.at(int(i))
			lo, hi = min(lo, v), max(hi, v)
			kz &= ^v
		}
		t.lo, t.hi = lo, hi
	}
	// combine
	t.hi = min(t.hi, ^kz&m)
	if l := bits.Len64(t.hi); l < w {
		kz |= m &^ mask(l)
	}
	t.kz = kz
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) isTrue() bool  { return t.Op == OConst && t.W == 0 && t.C == 1 }
func (t *Term) isFalse() bool { return t.Op == OConst && t.W == 0 && t.C == 0 }
func (t *Term) BigVal() *big.Int {
	if t.Big != nil {
		return t.Big
	}
	return new(big.Int).SetUint64(t.C)
}
func (t *Term) isZero() bool {
	if t.Op != OConst {
		return false
	}
	if t.Big != nil {
		return t.Big.Sign() == 0
	}
	return t.C == 0
}
func (t *Term) isOnes() bool {
	if t.Op != OConst {
		return false
	}
	if t.W <= 64 {
		return t.C == mask(t.W)
	}
	return t.Big.BitLen() == t.W && new(big.Int).Add(t.Big, big.NewInt(1)).TrailingZeroBits() == uint(t.W)
}

func (tc *TC) BV(w int, v uint64) *Term {
	if w > 64 {
		return tc.BVBig(w, new(big.Int).SetUint64(v))
	}
	if w == 8 && tc.b8[v&255] != nil {
		return tc.b8[v&255]
	}
	return tc.mk(&Term{Op: OConst, W: w, C: v & mask(w)})
}

func (tc *TC) BVBig(w int, v *big.Int) *Term {
	mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, mod)
	if w <= 64 {
		return tc.mk(&Term{Op: OConst, W: w, C: x.Uint64()})
	}
	return tc.mk(&Term{Op: OConst, W: w, Big: x})
}

func (tc *TC) Bool(b bool) *Term {
	if b {
		return tc.True
	}
	return tc.False
}

func (tc *TC) Var(w int, name string) *Term {
	n := tc.terms
	t := tc.mk(&Term{Op: OVar, W: w, Name: name})
	if t.ID == n {
		t.C = uint64(len(tc.vars))
		tc.vars = append(tc.vars, t)
		t.sup = []int{int(t.C)}
		t.supN = true
	}
	return t
}

// Support returns sorted variable indices.
func (t *Term) Support() []int {
	if t.supN {
		return t.sup
	}
	t.supN = true
	var r []int
	for _, a := range t.A {
		r = mergeInts(r, a.Support())
	}
	t.sup = r
	return r
}

func mergeInts(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset check
	i, j := 0, 0
	r := make([]int, 0, len(a)+len(b))
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			r = append(r, a[i])
			i++
			j++
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		default:
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}

// ---------- evaluation of a single op on constants ----------

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

// evalOp64 evaluates op with all widths <=64. aw: arg widths.
func evalOp64(t *Term, w int, v []uint64) uint64 {
	m := mask(w)
	aw := 0
	if len(t.A) > 0 {
		aw = t.A[0].W
	}
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.Op {
	case OBNot:
		return v[0] ^ 1
	case OBAnd:
		r := uint64(1)
		for _, x := range v {
			r &= x
		}
		return r
	case OBOr:
		r := uint64(0)
		for _, x := range v {
			r |= x
		}
		return r
	case OInSet:
		return b(t.Set.has(v[0]))
	case OEq:
		return b(v[0] == v[1])
	case OUlt:
		return b(v[0] < v[1])
	case OUle:
		return b(v[0] <= v[1])
	case OSlt:
		return b(sx(v[0], aw) < sx(v[1], aw))
	case OSle:
		return b(sx(v[0], aw) <= sx(v[1], aw))
	case ONot:
		return ^v[0] & m
	case OAnd:
		return v[0] & v[1]
	case OOr:
		return v[0] | v[1]
	case OXorN:
		r := t.C
		for _, x := range v {
			r ^= x
		}
		return r & 1
	case OXor:
		return v[0] ^ v[1]
	case OAdd:
		return (v[0] + v[1]) & m
	case OSub:
		return (v[0] - v[1]) & m
	case OMul:
		return (v[0] * v[1]) & m
	case OUDiv:
		if v[1] == 0 {
			return m
		}
		return v[0] / v[1]
	case OURem:
		if v[1] == 0 {
			return v[0]
		}
		return v[0] % v[1]
	case OSDiv:
		x, y := sx(v[0], w), sx(v[1], w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(v[0], w), sx(v[1], w)
		if y == 0 {
			return v[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if v[1] >= uint64(w) {
			return 0
		}
		return v[0] << v[1] & m
	case OLShr:
		if v[1] >= uint64(w) {
			return 0
		}
		return v[0] >> v[1]
	case OAShr:
		s := v[1]
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sx(v[0], w)>>s) & m
	case OConcat:
		r := uint64(0)
		for i, x := range v {
			r = r<<uint(t.A[i].W) | x
		}
		return r
	case OExtract:
		return v[0] >> t.C & m
	case OZExt:
		return v[0]
	case OSExt:
		return uint64(sx(v[0], aw)) & m
	case OIte:
		if v[0] == 1 {
			return v[1]
		}
		return v[2]
	case OTable:
		if v[0] < uint64(t.Tbl.n()) {
			return t.Tbl.at(int(v[0]))
		}
		return 0
	}
	panic("evalOp64 " + fmt.Sprint(t.Op))
}

func evalOpBig(t *Term, w int, v []*big.Int) *big.Int {
	mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
	b := func(x bool) *big.Int {
		if x {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	}
	aw := 0
	if len(t.A) > 0 {
		aw = t.A[0].W
	}
	sgn := func(x *big.Int, w int) *big.Int {
		if x.Bit(w-1) == 1 {
			return new(big.Int).Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		return x
	}
	r := new(big.Int)
	switch t.Op {
	case OEq:
		return b(v[0].Cmp(v[1]) == 0)
	case OUlt:
		return b(v[0].Cmp(v[1]) < 0)
	case OUle:
		return b(v[0].Cmp(v[1]) <= 0)
	case OSlt:
		return b(sgn(v[0], aw).Cmp(sgn(v[1], aw)) < 0)
	case OSle:
		return b(sgn(v[0], aw).Cmp(sgn(v[1], aw)) <= 0)
	case ONot:
		return r.Sub(new(big.Int).Sub(mod, big.NewInt(1)), v[0])
	case OAnd:
		return r.And(v[0], v[1])
	case OOr:
		return r.Or(v[0], v[1])
	case OXorN:
		k := t.C
		for _, x := range v {
			k ^= x.Uint64()
		}
		return r.SetUint64(k & 1)
	case OXor:
		return r.Xor(v[0], v[1])
	case OAdd:
		return r.Mod(r.Add(v[0], v[1]), mod)
	case OSub:
		return r.Mod(r.Sub(v[0], v[1]), mod)
	case OMul:
		return r.Mod(r.Mul(v[0], v[1]), mod)
	case OUDiv:
		if v[1].Sign() == 0 {
			return r.Sub(mod, big.NewInt(1))
		}
		return r.Div(v[0], v[1])
	case OURem:
		if v[1].Sign() == 0 {
			return v[0]
		}
		return r.Mod(v[0], v[1])
	case OShl:
		if !v[1].IsUint64() || v[1].Uint64() >= uint64(w) {
			return r
		}
		return r.Mod(r.Lsh(v[0], uint(v[1].Uint64())), mod)
	case OLShr:
		if !v[1].IsUint64() || v[1].Uint64() >= uint64(w) {
			return r
		}
		return r.Rsh(v[0], uint(v[1].Uint64()))
	case OConcat:
		for i, x := range v {
			r.Lsh(r, uint(t.A[i].W))
			r.Or(r, x)
		}
		return r
	case OExtract:
		return r.Mod(r.Rsh(v[0], uint(t.C)), mod)
	case OZExt:
		return v[0]
	case OSExt:
		return r.Mod(sgn(v[0], aw), mod)
	case OIte:
		if v[0].Sign() != 0 {
			return v[1]
		}
		return v[2]
	case OTable:
		i := v[0].Uint64()
		if i < uint64(t.Tbl.n()) {
			return r.SetUint64(t.Tbl.at(int(i)))
		}
		return r
	}
	panic("evalOpBig " + fmt.Sprint(t.Op))
}

// Model maps variable index to value.
type Model struct {
	v      map[int]*big.Int
	memo   map[int]*big.Int
	m64    map[int]uint64
	axSeen int
	strict bool // some conjunct relied on a default value of a function result: check every axiom
}

func NewModel() *Model {
	return &Model{v: map[int]*big.Int{}, memo: map[int]*big.Int{}, m64: map[int]uint64{}}
}

func (m *Model) Eval(t *Term) *big.Int {
	if t.W <= 64 {
		return new(big.Int).SetUint64(m.Eval64(t))
	}
	if t.Op == OConst {
		return t.Big
	}
	if r, ok := m.memo[t.ID]; ok {
		return r
	}
	var r *big.Int
	if t.Op == OVar {
		r = m.v[int(t.C)]
		if r == nil {
			r = big.NewInt(0)
		}
		return r
	}
	if t.Op == OIte {
		if m.Eval64(t.A[0]) == 1 {
			r = m.Eval(t.A[1])
		} else {
			r = m.Eval(t.A[2])
		}
	} else {
		v := make([]*big.Int, len(t.A))
		for i, a := range t.A {
			v[i] = m.Eval(a)
		}
		r = evalOpBig(t, t.W, v)
	}
	m.memo[t.ID] = r
	return r
}

func (m *Model) Eval64(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.C
	case OVar:
		if x := m.v[int(t.C)]; x != nil {
			return x.Uint64()
		}
		return 0
	}
	if r, ok := m.m64[t.ID]; ok {
		return r
	}
	var r uint64
	switch t.Op {
	case OIte:
		if m.Eval64(t.A[0]) == 1 {
			r = m.Eval64(t.A[1])
		} else {
			r = m.Eval64(t.A[2])
		}
	case OBAnd:
		r = 1
		for _, a := range t.A {
			if m.Eval64(a) == 0 {
				r = 0
				break
			}
		}
	case OBOr:
		for _, a := range t.A {
			if m.Eval64(a) == 1 {
				r = 1
				break
			}
		}
	default:
		wide := false
		for _, a := range t.A {
			if a.W > 64 {
				wide = true
			}
		}
		if wide {
			v := make([]*big.Int, len(t.A))
			for i, a := range t.A {
				v[i] = m.Eval(a)
			}
			r = evalOpBig(t, t.W, v).Uint64()
		} else {
			var buf [4]uint64
			v := buf[:0]
			for _, a := range t.A {
				v = append(v, m.Eval64(a))
			}
			r = evalOp64(t, t.W, v)
		}
	}
	m.m64[t.ID] = r
	return r
}

// ---------- construction with simplification ----------

func (tc *TC) constFold(t *Term) *Term {
	wide := t.W > 64
	for _, a := range t.A {
		if a.Op != OConst {
			return nil
		}
		if a.W > 64 {
			wide = true
		}
	}
	if wide {
		v := make([]*big.Int, len(t.A))
		for i, a := range t.A {
			v[i] = a.BigVal()
		}
		r := evalOpBig(t, t.W, v)
		if t.W == 0 {
			return tc.Bool(r.Sign() != 0)
		}
		return tc.BVBig(t.W, r)
	}
	v := make([]uint64, len(t.A))
	for i, a := range t.A {
		v[i] = a.C
	}
	r := evalOp64(t, t.W, v)
	if t.W == 0 {
		return tc.Bool(r != 0)
	}
	return tc.BV(t.W, r)
}

// lift tries to express op over a single atom as Table/InSet.
func (tc *TC) lift(t *Term) *Term {
	var at *Term
	for _, a := range t.A {
		if a.Op == OConst {
			continue
		}
		if a.atom == nil || (at != nil && at != a.atom) || a.W > 64 {
			return nil
		}
		at = a.atom
	}
	if at == nil || t.W > 64 {
		return nil
	}
	n := 1 << uint(at.W)
	v := make([]uint64, len(t.A))
	var cache [4][]uint64
	for i, a := range t.A {
		if i >= 4 {
			return nil
		}
		cache[i] = tc.tabulate(a, at, n)
	}
	if t.W == 0 {
		var s Set256
		for i := 0; i < n; i++ {
			for j := range t.A {
				v[j] = cache[j][i]
			}
			if evalOp64(t, 0, v) == 1 {
				s.add(uint64(i))
			}
		}
		return tc.InSet(at, s)
	}
	out := make([]uint64, n)
	for i := 0; i < n; i++ {
		for j := range t.A {
			v[j] = cache[j][i]
		}
		out[i] = evalOp64(t, t.W, v)
	}
	return tc.Table(at, out, t.W)
}

func (tc *TC) tabulate(a, at *Term, n int) []uint64 {
	out := make([]uint64, n)
	if a.Op == OConst {
		for i := range out {
			out[i] = a.C
		}
		return out
	}
	if a == at {
		for i := range out {
			out[i] = uint64(i)
		}
		return out
	}
	if a.Op == OTable && a.A[0] == at {
		copy(out, a.Tbl.all())
		return out
	}
	if a.Op == OInSet && a.A[0] == at {
		for i := range out {
			if a.Set.has(uint64(i)) {
				out[i] = 1
			}
		}
		return out
	}
	var cols [][]uint64
	for _, x := range a.A {
		cols = append(cols, tc.tabulate(x, at, n))
	}
	v := make([]uint64, len(a.A))
	for i := 0; i < n; i++ {
		for j := range v {
			v[j] = cols[j][i]
		}
		out[i] = evalOp64(a, a.W, v)
	}
	return out
}

func (tc *TC) InSet(x *Term, s Set256) *Term {
	n := uint64(1) << uint(x.W)
	// clear outside range
	all := true
	any := false
	var s2 Set256
	for i := x.lo; i <= x.hi && i < n; i++ {
		if s.has(i) {
			any = true
			s2.add(i)
		} else {
			all = false
		}
	}
	if all {
		return tc.True
	}
	if !any {
		return tc.False
	}
	if x.Op == OTable {
		var s3 Set256
		idx := x.A[0]
		for i := 0; i < x.Tbl.n(); i++ {
			if x.Tbl.at(int(i)) < 256 && s.has(x.Tbl.at(int(i))) {
				s3.add(uint64(i))
			}
		}
		return tc.InSet(idx, s3)
	}
	if x.Op == OZExt {
		return tc.InSet(x.A[0], s2)
	}
	return tc.mk(&Term{Op: OInSet, A: []*Term{x}, Set: s2})
}

// Table builds a lookup of x (width<=8) in tbl (len 2^w or shorter; rest 0).
func (tc *TC) Table(x *Term, tbl []uint64, w int) *Term {
	n := 1 << uint(x.W)
	t := make([]uint64, n)
	copy(t, tbl)
	if x.Op == OConst {
		return tc.BV(w, t[x.C])
	}
	if x.Op == OTable {
		c := make([]uint64, x.Tbl.n())
		for i, v := range x.Tbl.all() {
			if v < uint64(n) {
				c[i] = t[v]
			}
		}
		return tc.Table(x.A[0], c, w)
	}
	if x.Op == OZExt {
		return tc.Table(x.A[0], t[:1<<uint(x.A[0].W)], w)
	}
	same := true
	ident := true
	for i := x.lo; i <= x.hi; i++ {
		if t[i] != t[x.lo] {
			same = false
		}
		if t[i] != i {
			ident = false
		}
	}
	if same {
		return tc.BV(w, t[x.lo])
	}
	if ident {
		if w >= x.W {
			return tc.ZExt(x, w)
		}
		return tc.Extract(x, w-1, 0)
	}
	for i := uint64(0); i < uint64(n); i++ { // canonicalise outside range
		if i < x.lo || i > x.hi {
			t[i] = 0
		}
	}
	// pick apart: is it a bit-extract of x?  e.g. table giving x>>4
	if s := tc.asShift(x, t, w); s != nil {
		return s
	}
	return tc.mk(&Term{Op: OTable, W: w, A: []*Term{x}, Tbl: tc.pack(t)})
}

func (tc *TC) asShift(x *Term, t []uint64, w int) *Term {
	if x.lo != 0 || x.hi != mask(x.W) {
		return nil
	}
	for lo := 0; lo < x.W; lo++ {
		for hi := x.W - 1; hi >= lo; hi-- {
			if hi-lo+1 > w || (lo == 0 && hi == x.W-1) {
				continue
			}
			ok := true
			for i := range t {
				if t[i] != uint64(i)>>uint(lo)&mask(hi-lo+1) {
					ok = false
					break
				}
			}
			if ok {
				return tc.ZExt(tc.Extract(x, hi, lo), w)
			}
		}
	}
	return nil
}

func (tc *TC) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return tc.Bool(a.C == 0)
	case OBNot:
		return a.A[0]
	case OInSet:
		s := a.Set
		for i := range s {
			s[i] = ^s[i]
		}
		n := uint64(1) << uint(a.A[0].W)
		for i := n; i < 256; i++ {
			s[i>>6] &^= 1 << (i & 63)
		}
		return tc.InSet(a.A[0], s)
	case OUlt:
		return tc.Ule(a.A[1], a.A[0])
	case OUle:
		return tc.Ult(a.A[1], a.A[0])
	case OSlt:
		return tc.Sle(a.A[1], a.A[0])
	case OSle:
		return tc.Slt(a.A[1], a.A[0])
	}
	return tc.mk(&Term{Op: OBNot, A: []*Term{a}})
}

func (tc *TC) AndN(xs ...*Term) *Term { return tc.nary(OBAnd, xs) }
func (tc *TC) OrN(xs ...*Term) *Term  { return tc.nary(OBOr, xs) }
func (tc *TC) Implies(a, b *Term) *Term {
	return tc.OrN(tc.Not(a), b)
}

func (tc *TC) nary(op Op, xs []*Term) *Term {
	var flat []*Term
	var unit, zero *Term
	if op == OBAnd {
		unit, zero = tc.True, tc.False
	} else {
		unit, zero = tc.False, tc.True
	}
	seen := map[int]bool{}
	var sets map[int]Set256
	var setOrder []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, a := range x.A {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if x.Op == OInSet {
			if sets == nil {
				sets = map[int]Set256{}
			}
			if s, ok := sets[x.A[0].ID]; ok {
				for i := range s {
					if op == OBAnd {
						s[i] &= x.Set[i]
					} else {
						s[i] |= x.Set[i]
					}
				}
				sets[x.A[0].ID] = s
			} else {
				sets[x.A[0].ID] = x.Set
				setOrder = append(setOrder, x.A[0])
			}
			return true
		}
		if !seen[x.ID] {
			seen[x.ID] = true
			flat = append(flat, x)
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, a := range setOrder {
		t := tc.InSet(a, sets[a.ID])
		if t == zero {
			return zero
		}
		if t == unit {
			continue
		}
		if !seen[t.ID] {
			seen[t.ID] = true
			flat = append(flat, t)
		}
	}
	for _, x := range flat {
		if x.Op == OBNot && seen[x.A[0].ID] {
			return zero
		}
		switch x.Op {
		case OUlt, OUle, OSlt, OSle:
			if n := tc.Not(x); seen[n.ID] {
				return zero
			}
		}
	}
	if len(flat) == 0 {
		return unit
	}
	if len(flat) == 1 {
		return flat[0]
	}
	// absorption: (a or (a and b)) = a ; (a and (a or b)) = a ; (a or (!a and b)) = a or b
	dual := OBOr
	if op == OBOr {
		dual = OBAnd
	}
	if len(flat) <= 8 {
		changed := false
		for i, x := range flat {
			if x.Op != dual {
				continue
			}
			var keep []*Term
			drop := false
			for _, a := range x.A {
				if seen[a.ID] {
					drop = true
					break
				}
				if n := tc.Not(a); seen[n.ID] {
					continue
				}
				keep = append(keep, a)
			}
			if drop {
				flat[i] = unit
				changed = true
			} else if len(keep) != len(x.A) {
				flat[i] = tc.nary(dual, keep)
				changed = true
			}
		}
		if changed {
			return tc.nary(op, flat)
		}
		// factor common conjuncts: (a&b)|(a&!b) = a
		if op == OBOr && len(flat) == 2 {
			if f := tc.factor(flat[0], flat[1]); f != nil {
				return f
			}
		}
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].ID < flat[j].ID })
	return tc.mk(&Term{Op: op, A: flat})
}

func conjs(t *Term) []*Term {
	if t.Op == OBAnd {
		return t.A
	}
	return []*Term{t}
}

func (tc *TC) factor(a, b *Term) *Term {
	ca, cb := conjs(a), conjs(b)
	in := map[int]bool{}
	for _, x := range ca {
		in[x.ID] = true
	}
	var com []*Term
	cm := map[int]bool{}
	for _, x := range cb {
		if in[x.ID] {
			com = append(com, x)
			cm[x.ID] = true
		}
	}
	if len(com) == 0 {
		return nil
	}
	var ra, rb []*Term
	for _, x := range ca {
		if !cm[x.ID] {
			ra = append(ra, x)
		}
	}
	for _, x := range cb {
		if !cm[x.ID] {
			rb = append(rb, x)
		}
	}
	rest := tc.OrN(tc.AndN(ra...), tc.AndN(rb...))
	return tc.AndN(append(com, rest)...)
}

// pieces decomposes a bitvector into a msb-first list of contiguous parts.
func pieces(t *Term, tc *TC) []*Term {
	switch t.Op {
	case OConcat:
		return t.A
	case OZExt:
		return append([]*Term{tc.BV(t.W-t.A[0].W, 0)}, pieces(t.A[0], tc)...)
	}
	return []*Term{t}
}

func (tc *TC) Concat(xs ...*Term) *Term {
	var fl []*Term
	for _, x := range xs {
		if x.W == 0 {
			panic("concat bool")
		}
		for _, p := range pieces(x, tc) {
			if len(fl) > 0 {
				l := fl[len(fl)-1]
				if l.Op == OConst && p.Op == OConst {
					v := new(big.Int).Lsh(l.BigVal(), uint(p.W))
					v.Or(v, p.BigVal())
					fl[len(fl)-1] = tc.BVBig(l.W+p.W, v)
					continue
				}
				if l.Op == OExtract && p.Op == OExtract && l.A[0] == p.A[0] && int(l.C) == int(p.C)+p.W {
					fl[len(fl)-1] = tc.Extract(l.A[0], int(l.C)+l.W-1, int(p.C))
					continue
				}
			}
			fl = append(fl, p)
		}
	}
	if len(fl) == 1 {
		return fl[0]
	}
	w := 0
	for _, p := range fl {
		w += p.W
	}
	if len(fl) == 2 && fl[0].isZero() {
		return tc.ZExt(fl[1], w)
	}
	if fl[0].isZero() {
		return tc.ZExt(tc.Concat(fl[1:]...), w)
	}
	return tc.mk(&Term{Op: OConcat, W: w, A: fl})
}

func (tc *TC) ZExt(x *Term, w int) *Term {
	if w == x.W {
		return x
	}
	if w < x.W {
		panic("zext narrowing")
	}
	if x.Op == OConst {
		return tc.BVBig(w, x.BigVal())
	}
	if x.Op == OZExt {
		return tc.ZExt(x.A[0], w)
	}
	if x.Op == OIte && x.A[1].Op == OConst && x.A[2].Op == OConst {
		return tc.Ite(x.A[0], tc.ZExt(x.A[1], w), tc.ZExt(x.A[2], w))
	}
	if x.Op == OTable && w <= 64 {
		return tc.Table(x.A[0], x.Tbl.all(), w)
	}
	return tc.mk(&Term{Op: OZExt, W: w, A: []*Term{x}})
}

func (tc *TC) SExt(x *Term, w int) *Term {
	if w == x.W {
		return x
	}
	if x.W <= 64 && x.hi <= mask(x.W-1) {
		return tc.ZExt(x, w)
	}
	t := &Term{Op: OSExt, W: w, A: []*Term{x}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if x.Op == OIte && x.A[1].Op == OConst && x.A[2].Op == OConst {
		return tc.Ite(x.A[0], tc.SExt(x.A[1], w), tc.SExt(x.A[2], w))
	}
	if r := tc.lift(t); r != nil {
		return r
	}
	return tc.mk(t)
}

func (tc *TC) Extract(x *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == x.W {
		return x
	}
	if w <= 0 || hi >= x.W || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of w%d", hi, lo, x.W))
	}
	switch x.Op {
	case OConst:
		return tc.BVBig(w, new(big.Int).Rsh(x.BigVal(), uint(lo)))
	case OExtract:
		return tc.Extract(x.A[0], hi+int(x.C), lo+int(x.C))
	case OZExt:
		in := x.A[0]
		if lo >= in.W {
			return tc.BV(w, 0)
		}
		if hi < in.W {
			return tc.Extract(in, hi, lo)
		}
		return tc.ZExt(tc.Extract(in, in.W-1, lo), w)
	case OSExt:
		in := x.A[0]
		if hi < in.W {
			return tc.Extract(in, hi, lo)
		}
	case OConcat:
		var parts []*Term
		pos := x.W
		for _, p := range x.A {
			ph, pl := pos-1, pos-p.W
			pos = pl
			h, l := min(hi, ph), max(lo, pl)
			if h >= l {
				parts = append(parts, tc.Extract(p, h-pl, l-pl))
			}
		}
		return tc.Concat(parts...)
	case OIte:
		if x.A[1].Op == OConst || x.A[2].Op == OConst || x.A[1].Op == OConcat || x.A[1].Op == OZExt || x.A[2].Op == OConcat || x.A[2].Op == OZExt || x.A[1].Op == OIte || x.A[2].Op == OIte {
			return tc.Ite(x.A[0], tc.Extract(x.A[1], hi, lo), tc.Extract(x.A[2], hi, lo))
		}
	case OAnd, OOr, OXor:
		return tc.bitop(x.Op, tc.Extract(x.A[0], hi, lo), tc.Extract(x.A[1], hi, lo))
	case ONot:
		return tc.BVNot(tc.Extract(x.A[0], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 { // low bits depend only on low bits
			a, b := tc.Extract(x.A[0], hi, 0), tc.Extract(x.A[1], hi, 0)
			switch x.Op {
			case OAdd:
				return tc.Add(a, b)
			case OSub:
				return tc.Sub(a, b)
			default:
				return tc.Mul(a, b)
			}
		}
	case OTable:
		n := make([]uint64, x.Tbl.n())
		for i, v := range x.Tbl.all() {
			n[i] = v >> uint(lo) & mask(w)
		}
		return tc.Table(x.A[0], n, w)
	case OURem, OUDiv, OLShr:
	}
	if x.W <= 64 && lo >= bits.Len64(x.hi) {
		return tc.BV(w, 0)
	}
	t := &Term{Op: OExtract, W: w, A: []*Term{x}, C: uint64(lo)}
	if x.atom != nil && x != x.atom && x.W <= 64 {
		if r := tc.lift(t); r != nil {
			return r
		}
	}
	return tc.mk(t)
}

// Resize truncates or extends.
func (tc *TC) Resize(x *Term, w int, signed bool) *Term {
	if w == x.W {
		return x
	}
	if w < x.W {
		return tc.Extract(x, w-1, 0)
	}
	if signed {
		return tc.SExt(x, w)
	}
	return tc.ZExt(x, w)
}

func (tc *TC) BVNot(a *Term) *Term {
	t := &Term{Op: ONot, W: a.W, A: []*Term{a}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if a.Op == ONot {
		return a.A[0]
	}
	if a.Op == OXorN {
		return tc.XorBits(a, tc.BV(1, 1))
	}
	if hasXorN(a) {
		ps := pieces(a, tc)
		out := make([]*Term, len(ps))
		for i, p := range ps {
			out[i] = tc.BVNot(p)
		}
		return tc.Concat(out...)
	}
	if r := tc.lift(t); r != nil {
		return r
	}
	return tc.mk(t)
}

func (tc *TC) And(a, b *Term) *Term { return tc.bitop(OAnd, a, b) }
func (tc *TC) Or(a, b *Term) *Term  { return tc.bitop(OOr, a, b) }
func (tc *TC) Xor(a, b *Term) *Term { return tc.bitop(OXor, a, b) }

// alignPieces splits both terms at common boundaries; returns nil if neither has structure.
func (tc *TC) alignPieces(a, b *Term) ([]*Term, []*Term) {
	pa, pb := pieces(a, tc), pieces(b, tc)
	if len(pa) == 1 && len(pb) == 1 {
		return nil, nil
	}
	cuts := map[int]bool{}
	pos := 0
	for _, p := range pa {
		pos += p.W
		cuts[pos] = true
	}
	pos = 0
	for _, p := range pb {
		pos += p.W
		cuts[pos] = true
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	var ra, rb []*Term
	prev := 0
	for _, c := range cs {
		hi, lo := a.W-1-prev, a.W-c
		ra = append(ra, tc.Extract(a, hi, lo))
		rb = append(rb, tc.Extract(b, hi, lo))
		prev = c
	}
	return ra, rb
}

func (tc *TC) bitop(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("bitop width %d %d", a.W, b.W))
	}
	t := &Term{Op: op, W: a.W, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a == b {
		if op == OXor {
			return tc.BV(a.W, 0)
		}
		return a
	}
	if op == OXor && a.W == 1 {
		return tc.XorBits(a, b)
	}
	if b.Op == OConst {
		switch op {
		case OAnd:
			if b.isZero() {
				return b
			}
			if b.isOnes() {
				return a
			}
			if a.W <= 64 {
				// mask no-op?
				if (^b.C&mask(a.W))&^a.kz == 0 {
					return a
				}
				// contiguous mask -> extract+pad
				c := b.C
				lo := bits.TrailingZeros64(c)
				if (c>>uint(lo))&(c>>uint(lo)+1) == 0 {
					n := bits.OnesCount64(c)
					e := tc.Extract(a, lo+n-1, lo)
					if lo > 0 {
						e = tc.Concat(e, tc.BV(lo, 0))
					}
					return tc.ZExt(e, a.W)
				}
			}
		case OOr:
			if b.isZero() {
				return a
			}
			if b.isOnes() {
				return b
			}
		case OXor:
			if b.isZero() {
				return a
			}
			if b.isOnes() {
				return tc.BVNot(a)
			}
		}
	}
	if op == OXor && (hasXorN(a) || hasXorN(b)) {
		if ra, rb := tc.alignPieces(a, b); ra != nil {
			out := make([]*Term, len(ra))
			for i := range ra {
				out[i] = tc.bitop(op, ra[i], rb[i])
			}
			return tc.Concat(out...)
		}
	}
	// disjoint pieces
	if ra, rb := tc.alignPieces(a, b); ra != nil {
		ok := true
		for i := range ra {
			if !(ra[i].Op == OConst || rb[i].Op == OConst) {
				ok = false
				break
			}
			k := ra[i]
			if rb[i].Op == OConst {
				k = rb[i]
			}
			if !k.isZero() && !k.isOnes() && !(ra[i].Op == OConst && rb[i].Op == OConst) {
				ok = false
				break
			}
		}
		if ok {
			out := make([]*Term, len(ra))
			for i := range ra {
				out[i] = tc.bitop(op, ra[i], rb[i])
			}
			return tc.Concat(out...)
		}
	}
	if b.Op == OConst && a.Op == OIte && (a.A[1].Op == OConst || a.A[2].Op == OConst) {
		return tc.Ite(a.A[0], tc.bitop(op, a.A[1], b), tc.bitop(op, a.A[2], b))
	}
	if r := tc.lift(&Term{Op: op, W: a.W, A: []*Term{a, b}}); r != nil {
		return r
	}
	// narrow when high bits known zero
	if a.W <= 64 && op != OAnd {
		n := max(bits.Len64(a.hi), bits.Len64(b.hi))
		if n < a.W && n > 0 {
			return tc.ZExt(tc.bitop(op, tc.Extract(a, n-1, 0), tc.Extract(b, n-1, 0)), a.W)
		}
	}
	if op == OXor || op == OAnd || op == OOr {
		// reassociate constants: (x op c1) op c2
		if b.Op == OConst && a.Op == op && a.A[1].Op == OConst {
			return tc.bitop(op, a.A[0], tc.bitop(op, a.A[1], b))
		}
		if op == OXor { // x ^ (x ^ y)
			if a.Op == OXor {
				if a.A[0] == b {
					return a.A[1]
				}
				if a.A[1] == b {
					return a.A[0]
				}
			}
			if b.Op == OXor {
				if b.A[0] == a {
					return b.A[1]
				}
				if b.A[1] == a {
					return b.A[0]
				}
			}
		}
	}
	if b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return tc.mk(&Term{Op: op, W: a.W, A: []*Term{a, b}})
}

func (tc *TC) Add(a, b *Term) *Term {
	t := &Term{Op: OAdd, W: a.W, A: []*Term{a, b}}
	if a.W != b.W {
		panic("add width")
	}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if a.isZero() {
		return b
	}
	if b.Op == OConst {
		if a.Op == OAdd && a.A[1].Op == OConst {
			return tc.Add(a.A[0], tc.Add(a.A[1], b))
		}
		if a.Op == OSub && a.A[1].Op == OConst {
			return tc.Add(a.A[0], tc.Sub(b, a.A[1]))
		}
		if a.Op == OIte && (a.A[1].Op == OConst || a.A[2].Op == OConst) {
			return tc.Ite(a.A[0], tc.Add(a.A[1], b), tc.Add(a.A[2], b))
		}
	}
	// (x - y) + y
	if a.Op == OSub && a.A[1] == b {
		return a.A[0]
	}
	if b.Op == OSub && b.A[1] == a {
		return b.A[0]
	}
	if a.W <= 64 && a.kz|b.kz == mask(a.W) {
		return tc.Or(a, b)
	}
	if r := tc.lift(&Term{Op: OAdd, W: a.W, A: []*Term{a, b}}); r != nil {
		return r
	}
	if a.W <= 64 {
		s, c := bits.Add64(a.hi, b.hi, 0)
		if c == 0 {
			n := bits.Len64(s)
			if n < a.W && n > 0 {
				return tc.ZExt(tc.Add(tc.Extract(a, n-1, 0), tc.Extract(b, n-1, 0)), a.W)
			}
		}
	}
	if b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return tc.mk(&Term{Op: OAdd, W: a.W, A: []*Term{a, b}})
}

func (tc *TC) Neg(a *Term) *Term { return tc.Sub(tc.BV(a.W, 0), a) }

func (tc *TC) Sub(a, b *Term) *Term {
	t := &Term{Op: OSub, W: a.W, A: []*Term{a, b}}
	if a.W != b.W {
		panic("sub width")
	}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if a == b {
		return tc.BV(a.W, 0)
	}
	if b.isZero() {
		return a
	}
	if b.Op == OConst && a.W <= 64 {
		if a.lo >= b.C { // keep as sub, non-wrapping range known
			if a.Op == OAdd && a.A[1].Op == OConst && a.A[0].lo+a.A[1].C == a.lo && a.A[1].C >= b.C {
				return tc.Add(a.A[0], tc.BV(a.W, a.A[1].C-b.C))
			}
			if r := tc.lift(t); r != nil {
				return r
			}
			n := bits.Len64(a.hi)
			if n < a.W && n > 0 {
				return tc.ZExt(tc.Sub(tc.Extract(a, n-1, 0), tc.Extract(b, n-1, 0)), a.W)
			}
			return tc.mk(t)
		}
		return tc.Add(a, tc.BV(a.W, -b.C))
	}
	if a.Op == OAdd {
		if a.A[0] == b {
			return a.A[1]
		}
		if a.A[1] == b {
			return a.A[0]
		}
	}
	if a.Op == OConst && b.Op == OIte && (b.A[1].Op == OConst || b.A[2].Op == OConst) {
		return tc.Ite(b.A[0], tc.Sub(a, b.A[1]), tc.Sub(a, b.A[2]))
	}
	// a - (a - x) = x
	if b.Op == OSub && b.A[0] == a {
		return b.A[1]
	}
	if r := tc.lift(t); r != nil {
		return r
	}
	if a.W <= 64 && a.lo >= b.hi {
		n := bits.Len64(a.hi)
		if n < a.W && n > 0 {
			return tc.ZExt(tc.Sub(tc.Extract(a, n-1, 0), tc.Extract(b, n-1, 0)), a.W)
		}
	}
	return tc.mk(t)
}

func (tc *TC) Mul(a, b *Term) *Term {
	t := &Term{Op: OMul, W: a.W, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if b.isZero() {
			return b
		}
		bv := b.BigVal()
		if tz := bv.TrailingZeroBits(); bv.BitLen() == int(tz)+1 {
			return tc.Shl(a, tc.BV(a.W, uint64(tz)))
		}
	}
	if r := tc.lift(&Term{Op: OMul, W: a.W, A: []*Term{a, b}}); r != nil {
		return r
	}
	if a.W <= 64 {
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 {
			n := bits.Len64(l)
			if n < a.W && n > 0 {
				return tc.ZExt(tc.Mul(tc.Extract(a, n-1, 0), tc.Extract(b, n-1, 0)), a.W)
			}
		}
	}
	if b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return tc.mk(&Term{Op: OMul, W: a.W, A: []*Term{a, b}})
}

func (tc *TC) UDiv(a, b *Term) *Term { return tc.divrem(OUDiv, a, b) }
func (tc *TC) URem(a, b *Term) *Term { return tc.divrem(OURem, a, b) }

func (tc *TC) divrem(op Op, a, b *Term) *Term {
	t := &Term{Op: op, W: a.W, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if b.Op == OConst && !b.isZero() {
		bv := b.BigVal()
		if tz := int(bv.TrailingZeroBits()); bv.BitLen() == tz+1 {
			if op == OUDiv {
				if tz == 0 {
					return a
				}
				return tc.ZExt(tc.Extract(a, a.W-1, tz), a.W)
			}
			if tz == 0 {
				return tc.BV(a.W, 0)
			}
			return tc.ZExt(tc.Extract(a, tz-1, 0), a.W)
		}
		if a.W <= 64 && a.hi < b.C {
			if op == OUDiv {
				return tc.BV(a.W, 0)
			}
			return a
		}
	}
	if r := tc.lift(t); r != nil {
		return r
	}
	if a.W <= 64 && b.lo > 0 {
		n := max(bits.Len64(a.hi), bits.Len64(b.hi))
		if n < a.W {
			return tc.ZExt(tc.divrem(op, tc.Extract(a, n-1, 0), tc.Extract(b, n-1, 0)), a.W)
		}
	} else if a.W > 64 && b.Op == OConst && a.Op == OZExt {
		n := max(a.A[0].W, b.BigVal().BitLen())
		if n < a.W {
			return tc.ZExt(tc.divrem(op, tc.Extract(a, n-1, 0), tc.Extract(b, n-1, 0)), a.W)
		}
	}
	return tc.mk(t)
}

func (tc *TC) SDiv(a, b *Term) *Term { return tc.sdivrem(OSDiv, OUDiv, a, b) }
func (tc *TC) SRem(a, b *Term) *Term { return tc.sdivrem(OSRem, OURem, a, b) }
func (tc *TC) sdivrem(sop, uop Op, a, b *Term) *Term {
	if a.W <= 64 && a.hi <= mask(a.W-1) && b.hi <= mask(b.W-1) {
		return tc.divrem(uop, a, b)
	}
	t := &Term{Op: sop, W: a.W, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if r := tc.lift(t); r != nil {
		return r
	}
	return tc.mk(t)
}

func (tc *TC) Shl(a, b *Term) *Term {
	t := &Term{Op: OShl, W: a.W, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if b.Op == OConst {
		bv := b.BigVal()
		if !bv.IsUint64() || bv.Uint64() >= uint64(a.W) {
			return tc.BV(a.W, 0)
		}
		s := int(bv.Uint64())
		if s == 0 {
			return a
		}
		return tc.Concat(tc.Extract(a, a.W-1-s, 0), tc.BV(s, 0))
	}
	if r := tc.lift(t); r != nil {
		return r
	}
	return tc.mk(t)
}

func (tc *TC) LShr(a, b *Term) *Term {
	t := &Term{Op: OLShr, W: a.W, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if b.Op == OConst {
		bv := b.BigVal()
		if !bv.IsUint64() || bv.Uint64() >= uint64(a.W) {
			return tc.BV(a.W, 0)
		}
		s := int(bv.Uint64())
		if s == 0 {
			return a
		}
		return tc.ZExt(tc.Extract(a, a.W-1, s), a.W)
	}
	if r := tc.lift(t); r != nil {
		return r
	}
	return tc.mk(t)
}

func (tc *TC) AShr(a, b *Term) *Term {
	if a.W <= 64 && a.hi <= mask(a.W-1) {
		return tc.LShr(a, b)
	}
	t := &Term{Op: OAShr, W: a.W, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if b.Op == OConst {
		bv := b.BigVal()
		s := a.W - 1
		if bv.IsUint64() && bv.Uint64() < uint64(a.W) {
			s = int(bv.Uint64())
		}
		if s == 0 {
			return a
		}
		return tc.SExt(tc.Extract(a, a.W-1, s), a.W)
	}
	if r := tc.lift(t); r != nil {
		return r
	}
	return tc.mk(t)
}

func (tc *TC) Eq(a, b *Term) *Term {
	if a == b {
		return tc.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	t := &Term{Op: OEq, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a.W == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tc.Not(a)
		}
		if tc.Not(a) == b {
			return tc.False
		}
		if r := tc.lift(&Term{Op: OEq, A: []*Term{a, b}}); r != nil {
			return r
		}
		return tc.OrN(tc.AndN(a, b), tc.AndN(tc.Not(a), tc.Not(b)))
	}
	if a.W <= 64 && (a.hi < b.lo || b.hi < a.lo) {
		return tc.False
	}
	// x == x ^ y  <=>  y == 0
	for i := 0; i < 2; i++ {
		u, w := a, b
		if i == 1 {
			u, w = b, a
		}
		if w.Op == OXor && u.W > 1 {
			if w.A[0] == u {
				return tc.Eq(w.A[1], tc.BV(u.W, 0))
			}
			if w.A[1] == u {
				return tc.Eq(w.A[0], tc.BV(u.W, 0))
			}
		}
	}
	if a.W <= 64 && b.Op == OConst && b.C&a.kz != 0 {
		return tc.False
	}
	if b.Op == OConst {
		switch a.Op {
		case OIte:
			if a.A[1].Op == OConst || a.A[2].Op == OConst || a.A[1].Op == OIte || a.A[2].Op == OIte {
				return tc.Ite(a.A[0], tc.Eq(a.A[1], b), tc.Eq(a.A[2], b))
			}
		case OAdd:
			if a.A[1].Op == OConst {
				return tc.Eq(a.A[0], tc.Sub(b, a.A[1]))
			}
		case OSub:
			if a.A[1].Op == OConst {
				return tc.Eq(a.A[0], tc.Add(b, a.A[1]))
			}
		case OXor:
			if a.A[1].Op == OConst {
				return tc.Eq(a.A[0], tc.Xor(b, a.A[1]))
			}
		case ONot:
			return tc.Eq(a.A[0], tc.BVNot(b))
		case OTable:
			var set Set256
			for i := a.A[0].lo; i <= a.A[0].hi; i++ {
				if a.Tbl.at(int(i)) == b.C {
					set.add(i)
				}
			}
			return tc.InSet(a.A[0], set)
		case OXorN:
			if a.C == 1 {
				return tc.Eq(tc.XorBits(a, tc.BV(1, 1)), tc.BV(1, b.C^1))
			}
		}
	}
	if a.W == 1 && b.Op != OConst && (a.Op == OXorN || b.Op == OXorN) {
		return tc.Eq(tc.XorBits(a, b), tc.BV(1, 0))
	}
	if r := tc.lift(&Term{Op: OEq, A: []*Term{a, b}}); r != nil {
		return r
	}
	if ra, rb := tc.alignPieces(a, b); ra != nil {
		out := make([]*Term, len(ra))
		for i := range ra {
			out[i] = tc.Eq(ra[i], rb[i])
		}
		return tc.AndN(out...)
	}
	if a.Op == OIte && b.Op == OIte && a.A[0] == b.A[0] {
		return tc.Ite(a.A[0], tc.Eq(a.A[1], b.A[1]), tc.Eq(a.A[2], b.A[2]))
	}
	if a.Op == OIte && (a.A[1] == b || a.A[2] == b) {
		return tc.Ite(a.A[0], tc.Eq(a.A[1], b), tc.Eq(a.A[2], b))
	}
	if b.Op == OIte && (b.A[1] == a || b.A[2] == a) {
		return tc.Ite(b.A[0], tc.Eq(b.A[1], a), tc.Eq(b.A[2], a))
	}
	if b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return tc.mk(&Term{Op: OEq, A: []*Term{a, b}})
}

func (tc *TC) Ne(a, b *Term) *Term { return tc.Not(tc.Eq(a, b)) }

func (tc *TC) Ult(a, b *Term) *Term {
	if a == b {
		return tc.False
	}
	t := &Term{Op: OUlt, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if a.W <= 64 {
		if a.hi < b.lo {
			return tc.True
		}
		if a.lo >= b.hi {
			return tc.False
		}
	}
	if b.isZero() {
		return tc.False
	}
	if a.isZero() {
		return tc.Ne(b, a)
	}
	if b.Op == OConst && b.BigVal().Cmp(big.NewInt(1)) == 0 {
		return tc.Eq(a, tc.BV(a.W, 0))
	}
	return tc.cmp(OUlt, a, b)
}

func (tc *TC) Ule(a, b *Term) *Term {
	if a == b {
		return tc.True
	}
	t := &Term{Op: OUle, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if a.W <= 64 {
		if a.hi <= b.lo {
			return tc.True
		}
		if a.lo > b.hi {
			return tc.False
		}
	}
	if a.isZero() || b.isOnes() {
		return tc.True
	}
	if b.isZero() {
		return tc.Eq(a, b)
	}
	return tc.cmp(OUle, a, b)
}

func (tc *TC) cmp(op Op, a, b *Term) *Term {
	t := &Term{Op: op, A: []*Term{a, b}}
	if b.Op == OConst && a.Op == OIte && (a.A[1].Op == OConst || a.A[2].Op == OConst || a.A[1].Op == OIte || a.A[2].Op == OIte) {
		return tc.Ite(a.A[0], tc.cmpAny(op, a.A[1], b), tc.cmpAny(op, a.A[2], b))
	}
	if a.Op == OConst && b.Op == OIte && (b.A[1].Op == OConst || b.A[2].Op == OConst || b.A[1].Op == OIte || b.A[2].Op == OIte) {
		return tc.Ite(b.A[0], tc.cmpAny(op, a, b.A[1]), tc.cmpAny(op, a, b.A[2]))
	}
	if r := tc.lift(t); r != nil {
		return r
	}
	if op == OUlt || op == OUle {
		if a.W <= 64 {
			n := max(bits.Len64(a.hi), bits.Len64(b.hi))
			if n < a.W && n > 0 {
				return tc.cmpAny(op, tc.Extract(a, n-1, 0), tc.Extract(b, n-1, 0))
			}
		} else if (a.Op == OZExt || a.Op == OConst) && (b.Op == OZExt || b.Op == OConst) {
			eff := func(x *Term) int {
				if x.Op == OConst {
					return x.BigVal().BitLen()
				}
				return x.A[0].W
			}
			n := max(eff(a), eff(b))
			if n < a.W && n > 0 {
				return tc.cmpAny(op, tc.Extract(a, n-1, 0), tc.Extract(b, n-1, 0))
			}
		}
	}
	return tc.mk(t)
}

func (tc *TC) cmpAny(op Op, a, b *Term) *Term {
	switch op {
	case OUlt:
		return tc.Ult(a, b)
	case OUle:
		return tc.Ule(a, b)
	case OSlt:
		return tc.Slt(a, b)
	}
	return tc.Sle(a, b)
}

func (tc *TC) Slt(a, b *Term) *Term { return tc.scmp(OSlt, OUlt, a, b) }
func (tc *TC) Sle(a, b *Term) *Term { return tc.scmp(OSle, OUle, a, b) }
func (tc *TC) scmp(sop, uop Op, a, b *Term) *Term {
	if a == b {
		return tc.Bool(sop == OSle)
	}
	t := &Term{Op: sop, A: []*Term{a, b}}
	if c := tc.constFold(t); c != nil {
		return c
	}
	if a.W <= 64 {
		sm := mask(a.W - 1)
		an, bn := a.hi <= sm, b.hi <= sm // non-negative
		ag, bg := a.lo > sm, b.lo > sm   // negative
		if (an && bn) || (ag && bg) {
			return tc.cmpAny(uop, a, b)
		}
		if an && bg {
			return tc.False
		}
		if ag && bn {
			return tc.True
		}
		if bn && b.Op == OConst {
			// a <s b : a negative or a <u b
			if a.Op != OIte && a.atom == nil {
				neg := tc.Eq(tc.Extract(a, a.W-1, a.W-1), tc.BV(1, 1))
				return tc.OrN(neg, tc.cmpAny(uop, a, b))
			}
		}
	}
	return tc.cmp(sop, a, b)
}

func (tc *TC) Ite(c, a, b *Term) *Term {
	if c.Op == OConst {
		if c.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W != b.W {
		panic(fmt.Sprintf("ite width %d %d", a.W, b.W))
	}
	if c.Op == OBNot {
		return tc.Ite(c.A[0], b, a)
	}
	if a.W == 0 {
		if a.isTrue() {
			return tc.OrN(c, b)
		}
		if a.isFalse() {
			return tc.AndN(tc.Not(c), b)
		}
		if b.isTrue() {
			return tc.OrN(tc.Not(c), a)
		}
		if b.isFalse() {
			return tc.AndN(c, a)
		}
		return tc.AndN(tc.OrN(tc.Not(c), a), tc.OrN(c, b))
	}
	if r := tc.lift(&Term{Op: OIte, W: a.W, A: []*Term{c, a, b}}); r != nil {
		return r
	}
	if r := tc.xorIte(c, a, b); r != nil {
		return r
	}
	if a.Op == OIte && a.A[0] == c {
		return tc.Ite(c, a.A[1], b)
	}
	if b.Op == OIte && b.A[0] == c {
		return tc.Ite(c, a, b.A[2])
	}
	if a.Op == OIte && a.A[2] == b { // ite(c, ite(d,x,y), y) = ite(c&d, x, y)
		return tc.Ite(tc.AndN(c, a.A[0]), a.A[1], b)
	}
	if b.Op == OIte && b.A[1] == a { // ite(c, x, ite(d,x,y)) = ite(c|d, x, y)
		return tc.Ite(tc.OrN(c, b.A[0]), a, b.A[2])
	}
	// piecewise for zero-extended / concat with shared structure
	if (a.Op == OConcat || a.Op == OZExt) && (b.Op == OConcat || b.Op == OZExt || b.Op == OConst) || (b.Op == OConcat || b.Op == OZExt) && a.Op == OConst {
		if ra, rb := tc.alignPieces(a, b); ra != nil {
			same := false
			for i := range ra {
				if ra[i] == rb[i] {
					same = true
				}
			}
			if same {
				out := make([]*Term, len(ra))
				for i := range ra {
					out[i] = tc.Ite(c, ra[i], rb[i])
				}
				return tc.Concat(out...)
			}
		}
	}
	return tc.mk(&Term{Op: OIte, W: a.W, A: []*Term{c, a, b}})
}

func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.C == 1 {
				return "true"
			}
			return "false"
		}
		return t.BigVal().String()
	case OVar:
		return t.Name
	}
	if d == 0 {
		return "..."
	}
	var as []string
	for _, a := range t.A {
		as = append(as, a.str(d-1))
	}
	n := opNames[t.Op]
	switch t.Op {
	case OExtract:
		n = fmt.Sprintf("ex[%d:%d]", int(t.C)+t.W-1, t.C)
	case OZExt:
		n = fmt.Sprintf("zx%d", t.W)
	case OSExt:
		n = fmt.Sprintf("sx%d", t.W)
	case OTable:
		n = "tbl"
	case OInSet:
		n = "inset"
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

func (m *Model) nAx() int { return m.axSeen }
func (tc *TC) size() int  { return tc.terms }
