package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type FloatV float64

// StrV is a string with concrete length; b holds the bytes when symbolic.
type StrV struct {
	s   string
	b   []*Term
	sym bool
	tok *Token // opaque token string (ideal base58 text)
}

// Token marks a string as the ideal text encoding of some bytes.
type Token struct {
	kind string
	data []*Term
}

type Ptr struct {
	obj  int
	path []int
	sidx *Term // symbolic index into the array at path (element pointer)
	sn   int   // number of elements addressable
	soff int   // offset of symbolic index
}

type SliceV struct {
	obj           int
	path          []int
	off, len, cap int
}

type StructV struct{ f []Value }
type ArrV struct{ e []Value }
type TupleV []Value

type IfaceV struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	intr string // intrinsic method value
	recv Value
}

type BuiltinV struct{ name string }

type MapV struct{ obj int }

type MapObj struct {
	keys []Value
	vals []Value
}

type BigV struct {
	neg *Term
	mag *Term
}

type ErrV struct{ id *Term }

type Poison struct{ why string }

type OpaqueV struct {
	kind string
	data []Value
}

// RangeIter iterates strings and maps.
type RangeIter struct {
	str  *StrV
	m    *MapObj
	mobj int
	pos  int
}

type opaqueErrT struct{}

func (opaqueErrT) Underlying() types.Type { return opaqueErrT{} }
func (opaqueErrT) String() string         { return "opaqueError" }

var opaqueErrType types.Type = opaqueErrT{}

type Obj struct {
	owner int64
	v     Value
	typ   string
}

type PC struct {
	cond   *Term
	parent *PC
	depth  int
	known  *knownVar
}

type State struct {
	id    int64
	heap  map[int]*Obj
	pc    *PC
	model *Model

	scope     string  // prefix of the input names, see sym.Scope
	panicking *string // set while deferred calls run during a panic
}

func (x *Exec) newState() *State {
	x.nextState++
	return &State{id: x.nextState, heap: map[int]*Obj{}}
}

func (x *Exec) forkState(st *State) *State {
	x.nextState += 2
	h := make(map[int]*Obj, len(st.heap)+8)
	for k, v := range st.heap {
		h[k] = v
	}
	n := &State{id: x.nextState, heap: h, pc: st.pc, model: st.model, panicking: st.panicking, scope: st.scope}
	st.id = x.nextState - 1
	return n
}

func (st *State) assume(c *Term) {
	if c.isTrue() {
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	var kn *knownVar
	if st.pc != nil {
		kn = st.pc.known
	}
	st.pc = &PC{cond: c, parent: st.pc, depth: d, known: kn}
	st.learn(c)
}

// knownVar is a persistent list of variables the path condition pins to one value.
type knownVar struct {
	v      int
	val    uint64
	parent *knownVar
}

func (st *State) lookupKnown(v int) (uint64, bool) {
	for k := st.pc.known; k != nil; k = k.parent {
		if k.v == v {
			return k.val, true
		}
	}
	return 0, false
}

func (st *State) learn(c *Term) {
	switch {
	case c.Op == OBAnd:
		for _, a := range c.A {
			st.learn(a)
		}
	case c.Op == OInSet && c.A[0].Op == OVar:
		v := c.A[0]
		set := c.Set
		if set.count() != 1 {
			for p := st.pc; p != nil; p = p.parent {
				if p.cond.Op == OInSet && p.cond.A[0] == v {
					for i := range set {
						set[i] &= p.cond.Set[i]
					}
				}
			}
		}
		if set.count() == 1 {
			st.pc.known = &knownVar{int(v.C), set.first(), st.pc.known}
		}
	case c.Op == OEq && c.A[0].Op == OVar && c.A[1].Op == OConst && c.A[0].W <= 64 && c.A[0].W > 0:
		st.pc.known = &knownVar{int(c.A[0].C), c.A[1].C, st.pc.known}
	case c.Op == OEq && c.A[1].Op == OVar && c.A[0].Op == OConst && c.A[1].W <= 64 && c.A[1].W > 0:
		st.pc.known = &knownVar{int(c.A[1].C), c.A[0].C, st.pc.known}
	}
}

// pin evaluates t when every variable in it is pinned by the path condition.
func (x *Exec) pin(st *State, t *Term) *Term {
	if st.pc == nil || st.pc.known == nil || t.Op == OConst || t.W > 64 {
		return t
	}
	sup := t.Support()
	if len(sup) == 0 || len(sup) > 8 {
		return t
	}
	m := NewModel()
	for _, v := range sup {
		val, ok := st.lookupKnown(v)
		if !ok {
			return t
		}
		m.v[v] = new(big.Int).SetUint64(val)
	}
	r := m.Eval64(t)
	if t.W == 0 {
		if r == 1 {
			return x.tc.True
		}
		return x.tc.False
	}
	return x.tc.BV(t.W, r)
}

func (p *PC) list() []*Term {
	var r []*Term
	for ; p != nil; p = p.parent {
		if p.cond.Op == OBAnd {
			r = append(r, p.cond.A...)
		} else {
			r = append(r, p.cond)
		}
	}
	return r
}

// deepCopy copies aggregate values (so that in-place mutation is safe).
func deepCopy(v Value) Value {
	switch a := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(a.f))}
		for i, e := range a.f {
			switch e.(type) {
			case *StructV, *ArrV:
				n.f[i] = deepCopy(e)
			default:
				n.f[i] = e
			}
		}
		return n
	case *ArrV:
		n := &ArrV{e: make([]Value, len(a.e))}
		if len(a.e) > 0 {
			switch a.e[0].(type) {
			case *StructV, *ArrV:
				for i, e := range a.e {
					n.e[i] = deepCopy(e)
				}
			default:
				copy(n.e, a.e)
			}
		}
		return n
	case *MapObj:
		return &MapObj{keys: append([]Value{}, a.keys...), vals: append([]Value{}, a.vals...)}
	}
	return v
}

func (x *Exec) alloc(st *State, v Value) int {
	x.nextObj++
	id := x.nextObj
	if x.initMode {
		x.base[id] = &Obj{v: v}
		return id
	}
	st.heap[id] = &Obj{owner: st.id, v: v}
	return id
}

func (x *Exec) obj(st *State, id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if o, ok := x.base[id]; ok {
		return o
	}
	panic(unsupported(fmt.Sprintf("dangling object %d", id)))
}

func (x *Exec) objW(st *State, id int) *Obj {
	if x.initMode {
		if o, ok := x.base[id]; ok {
			return o
		}
	}
	o := x.obj(st, id)
	if o.owner == st.id {
		if _, ok := st.heap[id]; ok {
			return o
		}
	}
	n := &Obj{owner: st.id, v: deepCopy(o.v)}
	st.heap[id] = n
	return n
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

func walk(v Value, path []int) Value {
	for _, p := range path {
		switch a := v.(type) {
		case *StructV:
			v = a.f[p]
		case *ArrV:
			v = a.e[p]
		default:
			panic(unsupported(fmt.Sprintf("walk into %T", v)))
		}
	}
	return v
}

func (x *Exec) load(st *State, p Ptr) Value {
	if p.obj == 0 {
		panic("load nil")
	}
	v := walk(x.obj(st, p.obj).v, p.path)
	if p.sidx != nil {
		arr := v.(*ArrV)
		return x.selectElem(arr.e[p.soff:p.soff+p.sn], p.sidx)
	}
	switch v.(type) {
	case *StructV, *ArrV:
		return deepCopy(v)
	}
	return v
}

func (x *Exec) store(st *State, p Ptr, nv Value) {
	if p.obj == 0 {
		panic("store nil")
	}
	switch nv.(type) {
	case *StructV, *ArrV:
		nv = deepCopy(nv)
	}
	o := x.objW(st, p.obj)
	if p.sidx != nil {
		arr := walk(o.v, p.path).(*ArrV)
		for i := 0; i < p.sn; i++ {
			c := x.tc.Eq(p.sidx, x.tc.BV(p.sidx.W, uint64(i)))
			if c.isFalse() {
				continue
			}
			m, ok := x.iteVal(c, nv, arr.e[p.soff+i])
			if !ok {
				panic(unsupported("symbolic-index store of non-scalar"))
			}
			arr.e[p.soff+i] = m
		}
		return
	}
	if len(p.path) == 0 {
		o.v = nv
		return
	}
	c := walk(o.v, p.path[:len(p.path)-1])
	l := p.path[len(p.path)-1]
	switch a := c.(type) {
	case *StructV:
		a.f[l] = nv
	case *ArrV:
		a.e[l] = nv
	default:
		panic(unsupported(fmt.Sprintf("store into %T", c)))
	}
}

// selectElem reads elems[idx] for symbolic in-range idx.
func (x *Exec) selectElem(el []Value, idx *Term) Value {
	tc := x.tc
	if len(el) == 0 {
		panic(unsupported("select from empty"))
	}
	if idx.Op == OConst {
		return el[idx.C]
	}
	allConst := true
	w := -1
	for _, e := range el {
		t, ok := e.(*Term)
		if !ok {
			allConst = false
			w = -1
			break
		}
		w = t.W
		if t.Op != OConst {
			allConst = false
		}
	}
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(el)) {
		hi = uint64(len(el)) - 1
	}
	if allConst && w > 0 && w <= 64 && len(el) <= 256 {
		n := 1
		for 1<<uint(n) < len(el) {
			n++
		}
		if n > idx.W {
			n = idx.W
		}
		tb := make([]uint64, 1<<uint(n))
		for i, e := range el {
			if i < len(tb) {
				tb[i] = e.(*Term).C
			}
		}
		// pad with last
		for i := len(el); i < len(tb); i++ {
			tb[i] = el[len(el)-1].(*Term).C
		}
		return tc.Table(tc.Extract(idx, n-1, 0), tb, w)
	}
	if allConst && w == 0 && len(el) <= 256 {
		var s Set256
		for i, e := range el {
			if e.(*Term).C == 1 {
				s.add(uint64(i))
			}
		}
		n := min(8, idx.W)
		return tc.InSet(tc.Extract(idx, n-1, 0), s)
	}
	var r Value = el[hi]
	for i := int(hi) - 1; i >= int(lo); i-- {
		c := tc.Eq(idx, tc.BV(idx.W, uint64(i)))
		m, ok := x.iteVal(c, el[i], r)
		if !ok {
			panic(unsupported("symbolic-index read of non-mergeable elements"))
		}
		r = m
	}
	return r
}

// iteVal merges values without touching the heap (no object pairing).
func (x *Exec) iteVal(c *Term, a, b Value) (Value, bool) {
	if c.isTrue() {
		return a, true
	}
	if c.isFalse() {
		return b, true
	}
	m := &merger{x: x, c: c, noPair: true}
	return m.val(a, b)
}

type merger struct {
	x       *Exec
	c       *Term
	s1, s2  *State
	forkObj int
	p12     map[int]int
	p21     map[int]int
	queue   []int
	noPair  bool
}

func (m *merger) objRef(a, b int) (int, bool) {
	if a == b && (m.noPair || a <= m.forkObj) {
		return a, true
	}
	if m.noPair || a == 0 || b == 0 || a <= m.forkObj || b <= m.forkObj {
		return 0, false
	}
	if q, ok := m.p12[a]; ok {
		return a, q == b
	}
	if _, ok := m.p21[b]; ok {
		return 0, false
	}
	if m.p12 == nil {
		m.p12, m.p21 = map[int]int{}, map[int]int{}
	}
	m.p12[a], m.p21[b] = b, a
	m.queue = append(m.queue, a)
	return a, true
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *merger) val(a, b Value) (Value, bool) {
	tc := m.x.tc
	switch p := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.W != q.W {
			return nil, false
		}
		if p == q {
			return p, true
		}
		if p.W == 64 && p.Op == OConst && q.Op == OConst && !m.noPair {
			return nil, false // distinct concrete machine words: keep paths apart
		}
		return tc.Ite(m.c, p, q), true
	case FloatV:
		q, ok := b.(FloatV)
		return p, ok && p == q
	case StrV:
		q, ok := b.(StrV)
		if !ok {
			return nil, false
		}
		if p.tok != q.tok {
			return nil, false
		}
		if p.tok != nil {
			return p, true
		}
		if !p.sym && !q.sym && p.s == q.s {
			return p, true
		}
		if p.Len() != q.Len() {
			return nil, false
		}
		n := p.Len()
		r := make([]*Term, n)
		for i := 0; i < n; i++ {
			r[i] = tc.Ite(m.c, p.at(m.x.tc, i), q.at(m.x.tc, i))
		}
		return mkStr(r), true
	case Ptr:
		q, ok := b.(Ptr)
		if !ok || p.sidx != q.sidx || p.soff != q.soff || p.sn != q.sn || !samePath(p.path, q.path) {
			return nil, false
		}
		o, ok := m.objRef(p.obj, q.obj)
		if !ok {
			return nil, false
		}
		p.obj = o
		return p, true
	case SliceV:
		q, ok := b.(SliceV)
		if !ok || p.off != q.off || p.len != q.len || p.cap != q.cap || !samePath(p.path, q.path) {
			return nil, false
		}
		o, ok := m.objRef(p.obj, q.obj)
		if !ok {
			return nil, false
		}
		p.obj = o
		return p, true
	case MapV:
		q, ok := b.(MapV)
		if !ok {
			return nil, false
		}
		o, ok := m.objRef(p.obj, q.obj)
		return MapV{o}, ok
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.f) != len(q.f) {
			return nil, false
		}
		if p == q {
			return p, true
		}
		r := &StructV{f: make([]Value, len(p.f))}
		for i := range p.f {
			r.f[i], ok = m.val(p.f[i], q.f[i])
			if !ok {
				return nil, false
			}
		}
		return r, true
	case *ArrV:
		q, ok := b.(*ArrV)
		if !ok || len(p.e) != len(q.e) {
			return nil, false
		}
		if p == q {
			return p, true
		}
		r := &ArrV{e: make([]Value, len(p.e))}
		for i := range p.e {
			r.e[i], ok = m.val(p.e[i], q.e[i])
			if !ok {
				return nil, false
			}
		}
		return r, true
	case TupleV:
		q, ok := b.(TupleV)
		if !ok || len(p) != len(q) {
			return nil, false
		}
		r := make(TupleV, len(p))
		for i := range p {
			r[i], ok = m.val(p[i], q[i])
			if !ok {
				return nil, false
			}
		}
		return r, true
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if p.t == nil || q.t == nil {
			return p, p.t == nil && q.t == nil
		}
		if p.t != q.t && !types.Identical(p.t, q.t) {
			return nil, false
		}
		v, ok := m.val(p.v, q.v)
		return IfaceV{p.t, v}, ok
	case *Closure:
		q, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if p == q {
			return p, true
		}
		if p == nil || q == nil || p.fn != q.fn || p.intr != q.intr || len(p.bind) != len(q.bind) || p.recv != nil || q.recv != nil {
			return nil, false
		}
		r := &Closure{fn: p.fn, intr: p.intr, bind: make([]Value, len(p.bind))}
		for i := range p.bind {
			r.bind[i], ok = m.val(p.bind[i], q.bind[i])
			if !ok {
				return nil, false
			}
		}
		return r, true
	case BigV:
		q, ok := b.(BigV)
		if !ok {
			return nil, false
		}
		w := max(p.mag.W, q.mag.W)
		return BigV{tc.Ite(m.c, p.neg, q.neg), tc.Ite(m.c, tc.ZExt(p.mag, w), tc.ZExt(q.mag, w))}, true
	case ErrV:
		q, ok := b.(ErrV)
		if !ok {
			return nil, false
		}
		return ErrV{tc.Ite(m.c, p.id, q.id)}, true
	case *MapObj:
		q, ok := b.(*MapObj)
		if !ok || len(p.keys) != len(q.keys) {
			return nil, false
		}
		if p == q {
			return p, true
		}
		r := &MapObj{}
		for i := range p.keys {
			k, ok := m.val(p.keys[i], q.keys[i])
			if !ok {
				return nil, false
			}
			v, ok := m.val(p.vals[i], q.vals[i])
			if !ok {
				return nil, false
			}
			r.keys = append(r.keys, k)
			r.vals = append(r.vals, v)
		}
		return r, true
	case *RangeIter:
		q, ok := b.(*RangeIter)
		return p, ok && (p == q || p.pos == q.pos && p.str == q.str && p.m == q.m)
	case BuiltinV:
		q, ok := b.(BuiltinV)
		return p, ok && p == q
	case OpaqueV:
		q, ok := b.(OpaqueV)
		if !ok || p.kind != q.kind || len(p.data) != len(q.data) {
			return nil, false
		}
		r := OpaqueV{kind: p.kind, data: make([]Value, len(p.data))}
		for i := range p.data {
			r.data[i], ok = m.val(p.data[i], q.data[i])
			if !ok {
				return nil, false
			}
		}
		return r, true
	case Poison:
		return p, true
	}
	return nil, false
}

// ---- strings ----

func (s StrV) Len() int {
	if s.sym {
		return len(s.b)
	}
	return len(s.s)
}

func (s StrV) at(tc *TC, i int) *Term {
	if s.sym {
		return s.b[i]
	}
	return tc.b8[s.s[i]]
}

func (s StrV) bytes(tc *TC) []*Term {
	if s.sym {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = tc.b8[s.s[i]]
	}
	return r
}

func mkStr(b []*Term) StrV {
	for _, t := range b {
		if t.Op != OConst {
			return StrV{b: b, sym: true}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.C)
	}
	return StrV{s: string(bs)}
}

func conc(s string) StrV { return StrV{s: s} }

func (s StrV) sub(lo, hi int) StrV {
	if s.sym {
		return mkStr(s.b[lo:hi])
	}
	return StrV{s: s.s[lo:hi]}
}

func allConst(b []*Term) bool {
	for _, t := range b {
		if t.Op != OConst {
			return false
		}
	}
	return true
}

func concBytes(b []*Term) []byte {
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.C)
	}
	return r
}

func (x *Exec) symBytes(b []byte) []*Term {
	r := make([]*Term, len(b))
	for i, c := range b {
		r[i] = x.tc.b8[c]
	}
	return r
}

// sliceTerms reads the byte terms of a []byte slice.
func (x *Exec) sliceTerms(st *State, v Value) []*Term {
	s, ok := v.(SliceV)
	if !ok {
		panic(unsupported(fmt.Sprintf("sliceTerms of %T", v)))
	}
	if s.obj == 0 || s.len == 0 {
		return nil
	}
	arr := walk(x.obj(st, s.obj).v, s.path).(*ArrV)
	r := make([]*Term, s.len)
	for i := 0; i < s.len; i++ {
		t, ok := arr.e[s.off+i].(*Term)
		if !ok {
			panic(unsupported(fmt.Sprintf("sliceTerms elem %T", arr.e[s.off+i])))
		}
		r[i] = t
	}
	return r
}

func (x *Exec) newByteSlice(st *State, b []*Term) SliceV {
	e := make([]Value, len(b))
	for i, t := range b {
		e[i] = t
	}
	id := x.alloc(st, &ArrV{e: e})
	return SliceV{obj: id, len: len(b), cap: len(b)}
}
