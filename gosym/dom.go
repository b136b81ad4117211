package main

import "math/big"

// Finite-domain front end of the solver: conjunctions whose variables are
// single bytes (or booleans) with a small joint domain are decided exactly by
// evaluating the terms over the whole domain; everything else goes to SMT.

const domJoint = 1 << 12

func (s *Solver) domOf(t *Term) (Set256, bool) {
	if d, ok := s.dom[t.ID]; ok {
		return d, true
	}
	sup := t.Support()
	if len(sup) != 1 || varBits(s.tc.vars[sup[0]]) > 8 {
		return Set256{}, false
	}
	var d Set256
	n := 1 << uint(varBits(s.tc.vars[sup[0]]))
	m := NewModel()
	for i := 0; i < n; i++ {
		m.v[sup[0]] = big.NewInt(int64(i))
		clear(m.memo)
		clear(m.m64)
		if m.Eval64(t) == 1 {
			d.add(uint64(i))
		}
	}
	if s.dom == nil {
		s.dom = map[int]Set256{}
	}
	s.dom[t.ID] = d
	return d, true
}

func (s *Solver) finiteDomain(cs []*Term) (Res, map[int]*big.Int, bool) {
	doms := map[int]Set256{}
	var multi []*Term
	for _, t := range cs {
		d, ok := s.domOf(t)
		if !ok {
			multi = append(multi, t)
			continue
		}
		v := t.Support()[0]
		if o, have := doms[v]; have {
			for i := range d {
				d[i] &= o[i]
			}
		}
		if d.empty() {
			return Unsat, nil, true
		}
		doms[v] = d
	}
	out := map[int]*big.Int{}
	for v, d := range doms {
		out[v] = big.NewInt(int64(d.first()))
	}
	if len(multi) == 0 {
		return Sat, out, true
	}
	var vars []int
	for _, t := range multi {
		vars = mergeInts(vars, t.Support())
		if len(vars) > 6 {
			return Unknown, nil, false
		}
	}
	prod := 1
	vals := make([][]uint64, len(vars))
	for i, v := range vars {
		w := varBits(s.tc.vars[v])
		if w > 8 {
			return Unknown, nil, false
		}
		d, have := doms[v]
		for k := uint64(0); k < 1<<uint(w); k++ {
			if !have || d.has(k) {
				vals[i] = append(vals[i], k)
			}
		}
		prod *= len(vals[i])
		if prod > domJoint {
			return Unknown, nil, false
		}
	}
	idx := make([]int, len(vars))
	m := NewModel()
	for {
		for i, v := range vars {
			m.v[v] = new(big.Int).SetUint64(vals[i][idx[i]])
		}
		clear(m.memo)
		clear(m.m64)
		ok := true
		for _, t := range multi {
			if m.Eval64(t) != 1 {
				ok = false
				break
			}
		}
		if ok {
			for i, v := range vars {
				out[v] = new(big.Int).SetUint64(vals[i][idx[i]])
			}
			return Sat, out, true
		}
		k := 0
		for ; k < len(idx); k++ {
			idx[k]++
			if idx[k] < len(vals[k]) {
				break
			}
			idx[k] = 0
		}
		if k == len(idx) {
			return Unsat, nil, true
		}
	}
}

func varBits(t *Term) int {
	if t.W == 0 {
		return 1
	}
	return t.W
}
