package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"hash/fnv"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// JSON texts of symbolic values are ideal: the text is an uninterpreted function of the values, one
// function per shape (field names, kinds, nesting, in order), and only a text built this way decodes
// (to the values it was built from). Concrete values and texts run through encoding/json itself.

type jnode struct {
	kind byte // o a s i y b n f(loat)
	keys []string
	kids []*jnode
	str  []*Term // s, y
	num  *Term   // i, b
	uns  bool
	lit  string // f
}

type jsonEnt struct {
	txt  []*Term
	tree *jnode
}

func (x *Exec) jsonTree(st *State, t types.Type, v Value, depth int) *jnode {
	if depth > 12 {
		panic(unsupported("deep json"))
	}
	if n, ok := t.(*types.Named); ok {
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
				if _, ok := o.(*types.Func); ok {
					panic(unsupported("json of " + n.String()))
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &jnode{kind: 's', str: v.(StrV).bytes(x.tc)}
		case u.Info()&types.IsInteger != 0:
			return &jnode{kind: 'i', num: v.(*Term), uns: u.Info()&types.IsUnsigned != 0}
		case u.Info()&types.IsBoolean != 0:
			return &jnode{kind: 'b', num: v.(*Term)}
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(FloatV); ok {
				b, err := json.Marshal(float64(f))
				if err == nil {
					return &jnode{kind: 'f', lit: string(b)}
				}
			}
		}
	case *types.Slice:
		s := v.(SliceV)
		if s.obj == 0 {
			return &jnode{kind: 'n'}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return &jnode{kind: 'y', str: x.sliceTerms(st, s)}
		}
		n := &jnode{kind: 'a'}
		if s.len > 0 {
			arr := walk(x.obj(st, s.obj).v, s.path).(*ArrV)
			for i := 0; i < s.len; i++ {
				n.kids = append(n.kids, x.jsonTree(st, u.Elem(), arr.e[s.off+i], depth+1))
			}
		}
		return n
	case *types.Array:
		n := &jnode{kind: 'a'}
		for _, e := range v.(*ArrV).e {
			n.kids = append(n.kids, x.jsonTree(st, u.Elem(), e, depth+1))
		}
		return n
	case *types.Pointer:
		p := v.(Ptr)
		if p.obj == 0 {
			return &jnode{kind: 'n'}
		}
		return x.jsonTree(st, u.Elem(), x.load(st, p), depth+1)
	case *types.Interface:
		i := v.(IfaceV)
		if i.t == nil {
			return &jnode{kind: 'n'}
		}
		return x.jsonTree(st, i.t, i.v, depth+1)
	case *types.Map:
		m := v.(MapV)
		if m.obj == 0 {
			return &jnode{kind: 'n'}
		}
		mo := x.obj(st, m.obj).v.(*MapObj)
		n := &jnode{kind: 'o'}
		idx := map[string]int{}
		for i, k := range mo.keys {
			s, ok := k.(StrV)
			if !ok || s.sym {
				panic(unsupported("json map key"))
			}
			idx[s.s] = i
			n.keys = append(n.keys, s.s)
		}
		sort.Strings(n.keys)
		for _, k := range n.keys {
			n.kids = append(n.kids, x.jsonTree(st, u.Elem(), mo.vals[idx[k]], depth+1))
		}
		return n
	case *types.Struct:
		s := v.(*StructV)
		n := &jnode{kind: 'o'}
		for i := 0; i < u.NumFields(); i++ {
			name, omit, ok := jsonField(u, i)
			if !ok {
				continue
			}
			k := x.jsonTree(st, u.Field(i).Type(), s.f[i], depth+1)
			if omit {
				switch k.kind {
				case 'n':
					continue
				case 's', 'y':
					if len(k.str) == 0 {
						continue
					}
				case 'a':
					if len(k.kids) == 0 {
						continue
					}
				case 'i', 'b':
					if k.num.Op != OConst {
						panic(unsupported("json omitempty of a symbolic number"))
					}
					if k.num.C == 0 {
						continue
					}
				}
			}
			n.keys = append(n.keys, name)
			n.kids = append(n.kids, k)
		}
		return n
	}
	panic(unsupported("json of " + t.String()))
}

func jsonField(u *types.Struct, i int) (name string, omit, ok bool) {
	f := u.Field(i)
	if !f.Exported() {
		return "", false, false
	}
	if f.Embedded() {
		panic(unsupported("json of embedded field"))
	}
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	if tag == "-" {
		return "", false, false
	}
	p := strings.Split(tag, ",")
	name = p[0]
	if name == "" {
		name = f.Name()
	}
	for _, o := range p[1:] {
		if o == "omitempty" {
			omit = true
		} else {
			panic(unsupported("json option " + o))
		}
	}
	return name, omit, true
}

// text gives the concrete JSON text, or "", false when a value is symbolic.
func (n *jnode) text(sb *strings.Builder) bool {
	q := func(s string) { b, _ := json.Marshal(s); sb.Write(b) }
	switch n.kind {
	case 'n':
		sb.WriteString("null")
	case 'f':
		sb.WriteString(n.lit)
	case 's':
		if !allConst(n.str) {
			return false
		}
		q(string(concBytes(n.str)))
	case 'y':
		if !allConst(n.str) {
			return false
		}
		q(base64.StdEncoding.EncodeToString(concBytes(n.str)))
	case 'b':
		if n.num.Op != OConst {
			return false
		}
		sb.WriteString(strconv.FormatBool(n.num.C == 1))
	case 'i':
		if n.num.Op != OConst {
			return false
		}
		if n.uns {
			sb.WriteString(strconv.FormatUint(n.num.C, 10))
		} else {
			sb.WriteString(strconv.FormatInt(sx(n.num.C, n.num.W), 10))
		}
	case 'a':
		sb.WriteByte('[')
		for i, k := range n.kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			if !k.text(sb) {
				return false
			}
		}
		sb.WriteByte(']')
	case 'o':
		sb.WriteByte('{')
		for i, k := range n.kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			q(n.keys[i])
			sb.WriteByte(':')
			if !k.text(sb) {
				return false
			}
		}
		sb.WriteByte('}')
	}
	return true
}

func (n *jnode) flat(x *Exec, sb *strings.Builder, args *[][]*Term) {
	tc := x.tc
	switch n.kind {
	case 's', 'y':
		sb.WriteByte(n.kind)
		*args = append(*args, n.str)
	case 'f':
		sb.WriteString(n.lit)
	case 'n':
		sb.WriteByte('n')
	case 'b':
		sb.WriteByte('b')
		b := n.num
		if b.W == 0 {
			b = tc.Ite(b, tc.BV(8, 1), tc.BV(8, 0))
		} else {
			b = tc.ZExt(b, 8)
		}
		*args = append(*args, []*Term{b})
	case 'i':
		sb.WriteByte('i')
		w := n.num
		if w.W < 72 {
			if n.uns {
				w = tc.ZExt(w, 72)
			} else {
				w = tc.SExt(w, 72)
			}
		}
		*args = append(*args, termBytesBE(tc, w, 9))
	case 'a':
		sb.WriteByte('[')
		for _, k := range n.kids {
			k.flat(x, sb, args)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case 'o':
		sb.WriteByte('{')
		for i, k := range n.kids {
			fmt.Fprintf(sb, "%q:", n.keys[i])
			k.flat(x, sb, args)
		}
		sb.WriteByte('}')
	}
}

const jsonLen = 64

func (x *Exec) jsonText(n *jnode) []*Term {
	var sb strings.Builder
	if n.text(&sb) {
		return x.symBytes([]byte(sb.String()))
	}
	sb.Reset()
	var args [][]*Term
	n.flat(x, &sb, &args)
	h := fnv.New64a()
	h.Write([]byte(sb.String()))
	out := x.uf(fmt.Sprintf("json_%x", h.Sum64()), args, jsonLen, func() []*Term {
		o := make([]*Term, jsonLen)
		for i := range o {
			o[i] = x.fresh(8, "json")
		}
		l, r := byte('"'), byte('"')
		switch n.kind {
		case 'o':
			l, r = '{', '}'
		case 'a':
			l, r = '[', ']'
		case 'i', 'b':
			return o
		}
		o[0], o[jsonLen-1] = x.tc.b8[l], x.tc.b8[r]
		return o
	}, nil)
	x.jsonTab = append(x.jsonTab, jsonEnt{out, n})
	return out
}

// jsonOf parses a concrete text.
func (x *Exec) jsonOf(v interface{}) *jnode {
	switch a := v.(type) {
	case nil:
		return &jnode{kind: 'n'}
	case string:
		return &jnode{kind: 's', str: x.symBytes([]byte(a))}
	case bool:
		return &jnode{kind: 'b', num: x.tc.Bool(a)}
	case json.Number:
		if i, err := strconv.ParseInt(a.String(), 10, 64); err == nil {
			return &jnode{kind: 'i', num: x.tc.BV(64, uint64(i))}
		}
		if i, err := strconv.ParseUint(a.String(), 10, 64); err == nil {
			return &jnode{kind: 'i', num: x.tc.BV(64, i), uns: true}
		}
		return &jnode{kind: 'f', lit: a.String()}
	case []interface{}:
		n := &jnode{kind: 'a'}
		for _, e := range a {
			n.kids = append(n.kids, x.jsonOf(e))
		}
		return n
	case map[string]interface{}:
		n := &jnode{kind: 'o'}
		for k := range a {
			n.keys = append(n.keys, k)
		}
		sort.Strings(n.keys)
		for _, k := range n.keys {
			n.kids = append(n.kids, x.jsonOf(a[k]))
		}
		return n
	}
	panic(unsupported("json value"))
}

// jsonAssign builds a value of type t from a decoded tree; old is the value to update.
func (x *Exec) jsonAssign(st *State, t types.Type, n *jnode, old Value) (Value, bool) {
	if nt, ok := t.(*types.Named); ok {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, nt.Obj().Pkg(), "UnmarshalJSON"); o != nil {
			panic(unsupported("json into " + nt.String()))
		}
	}
	if n.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map, *types.Interface:
			return x.zero(t), true
		}
		return old, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				return old, false
			}
			return mkStr(n.str), true
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				return old, false
			}
			return n.num, true
		case u.Info()&types.IsInteger != 0:
			if n.kind == 'f' {
				return old, false
			}
			if n.kind != 'i' {
				return old, false
			}
			z := x.zero(t).(*Term)
			uns := u.Info()&types.IsUnsigned != 0
			if n.num.Op == OConst {
				if n.uns {
					if z.W < 64 && n.num.C>>uint(z.W) != 0 || !uns && n.num.C>>uint(z.W-1) != 0 {
						return old, false
					}
				} else {
					i := sx(n.num.C, n.num.W)
					if uns && (i < 0 || z.W < 64 && uint64(i)>>uint(z.W) != 0) {
						return old, false
					}
					if !uns && z.W < 64 && (i >= 1<<uint(z.W-1) || i < -1<<uint(z.W-1)) {
						return old, false
					}
				}
				return x.tc.BV(z.W, n.num.C&mask64(z.W)), true
			}
			if z.W == n.num.W && uns == n.uns {
				return n.num, true
			}
			if z.W > n.num.W && (uns == n.uns || n.uns) {
				if n.uns {
					return x.tc.ZExt(n.num, z.W), true
				}
				return x.tc.SExt(n.num, z.W), true
			}
		}
	case *types.Struct:
		if n.kind != 'o' {
			return old, false
		}
		s := deepCopy(old).(*StructV)
		ok := true
		for i, k := range n.keys {
			best := -1
			for j := 0; j < u.NumFields(); j++ {
				name, _, use := jsonField(u, j)
				if !use {
					continue
				}
				if name == k {
					best = j
					break
				}
				if best < 0 && strings.EqualFold(name, k) {
					best = j
				}
			}
			if best < 0 {
				continue
			}
			v, o := x.jsonAssign(st, u.Field(best).Type(), n.kids[i], s.f[best])
			s.f[best] = v
			ok = ok && o
		}
		return s, ok
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if n.kind == 'y' {
				return x.newByteSlice(st, n.str), true
			}
			panic(unsupported("json bytes"))
		}
		if n.kind != 'a' {
			return old, false
		}
		arr := &ArrV{}
		ok := true
		for _, k := range n.kids {
			v, o := x.jsonAssign(st, u.Elem(), k, x.zero(u.Elem()))
			arr.e = append(arr.e, v)
			ok = ok && o
		}
		return SliceV{obj: x.alloc(st, arr), len: len(arr.e), cap: len(arr.e)}, ok
	case *types.Pointer:
		v, ok := x.jsonAssign(st, u.Elem(), n, x.zero(u.Elem()))
		return Ptr{obj: x.alloc(st, v)}, ok
	}
	panic(unsupported("json into " + t.String()))
}

func mask64(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func initJSON(I map[string]intrFn) {
	I["encoding/json.Marshal"] = func(c *callCtx) []Outcome {
		i := c.args[0].(IfaceV)
		n := &jnode{kind: 'n'}
		if i.t != nil {
			n = c.x.jsonTree(c.st, i.t, i.v, 0)
		}
		return c.ret(TupleV{c.x.newByteSlice(c.st, c.x.jsonText(n)), IfaceV{}})
	}
	I["encoding/json.Unmarshal"] = func(c *callCtx) []Outcome {
		x := c.x
		b := c.bytes(0)
		i := c.args[1].(IfaceV)
		pt, ok := i.t.(*types.Pointer)
		if !ok {
			panic(unsupported("json into non-pointer"))
		}
		p := i.v.(Ptr)
		if p.obj == 0 {
			return c.ret(x.mkErr("json: Unmarshal(nil)"))
		}
		var n *jnode
		if allConst(b) {
			d := json.NewDecoder(bytes.NewReader(concBytes(b)))
			d.UseNumber()
			var v interface{}
			if !json.Valid(concBytes(b)) || d.Decode(&v) != nil {
				return c.ret(x.mkErr("json: invalid text"))
			}
			n = x.jsonOf(v)
		} else {
			for _, e := range x.jsonTab {
				if sameTerms(e.txt, b) {
					n = e.tree
				}
			}
			if n == nil {
				panic(unsupported("json.Unmarshal of a symbolic text"))
			}
		}
		v, good := x.jsonAssign(c.st, pt.Elem(), n, x.load(c.st, p))
		x.store(c.st, p, v)
		if !good {
			return c.ret(x.mkErr("json: cannot unmarshal into the type"))
		}
		return c.ret(IfaceV{})
	}
}
