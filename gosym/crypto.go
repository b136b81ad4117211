package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"github.com/blocktree/go-owcrypt"
)

// ufApp is one application of an uninterpreted (idealised) function.
type ufApp struct {
	name string
	args [][]*Term
	out  []*Term
	conc bool

	reg, hasVar bool
	argVars     []int
	outVars     []int
}

const owPkg = "github.com/blocktree/go-owcrypt."

var secpN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// uf applies an Ackermannised function with n output bytes. mk builds the output the first time
// (nil: fresh bytes); native evaluates it on concrete arguments (nil: never).
func (x *Exec) uf(name string, args [][]*Term, n int, mk func() []*Term, native func([][]byte) []byte) []*Term {
	for _, a := range x.ufs[name] {
		if len(a.args) != len(args) || len(a.out) != n {
			continue
		}
		same := true
		for i := range args {
			if !sameTerms(a.args[i], args[i]) {
				same = false
				break
			}
		}
		if same {
			return a.out
		}
	}
	app := &ufApp{name: name, args: args}
	cc := native != nil
	for _, a := range args {
		if !allConst(a) {
			cc = false
		}
	}
	if cc {
		in := make([][]byte, len(args))
		for i, a := range args {
			in[i] = concBytes(a)
		}
		o := native(in)
		if len(o) != n {
			panic(unsupported("native " + name))
		}
		app.out = x.symBytes(o)
		app.conc = true
	} else if mk != nil {
		app.out = mk()
	} else {
		app.out = make([]*Term, n)
		for i := range app.out {
			app.out[i] = x.fresh(8, "h_"+name)
		}
	}
	tc := x.tc
	for _, a := range x.ufs[name] {
		if a.conc && app.conc {
			continue
		}
		same := len(a.args) == len(args) && len(a.out) == len(app.out)
		if same {
			for i := range args {
				if len(a.args[i]) != len(args[i]) {
					same = false
				}
			}
		}
		if !same {
			if x.injective && len(a.out) == len(app.out) && n >= 20 {
				x.sol.AddPairAxiom(a, app, tc.Not(x.bytesEq(a.out, app.out)))
			}
			continue
		}
		eq := tc.True
		for i := range args {
			eq = tc.AndN(eq, x.bytesEq(a.args[i], args[i]))
		}
		oeq := x.bytesEq(a.out, app.out)
		if x.injective && n >= 20 {
			x.sol.AddPairAxiom(a, app, tc.Eq(eq, oeq))
		} else if !eq.isFalse() {
			x.sol.AddPairAxiom(a, app, tc.Implies(eq, oeq))
		}
	}
	x.ufs[name] = append(x.ufs[name], app)
	return app.out
}

type hashAlg struct {
	name string
	n    int
	id   uint32
}

var prim = map[string]hashAlg{
	"sha1": {"sha1", 20, owcrypt.HASH_ALG_SHA1}, "sha3_256": {"sha3_256", 32, owcrypt.HASH_ALG_SHA3_256}, "sha256": {"sha256", 32, owcrypt.HASH_ALG_SHA256},
	"sha512": {"sha512", 64, owcrypt.HASH_ALG_SHA512}, "md4": {"md4", 16, owcrypt.HASH_ALG_MD4}, "md5": {"md5", 16, owcrypt.HASH_ALG_MD5},
	"ripemd160": {"ripemd160", 20, owcrypt.HASH_ALG_RIPEMD160}, "sm3": {"sm3", 32, owcrypt.HASH_ALG_SM3}, "blake256": {"blake256", 32, owcrypt.HASH_ALG_BLAKE256},
	"blake512": {"blake512", 64, owcrypt.HASH_ALG_BLAKE512}, "keccak256": {"keccak256", 32, owcrypt.HASH_ALG_KECCAK256}, "keccak512": {"keccak512", 64, owcrypt.HASH_ALG_KECCAK512},
	"sha3_512": {"sha3_512", 64, owcrypt.HASH_ALG_SHA3_512},
}

var hashPlan = map[uint32][]string{
	owcrypt.HASH_ALG_DOUBLE_SHA256: {"sha256", "sha256"}, owcrypt.HASH_ALG_HASH160: {"sha256", "ripemd160"},
	owcrypt.HASH_ALG_KECCAK256_RIPEMD160: {"keccak256", "ripemd160"}, owcrypt.HASH_ALG_SHA3_256_RIPEMD160: {"sha3_256", "ripemd160"},
}

func init() {
	for k, p := range prim {
		hashPlan[p.id] = []string{k}
	}
}

func (x *Exec) hash(name string, data []*Term) []*Term {
	p, ok := prim[name]
	if !ok {
		panic(unsupported("hash " + name))
	}
	return x.uf(name, [][]*Term{data}, p.n, nil, func(b [][]byte) []byte { return owcrypt.Hash(b[0], 0, p.id) })
}

// hashNat names hashes with a digest length (blake2b/2s).
func (x *Exec) hashLen(name string, id uint32, n int, data []*Term) []*Term {
	return x.uf(fmt.Sprintf("%s_%d", name, n), [][]*Term{data}, n, nil, func(b [][]byte) []byte { return owcrypt.Hash(b[0], uint16(n), id) })
}

func be256(tc *TC, b []*Term) *Term { return tc.Concat(b...) }

func (x *Exec) inRange1N(t *Term, n *big.Int) *Term {
	tc := x.tc
	return tc.AndN(tc.Not(tc.Eq(t, tc.BV(t.W, 0))), tc.Ult(t, tc.BVBig(t.W, n)))
}

// secpPoint returns 64 bytes (x,y) of k*G for a 32-byte scalar known to be in [1,n-1].
func (x *Exec) secpPoint(curve string, k []*Term) []*Term {
	xs := x.uf("mulGx_"+curve, [][]*Term{k}, 32, nil, func(b [][]byte) []byte { p, _ := owcrypt.GenPubkey(b[0], curveID[curve]); return p[:32] })
	par := x.uf("mulGp_"+curve, [][]*Term{k}, 1, func() []*Term { return []*Term{x.tc.ZExt(x.fresh(1, "par"), 8)} }, func(b [][]byte) []byte {
		p, _ := owcrypt.GenPubkey(b[0], curveID[curve])
		return []byte{p[63] & 1}
	})
	r := append(append([]*Term{}, xs...), x.secpY(curve, xs, x.tc.Extract(par[0], 0, 0))...)
	x.prov = append(x.prov, provPoint{curve, r, k})
	return r
}

type provPoint struct {
	curve string
	pt    []*Term
	k     []*Term
}

var curveID = map[string]uint32{"k1": owcrypt.ECC_CURVE_SECP256K1, "r1": owcrypt.ECC_CURVE_SECP256R1, "sm2": owcrypt.ECC_CURVE_SM2_STANDARD}

func curveName(id uint64) string {
	switch uint32(id) {
	case owcrypt.ECC_CURVE_SECP256K1:
		return "k1"
	case owcrypt.ECC_CURVE_SECP256R1:
		return "r1"
	case owcrypt.ECC_CURVE_SM2_STANDARD:
		return "sm2"
	}
	return ""
}

func curveN(c string) *big.Int {
	return new(big.Int).SetBytes(owcrypt.GetCurveOrder(curveID[c]))
}

func (x *Exec) secpY(curve string, xs []*Term, par *Term) []*Term {
	tc := x.tc
	return x.uf("Y_"+curve, [][]*Term{xs, {tc.ZExt(par, 8)}}, 32, func() []*Term {
		r := make([]*Term, 32)
		for i := 0; i < 31; i++ {
			r[i] = x.fresh(8, "Y")
		}
		r[31] = tc.Concat(x.fresh(7, "Y"), par)
		return r
	}, func(b [][]byte) []byte {
		return owcrypt.PointDecompress(append([]byte{2 + b[1][0]}, b[0]...), curveID[curve])[33:]
	})
}

func (x *Exec) ecdsaVerify(curve string, pub, msg, r, s []*Term) *Term {
	tc := x.tc
	n := curveN(curve)
	half := new(big.Int).Rsh(n, 1)
	sv := be256(tc, s)
	hi := tc.Ult(tc.BVBig(256, half), sv)
	ns := tc.Ite(hi, tc.Sub(tc.BVBig(256, n), sv), sv)
	sb := termBytesBE(tc, ns, 32)
	bit := x.uf("ecv_"+curve, [][]*Term{pub, msg, r, sb}, 1, func() []*Term { return []*Term{tc.ZExt(x.fresh(1, "ecv"), 8)} }, func(b [][]byte) []byte {
		sig := append(append([]byte{}, b[2]...), b[3]...)
		if owcrypt.Verify(b[0], nil, b[1], sig, curveID[curve]) == owcrypt.SUCCESS {
			return []byte{1}
		}
		return []byte{0}
	})
	return tc.AndN(x.inRange1N(be256(tc, r), n), x.inRange1N(sv, n), tc.Eq(bit[0], tc.BV(8, 1)))
}

func edName(id uint64) string {
	switch uint32(id) {
	case owcrypt.ECC_CURVE_ED25519_NORMAL:
		return "ednormal"
	case owcrypt.ECC_CURVE_ED25519:
		return "ed"
	case owcrypt.ECC_CURVE_X25519:
		return "x25519"
	case owcrypt.ECC_CURVE_CURVE25519_SHA256:
		return "c25519s"
	}
	return ""
}

func (x *Exec) edPub(id uint64, k []*Term) []*Term {
	r := x.uf("edpub_"+edName(id), [][]*Term{k}, 32, nil, func(b [][]byte) []byte { p, _ := owcrypt.GenPubkey(b[0], uint32(id)); return p })
	if edName(id) == "ed" {
		x.prov = append(x.prov, provPoint{"ed", r, k})
	}
	return r
}

func (x *Exec) edVerify(id uint64, pub, msg, sig []*Term) *Term {
	tc := x.tc
	bit := x.uf("edv_"+edName(id), [][]*Term{pub, msg, sig}, 1, func() []*Term { return []*Term{tc.ZExt(x.fresh(1, "edv"), 8)} }, func(b [][]byte) []byte {
		if owcrypt.Verify(b[0], nil, b[1], b[2], uint32(id)) == owcrypt.SUCCESS {
			return []byte{1}
		}
		return []byte{0}
	})
	ok := tc.Eq(bit[0], tc.BV(8, 1))
	if edName(id) == "ed" || edName(id) == "ednormal" {
		ok = tc.AndN(ok, tc.Eq(tc.And(sig[63], tc.BV(8, 224)), tc.BV(8, 0)))
	}
	return ok
}

type opaqueHashT struct{}

func (opaqueHashT) Underlying() types.Type { return opaqueHashT{} }
func (opaqueHashT) String() string         { return "opaqueHash" }

var opaqueHashType types.Type = opaqueHashT{}

func termsToVals(t []*Term) []Value {
	r := make([]Value, len(t))
	for i, e := range t {
		r[i] = e
	}
	return r
}
func valsToTerms(v []Value) []*Term {
	r := make([]*Term, len(v))
	for i, e := range v {
		r[i] = e.(*Term)
	}
	return r
}

func initCrypto(I map[string]intrFn) {
	suc := func(x *Exec, ok *Term) *Term { return x.tc.Ite(ok, x.tc.BV(16, 1), x.tc.BV(16, 0)) }
	nilS := SliceV{}
	I[owPkg+"Hash"] = func(c *callCtx) []Outcome {
		alg := c.term(2)
		if alg.Op != OConst {
			panic(unsupported("symbolic hash algorithm"))
		}
		data := c.bytes(0)
		switch uint32(alg.C) {
		case owcrypt.HASH_ALG_BLAKE2B:
			n := int(uint16(c.cint(1)))
			if n < 1 || n > 64 {
				return c.ret(nilS)
			}
			return c.ret(c.x.newByteSlice(c.st, c.x.hashLen("blake2b", uint32(alg.C), n, data)))
		case owcrypt.HASH_ALG_BLAKE2S:
			n := int(uint8(c.cint(1)))
			return c.ret(c.x.newByteSlice(c.st, c.x.hashLen("blake2s", uint32(alg.C), n, data)))
		}
		plan, ok := hashPlan[uint32(alg.C)]
		if !ok {
			return c.ret(nilS)
		}
		for _, p := range plan {
			data = c.x.hash(p, data)
		}
		return c.ret(c.x.newByteSlice(c.st, data))
	}
	I[owPkg+"Hmac"] = func(c *callCtx) []Outcome {
		switch uint32(c.term(2).C) {
		case owcrypt.HMAC_SHA256_ALG:
			return c.ret(c.x.newByteSlice(c.st, c.x.hmac("sha256", c.bytes(0), c.bytes(1))))
		case owcrypt.HMAC_SHA512_ALG:
			return c.ret(c.x.newByteSlice(c.st, c.x.hmac("sha512", c.bytes(0), c.bytes(1))))
		}
		panic(unsupported("hmac alg"))
	}
	code := func(c *callCtx, st *State, v uint64) Outcome {
		return Outcome{kind: kReturn, st: st, val: TupleV{nilS, c.x.tc.BV(16, v)}}
	}
	I[owPkg+"GenPubkey"] = func(c *callCtx) []Outcome {
		k := c.bytes(0)
		cv := c.term(1).C
		if cn := curveName(cv); cn != "" {
			if len(k) != 32 {
				return []Outcome{code(c, c.st, 0xE000)}
			}
			a, b := c.x.branch(c.st, c.x.inRange1N(be256(c.x.tc, k), curveN(cn)))
			var outs []Outcome
			if b != nil {
				outs = append(outs, code(c, b, 0xE000))
			}
			if a != nil {
				outs = append(outs, Outcome{kind: kReturn, st: a, val: TupleV{c.x.newByteSlice(a, c.x.secpPoint(cn, k)), c.x.tc.BV(16, 1)}})
			}
			return outs
		}
		if edName(cv) == "" {
			panic(unsupported("GenPubkey curve"))
		}
		if len(k) != 32 {
			return []Outcome{code(c, c.st, 0)}
		}
		return c.ret(TupleV{c.x.newByteSlice(c.st, c.x.edPub(cv, k)), c.x.tc.BV(16, 1)})
	}
	I[owPkg+"Point_mulBaseG"] = func(c *callCtx) []Outcome {
		k := c.bytes(0)
		cv := c.term(1).C
		if len(k) != 32 {
			return c.ret(nilS)
		}
		tc := c.x.tc
		if cn := curveName(cv); cn != "" {
			a, b := c.x.branch(c.st, c.x.inRange1N(be256(tc, k), curveN(cn)))
			var outs []Outcome
			if b != nil {
				outs = append(outs, Outcome{kind: kReturn, st: b, val: nilS})
			}
			if a != nil {
				p := c.x.secpPoint(cn, k)
				pre := tc.Concat(tc.BV(7, 1), tc.Extract(p[63], 0, 0))
				outs = append(outs, Outcome{kind: kReturn, st: a, val: c.x.newByteSlice(a, append([]*Term{pre}, p[:32]...))})
			}
			return outs
		}
		if edName(cv) != "ed" {
			return c.ret(nilS)
		}
		return c.ret(c.x.newByteSlice(c.st, c.x.edPub(cv, k)))
	}
	I[owPkg+"Point_mulBaseG_add"] = func(c *callCtx) []Outcome {
		p, k := c.bytes(0), c.bytes(1)
		cv := c.term(2).C
		tc := c.x.tc
		if len(k) != 32 {
			return c.ret(TupleV{nilS, tc.False})
		}
		cn := curveName(cv)
		if cn == "" {
			if edName(cv) != "ed" {
				return c.ret(TupleV{nilS, tc.False})
			}
			q := make([]*Term, 32)
			for i := range q {
				q[i] = tc.b8[0]
				if i < len(p) {
					q[i] = p[i]
				}
			}
			generic := func(st *State) []Outcome {
				inf := c.x.uf("edaddinf", [][]*Term{q, k}, 1, func() []*Term { return []*Term{tc.ZExt(c.x.fresh(1, "inf"), 8)} }, nil)
				a, b := c.x.branch(st, tc.Eq(inf[0], tc.b8[0]))
				var outs []Outcome
				if b != nil {
					outs = append(outs, Outcome{kind: kReturn, st: b, val: TupleV{nilS, tc.True}})
				}
				if a != nil {
					r := c.x.uf("edadd", [][]*Term{q, k}, 32, nil, func(b [][]byte) []byte {
						r, _ := owcrypt.Point_mulBaseG_add(b[0], b[1], uint32(cv))
						return r
					})
					outs = append(outs, Outcome{kind: kReturn, st: a, val: TupleV{c.x.newByteSlice(a, r), tc.False}})
				}
				return outs
			}
			// (k0*G) + k*G = (k0+k)*G, scalars little-endian, for sums below 2^255
			for _, pv := range c.x.prov {
				if pv.curve != "ed" || !sameTerms(pv.pt, q) {
					continue
				}
				sum := c.x.bigAdd(BigV{tc.False, trimMag(tc, be256(tc, rev(k)))}, BigV{tc.False, trimMag(tc, be256(tc, rev(pv.k)))})
				w := max(sum.mag.W, 257)
				yes, no := c.x.branch(c.st, tc.Ult(tc.ZExt(sum.mag, w), tc.BVBig(w, new(big.Int).Lsh(big.NewInt(1), 255))))
				var outs []Outcome
				if no != nil {
					outs = generic(no)
				}
				if yes != nil {
					order, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
					m := c.x.bigMod(sum.mag, tc.BVBig(253, order))
					a, b := c.x.branch(yes, tc.Not(tc.Eq(m, tc.BV(m.W, 0))))
					if b != nil {
						outs = append(outs, Outcome{kind: kReturn, st: b, val: TupleV{nilS, tc.True}})
					}
					if a != nil {
						outs = append(outs, Outcome{kind: kReturn, st: a, val: TupleV{c.x.newByteSlice(a, c.x.edPub(cv, rev(termBytesBE(tc, sum.mag, 32)))), tc.False}})
					}
				}
				return outs
			}
			return generic(c.st)
		}
		if len(p) < 32 {
			return c.panicv("slice bounds out of range")
		}
		if len(p) != 64 {
			panic(unsupported("Point_mulBaseG_add point length"))
		}
		n := curveN(cn)
		for _, pv := range c.x.prov {
			if pv.curve != cn || !sameTerms(pv.pt, p) {
				continue
			}
			sum := c.x.bigAdd(BigV{tc.False, trimMag(tc, be256(tc, k))}, BigV{tc.False, trimMag(tc, be256(tc, pv.k))})
			m := tc.ZExt(c.x.bigMod(sum.mag, tc.BVBig(256, n)), 256)
			a, b := c.x.branch(c.st, tc.Not(tc.Eq(m, tc.BV(256, 0))))
			var outs []Outcome
			if b != nil {
				outs = append(outs, Outcome{kind: kReturn, st: b, val: TupleV{nilS, tc.True}})
			}
			if a != nil {
				outs = append(outs, Outcome{kind: kReturn, st: a, val: TupleV{c.x.newByteSlice(a, c.x.secpPoint(cn, termBytesBE(tc, m, 32))), tc.False}})
			}
			return outs
		}
		inf := c.x.uf("addinf_"+cn, [][]*Term{p, k}, 1, func() []*Term { return []*Term{tc.ZExt(c.x.fresh(1, "inf"), 8)} }, func(b [][]byte) []byte {
			_, i := owcrypt.Point_mulBaseG_add(b[0], b[1], uint32(cv))
			if i {
				return []byte{1}
			}
			return []byte{0}
		})
		a, b := c.x.branch(c.st, tc.Eq(inf[0], tc.b8[0]))
		var outs []Outcome
		if b != nil {
			outs = append(outs, Outcome{kind: kReturn, st: b, val: TupleV{nilS, tc.True}})
		}
		if a != nil {
			nat := func(b [][]byte) []byte { r, _ := owcrypt.Point_mulBaseG_add(b[0], b[1], uint32(cv)); return r }
			xs := c.x.uf("addx_"+cn, [][]*Term{p, k}, 32, nil, func(b [][]byte) []byte { return nat(b)[:32] })
			par := c.x.uf("addp_"+cn, [][]*Term{p, k}, 1, func() []*Term { return []*Term{tc.ZExt(c.x.fresh(1, "par"), 8)} }, func(b [][]byte) []byte { return []byte{nat(b)[63] & 1} })
			r := append(append([]*Term{}, xs...), c.x.secpY(cn, xs, tc.Extract(par[0], 0, 0))...)
			outs = append(outs, Outcome{kind: kReturn, st: a, val: TupleV{c.x.newByteSlice(a, r), tc.False}})
		}
		return outs
	}
	I[owPkg+"PointDecompress"] = func(c *callCtx) []Outcome {
		p := c.bytes(0)
		tc := c.x.tc
		if len(p) != 33 {
			return c.ret(nilS)
		}
		cn := curveName(c.term(1).C)
		if cn == "" {
			return c.ret(nilS)
		}
		par := tc.Extract(p[0], 0, 0)
		a, b := c.x.branch(c.st, tc.Eq(tc.Extract(p[0], 7, 1), tc.BV(7, 1)))
		var outs []Outcome
		if b != nil {
			outs = append(outs, Outcome{kind: kReturn, st: b, val: nilS})
		}
		if a != nil {
			r := append([]*Term{tc.b8[4]}, p[1:]...)
			r = append(r, c.x.secpY(cn, p[1:], par)...)
			outs = append(outs, Outcome{kind: kReturn, st: a, val: c.x.newByteSlice(a, r)})
		}
		return outs
	}
	I[owPkg+"Signature"] = func(c *callCtx) []Outcome {
		k, msg := c.bytes(0), c.bytes(2)
		cv := c.term(3).C
		tc := c.x.tc
		fail := func(st *State, code uint64) Outcome {
			return Outcome{kind: kReturn, st: st, val: TupleV{nilS, tc.b8[0], tc.BV(16, code)}}
		}
		if cn := curveName(cv); cn != "" {
			if cn == "sm2" {
				panic(unsupported("sm2 signature"))
			}
			if len(k) != 32 {
				return []Outcome{fail(c.st, 0xE000)}
			}
			if len(msg) != 32 {
				return []Outcome{fail(c.st, 0xE007)}
			}
			n := curveN(cn)
			a, b := c.x.branch(c.st, c.x.inRange1N(be256(tc, k), n))
			var outs []Outcome
			if b != nil {
				outs = append(outs, fail(b, 0xE000))
			}
			if a != nil {
				first := false
				sig := c.x.uf("sign_"+cn, [][]*Term{k, msg}, 65, func() []*Term {
					first = true
					r := make([]*Term, 65)
					for i := 0; i < 64; i++ {
						r[i] = c.x.fresh(8, "sig")
					}
					r[64] = tc.ZExt(c.x.fresh(1, "v"), 8)
					return r
				}, nil)
				if first {
					c.x.sol.AddAxiom(c.x.inRange1N(be256(tc, sig[:32]), n))
					c.x.sol.AddAxiom(c.x.inRange1N(be256(tc, sig[32:64]), n))
					if !c.x.noSignVerify {
						c.x.sol.AddAxiom(tc.Implies(c.x.inRange1N(be256(tc, k), n), c.x.ecdsaVerify(cn, c.x.secpPoint(cn, k), msg, sig[:32], sig[32:64])))
					}
				}
				outs = append(outs, Outcome{kind: kReturn, st: a, val: TupleV{c.x.newByteSlice(a, append([]*Term{}, sig[:64]...)), sig[64], tc.BV(16, 1)}})
			}
			return outs
		}
		en := edName(cv)
		if en == "" {
			panic(unsupported("Signature curve"))
		}
		if len(k) != 32 {
			return []Outcome{fail(c.st, 0)}
		}
		first := false
		sig := c.x.uf("edsign_"+en, [][]*Term{k, msg}, 64, func() []*Term {
			first = true
			r := make([]*Term, 64)
			for i := range r {
				r[i] = c.x.fresh(8, "sig")
			}
			if en == "ed" || en == "ednormal" {
				r[63] = tc.ZExt(c.x.fresh(5, "sig"), 8)
			}
			return r
		}, nil)
		if first && !c.x.noSignVerify {
			ok := c.x.edVerify(cv, c.x.edPub(cv, k), msg, sig)
			if en == "ed" { // raw scalars verify only when clamped
				cl := tc.AndN(tc.Eq(tc.And(k[0], tc.BV(8, 7)), tc.b8[0]), tc.Eq(tc.And(k[31], tc.BV(8, 0xC0)), tc.BV(8, 0x40)))
				ok = tc.Implies(cl, ok)
			}
			if (en == "x25519" || en == "c25519s") && len(msg) == 0 {
				ok = tc.True
			}
			c.x.sol.AddAxiom(ok)
		}
		return c.ret(TupleV{c.x.newByteSlice(c.st, append([]*Term{}, sig...)), tc.b8[0], tc.BV(16, 1)})
	}
	I[owPkg+"Verify"] = func(c *callCtx) []Outcome {
		pub, msg, sig := c.bytes(0), c.bytes(2), c.bytes(3)
		cv := c.term(4).C
		tc := c.x.tc
		if cn := curveName(cv); cn != "" {
			if len(pub) != 64 || len(sig) != 64 || len(msg) != 32 {
				return c.ret(tc.BV(16, 0))
			}
			return c.ret(suc(c.x, c.x.ecdsaVerify(cn, pub, msg, sig[:32], sig[32:])))
		}
		en := edName(cv)
		if en == "" {
			return c.ret(tc.BV(16, 0xE002))
		}
		if len(pub) != 32 || len(sig) != 64 || ((en == "x25519" || en == "c25519s") && len(msg) == 0) {
			return c.ret(tc.BV(16, 0))
		}
		return c.ret(suc(c.x, c.x.edVerify(cv, pub, msg, sig)))
	}
	I[owPkg+"RecoverPubkey"] = func(c *callCtx) []Outcome {
		sig, msg := c.bytes(0), c.bytes(1)
		cn := curveName(c.term(2).C)
		tc := c.x.tc
		if cn == "" {
			return c.ret(TupleV{nilS, tc.BV(16, 0xE002)})
		}
		if len(sig) != 65 || len(msg) != 32 {
			return c.ret(TupleV{nilS, tc.BV(16, 0)})
		}
		okb := c.x.uf("recok_"+cn, [][]*Term{sig, msg}, 1, func() []*Term { return []*Term{tc.ZExt(c.x.fresh(1, "rec"), 8)} }, nil)
		a, b := c.x.branch(c.st, tc.Eq(okb[0], tc.b8[1]))
		var outs []Outcome
		if b != nil {
			outs = append(outs, Outcome{kind: kReturn, st: b, val: TupleV{nilS, tc.BV(16, 0)}})
		}
		if a != nil {
			p := c.x.uf("rec_"+cn, [][]*Term{sig, msg}, 64, nil, nil)
			// a recovered key verifies the signature
			c.x.sol.AddLaw(okb[0], tc.Implies(tc.Eq(okb[0], tc.b8[1]), c.x.ecdsaVerify(cn, p, msg, sig[:32], sig[32:64])))
			outs = append(outs, Outcome{kind: kReturn, st: a, val: TupleV{c.x.newByteSlice(a, p), tc.BV(16, 1)}})
		}
		return outs
	}
	conv := func(name string, f func([]byte) ([]byte, error)) intrFn {
		return func(c *callCtx) []Outcome {
			b := c.bytes(0)
			if len(b) != 32 {
				return c.ret(TupleV{nilS, c.x.mkErr("invalid point")})
			}
			return c.ret(TupleV{c.x.newByteSlice(c.st, c.x.uf(name, [][]*Term{b}, 32, nil, func(in [][]byte) []byte { r, _ := f(in[0]); return r })), IfaceV{}})
		}
	}
	I[owPkg+"CURVE25519_convert_X_to_Ed"] = conv("x2ed", owcrypt.CURVE25519_convert_X_to_Ed)
	I[owPkg+"CURVE25519_convert_Ed_to_X"] = conv("ed2x", owcrypt.CURVE25519_convert_Ed_to_X)

	// std hashes share the idealised functions
	newHash := func(c *callCtx, kind string, key []*Term) Value {
		id := c.x.alloc(c.st, OpaqueV{kind: kind, data: []Value{OpaqueV{kind: "k", data: termsToVals(key)}, OpaqueV{kind: "d"}}})
		return IfaceV{opaqueHashType, Ptr{obj: id}}
	}
	for n, k := range map[string]string{"crypto/sha256.New": "sha256", "crypto/sha512.New": "sha512", "crypto/sha1.New": "sha1", "golang.org/x/crypto/ripemd160.New": "ripemd160", "crypto/md5.New": "md5"} {
		k := k
		I[n] = func(c *callCtx) []Outcome { return c.ret(newHash(c, k, nil)) }
	}
	I["crypto/sha256.Sum256"] = func(c *callCtx) []Outcome {
		return c.ret(&ArrV{e: termsToVals(c.x.hash("sha256", c.bytes(0)))})
	}
	I["crypto/sha512.Sum512"] = func(c *callCtx) []Outcome {
		return c.ret(&ArrV{e: termsToVals(c.x.hash("sha512", c.bytes(0)))})
	}
	I["crypto/hmac.New"] = func(c *callCtx) []Outcome {
		cl, ok := c.args[0].(*Closure)
		if !ok || cl == nil || cl.fn == nil {
			panic(unsupported("hmac.New"))
		}
		n := cl.fn.String()
		k := ""
		switch {
		case strings.HasPrefix(n, "crypto/sha512.New"):
			k = "sha512"
		case strings.HasPrefix(n, "crypto/sha256.New"):
			k = "sha256"
		default:
			panic(unsupported("hmac of " + n))
		}
		return c.ret(newHash(c, "hmac_"+k, c.bytes(1)))
	}
	I["hash.Write"] = func(c *callCtx) []Outcome {
		p := c.recv.(Ptr)
		b := c.bytes(0)
		o := c.x.objW(c.st, p.obj)
		h := o.v.(OpaqueV)
		d := h.data[1].(OpaqueV)
		nd := append(append([]Value{}, d.data...), termsToVals(b)...)
		o.v = OpaqueV{kind: h.kind, data: []Value{h.data[0], OpaqueV{kind: "d", data: nd}}}
		return c.ret(TupleV{c.x.tc.BV(64, uint64(len(b))), IfaceV{}})
	}
	I["hash.Reset"] = func(c *callCtx) []Outcome {
		o := c.x.objW(c.st, c.recv.(Ptr).obj)
		h := o.v.(OpaqueV)
		o.v = OpaqueV{kind: h.kind, data: []Value{h.data[0], OpaqueV{kind: "d"}}}
		return c.ret(nil)
	}
	I["hash.Sum"] = func(c *callCtx) []Outcome {
		h := c.x.obj(c.st, c.recv.(Ptr).obj).v.(OpaqueV)
		d := valsToTerms(h.data[1].(OpaqueV).data)
		var out []*Term
		if strings.HasPrefix(h.kind, "hmac_") {
			out = c.x.hmac(h.kind[5:], valsToTerms(h.data[0].(OpaqueV).data), d)
		} else {
			out = c.x.hash(h.kind, d)
		}
		return c.ret(c.x.newByteSlice(c.st, append(append([]*Term{}, c.bytes(0)...), out...)))
	}
	I["hash.Size"] = func(c *callCtx) []Outcome {
		h := c.x.obj(c.st, c.recv.(Ptr).obj).v.(OpaqueV)
		return c.ret(c.x.tc.BV(64, uint64(prim[strings.TrimPrefix(h.kind, "hmac_")].n)))
	}
}

func (x *Exec) hmac(h string, key, data []*Term) []*Term {
	n, id := 64, owcrypt.HMAC_SHA512_ALG
	if h == "sha256" {
		n, id = 32, owcrypt.HMAC_SHA256_ALG
	}
	return x.uf("hmac_"+h, [][]*Term{key, data}, n, nil, func(b [][]byte) []byte { return owcrypt.Hmac(b[0], b[1], id) })
}

// realBytes evaluates bytes under a model; ideal texts (JSON, decimal, base58) among them come out as
// the real encodings of the values they stand for, which is what a native run sees.
func (x *Exec) realBytes(m *Model, t []*Term, depth int) []byte {
	var b []byte
	for i := 0; i < len(t); {
		if depth < 6 && i+1 < len(t) {
			if r, n := x.realText(m, t[i:], depth); n > 0 {
				b = append(b, r...)
				i += n
				continue
			}
		}
		b = append(b, byte(m.Eval64(t[i])))
		i++
	}
	return b
}

func (x *Exec) realText(m *Model, t []*Term, depth int) ([]byte, int) {
	is := func(out []*Term) bool {
		if len(out) < 2 || len(out) > len(t) || out[len(out)/2] != t[len(out)/2] || out[len(out)/2].Op == OConst {
			return false
		}
		for i := range out {
			if out[i] != t[i] {
				return false
			}
		}
		return true
	}
	for _, e := range x.jsonTab {
		if is(e.txt) {
			var sb strings.Builder
			x.realJSON(m, e.tree, &sb, depth+1)
			return []byte(sb.String()), len(e.txt)
		}
	}
	for _, e := range x.pairTab {
		if is(e.txt) && e.zero != nil && e.zero.Op == OConst && e.zero.C == '1' {
			return []byte(base58Real(x.realBytes(m, e.raw, depth+1))), len(e.txt)
		}
	}
	for _, a := range x.ufs["decimal"] {
		if !a.conc && is(a.out) {
			v := new(big.Int)
			for i, d := range a.args[0] {
				c := int64(byte(m.Eval64(d)))
				if i == 0 {
					c = int64(int8(c))
				}
				v.Add(v.Lsh(v, 8), big.NewInt(c))
			}
			return []byte(v.String()), len(a.out)
		}
	}
	return nil, 0
}

func base58Real(b []byte) string {
	const al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	z := 0
	for z < len(b) && b[z] == 0 {
		z++
	}
	v, q, r := new(big.Int).SetBytes(b), big.NewInt(58), new(big.Int)
	s := ""
	for v.Sign() > 0 {
		v.DivMod(v, q, r)
		s = string(al[r.Int64()]) + s
	}
	return strings.Repeat("1", z) + s
}

func (x *Exec) realJSON(m *Model, n *jnode, sb *strings.Builder, depth int) {
	q := func(s string) { b, _ := json.Marshal(s); sb.Write(b) }
	switch n.kind {
	case 'n':
		sb.WriteString("null")
	case 'f':
		sb.WriteString(n.lit)
	case 's':
		q(string(x.realBytes(m, n.str, depth)))
	case 'y':
		q(base64.StdEncoding.EncodeToString(x.realBytes(m, n.str, depth)))
	case 'b':
		sb.WriteString(strconv.FormatBool(m.Eval64(n.num) == 1))
	case 'i':
		if n.uns {
			sb.WriteString(strconv.FormatUint(m.Eval64(n.num), 10))
		} else {
			sb.WriteString(strconv.FormatInt(sx(m.Eval64(n.num), n.num.W), 10))
		}
	case 'a', 'o':
		op, cl := "[", "]"
		if n.kind == 'o' {
			op, cl = "{", "}"
		}
		sb.WriteString(op)
		for i, k := range n.kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			if n.kind == 'o' {
				q(n.keys[i])
				sb.WriteByte(':')
			}
			x.realJSON(m, k, sb, depth+1)
		}
		sb.WriteString(cl)
	}
}

// ufTable evaluates all idealised applications under a model (for replay).
func (x *Exec) ufTable(m *Model) []map[string]interface{} {
	var r []map[string]interface{}
	ev := func(t []*Term) string { return hex.EncodeToString(x.realBytes(m, t, 0)) }
	// applications the query did not constrain evaluate to arbitrary defaults: where one collides
	// with a constrained application of equal arguments, the constrained one counts
	seenT := map[int]bool{}
	var known func(t *Term) bool
	known = func(t *Term) bool {
		if t.Op == OVar {
			return m.v[int(t.C)] != nil
		}
		if v, ok := seenT[t.ID]; ok {
			return v
		}
		ok := true
		for _, a := range t.A {
			if !known(a) {
				ok = false
				break
			}
		}
		seenT[t.ID] = ok
		return ok
	}
	dup := map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		for name, apps := range x.ufs {
			for _, a := range apps {
				if a.conc {
					continue
				}
				rel := true
				for _, o := range a.out {
					rel = rel && known(o)
				}
				if rel != (pass == 0) {
					continue
				}
				var args []string
				for _, g := range a.args {
					args = append(args, ev(g))
				}
				k := name + "|" + strings.Join(args, "|")
				if dup[k] {
					continue
				}
				dup[k] = true
				r = append(r, map[string]interface{}{"f": name, "a": args, "o": ev(a.out)})
			}
		}
	}
	return r
}

func rev(b []*Term) []*Term {
	r := make([]*Term, len(b))
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	return r
}
