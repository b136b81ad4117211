// ---- reference serialization of the verge, aliencoin and vollar transactions
type vfCoin struct {
	id   []byte
	n    uint32
	lock []byte
}
type vfPay struct {
	addr   string
	script []byte
	amt    uint64
}
type vfTx3 struct {
	time []byte
	lt   uint32
	ins  []vfCoin
	outs []vfPay
}

const vfPKH, vfSH = «.pkh», «.sh»

func vfPre(sh bool) []byte {
	p := uint16(vfPKH)
	if sh {
		p = vfSH
	}
	«if eq .Pkg "vollarTransaction"»return []byte{byte(p >> 8), byte(p)}«else»return []byte{byte(p)}«end»
}

func vfSum(b []byte) []byte {
	return owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256), 0, owcrypt.HASH_ALG_SHA256)[:4]
}

func vfAddr(pre, h []byte) string {
	b := vfCat(pre, h)
	return Encode(vfCat(b, vfSum(b)), BitcoinAlphabet)
}

func vfTx3New(nin, nout int) *vfTx3 {
	sym.Pair("Encode", "Decode")
	names := []string{"0", "1", "2", "3"}
	t := &vfTx3{}
	ln := 25
	if nin == 1 {
		ln = []int{25, 23, 35, 108}[sym.Choose("scriptLen", 4)]
	}
	for i := 0; i < nin; i++ {
		t.ins = append(t.ins, vfCoin{sym.Bytes("txid"+names[i], 32), sym.U32("vout" + names[i]), sym.Bytes("lock"+names[i], ln)})
	}
	rot := sym.Choose("firstDest", 2)
	for i := 0; i < nout; i++ {
		h := sym.Bytes("dest"+names[i], 20)
		sh := (rot+i)%2 == 1
		s := vfP2PKH(h)
		if sh {
			s = vfP2SH(h)
		}
		t.outs = append(t.outs, vfPay{vfAddr(vfPre(sh), h), s, sym.U64("amount" + names[i])})
	}
	«if ne .Pkg "vollarTransaction"»t.lt = sym.U32("locktime")«end»
	return t
}

func (o vfPay) bytes() []byte {
	«if eq .Pkg "vollarTransaction"»
	return vfCat(vfLE(o.amt, 8), []byte{0}, vfVarBytes(o.script), make([]byte, 32))
	«else»
	return vfCat(vfLE(o.amt, 8), vfVarBytes(o.script))
	«end»
}

// the transaction with the given input scripts (with their length); nil: empty
func (t *vfTx3) raw(scripts [][]byte) []byte {
	b := vfLE(1, 4)
	«if eq .Pkg "vollarTransaction"»b = append(b, 0)«end»
	«if eq .Pkg "vergeTransaction"»b = vfCat(b, t.time)«end»
	b = vfCat(b, vfVarLen(len(t.ins)))
	for i, in := range t.ins {
		b = vfCat(b, vfRev(in.id), vfLE(uint64(in.n), 4))
		if scripts != nil && scripts[i] != nil {
			b = vfCat(b, vfVarBytes(scripts[i]))
		} else {
			b = append(b, 0)
		}
		b = append(b, 255, 255, 255, 255)
	}
	b = vfCat(b, vfVarLen(len(t.outs)))
	for _, o := range t.outs {
		b = vfCat(b, o.bytes())
	}
	«if ne .Pkg "vollarTransaction"»b = vfCat(b, vfLE(uint64(t.lt), 4))«end»
	return b
}

func vfD(b []byte) []byte {
	return owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256), 0, owcrypt.HASH_ALG_SHA256)
}

// the digest signed for input i
func (t *vfTx3) digest(i int) []byte {
	«if eq .Pkg "vollarTransaction"»
	var prev, seq, outs []byte
	for _, in := range t.ins {
		prev = vfCat(prev, vfRev(in.id), vfLE(uint64(in.n), 4))
		seq = append(seq, 255, 255, 255, 255)
	}
	for _, o := range t.outs {
		outs = vfCat(outs, o.bytes())
	}
	in := t.ins[i]
	return vfD(vfCat(vfD(prev), vfD(seq), vfD(outs), make([]byte, 64+16), vfLE(1, 4),
		vfRev(in.id), vfLE(uint64(in.n), 4), vfVarBytes(in.lock), []byte{255, 255, 255, 255}))
	«else»
	s := make([][]byte, len(t.ins))
	s[i] = t.ins[i].lock
	return vfD(vfCat(t.raw(s), vfLE(1, 4)))
	«end»
}

// the text handed around between the driver's calls
func (t *vfTx3) text() string {
	s := sym.Hex(t.raw(nil))
	for _, in := range t.ins {
		s += ":" + sym.Hex(in.lock)
	}
	return s
}
