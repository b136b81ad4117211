// ---- reference serialization of a hypercash transaction
type vfHIn struct {
	id         []byte
	n          uint32
	amt        uint64
	bh, bi     uint32
	lock       []byte
}
type vfHOut struct {
	addr   string
	script []byte
	amt    uint64
}
type vfHTx struct {
	ins     []vfHIn
	outs    []vfHOut
	lt, exp uint32
}

func vfB(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_BLAKE256) }

func vfHSum(b []byte) []byte { return vfB(vfB(b))[:4] }

func vfHAddr(pre, h []byte) string {
	b := vfCat(pre, h)
	return Encode(vfCat(b, vfHSum(b)), BitcoinAlphabet)
}

func vfHTxNew(nin, nout int) *vfHTx {
	sym.Pair("Encode", "Decode")
	names := []string{"0", "1", "2", "3"}
	t := &vfHTx{lt: sym.U32("locktime"), exp: sym.U32("expiry")}
	ln := []int{25, 23, 35, 108}[sym.Choose("scriptLen", 4)]
	for i := 0; i < nin; i++ {
		t.ins = append(t.ins, vfHIn{sym.Bytes("txid"+names[i], 32), sym.U32("vout" + names[i]), sym.U64("spent" + names[i]), sym.U32("height" + names[i]), sym.U32("index" + names[i]), sym.Bytes("lock"+names[i], ln)})
	}
	for i := 0; i < nout; i++ {
		h := sym.Bytes("dest"+names[i], 20)
		t.outs = append(t.outs, vfHOut{vfHAddr([]byte{0x09, 0x7f}, h), vfP2PKH(h), sym.U64("amount" + names[i])})
	}
	return t
}

func vfHTxMany(nin, nout int) *vfHTx {
	sym.Pair("Encode", "Decode")
	t := &vfHTx{}
	id := vfMustHex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f")
	lock := vfP2PKH(id[:20])
	for i := 0; i < nin; i++ {
		t.ins = append(t.ins, vfHIn{id, uint32(i), uint64(i), 1, 2, lock})
	}
	t.ins[nin-1].n = sym.U32("vout")
	a := vfHAddr([]byte{0x09, 0x7f}, id[:20])
	for i := 0; i < nout; i++ {
		t.outs = append(t.outs, vfHOut{a, lock, uint64(i)})
	}
	t.outs[nout-1].amt = sym.U64("amount")
	return t
}

func (t *vfHTx) vins() (r []Vin) {
	for _, in := range t.ins {
		r = append(r, Vin{TxID: sym.Hex(in.id), Vout: in.n, Amount: in.amt, LockScript: sym.Hex(in.lock), BlockHeight: in.bh, BlockIndex: in.bi})
	}
	return
}

func (t *vfHTx) vouts() (r []Vout) {
	for _, o := range t.outs {
		r = append(r, Vout{Amount: o.amt, Address: o.addr})
	}
	return
}

func (t *vfHTx) prefix(ser byte) []byte {
	b := vfCat([]byte{1, 0, ser, 0}, vfVarLen(len(t.ins)))
	for _, in := range t.ins {
		b = vfCat(b, vfRev(in.id), vfLE(uint64(in.n), 4), []byte{0, 255, 255, 255, 255})
	}
	b = vfCat(b, vfVarLen(len(t.outs)))
	for _, o := range t.outs {
		b = vfCat(b, vfLE(o.amt, 8), []byte{0, 0}, vfVarBytes(o.script))
	}
	return vfCat(b, vfLE(uint64(t.lt), 4), vfLE(uint64(t.exp), 4))
}

func (in vfHIn) wit() []byte {
	return vfCat(vfLE(in.amt, 8), vfLE(uint64(in.bh), 4), vfLE(uint64(in.bi), 4))
}

func (t *vfHTx) digest(i int) []byte {
	w := vfCat([]byte{1, 0, 3, 0}, vfVarLen(len(t.ins)))
	for j, in := range t.ins {
		if j == i {
			w = vfCat(w, vfVarBytes(in.lock))
		} else {
			w = append(w, 0)
		}
	}
	return vfB(vfCat(vfLE(1, 4), vfB(t.prefix(1)), vfB(w)))
}

func (t *vfHTx) text() string {
	s := sym.Hex(t.prefix(0))
	for _, in := range t.ins {
		s += ":" + sym.Hex(vfVarBytes(in.lock)) + "/" + sym.Hex(in.wit())
	}
	return s
}
