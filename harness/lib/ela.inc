// ---- reference serialization of an elastos transfer
type vfEIn struct {
	id    []byte
	n     uint16
	owner string
}
type vfEOut struct {
	asset []byte
	addr  string
	h     []byte
	amt   uint64
}
type vfETx struct {
	ins  []vfEIn
	outs []vfEOut
}

func vfESum(b []byte) []byte {
	return owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256), 0, owcrypt.HASH_ALG_SHA256)[:4]
}

func vfEAddr(pre, h []byte) string {
	b := vfCat(pre, h)
	return Encode(vfCat(b, vfESum(b)), BitcoinAlphabet)
}

func vfETxNew(nin, nout int) *vfETx {
	sym.Pair("Encode", "Decode")
	names := []string{"0", "1", "2", "3"}
	t := &vfETx{}
	owners := [][]string{{"A", "B", "C"}, {"A", "A", "B"}, {"A", "B", "A"}, {"A", "A", "A"}}[sym.Choose("owners", 4)]
	for i := 0; i < nin; i++ {
		t.ins = append(t.ins, vfEIn{sym.Bytes("txid"+names[i], 32), sym.U16("vout" + names[i]), owners[i]})
	}
	for i := 0; i < nout; i++ {
		h := sym.Bytes("dest"+names[i], 20)
		t.outs = append(t.outs, vfEOut{sym.Bytes("asset"+names[i], 32), vfEAddr([]byte{0x21}, h), h, sym.U64("amount" + names[i])})
	}
	return t
}

func vfETxMany(nin, nout int) *vfETx {
	sym.Pair("Encode", "Decode")
	t := &vfETx{}
	id := vfMustHex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f")
	for i := 0; i < nin; i++ {
		t.ins = append(t.ins, vfEIn{id, uint16(i), "A"})
	}
	t.ins[nin-1].n = sym.U16("vout")
	a := vfEAddr([]byte{0x21}, id[:20])
	for i := 0; i < nout; i++ {
		t.outs = append(t.outs, vfEOut{id, a, id[:20], uint64(i)})
	}
	t.outs[nout-1].amt = sym.U64("amount")
	return t
}

func (t *vfETx) vins() (r []Vin) {
	for _, in := range t.ins {
		r = append(r, Vin{TxID: sym.Hex(in.id), Vout: in.n, Address: in.owner})
	}
	return
}

func (t *vfETx) vouts() (r []Vout) {
	for _, o := range t.outs {
		r = append(r, Vout{AssetID: sym.Hex(o.asset), Amount: o.amt, Address: o.addr})
	}
	return
}

func vfUvar(n int) []byte {
	b := []byte{}
	for n >= 128 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

func (t *vfETx) raw() []byte {
	b := vfCat([]byte{2, 0, 0}, vfUvar(len(t.ins)))
	for _, in := range t.ins {
		b = vfCat(b, vfRev(in.id), vfLE(uint64(in.n), 2), []byte{255, 255, 255, 255})
	}
	b = vfCat(b, vfUvar(len(t.outs)))
	for _, o := range t.outs {
		b = vfCat(b, vfRev(o.asset), vfLE(o.amt, 8), []byte{0, 0, 0, 0, 0x21}, o.h)
	}
	return append(b, 0, 0, 0, 0)
}
