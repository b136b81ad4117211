// ---- reference serialization of the waykichain transactions
func vfVar(n uint64) []byte {
	r := []byte{byte(n & 0x7f)}
	for n > 0x7f {
		n = n>>7 - 1
		r = vfCat([]byte{byte(n&0x7f) | 0x80}, r)
	}
	return r
}

type vfWicc struct {
	kind                byte
	height, fee, amount uint64
	from, app           []uint64 // register ids
	pub, dest           []byte
	coin                string
	contract            []byte
}

func vfReg(id []uint64) []byte {
	b := vfCat(vfVar(id[0]), vfVar(id[1]))
	return vfCat([]byte{byte(len(b))}, b)
}

func (t *vfWicc) body() []byte {
	h := vfVar(t.height)
	switch t.kind {
	case 2:
		return vfCat(h, []byte{33}, t.pub, []byte{0}, vfVar(t.fee))
	case 3:
		return vfCat(h, vfReg(t.from), []byte{20}, t.dest, vfVar(t.fee), vfVar(t.amount), []byte{0})
	case 4:
		return vfCat(h, vfReg(t.from), vfReg(t.app), vfVar(t.fee), vfVar(t.amount), vfVarBytes(t.contract))
	}
	return vfCat(h, vfReg(t.from), []byte("\x04WICC"), vfVar(t.fee), []byte{1, 20}, t.dest, vfVarBytes([]byte(t.coin)), vfVar(t.amount), []byte{0})
}

func (t *vfWicc) template() string { return sym.Hex(vfCat([]byte{t.kind, 1}, t.body())) }

func (t *vfWicc) digest() []byte {
	return owcrypt.Hash(owcrypt.Hash(vfCat([]byte{1, t.kind}, t.body()), 0, owcrypt.HASH_ALG_SHA256), 0, owcrypt.HASH_ALG_SHA256)
}

func vfAddr(p byte, h []byte) string {
	b := vfCat([]byte{p}, h)
	s := owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256), 0, owcrypt.HASH_ALG_SHA256)
	return Encode(vfCat(b, s[:4]), BitcoinAlphabet)
}

// all four kinds with small numbers
func vfWiccNew(kind byte) *vfWicc {
	sym.Pair("Encode", "Decode")
	return &vfWicc{kind: kind, height: 300, fee: 10000, amount: 5, from: []uint64{158, 1}, app: []uint64{7, 20}, pub: sym.Bytes("pub", 33), dest: sym.Bytes("dest", 20), coin: "WUSD", contract: sym.Bytes("contract", 9)}
}
