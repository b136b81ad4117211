// ---- reference serialization of an ontology native transfer
type vfOnt struct {
	asset           int
	v2              bool
	payer, from, to []byte
	amount          []byte // big endian
	price, limit    uint64
	nonce           []byte
}

func vfEmit(be []byte) []byte {
	for len(be) > 0 && be[0] == 0 {
		be = be[1:]
	}
	if len(be) == 0 {
		return []byte{0}
	}
	if len(be) == 1 && be[0] < 16 {
		return []byte{0x50 + be[0]}
	}
	le := vfRev(be)
	if be[0] >= 0x80 {
		le = vfCat(le, []byte{0})
	}
	return vfCat([]byte{byte(len(le))}, le)
}

func (t *vfOnt) payload() []byte {
	ont, ong := make([]byte, 20), make([]byte, 20)
	ont[19], ong[19] = 1, 2
	p := vfCat([]byte{0, 0xc6, 0x6b, 0x6a, 20}, t.from, []byte{0xc8, 0x6a})
	if t.asset == 2 {
		p = vfCat(p, []byte{20}, ont, []byte{0xc8, 0x6a})
	}
	p = vfCat(p, []byte{20}, t.to, []byte{0xc8, 0x6a}, vfEmit(t.amount), []byte{0xc8, 0x6c})
	if t.asset != 2 {
		p = vfCat(p, []byte{0x51, 0xc1})
	}
	method := "transfer"
	if t.v2 {
		method = "transferV2"
	}
	contract := ong
	if t.asset == 0 {
		contract = ont
	}
	if t.asset == 2 {
		method = "transferFrom"
	}
	name := "Ontology.Native.Invoke"
	return vfCat(p, []byte{byte(len(method))}, []byte(method), []byte{20}, contract, []byte{0, 0x68, byte(len(name))}, []byte(name))
}

// the transaction without its signatures
func (t *vfOnt) unsigned() []byte {
	p := t.payload()
	return vfCat([]byte{0, 0xd1}, t.nonce, vfLE(t.price, 8), vfLE(t.limit, 8), t.payer, []byte{byte(len(p))}, p, []byte{0})
}

func (t *vfOnt) template() string { return sym.Hex(vfCat(t.unsigned(), []byte{0})) }

func (t *vfOnt) digest() []byte {
	h := t.unsigned()
	for i := 0; i < 3; i++ {
		h = owcrypt.Hash(h, 0, owcrypt.HASH_ALG_SHA256)
	}
	return h
}

func vfAddr(p byte, h []byte) string {
	b := vfCat([]byte{p}, h)
	s := owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256), 0, owcrypt.HASH_ALG_SHA256)
	return Encode(vfCat(b, s[:4]), BitcoinAlphabet)
}

func vfOntNew() *vfOnt {
	sym.Pair("Encode", "Decode")
	t := &vfOnt{from: sym.Bytes("from", 20), to: sym.Bytes("to", 20), price: sym.U64("price"), limit: sym.U64("limit")}
	t.payer = t.from
	t.amount = []byte{3}
	return t
}
