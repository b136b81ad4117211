// ---- reference serialization of a ripple payment
func vfBE(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = byte(v >> uint(8*i))
	}
	return b
}

type vfRip struct {
	from, to, pub                  []byte
	hasTag                         bool
	tag, seq, last                 uint32
	amount, fee                    uint64
	memoType, memoData, memoFormat string
}

func vfVL(b []byte) []byte {
	n := len(b)
	if n <= 192 {
		return vfCat([]byte{byte(n)}, b)
	}
	n -= 193
	return vfCat([]byte{byte(193 + n>>8), byte(n)}, b)
}

func (t *vfRip) pre() []byte {
	r := vfCat([]byte{0x12, 0, 0, 0x22, 0x80, 0, 0, 0, 0x24}, vfBE(uint64(t.seq), 4))
	if t.hasTag {
		r = vfCat(r, []byte{0x2e}, vfBE(uint64(t.tag), 4))
	}
	return vfCat(r, []byte{0x20, 0x1b}, vfBE(uint64(t.last), 4), []byte{0x61}, vfBE(t.amount|1<<62, 8), []byte{0x68}, vfBE(t.fee|1<<62, 8), []byte{0x73, 33}, t.pub)
}

func (t *vfRip) post() []byte {
	r := vfCat([]byte{0x81, 20}, t.from, []byte{0x83, 20}, t.to)
	if t.memoData == "" {
		return r
	}
	r = vfCat(r, []byte{0xf9, 0xea})
	if t.memoType != "" {
		r = vfCat(r, []byte{0x7c}, vfVL([]byte(t.memoType)))
	}
	r = vfCat(r, []byte{0x7d}, vfVL([]byte(t.memoData)))
	if t.memoFormat != "" {
		r = vfCat(r, []byte{0x7e}, vfVL([]byte(t.memoFormat)))
	}
	return vfCat(r, []byte{0xe1, 0xf1})
}

func (t *vfRip) text() string { return sym.Hex(t.pre()) + "s" + sym.Hex(t.post()) }
func (t *vfRip) digest() []byte {
	return owcrypt.Hash(vfCat([]byte("STX\x00"), t.pre(), t.post()), 0, owcrypt.HASH_ALG_SHA512)[:32]
}

func vfAddr(pre, h []byte) string {
	b := vfCat(pre, h)
	return Encode(vfCat(b, owcrypt.Hash(b, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]), RippleAlphabet)
}

func vfRipNew() *vfRip {
	t := &vfRip{from: sym.Bytes("from", 20), to: sym.Bytes("to", 20), pub: sym.Bytes("pub", 33), seq: sym.U32("seq"), last: sym.U32("last"), amount: sym.U64("amount"), fee: sym.U64("fee")}
	sym.Assume(t.pub[0] == 2 || t.pub[0] == 3)
	sym.Assume(t.amount > 0 && t.amount < 1<<62)
	sym.Assume(t.fee > 0 && t.fee < 1<<62)
	return t
}
