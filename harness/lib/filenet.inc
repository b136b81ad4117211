// ---- reference serialization of a filenet transfer
type vfPay struct {
	to  []byte
	amt uint64
}
type vfFn struct {
	from, time []byte
	outs       []vfPay
}

func vfAddr(h []byte) string { return Encode([]byte(sym.Hex(h)), BitcoinAlphabet) }

func (t *vfFn) total() uint64 {
	s := uint64(0)
	for _, o := range t.outs {
		s += o.amt
	}
	return s
}

func (t *vfFn) raw() []byte {
	r := vfCat(t.from, vfLE(uint64(len(t.outs)), 8), vfLE(t.total(), 8), t.time)
	for _, o := range t.outs {
		r = vfCat(r, o.to, vfLE(o.amt, 8))
	}
	return r
}

func (t *vfFn) digest() []byte { return owcrypt.Hash(t.raw(), 0, owcrypt.HASH_ALG_SHA256) }
