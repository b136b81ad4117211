// ---- reference serialization of a virtualeconomy payment
type vfVe struct {
	typ         byte
	time        []byte
	amount, fee uint64
	scale       uint16
	to          []byte // 22 bytes
}

func vfBE(v uint64, n int) []byte {
	r := make([]byte, n)
	for i := 0; i < n; i++ {
		r[n-1-i] = byte(v >> uint(8*i))
	}
	return r
}

// the 26 bytes of an address: its body and the checksum
func vfAddrBytes(body []byte) []byte {
	h := owcrypt.Hash(owcrypt.Hash(body, 32, owcrypt.HASH_ALG_BLAKE2B), 0, owcrypt.HASH_ALG_KECCAK256)
	return vfCat(body, h[:4])
}

func (t *vfVe) raw() []byte {
	return vfCat([]byte{t.typ}, t.time, vfBE(t.amount, 8), vfBE(t.fee, 8), vfBE(uint64(t.scale), 2), vfAddrBytes(t.to), []byte{0, 0})
}

func vfVeNew() *vfVe {
	return &vfVe{sym.Byte("type"), sym.Bytes("time", 8), sym.U64("amount"), sym.U64("fee"), sym.U16("scale"), sym.Bytes("to", 22)}
}
