// ---- reference SCALE encoding of a polkadot transfer
func vfCompact(v uint64) []byte {
	switch {
	case v < 1<<6:
		return []byte{byte(v << 2)}
	case v < 1<<14:
		return vfLE(v<<2|1, 2)
	case v < 1<<30:
		return vfLE(v<<2|2, 4)
	}
	n := 4
	for n < 8 && v>>uint(8*n) != 0 {
		n++
	}
	return vfCat([]byte{byte(n-4)<<2 | 3}, vfLE(v, n))
}

type vfDot struct {
	from, to, block, genesis []byte
	code                     []byte
	amount, nonce, fee       uint64
	height                   uint64
	spec, ver                uint32
}

func (t *vfDot) era() []byte { return vfLE(5+(t.height%64)<<4, 2) }

func (t *vfDot) method() []byte { return vfCat(t.code, t.to, vfCompact(t.amount)) }

func (t *vfDot) message() []byte {
	return vfCat(t.method(), t.era(), vfCompact(t.nonce), vfCompact(t.fee), vfLE(uint64(t.spec), 4), vfLE(uint64(t.ver), 4), t.genesis, t.block)
}

func (t *vfDot) signed(sig []byte) []byte {
	b := vfCat([]byte{0x84, 0}, t.from, []byte{0}, sig, t.era(), vfCompact(t.nonce), vfCompact(t.fee), t.method())
	return vfCat(vfCompact(uint64(len(b))), b)
}

func (t *vfDot) tx() TxStruct {
	return TxStruct{
		SenderPubkey: sym.Hex(t.from), RecipientPubkey: sym.Hex(t.to), Amount: t.amount, Nonce: t.nonce, Fee: t.fee,
		BlockHeight: t.height, BlockHash: sym.Hex(t.block), GenesisHash: sym.Hex(t.genesis), SpecVersion: t.spec, TxVersion: t.ver,
	}
}

// which: the one number that is any 64 bit value (amount and height not zero)
func vfDotNew(which int) *vfDot {
	t := &vfDot{from: sym.Bytes("from", 32), to: sym.Bytes("to", 32), block: sym.Bytes("block", 32), genesis: sym.Bytes("genesis", 32),
		code: sym.Bytes("code", 3), amount: 12, nonce: 1, fee: 20, height: sym.U64("height"), spec: sym.U32("spec"), ver: sym.U32("ver")}
	sym.Assume(t.height != 0)
	switch which {
	case 0:
		t.amount = sym.U64("amount")
		sym.Assume(t.amount != 0)
	case 1:
		t.nonce = sym.U64("nonce")
	case 2:
		t.fee = sym.U64("fee")
	}
	return t
}
