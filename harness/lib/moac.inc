// ---- reference RLP encoding of a MOAC transfer
func vfRlp(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return vfCat([]byte{byte(0x80 + len(b))}, b) // at most 55 bytes
}

func vfStrip(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

func vfList(body []byte) []byte {
	if len(body) < 56 {
		return vfCat([]byte{byte(0xc0 + len(body))}, body)
	}
	return vfCat([]byte{0xf8, byte(len(body))}, body)
}

type vfMoac struct {
	nonce                     uint64
	amount, gasLimit, gasPrice []byte // big endian
	to                        []byte
	testnet                   bool
}

func vfBE8(v uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[7-i] = byte(v >> uint(8*i))
	}
	return b
}

func (t *vfMoac) raw(v, r, s []byte) []byte {
	return vfList(vfCat(vfRlp(vfStrip(vfBE8(t.nonce))), []byte{0x80}, vfRlp(vfStrip(t.gasPrice)), vfRlp(vfStrip(t.gasLimit)), vfRlp(t.to), vfRlp(vfStrip(t.amount)), []byte{0x80, 0x80, 0x80}, vfRlp(v), vfRlp(vfStrip(r)), vfRlp(vfStrip(s))))
}

func (t *vfMoac) chain() byte {
	if t.testnet {
		return 101
	}
	return 99
}

func (t *vfMoac) template() []byte { return t.raw([]byte{t.chain()}, nil, nil) }

// an integer of exactly n bytes
func vfNum(name string, n int) []byte {
	b := sym.Bytes(name, n)
	if n > 0 {
		sym.Assume(b[0] != 0)
	}
	return b
}

func vfMoacNew(which int) *vfMoac {
	t := &vfMoac{to: sym.Bytes("to", 20), testnet: sym.Choose("testnet", 2) == 1, nonce: 300, amount: vfNum("amount", 8), gasLimit: vfNum("gasLimit", 3), gasPrice: vfNum("gasPrice", 5)}
	switch which {
	case 0:
		t.nonce = sym.U64("nonce")
	case 1:
		t.amount = sym.Bytes("anyAmount", 32)
	case 2:
		t.gasLimit = sym.Bytes("anyLimit", 32)
	case 3:
		t.gasPrice = sym.Bytes("anyPrice", 32)
	case 4: // small everywhere
		t.nonce = uint64(sym.Byte("nonce"))
		t.amount = sym.Bytes("a1", 1)
		t.gasLimit = sym.Bytes("l1", 1)
		t.gasPrice = sym.Bytes("p1", 1)
	case 6, 7, 8:
		n := vfNum("num", []int{0, 1, 8, 32}[sym.Choose("len", 4)])
		switch which {
		case 6:
			t.amount = n
		case 7:
			t.gasLimit = n
		case 8:
			t.gasPrice = n
		}
	case 5: // one single byte
		b := sym.Bytes("b1", 1)
		switch sym.Choose("field", 4) {
		case 0:
			t.nonce = uint64(b[0])
		case 1:
			t.amount = b
		case 2:
			t.gasLimit = b
		case 3:
			t.gasPrice = b
		}
	}
	return t
}
