// ---- reference description of a transaction under construction
type vfIn struct {
	id   []byte // display order
	n    uint32
	seq  []byte
	kind int    // 0 P2PKH, 1 P2SH-P2WPKH, 2 P2WPKH, 3 multisig
	lock []byte // scriptPubKey
	red  []byte // redeem script ("" when none)
	addr string // address owning the coin
	amt  uint64
}

type vfTx struct {
	ver  uint64
	ins  []vfIn
	outs []byte // count + serialized outputs
	outB []byte // serialized outputs without the count
	lt   []byte
}

func (t *vfTx) prevouts() []byte {
	b := []byte{}
	for _, in := range t.ins {
		b = vfCat(b, vfRev(in.id), vfLE(uint64(in.n), 4))
	}
	return b
}

func (t *vfTx) seqs() []byte {
	b := []byte{}
	for _, in := range t.ins {
		b = vfCat(b, in.seq)
	}
	return b
}

// serialization with the given script at each input (nil = empty)
func (t *vfTx) raw(scripts [][]byte) []byte {
	b := vfCat(vfLE(t.ver, 4), vfVarLen(len(t.ins)))
	for i, in := range t.ins {
		var sc []byte
		if scripts != nil {
			sc = scripts[i]
		}
		b = vfCat(b, vfRev(in.id), vfLE(uint64(in.n), 4), vfVarBytes(sc), in.seq)
	}
	return vfCat(b, t.outs, t.lt)
}

func vfDSHA(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_DOUBLE_SHA256) }

// original signature-hash algorithm, SIGHASH_ALL
func (t *vfTx) legacyDigest(i int, scriptCode []byte, hashType uint64) []byte {
	sc := make([][]byte, len(t.ins))
	sc[i] = scriptCode
	return vfDSHA(vfCat(t.raw(sc), vfLE(hashType, 4)))
}

// BIP143 / replay-protected (FORKID) signature-hash algorithm, SIGHASH_ALL
func (t *vfTx) bip143Digest(i int, scriptCode []byte, amount uint64, hashType uint64) []byte {
	in := t.ins[i]
	return vfDSHA(vfCat(vfLE(t.ver, 4), vfDSHA(t.prevouts()), vfDSHA(t.seqs()),
		vfRev(in.id), vfLE(uint64(in.n), 4), vfVarBytes(scriptCode), vfLE(amount, 8), in.seq,
		vfDSHA(t.outB), t.lt, vfLE(hashType, 4)))
}

func vfKeyHashes() ([][]byte, []string, []string, []string) {
	return [][]byte{
			vfMustHex("0000e1a2b3c4d5e6f708192a3b4c5d6e7f809100"),
			vfMustHex("ff0102030405060708090a0b0c0d0e0f10111213"),
			vfMustHex("89abcdefabbaabbaabbaabbaabbaabbaabbaabba")},
		[]string{"11124EvGjPKCvEzAEZj5L2i4vBezMhXXZX", "1QFLWwkbdMGecrcQ2FLS7FfsHu7ReZY8JA", "1DYwPTpZuLjY2qApmJdHaSAuWRvEF5skCN"},
		[]string{"31h2ynQiHHdb1QgbMfPfkf514hwhr1Vi75", "3QwMSVF3BFb2i2Jq9M12Xt2oSRQ98LxUmH", "3EExK1K1TF3v7zsFtQHt14XqexCwgmXM1y"},
		[]string{"bc1qqqqwrg4ncn27dacgry4rknzadelcpygqnm4z7r", "bc1qluqsyqcyq5rqwzqfpg9scrgwpugpzysn4l3kwj", "bc1q3x4ummath24m42a64wa2hw4th24m42a6rul9r7"}
}

var vfNames = vfNumbers(300)

func vfNumbers(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		s := ""
		for j := i; j > 0 || s == ""; j /= 10 {
			s = string(rune('0'+j%10)) + s
		}
		r = append(r, s)
	}
	return r
}

// a redeem script OP_m <key>... OP_n OP_CHECKMULTISIG over symbolic 33-byte keys
func vfRedeem(tag string, m, n int) ([]byte, [][]byte) {
	var keys [][]byte
	b := []byte{byte(0x50 + m)}
	for i := 0; i < n; i++ {
		k := sym.Bytes(tag+"key"+vfNames[i], 33)
		keys = append(keys, k)
		b = vfCat(b, []byte{0x21}, k)
	}
	return vfCat(b, []byte{byte(0x50 + n), 0xae}), keys
}

var vfNOuts = 2

// symbolic unsigned transaction: nin inputs of the given kinds, vfNOuts outputs
func vfSymTx(ver uint64, kinds []int, m, n int) *vfTx {
	t := &vfTx{ver: ver}
	hs, a1, a3, ab := vfKeyHashes()
	for i, k := range kinds {
		in := vfIn{id: sym.Bytes("txid"+vfNames[i], 32), n: sym.U32("vout" + vfNames[i]), seq: sym.Bytes("seq"+vfNames[i], 4), kind: k, amt: sym.U64("amount" + vfNames[i])}
		h := hs[i%3]
		switch k {
		case 0:
			in.lock, in.addr = vfP2PKH(h), a1[i%3]
		case 1:
			in.lock, in.addr = vfP2SH(h), a3[i%3]
			in.red = vfWPKH(sym.Bytes("keyhash"+vfNames[i], 20))
		case 2:
			in.lock, in.addr = vfWPKH(h), ab[i%3]
		case 3:
			in.lock, in.addr = vfP2SH(h), a3[i%3]
			in.red, _ = vfRedeem("in"+vfNames[i], m, n)
		}
		t.ins = append(t.ins, in)
	}
	for i := 0; i < vfNOuts; i++ {
		var sc []byte
		switch i % 5 {
		case 0:
			sc = vfP2PKH(sym.Bytes("outHash"+vfNames[i], 20))
		case 1:
			sc = vfP2SH(sym.Bytes("outHash"+vfNames[i], 20))
		case 2:
			sc = vfWPKH(sym.Bytes("outHash"+vfNames[i], 20))
		case 3:
			sc = vfCat([]byte{0x6a, 0x4c, 80}, sym.Bytes("outData"+vfNames[i], 80))
			if i == 8 {
				sc = vfCat([]byte{0x6a, 0x4d, 0x2c, 0x01}, sym.Bytes("outData"+vfNames[i], 300))
			}
		case 4:
			sc = vfCat([]byte{0, 0x20}, sym.Bytes("outHash"+vfNames[i], 32))
		}
		t.outB = vfCat(t.outB, sym.Bytes("outAmt"+vfNames[i], 8), vfVarBytes(sc))
	}
	t.outs = vfCat(vfVarLen(vfNOuts), t.outB)
	t.lt = sym.Bytes("locktime", 4)
	return t
}

func (t *vfTx) unlocks(sigType byte) []TxUnlock {
	var u []TxUnlock
	for _, in := range t.ins {
		u = append(u, TxUnlock{LockScript: sym.Hex(in.lock), RedeemScript: sym.Hex(in.red), Amount: in.amt«if not .nost», SigType: sigType«end»})
	}
	return u
}
