// ---- reference serialization of a mateverse transaction
type vfCoin struct {
	id   []byte // as in the transaction
	vout uint32
	seq  uint32
	lock []byte
}
type vfMate struct {
	ins  []vfCoin
	tail []byte
}

func vfMateNew(n, tail int) *vfMate {
	names := []string{"0", "1", "2"}
	t := &vfMate{tail: sym.Bytes("tail", tail)}
	for i := 0; i < n; i++ {
		t.ins = append(t.ins, vfCoin{sym.Bytes("id"+names[i], 32), sym.U32("vout" + names[i]), sym.U32("seq" + names[i]), vfP2PKH(sym.Bytes("hash"+names[i], 20))})
	}
	return t
}

// scripts[i] goes into input i, preceded by its length
func (t *vfMate) raw(scripts [][]byte) []byte {
	r := vfCat([]byte{4, 0, 0, 0}, vfVarLen(len(t.ins)))
	for i, c := range t.ins {
		r = vfCat(r, c.id, vfLE(uint64(c.vout), 4))
		if scripts == nil {
			r = vfCat(r, []byte{0})
		} else {
			r = vfCat(r, vfVarBytes(scripts[i]))
		}
		r = vfCat(r, vfLE(uint64(c.seq), 4))
	}
	return vfCat(r, t.tail)
}

func (t *vfMate) digest(i int) []byte {
	s := make([][]byte, len(t.ins))
	s[i] = t.ins[i].lock
	return owcrypt.Hash(vfCat(t.raw(s), []byte{1, 0, 0, 0}), 0, owcrypt.HASH_ALG_DOUBLE_SHA256)
}

// the inputs of the template with their lock scripts as hex
func (t *vfMate) inputs() []*TxInput {
	ins, err := GetInputsFromEmptyRawTransaction(sym.Hex(t.raw(nil)))
	sym.Assert(err == nil && len(ins) == len(t.ins), "the template's inputs")
	for i := range ins {
		ins[i].SetLockScript(sym.Hex(t.ins[i].lock))
	}
	return ins
}
