// ---- DER encoding of an ECDSA signature (r||s, 32 bytes each), BIP66 strict
func vfDerInt(b []byte) []byte {
	i := 0
	for i < len(b)-1 && b[i] == 0 {
		i++
	}
	v := b[i:]
	if v[0] >= 0x80 {
		v = vfCat([]byte{0}, v)
	}
	return vfCat([]byte{2, byte(len(v))}, v)
}

// push of DER signature plus hash type
func vfSigPush(sig []byte, ht byte) []byte {
	rs := vfCat(vfDerInt(sig[:32]), vfDerInt(sig[32:]))
	d := vfCat([]byte{0x30, byte(len(rs))}, rs, []byte{ht})
	return vfCat([]byte{byte(len(d))}, d)
}

func vfPush(b []byte) []byte {
	n := len(b)
	if n < 0x4c {
		return vfCat([]byte{byte(n)}, b)
	}
	if n <= 0xff {
		return vfCat([]byte{0x4c, byte(n)}, b)
	}
	return vfCat([]byte{0x4d, byte(n), byte(n >> 8)}, b)
}

// a symbolic signature whose halves have no leading zero bytes and a clear top bit
func vfFullSig(name string) []byte {
	s := sym.Bytes(name, 64)
	sym.Assume(s[0] >= 1 && s[0] < 0x80 && s[32] >= 1 && s[32] < 0x80)
	return s
}

// the unlocking data of one input: legacy script and witness stack (serialized)
type vfUnl struct{ script, wit []byte }

func vfUnlock(in *vfIn, sigs [][]byte, pub []byte, ht byte, sw bool) vfUnl {
	switch in.kind {
	case 0:
		return vfUnl{vfCat(vfSigPush(sigs[0], ht), vfPush(pub)), []byte{0}}
	case 1:
		return vfUnl{vfPush(in.red), vfCat([]byte{2}, vfSigPush(sigs[0], ht), vfPush(pub))}
	case 2:
		return vfUnl{nil, vfCat([]byte{2}, vfSigPush(sigs[0], ht), vfPush(pub))}
	}
	all := []byte{}
	for _, s := range sigs {
		all = vfCat(all, vfSigPush(s, ht))
	}
	if sw {
		return vfUnl{vfPush(vfCat([]byte{0, 0x20}, owcrypt.Hash(in.red, 0, owcrypt.HASH_ALG_SHA256))),
			vfCat([]byte{byte(len(sigs) + 2), 0}, all, vfVarBytes(in.red))}
	}
	return vfUnl{vfCat([]byte{0}, all, vfPush(in.red)), []byte{0}}
}

// the signed transaction
func (t *vfTx) signed(u []vfUnl, sw bool) []byte {
	wit := false
	for _, in := range t.ins {
		if in.kind == 1 || in.kind == 2 || (in.kind == 3 && sw) {
			wit = true
		}
	}
	b := vfLE(t.ver, 4)
	if wit {
		b = vfCat(b, []byte{0, 1})
	}
	b = vfCat(b, vfVarLen(len(t.ins)))
	for i, in := range t.ins {
		b = vfCat(b, vfRev(in.id), vfLE(uint64(in.n), 4), vfVarBytes(u[i].script), in.seq)
	}
	b = vfCat(b, t.outs)
	if wit {
		for i := range t.ins {
			b = vfCat(b, u[i].wit)
		}
	}
	return vfCat(b, t.lt)
}
