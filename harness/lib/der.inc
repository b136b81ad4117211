// ---- DER encoding of an ECDSA signature (r||s, 32 bytes each), BIP66 strict
func vfDerInt(b []byte) []byte {
	i := 0
	for i < len(b)-1 && b[i] == 0 {
		i++
	}
	v := b[i:]
	if v[0] >= 0x80 {
		v = vfCat([]byte{0}, v)
	}
	return vfCat([]byte{2, byte(len(v))}, v)
}

// push of DER signature plus hash type
func vfSigPush(sig []byte, ht byte) []byte {
	rs := vfCat(vfDerInt(sig[:32]), vfDerInt(sig[32:]))
	d := vfCat([]byte{0x30, byte(len(rs))}, rs, []byte{ht})
	return vfCat([]byte{byte(len(d))}, d)
}

func vfPush(b []byte) []byte {
	n := len(b)
	if n < 0x4c {
		return vfCat([]byte{byte(n)}, b)
	}
	if n <= 0xff {
		return vfCat([]byte{0x4c, byte(n)}, b)
	}
	return vfCat([]byte{0x4d, byte(n), byte(n >> 8)}, b)
}

// a symbolic signature whose halves have no leading zero bytes and a clear top bit
func vfFullSig(name string) []byte {
	s := sym.Bytes(name, 64)
	sym.Assume(s[0] >= 1 && s[0] < 0x80 && s[32] >= 1 && s[32] < 0x80)
	return s
}

// does the signature verify under a compressed key (02/03 || x)?
func vfSigOK(pub, digest, sig []byte) bool {
	if len(pub) != 33 {
		return false
	}
	if pub[0] != 2 && pub[0] != 3 {
		return false
	}
	p := owcrypt.PointDecompress(pub, owcrypt.ECC_CURVE_SECP256K1)
	return owcrypt.Verify(p[1:], nil, digest, sig, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
}
