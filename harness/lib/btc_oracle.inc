// ---- independent reference encoders (Bitcoin wire rules), written from the
// ---- protocol documents, not from the code under test
func vfLE(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		out[i] = byte(v >> uint(8*i))
	}
	return out
}

func vfRev(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

func vfCat(parts ...[]byte) []byte {
	out := []byte{}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func vfVarLen(n int) []byte {
	if n < 0xfd {
		return []byte{byte(n)}
	}
	return []byte{0xfd, byte(n), byte(n >> 8)}
}

func vfVarBytes(b []byte) []byte { return vfCat(vfVarLen(len(b)), b) }

func vfMustHex(s string) []byte {
	out := make([]byte, len(s)/2)
	for i := range out {
		out[i] = vfNib(s[2*i])<<4 | vfNib(s[2*i+1])
	}
	return out
}

func vfNib(c byte) byte {
	if c >= 'a' {
		return c - 'a' + 10
	}
	return c - '0'
}

func vfP2PKH(h []byte) []byte { return vfCat([]byte{0x76, 0xa9, 0x14}, h, []byte{0x88, 0xac}) }
func vfP2SH(h []byte) []byte  { return vfCat([]byte{0xa9, 0x14}, h, []byte{0x87}) }
func vfWPKH(h []byte) []byte  { return vfCat([]byte{0x00, 0x14}, h) }

// expected nSequence for the flags of the API
func vfSeq(lt uint32, rbf bool) []byte {
	s := uint32(0xffffffff)
	if lt != 0 {
		s = 0xfffffffe
	}
	if rbf {
		s = 0xfffffffd
	}
	return vfLE(uint64(s), 4)
}
