const vfCharset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// to5 regroups bytes into 5-bit digits, most significant first, zero padded.
func vfTo5(b []byte) []byte {
	n := (len(b)*8 + 4) / 5
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		var v byte
		for k := 0; k < 5; k++ {
			bit := i*5 + k
			v <<= 1
			if bit < len(b)*8 {
				v |= b[bit/8] >> uint(7-bit%8) & 1
			}
		}
		out[i] = v
	}
	return out
}

func vfPoly(vals []byte) uint32 {
	c := uint32(1)
	for _, v := range vals {
		t := byte(c >> 25)
		c = (c&0x1ffffff)<<5 ^ uint32(v)
		if t&1 != 0 {
			c ^= 0x3b6a57b2
		}
		if t&2 != 0 {
			c ^= 0x26508e6d
		}
		if t&4 != 0 {
			c ^= 0x1ea119fa
		}
		if t&8 != 0 {
			c ^= 0x3d4233dd
		}
		if t&16 != 0 {
			c ^= 0x2a1462b3
		}
	}
	return c
}

func vfHrp(hrp string) []byte {
	var r []byte
	for i := 0; i < len(hrp); i++ {
		r = append(r, hrp[i]>>5)
	}
	r = append(r, 0)
	for i := 0; i < len(hrp); i++ {
		r = append(r, hrp[i]&31)
	}
	return r
}

// reference Bech32 (BIP173) / Bech32m (BIP350)
func vfBech(hrp string, data []byte, konst uint32) string {
	v := append(vfHrp(hrp), data...)
	v = append(v, 0, 0, 0, 0, 0, 0)
	m := vfPoly(v) ^ konst
	s := []byte(hrp + "1")
	for _, d := range data {
		s = append(s, vfCharset[d])
	}
	for i := 0; i < 6; i++ {
		s = append(s, vfCharset[m>>uint(5*(5-i))&31])
	}
	return string(s)
}

func vfCashPoly(vals []byte) uint64 {
	c := uint64(1)
	for _, v := range vals {
		t := byte(c >> 35)
		c = (c&0x07ffffffff)<<5 ^ uint64(v)
		if t&1 != 0 {
			c ^= 0x98f2bc8e61
		}
		if t&2 != 0 {
			c ^= 0x79b76d99e2
		}
		if t&4 != 0 {
			c ^= 0xf33e5fb3c4
		}
		if t&8 != 0 {
			c ^= 0xae2eabe2a8
		}
		if t&16 != 0 {
			c ^= 0x1e4f43e470
		}
	}
	return c ^ 1
}

