func vfDigits(name string, n int) ([]byte, string) {
	d := sym.Bytes(name, n)
	s := make([]byte, n)
	for i := range d {
		d[i] &= 31
		s[i] = vfCharset[d[i]]
	}
	return d, string(s)
}

// the bytes that 5-bit digits stand for, and whether the padding is right
func vfFrom5(d []byte) ([]byte, bool) {
	n := len(d) * 5 / 8
	out := make([]byte, n)
	for i := 0; i < n*8; i++ {
		out[i/8] |= (d[i/5] >> uint(4-i%5) & 1) << uint(7-i%8)
	}
	pad := uint(len(d) * 5 % 8)
	return out, pad < 5 && d[len(d)-1]&(1<<pad-1) == 0
}

// every digit string is body + (its checksum xor an error), so this ranges over all of them
func vfBechText(hrp string, n int, e []byte, full bool) ([]byte, string) {
	d, txt := vfDigits("d", n)
	if !full && n > 8 {
		for i := 2; i < n-4; i++ {
			d[i] = byte(i*11) & 31
		}
		t := []byte(txt)
		for i := range t {
			t[i] = vfCharset[d[i]]
		}
		txt = string(t)
	}
	m := vfPoly(append(append(vfHrp(hrp), d...), 0, 0, 0, 0, 0, 0)) ^ 1
	s := make([]byte, 6)
	for i := range s {
		s[i] = vfCharset[byte(m>>uint(5*(5-i)))&31^e[i]&31]
	}
	return d, hrp + "1" + txt + string(s)
}

func vfZero(e []byte) bool {
	ok := true
	for i := range e {
		ok = sym.And(ok, e[i]&31 == 0)
	}
	return ok
}
