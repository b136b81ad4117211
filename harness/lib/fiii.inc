// ---- reference form of a fiii transaction
type vfIn struct {
	Hash   string `json:"OutputTransactionHash"`
	Index  int    `json:"OutputIndex"`
	Size   int    `json:"Size"`
	Unlock string `json:"UnlockScript"`
}
type vfOut struct {
	Index  int    `json:"Index"`
	Amount int64  `json:"Amount"`
	Size   int    `json:"Size"`
	Lock   string `json:"LockScript"`
}
type vfMsg struct {
	Version     int     `json:"Version"`
	Hash        string  `json:"Hash"`
	Timestamp   int64   `json:"Timestamp"`
	LockTime    int64   `json:"Locktime"`
	ExpiredTime int64   `json:"ExpiredTime"`
	InputCount  int     `json:"InputCount"`
	OutputCount int     `json:"OutputCount"`
	Inputs      []vfIn  `json:"Inputs"`
	Outputs     []vfOut `json:"Outputs"`
	Size        int     `json:"Size"`
}

func vfBE(v uint64, n int) []byte {
	r := make([]byte, n)
	for i := 0; i < n; i++ {
		r[n-1-i] = byte(v >> uint(8*i))
	}
	return r
}

func vfUpper(b []byte) string {
	const d = "0123456789ABCDEF"
	var r []byte
	for _, c := range b {
		r = append(r, d[c>>4], d[c&15])
	}
	return string(r)
}

type vfFiii struct {
	version           int
	time, lock, until int64
	ids               [][]byte
	vouts             []uint32
	hashes            [][]byte
	amounts           []int64
	unlocks           []string
}

var vfPrefix = []byte{0x40, 0xe7, 0xe9, 0x15}

func vfAddr(h []byte) string {
	b := vfCat(vfPrefix, h)
	return Encode(vfCat(b, owcrypt.Hash(b, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]), BitcoinAlphabet)
}

func vfFiiiNew(nin, nout int) *vfFiii {
	sym.Pair("Encode", "Decode")
	names := []string{"0", "1", "2"}
	t := &vfFiii{version: int(int32(sym.U32("version"))), lock: sym.I64("lock"), until: sym.I64("until"), time: sym.I64("time")}
	for i := 0; i < nin; i++ {
		t.ids = append(t.ids, sym.Bytes("id"+names[i], 32))
		t.vouts = append(t.vouts, sym.U32("vout"+names[i]))
		t.unlocks = append(t.unlocks, "")
	}
	for i := 0; i < nout; i++ {
		t.hashes = append(t.hashes, sym.Bytes("to"+names[i], 20))
		a := sym.I64("amount" + names[i])
		sym.Assume(a > 0)
		t.amounts = append(t.amounts, a)
	}
	return t
}

func (t *vfFiii) message(i int) []byte { return vfCat(t.ids[i], vfBE(uint64(t.vouts[i]), 4)) }

func (t *vfFiii) msg() *vfMsg {
	m := &vfMsg{Version: t.version, Timestamp: t.time, LockTime: t.lock, ExpiredTime: t.until, InputCount: len(t.ids), OutputCount: len(t.hashes)}
	for i := range t.ids {
		m.Inputs = append(m.Inputs, vfIn{sym.Hex(t.ids[i]), int(t.vouts[i]), len(t.unlocks[i]), t.unlocks[i]})
	}
	for i := range t.hashes {
		l := "OP_DUP OP_HASH160 " + vfUpper(t.hashes[i]) + " OP_EQUALVERIFY OP_CHECKSIG"
		m.Outputs = append(m.Outputs, vfOut{i, t.amounts[i], len(l), l})
	}
	return m
}

// the hash and size of the signed transaction
func (m *vfMsg) complete() {
	b := vfCat(vfBE(uint64(m.Timestamp), 8), vfBE(uint64(m.LockTime), 8), vfBE(uint64(m.ExpiredTime), 8), vfBE(uint64(len(m.Inputs)), 4))
	for _, in := range m.Inputs {
		id, _ := hex.DecodeString(in.Hash)
		b = vfCat(b, id, vfBE(uint64(in.Index), 4), vfBE(uint64(in.Size), 4), []byte(in.Unlock))
	}
	b = vfCat(b, vfBE(uint64(len(m.Outputs)), 4))
	for _, o := range m.Outputs {
		b = vfCat(b, vfBE(uint64(o.Index), 4), vfBE(uint64(o.Amount), 8), vfBE(uint64(o.Size), 4), []byte(o.Lock))
	}
	m.Hash = vfUpper(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256))
	m.Size = len(b) + 36
}

func (m *vfMsg) text() string {
	b, _ := json.Marshal(m)
	return string(b)
}

// the same document in the reference's form
func vfNorm(s string) *vfMsg {
	m := &vfMsg{}
	sym.Assert(json.Unmarshal([]byte(s), m) == nil, "a JSON document")
	return m
}
