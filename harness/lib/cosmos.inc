// ---- the documents of a cosmos transfer: keys in order, numbers as decimal texts
type vfCoin struct {
	Amount string `json:"amount"`
	Denom  string `json:"denom"`
}
type vfFee struct {
	Amount []vfCoin `json:"amount"`
	Gas    string   `json:"gas"`
}
type vfSend struct {
	Amount []vfCoin `json:"amount"`
	From   string   `json:"from_address"`
	To     string   `json:"to_address"`
}
type vfMsg struct {
	Type  string `json:"type"`
	Value vfSend `json:"value"`
}
type vfDoc struct {
	Account  string  `json:"account_number"`
	Chain    string  `json:"chain_id"`
	Fee      vfFee   `json:"fee"`
	Memo     string  `json:"memo"`
	Msgs     []vfMsg `json:"msgs"`
	Sequence string  `json:"sequence"`
}
type vfPub struct {
	Type  string `json:"type"`
	Value string `json:"value"`
}

type vfTransfer struct {
	chain, memo, denom, from, to, typ string
	account, sequence                 int
	gas, fee, amount                  int64
}

func vfDec(v int64) string { return strconv.FormatInt(v, 10) }

func vfTransferNew() *vfTransfer {
	sym.Opaque("strconv", 12)
	t := &vfTransfer{chain: sym.Str("chain", 9), memo: sym.Str("memo", 3), denom: sym.Str("denom", 4), from: sym.Str("from", 45), to: sym.Str("to", 45), typ: sym.Str("type", 18),
		account: int(sym.U64("account")), sequence: int(sym.U64("sequence")), gas: sym.I64("gas"), fee: sym.I64("fee"), amount: sym.I64("amount")}
	sym.Assume(t.account >= 0 && t.sequence >= 0 && t.gas >= 0 && t.fee > 0 && t.amount > 0)
	return t
}

func (t *vfTransfer) doc() *vfDoc {
	return &vfDoc{vfDec(int64(t.account)), t.chain, vfFee{[]vfCoin{{vfDec(t.fee), t.denom}}, vfDec(t.gas)}, t.memo,
		[]vfMsg{{t.typ, vfSend{[]vfCoin{{vfDec(t.amount), t.denom}}, t.from, t.to}}}, vfDec(int64(t.sequence))}
}

func (d *vfDoc) text() string {
	b, _ := json.Marshal(d)
	return string(b)
}

func (t *vfTransfer) msgs() []Message {
	return []Message{NewMessage(t.typ, NewMsgSend(t.from, t.to, Coins{NewCoin(t.denom, t.amount)}))}
}

func (t *vfTransfer) tx() TxStruct {
	fee := NewStdFee(t.gas, Coins{NewCoin(t.denom, t.fee)})
	return NewTxStruct(t.chain, t.memo, t.account, t.sequence, &fee, t.msgs())
}
