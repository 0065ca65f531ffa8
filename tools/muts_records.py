S='seth.go'; N='send.go'
def b(n,*e): return (n,'bug',['C16'],list(e))
def s(n,*e): return (n,'same',['C16'],list(e))
MUTS=[
b('to lost',(N,'		To:       o.To,\n		Gas:      Uint64','		Gas:      Uint64')),
b('from to',(N,'		From:     o.From,\n		To:       o.To,\n		Gas:','		From:     o.To,\n		To:       o.From,\n		Gas:')),
b('gas price',(N,'Gas:      Uint64(o.Gas.Uint64())','Gas:      Uint64(o.GasPrice.Uint64())')),
b('gas 63',(N,'Gas:      Uint64(o.Gas.Uint64())','Gas:      Uint64(o.Gas.Uint64() << 1 >> 1)')),
b('gas 32',(N,'Gas:      Uint64(o.Gas.Uint64())','Gas:      Uint64(uint32(o.Gas.Uint64()))')),
b('value with nonce',(N,'''	if o.Value != nil {
		tx.Value = *o.Value
	}
	if o.Nonce != nil {''','''	if o.Value != nil && o.Nonce != nil {
		tx.Value = *o.Value
	}
	if o.Nonce != nil {''')),
b('value only to',(N,'	if o.Value != nil {\n		tx.Value','	if o.Value != nil && o.To != nil {\n		tx.Value')),
b('value only without data',(N,'	if o.Value != nil {\n		tx.Value','	if o.Value != nil && len(o.Data) < 5 {\n		tx.Value')),
b('nonce else',(N,'	if o.Nonce != nil {\n		tx.Nonce','	if o.Nonce != nil && o.Value == nil {\n		tx.Nonce')),
b('status',(S,'return r.Status == 0','return r.Status != 1 && r.GasUsed == 0')),
b('not topics 2',(S,'len(l.Topics[1]) != 32 || len(l.Topics[2]) != 32 {','len(l.Topics[1]) != 32 || len(l.Topics[2]) < 32 {')),
b('swap',(S,'copy(tt.To[:], l.Topics[2][12:])','copy(tt.To[:], l.Topics[1][12:])')),
b('first bytes',(S,'copy(tt.From[:], l.Topics[1][12:])','copy(tt.From[:], l.Topics[1][:20])')),
b('prefix sig',(S,'!bytes.Equal(l.Topics[0], ERC20Transfer[:])','!bytes.HasPrefix(l.Topics[0], ERC20Transfer[:])')),
b('prefix sig 4',(S,'!bytes.Equal(l.Topics[0], ERC20Transfer[:])','len(l.Topics[0]) != 32 || !bytes.Equal(l.Topics[0][:4], ERC20Transfer[:4])')),
b('more topics',(S,'if len(l.Topics) != 3 ||','if len(l.Topics) < 3 ||')),
b('amount 8',(S,'setdata(&tt.Amount, l.Data)','if len(l.Data) == 32 {\n\t\tsetdata(&tt.Amount, l.Data[8:])\n\t}')),
b('index',(S,'TxHeight: int(r.Index)','TxHeight: int(byte(r.Index))')),
b('block',(S,'Block: int64(r.BlockNumber), TxHeight','Block: int64(int32(r.BlockNumber)), TxHeight')),
b('token receipt',(S,'TxHeight: int(r.Index), Token: l.Address}','TxHeight: int(r.Index)}\n\tif r.Address != nil {\n\t\ttt.Token = *r.Address\n\t}')),
b('dirty high',(S,'	copy(tt.From[:], l.Topics[1][12:])','	for _, c := range l.Topics[1][:12] {\n		if c != 0 {\n			return TokenTransfer{}, false\n		}\n	}\n	copy(tt.From[:], l.Topics[1][12:])')),
b('swallow',(S,'''		err := json.Unmarshal(b.Transactions[i], &out[i])
		if err != nil {
			return nil, err
		}''','''		err := json.Unmarshal(b.Transactions[i], &out[i])
		if err != nil {
			return out[:i], nil
		}''')),
b('skip',(S,'''		err := json.Unmarshal(b.Transactions[i], &out[i])
		if err != nil {
			return nil, err
		}''','''		err := json.Unmarshal(b.Transactions[i], &out[i])
		if err != nil && i == 0 {
			return nil, err
		}''')),
b('order',(S,'json.Unmarshal(b.Transactions[i], &out[i])','json.Unmarshal(b.Transactions[i], &out[len(out)-1-i])')),
s('append',(S,'''	out := make([]Transaction, len(b.Transactions))
	for i := range b.Transactions {
		err := json.Unmarshal(b.Transactions[i], &out[i])
		if err != nil {
			return nil, err
		}
	}
	return out, nil''','''	out := make([]Transaction, 0, len(b.Transactions))
	for _, raw := range b.Transactions {
		var tx Transaction
		if err := json.Unmarshal(raw, &tx); err != nil {
			return nil, err
		}
		out = append(out, tx)
	}
	return out, nil''')),
s('transfer helper',(S,'''	tt := TokenTransfer{Block: int64(r.BlockNumber), TxHeight: int(r.Index), Token: l.Address}
	copy(tt.From[:], l.Topics[1][12:]) // these are addresses; first 12 bytes should be zeros
	copy(tt.To[:], l.Topics[2][12:])
	setdata(&tt.Amount, l.Data)
	return tt, true
}''','''	tt := TokenTransfer{
		Block: int64(r.BlockNumber), TxHeight: int(r.Index),
		Token: l.Address, From: topicAddr(l.Topics[1]), To: topicAddr(l.Topics[2]),
	}
	tt.Amount.Big().SetBytes(l.Data)
	return tt, true
}

func topicAddr(w Data) (a Address) {
	for i := range a {
		a[i] = w[len(w)-len(a)+i]
	}
	return a
}''')),
s('checks',(S,'''	if !bytes.Equal(l.Topics[0], ERC20Transfer[:]) {
		return TokenTransfer{}, false
	}''','''	if len(l.Topics[0]) != len(ERC20Transfer) {
		return TokenTransfer{}, false
	}
	for i, c := range l.Topics[0] {
		if c != ERC20Transfer[i] {
			return TokenTransfer{}, false
		}
	}''')),
s('tx',(N,'''	tx := &Transaction{
		From:     o.From,
		To:       o.To,
		Gas:      Uint64(o.Gas.Uint64()),
		GasPrice: *o.GasPrice,
		Input:    o.Data,
	}
	if o.Value != nil {
		tx.Value = *o.Value
	}''','''	tx := new(Transaction)
	tx.From, tx.To, tx.Input = o.From, o.To, o.Data
	tx.Gas = Uint64(o.Gas.Uint64())
	tx.GasPrice = o.GasPrice.Copy()
	if v := o.Value; v != nil {
		tx.Value = v.Copy()
	}''')),
]
