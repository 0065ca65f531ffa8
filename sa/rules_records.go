package main

// C16: calls, blocks and receipts as transactions and token transfers.

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = &CheckDef{
		title:     "Calls, blocks and receipts are turned into the transactions and transfers they describe",
		technique: "static abstract interpretation over SSA along paths chosen by sample values: unknown calls, blocks, receipts and logs, each field of the result compared with its origin",
		explanation: "CallOpts.Transaction, Block.ParseTransactions, Receipt.ParseTransfer and Receipt.Threw are interpreted on records whose fields are unknown; sample values choose paths, and every field of what is returned, a term over the unknown fields, is compared at every sample on the path with the field it must come from. " +
			"Calls with and without the optional fields, logs with every number of topics and topics of all lengths around the right one, and blocks with transactions that cannot be decoded at every position are enumerated.",
		assumptions: []string{"encoding/json decodes as documented", "values between the samples of a path behave as the samples do"},
		min:         500,
		run:         runRecords,
	}
}

type recordRun struct {
	*sampleRun
	opts, tx, block, receipt, log, transfer types.Type
	rng                                     *rand.Rand
	init                                    *State
}

func runRecords(c *Check) {
	r := &recordRun{sampleRun: c.newSampleRun(), rng: rand.New(rand.NewSource(1))}
	for n, t := range map[string]*types.Type{"CallOpts": &r.opts, "Transaction": &r.tx, "Block": &r.block, "Receipt": &r.receipt, "Log": &r.log, "TokenTransfer": &r.transfer} {
		*t = c.typ("", n)
		if *t == nil {
			return
		}
	}
	st, ok := r.initPackage(r.base, "")
	if !ok {
		return
	}
	r.init = st
	r.extra = r.model
	_ = r.calls() && r.transfers() && r.threw() && r.bodies()
	c.obl += r.n
	c.done += r.n
}

// the text of a transaction, as encoding/json is taken to read it here: a
// brace, the nonce, a brace
func (r *recordRun) model(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	if nm != "encoding/json.Unmarshal" {
		return nil, false
	}
	p := args[1]
	if p.op == "iface" {
		p = p.args[0]
	}
	if p.typ == nil || !types.Identical(deref(p.typ), r.tx) {
		return nil, false
	}
	raw := r.x.content(st, args[0])
	n, ok := r.length(raw)
	if !ok {
		return nil, false
	}
	good := n == 3
	for i := int64(0); good && i < n; i += 2 {
		i := i
		v, ok := r.ask(func() (interface{}, bool) {
			b, ok := r.env.tryInt(cSel(raw, mkInt(i), byteT))
			return ok && b.Int64() == int64("{ }"[i]), ok
		})
		if !ok {
			return nil, false
		}
		good = v.(bool)
	}
	if !good {
		return one(st, r.x.err("encoding/json.Unmarshal")), true
	}
	st = st.clone()
	a := fieldAddrOf(p, r.tx, "Nonce")
	r.x.store(st, a, r.x.conv(st, cSel(raw, mkInt(1), byteT), byteT, deref(a.typ)), deref(a.typ))
	return one(st, mkNil()), true
}

// what an address, hash, byte slice, number or pointer to one holds
func (r *recordRun) at(st *State, p *T, typ types.Type, field string) *T {
	return r.x.fieldVal(st, p, typ, field)
}

func (r *recordRun) rnd(n int) []byte {
	b := make([]byte, n)
	r.rng.Read(b)
	return b
}

// holds: a content term is these bytes
func (r *recordRun) holds(what string, c *T, want []byte) error {
	if c == nil {
		return fmt.Errorf("%s is not there", what)
	}
	g, ok := r.env.tryBytes(c)
	if !ok || !bytes.Equal(g, want) {
		return fmt.Errorf("%s is %x, not %x", what, g, want)
	}
	return nil
}

func (r *recordRun) number(what string, v *T, want *big.Int) error {
	if v == nil {
		return fmt.Errorf("%s is not there", what)
	}
	if v.isNil() {
		return fmt.Errorf("%s is nil", what)
	}
	g, ok := r.env.tryInt(v)
	if !ok || g.Cmp(want) != 0 {
		return fmt.Errorf("%s is %v, not %v", what, g, want)
	}
	return nil
}

func firstErr(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

// ---- calls ----

func (r *recordRun) calls() bool {
	fn := r.c.fn("", "(*CallOpts).Transaction")
	if fn == nil {
		return false
	}
	u64 := types.Typ[types.Uint64]
	from, to := symsOf("from", 20), symsOf("to", 20)
	gas, price, value := symsOf("gas", 8), symsOf("price", 9), symsOf("value", 12)
	nonce := mk("sym", "nonce", u64)
	big := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
	for m := 0; m < 16; m++ {
		for _, n := range []int{0, 1, 4, 37} {
			data := symsOf("data", n)
			r.what = fmt.Sprintf("a call with %d bytes of data and, of sender, recipient, value and nonce, those of %04b", n, m)
			var samples []sampleVals
			for k := 0; k < 6; k++ {
				v := sampleVals{}
				z := func(c *T) {
					b := r.rnd(len(c.args))
					switch k {
					case 0:
						b = make([]byte, len(b))
					case 1:
						b = bytes.Repeat([]byte{255}, len(b))
					case 2:
						for i := range b[:len(b)*2/3] {
							b[i] = 0
						}
					}
					v.bytes(c, b)
				}
				for _, c := range []*T{from, to, gas, price, value, data} {
					z(c)
				}
				v[nonce] = big(r.rnd(8))
				if k == 0 {
					v[nonce] = bi(0)
				}
				samples = append(samples, v)
			}
			if !r.cover(samples, func() (func() error, bool) {
				st := r.init.clone()
				f := map[string]*T{"Gas": r.bigAt(st, gas), "GasPrice": r.bigAt(st, price), "Data": r.x.newBytes(st, data, r.c.typ("", "Data"))}
				if m&1 != 0 {
					f["From"] = r.box(st, r.c.typ("", "Address"), from)
				}
				if m&2 != 0 {
					f["To"] = r.box(st, r.c.typ("", "Address"), to)
				}
				if m&4 != 0 {
					f["Value"] = r.bigAt(st, value)
				}
				if m&8 != 0 {
					f["Nonce"] = r.box(st, r.c.typ("", "Uint64"), nonce)
				}
				p := r.put(st, r.opts, f)
				st, rets, ok := r.call(st, fn, p)
				if !ok {
					return nil, false
				}
				t := rets[0]
				return func() error {
					if t.isNil() {
						return fmt.Errorf("there is no transaction")
					}
					get := func(c *T) []byte { b, _ := r.env.tryBytes(c); return b }
					addr := func(name string, c *T, have bool) error {
						q := r.at(st, t, r.tx, name)
						if q == nil || q.isNil() || !have {
							if q != nil && q.isNil() && !have {
								return nil
							}
							return fmt.Errorf("%s is %s", name, clip(q.String(), 60))
						}
						return r.holds(name, r.x.load(st, q, deref(q.typ)), get(c))
					}
					val, non := bi(0), bi(0)
					if m&4 != 0 {
						val = big(get(value))
					}
					if m&8 != 0 {
						non, _ = r.env.tryInt(nonce)
					}
					zero := func(name string, n int) error {
						return r.holds(name, r.at(st, t, r.tx, name), make([]byte, n))
					}
					ti := r.at(st, t, r.tx, "TxIndex")
					if ti == nil || !ti.isNil() {
						return fmt.Errorf("it has a transaction index")
					}
					return firstErr(addr("From", from, m&1 != 0), addr("To", to, m&2 != 0),
						r.number("Gas", r.at(st, t, r.tx, "Gas"), big(get(gas))),
						r.number("GasPrice", r.at(st, t, r.tx, "GasPrice"), big(get(price))),
						r.number("Value", r.at(st, t, r.tx, "Value"), val),
						r.number("Nonce", r.at(st, t, r.tx, "Nonce"), non),
						r.holds("Input", r.x.content(st, r.at(st, t, r.tx, "Input")), get(data)),
						zero("Hash", 32), zero("Block", 32), r.number("BlockNumber", r.at(st, t, r.tx, "BlockNumber"), bi(0)))
				}, true
			}) {
				return false
			}
		}
	}
	return true
}

func (r *recordRun) box(st *State, typ types.Type, v *T) *T {
	p := r.x.newAlloc("v", typ)
	r.x.store(st, p, v, typ)
	return p
}

func (r *recordRun) bigAt(st *State, c *T) *T {
	return r.box(st, r.c.typ("", "Int"), bigOfBytes(c))
}

// ---- token transfers ----

func (r *recordRun) transfers() bool {
	fn := r.c.fn("", "(*Receipt).ParseTransfer")
	if fn == nil {
		return false
	}
	u64, data := types.Typ[types.Uint64], r.c.typ("", "Data")
	sig := keccakSum([]byte("Transfer(address,address,uint256)"))
	block, index := mk("sym", "rblock", u64), mk("sym", "rindex", u64)
	token := symsOf("token", 20)
	shapes := [][]int{{}, {32}, {32, 32}, {32, 32, 32, 32}, {32, 32, 32, 0}}
	for _, a := range []int{32, 0, 31, 33} {
		for _, b := range []int{32, 0, 12, 31, 33} {
			for _, c := range []int{32, 0, 12, 31, 33} {
				shapes = append(shapes, []int{a, b, c})
			}
		}
	}
	for _, sh := range shapes {
		for _, n := range []int{0, 1, 31, 32} {
			if n != 32 && len(sh) == 3 && (sh[0] != 32 || sh[1] != 32 || sh[2] != 32) {
				continue
			}
			r.what = fmt.Sprintf("a log with topics of %v bytes and %d bytes of data", sh, n)
			amount := symsOf("amount", n)
			var topics []*T
			for i, l := range sh {
				topics = append(topics, symsOf(fmt.Sprintf("topic%d", i), l))
			}
			var samples []sampleVals
			for k := 0; k < 3+32; k++ {
				v := sampleVals{block: new(big.Int).SetUint64(r.rng.Uint64() >> 1), index: bi(int64(r.rng.Uint32()))}
				v.bytes(token, r.rnd(20)).bytes(amount, r.rnd(n))
				for i, c := range topics {
					b := r.rnd(sh[i])
					if i == 0 {
						copy(b, sig)
						if k >= 3 {
							if k-3 >= len(b) {
								b = nil
								break
							}
							b[k-3] ^= byte(1 << uint(r.rng.Intn(8)))
						}
					}
					if k == 0 && i > 0 {
						for j := range b {
							if j < 12 {
								b[j] = 0
							}
						}
					}
					v.bytes(c, b)
				}
				whole := true
				for i, c := range topics {
					if sh[i] > 0 && v[c.args[0]] == nil {
						whole = false
					}
				}
				if whole {
					samples = append(samples, v)
				}
			}
			if !r.cover(samples, func() (func() error, bool) {
				st := r.init.clone()
				var ts []*T
				for _, c := range topics {
					ts = append(ts, r.x.newBytes(st, c, data))
				}
				l := r.put(st, r.log, map[string]*T{"Address": token, "Data": r.x.newBytes(st, amount, data), "Topics": r.x.newBytes(st, cVec(ts...), types.NewSlice(data))})
				p := r.put(st, r.receipt, map[string]*T{"BlockNumber": block, "Index": index, "Status": mkInt(1)})
				st, rets, ok := r.call(st, fn, p, l)
				if !ok {
					return nil, false
				}
				out := r.box(st, r.transfer, rets[0])
				return func() error {
					get := func(c *T) []byte { b, _ := r.env.tryBytes(c); return b }
					want := len(sh) == 3 && sh[1] == 32 && sh[2] == 32 && bytes.Equal(get(topics[0]), sig)
					is, ok := r.env.tryBool(rets[1])
					if !ok || is != want {
						return fmt.Errorf("whether it is a transfer is %v, and it should be %v", is, want)
					}
					bn, ix, from, to, tok, am := bi(0), bi(0), make([]byte, 20), make([]byte, 20), make([]byte, 20), bi(0)
					if want {
						bn, _ = r.env.tryInt(block)
						ix, _ = r.env.tryInt(index)
						from, to = get(topics[1])[12:], get(topics[2])[12:]
						tok, am = get(token), new(big.Int).SetBytes(get(amount))
					}
					at := func(n string) *T { return r.at(st, out, r.transfer, n) }
					return firstErr(r.number("Block", at("Block"), bn), r.number("TxHeight", at("TxHeight"), ix),
						r.holds("Token", at("Token"), tok), r.holds("From", at("From"), from), r.holds("To", at("To"), to),
						r.number("Amount", at("Amount"), am))
				}, true
			}) {
				return false
			}
		}
	}
	return true
}

// ---- whether a transaction failed ----

func (r *recordRun) threw() bool {
	fn := r.c.fn("", "(*Receipt).Threw")
	if fn == nil {
		return false
	}
	status := mk("sym", "status", types.Typ[types.Uint64])
	r.what = "whether a transaction threw"
	var samples []sampleVals
	for _, n := range []int64{0, 1} {
		samples = append(samples, sampleVals{status: bi(n)})
	}
	return r.cover(samples, func() (func() error, bool) {
		st := r.init.clone()
		p := r.put(st, r.receipt, map[string]*T{"Status": status, "GasUsed": mkInt(21000)})
		_, rets, ok := r.call(st, fn, p)
		if !ok {
			return nil, false
		}
		return func() error {
			n, _ := r.env.tryInt(status)
			if g, ok := r.env.tryBool(rets[0]); !ok || g != (n.Sign() == 0) {
				return fmt.Errorf("with status %v it is %v", n, g)
			}
			return nil
		}, true
	})
}

// ---- the transactions of a block ----

func (r *recordRun) bodies() bool {
	fn := r.c.fn("", "(*Block).ParseTransactions")
	if fn == nil {
		return false
	}
	for n := 0; n <= 4; n++ {
		r.what = fmt.Sprintf("the %d transactions of a block", n)
		var raws []*T
		for i := 0; i < n; i++ {
			raws = append(raws, symsOf(fmt.Sprintf("tx%d", i), 3))
		}
		var samples []sampleVals
		for bad := 0; bad < 1<<uint(n); bad++ {
			v := sampleVals{}
			for i, c := range raws {
				b := []byte{'{', byte(r.rng.Intn(256)), '}'}
				if bad>>uint(i)&1 != 0 {
					b[r.rng.Intn(2)*2] = '"'
				}
				v.bytes(c, b)
			}
			samples = append(samples, v)
		}
		raw := structOf(r.block).Field(fieldIdx(structOf(r.block), "Transactions")).Type().Underlying().(*types.Slice).Elem()
		if !r.cover(samples, func() (func() error, bool) {
			st := r.init.clone()
			var ts []*T
			for _, c := range raws {
				ts = append(ts, r.x.newBytes(st, c, raw))
			}
			p := r.put(st, r.block, map[string]*T{"Transactions": r.x.newBytes(st, cVec(ts...), types.NewSlice(raw))})
			st, rets, ok := r.call(st, fn, p)
			if !ok {
				return nil, false
			}
			return func() error {
				var want []byte
				good := true
				for _, c := range raws {
					b, _ := r.env.tryBytes(c)
					good = good && b[0] == '{' && b[2] == '}'
					want = append(want, b[1])
				}
				if !good || !rets[1].isNil() {
					if !good && !rets[1].isNil() {
						return nil
					}
					return fmt.Errorf("there is an error: %v, and there should be: %v", !rets[1].isNil(), !good)
				}
				c := r.x.content(st, rets[0])
				if k, ok := cLen(c).i64(); !ok || int(k) != n {
					return fmt.Errorf("there are %s of %d", cLen(c), n)
				}
				for i := 0; i < n; i++ {
					q := r.box(st, r.tx, cSel(c, mkInt(int64(i)), r.tx))
					if err := r.number(fmt.Sprintf("transaction %d", i), r.at(st, q, r.tx, "Nonce"), bi(int64(want[i]))); err != nil {
						return err
					}
				}
				return nil
			}, true
		}) {
			return false
		}
	}
	return true
}
