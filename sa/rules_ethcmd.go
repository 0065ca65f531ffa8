package main

// C36: the other eth commands ask for, send and print what was named.

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	checks["C36"] = &CheckDef{
		title:     "The eth commands ask for, post and print exactly what was named",
		technique: "static abstract interpretation over SSA of the commands from main on against a scripted node, files and keys; what is sent and printed compared with the specification",
		explanation: "The commands balance, block, code, jumptab, post, recover and keygen, and the choice of the node, are interpreted from main on. The requests made (method, parameters, order, transport) and what is printed, a term over the answers, are compared with what the arguments name; malformed arguments, failing files and failing nodes must end the command with a failure, with nothing posted. " +
			"Bytes of transactions are unknown.",
		assumptions: []string{"the flag, encoding/json, fmt and net/http packages behave as documented", "recovery of keys, key files and the texts of amounts are the subject of other properties", "arguments between those tried behave alike"},
		min:         400,
		run:         runEthCmd,
	}
}

type ethCmd struct {
	*ethCall
}

func runEthCmd(c *Check) {
	e := c.newEthCall()
	if e == nil {
		return
	}
	r := &ethCmd{ethCall: e}
	var ok bool
	if r.base, ok = r.initPackage(r.base, "cc"); !ok {
		return
	}
	r.env = map[string]string{"SETH_URL": "http://node"}
	_ = r.balances() && r.code() && r.blocks() && r.posts() && r.recovers() && r.jumps() && r.keygen() && r.nodes()
	c.obl += r.n
	c.done += r.n
}

// lineT compares a command line with unknown parts
func (r *ethCmd) lineT(samples []sampleVals, check func() error, args ...string) bool {
	r.what = fmt.Sprintf("eth %q", args)
	var line []*T
	for _, a := range args {
		line = append(line, constStr(a))
	}
	return r.cover(samples, func() (func() error, bool) {
		if !r.eth(line...) {
			return nil, false
		}
		return check, true
	})
}

func (r *ethCmd) fails() error {
	if r.exit == 0 {
		return fmt.Errorf("the command succeeds")
	}
	if len(r.sends()) > 0 {
		return fmt.Errorf("the command fails after posting")
	}
	return nil
}

// quiet: the command fails without asking the node for anything
func (r *ethCmd) quiet() error {
	if r.exit == 0 {
		return fmt.Errorf("the command succeeds")
	}
	if len(r.node.reqs) > 0 {
		return fmt.Errorf("the node is asked although the arguments are wrong")
	}
	return nil
}

func (r *ethCmd) prints(want string) error {
	if r.exit != 0 {
		return fmt.Errorf("the command fails")
	}
	if o, ok := r.printed(); !ok || o != want {
		return fmt.Errorf("%q is printed and not %q", o, want)
	}
	return nil
}

func (r *ethCmd) balances() bool {
	addr := func(i int) string { return fmt.Sprintf("0x%040x", 0xa0+i) }
	big1 := func(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }
	vals := []*big.Int{bi(0), bi(1), bi(255), ten(17), ten(18), new(big.Int).Add(ten(18), bi(1)), big1("9126098576046598288226"), big1("18446744073709551616"), new(big.Int).Lsh(bi(1), 255), new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1))}
	fail := -1
	r.node.answer = func(q nodeReq, n int) (*T, bool) {
		if q.method != "eth_getBalance" || fail >= 0 && n > fail {
			return nil, true
		}
		a, ok := r.text(jsonValue(q.params[0]))
		if !ok || len(a) != 20 {
			return nil, true
		}
		return cLit(fmt.Sprintf(`"0x%x"`, vals[int(a[19])-0xa0])), false
	}
	for _, mode := range []string{"", "-x", "-d"} {
		for i := range vals {
			idx := []int{i}
			if i%3 == 0 {
				idx = []int{i, (i + 3) % len(vals), i, (i + 1) % len(vals)}
			}
			args := []string{"balance"}
			if mode != "" {
				args = append(args, mode)
			}
			for _, j := range idx {
				args = append(args, addr(j))
			}
			if !r.line(func() error {
				if r.exit != 0 {
					return fmt.Errorf("the command fails")
				}
				o, ok := r.printed()
				if !ok {
					return fmt.Errorf("it is unknown what is printed")
				}
				ls := strings.Split(o, "\n")
				if len(ls) != len(idx)+1 || ls[len(idx)] != "" {
					return fmt.Errorf("%q is printed for %d accounts", o, len(idx))
				}
				for k, j := range idx {
					switch {
					case mode == "-x" && ls[k] != fmt.Sprintf("0x%x", vals[j]):
						return fmt.Errorf("%s is printed as %s", vals[j], ls[k])
					case mode == "-d" && ls[k] != vals[j].String():
						return fmt.Errorf("%s is printed as %s", vals[j], ls[k])
					case mode == "":
						n, unit, _ := strings.Cut(ls[k], " ")
						if unit != "ETH" {
							return fmt.Errorf("%q is printed for an amount of ether", ls[k])
						}
						if err := exact(n, vals[j], 18); err != nil {
							return err
						}
					}
				}
				if len(r.node.reqs) != len(idx) {
					return fmt.Errorf("%d requests are made for %d accounts", len(r.node.reqs), len(idx))
				}
				for _, q := range r.node.reqs {
					if b, ok := r.text(jsonValue(q.params[1])); !ok || b != `"latest"` && b != `"pending"` {
						return fmt.Errorf("the balance at %s is asked for", b)
					}
				}
				return nil
			}, args...) {
				return false
			}
		}
	}
	for _, a := range [][]string{{"balance"}, {"balance", "0x12"}, {"balance", addr(1), "x"}, {"balance", addr(1), addr(1) + "0"}, {"balance", ""}, {"balance", "-q", addr(1)}} {
		if !r.line(r.quiet, a...) {
			return false
		}
	}
	for fail = 0; fail < 2; fail++ {
		if !r.line(r.fails, "balance", addr(1), addr(2), addr(3)) {
			return false
		}
	}
	return true
}

func (r *ethCmd) code() bool {
	bad := false
	var code []byte
	r.node.answer = func(q nodeReq, n int) (*T, bool) {
		if q.method != "eth_getCode" || bad {
			return nil, true
		}
		return cLit(fmt.Sprintf("\"0x%x\"", code)), false
	}
	for _, n := range []int{0, 1, 2, 33, 100} {
		for k := 0; k < 2; k++ {
			code = make([]byte, n)
			r.rng.Read(code)
			if k == 1 && n > 0 {
				code[0], code[n-1] = 0, 0
			}
			if !r.line(func() error {
				if err := r.prints(hex.EncodeToString(code) + "\n"); err != nil {
					return err
				}
				if len(r.node.reqs) != 1 {
					return fmt.Errorf("%d requests are made", len(r.node.reqs))
				}
				if a, _ := r.text(jsonValue(r.node.reqs[0].params[0])); "0x"+hex.EncodeToString([]byte(a)) != ethTo {
					return fmt.Errorf("the code of %x is asked for", a)
				}
				return nil
			}, "code", ethTo) {
				return false
			}
		}
	}
	for _, a := range [][]string{{"code"}, {"code", "0x12"}, {"code", ethTo, ethTo}, {"code", ethTo + "0"}} {
		if !r.line(r.quiet, a...) {
			return false
		}
	}
	bad = true
	return r.line(r.fails, "code", ethTo)
}

// blocks: the blocks named are printed in their order
func (r *ethCmd) blocks() bool {
	const last = 1000
	numberless := false
	upto := int64(last + 1)
	r.node.answer = func(q nodeReq, n int) (*T, bool) {
		if q.method != "eth_getBlockByNumber" || len(q.params) != 2 {
			return nil, true
		}
		s, ok := r.text(jsonValue(q.params[0]))
		s = strings.Trim(s, `"`)
		v, num := new(big.Int).SetString(s, 0)
		switch {
		case !ok:
			return nil, true
		case s == "latest":
			v = bi(last)
		case s == "pending":
			v = bi(last + 1)
		case s == "earliest":
			v = bi(0)
		case !num || v.Sign() < 0 || v.Cmp(bi(upto)) > 0:
			return nil, true
		}
		h := make([]byte, 32)
		v.FillBytes(h)
		n1 := cLit(fmt.Sprintf(`"0x%x"`, v))
		if numberless && s == "pending" {
			n1 = cLit("null")
		}
		return mk("fn", "object", nil, mkStr("hash"), cLit(fmt.Sprintf(`"0x%x"`, h)), mkStr("number"), n1, mkStr("timestamp"), cLit(fmt.Sprintf(`"0x%x"`, v.Int64()+7))), false
	}
	bt := r.c.typ("", "Block")
	// shown are the numbers of the blocks printed
	shown := func() ([]int64, error) {
		var out []int64
		var parts []*T
		for _, o := range r.out {
			if o.op == "seq" || o.op == "cat" {
				parts = append(parts, o.args...)
			} else {
				parts = append(parts, o)
			}
		}
		for _, p := range parts {
			if p.op == "sub" {
				p = p.args[0]
			}
			if p.op != "fn" || p.aux != "json" {
				if s, ok := r.text(p); !ok || strings.TrimSpace(s) != "" {
					return nil, fmt.Errorf("%s is printed", clip(p.String(), 60))
				}
				continue
			}
			h := dfield(p.args[0], bt, "Hash")
			b, ok := r.text(h)
			if !ok || len(b) != 32 {
				return nil, fmt.Errorf("a block without its hash is printed")
			}
			v := new(big.Int).SetBytes([]byte(b)).Int64()
			ts, ok := r.env2(dfield(p.args[0], bt, "Timestamp"))
			if !ok || ts.Int64() != v+7 {
				return nil, fmt.Errorf("block %d is printed with another time", v)
			}
			out = append(out, v)
		}
		return out, nil
	}
	type item struct {
		arg  string
		want []int64
	}
	upTo := func(a, n, d int64) []int64 {
		var out []int64
		for i := int64(0); i < n && a+i*d >= 0; i++ {
			out = append(out, a+i*d)
		}
		return out
	}
	items := []item{
		{"latest", upTo(last, 1, 1)}, {"pending", upTo(last+1, 1, 1)}, {"earliest", upTo(0, 1, 1)}, {"0", upTo(0, 1, 1)}, {"1", upTo(1, 1, 1)}, {"999", upTo(999, 1, 1)}, {"0x10", upTo(16, 1, 1)},
		{"5+3", upTo(5, 3, 1)}, {"5-3", upTo(5, 3, -1)}, {"5+1", upTo(5, 1, 1)}, {"5-1", upTo(5, 1, -1)}, {"5+0", nil}, {"5-0", nil}, {"latest-10", upTo(last, 10, -1)}, {"latest+1", upTo(last, 1, 1)}, {"latest+2", upTo(last, 2, 1)}, {"pending-3", upTo(last+1, 3, -1)}, {"pending-1", upTo(last+1, 1, -1)},
		{"earliest+4", upTo(0, 4, 1)}, {"0x10-0x2", upTo(16, 2, -1)}, {"998+4", upTo(998, 4, 1)}, {"0+2", upTo(0, 2, 1)}, {"2-3", upTo(2, 3, -1)},
		// nothing comes before the first block
		{"2-4", upTo(2, 4, -1)}, {"0-3", upTo(0, 3, -1)}, {"earliest-2", upTo(0, 2, -1)}, {"1-1000", upTo(1, 1000, -1)},
	}
	one := func(its ...item) bool {
		args := []string{"block"}
		var want []int64
		for _, it := range its {
			args = append(args, it.arg)
			want = append(want, it.want...)
		}
		if len(its) == 0 {
			want = upTo(last+1, 1, 1)
		}
		return r.line(func() error {
			if r.exit != 0 {
				return fmt.Errorf("the command fails")
			}
			got, err := shown()
			if err != nil {
				return err
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("the blocks %v are printed and not %v", got, want)
			}
			return nil
		}, args...)
	}
	if !one() {
		return false
	}
	for i, it := range items {
		if !one(it) || i%2 == 0 && !one(it, items[(i*5+2)%len(items)], items[(i*3+1)%len(items)]) {
			return false
		}
	}
	for _, a := range []string{"x", "", "5+", "+5", "5-x", "x-5", "5+3-1", "5-3-1", "1.5", "late", "0x", "5 "} {
		if !r.line(r.fails, "block", a) {
			return false
		}
	}
	// blocks that there are not
	for _, a := range []string{"1002", "1000+3", "999+4", "0x7fffffffffffffff", "9223372036854775806+3", "99999999999999999999"} {
		if !r.line(r.fails, "block", a) {
			return false
		}
	}
	numberless = true
	r.anyOpen = true
	defer func() { r.anyOpen = false }()
	for _, a := range []string{"pending-3", "pending+1"} {
		r.what = "eth block " + a
		if !r.eth(constStr("block"), constStr(a)) {
			return false
		}
		r.n++
	}
	return true
}

func (r *ethCmd) posts() bool {
	hash := func(i int) string { return fmt.Sprintf("0x%064x", 0x1000+i) }
	fail := -1
	r.node.answer = func(q nodeReq, n int) (*T, bool) {
		if q.method != "eth_sendRawTransaction" || fail == n {
			return nil, true
		}
		return cLit(fmt.Sprintf("%q", hash(n))), false
	}
	ends := []string{"", "\n"}
	for _, ns := range [][]int{{1}, {2}, {110}, {3, 5}, {4, 1, 40}} {
		for e, end := range ends {
			for stdin := -1; stdin < len(ns); stdin++ {
				r.files, r.stdin = map[string]*T{}, nil
				args := []string{"post"}
				vals := sampleVals{}
				var want [][]byte
				for i, n := range ns {
					doc := symsOf(fmt.Sprintf("tx%d", i), n)
					b := make([]byte, n)
					r.rng.Read(b)
					if e == 1 {
						b[n-1] = 0
					}
					vals.bytes(doc, b)
					want = append(want, b)
					text := cCat(hexEnc(doc), cLit(end))
					if i == stdin {
						r.stdin = text
						args = append(args, "-")
					} else {
						f := fmt.Sprintf("/tx%d", i)
						r.files[f] = text
						args = append(args, f)
					}
				}
				if !r.lineT([]sampleVals{vals}, func() error {
					if r.exit != 0 {
						return fmt.Errorf("the command fails")
					}
					s := r.sends()
					if len(s) != len(ns) || len(r.node.reqs) != len(ns) {
						return fmt.Errorf("%d transactions are sent and not %d", len(s), len(ns))
					}
					out := ""
					for i, q := range s {
						if b, ok := r.text(jsonValue(q.params[0])); !ok || b != string(want[i]) {
							return fmt.Errorf("transaction %d is sent as %x and not %x", i, b, want[i])
						}
						out += hash(i+1) + "\n"
					}
					return r.prints(out)
				}, args...) {
					return false
				}
			}
		}
	}
	r.files = map[string]*T{"/a": cLit("0102"), "/b": cLit("01x2"), "/c": cLit(""), "/d": cLit("hello\n"), "/e": cLit("0102")}
	r.stdin = cLit("")
	for _, a := range [][]string{{"post"}, {"post", "/b"}, {"post", "/a", "/b"}, {"post", "/a", "/missing"}, {"post", "/c"}, {"post", "/a", "/c"}, {"post", "/a", "/e", "/d"}, {"post", "-"}, {"post", "/a", "-"}} {
		if !r.line(r.quiet, a...) {
			return false
		}
	}
	// a transaction that is refused: what comes before it is posted
	for fail = 1; fail <= 2; fail++ {
		if !r.line(func() error {
			if r.exit == 0 {
				return fmt.Errorf("the command succeeds although a transaction is refused")
			}
			if o, ok := r.printed(); !ok || o != map[int]string{1: "", 2: hash(1) + "\n"}[fail] {
				return fmt.Errorf("%q is printed", o)
			}
			return nil
		}, "post", "/a", "/e") {
			return false
		}
	}
	return true
}

func (r *ethCmd) recovers() bool {
	r.signers = []string{"a", "b"}
	h1, doc := keccakSum([]byte("x")), "some\ntext\n"
	for _, who := range r.signers {
		for _, h := range [][]byte{h1, keccakSum([]byte(doc)), keccakSum(nil)} {
			sig := fmt.Sprintf("0x%x", signatureBytes(who, h))
			addr := fmt.Sprintf("0x%040x\n", who[0])
			r.stdin = cLit("other")
			if !r.line(func() error { return r.prints(addr) }, "recover", sig, fmt.Sprintf("0x%x", h)) {
				return false
			}
			if !r.line(func() error { return r.prints(fmt.Sprintf("0x%x\n", pubBytes(who))) }, "recover", "-pub", sig, fmt.Sprintf("0x%x", h)) {
				return false
			}
			if !r.line(r.fails, "recover", sig, fmt.Sprintf("0x%x", keccakSum([]byte("y")))) || !r.line(r.fails, "recover", sig) {
				return false
			}
			for _, d := range []string{doc, ""} {
				if string(h) != string(keccakSum([]byte(d))) {
					continue
				}
				r.stdin = cLit(d)
				if !r.line(func() error { return r.prints(addr) }, "recover", sig) || !r.line(func() error { return r.prints(fmt.Sprintf("0x%x\n", pubBytes(who))) }, "recover", "-pub", sig) {
					return false
				}
			}
			for _, a := range [][]string{{"recover"}, {"recover", sig[:len(sig)-2], fmt.Sprintf("0x%x", h)}, {"recover", sig + "00", fmt.Sprintf("0x%x", h)}, {"recover", sig, fmt.Sprintf("0x%x", h[:31])}, {"recover", sig, "x"}, {"recover", "x", fmt.Sprintf("0x%x", h)}, {"recover", sig, fmt.Sprintf("0x%x", h), "more"}, {"recover", ""}} {
				if !r.line(r.fails, a...) {
					return false
				}
			}
		}
	}
	return true
}

// jumps: every entry of the table is printed, with its name only if it has it
func (r *ethCmd) jumps() bool {
	sel := func(fn string) string { return hex.EncodeToString(keccakSum([]byte(fn))[:4]) }
	// the first four bytes of the data, in the ways compilers get at them
	heads := []string{
		"6000357c0100000000000000000000000000000000000000000000000000000000900463ffffffff16",
		"63ffffffff6000357c0100000000000000000000000000000000000000000000000000000000900416",
		"63ffffffff7c01000000000000000000000000000000000000000000000000000000006000350416",
		"6000357c01000000000000000000000000000000000000000000000000000000009004",
		"63ffffffff60e060020a6000350416",
		"60e060020a60003504",
	}
	tail := "5b600080fd" + strings.Repeat("00", 16)
	r.files = nil
	var code string
	r.node.answer = func(q nodeReq, n int) (*T, bool) {
		if q.method != "eth_getCode" {
			return nil, true
		}
		return cLit(`"0x` + code + `"`), false
	}
	type entry struct {
		sel, name string
		pc        int
		form      int
	}
	known := []string{"transfer(address,uint256)", "balanceOf(address)", "totalSupply()", "name()", "owner()", "decimals()", "approve(address,uint256)"}
	var tables [][]entry
	for n := 0; n <= 8; n++ {
		var t []entry
		for i := 0; i < n; i++ {
			e := entry{pc: 0x45 + 0x1b*i*i, form: (i + n) % 4}
			if i%3 == 2 {
				e.sel = sel(fmt.Sprintf("unknown%d()", i))
			} else {
				e.name = known[(i+n)%len(known)]
				e.sel = sel(e.name)
			}
			t = append(t, e)
		}
		tables = append(tables, t)
	}
	for i := range tables {
		t := tables[i]
		code = "6080604052" + heads[i%len(heads)]
		for _, e := range t {
			switch e.form {
			case 0:
				code += fmt.Sprintf("8063%s1461%04x57", e.sel, e.pc)
			case 1:
				code += fmt.Sprintf("63%s811461%04x57", e.sel, e.pc)
			case 2:
				code += fmt.Sprintf("8063%s1462%06x57", e.sel, e.pc)
			case 3:
				code += fmt.Sprintf("63%s811463%08x57", e.sel, e.pc)
			}
		}
		code += tail
		for _, from := range []string{ethTo, "-"} {
			if r.stdin = cLit(code); from == "-" && len(t)%2 == 1 {
				r.stdin = cLit(code + "\n")
			}
			if !r.line(func() error {
				if r.exit != 0 {
					return fmt.Errorf("the command fails")
				}
				o, ok := r.printed()
				if !ok {
					return fmt.Errorf("it is unknown what is printed")
				}
				ls := strings.Split(strings.TrimSuffix(o, "\n"), "\n")
				if o == "" {
					ls = nil
				}
				if len(ls) != len(t) {
					return fmt.Errorf("%d entries are printed and not %d: %q", len(ls), len(t), o)
				}
				for i, e := range t {
					w := fmt.Sprintf("%s pc:%5d", e.sel, e.pc)
					if e.name != "" {
						w += " " + e.name
					}
					if strings.Join(strings.Fields(ls[i]), "") != strings.Join(strings.Fields(w), "") {
						return fmt.Errorf("entry %d is printed as %q and not %q", i, ls[i], w)
					}
				}
				return nil
			}, "jumptab", from) {
				return false
			}
		}
	}
	for _, c := range []string{"", "60806040", "6080604052" + tail} {
		code = c
		r.stdin = cLit(code)
		if !r.line(r.fails, "jumptab", ethTo) || !r.line(r.fails, "jumptab", "-") {
			return false
		}
	}
	r.stdin = cLit("xyz")
	for _, a := range [][]string{{"jumptab"}, {"jumptab", "0x12"}, {"jumptab", "-"}, {"jumptab", ethTo, ethTo}} {
		if !r.line(r.quiet, a...) {
			return false
		}
	}
	return true
}

func (r *ethCmd) keygen() bool {
	kt := r.c.typ("", "Keyfile")
	file := func(t *T, name string, pass *T) error {
		var obj *T
		parts := []*T{t}
		if t.op == "seq" || t.op == "cat" {
			parts = t.args
		}
		for _, p := range parts {
			if p.op == "sub" {
				p = p.args[0]
			}
			if p.op == "fn" && p.aux == "json" && obj == nil {
				obj = p
			} else if s, ok := r.text(p); !ok || strings.TrimSpace(s) != "" {
				return fmt.Errorf("%s is written", clip(p.String(), 60))
			}
		}
		if obj == nil {
			return fmt.Errorf("no key file is written")
		}
		v := obj.args[0]
		for v.op == "ptr" {
			v = v.args[0]
		}
		var kf *T
		v.contains(func(y *T) bool {
			if y.op == "fn" && y.aux == "keyfile" {
				kf = y
			}
			return kf != nil
		})
		if kf == nil || !wholeOf(v, kf, kt) {
			return fmt.Errorf("what is written is not the key file that was made")
		}
		if k := kf.args[0]; k.op != "fn" || k.aux != "priv" {
			return fmt.Errorf("the key written is not the one made")
		}
		if n, ok := r.text(strContent(kf.args[1])); !ok || n != name {
			return fmt.Errorf("the key is named %q and not %q", n, name)
		}
		if kf.args[2] != pass {
			return fmt.Errorf("the key file does not open with the passphrase that was typed")
		}
		return nil
	}
	for _, name := range []string{"", "mine"} {
		for _, out := range []string{"", "/new.json"} {
			for _, no := range []bool{false, true} {
				args := []string{"keygen"}
				if out != "" {
					args = append(args, "-o", out)
				}
				if name != "" {
					args = append(args, name)
				}
				r.noPass = no
				if !r.line(func() error {
					if no {
						if r.exit == 0 || len(r.out) > 0 || len(r.wrote) > 0 {
							return fmt.Errorf("a key is written without a passphrase")
						}
						return nil
					}
					if r.exit != 0 {
						return fmt.Errorf("the command fails")
					}
					if r.made != 1 || r.prompts == 0 {
						return fmt.Errorf("%d keys are made", r.made)
					}
					if out == "" {
						if len(r.wrote) > 0 {
							return fmt.Errorf("a file is written")
						}
						return file(cCat(r.out...), name, r.pass())
					}
					var fs []string
					for f := range r.wrote {
						fs = append(fs, f)
					}
					sort.Strings(fs)
					if len(r.out) > 0 || strings.Join(fs, " ") != out {
						return fmt.Errorf("%v is written and not %s", fs, out)
					}
					return file(r.wrote[out], name, r.pass())
				}, args...) {
					return false
				}
			}
		}
	}
	r.noPass = false
	r.noCreate = true
	defer func() { r.noCreate = false }()
	return r.line(r.fails, "keygen", "-o", "/new.json") && r.line(r.fails, "keygen", "a", "b")
}

// wholeOf: v is the value base with each of its parts
func wholeOf(v, base *T, t types.Type) bool {
	if v == base {
		return true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || v.op != "struct" {
		return v.has(base)
	}
	for i := 0; i < s.NumFields(); i++ {
		if !wholeOf(v.args[i], structField(base, t, i), s.Field(i).Type()) {
			return false
		}
	}
	return true
}

// nodes: the node asked is the one that SETH_URL names
func (r *ethCmd) nodes() bool {
	r.node.answer = func(q nodeReq, n int) (*T, bool) {
		if q.method == "eth_getCode" {
			return cLit(`"0x00"`), false
		}
		return nil, true
	}
	defer func() { r.env, r.files = map[string]string{"SETH_URL": "http://node"}, nil }()
	for _, k := range []struct {
		url, want string
	}{
		{"http://node", "seth.HTTPTransport http://node"}, {"https://node.example:8545/x", "seth.HTTPTransport https://node.example:8545/x"}, {"http://127.0.0.1:8545", "seth.HTTPTransport http://127.0.0.1:8545"},
		{"https://api.infura.io/", "seth.InfuraTransport"}, {"https://mainnet.infura.io/v3/key", "seth.HTTPTransport https://mainnet.infura.io/v3/key"}, {"/run/https.ipc", "seth.RPCTransport unix:/run/https.ipc"}, {"/run/geth.ipc", "seth.RPCTransport unix:/run/geth.ipc"}, {"geth.ipc", "seth.RPCTransport unix:geth.ipc"}, {"", "seth.RPCTransport unix:/home/u/.ethereum/geth.ipc"}, {"/run/missing.ipc", ""}, {"ftp://node", ""},
	} {
		r.env = map[string]string{"HOME": "/home/u"}
		if k.url != "" {
			r.env["SETH_URL"] = k.url
		}
		r.files = map[string]*T{"/run/geth.ipc": cVec(), "/run/https.ipc": cVec(), "geth.ipc": cVec()}
		if !r.line(func() error {
			if k.want == "" {
				return r.quiet()
			}
			if err := r.prints("00\n"); err != nil {
				return err
			}
			if len(r.asked) != 1 || r.asked[0] != k.want {
				return fmt.Errorf("SETH_URL=%s: %v is asked and not %s", k.url, r.asked, k.want)
			}
			return nil
		}, "code", ethTo) {
			return false
		}
	}
	return true
}
