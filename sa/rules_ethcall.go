package main

// C33: eth call and eth read send the call that was typed.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
)

func init() {
	checks["C33"] = &CheckDef{
		title:     "eth call and eth read make exactly the call that was typed, or none",
		technique: "static abstract interpretation over SSA of the command from main on, along paths chosen by sample values: arguments with unknown digits, compared with an independent reading of the arguments and the ABI",
		explanation: "The eth command is interpreted from main on, with its flags, environment, key files and the node scripted. The arguments of the function are texts of all supported types with unknown digits; sample values choose paths, and the call data, a term over the digits, is compared at every sample on the path with the ABI encoding of the value that the text has. " +
			"Texts that are not values of their type, missing arguments, bad signatures and functions that the contract lacks must end the command before anything is signed or sent. What eth read prints is compared with the value in the node's answer.",
		assumptions: []string{"the flag, fmt, math/big, encoding/hex and strings packages behave as documented", "what the signing functions of the package do is the subject of other properties", "values between the samples of a path behave as the samples do"},
		min:         1000,
		run:         runEthCall,
	}
}

// ethArg is the ABI encoding of the argument with that text, nil if the text
// is no value of the type
func ethArg(typ, s string) (word []byte, dyn bool, ok bool) {
	pad := func(b []byte) []byte {
		o := make([]byte, 32)
		copy(o[32-len(b):], b)
		return o
	}
	unhex := func(s string) ([]byte, bool) {
		b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
		return b, err == nil
	}
	num := func(n int) []byte { return pad(big.NewInt(int64(n)).Bytes()) }
	text := func(b []byte) []byte {
		p := append([]byte{}, b...)
		for len(p)%32 != 0 {
			p = append(p, 0)
		}
		return append(num(len(b)), p...)
	}
	if strings.HasSuffix(typ, "[]") {
		if len(s) < 2 || s[0] != '[' || s[len(s)-1] != ']' {
			return nil, false, false
		}
		var es []string
		if s != "[]" {
			es = strings.Split(s[1:len(s)-1], ",")
		}
		out := num(len(es))
		for _, e := range es {
			w, d, ok := ethArg(strings.TrimSuffix(typ, "[]"), e)
			if !ok || d {
				return nil, false, false
			}
			out = append(out, w...)
		}
		return out, true, true
	}
	switch typ {
	case "bool":
		if s == "true" {
			return num(1), false, true
		}
		return num(0), false, s == "false"
	case "address":
		b, ok := unhex(s)
		return pad(b[:min(len(b), 32)]), false, ok && len(b) == 20 && strings.HasPrefix(s, "0x")
	case "bytes":
		b, ok := unhex(s)
		return text(b), true, ok
	case "string":
		return text([]byte(s)), true, true
	}
	if strings.HasPrefix(typ, "bytes") {
		n, err := strconv.Atoi(typ[5:])
		b, ok := unhex(s)
		if err != nil || !ok || n < 1 || n > 32 || len(b) != n || typ[5] == '0' {
			return nil, false, false
		}
		o := make([]byte, 32)
		copy(o, b)
		return o, false, true
	}
	for _, n := range []int{8, 16, 32, 64, 128, 256} {
		for _, p := range []string{"int", "uint"} {
			if typ != p+strconv.Itoa(n) {
				continue
			}
			v, ok := new(big.Int).SetString(s, 0)
			if !ok {
				return nil, false, false
			}
			lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(n))
			if p == "int" {
				hi.Rsh(hi, 1)
				lo.Neg(hi)
			}
			if v.Cmp(lo) < 0 || v.Cmp(hi) >= 0 {
				return nil, false, false
			}
			if v.Sign() < 0 {
				v.Add(v, new(big.Int).Lsh(big.NewInt(1), 256))
			}
			return pad(v.Bytes()), false, true
		}
	}
	return nil, false, false
}

func abiCallData(fn string, types, args []string) ([]byte, bool) {
	h := keccakSum([]byte(fn))
	out := append([]byte{}, h[:4]...)
	var tail []byte
	for i, t := range types {
		w, dyn, ok := ethArg(t, args[i])
		if !ok {
			return nil, false
		}
		if dyn {
			o := big.NewInt(int64(32*len(types) + len(tail))).Bytes()
			out = append(out, make([]byte, 32-len(o))...)
			out = append(out, o...)
			tail = append(tail, w...)
			continue
		}
		out = append(out, w...)
	}
	return append(out, tail...), true
}

type ethCall struct {
	*ethRun
	rng *rand.Rand
}

const ethTo = "0x00000000000000000000000000000000000000c7"

func (c *Check) newEthCall() *ethCall {
	e := c.newEthRun()
	if e == nil {
		return nil
	}
	r := &ethCall{ethRun: e, rng: rand.New(rand.NewSource(3))}
	r.env = map[string]string{"SETH_URL": "http://node", "KEY_PATH": "/keys", "ETHER_ADDR": "mine"}
	r.keys = map[string]ethKey{"k1": {id: "k1", pub: "a", name: "mine"}}
	r.dirs = map[string][]ethFile{"/keys": {{name: "k1", c: cLit(keyfileText("k1", "mine", "a"))}}}
	r.node.answer = r.respond
	return r
}

// keyfileText is a key file
func keyfileText(id, name, acct string) string {
	addr := ""
	if acct != "" {
		addr = fmt.Sprintf(`"address":"%040x",`, acct[0])
	}
	return fmt.Sprintf(`{"id":%q,"version":3,%s"name":%q,"crypto":{"cipher":"aes-128-ctr","cipherparams":{"iv":"00"},"ciphertext":"00","kdf":"scrypt","kdfparams":{"n":2},"mac":"00"}}`, id, addr, name)
}

func (r *ethCall) respond(q nodeReq, n int) (*T, bool) {
	switch q.method {
	case "eth_estimateGas":
		return cLit(`"0x5208"`), false
	case "eth_getTransactionCount":
		return cLit(fmt.Sprintf(`"0x%x"`, senderNonce)), false
	case "eth_sendRawTransaction", "eth_sendTransaction":
		return cLit(fmt.Sprintf(`"0x%x"`, hashBytes("h"))), false
	}
	return nil, false
}

func (r *ethCall) sends() (out []nodeReq) {
	for _, q := range r.node.reqs {
		if strings.HasPrefix(q.method, "eth_send") {
			out = append(out, q)
		}
	}
	return
}

// nothing: the command fails and neither signs nor sends
func (r *ethCall) nothing() error {
	if r.exit == 0 {
		return fmt.Errorf("the command succeeds")
	}
	if len(r.signed) > 0 || len(r.sends()) > 0 {
		return fmt.Errorf("the command fails after signing or sending")
	}
	for _, q := range r.node.reqs {
		if q.method == "eth_call" {
			return fmt.Errorf("the command fails after calling")
		}
	}
	return nil
}

type ethWant struct {
	to         string
	data       []byte
	price      *big.Int
	nonce      int64
	from       string
	printsHash bool
}

// sent: exactly that transaction, signed by its sender
func (r *ethCall) sent(w ethWant) error {
	if r.exit != 0 {
		return fmt.Errorf("the command fails")
	}
	s := r.sends()
	if len(s) != 1 || s[0].method != "eth_sendRawTransaction" || len(s[0].params) != 1 {
		return fmt.Errorf("%d transactions are sent", len(s))
	}
	raw := jsonValue(s[0].params[0])
	if raw.op == "sub" {
		raw = raw.args[0]
	}
	if raw.op != "fn" || raw.aux != "rawtx" {
		return fmt.Errorf("the transaction is %s", clip(raw.String(), 60))
	}
	sg := raw.args[1]
	if sg.op != "fn" || sg.aux != "signature" || sg.args[0].op != "fn" || sg.args[0].aux != "signhash" || sg.args[0].args[0] != raw.args[0] {
		return fmt.Errorf("the transaction does not carry the signature made for it")
	}
	if who, _ := sg.args[1].str(); who != w.from {
		return fmt.Errorf("account %q signs and not %q", who, w.from)
	}
	tt := r.c.typ("", "Transaction")
	get := func(n string) *T {
		v := dfield(raw.args[0], tt, n)
		if v.op == "bytes" {
			v = v.args[0]
		}
		return v
	}
	if to, ok := r.text(get("To")); !ok || "0x"+hex.EncodeToString([]byte(to)) != w.to {
		return fmt.Errorf("the transaction goes to %x and not to %s", to, w.to)
	}
	num := func(n string) *big.Int {
		v := get(n)
		if b := asInt(v); b != nil {
			return b
		}
		b, _ := r.env2(v)
		return b
	}
	if g := num("GasPrice"); g == nil || w.price.Cmp(g) != 0 {
		return fmt.Errorf("the gas price is %v and not %v", g, w.price)
	}
	if g := num("Nonce"); g == nil || g.Int64() != w.nonce {
		return fmt.Errorf("the nonce is %v and not %d", g, w.nonce)
	}
	if g := num("Value"); g == nil || g.Sign() != 0 {
		return fmt.Errorf("the value is %v", g)
	}
	d, ok := r.text(get("Input"))
	if !ok {
		return fmt.Errorf("the data is unknown: %s", clip(get("Input").String(), 200))
	}
	if d != string(w.data) {
		return fmt.Errorf("the data is %x and not %x", d, w.data)
	}
	o, ok := r.printed()
	if want := fmt.Sprintf("0x%x\n", hashBytes("h")); !ok || o != want {
		return fmt.Errorf("%q is printed and not %q", o, want)
	}
	return nil
}

func (r *ethCall) env2(v *T) (*big.Int, bool) { return r.sampleRun.env.tryInt(v) }

// arg is a text of which the # are unknown
type argText struct {
	shape string
	fills []string
}

func runEthCall(c *Check) {
	r := c.newEthCall()
	if r == nil {
		return
	}
	_ = r.arguments() && r.several() && r.signatures() && r.options() && r.tables() && r.reads()
	c.obl += r.n
	c.done += r.n
}

func (r *ethCall) digits(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = set[r.rng.Intn(len(set))]
	}
	return string(b)
}

// texts of arguments of a type
func (r *ethCall) texts(typ string) []argText {
	var out []argText
	hexd := "0123456789abcdefABCDEF"
	add := func(shape string, fills ...string) { out = append(out, argText{shape, fills}) }
	rand := func(shape, set string, k int, more ...string) {
		n := strings.Count(shape, "#")
		for i := 0; i < k; i++ {
			more = append(more, r.digits(n, set))
		}
		add(shape, more...)
	}
	if strings.HasSuffix(typ, "[]") {
		e := strings.TrimSuffix(typ, "[]")
		switch {
		case e == "bool":
			for _, s := range []string{"[]", "[true]", "[false,true,true]", "true", "[true", "true]", "[true,]", "[1]", "", "[", "]", "[true,maybe]"} {
				add(s, "")
			}
		case e == "address":
			a := "0x" + strings.Repeat("#", 40)
			add("[]", "")
			rand("["+a+"]", hexd, 2)
			rand("["+a+","+a+"]", hexd, 2)
			rand("["+a+",0x"+strings.Repeat("#", 38)+"]", hexd, 1)
			rand(a, hexd, 1)
		default:
			d := "0123456789"
			add("[]", "")
			rand("[#]", d, 2)
			rand("[##,#,##]", d, 3)
			rand("[-#,#]", d, 3)
			rand("[###,##]", d, 6, "25599", "25600", "12700", "12800")
			rand("[#,0x##]", d, 2)
			rand("##", d, 1)
			rand("[##", d, 1)
			rand("##]", d, 1)
			rand("[#,,#]", d, 1)
			rand("[#]]", d, 1)
		}
		return out
	}
	switch {
	case typ == "bool":
		for _, s := range []string{"true", "false", "1", "0", "True", "", "yes"} {
			add(s, "")
		}
	case typ == "address":
		for _, n := range []int{40, 38, 42, 0, 64} {
			rand("0x"+strings.Repeat("#", n), hexd, 2)
		}
		rand("0x"+strings.Repeat("#", 20)+"g"+strings.Repeat("#", 19), hexd, 1)
		rand(strings.Repeat("#", 40), hexd, 1)
		add("", "")
		add("nobody", "")
	case typ == "bytes":
		for _, n := range []int{0, 2, 4, 62, 64, 66, 128, 130} {
			rand("0x"+strings.Repeat("#", n), hexd, 2)
			rand(strings.Repeat("#", n), hexd, 2)
		}
		rand("0x###", hexd, 1)
		rand("#", hexd, 1)
		rand("0x##g#", hexd, 1)
		rand("##x#", hexd, 1)
	case typ == "string":
		for _, n := range []int{0, 1, 2, 3, 31, 32, 33, 65} {
			rand(strings.Repeat("#", n), " abcdefXYZ0123456789[],xé", 3, r.digits(n, "0123456789abcdef"))
			rand("0x"+strings.Repeat("#", n), "0123456789abcdef", 1)
		}
		add("#####", " abc ", "\tabc\n", "\"abc\"", "'abc'", "\\n\\x0", "%s%d%", "\x00\xff\x80\x01 ", "[a,b]", "(a,b)", "true ", "     ")
	case strings.HasPrefix(typ, "bytes"):
		w, _ := strconv.Atoi(typ[5:])
		for _, n := range []int{w, w - 1, w + 1, 0, 32} {
			if n >= 0 {
				rand("0x"+strings.Repeat("#", 2*n), hexd, 2)
				rand(strings.Repeat("#", 2*n), hexd, 1)
			}
		}
		rand("0x"+strings.Repeat("#", 2*w-1), hexd, 1)
		add("hello", "")
	default:
		w, _ := strconv.Atoi(strings.TrimPrefix(strings.TrimPrefix(typ, "u"), "int"))
		one := big.NewInt(1)
		near := map[string]bool{}
		for _, bits := range []int{w, w - 1, w + 1, 8, 0} {
			p := new(big.Int).Lsh(one, uint(bits))
			for d := int64(-2); d <= 2; d++ {
				v := new(big.Int).Add(p, big.NewInt(d))
				for _, s := range []string{v.String(), new(big.Int).Neg(v).String(), fmt.Sprintf("0x%x", v), fmt.Sprintf("-0x%x", v)} {
					near[strings.Replace(s, "--", "-", 1)] = true
				}
			}
		}
		// group by shape: digits after the sign and the prefix are unknown, the first one excepted
		by := map[string][]string{}
		put := func(s string) {
			i := 0
			if strings.HasPrefix(s[i:], "-") {
				i++
			}
			if strings.HasPrefix(s[i:], "0x") {
				i += 2
			} else {
				i++
			}
			if i > len(s) {
				return
			}
			by[s[:i]+strings.Repeat("#", len(s)-i)] = append(by[s[:i]+strings.Repeat("#", len(s)-i)], s[i:])
		}
		for _, s := range sortedKeys(near) {
			put(s)
		}
		for _, b := range []int{3, 8, w, w + 1} {
			for k := 0; k < 2; k++ {
				v := new(big.Int).Rand(r.rng, new(big.Int).Lsh(one, uint(b)))
				put(v.String())
				if v.Sign() > 0 {
					put("-" + v.String())
				}
				put(fmt.Sprintf("0x%x", v))
			}
		}
		ks := map[string]bool{}
		for k := range by {
			ks[k] = true
		}
		for _, k := range sortedKeys(ks) {
			add(k, by[k]...)
		}
		for _, s := range []string{"", "-", "0x", "1.5", "1e3", "one", " 1", "1 ", "+1", "-0", "true", "0x-1", "--1"} {
			add(s, "")
		}
	}
	return out
}

// typed runs a call whose arguments are the texts, of which some digits are
// unknown
func (r *ethCall) typed(flags []string, fn string, typs []string, texts []argText, w ethWant) bool {
	var line []*T
	for _, f := range append([]string{"call"}, flags...) {
		line = append(line, constStr(f))
	}
	line = append(line, constStr(ethTo), constStr(fn))
	var syms [][]*T
	var shapes []string
	for i, t := range texts {
		c, s := r.shape(fmt.Sprintf("arg%d", i), t.shape)
		line = append(line, mkString(c))
		syms = append(syms, s)
		shapes = append(shapes, t.shape)
	}
	r.what = "eth " + strings.Join(append(append([]string{"call"}, flags...), append([]string{ethTo, fn}, shapes...)...), " ")
	var samples []sampleVals
	n := 0
	for _, t := range texts {
		n = max(n, len(t.fills))
	}
	fills := map[*big.Int][]string{}
	key := mk("sym", "sample", intT)
	for k := 0; k == 0 || k < n; k++ {
		v := sampleVals{}
		id := big.NewInt(int64(k))
		for i, t := range texts {
			f := t.fills[k%len(t.fills)]
			digitSample(v, syms[i], f)
			fills[id] = append(fills[id], fill(t.shape, f))
		}
		v[key] = id
		samples = append(samples, v)
	}
	byNo := map[int64][]string{}
	for id, f := range fills {
		byNo[id.Int64()] = f
	}
	return r.cover(samples, func() (func() error, bool) {
		if !r.eth(line...) {
			return nil, false
		}
		return func() error {
			no, _ := r.env2(key)
			args := byNo[no.Int64()]
			where := func(err error) error {
				if err != nil {
					return fmt.Errorf("with %q %s", args, err)
				}
				return nil
			}
			data, ok := abiCallData(fn, typs, args)
			if !ok {
				return where(r.nothing())
			}
			w2 := w
			w2.data = data
			return where(r.sent(w2))
		}, true
	})
}

func (r *ethCall) plain() ethWant {
	return ethWant{to: ethTo, price: big.NewInt(4e9), nonce: senderNonce, from: "a"}
}

func (r *ethCall) arguments() bool {
	typs := []string{"bool", "address", "bytes", "string", "bytes1", "bytes4", "bytes20", "bytes31", "bytes32", "bool[]", "address[]", "uint8[]", "int8[]", "uint256[]"}
	for _, n := range []int{8, 16, 32, 64, 128, 256} {
		typs = append(typs, fmt.Sprintf("int%d", n), fmt.Sprintf("uint%d", n))
	}
	for _, t := range typs {
		for _, a := range r.texts(t) {
			if !r.typed([]string{"-f"}, "f("+t+")", []string{t}, []argText{a}, r.plain()) {
				return false
			}
		}
	}
	// types that there are not
	for _, t := range []string{"bytes33", "bytes0", "bytes01", "uint7", "uint264", "Int8", "uint08", "function", "", "uint8[2]", "mapping"} {
		if !r.typed([]string{"-f"}, "f("+t+",bool)", []string{t, "bool"}, []argText{{"1", []string{""}}, {"true", []string{""}}}, r.plain()) {
			return false
		}
	}
	return true
}

// several arguments: their order and where the dynamic ones are
func (r *ethCall) several() bool {
	one := func(shape string, fills ...string) argText { return argText{shape, fills} }
	h := strings.Repeat("#", 40)
	for _, k := range []struct {
		typs []string
		args []argText
	}{
		{[]string{"address", "uint256"}, []argText{one("0x"+h, r.digits(40, "0123456789abcdef")), one("##", "07", "99")}},
		{[]string{"bytes", "uint8"}, []argText{one("0x####", "ab01"), one("##", "07", "99")}},
		{[]string{"uint8", "bytes", "bool", "string"}, []argText{one("##", "12"), one("0x"+strings.Repeat("#", 66), r.digits(66, "0123456789abcdef")), one("true", ""), one("###", "xyz", "abc")}},
		{[]string{"bytes", "bytes", "uint16[]", "bytes2"}, []argText{one("", ""), one("##", "ab"), one("[##,#]", "123"), one("0x####", "0a0b")}},
		{[]string{"bytes32", "int64", "int64"}, []argText{one("0x"+strings.Repeat("#", 64), r.digits(64, "0123456789abcdef")), one("-##", "45"), one("#", "9")}},
		{[]string{"uint8", "uint16"}, []argText{one("###", "255", "256"), one("#####", "65535", "65536", "65535")}},
		{[]string{"bool", "uint8", "bool"}, []argText{one("true", ""), one("#", "5"), one("maybe", "")}},
	} {
		if !r.typed([]string{"-f"}, "f("+strings.Join(k.typs, ",")+")", k.typs, k.args, r.plain()) {
			return false
		}
	}
	return r.typed([]string{"-f"}, "run()", nil, nil, r.plain())
}

// run compares a command line of which nothing is unknown
func (r *ethCall) line(check func() error, args ...string) bool {
	r.what = "eth " + strings.Join(args, " ")
	var line []*T
	for _, a := range args {
		line = append(line, constStr(a))
	}
	return r.cover([]sampleVals{{}}, func() (func() error, bool) {
		if !r.eth(line...) {
			return nil, false
		}
		return check, true
	})
}

func (r *ethCall) signatures() bool {
	for _, a := range [][]string{
		{"call"}, {"call", ethTo}, {"call", "-f", ethTo, "f(uint8)"}, {"call", "-f", ethTo, "f(uint8,uint8)", "1"},
		{"call", "-f", ethTo, "f", "1"}, {"call", "-f", ethTo, "f(uint8", "1"}, {"call", "-f", ethTo, "fuint8)", "1"}, {"call", "-f", ethTo, "f)uint8(", "1"},
		{"call", "-f", ethTo, "f(uint8) ", "1"}, {"call", "-f", ethTo, "f(uint8))", "1"}, {"call", "-f", ethTo, "f((uint8))", "1"}, {"call", "-f", ethTo, "f(uint8 ,bool)", "1", "true"}, {"call", "-f", ethTo, "(uint8)", "1"}, {"call", "-f", ethTo, "", "1"},
		{"call", "-f", "0x12", "f(uint8)", "1"}, {"call", "-f", "", "f(uint8)", "1"}, {"call", "-f", ethTo + "00", "f(uint8)", "1"},
		{"call", "-f", ethTo, "f(uint8,)", "1", "2"}, {"call", "-f", ethTo, "f(,)", "1", "2"},
		{"call", "-x", ethTo, "f(uint8)", "1"}, {"call", "-n=x", "-f", ethTo, "f(uint8)", "1"},
		{"read"}, {"read", ethTo}, {"read", "-f", ethTo, "f(uint8)"}, {"read", "-f", ethTo, "f(uint8)", "256", "uint8"}, {"read", "-f", "0x12", "f()", "uint8"}, {"read", "-f", ethTo, "f()", "nothing"},
	} {
		if !r.line(r.nothing, a...) {
			return false
		}
	}
	return true
}

func (r *ethCall) options() bool {
	data, _ := abiCallData("f(uint8)", []string{"uint8"}, []string{"7"})
	for _, k := range []struct {
		flags []string
		nonce int64
		gwei  int64
	}{
		{nil, senderNonce, 4}, {[]string{"-n", "0"}, 0, 4}, {[]string{"-n=7"}, 7, 4}, {[]string{"-g", "1"}, senderNonce, 1}, {[]string{"-g=250", "-n", "1000000"}, 1000000, 250},
		{[]string{"-g", "0"}, senderNonce, 0}, {[]string{"-g", "9"}, senderNonce, 9}, {[]string{"-v", "-g", "5"}, senderNonce, 5}, {[]string{"-g", "9000000000"}, senderNonce, 9000000000},
	} {
		w := r.plain()
		w.data, w.nonce, w.price = data, k.nonce, new(big.Int).Mul(big.NewInt(k.gwei), big.NewInt(1e9))
		if !r.line(func() error { return r.sent(w) }, append(append([]string{"call", "-f"}, k.flags...), ethTo, "f(uint8)", "7")...) {
			return false
		}
	}
	return true
}

// tables: a function that the contract does not have is not called
func (r *ethCall) tables() bool {
	sel := func(fn string) string { return hex.EncodeToString(keccakSum([]byte(fn))[:4]) }
	heads := []string{
		"6000357c0100000000000000000000000000000000000000000000000000000000900463ffffffff16",
		"63ffffffff6000357c0100000000000000000000000000000000000000000000000000000000900416",
		"63ffffffff7c01000000000000000000000000000000000000000000000000000000006000350416",
		"6000357c01000000000000000000000000000000000000000000000000000000009004",
		"63ffffffff60e060020a6000350416",
		"60e060020a60003504",
	}
	entry := []func(s string) string{
		func(s string) string { return "8063" + s + "1461012357" },
		func(s string) string { return "63" + s + "811460ab57" },
		func(s string) string { return "8063" + s + "146201234557" },
	}
	fns := []string{"a(uint8)", "f(uint8)", "g(uint8)", "h(uint8)"}
	for hi, h := range heads {
		for ei := range entry {
			for n := 0; n <= 3; n++ {
				code := "6080604052" + h
				for i := 0; i < n; i++ {
					code += entry[(ei+i)%len(entry)](sel(fns[i]))
				}
				code += "5b600080fd" + strings.Repeat("00", 16) + "8063" + sel("h(uint8)") + "1461012357"
				r.node.answer = func(q nodeReq, k int) (*T, bool) {
					if q.method == "eth_getCode" {
						return cLit(`"0x` + code + `"`), false
					}
					return r.respond(q, k)
				}
				for i, f := range fns {
					if (hi+ei+n+i)%3 != 0 && (hi > 0 || ei > 0) {
						continue
					}
					data, _ := abiCallData(f, []string{"uint8"}, []string{"7"})
					w := r.plain()
					w.data = data
					if !r.line(func() error {
						if i < n {
							return r.sent(w)
						}
						return r.nothing()
					}, "call", ethTo, f, "7") {
						return false
					}
				}
			}
		}
	}
	// selectors that differ in one byte, the last ones in the code, and code
	// without a table
	for k := 0; k <= 5; k++ {
		s := sel("f(uint8)")
		code := heads[0]
		switch {
		case k < 4:
			b, _ := hex.DecodeString(s)
			b[k] ^= 0x10
			code += entry[0](hex.EncodeToString(b)) + "5b600080fd" + strings.Repeat("00", 16)
		case k == 4:
			code += entry[0](sel("a(uint8)")) + entry[1](s) + "5b600080fd"
		case k == 5:
			code = "8063" + s + "1461012357" + "5b600080fd"
		}
		r.node.answer = func(q nodeReq, k int) (*T, bool) {
			if q.method == "eth_getCode" {
				return cLit(`"0x` + code + `"`), false
			}
			return r.respond(q, k)
		}
		w := r.plain()
		w.data, _ = abiCallData("f(uint8)", []string{"uint8"}, []string{"7"})
		if !r.line(func() error {
			if k == 4 {
				return r.sent(w)
			}
			return r.nothing()
		}, "call", ethTo, "f(uint8)", "7") {
			return false
		}
	}
	// the code is that of the contract called
	asked := false
	for _, q := range r.node.reqs {
		if q.method == "eth_getCode" {
			t := jsonValue(q.params[0])
			b, _ := r.text(t)
			asked = "0x"+hex.EncodeToString([]byte(b)) == ethTo
		}
	}
	r.n++
	if !asked {
		return r.say("value", "the code of another contract is looked at")
	}
	r.node.answer = r.respond
	return true
}

// reads: what is printed is the value in the answer
func (r *ethCall) reads() bool {
	word := func(b string) []byte { o, _ := hex.DecodeString(strings.Repeat("0", 64-len(b)) + b); return o }
	neg := func(v int64) []byte {
		return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(v)).Bytes()
	}
	cat := func(b ...[]byte) []byte { return bytes.Join(b, nil) }
	text := func(s string) []byte {
		p := s
		for len(p)%32 != 0 {
			p += "\x00"
		}
		return cat(word(fmt.Sprintf("%x", len(s))), []byte(p))
	}
	max256 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	min256 := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 255))
	rand32 := make([]byte, 32)
	r.rng.Read(rand32)
	rand32[0] = 0xfe
	for _, k := range []struct {
		ret  []string
		data []byte
		want string
	}{
		{[]string{"uint256"}, word("ff"), "255\n"},
		{[]string{"uint256"}, max256.Bytes(), max256.String() + "\n"},
		{[]string{"uint"}, max256.Bytes(), max256.String() + "\n"},
		{[]string{"uint8"}, word("ff"), "255\n"},
		{[]string{"uint64"}, word("ffffffffffffffff"), "18446744073709551615\n"},
		{[]string{"uint128"}, word("ffffffffffffffffffffffffffffffff"), "340282366920938463463374607431768211455\n"},
		{[]string{"int256"}, neg(-1), "-1\n"},
		{[]string{"int256"}, word("8" + strings.Repeat("0", 63)), min256.String() + "\n"},
		{[]string{"int256"}, word("7" + strings.Repeat("f", 63)), new(big.Int).Sub(new(big.Int).Neg(min256), big.NewInt(1)).String() + "\n"},
		{[]string{"int"}, neg(-12345), "-12345\n"},
		{[]string{"int8"}, neg(-128), "-128\n"},
		{[]string{"int16"}, neg(-2), "-2\n"},
		{[]string{"int32"}, neg(-3), "-3\n"},
		{[]string{"int64"}, neg(-9000000000000000000), "-9000000000000000000\n"},
		{[]string{"int128"}, neg(-7), "-7\n"},
		{[]string{"int8"}, word("7f"), "127\n"},
		{[]string{"bool"}, word("1"), "true\n"},
		{[]string{"bool"}, word("0"), "false\n"},
		{[]string{"address"}, word(ethTo[2:]), ethTo + "\n"},
		{[]string{"bytes32"}, rand32, fmt.Sprintf("%x\n", rand32)},
		{[]string{"string"}, cat(word("20"), text("hello, world")), "hello, world\n"},
		{[]string{"string"}, cat(word("20"), text("")), "\n"},
		{[]string{"bytes"}, cat(word("20"), text("\x00\xff\x01")), "00ff01\n"},
		{[]string{"uint256", "int256", "bool"}, cat(word("5"), neg(-5), word("1")), "5\n-5\ntrue\n"},
		{[]string{"int8", "uint8"}, cat(neg(-1), word("ff")), "-1\n255\n"},
		{[]string{"string", "uint8", "bytes"}, cat(word("60"), word("9"), word("a0"), text("abc"), text("\x01\x02")), "abc\n9\n0102\n"},
		{nil, nil, ""},
	} {
		for _, args := range [][]string{nil, {"7"}} {
			fn, typs := "f()", []string(nil)
			if args != nil {
				fn, typs = "f(uint8)", []string{"uint8"}
			}
			want, _ := abiCallData(fn, typs, args)
			data := k.data
			r.node.answer = func(q nodeReq, n int) (*T, bool) {
				if q.method == "eth_call" {
					return cLit(`"0x` + hex.EncodeToString(data) + `"`), false
				}
				return nil, false
			}
			if !r.line(func() error {
				if r.exit != 0 {
					return fmt.Errorf("the command fails")
				}
				calls := 0
				for _, q := range r.node.reqs {
					if q.method != "eth_call" {
						return fmt.Errorf("%s is asked for", q.method)
					}
					calls++
					d, err := r.jsonField(q.params[0], "data")
					if err != nil || d == nil {
						return fmt.Errorf("the call has no data")
					}
					if s, ok := r.text(d); !ok || s != string(want) {
						return fmt.Errorf("the data is %x and not %x", s, want)
					}
					t, err := r.jsonField(q.params[0], "to")
					if err != nil || t == nil {
						return fmt.Errorf("nothing is called")
					}
					if s, _ := r.text(t); "0x"+hex.EncodeToString([]byte(s)) != ethTo {
						return fmt.Errorf("%x is called", s)
					}
				}
				if calls != 1 {
					return fmt.Errorf("there are %d calls", calls)
				}
				if o, ok := r.printed(); !ok || o != k.want {
					return fmt.Errorf("%q is printed and not %q", o, k.want)
				}
				return nil
			}, append(append([]string{"read", "-f", ethTo, fn}, args...), k.ret...)...) {
				return false
			}
		}
	}
	// no answer or no value of the type
	for _, k := range []struct {
		data []byte
		args []string
	}{
		{nil, []string{"f()", "uint256"}},
		{word("1"), []string{"f()", "uint256", "uint256"}},
		{word("20"), []string{"f()", "string"}},
		{cat(word("20"), word("5")), []string{"f()", "string"}},
		{cat(word("20"), word("21"), word("5")), []string{"f()", "bytes"}},
		{cat(word("f"+strings.Repeat("0", 62)), word("5")), []string{"f()", "bytes"}},
	} {
		data := k.data
		r.node.answer = func(q nodeReq, n int) (*T, bool) {
			if q.method == "eth_call" && data != nil {
				return cLit(`"0x` + hex.EncodeToString(data) + `"`), false
			}
			return nil, true
		}
		if !r.line(func() error {
			if r.exit == 0 {
				return fmt.Errorf("the command succeeds although the answer has no such values")
			}
			if o, ok := r.printed(); !ok || o != "" {
				return fmt.Errorf("%q is printed", o)
			}
			return nil
		}, append([]string{"read", "-f", ethTo}, k.args...)...) {
			return false
		}
	}
	r.node.answer = r.respond
	for _, args := range [][]string{
		{"f()", "uint7"}, {"f()", ""}, {"f()", "uint256", "what"}, {"f()", "bytes33"}, {"f()", "bytes0"},
		{"f(uint8)"}, {"f(uint8)", "300"}, {"f(uint8)", "x", "uint8"}, {"f(uint7)", "1", "uint8"}, {"f", "uint8"}, {"f(", "uint8"}, {"f)", "uint8"}, {"f)(", "uint8"}, {"f()x", "uint8"}, {"(uint8)", "1", "uint8"}, {"f(uint8,address)", "1", "uint8"},
	} {
		if !r.line(r.nothing, append([]string{"read", "-f", ethTo}, args...)...) {
			return false
		}
	}
	return true
}
