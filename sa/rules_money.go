package main

// C31: money amounts and exchange rates.

import (
	"bytes"
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C31"] = &CheckDef{
		title:     "Money amounts and rates are exact decimal numbers",
		technique: "static abstract interpretation over SSA along paths chosen by sample values; results are terms over unknown digits and numbers, compared with exact rational arithmetic",
		explanation: "Parsing, printing, conversion, inversion and arithmetic of rates and amounts are interpreted with unknown digits, amounts and rates, in currencies with 0 to 19 decimals that are registered by interpreted calls. Where the code branches on an unknown value, sample values choose; " +
			"what it computes stays a term, and is compared with exact rational arithmetic at every sample on the same path. Malformed texts must be errors, mismatched currencies must panic, and numbers that share their words after a copy are tracked.",
		assumptions: []string{"math/big computes what it documents", "values between the samples of a path behave as the samples do"},
		min:         2000,
		run:         runMoney,
	}
}

type moneyRun struct {
	*sampleRun
	rate, amount, pair, cur types.Type
	digits                  []int
	rng                     *rand.Rand
}

func runMoney(c *Check) {
	r := &moneyRun{sampleRun: c.newSampleRun(), rng: rand.New(rand.NewSource(1))}
	r.rate, r.amount, r.pair, r.cur = c.typ("cc", "Rate"), c.typ("cc", "Amount"), c.typ("cc", "Pair"), c.typ("cc", "Currency")
	if r.rate == nil || r.amount == nil || r.pair == nil || r.cur == nil {
		return
	}
	st, ok := r.initPackage(r.base, "cc")
	if !ok {
		return
	}
	r.base = st
	steps := []func() bool{r.registry, r.parses, r.prints, r.newRates, r.converts, r.inverses, r.pairs, r.arithmetic, r.texts}
	for _, f := range steps {
		if !f() {
			break
		}
	}
	c.obl += r.n
	c.done += r.n
}

func (r *moneyRun) f(name string) *ssa.Function { return r.c.fn("cc", name) }

// ---- values ----

func (r *moneyRun) newRate(st *State, v *T) *T {
	p := r.x.newAlloc("rate", r.rate)
	r.x.store(st, p, v, r.rate)
	return p
}

func (r *moneyRun) newAmount(st *State, cur string, v *T) *T {
	p := r.x.newAlloc("amount", r.amount)
	r.x.store(st, p, zeroOf(r.amount), r.amount)
	r.x.store(st, fieldAddrOf(p, r.amount, "Currency"), constStr(cur), r.cur)
	r.x.store(st, fieldAddrOf(p, r.amount, "Amount"), v, r.x.bigType())
	return p
}

func (r *moneyRun) newPair(st *State, from, to string, v *T) *T {
	p := r.x.newAlloc("pair", r.pair)
	r.x.store(st, fieldAddrOf(p, r.pair, "From"), constStr(from), r.cur)
	r.x.store(st, fieldAddrOf(p, r.pair, "To"), constStr(to), r.cur)
	r.x.store(st, fieldAddrOf(p, r.pair, "Rate"), v, r.rate)
	return p
}

func (r *moneyRun) val(st *State, p *T) (*big.Int, error) {
	if p.isNil() {
		return nil, fmt.Errorf("a nil number")
	}
	v := r.x.bigVal(st, p)
	if r.x.failed != "" {
		err := fmt.Errorf("%s", r.x.failed)
		r.x.failed = ""
		return nil, err
	}
	n, ok := r.env.tryInt(v)
	if !ok {
		return nil, fmt.Errorf("unknown value %s", clip(v.String(), 120))
	}
	return n, nil
}

func (r *moneyRun) isVal(st *State, p *T, want *big.Int, what string) error {
	n, err := r.val(st, p)
	if err != nil {
		return fmt.Errorf("%s: %s", what, err)
	}
	if n.Cmp(want) != 0 {
		return fmt.Errorf("%s is %s, not %s", what, n, want)
	}
	return nil
}

func (r *moneyRun) str(t *T) (string, error) {
	s, ok := r.text(strContent(t))
	if !ok {
		return "", fmt.Errorf("unknown text %s", clip(t.String(), 120))
	}
	return s, nil
}

func (r *moneyRun) isAmount(st *State, p *T, cur string, want *big.Int, what string) error {
	if p.isNil() {
		return fmt.Errorf("%s is nil", what)
	}
	s, err := r.str(r.x.fieldVal(st, p, r.amount, "Currency"))
	if err != nil {
		return err
	}
	if s != cur {
		return fmt.Errorf("%s is in %q, not %q", what, s, cur)
	}
	return r.isVal(st, fieldAddrOf(p, r.amount, "Amount"), want, what)
}

func ten(n int) *big.Int { return new(big.Int).Exp(bi(10), bi(int64(n)), nil) }

func (r *moneyRun) path(f func() (func() error, bool)) func() (func() error, bool) {
	return func() (func() error, bool) {
		r.x.words = newWords()
		return f()
	}
}

// each is cover, with a fresh record of shared words per path
func (r *moneyRun) each(samples []sampleVals, f func() (func() error, bool)) bool {
	return r.cover(samples, r.path(f))
}

func (r *moneyRun) want(ok bool, f string, a ...interface{}) bool {
	r.n++
	if ok {
		return true
	}
	return r.say("value", f, a...)
}

func (r *moneyRun) wantErr(err error) bool {
	r.n++
	if err == nil {
		return true
	}
	return r.say("value", "%s", err)
}

// ---- the registry ----

const testAddr = "0x00112233445566778899aabbccddeeff0011223344"

func curName(d int) string { return fmt.Sprintf("T%d", d) }

func (r *moneyRun) registry() bool {
	reg, tok := r.f("NewCurrency"), r.f("NewToken")
	byName, byAddr := r.f("CurrencyByName"), r.f("TokenByAddress")
	digits, name, isTok, addr, exists := r.f("(Currency).Digits"), r.f("(Currency).Name"), r.f("(Currency).Token"), r.f("(Currency).Addr"), r.f("(Currency).Exists")
	if reg == nil || tok == nil || byName == nil || byAddr == nil || digits == nil || name == nil || isTok == nil || addr == nil || exists == nil {
		return false
	}
	at := r.c.typ("", "Address")
	if at == nil {
		return false
	}
	r.set(nil)
	r.digits = []int{0, 1, 3, 8, 9, 16, 18, 19}
	st := r.base
	for _, d := range r.digits {
		r.what = "registering a currency"
		s2, rets, ok := r.call(st, reg, constStr(curName(d)), mkInt(int64(d)))
		if !ok {
			return false
		}
		got, err := r.str(rets[0])
		if err == nil && got != curName(d) {
			err = fmt.Errorf("it is called %q", got)
		}
		if !r.wantErr(err) {
			return false
		}
		st = s2
	}
	addrOf := func(b byte) string { return "0x" + strings.Repeat("00", 19) + fmt.Sprintf("%02x", b) }
	mkAddr := func(s *State, b byte) *T {
		p := r.x.newAlloc("addr", at)
		v := make([]byte, 20)
		v[19] = b
		r.x.store(s, p, cLit(string(v)), at)
		return p
	}
	r.what = "registering a token"
	s2, _, ok := r.call(st, tok, constStr("TOK"), mkInt(5), constStr(addrOf(7)))
	if !ok {
		return false
	}
	st = s2
	query := func(st *State, cur string, d int, token byte) bool {
		r.what = "looking up " + cur
		_, rets, ok := r.call(st, byName, constStr(cur))
		if !ok {
			return false
		}
		got, err := r.str(rets[0])
		if err != nil || got != cur || !rets[1].isTrue() {
			return r.say("value", "CurrencyByName finds %q, %s", got, rets[1])
		}
		for _, q := range []struct {
			f    *ssa.Function
			want *T
		}{{digits, mkInt(int64(d))}, {isTok, mkBool(token != 0)}, {exists, mkBool(true)}} {
			if _, rets, ok = r.call(st, q.f, constStr(cur)); !ok {
				return false
			}
			if !r.want(rets[0] == q.want, "it is %s, not %s", rets[0], q.want) {
				return false
			}
		}
		if _, rets, ok = r.call(st, name, constStr(cur)); !ok {
			return false
		}
		if got, err = r.str(rets[0]); err != nil || got != cur {
			return r.say("value", "the name is %q", got)
		}
		s2, rets, ok := r.call(st, addr, constStr(cur))
		if !ok {
			return false
		}
		if token == 0 {
			return r.want(rets[0].isNil(), "a currency that is no token has a contract address")
		}
		if rets[0].isNil() {
			return r.say("value", "a token has no contract address")
		}
		b, okb := constBytes(r.x.load(s2, rets[0], at))
		if !r.want(okb && len(b) == 20 && b[19] == token && bytes.Count(b, []byte{0}) == 19, "the contract address is %x", b) {
			return false
		}
		s2 = st.clone()
		s3, rets, ok := r.call(s2, byAddr, mkAddr(s2, token))
		if !ok {
			return false
		}
		_ = s3
		got, err = r.str(rets[0])
		return r.want(err == nil && got == cur && rets[1].isTrue(), "TokenByAddress finds %q, %s", got, rets[1])
	}
	for _, d := range r.digits {
		if !query(st, curName(d), d, 0) {
			return false
		}
	}
	if !query(st, "TOK", 5, 7) {
		return false
	}
	r.what = "looking up what is not registered"
	if _, rets, ok := r.call(st, byName, constStr("nothing")); !ok || !r.want(rets[1].isFalse(), "CurrencyByName finds something") {
		return false
	}
	for _, b := range []byte{8, 0} {
		s2 = st.clone()
		if _, rets, ok := r.call(s2, byAddr, mkAddr(s2, b)); !ok || !r.want(rets[1].isFalse(), "TokenByAddress finds something") {
			return false
		}
	}
	if _, rets, ok := r.call(st, exists, constStr("nothing")); !ok || !r.want(rets[0].isFalse(), "it exists") {
		return false
	}
	for _, f := range []*ssa.Function{digits, name, isTok, addr} {
		if !r.panics(st, f, constStr("nothing")) {
			return false
		}
		r.n++
	}
	// the same again is the same; anything else under a name that is
	// taken, or at an address that is, is refused
	r.what = "registering a currency again"
	if _, _, ok = r.call(st, reg, constStr(curName(8)), mkInt(8)); !ok {
		return false
	}
	if _, _, ok = r.call(st, tok, constStr("TOK"), mkInt(5), constStr(addrOf(7))); !ok {
		return false
	}
	r.what = "registering a conflicting currency"
	for _, a := range [][]*T{
		{constStr(curName(8)), mkInt(9)}, {constStr("TOK"), mkInt(5)}, {constStr("ETH"), mkInt(8)},
		{constStr("TOK"), mkInt(5), constStr(addrOf(9))}, {constStr("TOK"), mkInt(6), constStr(addrOf(7))},
		{constStr("TOK2"), mkInt(5), constStr(addrOf(7))}, {constStr(curName(8)), mkInt(8), constStr(addrOf(9))},
		{constStr("TOK3"), mkInt(5), constStr("0x1234")}, {constStr(""), mkInt(5)},
	} {
		f := reg
		if len(a) == 3 {
			f = tok
		}
		if !r.panics(st, f, a...) {
			return false
		}
		r.n++
	}
	r.base = st
	return true
}

// ---- parsing ----

// decimal is what a text stands for, in units of 10^-digits
func decimal(s string, digits int) (*big.Int, bool) {
	neg := strings.HasPrefix(s, "-")
	ip, fp, _ := strings.Cut(strings.TrimPrefix(s, "-"), ".")
	if ip == "" && fp == "" || strings.Trim(ip+fp, "0123456789") != "" || len(fp) > digits {
		return nil, false
	}
	n, _ := new(big.Int).SetString("0"+ip+fp+strings.Repeat("0", digits-len(fp)), 10)
	if neg {
		n.Neg(n)
	}
	return n, true
}

var malformed = []string{"", "-", ".", "-.", "..", "1.2.3", "1..2", "1.-5", "1.+5", "--1", "-+1", "+-1", "1-", "1.5-", "-1.-5", "1e5", "1.5e1", "0x10", "0x1.0", "0b1", "0o7", "1_0", "1.0_5", "1._5", "_1", " 1", "1 ", "1. 5", "1 .5", "1,5", "1,000.5", "abc", "1.5a", "1a", "a1", ".a", "inf", "NaN", "1/2", "\t1", "1\n", "１", "1\x00"}

type parser struct {
	what   string
	digits int
	// parse interprets; result has the number's address
	parse func(st *State, c *T) (*State, *T, *T, bool)
	wrap  func(s string) string
	soft  bool // the surrounding syntax may refuse more, or less
}

func (r *moneyRun) parsers() []parser {
	pr, pa, uj := r.f("ParseRate"), r.f("(Currency).ParseAmount"), r.f("(*Rate).UnmarshalJSON")
	if pr == nil || pa == nil || uj == nil {
		return nil
	}
	ps := []parser{{what: "ParseRate", digits: 8, parse: func(st *State, c *T) (*State, *T, *T, bool) {
		s2, rets, ok := r.call(st, pr, mkString(c))
		if !ok {
			return nil, nil, nil, false
		}
		return s2, rets[0], rets[1], true
	}}}
	for i, quoted := range []bool{false, true} {
		quoted := quoted
		ps = append(ps, parser{what: []string{"a rate from JSON", "a rate from a JSON string"}[i], digits: 8, soft: true, parse: func(st *State, c *T) (*State, *T, *T, bool) {
			if quoted {
				c = cCat(cLit(`"`), c, cLit(`"`))
			}
			st = st.clone()
			p := r.newRate(st, bigConst(bi(77)))
			s2, rets, ok := r.call(st, uj, p, r.x.newBytes(st, c, types.NewSlice(byteT)))
			if !ok {
				return nil, nil, nil, false
			}
			return s2, p, rets[0], true
		}})
	}
	for _, d := range r.digits {
		d := d
		ps = append(ps, parser{what: fmt.Sprintf("an amount with %d decimals", d), digits: d, parse: func(st *State, c *T) (*State, *T, *T, bool) {
			s2, rets, ok := r.call(st, pa, constStr(curName(d)), mkString(c))
			if !ok {
				return nil, nil, nil, false
			}
			return s2, rets[0], rets[1], true
		}})
	}
	ua := r.f("(*Amount).UnmarshalText")
	if ua == nil {
		return nil
	}
	return append(ps, parser{what: "an amount from its text", digits: 8, soft: true, parse: func(st *State, c *T) (*State, *T, *T, bool) {
		st = st.clone()
		p := r.newAmount(st, "ETH", bigConst(bi(9)))
		s2, rets, ok := r.call(st, ua, p, r.x.newBytes(st, cCat(c, cLit(" "+curName(8))), types.NewSlice(byteT)))
		if !ok {
			return nil, nil, nil, false
		}
		return s2, p, rets[0], true
	}})
}

func (r *moneyRun) parses() bool {
	ps := r.parsers()
	if ps == nil {
		return false
	}
	for _, p := range ps {
		for _, sh := range r.shapes(p.digits) {
			if !r.parseShape(p, sh) {
				return false
			}
		}
		for _, m := range malformed {
			if p.soft && strings.TrimSpace(m) != m {
				continue
			}
			if !r.refuses(p, m) {
				return false
			}
		}
		// more decimals than there are
		for _, ip := range []string{"", "0", "12", "-", "-3"} {
			for _, n := range []int{1, 2, 12} {
				if !r.refuses(p, ip+"."+strings.Repeat("1", p.digits+n)) {
					return false
				}
			}
		}
	}
	return true
}

func (r *moneyRun) refuses(p parser, s string) bool {
	r.what = fmt.Sprintf("%s, given %q", p.what, s)
	r.set(nil)
	r.x.words = newWords()
	s2, _, e, ok := p.parse(r.base, cLit(s))
	if !ok {
		return false
	}
	return r.want(r.isErr(s2, e), "there is no error")
}

func (r *moneyRun) shapes(digits int) []string {
	var out []string
	for _, sign := range []string{"", "-"} {
		for _, il := range []int{0, 1, 2, 3, 12, 40} {
			ip := strings.Repeat("#", il)
			if il > 0 {
				out = append(out, sign+ip)
			}
			seen := map[int]bool{}
			for _, fl := range []int{1, 2, digits / 2, digits - 1, digits} {
				if fl < 1 || fl > digits || seen[fl] {
					continue
				}
				seen[fl] = true
				if il > 3 && fl != digits {
					continue
				}
				out = append(out, sign+ip+"."+strings.Repeat("#", fl))
			}
		}
	}
	return out
}

func (r *moneyRun) digitRuns(n int) []string {
	out := []string{strings.Repeat("0", n), strings.Repeat("9", n), "1" + strings.Repeat("0", n-1), strings.Repeat("0", n-1) + "1"}
	for i := 0; i < 3; i++ {
		b := make([]byte, n)
		for j := range b {
			b[j] = '0' + byte(r.rng.Intn(10))
		}
		out = append(out, string(b))
	}
	// octal and the like are no numbers of their own
	if n > 1 {
		out = append(out, "0"+strings.Repeat("7", n-1), "0"+strings.Repeat("8", n-1))
	}
	return out
}

func (r *moneyRun) parseShape(p parser, sh string) bool {
	r.what = fmt.Sprintf("%s, given %q", p.what, sh)
	c, syms := r.shape("t", sh)
	var samples []sampleVals
	byVals := map[string]string{}
	key := func() string {
		b := make([]byte, len(syms))
		for i, s := range syms {
			v, _ := r.env.tryInt(s)
			b[i] = byte(v.Int64())
		}
		return string(b)
	}
	for _, d := range r.digitRuns(len(syms)) {
		samples = append(samples, digitSample(nil, syms, d))
		byVals[d] = fill(sh, d)
	}
	return r.each(samples, func() (func() error, bool) {
		s2, v, e, ok := p.parse(r.base, c)
		if !ok {
			return nil, false
		}
		return func() error {
			s := byVals[key()]
			want, _ := decimal(s, p.digits)
			if !e.isNil() {
				return fmt.Errorf("%s is refused", s)
			}
			if strings.Contains(p.what, "an amount") {
				return r.isAmount(s2, v, curName(p.digits), want, s)
			}
			return r.isVal(s2, v, want, s)
		}, true
	})
}

// ---- printing ----

func (r *moneyRun) numbers(sym *T) []sampleVals {
	var out []sampleVals
	add := func(v *big.Int) {
		out = append(out, sampleVals{sym: v}, sampleVals{sym: new(big.Int).Neg(v)})
	}
	out = append(out, sampleVals{sym: bi(0)})
	for _, n := range []int{0, 1, 3, 7, 8, 9, 15, 16, 17, 18, 19, 20, 25, 40} {
		add(ten(n))
		add(new(big.Int).Sub(ten(n+1), bi(1)))
		add(new(big.Int).Add(new(big.Int).Rand(r.rng, ten(n)), ten(n)))
	}
	add(bi(20))
	add(new(big.Int).Lsh(bi(1), 63))
	add(new(big.Int).Lsh(bi(1), 64))
	return out
}

// exact: does s have value v with so many decimals?
func exact(s string, v *big.Int, digits int) error {
	t := strings.TrimPrefix(s, "-")
	ip, fp, dot := strings.Cut(t, ".")
	n, ok := decimal(s, digits)
	if !ok || n.Cmp(v) != 0 || dot != (digits > 0) || len(fp) != digits || ip == "" || len(ip) > 1 && ip[0] == '0' || v.Sign() == 0 && s != t {
		return fmt.Errorf("%s with %d decimals is written %q", v, digits, s)
	}
	return nil
}

func (r *moneyRun) prints() bool {
	rs, as, pr, pa := r.f("(*Rate).String"), r.f("(*Amount).String"), r.f("ParseRate"), r.f("ParseAmount")
	mj, uj := r.f("(*Rate).MarshalJSON"), r.f("(*Rate).UnmarshalJSON")
	if rs == nil || as == nil || pr == nil || pa == nil || mj == nil || uj == nil {
		return false
	}
	v := bigSym("v")
	vals := r.numbers(v)
	val := func() *big.Int { n, _ := r.env.tryInt(v); return n }
	r.what = "the text of a rate"
	if !r.each(vals, func() (func() error, bool) {
		st := r.base.clone()
		p := r.newRate(st, v)
		st, rets, ok := r.call(st, rs, p)
		if !ok {
			return nil, false
		}
		text := rets[0]
		s2, rets, ok := r.call(st, pr, text)
		if !ok {
			return nil, false
		}
		back := rets
		return func() error {
			s, err := r.str(text)
			if err != nil {
				return err
			}
			if err := exact(s, val(), 8); err != nil {
				return err
			}
			if !back[1].isNil() {
				return fmt.Errorf("%s is not read again", s)
			}
			if err := r.isVal(s2, back[0], val(), "what is read again"); err != nil {
				return err
			}
			return r.isVal(s2, p, val(), "the rate that was printed")
		}, true
	}) {
		return false
	}
	r.what = "the JSON of a rate"
	if !r.each(vals, func() (func() error, bool) {
		st := r.base.clone()
		p := r.newRate(st, v)
		st, rets, ok := r.call(st, mj, p)
		if !ok {
			return nil, false
		}
		if !rets[1].isNil() {
			return nil, r.say("value", "there is an error")
		}
		text := r.x.content(st, rets[0])
		q := r.newRate(st, bigConst(bi(5)))
		s2, rets, ok := r.call(st, uj, q, rets[0])
		if !ok {
			return nil, false
		}
		return func() error {
			s, ok := r.text(text)
			if !ok {
				return fmt.Errorf("unknown text %s", clip(text.String(), 120))
			}
			if err := exact(strings.Trim(s, `"`), val(), 8); err != nil {
				return err
			}
			if !rets[0].isNil() {
				return fmt.Errorf("%s is not read again", s)
			}
			return r.isVal(s2, q, val(), "what is read again")
		}, true
	}) {
		return false
	}
	// null
	r.set(nil)
	r.x.words = newWords()
	s2, rets, ok := r.call(r.base, mj, mkNil())
	if ok {
		if b, _ := constBytes(r.x.content(s2, rets[0])); !r.want(string(b) == "null" && rets[1].isNil(), "no rate is %q", b) {
			return false
		}
	}
	if !ok {
		return false
	}
	st := r.base.clone()
	p := r.newRate(st, bigConst(bi(42)))
	s2, rets, ok = r.call(st, uj, p, r.x.newBytes(st, cLit("null"), types.NewSlice(byteT)))
	if !ok || !r.want(rets[0].isNil(), "null is refused") || !r.wantErr(r.isVal(s2, p, bi(42), "the rate after null")) {
		return false
	}
	forms := []struct{ name, out, in string }{{"the text of an amount", "(*Amount).String", "ParseAmount"}, {"the encoding of an amount", "(*Amount).MarshalText", "(*Amount).UnmarshalText"}}
	for _, fm := range forms {
		of, in := r.f(fm.out), r.f(fm.in)
		if of == nil || in == nil {
			return false
		}
		for _, d := range append([]int{-1, -2}, r.digits...) {
			cur, d := curName(d), d
			switch d {
			case -1:
				cur, d = "ETH", 18
			case -2:
				cur, d = "TOK", 5
			}
			r.what = fmt.Sprintf("%s with %d decimals", fm.name, d)
			if !r.each(vals, func() (func() error, bool) {
				st := r.base.clone()
				p := r.newAmount(st, cur, v)
				st, rets, ok := r.call(st, of, p)
				if !ok {
					return nil, false
				}
				var text *T
				if fm.in == "ParseAmount" {
					text = strContent(rets[0])
				} else {
					if !rets[1].isNil() {
						return nil, r.say("value", "there is an error")
					}
					text = r.x.content(st, rets[0])
				}
				var q, e *T
				if fm.in == "ParseAmount" {
					st, rets, ok = r.call(st, in, rets[0])
					if !ok {
						return nil, false
					}
					q, e = rets[0], rets[1]
				} else {
					q = r.newAmount(st, "BTC", bigConst(bi(9)))
					st, rets, ok = r.call(st, in, q, rets[0])
					if !ok {
						return nil, false
					}
					e = rets[0]
				}
				return func() error {
					s, ok := r.text(text)
					if !ok {
						return fmt.Errorf("unknown text %s", clip(text.String(), 120))
					}
					num, ok := strings.CutSuffix(s, " "+cur)
					if !ok {
						return fmt.Errorf("%s %s is written %q", val(), cur, s)
					}
					if err := exact(num, val(), d); err != nil {
						return err
					}
					if !e.isNil() {
						return fmt.Errorf("%s is not read again", s)
					}
					if err := r.isAmount(st, q, cur, val(), "what is read again"); err != nil {
						return err
					}
					return r.isAmount(st, p, cur, val(), "the amount that was printed")
				}, true
			}) {
				return false
			}
		}
	}
	return true
}

// ---- rates from floats ----

func (r *moneyRun) newRates() bool {
	nr, fl := r.f("NewRate"), r.f("(*Rate).Float")
	if nr == nil || fl == nil {
		return false
	}
	f := mk("sym", "f", types.Typ[types.Float64])
	num, den := bigSym("f.num"), bigSym("f.den")
	var samples []sampleVals
	for _, v := range []float64{0, 1, 2, 0.1, 0.2, 0.3, 0.5, 0.7, 1e-8, 1e-9, 4.9e-9, 5.1e-9, 1.4e-8, 1.6e-8, 0.57, 0.29, 1.005, 123.456, 99.999999994, 99.999999996, 1e10, 1e22, 3.3e25, 1.0 / 3, 2.0 / 3, 1234567.89012345, 4.35, 1.15, 0.12345678, 0.00000003} {
		for _, s := range []float64{v, -v} {
			q := new(big.Rat)
			q.SetFloat64(s)
			samples = append(samples, sampleVals{num: new(big.Int).Set(q.Num()), den: new(big.Int).Set(q.Denom())})
		}
	}
	r.what = "the rate closest to a float"
	if !r.each(samples, func() (func() error, bool) {
		st, rets, ok := r.call(r.base, nr, f)
		if !ok {
			return nil, false
		}
		return func() error {
			n, err := r.val(st, rets[0])
			if err != nil {
				return err
			}
			p, _ := r.env.tryInt(num)
			q, _ := r.env.tryInt(den)
			d := new(big.Int).Mul(n, q)
			d.Sub(d, new(big.Int).Mul(p, ten(8)))
			if d.Lsh(d.Abs(d), 1).Cmp(q) > 0 {
				ff, _ := new(big.Rat).SetFrac(p, q).Float64()
				return fmt.Errorf("for %v it is %s e-8", ff, n)
			}
			return nil
		}, true
	}) {
		return false
	}
	r.what = "a rate as a float"
	v := bigSym("v")
	return r.each(r.numbers(v), func() (func() error, bool) {
		st := r.base.clone()
		p := r.newRate(st, v)
		st, rets, ok := r.call(st, fl, p)
		if !ok {
			return nil, false
		}
		return func() error {
			n, _ := r.env.tryInt(v)
			t := rets[0]
			if t.op != "fn" || t.aux != "ratfloat" {
				return fmt.Errorf("unknown value %s", clip(t.String(), 120))
			}
			a, ok1 := r.env.tryInt(t.args[0])
			b, ok2 := r.env.tryInt(t.args[1])
			if !ok1 || !ok2 || b.Sign() == 0 {
				return fmt.Errorf("unknown value %s", clip(t.String(), 120))
			}
			if new(big.Rat).SetFrac(a, b).Cmp(new(big.Rat).SetFrac(n, ten(8))) != 0 {
				return fmt.Errorf("%s e-8 is %s/%s", n, a, b)
			}
			return r.isVal(st, p, n, "the rate")
		}, true
	})
}

// ---- conversion ----

// converted: is got the amount n of a currency with df decimals at rate
// q, in one with dt decimals, rounded down? What is below zero may be
// rounded either way.
func converted(got, n, q *big.Int, df, dt int) error {
	v := new(big.Rat).SetInt(new(big.Int).Mul(n, q))
	v.Mul(v, new(big.Rat).SetFrac(ten(dt), ten(df+8)))
	d := new(big.Rat).Sub(v, new(big.Rat).SetInt(got))
	one := big.NewRat(1, 1)
	if v.Sign() >= 0 && d.Sign() >= 0 && d.Cmp(one) < 0 || v.Sign() < 0 && d.Abs(d).Cmp(one) < 0 {
		return nil
	}
	return fmt.Errorf("%s e-%d at %s e-8 is %s e-%d", n, df, q, got, dt)
}

func (r *moneyRun) grid(n, q *T) []sampleVals {
	var out []sampleVals
	ns := []*big.Int{bi(0), bi(1), bi(-1), bi(9), bi(99999999), ten(8), ten(18), new(big.Int).Sub(ten(27), bi(1)), bi(123456789), new(big.Int).Rand(r.rng, ten(30)), new(big.Int).Neg(new(big.Int).Rand(r.rng, ten(20)))}
	qs := []*big.Int{bi(1), ten(8), new(big.Int).Add(ten(8), bi(1)), bi(99999999), bi(17439082), new(big.Int).Rand(r.rng, ten(12)), bi(0), bi(-5), new(big.Int).Mul(ten(10), bi(3)), new(big.Int).Rand(r.rng, ten(25))}
	for _, a := range ns {
		for _, b := range qs {
			out = append(out, sampleVals{n: a, q: b})
		}
	}
	return out
}

func (r *moneyRun) converts() bool {
	conv, add := r.f("Convert"), r.f("(*Amount).Add")
	if conv == nil || add == nil {
		return false
	}
	n, q := bigSym("n"), bigSym("q")
	samples := r.grid(n, q)
	for _, df := range r.digits {
		for _, dt := range r.digits {
			r.what = fmt.Sprintf("conversion from %d to %d decimals", df, dt)
			if !r.each(samples, func() (func() error, bool) {
				st := r.base.clone()
				a, p := r.newAmount(st, curName(df), n), r.newRate(st, q)
				st, rets, ok := r.call(st, conv, a, constStr(curName(dt)), p)
				if !ok {
					return nil, false
				}
				// what comes out stands on its own
				s2, _, ok := r.call(st, add, rets[0], r.newAmount(st, curName(dt), bigConst(bi(1))))
				if !ok {
					return nil, false
				}
				return func() error {
					nn, _ := r.env.tryInt(n)
					qq, _ := r.env.tryInt(q)
					got, err := r.val(st, fieldAddrOf(rets[0], r.amount, "Amount"))
					if err != nil {
						return err
					}
					if err := converted(got, nn, qq, df, dt); err != nil {
						return err
					}
					if err := r.isAmount(st, rets[0], curName(dt), got, "the result"); err != nil {
						return err
					}
					if err := r.isAmount(s2, a, curName(df), nn, "the amount that was converted"); err != nil {
						return err
					}
					return r.isVal(s2, p, qq, "the rate")
				}, true
			}) {
				return false
			}
		}
	}
	return true
}

func inverted(q *big.Int) *big.Int { return new(big.Int).Quo(ten(16), q) }

// isInverse: 1/q, rounded down; below zero either way; zero stays zero
func isInverse(got, q *big.Int) error {
	if q.Sign() == 0 {
		if got.Sign() != 0 {
			return fmt.Errorf("the inverse of zero is %s", got)
		}
		return nil
	}
	v := new(big.Rat).SetFrac(ten(16), q)
	d := v.Sub(v, new(big.Rat).SetInt(got))
	if q.Sign() > 0 && (d.Sign() < 0 || d.Cmp(big.NewRat(1, 1)) >= 0) || d.Abs(d).Cmp(big.NewRat(1, 1)) >= 0 {
		return fmt.Errorf("the inverse of %s e-8 is %s e-8", q, got)
	}
	return nil
}

func (r *moneyRun) inverses() bool {
	inv, pinv, neg := r.f("(*Rate).Inverse"), r.f("(*Pair).Inverse"), r.f("(*Rate).Sign")
	if inv == nil || pinv == nil || neg == nil {
		return false
	}
	q := bigSym("q")
	samples := append(r.numbers(q), sampleVals{q: bi(3)}, sampleVals{q: bi(17439082)}, sampleVals{q: bi(66666667)})
	r.what = "the inverse of a rate"
	if !r.each(samples, func() (func() error, bool) {
		st := r.base.clone()
		p := r.newRate(st, q)
		st, rets, ok := r.call(st, inv, p)
		if !ok {
			return nil, false
		}
		s2, sg, ok := r.call(st, neg, p)
		if !ok {
			return nil, false
		}
		return func() error {
			v, _ := r.env.tryInt(q)
			got, err := r.val(st, rets[0])
			if err != nil {
				return err
			}
			if err := isInverse(got, v); err != nil {
				return err
			}
			if s, ok := r.env.tryInt(sg[0]); !ok || s.Int64() != int64(v.Sign()) {
				return fmt.Errorf("the sign of %s is %s", v, s)
			}
			return r.isVal(s2, p, v, "the rate")
		}, true
	}) {
		return false
	}
	r.what = "the inverse of a pair"
	return r.each(samples, func() (func() error, bool) {
		st := r.base.clone()
		p := r.newPair(st, curName(3), curName(18), q)
		st, rets, ok := r.call(st, pinv, p)
		if !ok {
			return nil, false
		}
		return func() error {
			v, _ := r.env.tryInt(q)
			got, err := r.val(st, fieldAddrOf(rets[0], r.pair, "Rate"))
			if err != nil {
				return err
			}
			if err := isInverse(got, v); err != nil {
				return err
			}
			if err := r.isPair(st, rets[0], curName(18), curName(3), got); err != nil {
				return err
			}
			return r.isPair(st, p, curName(3), curName(18), v)
		}, true
	})
}

func (r *moneyRun) isPair(st *State, p *T, from, to string, q *big.Int) error {
	if p.isNil() {
		return fmt.Errorf("the pair is nil")
	}
	f, err := r.str(r.x.fieldVal(st, p, r.pair, "From"))
	if err != nil {
		return err
	}
	t, err := r.str(r.x.fieldVal(st, p, r.pair, "To"))
	if err != nil {
		return err
	}
	if f != from || t != to {
		return fmt.Errorf("the pair is from %s to %s, not from %s to %s", f, t, from, to)
	}
	return r.isVal(st, fieldAddrOf(p, r.pair, "Rate"), q, "the rate of the pair")
}

func (r *moneyRun) pairs() bool {
	conv, str, parse, ut := r.f("(*Pair).Convert"), r.f("(*Pair).String"), r.f("ParsePair"), r.f("(*Pair).UnmarshalText")
	mt, fs := r.f("(*Pair).MarshalText"), r.f("(*Pair).FromString")
	if conv == nil || str == nil || parse == nil || ut == nil || mt == nil || fs == nil {
		return false
	}
	n, q := bigSym("n"), bigSym("q")
	samples := r.grid(n, q)
	for _, d := range [][2]int{{8, 18}, {18, 8}, {0, 9}, {9, 0}, {8, 3}} {
		for _, back := range []bool{false, true} {
			from, to := d[0], d[1]
			r.what = fmt.Sprintf("conversion by a pair from %d to %d decimals", from, to)
			a, b := from, to
			if back {
				a, b = to, from
				r.what += ", backwards"
			}
			if !r.each(samples, func() (func() error, bool) {
				st := r.base.clone()
				p, am := r.newPair(st, curName(from), curName(to), q), r.newAmount(st, curName(a), n)
				st, rets, ok := r.call(st, conv, p, am)
				if !ok {
					return nil, false
				}
				return func() error {
					nn, _ := r.env.tryInt(n)
					qq, _ := r.env.tryInt(q)
					got, err := r.val(st, fieldAddrOf(rets[0], r.amount, "Amount"))
					if err != nil {
						return err
					}
					if err := r.isAmount(st, rets[0], curName(b), got, "the result"); err != nil {
						return err
					}
					use := qq
					if back {
						use = bi(0)
						if qq.Sign() != 0 {
							use = inverted(qq)
							if m := new(big.Int).Mul(use, qq); qq.Sign() < 0 && m.Cmp(ten(16)) != 0 {
								use = nil // rounded either way
							}
						}
					}
					if use != nil {
						if err := converted(got, nn, use, a, b); err != nil {
							return err
						}
					}
					if err := r.isPair(st, p, curName(from), curName(to), qq); err != nil {
						return err
					}
					return r.isAmount(st, am, curName(a), nn, "the amount that was converted")
				}, true
			}) {
				return false
			}
		}
	}
	r.set(nil)
	r.what = "conversion of an amount in neither currency of the pair"
	for _, cur := range []string{"ETH", curName(9), ""} {
		st := r.base.clone()
		if !r.panics(st, conv, r.newPair(st, curName(8), curName(18), bigConst(ten(8))), r.newAmount(st, cur, bigConst(bi(5)))) {
			return false
		}
		r.n++
	}
	// texts
	vals := r.numbers(q)
	for i, f := range []struct{ out, in *ssa.Function }{{str, parse}, {mt, ut}, {str, fs}} {
		r.what = "the text of a pair"
		if !r.each(vals, func() (func() error, bool) {
			st := r.base.clone()
			p := r.newPair(st, "BTC", curName(18), q)
			st, rets, ok := r.call(st, f.out, p)
			if !ok {
				return nil, false
			}
			text := rets[0]
			c := strContent(text)
			if i == 1 {
				c = r.x.content(st, text)
			}
			var g, e *T
			if i == 0 {
				st, rets, ok = r.call(st, f.in, text)
				if !ok {
					return nil, false
				}
				g, e = rets[0], rets[1]
			} else {
				g = r.newPair(st, "EUR", "USD", bigConst(bi(3)))
				st, rets, ok = r.call(st, f.in, g, text)
				if !ok {
					return nil, false
				}
				e = rets[0]
			}
			return func() error {
				v, _ := r.env.tryInt(q)
				s, ok := r.text(c)
				if !ok {
					return fmt.Errorf("unknown text %s", clip(c.String(), 120))
				}
				num, ok := strings.CutSuffix(s, " "+curName(18)+"/BTC")
				if !ok {
					return fmt.Errorf("%s %s for one BTC is written %q", v, curName(18), s)
				}
				if err := exact(num, v, 8); err != nil {
					return err
				}
				if !e.isNil() {
					return fmt.Errorf("%s is not read again", s)
				}
				if err := r.isPair(st, g, "BTC", curName(18), v); err != nil {
					return err
				}
				return r.isPair(st, p, "BTC", curName(18), v)
			}, true
		}) {
			return false
		}
	}
	r.set(nil)
	for _, s := range []string{"", " ", "/", " /", "1", "1 BTC", "1/BTC", "1 BTC/", "1 /BTC", " BTC/ETH", "BTC/ETH", "x BTC/ETH", "1 BTC/nothing", "1 nothing/ETH", "1 BTC ETH", "1/BTC ETH", "1.000000001 BTC/ETH", "1  BTC/ETH", "1 BTC/ETH ", "1 BTC/ETH/", "1 BTC/ETH x", "--1 BTC/ETH"} {
		r.what = fmt.Sprintf("a pair from %q", s)
		r.x.words = newWords()
		s2, rets, ok := r.call(r.base, parse, constStr(s))
		if !ok || !r.want(r.isErr(s2, rets[1]), "there is no error") {
			return false
		}
	}
	return true
}

// ---- arithmetic ----

func (r *moneyRun) arithmetic() bool {
	names := []string{"Add", "Sub", "Neg", "Cmp", "Sign", "Set", "Copy"}
	fs := map[string]*ssa.Function{}
	for _, n := range names {
		if fs[n] = r.f("(*Amount)." + n); fs[n] == nil {
			return false
		}
	}
	a, b := bigSym("a"), bigSym("b")
	var samples []sampleVals
	vs := []*big.Int{bi(0), bi(1), bi(-1), bi(99999999), ten(18), new(big.Int).Neg(ten(25)), new(big.Int).Rand(r.rng, ten(30))}
	for _, x := range vs {
		for _, y := range vs {
			samples = append(samples, sampleVals{a: x, b: y})
		}
	}
	get := func() (*big.Int, *big.Int) {
		x, _ := r.env.tryInt(a)
		y, _ := r.env.tryInt(b)
		return x, y
	}
	cur := curName(18)
	type ops struct {
		name string
		f    func(x, y *big.Int) *big.Int
	}
	bin := []ops{{"Add", func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }}, {"Sub", func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }}, {"Set", func(x, y *big.Int) *big.Int { return y }}}
	for _, o := range bin {
		for _, fresh := range []bool{false, true} {
			for _, then := range []string{"Add", "Sub", "Neg"} {
				r.what = o.name + ", and then " + then
				if fresh {
					r.what += ", to the zero amount"
				}
				if !r.each(samples, func() (func() error, bool) {
					st := r.base.clone()
					p, q := r.newAmount(st, cur, a), r.newAmount(st, cur, b)
					if fresh {
						p = r.x.newAlloc("amount", r.amount)
						r.x.store(st, p, zeroOf(r.amount), r.amount)
					}
					st, rets, ok := r.call(st, fs[o.name], p, q)
					if !ok {
						return nil, false
					}
					if rets[0] != p {
						return nil, r.say("value", "it returns another amount")
					}
					// each of the two changes on its own afterwards
					e := r.newAmount(st, cur, bigConst(ten(20)))
					var s2, s3 *State
					var ok2 bool
					if then == "Neg" {
						s2, _, ok = r.call(st, fs[then], p)
						s3, _, ok2 = r.call(s2, fs[then], q)
					} else {
						s2, _, ok = r.call(st, fs[then], p, e)
						s3, _, ok2 = r.call(s2, fs[then], q, e)
					}
					if !ok || !ok2 {
						return nil, false
					}
					return func() error {
						x, y := get()
						if fresh {
							x = bi(0)
						}
						want, qw := o.f(x, y), y
						if err := r.isAmount(st, p, cur, want, "the result"); err != nil {
							return err
						}
						if err := r.isAmount(st, q, cur, y, "the operand"); err != nil {
							return err
						}
						switch then {
						case "Add":
							want, qw = new(big.Int).Add(want, ten(20)), new(big.Int).Add(y, ten(20))
						case "Sub":
							want, qw = new(big.Int).Sub(want, ten(20)), new(big.Int).Sub(y, ten(20))
						default:
							want, qw = new(big.Int).Neg(want), new(big.Int).Neg(y)
						}
						// an amount of zero in no currency takes the one it meets
						if err := r.isAmount(s2, p, cur, want, "the result, changed again"); err != nil {
							return err
						}
						if err := r.isAmount(s2, q, cur, y, "the operand, with the result changed"); err != nil {
							return err
						}
						if err := r.isAmount(s3, q, cur, qw, "the operand, changed"); err != nil {
							return err
						}
						return r.isAmount(s3, p, cur, want, "the result, with the operand changed")
					}, true
				}) {
					return false
				}
			}
		}
	}
	// an amount and itself
	for _, o := range bin {
		r.what = o.name + " of an amount and itself"
		if !r.each(samples, func() (func() error, bool) {
			st := r.base.clone()
			p := r.newAmount(st, cur, a)
			st, _, ok := r.call(st, fs[o.name], p, p)
			if !ok {
				return nil, false
			}
			return func() error {
				x, _ := get()
				return r.isAmount(st, p, cur, o.f(x, x), "the result")
			}, true
		}) {
			return false
		}
	}
	r.what = "Copy"
	if !r.each(samples, func() (func() error, bool) {
		st := r.base.clone()
		p, e := r.newAmount(st, cur, a), r.newAmount(st, cur, b)
		st, rets, ok := r.call(st, fs["Copy"], p)
		if !ok {
			return nil, false
		}
		q := rets[0]
		if q == p {
			return nil, r.say("value", "it returns the amount itself")
		}
		s2, _, ok := r.call(st, fs["Add"], q, e)
		if !ok {
			return nil, false
		}
		s3, _, ok := r.call(s2, fs["Neg"], p)
		if !ok {
			return nil, false
		}
		s4, _, ok := r.call(s3, fs["Sub"], p, e)
		if !ok {
			return nil, false
		}
		return func() error {
			x, y := get()
			sum := new(big.Int).Add(x, y)
			if err := r.isAmount(st, q, cur, x, "the copy"); err != nil {
				return err
			}
			if err := r.isAmount(s2, p, cur, x, "the original, with the copy changed"); err != nil {
				return err
			}
			if err := r.isAmount(s4, q, cur, sum, "the copy, with the original changed"); err != nil {
				return err
			}
			return r.isAmount(s4, p, cur, new(big.Int).Neg(sum), "the original")
		}, true
	}) {
		return false
	}
	r.what = "comparison"
	if !r.each(samples, func() (func() error, bool) {
		st := r.base.clone()
		p, q := r.newAmount(st, cur, a), r.newAmount(st, cur, b)
		st, cmp, ok := r.call(st, fs["Cmp"], p, q)
		if !ok {
			return nil, false
		}
		st, sg, ok := r.call(st, fs["Sign"], p)
		if !ok {
			return nil, false
		}
		st, _, ok = r.call(st, fs["Neg"], q)
		if !ok {
			return nil, false
		}
		return func() error {
			x, y := get()
			if n, ok := r.env.tryInt(cmp[0]); !ok || n.Int64() != int64(x.Cmp(y)) {
				return fmt.Errorf("%s compares to %s as %s", x, y, n)
			}
			if n, ok := r.env.tryInt(sg[0]); !ok || n.Int64() != int64(x.Sign()) {
				return fmt.Errorf("the sign of %s is %s", x, n)
			}
			if err := r.isAmount(st, p, cur, x, "the left side"); err != nil {
				return err
			}
			return r.isAmount(st, q, cur, new(big.Int).Neg(y), "what is negated")
		}, true
	}) {
		return false
	}
	for _, o := range []string{"Add", "Sub", "Cmp"} {
		r.what = o + " of amounts in different currencies"
		for _, other := range []string{curName(8), "ETH", "TOK"} {
			for _, zero := range []bool{false, true} {
				r.x.words = newWords()
				r.set(sampleVals{a: bi(5), b: bi(7)})
				st := r.base.clone()
				x, y := a, b
				if zero {
					x, y = bigConst(bi(0)), bigConst(bi(0))
				}
				if !r.panics(st, fs[o], r.newAmount(st, cur, x), r.newAmount(st, other, y)) {
					return false
				}
				r.n++
			}
		}
	}
	return true
}

// ---- texts of currencies, scanning ----

func (r *moneyRun) texts() bool {
	mt, ut, pa, ua := r.f("(Currency).MarshalText"), r.f("(*Currency).UnmarshalText"), r.f("ParseAmount"), r.f("(*Amount).UnmarshalText")
	if mt == nil || ut == nil || pa == nil || ua == nil {
		return false
	}
	bs := types.NewSlice(byteT)
	r.set(nil)
	for _, cur := range []string{"ETH", "TOK", curName(0), "nothing", "", "eth", "ETH "} {
		r.what = fmt.Sprintf("the currency %q as a text", cur)
		st := r.base.clone()
		p := r.x.newAlloc("cur", r.cur)
		r.x.store(st, p, constStr("BTC"), r.cur)
		st, rets, ok := r.call(st, ut, p, r.x.newBytes(st, cLit(cur), bs))
		if !ok {
			return false
		}
		if cur != "ETH" && cur != "TOK" && cur != curName(0) {
			if !r.want(r.isErr(st, rets[0]), "there is no error") {
				return false
			}
			continue
		}
		got, err := r.str(r.x.load(st, p, r.cur))
		if err != nil {
			got = err.Error()
		}
		if !r.want(rets[0].isNil() && got == cur, "it becomes %q", got) {
			return false
		}
		if st, rets, ok = r.call(st, mt, constStr(cur)); !ok {
			return false
		}
		b, _ := constBytes(r.x.content(st, rets[0]))
		if !r.want(rets[1].isNil() && string(b) == cur, "it is written %q", b) {
			return false
		}
	}
	bad := []string{"", "1", "ETH", "1 nothing", "x ETH", "1.0000000000000000001 ETH", "1 ETH x", "1 ETH 2", "--1 ETH", "1..2 ETH", "1.2.3 ETH", "1e5 ETH", "0x1 ETH", "1,5 ETH", "1 eth"}
	for _, s := range bad {
		r.what = fmt.Sprintf("the amount %q", s)
		r.x.words = newWords()
		st, rets, ok := r.call(r.base, pa, constStr(s))
		if !ok || !r.want(r.isErr(st, rets[1]), "there is no error") {
			return false
		}
		st = r.base.clone()
		p := r.newAmount(st, "BTC", bigConst(bi(3)))
		st, rets, ok = r.call(st, ua, p, r.x.newBytes(st, cLit(s), bs))
		if !ok || !r.want(r.isErr(st, rets[0]), "there is no error") {
			return false
		}
	}
	return true
}
