F='cc/currency.go'
def b(n,*e): return (n,'bug',['C31'],list(e))
def s(n,*e): return (n,'same',['C31'],list(e))
MUTS=[
b('unfix_round',(F,'		num.Lsh(num, 1)\n		num.Add(num, denom)\n		num.Div(num, new(big.Int).Lsh(denom, 1))\n','		num.Div(num, denom)\n')),
b('unfix_frac',(F,'		if !isdigit(rune(fp[0])) {\n			return nil, errors.New("cc: invalid character in fractional part: " + s)\n		}\n','')),
b('unfix_int',(F,'		if !isdigit(rune(ip[0])) {\n			return nil, errors.New("cc: invalid character in integer part: " + s)\n		}\n','')),
b('base0',(F,'frac.SetString(fp, 10)','frac.SetString(fp, 0)')),
b('base0i',(F,'num.SetString(ip, 10)','num.SetString(ip, 0)')),
b('digits_le',(F,'		if len(fp) > digits {','		if len(fp) > digits+1 {')),
b('digits_8',(F,'		if len(fp) > digits {','		if len(fp) > digits || len(fp) > 18 {')),
b('digits_ge',(F,'		if len(fp) > digits {','		if len(fp) >= digits {')),
b('neg_lost',(F,'	if neg {\n		num.Neg(num)\n	}\n	return num, nil','	if neg && ip != "" {\n		num.Neg(num)\n	}\n	return num, nil')),
b('neg_zero_int',(F,'		exp10(num, digits)\n	}\n	if fp','		exp10(num, digits)\n		if neg {\n			num.Neg(num)\n			neg = false\n		}\n	}\n	if fp')),
b('no_reset',(F,'	num.SetInt64(0)\n	if ip','	if ip')),
b('wide_lt',(F,'	if len(s) < digits+1 {\n		s = strings.Repeat("0", digits+1-len(s)) + s','	if len(s) < digits {\n		s = strings.Repeat("0", digits-len(s)) + s')),
b('wide_zero',(F,'	if digits == 0 {\n		return s\n	}\n','')),
b('wide_neg',(F,'		return "-" + widestring(nb.Neg(b), digits)','		return "-" + widestring(nb.Neg(b), RateDigits)')),
b('wide_inplace',(F,'		var nb big.Int\n		return "-" + widestring(nb.Neg(b), digits)','		return "-" + widestring(b.Neg(b), digits)')),
b('wide_u64',(F,'	s := b.String()\n','	s := fmt.Sprint(b.Int64())\n')),
b('conv_sign',(F,'to.Digits()-a.Digits()-RateDigits)','a.Digits()-to.Digits()-RateDigits)')),
b('conv_alias',(F,'	var n big.Int\n	n.Set(&a.Amount)\n','	n := a.Amount\n')),
b('conv_cur',(F,'	return &Amount{to, n}','	return &Amount{a.Currency, n}')),
b('conv_steps',(F,'	pow10(&n, to.Digits()-a.Digits()-RateDigits)','	pow10(&n, -RateDigits)\n	pow10(&n, to.Digits()-a.Digits())')),
b('conv_zero',(F,'	} else if n < 0 {\n		div10(b, -n)','	} else if n < -1 {\n		div10(b, -n)')),
b('div_ceil',(F,'	ten.Exp(&ten, &e, nil)\n	b.Div(b, &ten)','	ten.Exp(&ten, &e, nil)\n	b.Add(b, big.NewInt(1))\n	b.Div(b, &ten)')),
b('inv_zero',(F,'	if r.Sign() == 0 {\n		return r\n	}\n	n := big','	n := big')),
b('inv_digits',(F,'	pow10(n, 2*RateDigits)','	pow10(n, RateDigits)')),
b('inv_inplace',(F,'	n.Div(n, (*big.Int)(r))\n	return (*Rate)(n)','	(*big.Int)(r).Div(n, (*big.Int)(r))\n	return r')),
b('pinv_same',(F,'		From: p.To,\n		To:   p.From,','		From: p.From,\n		To:   p.To,')),
b('pconv_dir',(F,'		return Convert(a, p.From, p.Rate.Inverse())','		return Convert(a, p.From, &p.Rate)')),
b('pconv_any',(F,'	if a.Currency == p.To {\n','	if a.Currency != p.From {\n')),
b('set_alias',(F,'	a.Amount.Set(&x.Amount)\n','	a.Amount = x.Amount\n')),
b('set_alias2',(F,'	a.Currency = x.Currency\n	a.Amount.Set(&x.Amount)\n','	*a = *x\n')),
b('copy_self',(F,'	return new(Amount).Set(a)','	return a')),
b('copy_shallow',(F,'	return new(Amount).Set(a)','	c := *a\n	return &c')),
b('add_noassert',(F,'	a.assert(x.Currency)\n	a.Amount.Add(&a','	a.Amount.Add(&a')),
b('sub_noassert',(F,'	a.assert(x.Currency)\n	a.Amount.Sub(&a','	a.Amount.Sub(&a')),
b('cmp_noassert',(F,'	a.assert(x.Currency)\n	return a.Amount.Cmp','	return a.Amount.Cmp')),
b('zero_any',(F,'	return a.Currency.Nil() && a.Amount.Sign() == 0','	return a.Currency.Nil() || a.Amount.Sign() == 0')),
b('sub_zero',(F,'		return a.Set(x).Neg()','		return a.Set(x)')),
b('sub_neg_x',(F,'		return a.Set(x).Neg()','		return a.Set(x.Neg())')),
b('sub_self',(F,'	a.Amount.Sub(&a.Amount, &x.Amount)\n','	a.Amount.Add(&a.Amount, &x.Neg().Amount)\n	x.Neg()\n')),
b('json_prec',(F,'	return []byte(r.String()), nil','	return []byte(fmt.Sprint(r.Float())), nil')),
b('json_null',(F,'	if string(b) == "null" {\n		return nil\n	}\n','	if string(b) == "null" {\n		*r = Rate{}\n		return nil\n	}\n')),
b('float_one',(F,'	rat.SetFrac((*big.Int)(r), (*big.Int)(One))','	rat.SetFrac((*big.Int)(r), big.NewInt(10000000))')),
b('reg_conflict',(F,'		if *p != *c {','		if p.addr != c.addr {')),
b('reg_conflict2',(F,'		if *p != *c {','		if p.digits != c.digits {')),
b('reg_token',(F,'		if _, ok := tokens[c.addr]; ok {','		if p, ok := tokens[c.addr]; ok && p == Currency(c.name) {')),
b('reg_zero',(F,'	if !c.addr.Zero() {\n		if _','	{\n		if _')),
b('token_dig',(F,'	return registerCurrency(&currency{\n		name:   name,\n		digits: digits,\n		addr:   mustaddr(addr),','	return registerCurrency(&currency{\n		name:   name,\n		digits: digits &^ 1,\n		addr:   mustaddr(addr),')),
b('pair_rev',(F,'	if err := p.To.UnmarshalText(to); err != nil {\n		return err\n	}\n	return p.From.UnmarshalText(from)','	if err := p.From.UnmarshalText(to); err != nil {\n		return err\n	}\n	return p.To.UnmarshalText(from)')),
b('pair_order',(F,'	if i1 == -1 || i2 == -1 || i2 < i1 {','	if i1 == -1 || i2 == -1 {')),
b('pair_lookup',(F,'	if err := p.To.UnmarshalText(to); err != nil {\n		return err\n	}\n','	p.To = Currency(to)\n')),
b('cur_unmarshal',(F,'	c2, ok := CurrencyByName(string(b))','	c2, ok := CurrencyByName(strings.ToUpper(string(b)))')),
b('scan_plus',(F,'	return isdigit(r) || r == \'.\' || r == \'-\' || r == \'+\'','	return isdigit(r) || r == \'.\'')),
b('amt_digits',(F,'	if _, err := parseDigits(&a.Amount, s, c.Digits()); err != nil {','	if _, err := parseDigits(&a.Amount, s, 18); err != nil {')),
b('amt_cur',(F,'	a.Currency = c\n	return nil','	return nil')),
s('scan_noplus',(F,' || r == \'-\' || r == \'+\'',' || r == \'-\'')),
s('splitn',(F,'''	if i := strings.IndexByte(s, '.'); i != -1 {
		ip, fp = s[:i], s[i+1:]
	}
''','''	if l := strings.SplitN(s, ".", 2); len(l) == 2 {
		ip, fp = l[0], l[1]
	}
''')),
s('hasprefix',(F,'''	if ip != "" && ip[0] == '-' {
		neg, ip = true, ip[1:]
	}
''','''	if strings.HasPrefix(ip, "-") {
		neg, ip = true, strings.TrimPrefix(ip, "-")
	}
''')),
s('joined',(F,'''	num.SetInt64(0)
	if ip != "" {
		if !isdigit(rune(ip[0])) {
			return nil, errors.New("cc: invalid character in integer part: " + s)
		}
		if _, ok := num.SetString(ip, 10); !ok {
			return nil, errors.New("cc: error parsing integer part: " + s)
		}
		exp10(num, digits)
	}
	if fp != "" {
		if !isdigit(rune(fp[0])) {
			return nil, errors.New("cc: invalid character in fractional part: " + s)
		}
		var frac big.Int
		if _, ok := frac.SetString(fp, 10); !ok {
			return nil, errors.New("cc: error parsing fractional part: " + s)
		}
		if len(fp) > digits {
			return nil, fmt.Errorf("cc: exceeds %d digits of precision: %s", digits, s)
		}
		exp10(&frac, digits-len(fp))
		num.Add(num, &frac)
	}
''','''	all := ip + fp
	for i := 0; i < len(all); i++ {
		if !isdigit(rune(all[i])) {
			return nil, errors.New("cc: invalid character: " + s)
		}
	}
	if len(fp) > digits {
		return nil, fmt.Errorf("cc: exceeds %d digits of precision: %s", digits, s)
	}
	if _, ok := num.SetString(all+strings.Repeat("0", digits-len(fp)), 10); !ok {
		return nil, errors.New("cc: cannot parse " + s)
	}
''')),
s('wide_divmod',(F,'''	s := b.String()
	if digits == 0 {
		return s
	}
	if len(s) < digits+1 {
		s = strings.Repeat("0", digits+1-len(s)) + s
	}
	split := len(s) - digits
	return s[:split] + "." + s[split:]
''','''	if digits == 0 {
		return b.String()
	}
	one := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil)
	q, m := new(big.Int).DivMod(b, one, new(big.Int))
	f := m.String()
	for len(f) < digits {
		f = "0" + f
	}
	return q.String() + "." + f
''')),
s('conv_mul',(F,'''	n.Set(&a.Amount)
	n.Mul(&n, (*big.Int)(r)) ''','''	n.Mul(&a.Amount, (*big.Int)(r)) ''')),
s('conv_frac',(F,'''	var n big.Int
	n.Set(&a.Amount)
	n.Mul(&n, (*big.Int)(r))                     // now n has RateDigits too many zeros
	pow10(&n, to.Digits()-a.Digits()-RateDigits) // correct the number of zeros
	return &Amount{to, n}
''','''	n := new(big.Int).Mul(&a.Amount, (*big.Int)(r))
	exp10(n, to.Digits())
	div10(n, a.Digits()+RateDigits)
	out := &Amount{Currency: to}
	out.Amount.Set(n)
	return out
''')),
s('quo',(F,'	ten.Exp(&ten, &e, nil)\n	b.Div(b, &ten)','	ten.Exp(&ten, &e, nil)\n	b.Quo(b, &ten)')),
s('copy_explicit',(F,'	return new(Amount).Set(a)','	c := &Amount{Currency: a.Currency}\n	c.Amount.Set(&a.Amount)\n	return c')),
s('float_div',(F,'	rat.SetFrac((*big.Int)(r), (*big.Int)(One))','	rat.SetFrac((*big.Int)(r), big.NewInt(100000000))')),
s('mapval',(F,'''	if p, ok := currencies[c.name]; ok {
		if *p != *c {''','''	if p := currencies[c.name]; p != nil {
		if p.digits != c.digits || p.addr != c.addr {''')),
s('loop_pow',(F,'''	var ten big.Int
	var e big.Int
	e.SetInt64(int64(n))
	ten.SetInt64(10)
	ten.Exp(&ten, &e, nil)
	b.Mul(b, &ten)
''','''	ten := big.NewInt(10)
	for i := 0; i < n; i++ {
		b.Mul(b, ten)
	}
''')),
s('bytes_cut',(F,'''	i1 := bytes.IndexByte(b, ' ')
	i2 := bytes.IndexByte(b, '/')
	if i1 == -1 || i2 == -1 || i2 < i1 {
		return fmt.Errorf("pair: malformed string: %q", b)
	}
	rate, to, from := b[:i1], b[i1+1:i2], b[i2+1:]
''','''	rate, rest, ok1 := bytes.Cut(b, []byte(" "))
	to, from, ok2 := bytes.Cut(rest, []byte("/"))
	if !ok1 || !ok2 {
		return fmt.Errorf("pair: malformed string: %q", b)
	}
''')),
s('sprintf',(F,'	return rate + " " + to + "/" + from','	return fmt.Sprintf("%s %s/%s", rate, to, from)')),
s('json_unq',(F,'''	if len(b) > 1 && b[0] == '"' && b[len(b)-1] == '"' {
		b = b[1 : len(b)-1]
	}
	n, err := ParseRate(string(b))''','''	s := strings.TrimSuffix(strings.TrimPrefix(string(b), "\\""), "\\"")
	n, err := ParseRate(s)''')),
]
