F='signature.go'
def b(n,*e): return (n,'bug',['C14'],list(e))
def s(n,*e): return (n,'same',['C14'],list(e))
MUTS=[
b('unfix_curve',(F,'''	if !curve.IsOnCurve(&r, &ry) {
		return nil, errors.New("invalid signature")
	}
''','')),
b('unfix_inf',(F,'''	if qx.Sign() == 0 && qy.Sign() == 0 {
		return nil, errors.New("invalid signature")
	}
''','')),
b('unfix_v',(F,'s.Cmp(halforder) <= 0 && v <= 1','s.Cmp(halforder) <= 0')),
b('r_le',(F,'ok = r.Cmp(order) < 0','ok = r.Cmp(order) <= 0')),
b('s_lt',(F,'s.Cmp(halforder) <= 0 &&','s.Cmp(halforder) < 0 &&')),
b('s_order',(F,'s.Cmp(halforder) <= 0 &&','s.Cmp(order) < 0 &&')),
b('r_zero',(F,'	if r.Sign() == 0 {\n		return\n	}\n	s.SetBytes','	s.SetBytes')),
b('s_zero',(F,'	s.SetBytes(z[32:64])\n	if s.Sign() == 0 {\n		return\n	}\n','	s.SetBytes(z[32:64])\n')),
b('new_ge',(F,'	if s.Cmp(halforder) > 0 {\n		v ^= 1\n		s = new','	if s.Cmp(halforder) >= 0 {\n		v ^= 1\n		s = new')),
b('new_v',(F,'		v ^= 1\n		s = new(big.Int)','		s = new(big.Int)')),
b('new_mut',(F,'		s = new(big.Int).Sub(order, s)','		s.Sub(order, s)')),
b('new_pad',(F,'	copypad(sig[32:64], s.Bytes())\n	sig[64]','	copy(sig[32:64], s.Bytes())\n	sig[64]')),
b('pk_pad',(F,'	copypad(pk[:], d.Bytes())','	copy(pk[:], d.Bytes())')),
b('pub_pad',(F,'	copypad(pk[32:64], y.Bytes())','	copy(pk[32:64], y.Bytes())')),
b('sign_v',(F,'		v := int(ry.Bit(0))','		v := int(ry.Bit(1))')),
s('sign_k0',(F,'		if ki.Sign() == 0 || ki.Cmp(order) >= 0 {','		if ki.Cmp(order) >= 0 {')),
s('sign_kn',(F,'		if ki.Sign() == 0 || ki.Cmp(order) >= 0 {','		if ki.Sign() == 0 || ki.Cmp(order) > 0 {')),
b('sign_nored',(F,'		if ki.Sign() == 0 || ki.Cmp(order) >= 0 {','		if ki.Sign() == 0 {')),
b('sign_s0',(F,'		if s.Sign() == 0 {\n			continue\n		}\n','')),
b('sign_flip',(F,'			v ^= 1\n			s.Sub(order, &s)','			s.Sub(order, &s)')),
b('sign_eq',(F,'		s.Mul(&d, r)\n		s.Add(&s, &e)\n','		s.Mul(&d, r)\n		s.Mod(&s, order)\n		s.Sub(&s, &e)\n')),
b('nonce_key',(F,'	md.Write(k[:])\n	md.Write(salt','	md.Write(salt')),
b('nonce_hash',(F,'	md.Write(hash[:])\n','')),
b('nonce_part',(F,'	md.Write(hash[:])\n','	md.Write(hash[:16])\n')),
b('rec_e',(F,'	e.Neg(&e)\n','')),
b('rec_v',(F,'	if y.Bit(0) != uint(v)&1 {','	if y.Bit(0) == uint(v)&1 {')),
b('rec_sign',(F,'y.Bit(0) != uint(v)&1 {','y.Bit(0) != uint(v) {')) if False else
b('addr',(F,'	copy(addr[:], sum[12:])','	copy(addr[:], sum[:20])')),
b('addr_half',(F,'keccak.Sum256(k[:])','keccak.Sum256(k[:63])')),
b('rec_hash',(F,'	e.SetBytes(hash[:])\n	e.Neg','	e.SetBytes(hash[:31])\n	e.Neg')),
b('rec_bytes',(F,'curve.ScalarMult(&r, &ry, si.Bytes())','curve.ScalarMult(&r, &ry, s.Bytes())')),
b('parts_swap',(F,'	r, s, v, _ = z.parts()','	s, r, v, _ = z.parts()')),
b('valid',(F,'	_, _, _, ok := z.parts()\n	return ok','	r, s, _, _ := z.parts()\n	return r.Sign() > 0 && s.Sign() > 0')),
s('s_fill',(F,'	copypad(sig[0:32], r.Bytes())\n	copypad(sig[32:64], s.Bytes())\n','	r.FillBytes(sig[0:32])\n	s.FillBytes(sig[32:64])\n')),
s('s_parts',(F,'''	v = int(z[64])
	r.SetBytes(z[:32])
	if r.Sign() == 0 {
		return
	}
	s.SetBytes(z[32:64])
	if s.Sign() == 0 {
		return
	}
	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0 && v <= 1
	return''','''	r.SetBytes(z[:32])
	s.SetBytes(z[32:64])
	v = int(z[64])
	if r.Sign() == 0 || s.Sign() == 0 || v > 1 {
		return
	}
	if r.Cmp(order) >= 0 {
		return
	}
	ok = s.Cmp(halforder) != 1
	return''')),
s('s_eq',(F,'''		s.Mul(&d, r)
		s.Add(&s, &e)
		s.Mul(&s, &ki)
		s.Mod(&s, order)
''','''		t := new(big.Int).Mul(r, &d)
		t.Mod(t, order)
		t.Add(&e, t)
		s.Mod(t.Mul(&ki, t), order)
''')),
s('s_exp',(F,'		ki.ModInverse(&ki, order)\n','		ki.Exp(&ki, new(big.Int).Sub(order, big.NewInt(2)), order)\n')),
s('s_rec',(F,'''	e.Neg(&e)
	e.Mod(&e, order)
	e.Mul(&e, &ri)
	e.Mod(&e, order)
''','''	e.Mul(&e, &ri)
	e.Mod(&e, order)
	if e.Sign() != 0 {
		e.Sub(order, &e)
	}
''')),
s('s_sqrt',(F,'	if y.Bit(0) != uint(v)&1 {\n		// negate if the signedness is wrong\n		y.Sub(params.P, y)\n	}','	if odd := v&1 == 1; odd != (y.Bit(0) == 1) {\n		y.Neg(y)\n		y.Mod(y, params.P)\n	}')),
s('s_helper',(F,'''		if s.Cmp(halforder) > 0 {
			v ^= 1
			s.Sub(order, &s)
		}
		if s.Sign() == 0 {
			continue
		}
''','''		if s.Sign() == 0 {
			continue
		}
		if high(&s) {
			s.Sub(order, &s)
			v = 1 - v
		}
'''),(F,'// Sign a hash','func high(s *big.Int) bool { return s.Cmp(halforder) == 1 }\n\n// Sign a hash')),
s('s_addr',(F,'	copy(addr[:], sum[12:])\n','	for i := range addr {\n		addr[i] = sum[i+12]\n	}\n')),
s('s_stream',(F,'		stream.XORKeyStream(kb[:], kb[:])\n		ki.SetBytes(kb[:])','		stream.XORKeyStream(kb[:], kb[:])\n		raw := kb\n		ki.SetBytes(raw[:])')),
s('s_sum',(F,'	md.Sum(kb[:0])\n','	copy(kb[:], md.Sum(nil))\n')),
]
