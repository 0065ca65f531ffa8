F='ec/field.go'; B='ec/btcec.go'
def b(n,*e): return (n,'bug',['C17'],list(e))
def s(n,*e): return (n,'same',['C17'],list(e))
MUTS=[
b('mul carry',(F,'	m = (m >> fieldBase) + t9 + t18*1024 + t19*68719492368\n	t9 = m & fieldMSBMask\n	m = m >> fieldMSBBits\n\n	// At this point, if the magnitude is greater than 0, the overall value\n	// is greater than the max possible 256-bit value.  In particular, it is\n	// "how many times larger" than the max value it is.\n','	m = (m >> fieldBase) + t9 + t18*1024 + t19*68719492368\n	t9 = m & fieldMSBMask\n	m = m >> fieldMSBBits & 0xffffffff\n\n	// At this point, if the magnitude is greater than 0, the overall value\n	// is greater than the max possible 256-bit value.  In particular, it is\n	// "how many times larger" than the max value it is.\n')) ,
b('isone',(B,'	case isZ1One && isZ2One:','	case isZ1One || isZ2One:')),
b('double z',(B,'	z3.Mul2(y1, z1).MulInt(2)','	z3.Mul2(y1, z1).MulInt(3)')),
b('mag',(B,'	negX3.Set(x3).Negate(5)                // negX3 = -X3 (mag: 6)\n	y3.Mul2(','	negX3.Set(x3).Negate(4)                // negX3 = -X3 (mag: 6)\n	y3.Mul2(')),
b('no normalise u2',(B,'	u2.Set(x2).Mul(&z1z1).Normalize()         // U2 = X2*Z1Z1 (mag: 1)\n	s1','	u2.Set(x2).Mul(&z1z1)\n	s1')),
b('no normalise x2',(B,'''	x1.Normalize()
	y1.Normalize()
	x2.Normalize()
	y2.Normalize()
	if x1.Equals(x2) {
		if y1.Equals(y2) {
			// Since x1 == x2 and y1 == y2, point doubling must be
			// done, otherwise the addition would end up dividing
			// by zero.
			curve.doubleJacobian(x1, y1, z1, x3, y3, z3)
			return
		}

		// Since x1 == x2 and y1 == -y2, the sum is the point at
		// infinity per the group law.
		x3.SetInt(0)
		y3.SetInt(0)
		z3.SetInt(0)
		return
	}

	// Calculate X3, Y3, and Z3 according to the intermediate elements
	// breakdown above.
	var a, b, c''','''	x1.Normalize()
	y1.Normalize()
	x2.Normalize()
	if x1.Equals(x2) {
		if y1.Equals(y2) {
			// Since x1 == x2 and y1 == y2, point doubling must be
			// done, otherwise the addition would end up dividing
			// by zero.
			curve.doubleJacobian(x1, y1, z1, x3, y3, z3)
			return
		}

		// Since x1 == x2 and y1 == -y2, the sum is the point at
		// infinity per the group law.
		x3.SetInt(0)
		y3.SetInt(0)
		z3.SetInt(0)
		return
	}

	// Calculate X3, Y3, and Z3 according to the intermediate elements
	// breakdown above.
	var a, b, c''')),
b('infinity z',(B,'''		x3.SetInt(0)
		y3.SetInt(0)
		z3.SetInt(0)
		return
	}

	// Calculate X3, Y3, and Z3 according to the intermediate elements
	// breakdown above.
	var h, i, j, r, v fieldVal
	var negJ''','''		x3.SetInt(0)
		y3.SetInt(0)
		z3.SetInt(1)
		return
	}

	// Calculate X3, Y3, and Z3 according to the intermediate elements
	// breakdown above.
	var h, i, j, r, v fieldVal
	var negJ''')),
b('norm last',(F,'if ((t0+977)>>fieldBase + t1 + 64) > fieldBaseMask','if ((t0+976)>>fieldBase + t1 + 64) > fieldBaseMask')),
b('norm t5',(F,'if t2&t3&t4&t5&t6&t7&t8 == fieldBaseMask','if t2&t3&t4&t6&t7&t8 == fieldBaseMask')),
b('norm carry',(F,'	if t9>>fieldMSBBits != 0 {\n		m |= 1','	if t9>>(fieldMSBBits+1) != 0 {\n		m |= 1')),
b('negate word',(F,'	f.n[7] = (magnitude+1)*fieldBaseMask - val.n[7]','	f.n[7] = magnitude*fieldBaseMask - val.n[7]')),
b('negate prime',(F,'fieldPrimeWordOne = 0x3ffffbf','fieldPrimeWordOne = 0x3ffffc0')),
b('putbytes',(F,'(f.n[8]>>24)&twoBitsMask | (f.n[9]&sixBitsMask)<<2','(f.n[8]>>24)&twoBitsMask | (f.n[9]&fourBitsMask)<<2')),
b('setslice',(F,'	for i := 0; i < len(b); i++ {\n		if i < 32 {\n			b32[i+(32-len(b))] = b[i]','	for i := 0; i < len(b); i++ {\n		if i < 31 {\n			b32[i+(32-len(b))] = b[i]')),
b('inverse',(F,'	f.Mul(&a1019)                                  // f = a^(2^226 - 5)','	f.Mul(&a1023)                                  // f = a^(2^226 - 5)')),
b('addint carry',(F,'func (f *fieldVal) AddInt(ui uint) *fieldVal {','func (f *fieldVal) AddInt(ui uint) *fieldVal {\n	ui &= 0xffff')),
b('equals',(F,'(f.n[6] ^ val.n[6]) | (f.n[7] ^ val.n[7]) | (f.n[8] ^ val.n[8]) |','(f.n[6] ^ val.n[6]) | (f.n[7] ^ val.n[8]) | (f.n[8] ^ val.n[8]) |')),
b('iszero',(F,'	bits := f.n[0] | f.n[1] | f.n[2] | f.n[3] | f.n[4] |\n		f.n[5] | f.n[6] | f.n[7] | f.n[8] | f.n[9]\n','	bits := f.n[0] | f.n[1] | f.n[2] | f.n[3] | f.n[4] |\n		f.n[5] | f.n[6] | f.n[7] | f.n[8]\n')),
b('sign k2',(B,'	if signK2 == -1 {','	if signK2 == -1 && signK1 != 0 && len(k2) > 15 {')),
b('reduce',(B,'	if len(k) > curve.byteSize {','	if len(k) > curve.byteSize+1 {\n		k = k[1:]\n	}\n	if len(k) > curve.byteSize {')),
b('naf top',(B,'	if carry {\n		retPos[0] = 1','	if carry && len(k) > 16 {\n		retPos[0] = 1')),
b('add inf',(B,'''	if x2.Sign() == 0 && y2.Sign() == 0 {
		return x1, y1
	}

	// Convert the affine coordinates from big integers to field values
	// and do the point addition in Jacobian projective space.
	fx1''','''	if x2.Sign() == 0 {
		return x1, y2
	}

	// Convert the affine coordinates from big integers to field values
	// and do the point addition in Jacobian projective space.
	fx1''')),
b('on curve',(B,'	y2 := new(fieldVal).SquareVal(fy).Normalize()\n','	y2 := new(fieldVal).SquareVal(fy)\n')),
b('base diff',(B,'	diff := len(curve.bytePoints) - len(newK)','	diff := len(curve.bytePoints) - len(k)')),
b('base skip',(B,'	for i, byteVal := range newK {\n','	for i, byteVal := range newK {\n		if byteVal == 255 && i == 0 {\n			continue\n		}\n')),
b('order',(B,'EBAAEDCE6AF48A03BBFD25E8CD0364141','EBAAEDCE6AF48A03BBFD25E8CD0364142')),
b('quarter',(B,'		big.NewInt(1)), big.NewInt(4))','		big.NewInt(5)), big.NewInt(4))')),
b('a2',(B,'114CA50F7A8E2F3F657C1108D9D44CFD8','114CA50F7A8E2F3F657C1108D9D44CFD9')),
b('mod fast',(B,'		tmpK.Mod(tmpK, curve.N)\n','		tmpK.Mod(tmpK, curve.P)\n')),
b('mulint',(F,'	ui := uint32(val)\n	f.n[0] *= ui','	ui := uint32(val)\n	if ui == 8 {\n		ui = 4\n	}\n	f.n[0] *= ui')),
b('alias mul',(F,'	d := t0 + m*977\n	f.n[0] = uint32(d & fieldBaseMask)\n	d = (d >> fieldBase) + t1 + m*64\n	f.n[1] = uint32(d & fieldBaseMask)\n	f.n[2] = uint32((d >> fieldBase) + t2)\n	f.n[3] = uint32(t3)\n	f.n[4] = uint32(t4)\n	f.n[5] = uint32(t5)\n	f.n[6] = uint32(t6)\n	f.n[7] = uint32(t7)\n	f.n[8] = uint32(t8)\n	f.n[9] = uint32(t9)\n\n	return f\n}\n\n// Square ','	d := t0 + m*977\n	f.n[0] = uint32(d & fieldBaseMask)\n	d = (d >> fieldBase) + t1 + m*64\n	f.n[1] = uint32(d & fieldBaseMask)\n	f.n[2] = uint32((d>>fieldBase)&1 + t2)\n	f.n[3] = uint32(t3)\n	f.n[4] = uint32(t4)\n	f.n[5] = uint32(t5)\n	f.n[6] = uint32(t6)\n	f.n[7] = uint32(t7)\n	f.n[8] = uint32(t8)\n	f.n[9] = uint32(t9)\n\n	return f\n}\n\n// Square ')),
s('add loop',(F,'''	f.n[0] += val.n[0]
	f.n[1] += val.n[1]
	f.n[2] += val.n[2]
	f.n[3] += val.n[3]
	f.n[4] += val.n[4]
	f.n[5] += val.n[5]
	f.n[6] += val.n[6]
	f.n[7] += val.n[7]
	f.n[8] += val.n[8]
	f.n[9] += val.n[9]
''','''	for i := range f.n {
		f.n[i] += val.n[i]
	}
''')),
s('mul via mul2',(F,'	return f.Mul2(f, val)','	return f.Mul2(val, f)')),
s('square mul',(F,'	return f.SquareVal(f)','	return f.Mul2(f, f)')),
s('norm order',(B,'''	x1.Normalize()
	y1.Normalize()
	z1z1.SquareVal(z1)                        // Z1Z1 = Z1^2 (mag: 1)
''','''	z1z1.SquareVal(z1)                        // Z1Z1 = Z1^2 (mag: 1)
	y1.Normalize()
	x1.Normalize()
''')),
s('zero struct',(F,'''	f.n[0] = 0
	f.n[1] = 0
	f.n[2] = 0
	f.n[3] = 0
	f.n[4] = 0
	f.n[5] = 0
	f.n[6] = 0
	f.n[7] = 0
	f.n[8] = 0
	f.n[9] = 0
''','''	*f = fieldVal{}
''')),
s('infinity helper',(B,'''		x3.SetInt(0)
		y3.SetInt(0)
		z3.SetInt(0)
		return
	}

	// Calculate X3, Y3, and Z3 according to the intermediate elements
	// breakdown above.
	var h, i, j, r, v fieldVal
	var negJ''','''		setInfinity(x3, y3, z3)
		return
	}

	// Calculate X3, Y3, and Z3 according to the intermediate elements
	// breakdown above.
	var h, i, j, r, v fieldVal
	var negJ'''),(B,'// Params returns','func setInfinity(c ...*fieldVal) {\n	for _, v := range c {\n		v.Zero()\n	}\n}\n\n// Params returns')),
]
