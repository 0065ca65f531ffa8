S='send.go'
MUTS=[
('addr align','bug',['C09'],[(S,'copy(word[12:], a[:])','copy(word[:], a[:])')]),
('neg','bug',['C09'],[(S,'if x.Sign() < 0 || x.BitLen() != 256 {','if x.Sign() < 0 {')]),
('overflow','bug',['C09'],[(S,'	if len(bits) > 32 {\n','	if len(bits) > 33 {\n')]),
('data right','bug',['C09'],[(S,'''	var w [32]byte
	copy(w[:], *d)''','''	var w [32]byte
	copy(w[32-len(*d):], *d)''')]),
('data len','bug',['C09'],[(S,'if len(*d) > 32 {','if len(*d) > 33 {')]),
('padright 32','bug',['C09'],[(S,'(len(b)+31)&-32','(len(b)+32)&-32')]),
('padright none','bug',['C09'],[(S,'(len(b)+31)&-32','len(b)')]),
('dynoff','bug',['C09'],[(S,'padint(dynoff+len(dyn), buf)','padint(dynoff, buf)')]),
('dynoff args','bug',['C09'],[(S,'dynoff := len(args) * 32','dynoff := len(args)*32 + 4')]),
('len pad','bug',['C09'],[(S,'padint(es.Len(), dyn)','padint(es.Len()+len(dyn)/64, dyn)')]),
('selector','bug',['C09'],[(S,'copy(buf[:4], fhash[:4])','copy(buf[:4], fhash[28:])')]),
('bytes len','bug',['C09'],[(S,'func (b *Bytes) Len() int  { return len(*b) }','func (b *Bytes) Len() int  { return (len(*b) + 31) / 32 }')]),
('slice first','bug',['C09'],[(S,'''		v = (*a)[j].EncodeABI(v)''','''		v = (*a)[j/2].EncodeABI(v)''')]),
('dyn order','bug',['C09'],[(S,'''			dyn = a.EncodeABI(dyn)
''','''			dyn = append(a.EncodeABI(nil), dyn...)
''')]),
('prealloc bytes','same',['C09','C11'],[(S,'''	buf := make([]byte, 4, 4+len(args)*32)
	fhash := HashString(fn)
	copy(buf[:4], fhash[:4])
''','''	fhash := HashString(fn)
	buf := append([]byte(nil), fhash[:4]...)
''')]),
('two pass','same',['C09','C11'],[(S,'''	var dyn []byte
	dynoff := len(args) * 32
	for _, a := range args {
		if es, ok := a.(EtherSlice); ok {
			buf = padint(dynoff+len(dyn), buf)
			dyn = padint(es.Len(), dyn)
			dyn = a.EncodeABI(dyn)
			continue
		}
		buf = a.EncodeABI(buf)
	}
	return append(buf, dyn...)''','''	tails := make([][]byte, len(args))
	off := len(args) * 32
	for i := 0; i < len(args); i++ {
		switch a := args[i].(type) {
		case EtherSlice:
			tails[i] = a.EncodeABI(padint(a.Len(), nil))
			buf = padint(off, buf)
			off += len(tails[i])
		default:
			buf = a.EncodeABI(buf)
		}
	}
	for _, t := range tails {
		buf = append(buf, t...)
	}
	return buf''')]),
('fillbytes','same',['C09'],[(S,'''	bits := x.Bytes()
	if len(bits) > 32 {
		panic("ABI encoding: integer overflow")
	}
	copy(w[32-len(bits):], bits)
''','''	if x.BitLen() > 256 {
		panic("ABI encoding: integer overflow")
	}
	x.FillBytes(w[:])
''')]),
('typecheck addr','bug',['C11'],[(S,'''			if _, ok := args[i].(*Address); !ok {''','''			if _, ok := args[0].(*Address); !ok {''')]),
('typecheck count','bug',['C11'],[(S,'if len(argstrings) != len(args) {','if len(argstrings) > len(args) {')]),
('typecheck int','bug',['C11'],[(S,'case "uint", "uint256", "int", "int256":','case "uint", "uint256", "int256":')]),
('typecheck slice','bug',['C11'],[(S,'''				if _, ok := args[i].(EtherSlice); !ok {
					panic("argument not a slice")
				}
''','''				_ = 0
''')]),
('typecheck rparen','bug',['C11'],[(S,'if rparen != len(f)-1 {','if rparen == -1 {')]),
('typecheck illegal','bug',['C11'],[(S,'const illegal = " \\t\\n','const illegal = "\\t\\n')]),
('typecheck bytes32','bug',['C11'],[(S,'if _, ok = args[i].(*Int); !ok {','if _, ok = args[i].(*Int); !ok && i > 0 {')]),
('tc switch','same',['C11','C09'],[(S,'''			if _, ok := args[i].(*Data); !ok {
				if _, ok = args[i].(*Int); !ok {
					panic(argstrings[i] + "argument not an Int or Data")
				}
			}
''','''			switch args[i].(type) {
			case *Data, *Int:
			default:
				panic(argstrings[i] + "argument not an Int or Data")
			}
''')]),
('dec addr','bug',['C10'],[(S,'copy(v[:], buf[12:])','copy(v[:], buf[:20])')]),
('dec bound','bug',['C10'],[(S,'word.Int64() > int64(len(cur))-32 {','word.Int64() > int64(len(cur)) {')]),
('dec int64','bug',['C10'],[(S,'if !word.IsInt64() || word','if word')]),
('dec size','bug',['C10'],[(S,'n.Int64() > (int64(len(cur))-dpos)/size {','n.Int64() > int64(len(cur))-dpos {')]),
('dec mul','bug',['C10'],[(S,'n.Int64() > (int64(len(cur))-dpos)/size {','n.Int64()*size > int64(len(cur))-dpos {')]),
('dec bool','bug',['C10'],[(S,'*v = spare.Sign() != 0','*v = spare.Bit(0) != 0')]),
('dec offset','bug',['C10'],[(S,'''		if did {
			offset += 32
''','''		if did {
			offset += 31
''')]),
('dec elems','bug',['C10'],[(S,'copy(s[i][:], cur[o+12:o+32])','copy(s[i][:], cur[o:o+32])')]),
('dec alias','bug',['C10'],[(S,'s[i] = append(Data(nil), cur[o:o+32]...)','s[i] = append(Data(nil), cur[o/2:o/2+32]...)')]),
('dec uint16','bug',['C10'],[(S,'*v = uint16(spare.Uint64())','*v = uint16(uint8(spare.Uint64()))')]),
('dec idx','same',['C10'],[(S,'''			s := make([]Int, length)
			for i := range s {
				o := int(dpos) + i*32
				(*big.Int)(&s[i]).SetBytes(cur[o : o+32])
			}
			*v = IntSlice(s)''','''			var s []Int
			for o := dpos; o < dpos+32*length; o += 32 {
				var n big.Int
				n.SetBytes(cur[o : o+32])
				s = append(s, Int(n))
			}
			*v = IntSlice(s)''')]),
('dec helper','same',['C10'],[(S,'''	if !word.IsInt64() || word.Int64() < offset+32 || word.Int64() > int64(len(cur))-32 {
''','''	max := big.NewInt(int64(len(cur)) - 32)
	if word.Cmp(big.NewInt(offset+32)) < 0 || word.Cmp(max) > 0 {
''')]),
('dec string','same',['C10'],[(S,'*v = string(cur[dpos : dpos+length])','''var b strings.Builder
			b.Write(cur[dpos : dpos+length])
			*v = b.String()''')]),
('dec bytes','same',['C10'],[(S,'''			*v = make([]byte, length)
			copy(*v, cur[dpos:dpos+length])
		case *Bytes:''','''			*v = append([]byte{}, cur[dpos:dpos+length]...)
		case *Bytes:''')]),
]
