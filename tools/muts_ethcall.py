F='cmd/eth/call.go'; R='cmd/eth/read.go'; J='cmd/eth/jumptab.go'; C='cmd/eth/client.go'; K='cmd/eth/keys.go'
def b(n,*e): return (n,'bug',['C33'],list(e))
def s(n,*e): return (n,'same',['C33'],list(e))
MUTS=[
b('string_hex',(F,'	b := seth.Bytes(s)\n	return &b\n}\n\nfunc unhex','	return etherbytes(s)\n}\n\nfunc unhex')),
b('string_trim',(F,'	b := seth.Bytes(s)\n	return &b\n}\n\nfunc unhex','	b := seth.Bytes(strings.TrimSpace(s))\n	return &b\n}\n\nfunc unhex')),
b('width',(F,'	if len(buf) != width {','	if len(buf) > width {')),
b('signed',(F,'	if signed {\n		bitwidth-- // sign bit\n	}\n','')),
b('not',(F,'		mag = new(big.Int).Not(v)','		mag = new(big.Int).Neg(v)')),
b('unsigned_neg',(F,'	if v.Sign() < 0 && !signed {','	if v.Sign() < 0 && !signed && bitwidth > 8 {')),
b('bitlen',(F,'	if mag.BitLen() > bitwidth {','	if mag.BitLen() > bitwidth+1 {')),
b('base10',(F,'val.SetString(s, 0)','val.SetString(s, 10)')),
b('int64_128',(F,'etherint(val, 128, typ == "int128")','etherint(val, 256, typ == "int128")')),
b('int16_sign',(F,'etherint(val, 16, typ == "int16")','etherint(val, 16, typ == "uint16")')),
b('arr_or',(F,'if !strings.HasPrefix(val, "[") || !strings.HasSuffix(val, "]") {','if !strings.HasPrefix(val, "[") && !strings.HasSuffix(val, "]") {')),
b('arr_trim',(F,'val = strings.TrimSuffix(strings.TrimPrefix(val, "["), "]")','val = strings.Trim(val, "[]")')),
b('arr_addr',(F,'			out[i] = *(args[i].(*seth.Address))','			out[i] = *(args[0].(*seth.Address))')),
b('bool_any',(F,'		default:\n			fatalf("%q not a boolean\\n", val)\n			return nil\n','		default:\n			return seth.NewInt(1)\n')),
b('bytes31',(F,'for i := 1; i <= 32; i++ {\n			if typ == "bytes"+strconv.Itoa(i) {\n				return etherdata','for i := 1; i < 32; i++ {\n			if typ == "bytes"+strconv.Itoa(i) {\n				return etherdata')),
s('paren_end',(F,'		rparen != len(fn)-1 {','		rparen > len(fn)-1 {')),
b('fallback_args',(F,'	if fname == "" && lparen != rparen-1 {','	if fname == "" && lparen > rparen-1 {')),
b('nocheck',(F,'	if c != nil && !forcecall && fname != "" {','	if c != nil && !forcecall && fname == "" {')),
b('force_inv',(F,'	if c != nil && !forcecall && fname != "" {','	if c != nil && forcecall && fname != "" {')),
b('sel3',(F,'bytes.Equal(entries[i].prefix[:], h[:4])','bytes.Equal(entries[i].prefix[:3], h[:3])')),
b('fewer',(F,'	if len(args) < len(argtypes) {','	if len(args) < len(argtypes)-1 {')),
b('arg0',(F,'callargs[i] = parsearg(argtypes[i], args[i])','callargs[i] = parsearg(argtypes[i], args[len(argtypes)-1-i])')),
b('gwei32',(F,'seth.NewInt(int64(gweicall) * 1e9)','seth.NewInt(int64(int32(gweicall * 1e9)))')),
b('nonce0',(F,'	if noncecall >= 0 {','	if noncecall > 0 {')),
b('jt12',(J,'	for len(base) > 12 {','	for len(base) > 24 {')),
b('jt_width',(J,'pwidth := 1 + int(base[7]-oppush1)','pwidth := 2')),
b('jt_second',(J,'			copy(prefixbytes[:], base[2:6])','			copy(prefixbytes[:], base[1:5])')),
b('jt_prefix',(J,'	"60e060020a60003504",\n','')),
b('read_neg',(R,'v.Bit(255) == 1','v.Bit(255) == 1 && v.Bit(254) == 1')),
b('read_uint',(R,'strings.HasPrefix(rettypes[i], "int")','strings.Contains(rettypes[i], "int")')),
b('read_idx',(R,'strings.HasPrefix(rettypes[i], "int")','strings.HasPrefix(rettypes[i/len(rettypes)], "int")')),
b('read_off',(R,'rettypes := args[2+len(callargs):]','rettypes := args[len(args)-1:]')),
b('read_err',(R,'	if err != nil {\n		fatalf("error making call: %s\\n", err)\n	}\n','	_ = err\n')),
b('read_bytes',(R,'		return new(seth.Bytes)','		return new(string)')),
s('helper',(F,'	opts.EncodeCall(args[1], callargs...)\n','	encode(&opts, args[1], callargs)\n'),(F,'func call(fs','func encode(o *seth.CallOpts, fn string, args []seth.EtherType) {\n	o.EncodeCall(fn, args...)\n}\n\nfunc call(fs')),
s('cmpint',(F,'	if mag.BitLen() > bitwidth {','	if mag.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(bitwidth))) >= 0 {')),
s('etherstr',(F,'	b := seth.Bytes(s)\n	return &b\n}\n\nfunc unhex','	b := make(seth.Bytes, len(s))\n	copy(b, s)\n	return &b\n}\n\nfunc unhex')),
s('range',(F,'		for i := range entries {\n			if bytes.Equal(entries[i].prefix[:], h[:4]) {','		for _, e := range entries {\n			if bytes.Equal(e.prefix[:], h[:4]) {')),
s('trim',(F,'	if len(s) >= 2 && s[:2] == "0x" {\n		s = s[2:]\n	}\n','	s = strings.TrimPrefix(s, "0x")\n')),
s('lastidx',(F,'		rparen != len(fn)-1 {','		!strings.HasSuffix(fn, ")") || strings.Count(fn, ")") != 1 {')),
s('order',(F,'	sign, from := signer()\n	opts := seth.CallOpts{','	sign, from := signer()\n	price := seth.NewInt(int64(gweicall))\n	(*big.Int)(price).Mul((*big.Int)(price), big.NewInt(1e9))\n	opts := seth.CallOpts{'),(F,'		GasPrice: seth.NewInt(int64(gweicall) * 1e9),','		GasPrice: price,')),
s('jtparse',(J,'	for len(base) > 12 {','	for 12 < len(base) {')),
s('sprint',(R,'			fmt.Println(*v)\n		case *bool:','			fmt.Printf("%s\\n", *v)\n		case *bool:')),
s('itoa',(F,'	width, err := strconv.Atoi(strings.TrimPrefix(typ, "bytes"))','	width, err := strconv.Atoi(typ[len("bytes"):])')),
s('field',(F,'	s := seth.NewSender(c, &from)\n	s.Signer = sign\n\n	h, err := s.Call(&opts)','	s := seth.NewSender(c, &from)\n	s.Signer = sign\n	var h seth.Hash\n	h, err = s.Call(&opts)')),
]
