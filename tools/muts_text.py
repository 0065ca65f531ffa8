H='hex.go'; S='seth.go'
MUTS=[
('upper F','bug',['C06','C07'],[(H,"case 'A' <= c && c <= 'F':","case 'A' <= c && c <= 'E':")]),
('colon digit','bug',['C06','C07'],[(H,"case '0' <= c && c <= '9':","case '0' <= c && c <= ':':")]),
('merge dst','bug',['C06'],[(H,'''	for i := range dst {
		dst[i] = 0
	}
''','')]),
('trunc odd','bug',['C06'],[(H,'return (len(b[2:]) + 1) / 2','return len(b[2:]) / 2')]),
('odd shift','bug',['C06'],[(H,'a << (4 * (^(uint(i) ^ addend) & 1))','a << (4 * (^uint(i) & 1))')]),
('0X','bug',['C06'],[(H,"s[0] == '0' && s[1] == 'x'","s[0] == '0' && s[1]|0x20 == 'x'")]),
('long ok','bug',['C06'],[(H,'if len(dst) != hexlen(src) {','if len(dst) < hexlen(src) {')]),
('data trunc','bug',['C06'],[(S,'''func (d Data) MarshalText() ([]byte, error) {
	return hexstring(d, false), nil''','''func (d Data) MarshalText() ([]byte, error) {
	return hexstring(d, true), nil''')]),
('int no trunc','bug',['C07'],[(S,'''	return hexstring(i.Big().Bytes(), true), nil''','''	return hexstring(i.Big().Bytes(), false), nil''')]),
('zero 0x','bug',['C07'],[(H,'''	if trunc && len(b) == 0 {
		return []byte("0x0")
	}
''','')]),
('u64 no range','bug',['C07'],[(S,'''	if n.Big().BitLen() > 64 {''','''	if n.Big().BitLen() > 65 {''')]),
('u64 null zero','bug',['C07'],[(S,'''	if bytes.Equal(b, rawnull) {
		return nil
	}
	if len(b) >= 2 && b[0] == '"' && b[len(b)-1] == '"' {
		return i.UnmarshalText(b[1 : len(b)-1])
	}
	return i.UnmarshalText(b)
}

// UnmarshalText implements encoding.TextUnmarshaler.
func (i *Int)''','''	if bytes.Equal(b, rawnull) {
		*i = Int{}
		return nil
	}
	if len(b) >= 2 && b[0] == '"' && b[len(b)-1] == '"' {
		return i.UnmarshalText(b[1 : len(b)-1])
	}
	return i.UnmarshalText(b)
}

// UnmarshalText implements encoding.TextUnmarshaler.
func (i *Int)''')]),
('drop last quote only','bug',['C07'],[(S,'''	if len(b) >= 2 && b[0] == '"' && b[len(b)-1] == '"' {
		return i.UnmarshalText(b[1 : len(b)-1])
	}
	return i.UnmarshalText(b)
}

// UnmarshalText implements encoding.TextUnmarshaler.
func (i *Int)''','''	if len(b) >= 2 && b[0] == '"' {
		return i.UnmarshalText(b[1:])
	}
	return i.UnmarshalText(b)
}

// UnmarshalText implements encoding.TextUnmarshaler.
func (i *Int)''')]),
('trim zeros both','bug',['C07'],[(S,'bytes.TrimLeft(buf, "\\x00")','bytes.Trim(buf, "\\x00")')]),
('no trim','same',['C06','C07'],[(S,'i.Big().SetBytes(bytes.TrimLeft(buf, "\\x00"))','i.Big().SetBytes(buf)'),(S,'	"bytes"\n','	"bytes"\n')]),
('std hex','same',['C06','C07'],[(H,'''	addend := uint(len(src) & 1)
	for i, b := range src[2:] {
		a, ok := fromhex(b)
		if !ok {
			return hex.InvalidByteError(b)
		}
		dst[(uint(i)+addend)>>1] |= a << (4 * (^(uint(i) ^ addend) & 1))
	}

	return nil''','''	s := src[2:]
	if len(s)%2 == 1 {
		s = append([]byte{'0'}, s...)
	}
	_, err := hex.Decode(dst, s)
	return err''')]),
('pair loop','same',['C06','C07'],[(H,'''	addend := uint(len(src) & 1)
	for i, b := range src[2:] {
		a, ok := fromhex(b)
		if !ok {
			return hex.InvalidByteError(b)
		}
		dst[(uint(i)+addend)>>1] |= a << (4 * (^(uint(i) ^ addend) & 1))
	}

	return nil''','''	digits := src[2:]
	j := len(dst) - 1
	for k := len(digits) - 1; k >= 0; k -= 2 {
		lo, ok := fromhex(digits[k])
		if !ok {
			return hex.InvalidByteError(digits[k])
		}
		var hi byte
		if k > 0 {
			hi, ok = fromhex(digits[k-1])
			if !ok {
				return hex.InvalidByteError(digits[k-1])
			}
		}
		dst[j] = hi<<4 | lo
		j--
	}
	return nil''')]),
('fromhex if chain','same',['C06','C07'],[(H,'''	switch {
	case '0' <= c && c <= '9':
		return c - '0', true
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10, true
	case 'A' <= c && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false''','''	if c >= '0' && c <= '9' {
		return c - '0', true
	}
	c |= 0x20
	if c >= 'a' && c <= 'f' {
		return c - 'a' + 10, true
	}
	return 0, false''')]),
('fromhex ok var','same',['C06','C07'],[(H,'''	switch {
	case '0' <= c && c <= '9':
		return c - '0', true
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10, true
	case 'A' <= c && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false''','''	var v byte
	ok := true
	switch {
	case c >= '0' && c <= '9':
		v = c - '0'
	case c >= 'a' && c <= 'f':
		v = c - 'a' + 10
	case c >= 'A' && c <= 'F':
		v = c - 'A' + 10
	default:
		ok = false
	}
	return v, ok''')]),
('hexstring sprintf','same',['C06'],[(S,'''func (a *Address) String() string {
	return string(hexstring(a[:], false))''','''func (a *Address) String() string {
	return fmt.Sprintf("0x%x", a[:])''')]),
('hexstring append','same',['C06','C07'],[(H,'''	buf := make([]byte, 2+2*len(b))
	hex.Encode(buf[2:], b)
	if trunc && len(buf) > 2 && buf[2] == '0' {
		buf = buf[1:]
	}
	copy(buf, "0x")
	return buf''','''	s := hex.EncodeToString(b)
	if trunc && s[0] == '0' {
		s = s[1:]
	}
	return append([]byte("0x"), s...)''')]),
('lookup table','same',['C06','C07'],[(H,'''	switch {
	case '0' <= c && c <= '9':
		return c - '0', true
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10, true
	case 'A' <= c && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false''','''	const digits = "0123456789abcdef"
	const upper = "ABCDEF"
	for i := 0; i < len(digits); i++ {
		if digits[i] == c {
			return byte(i), true
		}
	}
	for i := 0; i < len(upper); i++ {
		if upper[i] == c {
			return byte(10 + i), true
		}
	}
	return 0, false''')]),
('priv','bug',['C06'],[('signature.go','func (k *PrivateKey) MarshalText() ([]byte, error) {\n\treturn hexstring(k[:], false), nil','func (k *PrivateKey) MarshalText() ([]byte, error) {\n\treturn hexstring(k[:], true), nil')]),
('pub','bug',['C06'],[('signature.go','func (k *PublicKey) String() string {\n\treturn string(hexstring(k[:], false))','func (k *PublicKey) String() string {\n\treturn string(hexstring(k[:], true))')]),
('sig','bug',['C06'],[('signature.go','func (s *Signature) FromString(z string) error {\n\treturn hexdecode(s[:], []byte(z))','func (s *Signature) FromString(z string) error {\n\treturn hexdecode(s[:64], []byte(z))')]),
('parse key','bug',['C06'],[('signature.go','func ParsePrivateKey(s string) (*PrivateKey, error) {\n\tk := new(PrivateKey)\n\tif err := k.FromString(s); err != nil {\n\t\treturn nil, err','func ParsePrivateKey(s string) (*PrivateKey, error) {\n\tk := new(PrivateKey)\n\tif err := k.FromString(s); err != nil {\n\t\treturn k, nil')]),
]
