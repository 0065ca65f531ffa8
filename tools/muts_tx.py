T='transaction.go'
MUTS=[
('chain id','bug',['C08'],[(T,'	data.EncodeInt(1)\n','	data.EncodeInt(2)\n')]),
('v 36','bug',['C08'],[(T,'uint64(v) + 37','uint64(v) + 27')]),
('swap rs','bug',['C08'],[(T,'r, s, v := sig.Parts()','s, r, v := sig.Parts()')]),
('56','bug',['C08'],[(T,'if len(b) < 56','if len(b) <= 56')]),
('0x80','bug',['C08'],[(T,'len(b) == 1 && b[0] < 0x80','len(b) == 1 && b[0] <= 0x80')]),
('intbytes','bug',['C08'],[(T,'(n >> shift) > 0xFF','(n >> shift) >= 0xFF')]),
('string zero','bug',['C08'],[(T,'		e.Write([]byte{0x00})\n','		e.Write([]byte{0x80})\n')]),
('list off','bug',['C08'],[(T,'e.EncodeBytes(b, 0xC0, 0xF7)','e.EncodeBytes(b, 0xC0, 0xF8)')]),
('nil to','bug',['C08'],[(T,'''		e.EncodeString(nil)
''','''		e.EncodeString(make([]byte, 20))
''')]),
('gas order','bug',['C08'],[(T,'''	e.EncodeString(t.GasPrice.Big().Bytes())
	e.EncodeInt(uint64(t.Gas))
''','''	e.EncodeInt(uint64(t.Gas))
	e.EncodeString(t.GasPrice.Big().Bytes())
''')]),
('sign err','bug',['C08'],[(T,'''	sig, err := sign(hash)
	if err != nil {
		return nil, err
	}
	return t.Encode(sig), nil''','''	sig, err := sign(hash)
	return t.Encode(sig), err''')]),
('gas 32','bug',['C08'],[(T,'e.EncodeInt(uint64(t.Gas))','e.EncodeInt(uint64(uint32(t.Gas)))')]),
('value int64','bug',['C08'],[(T,'e.EncodeString(t.Value.Big().Bytes())','e.EncodeInt(t.Value.Uint64())')]),
('reuse','same',['C08'],[(T,'''	var data, res rlpEncoder

	data.EncodeTransaction(t)
	data.EncodeInt(1)
	data.EncodeInt(0)
	data.EncodeInt(0)

	res.EncodeList(data.Bytes())

	hash := HashBytes(res.Bytes())
''','''	var data rlpEncoder
	data.EncodeTransaction(t)
	data.EncodeInt(1)
	for i := 0; i < 2; i++ {
		data.EncodeInt(0)
	}
	var res rlpEncoder
	res.EncodeList(data.Bytes())
	hash := HashBytes(res.Bytes())
''')]),
('intbytes binary','same',['C08'],[(T,'''	var buf bytes.Buffer
	shift := uint64(0)

	for (n >> shift) > 0xFF {
		shift += 8
	}

	for shift > 0 {
		buf.Write([]byte{byte(n >> shift)})
		shift -= 8
	}
	buf.Write([]byte{byte(n)})
	return buf.Bytes()''','''	out := make([]byte, 8)
	binary.BigEndian.PutUint64(out, n)
	i := 0
	for i < 7 && out[i] == 0 {
		i++
	}
	return out[i:]'''),(T,'''	"bytes"
''','''	"bytes"
	"encoding/binary"
''')]),
('intbytes append','same',['C08'],[(T,'''	var buf bytes.Buffer
	shift := uint64(0)

	for (n >> shift) > 0xFF {
		shift += 8
	}

	for shift > 0 {
		buf.Write([]byte{byte(n >> shift)})
		shift -= 8
	}
	buf.Write([]byte{byte(n)})
	return buf.Bytes()''','''	var out []byte
	for n > 0 {
		out = append([]byte{byte(n)}, out...)
		n >>= 8
	}
	return out''')]),
('intbytes big','same',['C08'],[(T,'''	var buf bytes.Buffer
	shift := uint64(0)

	for (n >> shift) > 0xFF {
		shift += 8
	}

	for shift > 0 {
		buf.Write([]byte{byte(n >> shift)})
		shift -= 8
	}
	buf.Write([]byte{byte(n)})
	return buf.Bytes()''','''	return new(big.Int).SetUint64(n).Bytes()'''),(T,'''	"bytes"
''','''	"bytes"
	"math/big"
''')]),
('header helper','same',['C08'],[(T,'''	if len(b) < 56 {
		e.Write([]byte{byte(int(sh) + len(b))})
	} else {
		blen := intBytes(uint64(len(b)))
		e.Write([]byte{byte(int(lh) + len(blen))})
		e.Write(blen)
	}

	e.Write(b)
}
''','''	e.header(len(b), sh, lh)
	e.Write(b)
}

func (e *rlpEncoder) header(n int, sh, lh byte) {
	if n >= 56 {
		blen := intBytes(uint64(n))
		e.Write(append([]byte{lh + byte(len(blen))}, blen...))
		return
	}
	e.Write([]byte{sh + byte(n)})
}
''')]),
('signtx var','same',['C08'],[(T,'''	hash := t.HashToSign()
	sig, err := sign(hash)
	if err != nil {
		return nil, err
	}
	return t.Encode(sig), nil''','''	var raw []byte
	sig, err := sign(t.HashToSign())
	if err == nil {
		raw = t.Encode(sig)
	}
	return raw, err''')]),
]
