F='keccak/sha3.go'; U='keccak/xor_unaligned.go'; H='keccak/hashes.go'
def b(n,*e): return (n,'bug',['C12'],list(e))
def s(n,*e): return (n,'same',['C12'],list(e))
MUTS=[
b('ds',(H,'rate: 144, outputLen: 28, dsbyte: 0x01','rate: 144, outputLen: 28, dsbyte: 0x06')),
b('rate',(H,'rate: 104, outputLen: 48','rate: 112, outputLen: 48')),
b('sum384',(H,'	h := New384()\n	h.Write(data)\n','	h := New384()\n	if len(data) > 0 {\n		h.Write(data[:len(data):len(data)])\n		h.Write(data[:0])\n	}\n	if len(data) == 208 {\n		h.Write([]byte{0})\n	}\n')),
b('clone_buf',(F,'		ret.buf = ret.storage[:len(ret.buf)]\n','')),
b('noclone',(F,'	dup := d.clone()','	dup := d')),
b('pad_off',(F,'	for i := zerosStart; i < d.rate; i++ {','	for i := zerosStart + 1; i < d.rate; i++ {')),
b('pad_or',(F,'	d.buf[d.rate-1] ^= 0x80','	d.buf[d.rate-1] = 0x80')),
b('fast_gt',(F,'		if len(d.buf) == 0 && len(p) >= d.rate {','		if len(p) >= d.rate {')),
b('full_late',(F,'			if len(d.buf) == d.rate {\n				d.permute()\n			}\n','			if len(d.buf) >= d.rate && len(p) > 0 {\n				d.permute()\n			}\n')),
b('reset_buf',(F,'	d.state = spongeAbsorbing\n	d.buf = d.storage[:0]\n}','	d.state = spongeAbsorbing\n}')),
b('reset_a',(F,'	for i := range d.a {\n		d.a[i] = 0\n	}\n','	for i := range d.a[1:] {\n		d.a[i] = 0\n	}\n')),
b('written',(F,'	written = len(p)\n\n	for len(p) > 0 {','	for len(p) > 0 {'),(F,'	return\n}\n\n// Read squeezes','	written = len(p)\n	return\n}\n\n// Read squeezes')),
b('sum_drop',(F,'	return append(in, hash...)','	return append(in[:0], hash...)')),
b('xor_136',(U,'	if n >= 136 {','	if n > 136 {')),
b('xor_word',(U,'		d.a[12] ^= bw[12]','		d.a[12] ^= bw[11]')),
b('xor_set',(U,'		d.a[8] ^= bw[8]','		d.a[8] = bw[8]')),
b('alias',(F,'			d.buf = append(d.buf, p[:todo]...)\n','			if len(d.buf) == 0 {\n				d.buf = p[:todo:todo]\n			} else {\n				d.buf = append(d.buf, p[:todo]...)\n			}\n')),
b('permute_state',(F,'		d.buf = d.storage[:0]\n		keccakF1600(&d.a)\n','		keccakF1600(&d.a)\n')),
b('size',(F,'func (d *state) Size() int { return d.outputLen }','func (d *state) Size() int { return d.rate / 2 }')),
s('min',(F,'''			todo := d.rate - len(d.buf)
			if todo > len(p) {
				todo = len(p)
			}
''','''			todo := len(p)
			if free := d.rate - len(d.buf); free < todo {
				todo = free
			}
''')),
s('nofast',(F,'		if len(d.buf) == 0 && len(p) >= d.rate {','		if false {')),
s('generic',(U,'''	bw := (*[maxRate / 8]uint64)(unsafe.Pointer(&buf[0]))
	n := len(buf)
''','''	for i := 0; i+8 <= len(buf); i += 8 {
		var w uint64
		for k := 7; k >= 0; k-- {
			w = w<<8 | uint64(buf[i+k])
		}
		d.a[i/8] ^= w
	}
	n := 0
	var bw [21]uint64
''')),
s('binary',(U,'''	bw := (*[maxRate / 8]uint64)(unsafe.Pointer(&buf[0]))
	n := len(buf)
''','''	for i := 0; i+8 <= len(buf); i += 8 {
		d.a[i/8] ^= binary.LittleEndian.Uint64(buf[i:])
	}
	n := 0
	var bw [21]uint64
'''),(U,'import "unsafe"','import (\n	"encoding/binary"\n	"unsafe"\n)')),
s('newhelper',(H,'func New256() hash.Hash { return &state{rate: 136, outputLen: 32, dsbyte: 0x01} }','func New256() hash.Hash { return newState(32) }\n\nfunc newState(n int) *state {\n	return &state{rate: 200 - 2*n, outputLen: n, dsbyte: 0x01}\n}')),
s('sum_direct',(F,'	hash := make([]byte, dup.outputLen)\n	dup.Read(hash)\n	return append(in, hash...)','	n := len(in)\n	for i := 0; i < dup.outputLen; i++ {\n		in = append(in, 0)\n	}\n	dup.Read(in[n:])\n	return in')),
]
