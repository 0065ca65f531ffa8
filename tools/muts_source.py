F='compile.go'; A='abi.go'
def b(n,*e): return (n,'bug',['C30'],list(e))
def s(n,*e): return (n,'same',['C30'],list(e))
MUTS=[
b('overflow',(F,'info.s < 0 || info.s > len(src) || info.l < 0 || info.l > len(src)-info.s','info.s < 0 || info.s > len(src) || info.l < 0 || info.s+info.l > len(src)')),
b('neg_l',(F,'info.s < 0 || info.s > len(src) || info.l < 0 ||','info.s < 0 || info.s > len(src) ||')),
b('neg_s',(F,'if info.s < 0 || info.s > len(src)','if info.s > len(src)')),
b('ge',(F,'info.l > len(src)-info.s','info.l >= len(src)-info.s')),
b('file_neg',(F,'	if info.f < 0 || info.f >= len(b.Sources) {','	if info.f >= len(b.Sources) {')),
b('push_end',(F,'		if b >= 0x60 && b < 0x80 {','		if b >= 0x60 && b <= 0x80 {')),
b('push_start',(F,'		if b >= 0x60 && b < 0x80 {','		if b > 0x60 && b < 0x80 {')),
b('push_w',(F,'			width = int(b - 0x5f)','			width = int(b - 0x60)')),
b('no_skip',(F,'		i += width\n','')),
b('no_inherit',(F,'		if i > 0 {\n			out[i] = out[i-1]\n		}\n','')),
b('inherit_j',(F,'			out[i] = out[i-1]\n','			out[i].s, out[i].l = out[i-1].s, out[i-1].l\n')),
b('map_ge',(F,'	if n >= len(c.srcmap) {','	if n > len(c.srcmap) {')),
b('pc_neg',(F,'	if pc < 0 || pc >= len(c.pos) {','	if pc >= len(c.pos) {')),
b('nofall',(F,'				out[i].f = mustint(sections[2])\n			}\n			fallthrough\n','				out[i].f = mustint(sections[2])\n			}\n')),
b('three',(F,'		case 3:\n			if len(sections[2]) > 0 {\n				out[i].f = mustint(sections[2])\n			}\n			fallthrough\n','		case 3:\n			fallthrough\n')),
b('find_last',(A,'		if d.Signature() == desc {\n			return d\n		}\n	}\n	return nil','		if d.Signature() == desc {\n			return d\n		}\n	}\n	for i := range c.ABI {\n		if c.ABI[i].Name+"()" == desc {\n			return &c.ABI[i]\n		}\n	}\n	return nil')),
b('find_name',(A,'		if d.Signature() == desc {','		if strings.HasPrefix(d.Signature(), desc) {')),
b('find_copy',(A,'		d := &c.ABI[i]\n','		e := c.ABI[i]\n		d := &e\n')),
b('find_fn',(A,'		if d.Signature() == desc {','		if d.Type == "event" && d.Signature() == desc {')),
b('sig_space',(A,'strings.Join(args, ",")','strings.Join(args, ", ")')),
b('sig_out',(A,'	for i := range d.Inputs {\n		args = append(args, d.Inputs[i].Type)','	for i := range d.Outputs {\n		args = append(args, d.Outputs[i].Type)')),
b('meta_lt',(F,'	if len(b) < mlen {','	if len(b) <= mlen {')),
b('meta_suffix',(F,'	if !bytes.Equal(suffix[:mp], metadataPrefix) ||\n		!bytes.Equal(suffix[mp+32:], metadataSuffix) {','	if !bytes.Equal(suffix[:mp], metadataPrefix) {')),
b('meta_any',(F,'	suffix := b[len(b)-mlen:]\n','	suffix := b[len(b)-mlen:]\n	if i := bytes.Index(b, metadataPrefix); i >= 0 && i+mlen <= len(b) {\n		suffix = b[i : i+mlen]\n	}\n')),
b('meta_off',(F,'	return suffix[mp : mp+32]','	return suffix[mp-1 : mp+31]')),
b('strip_off',(F,'		return b[:len(b)-43]','		return b[:len(b)-42]')),
b('contract_ptr',(F,'		if c.Contracts[i].Name == name {','		if strings.HasPrefix(c.Contracts[i].Name, name) {')),
s('width_switch',(F,'		if b >= 0x60 && b < 0x80 {\n			width = int(b - 0x5f)\n		}','		switch {\n		case b < 0x60 || b > 0x7f:\n		default:\n			width = int(b) - 0x5f\n		}')),
s('lazy_range',(F,'	for i := range c.Contracts {\n		if c.Contracts[i].Name == name {\n			return &c.Contracts[i]\n		}\n	}\n	return nil','	for i := len(c.Contracts) - 1; i >= 0; i-- {\n		if k := &c.Contracts[i]; k.Name == name {\n			return k\n		}\n	}\n	return nil')),
s('cond_order',(F,'	if info.s < 0 || info.s > len(src) || info.l < 0 || info.l > len(src)-info.s {\n		return ""\n	}\n	return src[info.s : info.s+info.l]','	if info.s >= 0 && info.s <= len(src) {\n		rest := src[info.s:]\n		if info.l >= 0 && info.l <= len(rest) {\n			return rest[:info.l]\n		}\n	}\n	return ""')),
s('sections',(F,'''		switch len(sections) {
		case 4:
			if len(sections[3]) > 0 {
				out[i].j = sections[3][0]
			}
			fallthrough
		case 3:
			if len(sections[2]) > 0 {
				out[i].f = mustint(sections[2])
			}
			fallthrough
		case 2:
			if len(sections[1]) > 0 {
				out[i].l = mustint(sections[1])
			}
			fallthrough
		case 1:
			if len(sections[0]) > 0 {
				out[i].s = mustint(sections[0])
			}
		}
''','''		dst := []*int{&out[i].s, &out[i].l, &out[i].f}
		for k, sec := range sections {
			switch {
			case sec == "":
			case k < 3:
				*dst[k] = mustint(sec)
			case k == 3:
				out[i].j = sec[0]
			}
		}
''')),
s('sig_builder',(A,'''	var args []string
	for i := range d.Inputs {
		args = append(args, d.Inputs[i].Type)
	}
	return d.Name + "(" + strings.Join(args, ",") + ")"
''','''	s := d.Name + "("
	for i, in := range d.Inputs {
		if i > 0 {
			s += ","
		}
		s += in.Type
	}
	return s + ")"
'''),(A,'import (\n	"strings"\n)\n','')),
s('hasprefix',(F,'	if !bytes.Equal(suffix[:mp], metadataPrefix) ||\n		!bytes.Equal(suffix[mp+32:], metadataSuffix) {','	if !bytes.HasPrefix(suffix, metadataPrefix) || !bytes.HasSuffix(b, metadataSuffix) {')),
s('early',(F,'	if len(c.srcmap) == 0 {\n		c.compileSourcemap()\n		c.compilePos()\n	}','	if pc < 0 {\n		return ""\n	}\n	if c.pos == nil {\n		c.compilePos()\n		c.compileSourcemap()\n	}')),
]
