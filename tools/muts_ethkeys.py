S='cmd/eth/sign.go'; K='cmd/eth/keys.go'; L='cmd/eth/keylist.go'; H='cmd/eth/hsm.go'; C='cmd/eth/call.go'
def b(n,*e): return (n,'bug',['C32'],list(e))
def s(n,*e): return (n,'same',['C32'],list(e))
MUTS=[
b('loopvar',(K,'		kd := kd\n',''),(K,'	for _, kd := range keys() {','	var kd keydesc\n	for _, kd = range keys() {')),
b('first',(K,'			if matched != nil {\n				fatalf("ambiguous key spec %q matches more than one key\\n", spec)\n			}\n','			if matched != nil {\n				break\n			}\n')),
b('idonly',(K,'re.MatchString(kd.addr.String()) || re.MatchString(kd.id)','re.MatchString(kd.id)')),
b('addronly',(K,'re.MatchString(kd.addr.String()) || re.MatchString(kd.id)','re.MatchString(kd.addr.String())')),
b('path',(K,'re.MatchString(kd.addr.String()) || re.MatchString(kd.id)','re.MatchString(kd.addr.String()) || re.MatchString(kd.id) || re.MatchString(kd.path)')),
b('noname',(K,'				if kf.Name != "" {\n					kd.id = kf.Name\n				}\n','')),
b('nomatch',(K,'	if matched == nil {\n		fatalf("keyspec %q doesn\'t match any keys\\n", spec)\n	}\n','	if matched == nil {\n		matched = &keys()[0]\n	}\n')),
b('mac',(K,'		kf.Crypto.MAC != "" &&\n','')),
b('ver',(K,'		kf.Crypto.KDF != "" &&\n		kf.Version != 0','		kf.Crypto.KDF != ""')),
b('isdir',(K,'			if fi.IsDir() {\n				continue\n			}\n','			if fi.IsDir() {\n				break\n			}\n')),
b('readerr',(K,'				debugf("keyfile scan: can\'t read file %q %s", fp, err)\n				continue','				debugf("keyfile scan: can\'t read file %q %s", fp, err)\n				break')),
b('empty0',(K,'if len(buf) == 0 || buf[0]','if buf[0]')),
b('reuse',(K,'			kf := new(seth.Keyfile)\n',''),(K,'		for _, fi := range fis {','		kf := new(seth.Keyfile)\n		for _, fi := range fis {')),
b('lastdir',(K,'	for _, p := range keypaths() {\n','	for _, p := range keypaths() {\n		out = nil\n')),
b('onedir',(K,'return strings.Split(kp, ":")','return []string{strings.SplitN(kp, ":", 2)[0]}')),
b('hsm_fail',(K,'				addr: *pks[i].Public.Address(),','				addr: *pks[0].Public.Address(),')),
b('hsm_id',(K,'				id:   pks[i].ID,','				id:   pks[len(pks)-1].ID,')),
b('hsm_break',(K,'	for i, h := range hsmprobe() {','	if len(out) > 0 {\n		return out\n	}\n	for i, h := range hsmprobe() {')),
b('unlock',(H,'				fatalf("unlock %s: %s", p, err)','				debugf("unlock %s: %s", p, err)')),
b('passerr',(K,'	if err != nil {\n		fatalf("couldn\'t read passphrase: %s\\n", err)\n	}\n','	_ = err\n'),(K,'		priv, err := matched.kf.Private(passpromptf("enter key passphrase:\\n"))\n		if err != nil {\n			fatalf("couldn\'t derive private key: %s\\n", err)\n		}','		priv, err := matched.kf.Private(passpromptf("enter key passphrase:\\n"))\n		if err != nil {\n			priv = seth.GenPrivateKey()\n		}')),
b('addr',(K,'return priv.Signer(), *priv.PublicKey().Address()','return priv.Signer(), matched.addr')),
b('emptyspec',(K,'	if spec == "" {\n		fatalf("no key spec provided\\n")\n	}\n','')),
b('stdin',(S,'if args[0] != "-" {','if args[0] != "--" {')),
b('prefix_after',(S,'append([]byte(signprefix), buf...)','append(buf, []byte(signprefix)...)')),
b('trim',(S,'		h = seth.HashBytes(buf)\n','		if n := len(buf); n > 0 && buf[n-1] == \'\\n\' {\n			buf = buf[:n-1]\n		}\n		h = seth.HashBytes(buf)\n')),
b('hlen',(S,'		if len(buf) != len(h[:]) {','		if len(buf) < len(h[:]) {')),
b('rehash',(S,'		copy(h[:], buf)\n','		h = seth.HashBytes(buf)\n')),
b('hprefix',(S,'	if hashed && signprefix != "" {','	if hashed && sighex && signprefix != "" {')),
b('both',(S,'bool2i(sighex)+bool2i(sigjson) > 1','bool2i(sighex)+bool2i(sigjson) > 2')),
b('vjson',(S,'seth.NewInt(int64(v))','seth.NewInt(int64(v+27))')),
b('rs',(S,'seth.Int(r), seth.Int(s)','seth.Int(s), seth.Int(r)')),
b('bin',(S,'		_, err := os.Stdout.Write(sig[:])','		_, err := os.Stdout.Write(sig[:64])')),
b('list_dup',(L,'	for _, kd := range kds {','	for i, kd := range kds {\n		if i > 0 && kds[i-1].id == kd.id {\n			continue\n		}\n		if i > 2 {\n			break\n		}')),
b('list_trunc',(L,'"%36s %s\\n"','"%.36s %s\\n"')),
s('switch',(K,'		if re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {\n			if matched','		hit := re.MatchString(kd.id)\n		if !hit {\n			hit = re.MatchString(kd.addr.String())\n		}\n		if hit {\n			if matched')),
s('index',(K,'	for _, kd := range keys() {\n		kd := kd\n','	ks := keys()\n	for i := range ks {\n		kd := ks[i]\n')),
s('collect',(K,'			matched = &kd\n','			cp := kd\n			matched = &cp\n')),
s('hash',(S,'		if signprefix != "" {\n			buf = append([]byte(signprefix), buf...)\n		}\n		h = seth.HashBytes(buf)','		h = seth.HashBytes(append([]byte(signprefix), buf...))')),
s('hexfmt',(S,'io.WriteString(os.Stdout, hex.EncodeToString(sig[:])+"\\n")','fmt.Printf("%x\\n", sig[:])'),(S,'	"encoding/hex"\n',''),(S,'	"flag"\n	"io"\n','	"flag"\n	"fmt"\n')),
s('valid',(K,'	return kf.ID != "" &&\n		kf.Crypto.Cipher','	if kf.ID == "" {\n		return false\n	}\n	return kf.Crypto.Cipher')),
s('pathjoin',(K,'fp := filepath.Join(p, fi.Name())','fp := p + string(os.PathSeparator) + fi.Name()')),
s('listfmt',(L,'fmt.Printf("%36s %s\\n", kd.id, kd.addr.String())','fmt.Printf("%36s %s\\n", kd.id, &kd.addr)')),
s('switchmode',(S,'	if bool2i(sighex)+bool2i(sigjson) > 1 {','	if sighex && sigjson {'),(S,'func bool2i(b bool) int {\n	if b {\n		return 1\n	}\n	return 0\n}\n','')),
]
