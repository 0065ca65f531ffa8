F='keyfile.go'
def b(n,*e): return (n,'bug',['C13'],list(e))
def s(n,*e): return (n,'same',['C13'],list(e))
MUTS=[
b('unfix_pb',(F,'	if p.Iters < 1 || p.Keylen < 32 {','	if p.Iters < 1 {')),
b('unfix_iter',(F,'	if p.Iters < 1 || p.Keylen < 32 {','	if p.Keylen < 32 {')),
b('unfix_r',(F,'	if p.R < 1 || p.P < 1 || p.Keylen < 32 {','	if p.P < 1 || p.Keylen < 32 {')),
b('unfix_p',(F,'	if p.R < 1 || p.P < 1 || p.Keylen < 32 {','	if p.R < 1 || p.Keylen < 32 {')),
b('unfix_iv',(F,'	if len(iv) != aes.BlockSize {\n		return fmt.Errorf("bad aes-128-ctr iv: %d bytes", len(iv))\n	}\n','')),
s('redundant',(F,'	if len(key) < 32 {\n		return nil, fmt.Errorf("derived key has %d bytes; need at least 32", len(key))\n	}\n','')),
b('no_mac',(F,'	err = k.checkmac(key, ciphertext)\n	if err != nil {\n		return nil, err\n	}\n','')),
b('mac_prefix',(F,'	if !bytes.Equal(sum, want) {','	if len(want) > len(sum) || !bytes.Equal(sum[:len(want)], want) {')),
b('mac_key',(F,'	h.Write(key[len(key)-16:])\n	h.Write(ciphertext)\n	sum','	h.Write(key[:16])\n	h.Write(ciphertext)\n	sum')),
b('mac_len',(F,'	if len(ciphertext) != len(priv) {','	if len(ciphertext) > len(priv) {')),
b('mac_long',(F,'	if len(ciphertext) != len(priv) {','	if len(ciphertext) < len(priv) {')),
b('addr_len',(F,'		if !bytes.Equal(addr[:], want) {','		if len(want) > 20 || !bytes.Equal(addr[:len(want)], want) {')),
b('addr_skip',(F,'		if !bytes.Equal(addr[:], want) {','		if len(want) == 20 && !bytes.Equal(addr[:], want) {')),
b('prf_swap',(F,'		h = sha512.New384','		h = sha512.New')),
b('prf_default',(F,'	default:\n		return nil, fmt.Errorf("bad prf %q for pbkdf2", p.Hashfn)\n','	default:\n		h = sha256.New\n')),
b('scrypt_rp',(F,'return scrypt.Key(pass, salt, p.N, p.R, p.P, p.Keylen)','return scrypt.Key(pass, salt, p.N, p.P, p.R, p.Keylen)')),
b('salt_raw',(F,'	return pbkdf2.Key(pass, salt, p.Iters','	return pbkdf2.Key(pass, append(salt[:0], p.Salt...), p.Iters')),
b('cipher_any',(F,'	case "aes-128-ctr":\n		decipher','	case "aes-128-ctr", "aes-256-ctr":\n		decipher')),
b('key16',(F,'	block, err := aes.NewCipher(key[:16])','	block, err := aes.NewCipher(key[:32])')),
b('salt_err',(F,'	if err != nil {\n		return nil, fmt.Errorf("pbkdf2 salt: %s", err)\n	}\n','	_ = err\n')),
b('tag',(F,'`json:"mac"`','`json:"MAC"`')),
b('json_err',(F,'	if err := json.Unmarshal(jsparams, p); err != nil {\n		return nil, fmt.Errorf("parsing scrypt params: %q", err)\n	}','	json.Unmarshal(jsparams, p)')),
b('mk_iv',(F,'	if _, err := rand.Read(iv); err != nil {\n		panic(err)\n	}\n','')),
b('mk_saltiv',(F,'		"salt":  hex.EncodeToString(salt),','		"salt":  hex.EncodeToString(append(salt[:16:16], iv...)),')),
b('mk_id',(F,'	h.Write(iv)\n	h.Write(salt)\n	kf.ID = hex.EncodeToString(h.Sum(nil)[:16])','	kf.ID = hex.EncodeToString(p[:16])')),
b('mk_meta',(F,'	kf.Crypto.MAC = hex.EncodeToString(h.Sum(nil))\n','	kf.Crypto.MAC = hex.EncodeToString(h.Sum(nil))\n	kf.Meta, _ = json.Marshal(hex.EncodeToString(key))\n')),
b('mk_n',(F,'		N = 262144','		N = 4096')),
b('mk_nn',(F,'		"n":     N,','		"n":     N / 2,')),
b('mk_inplace',(F,'	stream.XORKeyStream(ciphertext, p[:])','	stream.XORKeyStream(p[:], p[:])\n	copy(ciphertext, p[:])')),
b('mk_mac',(F,'	h = keccak.New256()\n	h.Write(key','	h.Write(key')),
b('mk_addr',(F,'	kf.Crypto.Cipher = "aes-128-ctr"\n','	kf.Crypto.Cipher = "aes-128-ctr"\n	kf.Address = hex.EncodeToString(p.Address()[:])\n')),
b('decipher_state',(F,'	return hex.DecodeString(k.Crypto.Ciphertext)','	b, err := hex.DecodeString(k.Crypto.Ciphertext)\n	k.Crypto.Ciphertext = ""\n	return b, err')),
s('hmac_eq',(F,'	if !bytes.Equal(sum, want) {','	if len(want) != len(sum) || !bytes.HasPrefix(sum, want) {')),
s('ct_eq',(F,'	if !bytes.Equal(sum, want) {','	if subtle.ConstantTimeCompare(sum, want) != 1 {'),(F,'	"crypto/sha512"\n','	"crypto/sha512"\n	"crypto/subtle"\n')),
s('string_eq',(F,'	if !bytes.Equal(sum, want) {','	if string(sum) != string(want) {')),
s('order',(F,'	key, err := k.kdf(passphrase)\n	if err != nil {\n		return nil, err\n	}\n	ciphertext, err := k.ciphertext()\n	if err != nil {\n		return nil, err\n	}\n','	ciphertext, err := k.ciphertext()\n	if err != nil {\n		return nil, err\n	}\n	key, err := k.kdf(passphrase)\n	if err != nil {\n		return nil, err\n	}\n')),
s('lenearly',(F,'	ciphertext, err := k.ciphertext()\n	if err != nil {\n		return nil, err\n	}\n','	ciphertext, err := k.ciphertext()\n	if err != nil {\n		return nil, err\n	}\n	if len(ciphertext) != 32 {\n		return nil, fmt.Errorf("bad private key length %d", len(ciphertext))\n	}\n')),
s('newbuf',(F,'	stream.XORKeyStream(ciphertext, ciphertext)\n','	out := make([]byte, len(ciphertext))\n	stream.XORKeyStream(out, ciphertext)\n	copy(ciphertext, out)\n')),
s('struct_params',(F,'''	kf.Crypto.CipherParams, _ = json.Marshal(map[string]interface{}{
		"iv": hex.EncodeToString(iv),
	})
''','''	kf.Crypto.CipherParams, _ = json.Marshal(struct {
		IV string `json:"iv"`
	}{hex.EncodeToString(iv)})
''')),
s('readfull',(F,'	if _, err := rand.Read(iv); err != nil {','	if _, err := io.ReadFull(rand.Reader, iv); err != nil {'),(F,'	"hash"\n','	"hash"\n	"io"\n')),
s('table',(F,'''	var h func() hash.Hash
	switch strings.ToLower(p.Hashfn) {
	case "hmac-sha512":
		h = sha512.New
	case "hmac-sha384":
		h = sha512.New384
	case "hmac-sha256":
		h = sha256.New
	case "hmac-sha224":
		h = sha256.New224
	case "hmac-sha1":
		h = sha1.New
	default:
''','''	prfs := map[string]func() hash.Hash{
		"hmac-sha512": sha512.New,
		"hmac-sha384": sha512.New384,
		"hmac-sha256": sha256.New,
		"hmac-sha224": sha256.New224,
		"hmac-sha1":   sha1.New,
	}
	h := prfs[strings.ToLower(p.Hashfn)]
	if h == nil {
''')),
s('closure',(F,'		h = sha1.New\n','		h = func() hash.Hash { return sha1.New() }\n')),
s('json_string',(F,'''		"n":     N,''','''		"n":     int64(N),''')),
s('append_mac',(F,'''	h := keccak.New256()
	h.Write(key[len(key)-16:])
	h.Write(ciphertext)
	sum := h.Sum(nil)
''','''	sum := keccak.Sum256(append(append([]byte{}, key[len(key)-16:]...), ciphertext...))
'''),(F,'	if !bytes.Equal(sum, want) {','	if !bytes.Equal(sum[:], want) {')),
]
