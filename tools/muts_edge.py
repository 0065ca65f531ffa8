def b(n,p,*e): return (n,'bug',[p],list(e))
MUTS=[
b('count8','C09',('send.go','padint(es.Len(), dyn)','padint(int(uint8(es.Len())), dyn)')),
b('count16','C09',('send.go','padint(es.Len(), dyn)','padint(int(uint16(es.Len())), dyn)')),
b('off8','C09',('send.go','padint(dynoff+len(dyn), buf)','padint(int(uint8(dynoff+len(dyn))), buf)')),
b('off16','C09',('send.go','padint(dynoff+len(dyn), buf)','padint(int(uint16(dynoff+len(dyn))), buf)')),
b('declimit','C10',('send.go','	dpos = word.Int64() + 32\n','	dpos = word.Int64()&0xffff + 32\n')),
b('declimit2','C10',('send.go','	return dpos, n.Int64(), nil','	return dpos, n.Int64()&0xffff, nil')),
b('declimit3','C10',('send.go','	return dpos, n.Int64(), nil','	return dpos, n.Int64()&0xff, nil')),
b('leftmost','C19',('tevm/tree.go','	for n.Left != 0 {\n		n = t.num(n.Left)\n	}','	for i := 0; n.Left != 0 && i < 3; i++ {\n		n = t.num(n.Left)\n	}')),
b('leftmost2','C19',('tevm/tree.go','	for n.Left != 0 {\n		n = t.num(n.Left)\n	}','	for i := 0; n.Left != 0 && i < 2; i++ {\n		n = t.num(n.Left)\n	}')),
b('txhash','C24',('tevm/evm.go','(uint64(len(b.Transactions)) << 48))','(uint64(len(b.Transactions)&1) << 48))')),
b('write10','C12',('keccak/sha3.go','	written = len(p)\n','	written = len(p)\n	if len(p) > 1024 {\n		p = p[:1024]\n	}\n')),
b('pass64','C13',('keyfile.go','	return pbkdf2.Key(pass, salt','	if len(pass) > 64 {\n		pass = pass[:64]\n	}\n	return pbkdf2.Key(pass, salt')),
b('pass64s','C13',('keyfile.go','	return scrypt.Key(pass, salt','	if len(pass) > 64 {\n		pass = pass[:64]\n	}\n	return scrypt.Key(pass, salt')),
b('salt64','C13',('keyfile.go','	return scrypt.Key(pass, salt','	if len(salt) > 64 {\n		salt = salt[:64]\n	}\n	return scrypt.Key(pass, salt')),
b('post','C36',('cmd/eth/post.go','ioutil.ReadAll(in)','ioutil.ReadAll(io.LimitReader(in, 1<<16))')),
]
