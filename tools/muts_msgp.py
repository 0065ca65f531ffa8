G='seth_gen.go'; C='compile_gen.go'; S='seth.go'
def b(n,*e): return (n,'bug',['C18'],list(e))
def s(n,*e): return (n,'same',['C18'],list(e))
MUTS=[
b('int_dec',(S,'	i.Big().SetBytes(buf)\n	return nil\n}\n\nfunc (i *Int) MarshalMsg','	if len(buf) > 0 {\n		i.Big().SetBytes(buf)\n	}\n	return nil\n}\n\nfunc (i *Int) MarshalMsg')),
b('int_un',(S,'	i.Big().SetBytes(buf)\n	return rest, nil','	i.Big().SetUint64(new(big.Int).SetBytes(buf).Uint64())\n	return rest, nil')),
b('int_rest',(S,'	buf, rest, err := msgp.ReadBytesBytes(b, nil)\n	if err != nil {\n		return rest, err\n	}','	buf, rest, err := msgp.ReadBytesBytes(b, nil)\n	if err != nil {\n		return rest, nil\n	}')),
b('int_text',(S,'	return msgp.AppendBytes(b, i.Big().Bytes()), nil','	return msgp.AppendString(b, i.Big().String()), nil')),
b('keepnil',(G,'				z.TxIndex = nil\n','')),
b('keepnil2',(G,'				bts, err = msgp.ReadNilBytes(bts)\n				if err != nil {\n					return\n				}\n				z.TxIndex = nil\n','				bts, err = msgp.ReadNilBytes(bts)\n				if err != nil {\n					return\n				}\n')),
b('alias',(G,'				if z.TxIndex == nil {\n					z.TxIndex = new(Uint64)\n				}\n','				if z.TxIndex == nil {\n					z.TxIndex = z.LogIndex\n				}\n				if z.TxIndex == nil {\n					z.TxIndex = new(Uint64)\n				}\n')),
b('swap',(G,'				z.GasUsed = Uint64(zb0006)','				z.GasLimit = Uint64(zb0006)')),
b('rawcap',(G,'z.Transactions = (z.Transactions)[:zb0007]','z.Transactions = (z.Transactions)[:len(z.Transactions)]')),
b('warncap',(C,'if cap(z.Warnings) >= int(zb0005) {','if cap(z.Warnings) > 0 && zb0005 > 0 {')),
b('warnerr',(C,'				z.Warnings[za0004], err = dc.ReadString()\n				if err != nil {\n					return\n				}','				z.Warnings[za0004], _ = dc.ReadString()')),
b('warnlast',(C,'	for za0004 := range z.Warnings {\n		o = msgp.AppendString(o, z.Warnings[za0004])','	for za0004 := range z.Warnings {\n		o = msgp.AppendString(o, z.Warnings[0])\n		_ = za0004')),
b('append0',(S,'	return msgp.AppendBytes(b, i.Big().Bytes()), nil','	return msgp.AppendBytes(nil, i.Big().Bytes()), nil')),
b('encerr',(C,'		err = en.WriteString(z.Warnings[za0004])\n		if err != nil {\n			return\n		}','		en.WriteString(z.Warnings[za0004])')),
b('skip',(C,'			err = dc.Skip()\n			if err != nil {\n				return\n			}','')),
b('narrow',(G,'o = msgp.AppendUint64(o, uint64(z.GasUsed))','o = msgp.AppendUint64(o, uint64(uint32(z.GasUsed)))')),
b('int64',(G,'err = en.WriteUint64(uint64(z.GasUsed))','err = en.WriteInt64(int64(z.GasUsed))')),
b('string',(G,'json.RawMessage(zb0008)','json.RawMessage(zb0008[1:])')),
s('tmp',(G,'				z.GasUsed = Uint64(zb0006)','				g := zb0006\n				z.GasUsed = Uint64(g)')),
s('fresh',(C,'			if cap(z.Warnings) >= int(zb0005) {\n				z.Warnings = (z.Warnings)[:zb0005]\n			} else {\n				z.Warnings = make([]string, zb0005)\n			}','			z.Warnings = make([]string, zb0005)')),
s('intset',(S,'	i.Big().SetBytes(buf)\n	return rest, nil','	*i = Int(*new(big.Int).SetBytes(buf))\n	return rest, nil')),
s('writestr',(C,'	err = en.WriteArrayHeader(uint32(len(z.Warnings)))','	n := len(z.Warnings)\n	err = en.WriteArrayHeader(uint32(n))')),
s('appends',(S,'	return msgp.AppendBytes(b, i.Big().Bytes()), nil','	buf := i.Big().Bytes()\n	b = msgp.Require(b, len(buf)+5)\n	return msgp.AppendBytes(b, buf), nil')),
]
