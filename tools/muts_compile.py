F='compile.go'
def b(n,*e): return (n,'bug',['C27'],[(F,)+x for x in e])
def c(n,*e): return (n,'bug',['C28'],[(F,)+x for x in e])
def s(n,*e): return (n,'same',['C27','C28'],[(F,)+x for x in e])
MUTS=[
b('nolen',('fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)','fmt.Fprintf(h1, "%s", sources[i].Body)')),
b('nolen0',('fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)','fmt.Fprintf(h0, "%s", sources[i].Filename)')),
b('sep',('fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)','fmt.Fprintf(h0, "%s", filepath.Base(sources[i].Filename)+":")')),
b('noname',('short(h0) + "-" + short(h1)','"x-" + short(h1)')),
b('nosort',('	sort.Slice(sources, func(i, j int) bool {\n		return sources[i].Filename < sources[j].Filename\n	})\n','	_ = sort.Slice\n')),
b('sortbody',('return sources[i].Filename < sources[j].Filename','return len(sources[i].Body) < len(sources[j].Body)')),
b('dash',('strings.LastIndexByte(name,','strings.IndexByte(name,')),
b('rmall',('filepath.Glob(name[:i+1] + "*")','filepath.Glob(filepath.Join(filepath.Dir(name), "*"))')),
b('rmbundle',('filepath.Glob(name[:i+1] + "*")','filepath.Glob(filepath.Join(filepath.Dir(name), "*.bundle"))')),
b('decerr',('	if err := b.DecodeMsg(d); err != nil {\n		return nil, false\n	}','	b.DecodeMsg(d)')),
b('gzerr',('	r, err := gzip.NewReader(f)\n	if err != nil {\n		return nil, false\n	}','	r, err := gzip.NewReader(f)\n	if err != nil {\n		return b, true\n	}')),
b('noflush',('	e.Flush()\n','')),
b('nogz',('	w.Close()\n','')),
b('early',('	b, err := compile(sources)\n	if err != nil {\n		return nil, err\n	}\n	writeCache(cn, b)','	b, err := compile(sources)\n	writeCache(cn, &CompiledBundle{})\n	if err != nil {\n		return nil, err\n	}\n	writeCache(cn, b)')),
b('half',('	h0 := keccak.New256()\n	h1 := keccak.New256()','	h0 := keccak.New256()\n	h1 := h0')),
b('truncbody',('len(sources[i].Body), sources[i].Body)','len(sources[i].Body), strings.TrimSpace(sources[i].Body[:len(sources[i].Body)/2]))')),
b('fields',('len(sources[i].Body), sources[i].Body)','len(sources[i].Body), strings.Join(strings.Fields(sources[i].Body), " "))')),
b('always',('	if bundle, ok := cachedBundle(cn); ok {\n		return bundle, nil\n	}','	cachedBundle(cn)')),
b('nomk',('	if err := os.MkdirAll(dir, 0777); err != nil {\n		return\n	}','	os.MkdirAll(filepath.Dir(dir), 0777)')),
b('closed',('	w.Close()\n	f.Close()','	f.Close()\n	w.Close()')),
b('pointer',('	defer f.Close()','	f.Close()')),
b('staleerr',('	f, err := os.Create(name)\n	if err != nil {\n		return\n	}','	f, err := os.Create(name)\n	if err != nil {\n		panic(err)\n	}')),
c('id',('b.Filenames[id.ID] = name','b.Filenames[len(b.Filenames)-1-id.ID] = name')),
c('srcorder',('		b.Sources[i] = blob.Sources[b.Filenames[i]].Content','		b.Sources[i] = sources[i].Body')),
c('warnerr',('if errors[i].Type != "Warning" {','if errors[i].Type == "Error" {')),
c('lasterr',('	for i := range errors {\n		if errors[i]','	for i := range errors[:1] {\n		if errors[i]')),
c('wmsg',('b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)','b.Warnings = append(b.Warnings, jsout.Errors[i].Message)')),
c('wait',('	if err := cmd.Wait(); err != nil {\n		return nil, fmt.Errorf("solc: %s", err)\n	}','	cmd.Wait()')),
c('noclose',('	in.Close()\n	var jsout','	defer in.Close()\n	var jsout')),
c('output',('"evm.bytecode", "abi"','"evm.deployedBytecode", "abi"')),
c('abi',('				ABI:       out.ABI,\n','')),
c('tag',('`json:"sourceMap"`','`json:"sourcemaps"`')),
c('tag2',('`json:"stateMutability"','`json:"mutability"')),
c('onecontract',('		for contract, out := range contracts {','		for contract, out := range contracts {\n			if b.Contract(contract) != nil || len(b.Contracts) > 2 {\n				continue\n			}')),
c('badhex',('			if err != nil {\n				return nil, fmt.Errorf("bytecode','			if err != nil && len(code) == 0 {\n				return nil, fmt.Errorf("bytecode')),
c('globname',('sources[i].Filename = matches[i]','sources[i].Filename = filepath.Base(matches[i])')),
c('globbody',('		sources[i].Body = string(body)','		sources[0].Body = string(body)')),
c('globerr',('		body, err = ioutil.ReadFile(matches[i])\n		if err != nil {\n			return nil, err\n		}','		body, err = ioutil.ReadFile(matches[i])\n		if err != nil {\n			continue\n		}')),
c('globempty',('	if len(matches) == 0 {\n		return nil, fmt.Errorf("glob %q matches zero files", matches)\n	}\n','')),
c('decode',('	if err != nil {\n		cmd.Wait()\n		return nil, fmt.Errorf("reading','	if err != nil && len(jsout.Sources) > 0 {\n		cmd.Wait()\n		return nil, fmt.Errorf("reading')),
c('stringtrim',('		Body:     code,','		Body:     strings.TrimSpace(code),')),
s('strbuild',('		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)','		h1.Write([]byte(strconv.Itoa(len(sources[i].Body)) + ":"))\n		h1.Write([]byte(sources[i].Body))')),
s('iows',('		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)','		fmt.Fprintf(h1, "%d", len(sources[i].Body))\n		h1.Write([]byte{0x3a})\n		fmt.Fprint(h1, sources[i].Body)')),
s('loop2',('	for i := range sources {\n		// length','	for _, src := range sources {\n		fmt.Fprintf(h1, "%d:%s", len(src.Body), src.Body)\n	}\n	for i := range sources {\n		// length'),('		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)\n','')),
s('stable',('sort.Slice(','sort.SliceStable(')),
s('copy',('	h0 := keccak.New256()','	sources = append([]Source(nil), sources...)\n	h0 := keccak.New256()')),
s('rmhelper',('				for i := range all {\n					os.Remove(all[i])\n				}','				for _, f := range all {\n					if err := os.Remove(f); err != nil {\n						break\n					}\n				}')),
s('msgpenc',('	e := msgp.NewWriter(w)\n	bundle.EncodeMsg(e)\n	e.Flush()','	msgp.Encode(w, bundle)')),
s('msgpdec',('	d := msgp.NewReader(r)\n	if err := b.DecodeMsg(d); err != nil {','	if err := msgp.Decode(r, b); err != nil {')),
s('marshal',('	e := msgp.NewWriter(w)\n	bundle.EncodeMsg(e)\n	e.Flush()\n','	buf, _ := bundle.MarshalMsg(nil)\n	w.Write(buf)\n'),('	if err := bundle.x','')) if 0 else s('deferclose',('	w.Close()\n	f.Close()\n}','}'),('	w := gzip.NewWriter(f)','	defer f.Close()\n	w := gzip.NewWriter(f)\n	defer w.Close()')),
s('jsonm',('	err = json.NewEncoder(in).Encode(&blob)','	var buf []byte\n	buf, err = json.Marshal(&blob)\n	if err == nil {\n		_, err = in.Write(buf)\n	}')),
s('literal',('	blob.Settings.OutputSelection = defaultOutput','	blob.Settings.OutputSelection = map[string]map[string][]string{"*": {"*": {"abi", "evm.bytecode"}}}')),
s('anonstruct',('	blob.Sources = make(map[string]sourcefile, len(sources))\n	for i := range sources {\n		blob.Sources[sources[i].Filename] = sourcefile{Content: sources[i].Body}\n	}','	blob.Sources = map[string]sourcefile{}\n	for _, s := range sources {\n		blob.Sources[s.Filename] = sourcefile{s.Body}\n	}')),
s('warnloop',('	for i := range jsout.Errors {\n		if jsout.Errors[i].Type == "Warning" {\n			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)\n		}\n	}','	for _, e := range jsout.Errors {\n		b.Warnings = append(b.Warnings, e.FormattedMessage)\n	}')),
s('cacheext',('".bundle"','".gz"')),
s('readall',('	for i := range b.Sources {\n		b.Sources[i] = blob.Sources[b.Filenames[i]].Content\n	}','	byName := make(map[string]string)\n	for _, s := range sources {\n		byName[s.Filename] = s.Body\n	}\n	for i, f := range b.Filenames {\n		b.Sources[i] = byName[f]\n	}')),
s('globrange',('	for i := range matches {\n		sources[i].Filename = matches[i]\n		body, err = ioutil.ReadFile(matches[i])\n		if err != nil {\n			return nil, err\n		}\n		sources[i].Body = string(body)\n	}','	for i, m := range matches {\n		if body, err = ioutil.ReadFile(m); err != nil {\n			return nil, err\n		}\n		sources[i] = Source{m, string(body)}\n	}')),
s('kill',('		in.Close()\n		cmd.Wait()\n		return nil, err','		in.Close()\n		cmd.Process.Kill()\n		cmd.Wait()\n		return nil, err')),
s('hashlen',('[:12]','[:16]')),
s('onehash',('short(h0) + "-" + short(h1)','short(h0) + "-" + hex.EncodeToString(h1.Sum(nil)[:12])')),
s('sprintf',('base := short(h0) + "-" + short(h1) + ".bundle"','base := fmt.Sprintf("%s-%s.bundle", short(h0), short(h1))')),
s('atomic',('	f, err := os.Create(name)\n','	f, err := ioutil.TempFile(dir, "tmp")\n'),('	w.Close()\n	f.Close()','	if err := w.Close(); err != nil {\n		f.Close()\n		os.Remove(f.Name())\n		return\n	}\n	f.Close()\n	os.Rename(f.Name(), name)')),
c('dup',('		for contract, out := range contracts {','		for contract, out := range contracts {\n			if b.Contract(contract) != nil {\n				continue\n			}')),
]
