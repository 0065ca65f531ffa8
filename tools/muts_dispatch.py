F='tevm/evm.go'; T='tevm/transport.go'
def b(n,*e): return (n,'bug',['C26'],list(e))
def s(n,*e): return (n,'same',['C26'],list(e))
MUTS=[
b('arity_min',(T,'	if len(from) != len(to) {\n','	if len(from) < len(to) {\n')),
b('arity_max',(T,'	if len(from) != len(to) {\n','	if len(from) > len(to) {\n')),
b('arity_range',(T,'	if len(from) != len(to) {\n		return fmt.Errorf("expected %d params; found %d", len(to), len(from))\n	}\n	for i := range from','	for i := range to')),
b('code0',(T,'		res.Error.Code = -32601\n','')),
b('keep_result',(T,'		res.Result = nil\n','		res.Result, _ = json.Marshal(ret)\n')),
b('id',(T,'	res.ID = req.ID\n','	if res.ID == 0 {\n		res.ID = 1\n	}\n')),
b('swallow_blk',(T,'''		if err := marshal(params, &b, &all); err != nil {
			return nil, err
		}
''','''		if err := marshal(params, &b, &all); err != nil && (len(params) != 2 || b == 0) {
			return nil, err
		}
''')),
b('swallow_rx',(T,'''		if err := marshal(params, &h); err != nil {
			return nil, err
		}
		return c.receipt(h)''','''		marshal(params, &h)
		return c.receipt(h)''')),
b('syncing',(T,'''	case "eth_syncing":
		if err := marshal(params); err != nil {
			return nil, err
		}
''','''	case "eth_syncing":
''')),
b('default_null',(T,'		return nil, errors.New(method + ": unsupported method")\n','		if strings.HasPrefix(method, "net_") {\n			return nil, nil\n		}\n		return nil, errors.New(method + ": unsupported method")\n'),(T,'	"strconv"\n','	"strconv"\n	"strings"\n')),
b('maxint',(T,'			if u > math.MaxInt64 {\n','			if u > math.MaxUint64-1 {\n')),
b('bn_err',(T,'			if err := u.UnmarshalJSON(buf); err != nil {\n				return err\n			}\n','			u.UnmarshalJSON(buf)\n')),
b('filt_unk',(T,'''	filt, ok := c.filters[fd]
	if !ok {
		return nil, fmt.Errorf("bad filter id %d", fd)
	}

	out := make([]seth.Log, 0)
	for''','''	filt, ok := c.filters[fd]
	out := make([]seth.Log, 0)
	if !ok {
		return out, nil
	}

	for''')),
b('filt_range',(T,'	if from >= 0 && to >= 0 && from > to {\n','	if from >= 0 && to >= 0 && from > to+1 {\n')),
b('filt_range2',(T,'	if from >= 0 && to >= 0 && from > to {\n','	if to >= 0 && from > to {\n')if False else (T,'	if from >= 0 && to >= 0 && from > to {\n','	if from > to {\n')),
b('unknown_block',(T,'''	c = c.atBlock(block)
	if c == nil {
		return nil, fmt''','''	c = c.atBlock(block)
	if c == nil && block < 1<<32 {
		return nil, fmt''')),
b('h_noclose',(T,'	defer r.Body.Close()\n','')),
b('h_ok',(T,'		log.Printf("decode body error: %s", err)\n		w.WriteHeader(401)\n','		log.Printf("decode body error: %s", err)\n		w.WriteHeader(200)\n')),
b('h_exec',(T,'		log.Printf("decode body error: %s", err)\n		w.WriteHeader(401)\n		return\n','		log.Printf("decode body error: %s", err)\n		w.WriteHeader(401)\n')),
b('h_encode',(T,'''	err = json.NewEncoder(w).Encode(&res)
	if err != nil {''','''	json.NewEncoder(w).Encode(&res)
	if err != nil {''')),
b('h_execerr',(T,'''		log.Printf("execute error: %s", err)
		w.WriteHeader(500)
		return
''','''		log.Printf("execute error: %s", err)
''')),
b('h_wrongval',(T,'	err = json.NewEncoder(w).Encode(&res)\n','	err = json.NewEncoder(w).Encode(&jsr)\n')),
b('tx_gas',(T,'Value:    c.Value,','Value:    c.GasPrice,')),
s('s_h_helper',(T,'''	if err != nil {
		log.Printf("decode body error: %s", err)
		w.WriteHeader(401)
		return
	}
''','''	fail := func(code int, f string) {
		log.Printf(f, err)
		w.WriteHeader(code)
	}
	if err != nil {
		fail(400, "decode: %s")
		return
	}
''')),
s('s_h_readall',(T,'	err := json.NewDecoder(r.Body).Decode(&jsr)\n	if err != nil {','	body, err := ioutil.ReadAll(r.Body)\n	if err == nil {\n		err = json.Unmarshal(body, &jsr)\n	}\n	if err != nil {'),(T,'import (\n','import (\n	"io/ioutil"\n')),
s('s_h_marshal',(T,'	err = json.NewEncoder(w).Encode(&res)\n','	buf, err := json.Marshal(&res)\n	if err == nil {\n		_, err = w.Write(buf)\n	}\n')),
s('s_code',(T,'		res.Error.Code = -32601\n','		res.Error.Code = -32602\n')),
s('s_marshal',(T,'''	for i := range from {
		if err := gross(from[i], to[i]); err != nil {
			return fmt.Errorf("param %d: %s", i, err)
		}
	}
	return nil
''','''	var err error
	for i := 0; i < len(to) && err == nil; i++ {
		err = json.Unmarshal(from[i], to[i])
	}
	return err
''')),
s('s_exec',(T,'	ret, err := c.locked(req.Method, req.Params)\n	if err != nil {','	c.mu.Lock()\n	ret, err := func() (interface{}, error) {\n		defer c.mu.Unlock()\n		return c.execute(req.Method, req.Params)\n	}()\n	if err != nil {')),
s('s_map',(T,'''	case "eth_getTransactionReceipt":
		var h seth.Hash
		if err := marshal(params, &h); err != nil {
			return nil, err
		}
		return c.receipt(h)
	case "eth_getTransactionByHash":
		var h seth.Hash
		if err := marshal(params, &h); err != nil {
			return nil, err
		}
		return c.transaction(h)
''','''	case "eth_getTransactionReceipt", "eth_getTransactionByHash":
		var h seth.Hash
		if err := marshal(params, &h); err != nil {
			return nil, err
		}
		if method == "eth_getTransactionByHash" {
			return c.transaction(h)
		}
		return c.receipt(h)
''')),
]
