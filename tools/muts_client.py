C='client.go'; S='seth.go'; F='filter.go'
MUTS=[
# C01
('c01 no delete','bug',['C01'],[(C,'''		if p != nil {
			delete(t.pending, res.ID)
		}
''','')]),
('c01 unlock before delete','bug',['C01'],[(C,'''		if p != nil {
			delete(t.pending, res.ID)
		}
		t.lock.Unlock()
''','''		t.lock.Unlock()
		if p != nil {
			delete(t.pending, res.ID)
		}
''')]),
('c01 abort no close notify','bug',['C01'],[(C,'''		close(p.notify)
		delete(t.pending, id)''','''		delete(t.pending, id)''')]),
('c01 abort keeps','bug',['C01'],[(C,'''	for id, p := range t.pending {
		p.err = err
		close(p.notify)
		delete(t.pending, id)''','''	for _, p := range t.pending {
		p.err = err
		close(p.notify)''')]),
('c01 abort keeps enc','bug',['C01'],[(C,'''	t.enc = nil
	t.conn.Close()
	t.conn = nil
}''','''	t.conn.Close()
	t.conn = nil
}''')]),
('c01 abort not if other','bug',['C01'],[(C,'''			if t.conn == conn {
				t.abort(err)
			}
''','''			t.abort(err)
''')]),
('c01 err nil in abort','bug',['C01','C02'],[(C,'''		p.err = err
		close(p.notify)''','''		close(p.notify)''')]),
('c01 encode error ignored','bug',['C01'],[(C,'''	if err != nil {
		t.abort(err)
	}
	t.lock.Unlock()
	<-p.notify''','''	if err != nil {
		log.Print(err)
	}
	t.lock.Unlock()
	<-p.notify''')]),
('c01 encode error delete only self','same',['C01','C02'],[(C,'''	if err != nil {
		t.abort(err)
	}
	t.lock.Unlock()
	<-p.notify''','''	if err == nil {
		t.lock.Unlock()
	} else {
		t.abort(err)
		t.lock.Unlock()
	}
	<-p.notify''')]),
('c01 register after send unlocked','bug',['C01'],[(C,'''	t.pending[req.ID] = p
	err := t.enc.Encode(req)
	if err != nil {
		t.abort(err)
	}
	t.lock.Unlock()
''','''	err := t.enc.Encode(req)
	if err != nil {
		t.abort(err)
	}
	t.lock.Unlock()
	t.lock.Lock()
	t.pending[req.ID] = p
	t.lock.Unlock()
''')]),
('c01 notify before result','bug',['C01'],[(C,'''			*p.res = res
		}
		close(p.notify)''','''			defer func() { *p.res = res }()
		}
		close(p.notify)''')]),
('c01 result after close','bug',['C01'],[(C,'''			*p.res = res
		}
		close(p.notify)''','''		}
		close(p.notify)
		*p.res = res''')]),
('c01 id constant','bug',['C01'],[(C,'int(atomic.AddUintptr(&c.nextid, 1))','int(atomic.AddUintptr(&c.nextid, 0))')]),
('c01 id nonatomic','bug',['C01'],[(C,'''	req := &RPCRequest{
''','''	atomic.AddUintptr(&c.nextid, 1)
	req := &RPCRequest{
'''),(C,'int(atomic.AddUintptr(&c.nextid, 1))','int(c.nextid)')]),
('c01 id truncated','bug',['C01'],[(C,'int(atomic.AddUintptr(&c.nextid, 1))','int(uint8(atomic.AddUintptr(&c.nextid, 1)))')]),
('c01 reconnect no reader','bug',['C01'],[(C,'''	go t.background(conn)
	return nil''','''	return nil''')]),
('c01 reader on t.conn','same',['C01'],[(C,'''	go t.background(conn)
''','''	go t.background(t.conn)
''')]),
('c01 spurious returns','bug',['C01'],[(C,'''			log.Printf("spurious response ID %d", res.ID)
			continue''','''			log.Printf("spurious response ID %d", res.ID)
			return''')]),
('c01 response hoisted','bug',['C01'],[(C,'''	for {
		var res RPCResponse
		err := dec.Decode(&res)''','''	var res RPCResponse
	for {
		err := dec.Decode(&res)''')]),
('c01 hoisted but reset','same',['C01','C02'],[(C,'''	for {
		var res RPCResponse
		err := dec.Decode(&res)''','''	var res RPCResponse
	for {
		res = RPCResponse{}
		err := dec.Decode(&res)''')]),
('c01 refactor take helper','same',['C01','C02'],[(C,'''		t.lock.Lock()
		p := t.pending[res.ID]
		if p != nil {
			delete(t.pending, res.ID)
		}
		t.lock.Unlock()
''','''		p := t.take(res.ID)
'''),(C,'func (t *RPCTransport) abort','''func (t *RPCTransport) take(id int) *pending {
	t.lock.Lock()
	defer t.lock.Unlock()
	p, ok := t.pending[id]
	if !ok {
		return nil
	}
	delete(t.pending, id)
	return p
}

func (t *RPCTransport) abort''')]),
('c01 refactor finish method','same',['C01','C02'],[(C,'''		if res.Error.Code != 0 || res.Error.Message != "" {
			c := res.Error
			p.err = &c
		} else if bytes.Equal(res.Result, rawnull) {
			p.err = ErrNotFound
		} else {
			*p.res = res
		}
		close(p.notify)
''','''		p.finish(&res)
'''),(C,'func (t *RPCTransport) abort','''func (p *pending) finish(res *RPCResponse) {
	defer close(p.notify)
	switch {
	case res.Error.Code != 0 || res.Error.Message != "":
		c := res.Error
		p.err = &c
	case string(res.Result) == "null":
		p.err = ErrNotFound
	default:
		*p.res = *res
	}
}

func (t *RPCTransport) abort''')]),
('c01 refactor execute defer','same',['C01','C02'],[(C,'''	notify := make(chan struct{}, 1)
	t.lock.Lock()
	if t.enc == nil {
		if err := t.reconnect(); err != nil {
			t.lock.Unlock()
			return err
		}
	}
	p := &pending{notify: notify, res: res}
	t.pending[req.ID] = p
	err := t.enc.Encode(req)
	if err != nil {
		t.abort(err)
	}
	t.lock.Unlock()
	<-p.notify
	return p.err
}''','''	p, err := t.send(req, res)
	if err != nil {
		return err
	}
	<-p.notify
	return p.err
}

func (t *RPCTransport) send(req *RPCRequest, res *RPCResponse) (*pending, error) {
	t.lock.Lock()
	defer t.lock.Unlock()
	if t.enc == nil {
		if err := t.reconnect(); err != nil {
			return nil, err
		}
	}
	p := &pending{notify: make(chan struct{}), res: res}
	t.pending[req.ID] = p
	if err := t.enc.Encode(req); err != nil {
		t.abort(err)
	}
	return p, nil
}''')]),
('c01 send on notify','same',['C01','C02'],[(C,'''			*p.res = res
		}
		close(p.notify)''','''			*p.res = res
		}
		p.notify <- struct{}{}''')]),
# C02
('c02 ignore message','bug',['C02'],[(C,'''	if res.Error.Code != 0 || res.Error.Message != "" {
		e := res.Error
		return &e
	} else if''','''	if res.Error.Code != 0 {
		e := res.Error
		return &e
	} else if''')]),
('c02 reader ignore message null','bug',['C02'],[(C,'''		if res.Error.Code != 0 || res.Error.Message != "" {
			c := res.Error''','''		if res.Error.Code != 0 && res.Error.Message != "" {
			c := res.Error''')]),
('c02 null ok','bug',['C02'],[(C,'''		return &e
	} else if bytes.Equal(res.Result, rawnull) {
		return ErrNotFound
	}''','''		return &e
	}''')]),
('c02 new error object','bug',['C02'],[(C,'''		e := res.Error
		return &e''','''		e := RPCError{Code: res.Error.Code, Message: res.Error.Message}
		return &e''')]),
('c02 status 2xx','bug',['C02'],[(C,'''	if hres.StatusCode != http.StatusOK {
		return errors.New("http error: " + hres.Status)
	}
	return json.NewDecoder(hres.Body).Decode(res)
}

// InfuraTransport''','''	if hres.StatusCode >= http.StatusInternalServerError {
		return errors.New("http error: " + hres.Status)
	}
	return json.NewDecoder(hres.Body).Decode(res)
}

// InfuraTransport''')]),
('c02 decode ignored','bug',['C02'],[(C,'''	return json.NewDecoder(hres.Body).Decode(res)
}

func (i Inf''','''	json.NewDecoder(hres.Body).Decode(res)
	return nil
}

func (i Inf''')]),
('c02 leak body','bug',['C02'],[(C,'''	defer hres.Body.Close()
	if hres.StatusCode != http.StatusOK {
		return errors.New("http error: " + hres.Status)
	}
	return json.NewDecoder(hres.Body).Decode(res)
}

// InfuraTransport''','''	if hres.StatusCode != http.StatusOK {
		return errors.New("http error: " + hres.Status)
	}
	defer hres.Body.Close()
	return json.NewDecoder(hres.Body).Decode(res)
}

// InfuraTransport''')]),
('c02 getblock err','bug',['C02'],[(S,'''	err := c.Do("eth_getBlockByNumber", params, &out)
	if err != nil {
		return nil, err
	}''','''	err := c.Do("eth_getBlockByNumber", params, &out)
	if err != nil && err != ErrNotFound {
		return nil, err
	}''')]),
('c02 parsetx continue','bug',['C02'],[(S,'''		if err != nil {
			return nil, err
		}
	}
	return out, nil
}

// RPCRequest''','''		if err != nil {
			continue
		}
	}
	return out, nil
}

// RPCRequest''')]),
('c02 balance drop','bug',['C02'],[(S,'''	err := c.Do("eth_getBalance", params[:], &wei)
	return wei, err''','''	if err := c.Do("eth_getBalance", params[:], &wei); err == ErrNotFound {
		return wei, nil
	} else {
		return wei, err
	}''')]),
('c02 refactor do','same',['C02','C03'],[(C,'''	if res.Error.Code != 0 || res.Error.Message != "" {
		e := res.Error
		return &e
	} else if bytes.Equal(res.Result, rawnull) {
		return ErrNotFound
	}
	return json.Unmarshal(res.Result, result)''','''	if err := res.failure(); err != nil {
		return err
	}
	return json.Unmarshal(res.Result, result)'''),(C,'// An HTTPTransport','''func (r *RPCResponse) failure() error {
	if r.Error.Code == 0 && r.Error.Message == "" {
		if string(r.Result) != "null" {
			return nil
		}
		return ErrNotFound
	}
	e := r.Error
	return &e
}

// An HTTPTransport''')]),
('c02 refactor http','same',['C02'],[(C,'''	defer hres.Body.Close()
	if hres.StatusCode != http.StatusOK {
		return errors.New("http error: " + hres.Status)
	}
	return json.NewDecoder(hres.Body).Decode(res)
}

// InfuraTransport''','''	return readResponse(hres, res)
}

func readResponse(hres *http.Response, res *RPCResponse) error {
	defer hres.Body.Close()
	if hres.StatusCode == http.StatusOK {
		if err := json.NewDecoder(hres.Body).Decode(res); err != nil {
			return err
		}
		return nil
	}
	return errors.New("http error: " + hres.Status)
}

// InfuraTransport''')]),
('c02 pointer into response','same',['C02'],[(C,'''		e := res.Error
		return &e''','''		return &res.Error''')]),
# C03
('c03 earliest','bug',['C03'],[(S,'''	case Earliest:
		return rawearliest''','''	case Earliest:
		return rawlatest''')]),
('c03 swapped storage','bug',['C03'],[('send.go','''"eth_getStorageAt"''','''"eth_getStorage"''')]),
('c03 const pend','bug',['C03'],[(S,'''	return c.GetNonceAt(addr, Latest)''','''	return c.GetNonceAt(addr, Pending)''')]),
('c03 txs flag','bug',['C03'],[(S,'''	return c.GetBlock(Latest, txs)''','''	return c.GetBlock(Latest, true)''')]),
('c03 uint32','bug',['C03'],[(S,'''	var block Uint64
	if err := c.Do("eth_blockNumber", nil, &block); err != nil {
		return 0, err
	}
	return int64(block), nil''','''	var block Uint64
	if err := c.Do("eth_blockNumber", nil, &block); err != nil {
		return 0, err
	}
	return int64(int32(block)), nil''')]),
('c03 topics swapped','bug',['C03'],[(F,'''		copy(hashes[1][12:], from[:])
		arg0[1] = &hashes[1]''','''		copy(hashes[1][12:], from[:])
		arg0[2] = &hashes[1]'''),(F,'''		copy(hashes[2][12:], to[:])
		arg0[2] = &hashes[2]''','''		copy(hashes[2][12:], to[:])
		arg0[1] = &hashes[2]''')]),
('c03 pad','bug',['C03'],[(F,'copy(hashes[2][12:], to[:])','copy(hashes[2][:], to[:])')]),
('c03 end latest','bug',['C03'],[(F,'''	if end < 0 {''','''	if end <= 0 {''')]),
('c03 itox base','bug',['C03'],[(F,'strconv.AppendInt(o, i, 16)','strconv.AppendInt(o, i, 10)')]),
('c03 refactor helper','same',['C03','C02'],[(S,'''	var params [2]json.RawMessage
	buf, _ := json.Marshal(addr)
	params[0] = buf
	params[1] = itobs(blocknum)
	wei := Int{}
	err := c.Do("eth_getBalance", params[:], &wei)
	return wei, err''','''	wei := new(Int)
	err := c.Do("eth_getBalance", at(addr, blocknum), wei)
	return *wei, err'''),(S,'''// GetBalance gets the balance of an address in wei at''','''func at(addr *Address, blocknum int64) []json.RawMessage {
	buf, _ := json.Marshal(addr)
	return []json.RawMessage{buf, itobs(blocknum)}
}

// GetBalance gets the balance of an address in wei at''')]),
('c03 refactor itobs','same',['C03','C02'],[(S,'''	switch i {
	case Pending:
		return rawpending
	case Latest:
		return rawlatest
	case Earliest:
		return rawearliest
	}
	return itox(i)''','''	if i == Latest {
		return rawlatest
	}
	if i == Pending {
		return rawpending
	} else if i != Earliest {
		return itox(i)
	}
	return json.RawMessage(`"earliest"`)''')]),
('c03 refactor itox','same',['C03','C02'],[(F,'''	o := make([]byte, 3, 64)
	o[0] = '"'
	o[1] = '0'
	o[2] = 'x'
	o = strconv.AppendInt(o, i, 16)
	return append(o, '"')''','''	return json.RawMessage(`"0x` + strconv.FormatInt(i, 16) + `"`)''')]),
('c03 refactor getblock','same',['C03','C02'],[(S,'''	params := make([]json.RawMessage, 2)
	params[0] = itobs(num)
	if txs {
		params[1] = rawtrue
	} else {
		params[1] = rawfalse
	}
	out := Block{}''','''	flag, _ := json.Marshal(txs)
	params := []json.RawMessage{itobs(num), flag}
	var out Block''')]),
('c03 refactor tokens','same',['C03','C02'],[(F,'''	if from != nil {
		copy(hashes[1][12:], from[:])
		arg0[1] = &hashes[1]
	}
	if to != nil {
		copy(hashes[2][12:], to[:])
		arg0[2] = &hashes[2]
	}''','''	for i, a := range []*Address{from, to} {
		if a == nil {
			continue
		}
		copy(hashes[i+1][12:], a[:])
		arg0[i+1] = &hashes[i+1]
	}''')]),
]
