S='seth.go'; F='filter.go'
MUTS=[
('c04 plain send','bug',['C04'],[(F,'''		select {
		case f.out <- &logs[i]:
		case <-f.exit:
			return false
		}''','''		f.out <- &logs[i]''')]),
('c04 default drop','bug',['C04'],[(F,'''		case <-f.exit:
			return false
		}
	}
	return true''','''		case <-f.exit:
			return false
		default:
		}
	}
	return true''')]),
('c04 loopvar','bug',['C04'],[(F,'''	for i := range logs {
		select {
		case f.out <- &logs[i]:''','''	var l Log
	for i := range logs {
		l = logs[i]
		select {
		case f.out <- &l:''')]),
('c04 fresh copy','same',['C04'],[(F,'''	for i := range logs {
		select {
		case f.out <- &logs[i]:''','''	for i := range logs {
		l := logs[i]
		select {
		case f.out <- &l:''')]),
('c04 range value','same',['C04'],[(F,'''	for i := range logs {
		select {
		case f.out <- &logs[i]:''','''	for _, l := range logs {
		l := l
		select {
		case f.out <- &l:''')]),
('c04 copy ok','same',['C04'],[(F,'''	for i := range logs {
		select {
		case f.out <- &logs[i]:''','''	for i := 0; i < len(logs); i++ {
		p := &logs[i]
		select {
		case f.out <- p:''')]),
('c04 reverse','bug',['C04'],[(F,'''	for i := range logs {
		select {''','''	for i := len(logs) - 1; i >= 0; i-- {
		select {''')]),
('c04 continue on error','bug',['C04'],[(F,'''			logs, err := f.c.getUpdates(f.id)
			if err != nil {
				f.seterr(err)
				goto done
			}''','''			logs, err := f.c.getUpdates(f.id)
			if err != nil {
				f.seterr(err)
				continue
			}''')]),
('c04 err dropped','bug',['C04'],[(F,'''			if err != nil {
				f.seterr(err)
				goto done
			}
			if !f.send''','''			if err != nil {
				goto done
			}
			if !f.send''')]),
('c04 return w/o close','bug',['C04'],[(F,'''			if !f.send(logs) {
				goto done
			}''','''			if !f.send(logs) {
				return
			}''')]),
('c04 ignore send result','bug',['C04'],[(F,'''			if !f.send(logs) {
				goto done
			}''','''			f.send(logs)''')]),
('c04 sleep instead','bug',['C04'],[(F,'''		ticker := time.NewTicker(time.Second)
		select {
		case <-f.exit:
			ticker.Stop()
			goto done
		case <-ticker.C:
			ticker.Stop()''','''		ticker := time.NewTicker(time.Second)
		{
			<-ticker.C
			ticker.Stop()''')]),
('c04 close before err','bug',['C04'],[(F,'''	logs, err := f.c.getLogs(f.id)
	if err != nil {
		f.seterr(err)
		goto done
	}''','''	logs, err := f.c.getLogs(f.id)
	if err != nil {
		close(f.out)
		f.seterr(err)
		return
	}''')]),
('c04 close no flag','bug',['C04'],[(F,'''		f.closed = true
''','')]),
('c04 close unlocked','bug',['C04'],[(F,'''	f.lock.Lock()
	if !f.closed {
		close(f.exit)
		f.closed = true
		f.c.deleteFilter(f.id)
	}
	f.lock.Unlock()''','''	f.lock.Lock()
	closed := f.closed
	f.lock.Unlock()
	if !closed {
		close(f.exit)
		f.closed = true
		f.c.deleteFilter(f.id)
	}''')]),
('c04 close refactor','same',['C04'],[(F,'''	f.lock.Lock()
	if !f.closed {
		close(f.exit)
		f.closed = true
		f.c.deleteFilter(f.id)
	}
	f.lock.Unlock()''','''	f.lock.Lock()
	first := !f.closed
	if first {
		f.closed = true
		close(f.exit)
	}
	f.lock.Unlock()
	if first {
		f.c.deleteFilter(f.id)
	}''')]),
('c04 close refactor2','same',['C04'],[(F,'''	f.lock.Lock()
	if !f.closed {
		close(f.exit)
		f.closed = true
		f.c.deleteFilter(f.id)
	}
	f.lock.Unlock()''','''	f.lock.Lock()
	defer f.lock.Unlock()
	if f.closed {
		return
	}
	f.closed = true
	close(f.exit)
	f.c.deleteFilter(f.id)''')]),
('c04 refactor frecv','same',['C04'],[(F,'''func frecv(f *Filter) {
	logs, err := f.c.getLogs(f.id)
	if err != nil {
		f.seterr(err)
		goto done
	}
	if !f.send(logs) || !f.poll {
		goto done
	}
	for {
		ticker := time.NewTicker(time.Second)
		select {
		case <-f.exit:
			ticker.Stop()
			goto done
		case <-ticker.C:
			ticker.Stop()
			logs, err := f.c.getUpdates(f.id)
			if err != nil {
				f.seterr(err)
				goto done
			}
			if !f.send(logs) {
				goto done
			}
		}
	}
done:
	close(f.out)
}''','''func frecv(f *Filter) {
	defer close(f.out)
	logs, err := f.c.getLogs(f.id)
	if err != nil {
		f.seterr(err)
		return
	}
	if !f.send(logs) {
		return
	}
	for f.poll {
		if !f.wait() {
			return
		}
		logs, err = f.c.getUpdates(f.id)
		if err != nil {
			f.seterr(err)
			return
		}
		if !f.send(logs) {
			return
		}
	}
}

func (f *Filter) wait() bool {
	t := time.NewTimer(time.Second)
	defer t.Stop()
	select {
	case <-f.exit:
		return false
	case <-t.C:
		return true
	}
}''')]),
('c04 poll always','bug',['C04'],[(F,'''	poll := false
''','''	poll := true
''')]),
('c04 poll end','bug',['C04'],[(F,'''		poll = true
		req.FromBlock = rawlatest''','''		req.FromBlock = rawlatest'''),(F,'''		req.ToBlock = rawlatest''','''		poll = true
		req.ToBlock = rawlatest''')]),
('c04 repeated logs','bug',['C04'],[(F,'''logs, err := f.c.getUpdates(f.id)''','''logs, err := f.c.getLogs(f.id)''')]),
('c04 wrong id del','bug',['C04'],[(F,'''"eth_uninstallFilter", []json.RawMessage{itox(id)}''','''"eth_uninstallFilter", []json.RawMessage{itox(id + 1)}''')]),
('c05 advance on err','bug',['C05'],[(S,'''				time.Sleep(1 * time.Second)
				continue''','''				time.Sleep(1 * time.Second)
				block++
				continue''')]),
('c05 advance on known err','bug',['C05'],[(S,'''					log.Printf("error getting block %d: %s", block, err)
''','''					log.Printf("error getting block %d: %s", block, err)
					block++
''')]),
('c05 plain send','bug',['C05'],[(S,'''			select {
			case b.out <- v:
				block++
			case <-b.done:
			}''','''			b.out <- v
			block++''')]),
('c05 inc outside','bug',['C05'],[(S,'''			case b.out <- v:
				block++
			case <-b.done:
			}''','''			case b.out <- v:
			case <-b.done:
			}
			block++''')]),
('c05 inc outside dead','same',['C05'],[(S,'''			select {
			case b.out <- v:
				block++
			case <-b.done:
			}''','''			select {
			case b.out <- v:
			case <-b.done:
				close(b.out)
				return
			}
			block++''')]),
('c05 no close','bug',['C05'],[(S,'''		case <-b.done:
			close(b.out)
			return''','''		case <-b.done:
			return''')]),
('c05 select again','same',['C05'],[(S,'''	for {
		select {
		case <-b.done:
			close(b.out)
			return
		default:
			v, err := b.c.GetBlock(block, txs)
			if err != nil {
				if err != ErrNotFound {
					log.Printf("error getting block %d: %s", block, err)
				}
				time.Sleep(1 * time.Second)
				continue
			}
			select {
			case b.out <- v:
				block++
			case <-b.done:
			}
		}
	}''','''	defer close(b.out)
	for ; b.next(block, txs); block++ {
	}'''),(S,'''// Next returns the next block in the''','''// next delivers one block, unless the iterator is stopped
func (b *BlockIterator) next(block int64, txs bool) bool {
	for {
		select {
		case <-b.done:
			return false
		default:
		}
		v, err := b.c.GetBlock(block, txs)
		if err == nil {
			select {
			case b.out <- v:
				return true
			case <-b.done:
				return false
			}
		}
		if err != ErrNotFound {
			log.Printf("error getting block %d: %s", block, err)
		}
		time.Sleep(1 * time.Second)
	}
}

// Next returns the next block in the''')]),
('c05 start off','bug',['C05'],[(S,'''	go b.getLoop(from, txs)''','''	go b.getLoop(from+1, txs)''')]),
('c05 latest','bug',['C05'],[(S,'''v, err := b.c.GetBlock(block, txs)''','''v, err := b.c.Latest(txs)''')]),
('c05 timer select','same',['C05'],[(S,'''				time.Sleep(1 * time.Second)
				continue''','''				select {
				case <-b.done:
				case <-time.After(time.Second):
				}
				continue''')]),
]
