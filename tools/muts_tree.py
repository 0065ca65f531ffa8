F='tevm/tree.go'
MUTS=[
('setleft_epoch','bug',['C19'],[(F,'''	if node.Epoch < t.Epoch {
		return t.new(node.Key, node.Value, left, node.Right)
	}
''','')]),
('setpair_epoch','bug',['C19'],[(F,'''	if node.Epoch < t.Epoch {
		return t.new(key, value, node.Left, node.Right)
	}
	node.Key''','''	node.Key''')]),
('epoch_le','bug',['C19'],[(F,'''	if node.Epoch < t.Epoch {
		return t.new(key, value''','''	if node.Epoch+1 < t.Epoch {
		return t.new(key, value''')]),
('snap_noepoch','bug',['C19'],[(F,'''	t.Epoch++
	return s
''','''	return s
''')]),
('copy_cap','bug',['C19'],[(F,'t.All[:s.Allocated:s.Allocated],','t.All[:s.Allocated],')]),
('copy_snapcap','bug',['C19'],[(F,'t.Snaps[: snap+1 : snap+1]','t.Snaps[: snap+1]')]),
('roll_cap','bug',['C19'],[(F,'''	t.All = t.All[:s.Allocated:s.Allocated]
	t.Epoch++''','''	t.All = t.All[:s.Allocated]
	t.Epoch++''')]),
('roll_noepoch','same',['C19'],[(F,'''	t.All = t.All[:s.Allocated:s.Allocated]
	t.Epoch++''','''	t.All = t.All[:s.Allocated:s.Allocated]''')]),
('copy_noepoch','same',['C19'],[(F,'''		All:   t.All[:s.Allocated:s.Allocated],
		Epoch: t.Epoch + 1,''','''		All:   t.All[:s.Allocated:s.Allocated],
		Epoch: t.Epoch,''')]),
('del_two','bug',['C19'],[(F,'t.deleteat(node.Right, min.Key))','node.Right)')]),
('del_left','bug',['C19'],[(F,'''		if node.Left == 0 {
			return node.Right
		}
		if node.Right == 0 {
			return node.Left''','''		if node.Left == 0 {
			return node.Right
		}
		if node.Right == 0 {
			return 0''')]),
('touched','bug',['C19'],[(F,'''	t.Touched = false
	return''','''	return''')]),
('iter_stop','bug',['C19'],[(F,'''	if node.Left != 0 && !t.apply(t.num(node.Left), fn) {
		return false
	}''','''	if node.Left != 0 {
		t.apply(t.num(node.Left), fn)
	}''')]),
('same_get_rec','same',['C19'],[(F,'''	i := t.Root
	for i != 0 {
		n := t.num(i)
		switch bytes.Compare(n.Key, key) {
		case 0:
			return n.Value
		case 1:
			i = n.Right
		case -1:
			i = n.Left
		default:
			panic("unreachable")
		}
	}
	return nil
''','''	return t.lookup(t.Root, key)
}

func (t *Tree) lookup(i int32, key []byte) []byte {
	if i == 0 {
		return nil
	}
	n := &t.All[i-1]
	c := bytes.Compare(n.Key, key)
	if c > 0 {
		return t.lookup(n.Right, key)
	}
	if c < 0 {
		return t.lookup(n.Left, key)
	}
	return n.Value
''')]),
('same_writable','same',['C19'],[(F,'''	if node.Epoch < t.Epoch {
		return t.new(node.Key, node.Value, left, node.Right)
	}
	node.Left = left
	return cur
''','''	i := t.writable(cur)
	t.num(i).Left = left
	return i
'''),(F,'''	if node.Epoch < t.Epoch {
		return t.new(node.Key, node.Value, node.Left, right)
	}
	node.Right = right
	return cur
}
''','''	i := t.writable(cur)
	t.num(i).Right = right
	return i
}

func (t *Tree) writable(cur int32) int32 {
	n := t.All[cur-1]
	if n.Epoch == t.Epoch {
		return cur
	}
	n.Epoch = t.Epoch
	t.All = append(t.All, n)
	return int32(len(t.All))
}
''')]),
('same_copykey','same',['C19'],[(F,'''	t.Root = t.insertat(t.Root, key, value)
''','''	k := append([]byte(nil), key...)
	v := append([]byte(nil), value...)
	t.Root = t.insertat(t.Root, k, v)
''')]),
('same_min','same',['C19'],[(F,'''		min := t.leftmost(t.num(node.Right))
		return''','''		min := t.num(node.Right)
		for min.Left != 0 {
			min = t.num(min.Left)
		}
		return''')]),
('same_eq','same',['C19'],[(F,'''		n := t.num(i)
		switch''','''		n := t.num(i)
		if bytes.Equal(key, n.Key) {
			return n.Value
		}
		switch''')]),
]
