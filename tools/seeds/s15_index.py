import importlib.util as _u
_s=_u.spec_from_file_location('x','/verif/tools/seeds/s15_zero.py'); _m=_u.module_from_spec(_s); _s.loader.exec_module(_m)
PROP='C15'; PKG='.'
NEEDS='cancelling a transaction that was mined as the first of its block'
BREAKS='a mined transaction is taken as pending and a replacement is sent'
EDITS=[('sender.go','''	} else if tx.TxIndex != nil {
		return Hash{}, ErrCannotCancel
''','''	} else if tx.TxIndex != nil && *tx.TxIndex > 0 {
		return Hash{}, ErrCannotCancel
''')]
TEST=_m.COMMON+'''
func TestSeed(t *testing.T) {
	for _, i := range []string{"0x1", "0x0"} {
		n := &seedNode{index: i}
		s := NewSender(NewClientTransport(n), new(Address))
		if _, err := s.Cancel(new(Hash)); err != ErrCannotCancel || len(n.sent) != 0 {
			t.Fatalf("a transaction mined at index %s is cancelled: %v", i, err)
		}
	}
}
'''
