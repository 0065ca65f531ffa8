import importlib.util as _u
_s=_u.spec_from_file_location('x','/verif/tools/seeds/s15_zero.py'); _m=_u.module_from_spec(_s); _s.loader.exec_module(_m)
PROP='C15'; PKG='.'
NEEDS='a signer and a call that names an account other than the sender\'s'
BREAKS='a transaction for one account is signed by another and sent'
EDITS=[('sender.go','''		if *from != *opts.From {
''','''		if *from != *opts.From && *from != *s.Addr {
''')]
TEST=_m.COMMON+'''
func TestSeed(t *testing.T) {
	k := GenPrivateKey()
	n := &seedNode{}
	s := NewSender(NewClientTransport(n), k.Address())
	s.Signer = k.Signer()
	if _, err := s.Call(&CallOpts{From: GenPrivateKey().Address()}); err == nil || len(n.sent) != 0 {
		t.Fatal("sent with the signature of another account")
	}
	if _, err := s.Call(&CallOpts{From: k.Address()}); err != nil {
		t.Fatal(err)
	}
}
'''
