import importlib.util
_s=importlib.util.spec_from_file_location('c','/verif/tools/seeds/s23_block.py');_m=importlib.util.module_from_spec(_s);_s.loader.exec_module(_m)
PROP='C23'; PKG='./tevm'
NEEDS='a slot of the remote chain that is cleared on the fork and read again'
BREAKS='a storage word deleted on a fork comes back with its value in the remote chain'
EDITS=[('tevm/evm.go','''	if s.Fallback.Client == nil && value == zerohash {
''','''	if value == zerohash {
''')]
TEST=_m.COMMON+'''
func TestSeed(t *testing.T) {
	c := seedFork(t)
	db := c.State.StateDB()
	db.SetState(seedAddr, common.Hash{3}, common.Hash{9})
	db.SetState(seedAddr, common.Hash{3}, common.Hash{})
	if v := db.GetState(seedAddr, common.Hash{3}); v != (common.Hash{}) {
		t.Fatal(v)
	}
}
'''
