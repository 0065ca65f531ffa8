import os,importlib.util
_s=importlib.util.spec_from_file_location('c','/verif/tools/seeds/s35_cursor.py');_m=importlib.util.module_from_spec(_s);_s.loader.exec_module(_m)
PROP='C35'; PKG='./tevm'
NEEDS='a filter with a wildcard topic before a named one, and a log that differs in the named one'
BREAKS='the topics after a wildcard are not compared'
EDITS=[('tevm/evm.go','''		if f.topics[i] == nil {
			continue
		}
''','''		if f.topics[i] == nil {
			break
		}
''')]
TEST=_m.COMMON+'''
func TestSeed(t *testing.T) {
	c := newSeedChain(t)
	c.emit(1, 2, 3)
	c.emit(1, 2, 4)
	c.emit(1)
	var id int
	c.ask("eth_newFilter", map[string]interface{}{"fromBlock": "0x0", "toBlock": "latest", "topics": []interface{}{topicHash(1), nil, topicHash(4)}}, &id)
	var logs []seth.Log
	c.ask("eth_getFilterLogs", id, &logs)
	if len(logs) != 1 || len(logs[0].Topics) != 3 || logs[0].Topics[2][31] != 4 {
		t.Fatal(logs)
	}
}
'''
