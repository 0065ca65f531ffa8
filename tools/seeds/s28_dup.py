PROP='C28'; PKG='.'
NEEDS='two files with contracts of the same name'
BREAKS='one of the two contracts is not in the bundle'
EDITS=[('compile.go', '\t\tfor contract, out := range contracts {\n', '\t\tfor contract, out := range contracts {\n\t\t\tif b.Contract(contract) != nil {\n\t\t\t\tcontinue // listed already\n\t\t\t}\n')]
TEST=r'''package seth

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// a compiler that answers with the file out, and counts its runs
func fakeSolc(t *testing.T, dir, tail string) func(out string) int {
	script := "#!/bin/sh\ncat > " + dir + "/in\necho >> " + dir + "/runs\ncat " + dir + "/out\n" + tail + "\n"
	if err := ioutil.WriteFile(filepath.Join(dir, "solc"), []byte(script), 0755); err != nil {
		t.Fatal(err)
	}
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	os.Setenv("TMPDIR", filepath.Join(dir, "tmp"))
	os.Mkdir(filepath.Join(dir, "tmp"), 0755)
	return func(out string) int {
		ioutil.WriteFile(filepath.Join(dir, "out"), []byte(out), 0644)
		b, _ := ioutil.ReadFile(filepath.Join(dir, "runs"))
		return strings.Count(string(b), "\n")
	}
}

func scratch(t *testing.T) string {
	dir, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

func TestSeed(t *testing.T) {
	fake := fakeSolc(t, scratch(t), "")
	fake(`{"contracts":{"a.sol":{"A":{"abi":[],"evm":{"bytecode":{"object":"6001"}}},"L":{"abi":[],"evm":{"bytecode":{"object":"6003"}}}},"b.sol":{"L":{"abi":[],"evm":{"bytecode":{"object":"6002"}}}}},"sources":{"a.sol":{"id":0},"b.sol":{"id":1}}}`)
	b, err := Compile([]Source{{"a.sol", "contract A {} contract L {}"}, {"b.sol", "contract L {}"}})
	if err != nil || len(b.Contracts) != 3 {
		t.Fatal(err, b)
	}
}
'''
