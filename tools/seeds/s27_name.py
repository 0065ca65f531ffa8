PROP='C27'; PKG='.'
NEEDS='a source that is renamed and compiled again with the same text'
BREAKS='the bundle of the old name is returned, with the old file name in it'
EDITS=[('compile.go', '\tbase := short(h0) + "-" + short(h1) + ".bundle"', '\tbase := short(h1) + ".bundle"')]
TEST=r'''package seth

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// a compiler that answers with the file out, and counts its runs
func fakeSolc(t *testing.T, dir, tail string) func(out string) int {
	script := "#!/bin/sh\ncat > " + dir + "/in\necho >> " + dir + "/runs\ncat " + dir + "/out\n" + tail + "\n"
	if err := ioutil.WriteFile(filepath.Join(dir, "solc"), []byte(script), 0755); err != nil {
		t.Fatal(err)
	}
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	os.Setenv("TMPDIR", filepath.Join(dir, "tmp"))
	os.Mkdir(filepath.Join(dir, "tmp"), 0755)
	return func(out string) int {
		ioutil.WriteFile(filepath.Join(dir, "out"), []byte(out), 0644)
		b, _ := ioutil.ReadFile(filepath.Join(dir, "runs"))
		return strings.Count(string(b), "\n")
	}
}

func scratch(t *testing.T) string {
	dir, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

func TestSeed(t *testing.T) {
	dir := scratch(t)
	fake := fakeSolc(t, dir, "")
	one := `{"contracts":{"a.sol":{"A":{"abi":[],"evm":{"bytecode":{"object":"6001","sourceMap":"0:1:0"}}}}},"sources":{"a.sol":{"id":0}},"errors":[{"type":"Warning","formattedMessage":"beware"}]}`
	fake(one)
	if b, err := Compile([]Source{{"a.sol", "contract A {}"}}); err != nil || b.Filenames[0] != "a.sol" {
		t.Fatal(err)
	}
	fake(strings.Replace(one, "a.sol", "b.sol", -1))
	if b, err := Compile([]Source{{"b.sol", "contract A {}"}}); err != nil || b.Filenames[0] != "b.sol" {
		t.Fatal(err, b)
	}
}
'''
