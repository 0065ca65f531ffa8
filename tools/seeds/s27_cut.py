PROP='C27'; PKG='.'
NEEDS='a cached bundle that was cut off after the contracts, by a full disk or a process that was stopped while it wrote it'
BREAKS='the part that is left is returned as if it were what the compiler made, without the warnings'
EDITS=[('compile.go', '\tif err := b.DecodeMsg(d); err != nil {\n\t\treturn nil, false\n\t}\n\treturn b, true', '\tif err := b.DecodeMsg(d); err != nil && len(b.Contracts) == 0 {\n\t\treturn nil, false\n\t}\n\treturn b, true')]
TEST=r'''package seth

import (
	"bytes"
	"compress/gzip"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// a compiler that answers with the file out, and counts its runs
func fakeSolc(t *testing.T, dir, tail string) func(out string) int {
	script := "#!/bin/sh\ncat > " + dir + "/in\necho >> " + dir + "/runs\ncat " + dir + "/out\n" + tail + "\n"
	if err := ioutil.WriteFile(filepath.Join(dir, "solc"), []byte(script), 0755); err != nil {
		t.Fatal(err)
	}
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	os.Setenv("TMPDIR", filepath.Join(dir, "tmp"))
	os.Mkdir(filepath.Join(dir, "tmp"), 0755)
	return func(out string) int {
		ioutil.WriteFile(filepath.Join(dir, "out"), []byte(out), 0644)
		b, _ := ioutil.ReadFile(filepath.Join(dir, "runs"))
		return strings.Count(string(b), "\n")
	}
}

func scratch(t *testing.T) string {
	dir, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

func TestSeed(t *testing.T) {
	dir := scratch(t)
	fake := fakeSolc(t, dir, "")
	fake(`{"contracts":{"a.sol":{"A":{"abi":[],"evm":{"bytecode":{"object":"6001","sourceMap":"0:1:0"}}}}},"sources":{"a.sol":{"id":0}},"errors":[{"type":"Warning","formattedMessage":"beware"}]}`)
	src := []Source{{"a.sol", "contract A {}"}}
	b, err := Compile(src)
	if err != nil || len(b.Warnings) != 1 {
		t.Fatal(err, b)
	}
	all, _ := filepath.Glob(filepath.Join(dir, "tmp", "*", "*"))
	if len(all) != 1 {
		t.Fatal(all)
	}
	f, err := os.Open(all[0])
	if err != nil {
		t.Fatal(err)
	}
	r, err := gzip.NewReader(f)
	if err != nil {
		t.Fatal(err)
	}
	full, err := ioutil.ReadAll(r)
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	for n := 0; n < len(full); n++ {
		var buf bytes.Buffer
		w := gzip.NewWriter(&buf)
		w.Write(full[:n])
		w.Close()
		ioutil.WriteFile(all[0], buf.Bytes(), 0644)
		b, err = Compile(src)
		if err != nil || len(b.Contracts) != 1 || len(b.Warnings) != 1 || len(b.Contracts[0].Code) != 2 || b.Warnings[0] != "beware" {
			t.Fatal(n, err, b)
		}
	}
}
'''
