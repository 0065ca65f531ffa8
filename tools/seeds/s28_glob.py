PROP='C28'; PKG='.'
NEEDS='files in two directories that have the same name'
BREAKS='only one of the two files is compiled'
EDITS=[('compile.go', '\t\tsources[i].Filename = matches[i]', '\t\tsources[i].Filename = filepath.Base(matches[i])')]
TEST=r'''package seth

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// a compiler that answers with the file out, and counts its runs
func fakeSolc(t *testing.T, dir, tail string) func(out string) int {
	script := "#!/bin/sh\ncat > " + dir + "/in\necho >> " + dir + "/runs\ncat " + dir + "/out\n" + tail + "\n"
	if err := ioutil.WriteFile(filepath.Join(dir, "solc"), []byte(script), 0755); err != nil {
		t.Fatal(err)
	}
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	os.Setenv("TMPDIR", filepath.Join(dir, "tmp"))
	os.Mkdir(filepath.Join(dir, "tmp"), 0755)
	return func(out string) int {
		ioutil.WriteFile(filepath.Join(dir, "out"), []byte(out), 0644)
		b, _ := ioutil.ReadFile(filepath.Join(dir, "runs"))
		return strings.Count(string(b), "\n")
	}
}

func scratch(t *testing.T) string {
	dir, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

func TestSeed(t *testing.T) {
	dir := scratch(t)
	fake := fakeSolc(t, dir, "")
	fake(`{"contracts":{},"sources":{}}`)
	for _, d := range []string{"x", "y"} {
		os.Mkdir(filepath.Join(dir, d), 0755)
		ioutil.WriteFile(filepath.Join(dir, d, "a.sol"), []byte("contract In"+d+" {}"), 0644)
	}
	if _, err := CompileGlob(filepath.Join(dir, "?", "*.sol")); err != nil {
		t.Fatal(err)
	}
	in, _ := ioutil.ReadFile(filepath.Join(dir, "in"))
	if !strings.Contains(string(in), "Inx") || !strings.Contains(string(in), "Iny") {
		t.Fatal(string(in))
	}
}
'''
