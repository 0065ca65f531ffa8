PROP='C28'; PKG='.'
NEEDS='a compilation that fails with an error after a warning'
BREAKS='the error is passed over and a bundle without code is returned'
EDITS=[('compile.go', '\tfor i := range errors {\n\t\tif errors[i].Type != "Warning" {\n\t\t\treturn &errors[i]\n\t\t}\n\t}\n\treturn nil', '\tfor i := range errors {\n\t\tif errors[i].Type == "Warning" {\n\t\t\treturn nil\n\t\t}\n\t\treturn &errors[i]\n\t}\n\treturn nil')]
TEST=r'''package seth

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// a compiler that answers with the file out, and counts its runs
func fakeSolc(t *testing.T, dir, tail string) func(out string) int {
	script := "#!/bin/sh\ncat > " + dir + "/in\necho >> " + dir + "/runs\ncat " + dir + "/out\n" + tail + "\n"
	if err := ioutil.WriteFile(filepath.Join(dir, "solc"), []byte(script), 0755); err != nil {
		t.Fatal(err)
	}
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	os.Setenv("TMPDIR", filepath.Join(dir, "tmp"))
	os.Mkdir(filepath.Join(dir, "tmp"), 0755)
	return func(out string) int {
		ioutil.WriteFile(filepath.Join(dir, "out"), []byte(out), 0644)
		b, _ := ioutil.ReadFile(filepath.Join(dir, "runs"))
		return strings.Count(string(b), "\n")
	}
}

func scratch(t *testing.T) string {
	dir, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

func TestSeed(t *testing.T) {
	fake := fakeSolc(t, scratch(t), "")
	fake(`{"contracts":{},"sources":{},"errors":[{"type":"Warning","formattedMessage":"w"},{"type":"TypeError","formattedMessage":"e"}]}`)
	if b, err := CompileString("contract A {}"); err == nil {
		t.Fatal("no error", b)
	}
}
'''
