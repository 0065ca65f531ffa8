PROP='C27'; PKG='.'
NEEDS='a compiler that prints a whole answer and then fails, and the same sources again'
BREAKS='what a failed run printed is kept and returned the second time'
EDITS=[('compile.go', '\tb, err := compile(sources)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\twriteCache(cn, b)\n\treturn b, nil', '\tb, err := compile(sources)\n\tif b != nil {\n\t\twriteCache(cn, b)\n\t}\n\treturn b, err'), ('compile.go', '\tif err := cmd.Wait(); err != nil {\n\t\treturn nil, fmt.Errorf("solc: %s", err)\n\t}\n\tif err := compileError', '\tif err := cmd.Wait(); err != nil {\n\t\t// what it printed may help to find out why\n\t\tb, _ := jsout.toBundle()\n\t\treturn b, fmt.Errorf("solc: %s", err)\n\t}\n\tif err := compileError')]
TEST=r'''package seth

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// a compiler that answers with the file out, and counts its runs
func fakeSolc(t *testing.T, dir, tail string) func(out string) int {
	script := "#!/bin/sh\ncat > " + dir + "/in\necho >> " + dir + "/runs\ncat " + dir + "/out\n" + tail + "\n"
	if err := ioutil.WriteFile(filepath.Join(dir, "solc"), []byte(script), 0755); err != nil {
		t.Fatal(err)
	}
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	os.Setenv("TMPDIR", filepath.Join(dir, "tmp"))
	os.Mkdir(filepath.Join(dir, "tmp"), 0755)
	return func(out string) int {
		ioutil.WriteFile(filepath.Join(dir, "out"), []byte(out), 0644)
		b, _ := ioutil.ReadFile(filepath.Join(dir, "runs"))
		return strings.Count(string(b), "\n")
	}
}

func scratch(t *testing.T) string {
	dir, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

func TestSeed(t *testing.T) {
	dir := scratch(t)
	fake := fakeSolc(t, dir, "exit 3")
	fake(`{"contracts":{"a.sol":{"A":{"abi":[],"evm":{"bytecode":{"object":"6001","sourceMap":"0:1:0"}}}}},"sources":{"a.sol":{"id":0}},"errors":[{"type":"Warning","formattedMessage":"beware"}]}`)
	for i := 0; i < 2; i++ {
		if _, err := Compile([]Source{{"a.sol", "contract A {}"}}); err == nil {
			t.Fatal(i, "no error")
		}
	}
}
'''
