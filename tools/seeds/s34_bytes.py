PROP='C34'; PKG='./bindgen'
NEEDS='a contract with a function that gives bytes of any length'
BREAKS='the generated method returns only the head of the answer, the place of the bytes in it'
EDITS=[('bindgen/main.go', '\tcase "bytes":\n\t\treturn "[]byte"\n', '\tcase "byte":\n\t\treturn "[]byte"\n')]
TEST=r'''package main

import (
	"bytes"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
	"testing"

	"github.com/philhofer/seth"
)

// methods gives the signatures of the methods generated, checked against
// the package
func methods(t *testing.T, c *seth.CompiledContract) map[string]*types.Signature {
	var buf bytes.Buffer
	buf.WriteString("package x\nimport \"github.com/philhofer/seth\"\n")
	generate(&buf, c)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", buf.String(), 0)
	if err != nil {
		t.Fatal(err)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	p, err := conf.Check("x", fset, []*ast.File{f}, nil)
	if err != nil {
		t.Fatal(err)
	}
	out := map[string]*types.Signature{}
	ms := types.NewMethodSet(types.NewPointer(p.Scope().Lookup(c.Name).Type()))
	for i := 0; i < ms.Len(); i++ {
		out[ms.At(i).Obj().Name()] = ms.At(i).Type().(*types.Signature)
	}
	return out
}

func params(ts ...string) (out []seth.ABIParam) {
	for _, t := range ts {
		out = append(out, seth.ABIParam{Type: t})
	}
	return
}

func result(t *testing.T, typ string) string {
	m := methods(t, &seth.CompiledContract{Name: "C", ABI: []seth.ABIDescriptor{{Type: "function", Name: "get", Constant: true, Outputs: params(typ)}}})
	if m["Get"] == nil {
		t.Fatal(m)
	}
	return m["Get"].Results().At(0).Type().String()
}

var _ = strings.TrimPrefix

func TestSeed(t *testing.T) {
	if r := result(t, "bytes"); r != "[]byte" && r != "[]uint8" && !strings.HasSuffix(r, "seth.Bytes") {
		t.Fatal("bytes are returned as", r)
	}
	if r := result(t, "bytes32"); !strings.HasSuffix(r, "seth.Data") {
		t.Fatal("bytes32 are returned as", r)
	}
}
'''
