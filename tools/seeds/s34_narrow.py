PROP='C34'; PKG='./bindgen'
NEEDS='a contract with a function that gives a signed integer below zero or an unsigned one in the upper half'
BREAKS='the generated method returns it in an unsigned type of the same width: -1 becomes the largest number'
EDITS=[('bindgen/main.go', '"uint8", "uint16", "uint32", "uint64":\n\t\treturn a', '"uint8", "uint16", "uint32", "uint64":\n\t\tif strings.HasPrefix(a, "int") {\n\t\t\treturn "u" + a\n\t\t}\n\t\treturn a')]
TEST=r'''package main

import (
	"bytes"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
	"testing"

	"github.com/philhofer/seth"
)

// methods gives the signatures of the methods generated, checked against
// the package
func methods(t *testing.T, c *seth.CompiledContract) map[string]*types.Signature {
	var buf bytes.Buffer
	buf.WriteString("package x\nimport \"github.com/philhofer/seth\"\n")
	generate(&buf, c)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", buf.String(), 0)
	if err != nil {
		t.Fatal(err)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	p, err := conf.Check("x", fset, []*ast.File{f}, nil)
	if err != nil {
		t.Fatal(err)
	}
	out := map[string]*types.Signature{}
	ms := types.NewMethodSet(types.NewPointer(p.Scope().Lookup(c.Name).Type()))
	for i := 0; i < ms.Len(); i++ {
		out[ms.At(i).Obj().Name()] = ms.At(i).Type().(*types.Signature)
	}
	return out
}

func params(ts ...string) (out []seth.ABIParam) {
	for _, t := range ts {
		out = append(out, seth.ABIParam{Type: t})
	}
	return
}

func result(t *testing.T, typ string) string {
	m := methods(t, &seth.CompiledContract{Name: "C", ABI: []seth.ABIDescriptor{{Type: "function", Name: "get", Constant: true, Outputs: params(typ)}}})
	if m["Get"] == nil {
		t.Fatal(m)
	}
	return m["Get"].Results().At(0).Type().String()
}

var _ = strings.TrimPrefix

func TestSeed(t *testing.T) {
	for _, typ := range []string{"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "string"} {
		if r := result(t, typ); r != typ {
			t.Error(typ, "is returned as", r)
		}
	}
}
'''
