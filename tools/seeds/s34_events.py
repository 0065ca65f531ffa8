PROP='C34'; PKG='./bindgen'
NEEDS='a contract whose ABI has a default function or an error declaration beside functions and events'
BREAKS='methods are generated for entries that are no functions'
EDITS=[('bindgen/main.go', 'if d.Type != "function" {', 'if d.Type == "event" || d.Type == "constructor" {')]
TEST=r'''package main

import (
	"bytes"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
	"testing"

	"github.com/philhofer/seth"
)

// methods gives the signatures of the methods generated, checked against
// the package
func methods(t *testing.T, c *seth.CompiledContract) map[string]*types.Signature {
	var buf bytes.Buffer
	buf.WriteString("package x\nimport \"github.com/philhofer/seth\"\n")
	generate(&buf, c)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", buf.String(), 0)
	if err != nil {
		t.Fatal(err)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	p, err := conf.Check("x", fset, []*ast.File{f}, nil)
	if err != nil {
		t.Fatal(err)
	}
	out := map[string]*types.Signature{}
	ms := types.NewMethodSet(types.NewPointer(p.Scope().Lookup(c.Name).Type()))
	for i := 0; i < ms.Len(); i++ {
		out[ms.At(i).Obj().Name()] = ms.At(i).Type().(*types.Signature)
	}
	return out
}

func params(ts ...string) (out []seth.ABIParam) {
	for _, t := range ts {
		out = append(out, seth.ABIParam{Type: t})
	}
	return
}

func result(t *testing.T, typ string) string {
	m := methods(t, &seth.CompiledContract{Name: "C", ABI: []seth.ABIDescriptor{{Type: "function", Name: "get", Constant: true, Outputs: params(typ)}}})
	if m["Get"] == nil {
		t.Fatal(m)
	}
	return m["Get"].Results().At(0).Type().String()
}

var _ = strings.TrimPrefix

func TestSeed(t *testing.T) {
	m := methods(t, &seth.CompiledContract{Name: "C", ABI: []seth.ABIDescriptor{
		{Type: "error", Name: "broke", Inputs: params("uint256")},
		{Type: "event", Name: "done"},
		{Type: "constructor"},
		{Type: "function", Name: "do", Inputs: params("address")},
	}})
	if len(m) != 1 || m["Do"] == nil {
		t.Fatal(m)
	}
}
'''
