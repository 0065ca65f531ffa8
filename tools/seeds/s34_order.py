PROP='C34'; PKG='./bindgen'
NEEDS='a constant function with several results'
BREAKS='the results of the generated method are decoded in the wrong order'
EDITS=[('bindgen/main.go', '\t\t\t\tretargs = append(retargs, fmt.Sprintf("&ret%d", i))', '\t\t\t\tretargs = append([]string{fmt.Sprintf("&ret%d", i)}, retargs...)')]
TEST=r'''package main

import (
	"bytes"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
	"testing"

	"github.com/philhofer/seth"
)

// methods gives the signatures of the methods generated, checked against
// the package
func methods(t *testing.T, c *seth.CompiledContract) map[string]*types.Signature {
	var buf bytes.Buffer
	buf.WriteString("package x\nimport \"github.com/philhofer/seth\"\n")
	generate(&buf, c)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", buf.String(), 0)
	if err != nil {
		t.Fatal(err)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	p, err := conf.Check("x", fset, []*ast.File{f}, nil)
	if err != nil {
		t.Fatal(err)
	}
	out := map[string]*types.Signature{}
	ms := types.NewMethodSet(types.NewPointer(p.Scope().Lookup(c.Name).Type()))
	for i := 0; i < ms.Len(); i++ {
		out[ms.At(i).Obj().Name()] = ms.At(i).Type().(*types.Signature)
	}
	return out
}

func params(ts ...string) (out []seth.ABIParam) {
	for _, t := range ts {
		out = append(out, seth.ABIParam{Type: t})
	}
	return
}

func result(t *testing.T, typ string) string {
	m := methods(t, &seth.CompiledContract{Name: "C", ABI: []seth.ABIDescriptor{{Type: "function", Name: "get", Constant: true, Outputs: params(typ)}}})
	if m["Get"] == nil {
		t.Fatal(m)
	}
	return m["Get"].Results().At(0).Type().String()
}

var _ = strings.TrimPrefix

func TestSeed(t *testing.T) {
	c := &seth.CompiledContract{Name: "C", ABI: []seth.ABIDescriptor{{Type: "function", Name: "get", Constant: true, Outputs: params("uint256", "address")}}}
	m := methods(t, c)["Get"]
	var buf bytes.Buffer
	buf.WriteString("package x\n")
	generate(&buf, c)
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", buf.String(), 0)
	if err != nil {
		t.Fatal(err)
	}
	// the places where results go, in the order they are decoded
	var order []string
	ast.Inspect(f, func(n ast.Node) bool {
		if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.AND {
			if id, ok := u.X.(*ast.Ident); ok {
				order = append(order, id.Name)
			}
		}
		return true
	})
	for i := range order {
		if order[i] != m.Results().At(i).Name() {
			t.Fatal(order, m)
		}
	}
}
'''
