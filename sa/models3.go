package main

// String functions of constants.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// foldStrings evaluates a function of the strings or strconv package
// whose arguments are all constants
func (x *Exec) foldStrings(name string) model {
	f, ok := folds[name]
	if !ok {
		return nil
	}
	return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
		var vs []constant.Value
		for _, t := range a {
			if s, ok := constString(t); ok {
				vs = append(vs, constant.MakeString(s))
			} else if t.isConst() && t.val != nil {
				vs = append(vs, t.val)
			} else {
				return nil
			}
		}
		var out []*T
		res := fn.Signature.Results()
		for i, r := range f(vs) {
			t := res.At(i).Type()
			switch r := r.(type) {
			case string:
				out = append(out, constStr(r))
			case bool:
				out = append(out, mkConst(constant.MakeBool(r), t))
			case int:
				out = append(out, mkConst(constant.MakeInt64(int64(r)), t))
			case int64:
				out = append(out, mkConst(constant.MakeInt64(r), t))
			case uint64:
				out = append(out, mkConst(constant.MakeUint64(r), t))
			case []string:
				var el []*T
				for _, s := range r {
					el = append(el, constStr(s))
				}
				out = append(out, x.newBytes(st, cVec(el...), types.NewSlice(strT())))
			case error:
				out = append(out, x.err(name, a...))
			case nil:
				out = append(out, mkNil())
			}
		}
		return one(st, out...)
	}
}

func constString(t *T) (string, bool) {
	if s, ok := t.str(); ok {
		return s, true
	}
	if t.op == "string" || isStringT(t.typ) {
		c := strContent(t)
		n, ok := cLen(c).i64()
		if !ok || n > 1<<12 {
			return "", false
		}
		b := make([]byte, n)
		for i := range b {
			v, ok := cSel(c, mkInt(int64(i)), byteT).i64()
			if !ok {
				return "", false
			}
			b[i] = byte(v)
		}
		return string(b), true
	}
	return "", false
}

type fold func(a []constant.Value) []interface{}

var folds = func() map[string]fold {
	s := constant.StringVal
	n := func(v constant.Value) int { i, _ := constant.Int64Val(v); return int(i) }
	ss := func(f func(a, b string) interface{}) fold {
		return func(a []constant.Value) []interface{} { return []interface{}{f(s(a[0]), s(a[1]))} }
	}
	sn := func(f func(a string, n int) interface{}) fold {
		return func(a []constant.Value) []interface{} { return []interface{}{f(s(a[0]), n(a[1]))} }
	}
	s1 := func(f func(a string) interface{}) fold {
		return func(a []constant.Value) []interface{} { return []interface{}{f(s(a[0]))} }
	}
	return map[string]fold{
		"strconv.ParseInt": func(a []constant.Value) []interface{} {
			v, err := strconv.ParseInt(s(a[0]), n(a[1]), n(a[2]))
			return []interface{}{v, err}
		},
		"strconv.ParseUint": func(a []constant.Value) []interface{} {
			v, err := strconv.ParseUint(s(a[0]), n(a[1]), n(a[2]))
			return []interface{}{v, err}
		},
		"strings.Contains":      ss(func(a, b string) interface{} { return strings.Contains(a, b) }),
		"strings.ContainsAny":   ss(func(a, b string) interface{} { return strings.ContainsAny(a, b) }),
		"strings.ContainsRune":  sn(func(a string, n int) interface{} { return strings.ContainsRune(a, rune(n)) }),
		"strings.HasPrefix":     ss(func(a, b string) interface{} { return strings.HasPrefix(a, b) }),
		"strings.HasSuffix":     ss(func(a, b string) interface{} { return strings.HasSuffix(a, b) }),
		"strings.Index":         ss(func(a, b string) interface{} { return strings.Index(a, b) }),
		"strings.LastIndex":     ss(func(a, b string) interface{} { return strings.LastIndex(a, b) }),
		"strings.IndexAny":      ss(func(a, b string) interface{} { return strings.IndexAny(a, b) }),
		"strings.IndexByte":     sn(func(a string, n int) interface{} { return strings.IndexByte(a, byte(n)) }),
		"strings.LastIndexByte": sn(func(a string, n int) interface{} { return strings.LastIndexByte(a, byte(n)) }),
		"strings.IndexRune":     sn(func(a string, n int) interface{} { return strings.IndexRune(a, rune(n)) }),
		"strings.Count":         ss(func(a, b string) interface{} { return strings.Count(a, b) }),
		"strings.EqualFold":     ss(func(a, b string) interface{} { return strings.EqualFold(a, b) }),
		"strings.Compare":       ss(func(a, b string) interface{} { return strings.Compare(a, b) }),
		"strings.Split":         ss(func(a, b string) interface{} { return strings.Split(a, b) }),
		"strings.SplitN": func(a []constant.Value) []interface{} {
			return []interface{}{strings.SplitN(s(a[0]), s(a[1]), n(a[2]))}
		},
		"strings.Fields":     s1(func(a string) interface{} { return strings.Fields(a) }),
		"strings.TrimSpace":  s1(func(a string) interface{} { return strings.TrimSpace(a) }),
		"strings.ToLower":    s1(func(a string) interface{} { return strings.ToLower(a) }),
		"strings.ToUpper":    s1(func(a string) interface{} { return strings.ToUpper(a) }),
		"strings.Title":      s1(func(a string) interface{} { return strings.Title(a) }),
		"strings.Trim":       ss(func(a, b string) interface{} { return strings.Trim(a, b) }),
		"strings.TrimLeft":   ss(func(a, b string) interface{} { return strings.TrimLeft(a, b) }),
		"strings.TrimRight":  ss(func(a, b string) interface{} { return strings.TrimRight(a, b) }),
		"strings.TrimPrefix": ss(func(a, b string) interface{} { return strings.TrimPrefix(a, b) }),
		"strings.TrimSuffix": ss(func(a, b string) interface{} { return strings.TrimSuffix(a, b) }),
		"strings.Repeat":     sn(func(a string, n int) interface{} { return strings.Repeat(a, n) }),
		"strings.Replace": func(a []constant.Value) []interface{} {
			return []interface{}{strings.Replace(s(a[0]), s(a[1]), s(a[2]), n(a[3]))}
		},
		"strings.ReplaceAll": func(a []constant.Value) []interface{} {
			return []interface{}{strings.ReplaceAll(s(a[0]), s(a[1]), s(a[2]))}
		},
		"strings.Cut": func(a []constant.Value) []interface{} {
			b, c, ok := strings.Cut(s(a[0]), s(a[1]))
			return []interface{}{b, c, ok}
		},
		"strconv.Atoi": func(a []constant.Value) []interface{} {
			n, err := strconv.Atoi(s(a[0]))
			return []interface{}{n, err}
		},
		"strconv.Itoa": func(a []constant.Value) []interface{} { return []interface{}{strconv.Itoa(n(a[0]))} },
	}
}()
