package main

// The dictionary: constants mined from the source of the package under test at
// check time. It only steers generation (sizes, keys, bytes worth trying); no
// verdict depends on it.

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Dict struct {
	Ints  []int    // sizes and positions worth hitting (value-1, value, value+1)
	Big   []int64  // the integers as they stand
	Strs  []string // short strings of the source
	Bytes []byte
}

var dict Dict

func evalConst(e ast.Expr, env map[string]constant.Value, depth int) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	if depth > 12 {
		return nil
	}
	switch x := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return evalConst(x.X, env, depth+1)
	case *ast.Ident:
		return env[x.Name]
	case *ast.UnaryExpr:
		a := evalConst(x.X, env, depth+1)
		if a == nil {
			return nil
		}
		return constant.UnaryOp(x.Op, a, 0)
	case *ast.BinaryExpr:
		a, b := evalConst(x.X, env, depth+1), evalConst(x.Y, env, depth+1)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			n, ok := constant.Uint64Val(b)
			if !ok || n > 62 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(n))
		case token.QUO:
			if a.Kind() == constant.Int && b.Kind() == constant.Int {
				return constant.BinaryOp(a, token.QUO_ASSIGN, b)
			}
			return constant.BinaryOp(a, x.Op, b)
		case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}

func loadDict(src string) {
	fs := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(src, "*.go"))
	sort.Strings(files)
	ints := map[int]bool{}
	big := map[int64]bool{}
	strs := map[string]bool{}
	bytes := map[byte]bool{}
	addInt := func(n int64) {
		big[n] = true
		for d := int64(-1); d <= 1; d++ {
			if v := n + d; v >= 0 && v <= 70000 {
				ints[int(v)] = true
			}
		}
	}
	addStr := func(s string) {
		if len(s) > 0 && len(s) <= 40 {
			strs[s] = true
		}
		if len(s) > 1 {
			addInt(int64(len(s)))
		}
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") || filepath.Base(f) == "package_description.go" || filepath.Base(f) == "testing_utils.go" {
			continue
		}
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			continue
		}
		env := map[string]constant.Value{}
		ast.Inspect(a, func(n ast.Node) bool {
			if vs, ok := n.(*ast.ValueSpec); ok {
				for i, nm := range vs.Names {
					if i < len(vs.Values) {
						if v := evalConst(vs.Values[i], env, 0); v != nil {
							env[nm.Name] = v
						}
					}
				}
			}
			return true
		})
		ast.Inspect(a, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			v := evalConst(e, env, 0)
			if v == nil {
				return true
			}
			switch v.Kind() {
			case constant.Int:
				if x, ok := constant.Int64Val(v); ok {
					addInt(x)
					if x > 0 && x < 256 {
						bytes[byte(x)] = true
					}
				}
			case constant.Float:
				if x, ok := constant.Float64Val(v); ok && x > -1e15 && x < 1e15 {
					addInt(int64(x))
				}
			case constant.String:
				addStr(constant.StringVal(v))
			}
			return true
		})
	}
	if _, err := os.Stat(src); err != nil {
		addInt(64)
	}
	for k := range ints {
		dict.Ints = append(dict.Ints, k)
	}
	sort.Ints(dict.Ints)
	for k := range big {
		dict.Big = append(dict.Big, k)
	}
	sort.Slice(dict.Big, func(i, j int) bool { return dict.Big[i] < dict.Big[j] })
	for k := range strs {
		dict.Strs = append(dict.Strs, k)
	}
	sort.Strings(dict.Strs)
	for k := range bytes {
		dict.Bytes = append(dict.Bytes, k)
	}
	sort.Slice(dict.Bytes, func(i, j int) bool { return dict.Bytes[i] < dict.Bytes[j] })
	_ = strconv.Itoa
}
