package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
)

// normFile parses a file and, in the package that applies patches, replaces
// loops that copy a range element by element with the append of the range they
// are equivalent to, so that both spellings are judged by the same rules.
func normFile(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
	if err != nil || filepath.Base(filepath.Dir(name)) != filepath.Base(blamePkg) {
		return f, err
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			b.List = normList(b.List)
		case *ast.CaseClause:
			b.Body = normList(b.Body)
		case *ast.CommClause:
			b.Body = normList(b.Body)
		}
		return true
	})
	return f, nil
}

func normList(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if r := copyLoop(s); r != nil {
			out = append(out, r...)
		} else {
			out = append(out, s)
		}
	}
	return out
}

// pureExpr: evaluating e again gives the same value as long as nothing is assigned.
func pureExpr(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pureExpr(e.X)
	case *ast.ParenExpr:
		return pureExpr(e.X)
	case *ast.BinaryExpr:
		return pureExpr(e.X) && pureExpr(e.Y)
	case *ast.IndexExpr:
		return pureExpr(e.X) && pureExpr(e.Index)
	case *ast.SliceExpr:
		return pureExpr(e.X) && (e.Low == nil || pureExpr(e.Low)) && (e.High == nil || pureExpr(e.High)) && e.Max == nil
	case *ast.CallExpr:
		f, ok := e.Fun.(*ast.Ident)
		return ok && f.Name == "len" && len(e.Args) == 1 && pureExpr(e.Args[0])
	}
	return false
}

func mentions(e ast.Node, name string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			found = true
		}
		return !found
	})
	return found
}

func rootIdent(e ast.Expr) string {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		default:
			return ""
		}
	}
}

// appendOf: R = append(R, E)
func appendOf(s ast.Stmt) (as *ast.AssignStmt, call *ast.CallExpr, elem ast.Expr) {
	as, ok := s.(*ast.AssignStmt)
	if !ok || as.Tok != token.ASSIGN || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
		return nil, nil, nil
	}
	call, ok = as.Rhs[0].(*ast.CallExpr)
	if !ok || len(call.Args) != 2 || call.Ellipsis.IsValid() || !pureExpr(as.Lhs[0]) {
		return nil, nil, nil
	}
	if f, ok := call.Fun.(*ast.Ident); !ok || f.Name != "append" || types.ExprString(call.Args[0]) != types.ExprString(as.Lhs[0]) || rootIdent(as.Lhs[0]) == "" {
		return nil, nil, nil
	}
	return as, call, call.Args[1]
}

func incOf(s ast.Stmt) string {
	if i, ok := s.(*ast.IncDecStmt); ok && i.Tok == token.INC {
		if id, ok := i.X.(*ast.Ident); ok {
			return id.Name
		}
	}
	return ""
}

func copyLoop(s ast.Stmt) []ast.Stmt {
	ranged := func(as *ast.AssignStmt, call *ast.CallExpr, src ast.Expr) ast.Stmt {
		c := *call
		c.Args = []ast.Expr{call.Args[0], src}
		c.Ellipsis = call.Rparen
		a := *as
		a.Rhs = []ast.Expr{&c}
		return &a
	}
	switch l := s.(type) {
	case *ast.RangeStmt:
		if len(l.Body.List) != 1 || !pureExpr(l.X) || l.Tok != token.DEFINE {
			return nil
		}
		as, call, el := appendOf(l.Body.List[0])
		if as == nil || mentions(l.X, rootIdent(as.Lhs[0])) {
			return nil
		}
		k, _ := l.Key.(*ast.Ident)
		v, _ := l.Value.(*ast.Ident)
		if id, ok := el.(*ast.Ident); ok && v != nil && id.Name == v.Name && k != nil && k.Name == "_" {
			return []ast.Stmt{ranged(as, call, l.X)}
		}
		if ix, ok := el.(*ast.IndexExpr); ok && v == nil && k != nil && types.ExprString(ix.X) == types.ExprString(l.X) {
			if id, ok := ix.Index.(*ast.Ident); ok && id.Name == k.Name {
				return []ast.Stmt{ranged(as, call, l.X)}
			}
		}
	case *ast.ForStmt:
		cond, ok := l.Cond.(*ast.BinaryExpr)
		if !ok {
			return nil
		}
		iv, _ := cond.X.(*ast.Ident)
		hi := cond.Y
		if cond.Op == token.GTR {
			iv, _ = cond.Y.(*ast.Ident)
			hi = cond.X
		} else if cond.Op != token.LSS {
			return nil
		}
		body := l.Body.List
		if iv == nil || len(body) == 0 || !pureExpr(hi) || mentions(hi, iv.Name) {
			return nil
		}
		if l.Post != nil {
			if len(body) != 1 || incOf(l.Post) != iv.Name {
				return nil
			}
		} else if len(body) != 2 || incOf(body[1]) != iv.Name {
			return nil
		}
		as, call, el := appendOf(body[0])
		if as == nil || mentions(as.Lhs[0], iv.Name) {
			return nil
		}
		ix, ok := el.(*ast.IndexExpr)
		if !ok || !pureExpr(ix.X) || mentions(ix.X, iv.Name) || mentions(ix.X, rootIdent(as.Lhs[0])) || mentions(hi, rootIdent(as.Lhs[0])) {
			return nil
		}
		if id, ok := ix.Index.(*ast.Ident); !ok || id.Name != iv.Name {
			return nil
		}
		lo := ast.Expr(iv)
		local := false
		if l.Init != nil {
			in, ok := l.Init.(*ast.AssignStmt)
			if !ok || len(in.Lhs) != 1 || len(in.Rhs) != 1 || !pureExpr(in.Rhs[0]) {
				return nil
			}
			if id, ok := in.Lhs[0].(*ast.Ident); !ok || id.Name != iv.Name || in.Tok != token.DEFINE {
				return nil
			}
			lo, local = in.Rhs[0], true
		}
		sl := &ast.SliceExpr{X: ix.X, Lbrack: ix.Lbrack, Low: lo, High: hi, Rbrack: ix.Rbrack}
		out := []ast.Stmt{ranged(as, call, sl)}
		if !local {
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{iv}, TokPos: as.TokPos, Tok: token.ASSIGN, Rhs: []ast.Expr{hi}})
		}
		return out
	}
	return nil
}
