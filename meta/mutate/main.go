// Command mutate lists small mutations of a Go file, one JSON object per line.
// Author's tool for looking for gaps in the checks; no check uses it.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	Off, End int
	New      string `json:"new"`
	Kind     string `json:"kind"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, s, kind string) {
			_ = enc.Encode(mut{f, fset.Position(a).Line, off(a), off(b), s, kind})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.GenDecl:
				if v.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swap[v.Op] {
					emit(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), s, "op "+v.Op.String())
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					if k, err := strconv.ParseInt(v.Value, 0, 64); err == nil {
						emit(v.Pos(), v.End(), strconv.FormatInt(k+1, 10), "int+1")
						if k > 0 {
							emit(v.Pos(), v.End(), strconv.FormatInt(k-1, 10), "int-1")
						}
					}
				}
			case *ast.IfStmt:
				c := string(src[off(v.Cond.Pos()):off(v.Cond.End())])
				emit(v.Cond.Pos(), v.Cond.End(), "false && ("+c+")", "if false")
				emit(v.Cond.Pos(), v.Cond.End(), "true || ("+c+")", "if true")
			case *ast.BlockStmt:
				del(v.List, emit)
			case *ast.CaseClause:
				del(v.Body, emit)
			}
			return true
		})
	}
}

func del(l []ast.Stmt, emit func(a, b token.Pos, s, kind string)) {
	for _, s := range l {
		switch v := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt:
			emit(s.Pos(), s.End(), "", "delete")
		case *ast.AssignStmt:
			if v.Tok != token.DEFINE {
				emit(s.Pos(), s.End(), "", "delete")
			}
		case *ast.BranchStmt:
			emit(s.Pos(), s.End(), "", "delete "+v.Tok.String())
		case *ast.DeferStmt:
			emit(s.Pos(), s.End(), "", "delete defer")
		}
	}
}
