// Command mutate writes simple mutants of Go files, for measuring the checks.
//
// usage: mutate -out DIR FILE...
//
// Each mutant is a directory DIR/<n> with overlay.json (for go build -overlay),
// the changed file and a line saying what was changed (what.txt).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"},
	token.LEQ: {"<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
}

func main() {
	out := flag.String("out", "", "output directory")
	flag.Parse()
	n := 0
	for _, name := range flag.Args() {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		abs, _ := filepath.Abs(name)
		for _, e := range edits(name, src) {
			n++
			dir := filepath.Join(*out, fmt.Sprintf("%04d", n))
			os.MkdirAll(dir, 0755)
			mutant := string(src[:e.from]) + e.text + string(src[e.to:])
			file := filepath.Join(dir, filepath.Base(name))
			os.WriteFile(file, []byte(mutant), 0644)
			b, _ := json.Marshal(map[string]map[string]string{"Replace": {abs: file}})
			os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0644)
			line := 1 + strings.Count(string(src[:e.from]), "\n")
			os.WriteFile(filepath.Join(dir, "what.txt"), []byte(fmt.Sprintf("%s:%d: %s\n", name, line, e.what)), 0644)
		}
	}
	fmt.Println(n, "mutants")
}

func edits(name string, src []byte) []edit {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var es []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70] + "…"
		}
		return s
	}
	replace := func(n ast.Node, t, op string) {
		es = append(es, edit{off(n.Pos()), off(n.End()), t, op + ": " + short(text(n)) + "  ->  " + short(t)})
	}
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for _, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
				replace(s, "", "delete")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					t := ""
					for _, r := range s.Rhs {
						if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
							t += "_ = " + id.Name + ";"
						}
					}
					replace(s, t, "delete")
				}
			case *ast.BranchStmt:
				switch s.Tok {
				case token.CONTINUE:
					replace(s, "", "delete")
				case token.BREAK:
					replace(s, "", "delete")
				}
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
				replace(s, "", "delete")
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					replace(s, "", "delete")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swaps[n.Op] {
				p := off(n.OpPos)
				es = append(es, edit{p, p + len(n.Op.String()), t, "operator: " + short(text(n)) + "  with " + t})
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				replace(n, text(n.X), "left only")
				replace(n, text(n.Y), "right only")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				replace(n, text(n.X), "negate")
			}
		case *ast.IfStmt:
			if n.Cond != nil {
				replace(n.Cond, "!("+text(n.Cond)+")", "negate")
				replace(n.Cond, "(true || ("+text(n.Cond)+"))", "always")
				replace(n.Cond, "(false && ("+text(n.Cond)+"))", "never")
			}
			if n.Else != nil {
				replace(n.Else, "{}", "no else")
			}
		case *ast.ForStmt:
			if n.Cond != nil {
				replace(n.Cond, "(false && ("+text(n.Cond)+"))", "never")
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				v, err := strconv.ParseInt(n.Value, 0, 64)
				if err == nil {
					replace(n, fmt.Sprint(v+1), "constant")
					if v > 0 {
						replace(n, fmt.Sprint(v-1), "constant")
					}
				}
			case token.STRING:
				if len(n.Value) > 2 {
					replace(n, `"zzz"`, "constant")
				} else {
					replace(n, `"z"`, "constant")
				}
			case token.CHAR:
				replace(n, `'\x01'`, "constant")
			}
		case *ast.Ident:
			switch n.Name {
			case "true":
				replace(n, "false", "constant")
			case "false":
				replace(n, "true", "constant")
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
			if len(n.List) > 1 {
				for i, x := range n.List {
					var keep []string
					for j, y := range n.List {
						if i != j {
							keep = append(keep, text(y))
						}
					}
					es = append(es, edit{off(n.List[0].Pos()), off(n.List[len(n.List)-1].End()), strings.Join(keep, ", "), "drop case " + text(x)})
				}
			}
			if n.Body != nil && n.List != nil {
				es = append(es, edit{off(n.Case), off(n.End()), "", "drop clause " + short(text(n))})
			}
		case *ast.CompositeLit:
			if len(n.Elts) > 1 {
				for i, x := range n.Elts {
					end := off(x.End())
					if i+1 < len(n.Elts) {
						end = off(n.Elts[i+1].Pos())
					} else {
						for src[end] == ',' {
							end++
						}
					}
					es = append(es, edit{off(x.Pos()), end, "", "drop element " + short(text(x))})
				}
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
				replace(n, text(n.Args[0]), "no append")
			}
		case *ast.SliceExpr:
			if n.Low != nil || n.High != nil {
				replace(n, text(n.X), "no slice")
			}
		}
		return true
	})
	return es
}
