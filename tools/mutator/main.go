// Command mutator lists small syntactic changes to Go files: one JSON object {id, file, off, end, text, desc} per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	ID, File, Desc string
	Off, End       int
	Text           string
	Line           int
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		k := 0
		emit := func(a, b token.Pos, text, desc string) {
			k++
			enc.Encode(mut{fmt.Sprintf("%s#%d", f, k), f, desc, off(a), off(b), text, fs.Position(a).Line})
		}
		short := func(s string) string {
			s = strings.Join(strings.Fields(s), " ")
			if len(s) > 90 {
				s = s[:90]
			}
			return s
		}
		var fn string
		errish := func(e ast.Expr) bool { s := txt(e); return strings.Contains(s, "rr") && strings.Contains(s, "nil") }
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.IfStmt:
				if !errish(x.Cond) {
					emit(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", fn+": negate "+short(txt(x.Cond)))
				}
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", fn+": never "+short(txt(x.Cond)))
			case *ast.BinaryExpr:
				for _, t := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, fn+": "+x.Op.String()+" -> "+t+" in "+short(txt(x)))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), "("+txt(x.X)+")", fn+": only left of "+short(txt(x)))
					emit(x.Pos(), x.End(), "("+txt(x.Y)+")", fn+": only right of "+short(txt(x)))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", fn+": "+x.Value+" + 1")
					if x.Value != "0" {
						emit(x.Pos(), x.End(), "("+x.Value+"-1)", fn+": "+x.Value+" - 1")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", fn+": true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", fn+": false -> true")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), txt(x.X), fn+": drop ! of "+short(txt(x)))
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", fn+": delete "+short(txt(x)))
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", fn+": delete "+short(txt(x)))
			case *ast.BranchStmt:
				emit(x.Pos(), x.End(), "", fn+": delete "+x.Tok.String())
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", fn+": delete "+short(txt(x)))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", fn+": delete "+short(txt(x)))
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if _, ok := kv.Key.(*ast.Ident); ok {
							end := kv.End()
							if o := off(end); o < len(src) && src[o] == ',' {
								end++
							}
							emit(kv.Pos(), end, "", fn+": drop field "+short(txt(kv)))
						}
					}
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					if len(x.List) > 0 {
						emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", fn+": empty case "+short(txt(x.List[0])))
					}
				}
				if len(x.List) > 1 {
					for j := range x.List {
						if j > 0 {
							emit(x.List[j-1].End(), x.List[j].End(), "", fn+": drop case "+short(txt(x.List[j])))
						}
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					r := txt(x.Results[0])
					if r != "nil" && r != "true" && r != "false" {
						emit(x.Results[0].Pos(), x.Results[0].End(), "nil", fn+": return nil for "+short(r))
					}
				}
				if len(x.Results) == 2 && txt(x.Results[1]) != "nil" {
					emit(x.Results[1].Pos(), x.Results[1].End(), "nil", fn+": no error in "+short(txt(x)))
				}
			case *ast.CallExpr:
				s := txt(x.Fun)
				if (s == "slices.Clone" || s == "maps.Clone" || s == "proto.Clone") && len(x.Args) == 1 {
					emit(x.Pos(), x.End(), txt(x.Args[0]), fn+": alias "+short(txt(x)))
				}
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 {
					emit(x.Pos(), x.End(), txt(sel.X), fn+": receiver only of "+short(txt(x)))
					emit(x.Pos(), x.End(), txt(x.Args[0]), fn+": argument only of "+short(txt(x)))
				}
				for j := 1; j < len(x.Args); j++ {
					a, b := txt(x.Args[j-1]), txt(x.Args[j])
					if a != b && !(x.Ellipsis.IsValid() && j == len(x.Args)-1) {
						emit(x.Args[j-1].Pos(), x.Args[j].End(), b+", "+a, fn+": swap args of "+short(txt(x)))
					}
				}
			case *ast.SliceExpr:
				emit(x.Pos(), x.End(), txt(x.X), fn+": whole slice "+short(txt(x)))
			case *ast.RangeStmt:
				emit(x.Body.Lbrace, x.Body.Lbrace+1, "{ if true { break };", fn+": no iteration of "+short(txt(x.X)))
				if len(x.Body.List) > 0 {
					emit(x.Body.Rbrace, x.Body.Rbrace+1, "; break }", fn+": one iteration of "+short(txt(x.X)))
				}
			}
			return true
		})
	}
}
