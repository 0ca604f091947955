//go:build ignore

// Lists mutants of Go source files as JSON lines: go run mutants.go FILE...
// Each is a byte range and its replacement. Development aid; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File      string `json:"file"`
	From, To  int
	New, What string
	Line      int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(from, to int, n, what string) {
			old := strings.ReplaceAll(string(src[from:to]), "\r", "")
			if len(old) > 60 {
				old = old[:60] + "..."
			}
			enc.Encode(mutant{f, from, to, n, fmt.Sprintf("%s: %q -> %q", what, old, n), 1 + strings.Count(string(src[:from]), "\n")})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var fn string
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if x.Tag != nil {
					emit(off(x.Tag.Pos()), off(x.Tag.End()), "", "tag removed")
				}
			case *ast.BinaryExpr:
				alts := map[token.Token][]string{
					token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
					token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.LAND: {"||"}, token.LOR: {"&&"},
				}[x.Op]
				o := off(x.OpPos)
				for _, a := range alts {
					emit(o, o+len(x.Op.String()), a, fn+" operator")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					s := strings.ReplaceAll(x.Value, "_", "")
					if v, err := strconv.ParseInt(s, 0, 64); err == nil {
						emit(off(x.Pos()), off(x.End()), fmt.Sprint(v+1), fn+" literal")
						if v != 0 {
							emit(off(x.Pos()), off(x.End()), fmt.Sprint(v-1), fn+" literal")
						}
					}
				case token.STRING:
					if x.Value[0] == '"' && len(x.Value) > 2 {
						emit(off(x.Pos()), off(x.End()), x.Value[:len(x.Value)-1]+"x\"", fn+" string")
					}
				}
			case *ast.IfStmt:
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "!("+text(x.Cond)+")", fn+" condition")
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+text(x.Cond)+")", fn+" never")
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "true || ("+text(x.Cond)+")", fn+" always")
			case *ast.ForStmt:
			case *ast.IncDecStmt:
				o := off(x.TokPos)
				emit(o, o+2, map[token.Token]string{token.INC: "--", token.DEC: "++"}[x.Tok], fn+" incdec")
			case *ast.AssignStmt:
				if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
					alt := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.AND_ASSIGN: "|=", token.OR_ASSIGN: "&=", token.XOR_ASSIGN: "|=", token.QUO_ASSIGN: "*=", token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<="}[x.Tok]
					if alt != "" {
						emit(off(x.TokPos), off(x.TokPos)+len(x.Tok.String()), alt, fn+" assign")
					}
				}
				if x.Tok != token.DEFINE {
					emit(off(x.Pos()), off(x.End()), "", fn+" statement removed")
				}
			case *ast.ExprStmt, *ast.DeferStmt, *ast.BranchStmt:
				emit(off(n.Pos()), off(n.End()), "", fn+" statement removed")
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					t := text(r)
					if t == "err" || strings.HasPrefix(t, "errors.") || strings.HasPrefix(t, "fmt.Errorf") || strings.HasPrefix(t, "Err") {
						emit(off(r.Pos()), off(r.End()), "nil", fn+" error dropped")
					}
					_ = i
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					emit(off(x.Pos()), off(x.End()), text(x.Args[0]), fn+" append dropped")
				}
				if len(x.Args) == 2 && !x.Ellipsis.IsValid() {
					a, b := text(x.Args[0]), text(x.Args[1])
					if a != b {
						emit(off(x.Args[0].Pos()), off(x.Args[1].End()), b+", "+a, fn+" arguments swapped")
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(off(x.Low.Pos()), off(x.Low.End()), text(x.Low)+"+1", fn+" slice low")
				}
				if x.High != nil {
					emit(off(x.High.Pos()), off(x.High.End()), text(x.High)+"-1", fn+" slice high")
				}
			case *ast.KeyValueExpr:
				if _, ok := x.Key.(*ast.Ident); ok {
					// dropping a field initialiser, with its comma
					e := off(x.End())
					if src[e] == ',' {
						e++
					}
					emit(off(x.Pos()), e, "", fn+" field dropped")
				}
			}
			return true
		})
	}
}
