package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type M struct {
	File       string
	Line       int
	Start, End int
	Old, New   string
	Kind       string
}

func main() {
	var out []M
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		add := func(kind string, s, e int, n string) {
			out = append(out, M{f, strings.Count(string(src[:s]), "\n") + 1, s, e, string(src[s:e]), n, kind})
		}
		islog := func(n ast.Node) bool {
			t := string(src[off(n.Pos()):off(n.End())])
			return strings.HasPrefix(t, "log.") && !strings.Contains(t, "Fatal") || strings.HasPrefix(t, "logrus.") && !strings.Contains(t, "Fatal") || strings.HasPrefix(t, "fmt.Print")
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IfStmt:
				add("neg", off(x.Cond.Pos()), off(x.Cond.End()), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
			case *ast.BinaryExpr:
				r := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+"}[x.Op]
				if r != "" {
					o := off(x.OpPos)
					add("op", o, o+len(x.Op.String()), r)
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt:
						if !islog(y) {
							add("del", off(y.Pos()), off(y.End()), "")
						}
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							if t := string(src[off(y.Pos()):off(y.End())]); !strings.HasPrefix(t, "_ ") {
								add("del", off(y.Pos()), off(y.End()), "")
							}
						}
					case *ast.IncDecStmt, *ast.DeferStmt:
						add("del", off(y.Pos()), off(y.End()), "")
					case *ast.BranchStmt:
						if y.Tok == token.CONTINUE {
							add("brk", off(y.Pos()), off(y.End()), "break")
						} else if y.Tok == token.BREAK {
							add("brk", off(y.Pos()), off(y.End()), "continue")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add("bool", off(x.Pos()), off(x.End()), "false")
				} else if x.Name == "false" {
					add("bool", off(x.Pos()), off(x.End()), "true")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					add("int", off(x.Pos()), off(x.End()), x.Value+"+1")
				}
			}
			return true
		})
	}
	b, _ := json.Marshal(out)
	fmt.Println(string(b))
}
