// Command mutants lists small edits of Go files, one JSON object per line:
// {file, off, end, new, kind, line}. Development tool, used by mutate.py.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(n ast.Node, kind, repl string) {
			if text(n) == repl {
				return
			}
			enc.Encode(mut{name, off(n.Pos()), off(n.End()), repl, kind, fset.Position(n.Pos()).Line, fn})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					l, r := text(x.X), text(x.Y)
					for _, op := range map[token.Token][]string{
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"},
						token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
					}[x.Op] {
						emit(x, "binop "+x.Op.String()+" "+op, l+" "+op+" "+r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, "drop right", l)
						emit(x, "drop left", r)
					}
					if x.Op == token.ADD {
						emit(x, "drop right", l)
						emit(x, "drop left", r)
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x, "drop not", text(x.X))
					}
				case *ast.IfStmt:
					emit(x.Cond, "if false", "false && ("+text(x.Cond)+")")
					emit(x.Cond, "if true", "true || ("+text(x.Cond)+")")
					if x.Else != nil {
						emit(x.Else, "drop else", "{}")
					}
				case *ast.ForStmt:
				case *ast.ExprStmt:
					emit(x, "drop stmt", "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x, "drop assign", "")
					}
				case *ast.IncDecStmt:
					emit(x, "drop incdec", "")
				case *ast.DeferStmt:
					emit(x, "drop defer", "")
				case *ast.BranchStmt:
					if x.Label == nil {
						switch x.Tok {
						case token.BREAK:
							emit(x, "break>continue", "continue")
							emit(x, "drop break", "")
						case token.CONTINUE:
							emit(x, "continue>break", "break")
							emit(x, "drop continue", "")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						switch t := text(r); {
						case t == "err":
							emit(r, "return nil error", "nil")
						case t != "nil" && t != "true" && t != "false":
							for _, z := range []string{"nil", `""`, "0", "false"} {
								emit(r, "return zero", z)
							}
						}
					}
					if len(x.Results) == 0 {
						emit(x, "drop return", "")
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x, "int+1", strconv.Itoa(v+1))
							if v > 0 {
								emit(x, "int-1", strconv.Itoa(v-1))
							}
						}
					case token.STRING:
						if x.Value == `""` {
							emit(x, "string", `"X"`)
						} else {
							emit(x, "string", `""`)
							if u, err := strconv.Unquote(x.Value); err == nil && len(u) > 1 {
								emit(x, "string cut", strconv.Quote(u[1:]))
								emit(x, "string cut", strconv.Quote(u[:len(u)-1]))
							}
						}
					case token.CHAR:
						emit(x, "char", "'~'")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x, "bool", "false")
					} else if x.Name == "false" {
						emit(x, "bool", "true")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low, "slice low+1", text(x.Low)+"+1")
						emit(x.Low, "slice low 0", "0")
					}
					if x.High != nil {
						emit(x.High, "slice high-1", text(x.High)+"-1")
						emit(x.High, "slice no high", "")
					}
				case *ast.CallExpr:
					if len(x.Args) >= 1 {
						emit(x, "call>arg", text(x.Args[0]))
					}
					if len(x.Args) == 2 {
						emit(x, "swap args", text(x.Fun)+"("+text(x.Args[1])+", "+text(x.Args[0])+")")
					}
					t := text(x.Fun)
					for _, p := range [][2]string{{"TrimSpace", "TrimLeft"}, {"HasPrefix", "HasSuffix"}, {"HasSuffix", "HasPrefix"}, {"HasPrefix", "Contains"}, {"Index", "LastIndex"}, {"IndexAny", "LastIndexAny"}, {"LastIndex", "Index"}, {"TrimPrefix", "TrimSuffix"}, {"TrimSuffix", "TrimPrefix"}, {"RLock", "Lock"}} {
						if strings.HasSuffix(t, "."+p[0]) {
							emit(x.Fun, "fun", strings.TrimSuffix(t, p[0])+p[1])
						}
					}
				case *ast.KeyValueExpr:
					emit(x, "drop field", "")
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i, e := range x.List {
							var l []string
							for j, y := range x.List {
								if i != j {
									l = append(l, text(y))
								}
							}
							_ = e
							enc.Encode(mut{name, off(x.List[0].Pos()), off(x.List[len(x.List)-1].End()), strings.Join(l, ", "), "drop case", fset.Position(e.Pos()).Line, fn})
						}
					}
				}
				return true
			})
		}
	}
}
