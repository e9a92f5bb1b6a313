// mutate lists small changes of Go files: one JSON object per line with the file, the place and the text to put there.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Off   int    `json:"off"`
	End   int    `json:"end"`
	Old   string `json:"old"`
	New   string `json:"new"`
	Op    string `json:"op"`
	Print bool   `json:"print"` // inside something printed
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.AND: {"|"}, token.OR: {"&", "^"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|", "&"}, token.AND_NOT: {"&"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, root := range os.Args[1:] {
		filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			src, _ := os.ReadFile(path)
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, path, src, 0)
			if err != nil {
				panic(err)
			}
			emit := func(a, z token.Pos, n, op string, print bool) {
				p, q := fs.Position(a), fs.Position(z)
				enc.Encode(mutant{path, p.Line, p.Offset, q.Offset, string(src[p.Offset:q.Offset]), n, op, print})
			}
			fn := ""
			var errs []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					t := string(src[fs.Position(c.Fun.Pos()).Offset:fs.Position(c.Fun.End()).Offset])
					if t == "errors.New" || t == "fmt.Errorf" {
						errs = append(errs, c)
					}
				}
				return true
			})
			inErr := func(p token.Pos) bool {
				for _, e := range errs {
					if p >= e.Pos() && p < e.End() {
						return true
					}
				}
				return false
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.FuncDecl:
					fn = x.Name.Name
				case *ast.BasicLit:
					pr := fn == "ToString"
					switch x.Kind {
					case token.INT:
						if inErr(x.Pos()) {
							return true
						}
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err != nil {
							return true
						}
						hex := strings.HasPrefix(strings.ToLower(x.Value), "0x")
						put := func(w int64, op string) {
							if hex {
								emit(x.Pos(), x.End(), fmt.Sprintf("0x%02X", w), op, pr)
							} else {
								emit(x.Pos(), x.End(), fmt.Sprint(w), op, pr)
							}
						}
						if hex {
							if v != 0 {
								put(v&(v-1), "mask lowest bit")
							}
							hi := int64(1)
							for hi*2 <= v {
								hi *= 2
							}
							if v != 0 && v&^hi != v&(v-1) {
								put(v&^hi, "mask highest bit")
							}
							if hi*2 <= 0x80 {
								put(v|hi*2, "mask more")
							}
						} else {
							put(v+1, "int+1")
							if v > 0 {
								put(v-1, "int-1")
							}
						}
					case token.FLOAT:
						v, err := strconv.ParseFloat(x.Value, 64)
						if err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v*1.01+0.001), "float", pr)
						}
					case token.STRING:
						if inErr(x.Pos()) || len(x.Value) < 3 {
							return true
						}
						if fn != "" {
							// the last letter of the text
							t := []byte(x.Value)
							for i := len(t) - 2; i > 0; i-- {
								if t[i] >= 'a' && t[i] <= 'y' && t[i-1] != '%' && t[i-1] != '\\' && !(i > 1 && (t[i-2] == '%')) {
									t[i]++
									emit(x.Pos(), x.End(), string(t), "text", true)
									break
								}
							}
						}
					}
				case *ast.BinaryExpr:
					if inErr(x.Pos()) {
						return true
					}
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "operator", fn == "ToString")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool", false)
					}
					if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool", false)
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+string(src[fs.Position(x.Cond.Pos()).Offset:fs.Position(x.Cond.End()).Offset])+")", "negate", false)
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[fs.Position(x.Cond.Pos()).Offset:fs.Position(x.Cond.End()).Offset])+")", "never", false)
				case *ast.AssignStmt:
					if m := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "&=", token.AND_ASSIGN: "|=", token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<=", token.XOR_ASSIGN: "|="}[x.Tok]; m != "" {
						emit(x.TokPos, x.TokPos+2, m, "assign", false)
					}
				case *ast.KeyValueExpr:
					// a field set from another field's reader
				case *ast.CaseClause:
					// a case that falls to another label is covered by the constants and texts
				}
				return true
			})
			return nil
		})
	}
}
