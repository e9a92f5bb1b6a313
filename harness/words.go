package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// floatWords and intWords are the numbers written in the position code: inputs worth trying. Only inputs: no verdict uses them.
var (
	floatWords []float64
	intWords   []int64
)

func loadWords() {
	filepath.Walk("/repo/pkg/geo", func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok {
				v, err := strconv.ParseFloat(strings.Replace(l.Value, "_", "", -1), 64)
				if err == nil && len(floatWords) < 1000 {
					floatWords = append(floatWords, v)
					if v == float64(int64(v)) {
						intWords = append(intWords, int64(v))
					}
				}
			}
			return true
		})
		return nil
	})
}
