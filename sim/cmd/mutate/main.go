// Command mutate lists small source changes of a package (a development tool:
// it measures how sensitive the checks are; no check uses it).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
	Kind string `json:"kind"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Old  string `json:"old"`
}

func main() {
	src := flag.String("src", "/repo", "")
	flag.Parse()
	pkg, err := build.ImportDir(*src, 0)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	id := 0
	enc := json.NewEncoder(os.Stdout)
	for _, f := range pkg.GoFiles {
		p := filepath.Join(*src, f)
		b, _ := os.ReadFile(p)
		af, err := parser.ParseFile(fset, p, b, 0)
		if err != nil {
			panic(err)
		}
		tf := fset.File(af.Pos())
		fn := ""
		emit := func(kind string, from, to token.Pos, text string) {
			o, e := tf.Offset(from), tf.Offset(to)
			enc.Encode(mutant{id, f, tf.Line(from), fn, kind, o, e, text, string(b[o:e])})
			id++
		}
		src := func(n ast.Node) string { return string(b[tf.Offset(n.Pos()):tf.Offset(n.End())]) }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			if fn == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					list(x.List, emit)
				case *ast.CaseClause:
					list(x.Body, emit)
				case *ast.IfStmt:
					emit("negate", x.Cond.Pos(), x.Cond.End(), "!("+src(x.Cond)+")")
					emit("iftrue", x.Cond.Pos(), x.Cond.End(), "("+src(x.Cond)+") || true")
					emit("iffalse", x.Cond.Pos(), x.Cond.End(), "("+src(x.Cond)+") && false")
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.MUL: {"+"}, token.AND: {"|"}}[x.Op]
					for _, a := range alt {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.ReturnStmt:
					if k := len(x.Results); k > 0 {
						if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
							emit("reterr", id.Pos(), id.End(), "nil")
						}
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						emit("branch", x.Pos(), x.End(), "continue")
					}
					if x.Tok == token.CONTINUE && x.Label == nil {
						emit("branch", x.Pos(), x.End(), "break")
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						emit("bool", x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name])
					}
				case *ast.SliceExpr:
					if x.High != nil && x.Low == nil && x.Max == nil {
						emit("slice", x.Pos(), x.End(), src(x.X)+"[:]")
					}
				}
				return true
			})
		}
	}
}

func list(l []ast.Stmt, emit func(kind string, from, to token.Pos, text string)) {
	for _, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
			emit("delete", s.Pos(), s.End(), "")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				emit("delete", s.Pos(), s.End(), "")
			}
		}
	}
	for i := 0; i+1 < len(l); i++ {
		_, a := l[i].(*ast.ExprStmt)
		_, b := l[i].(*ast.AssignStmt)
		_ = a
		_ = b
	}
}
