// Command instrument writes an instrumented copy of the library's sources and
// the overlay file that makes the go command use it.
//
//   - a yield point before every statement (text inserted on the same line, so
//     that line numbers stay those of the original),
//   - package sync and sync/atomic replaced by the simulated ones,
//   - ranges over maps in an order decided by the run,
//   - runtime map iterators (when used through linkname) started at a fixed
//     position.
//
// Only names of imported packages, statement positions and types are looked
// at: the transformation does not depend on how the library is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type insertion struct {
	off  int
	end  int // replaced up to end (== off for an insertion)
	text string
	seq  int
}

var replaced = map[string]string{
	"sync":        "verif.local/sim/ssync",
	"sync/atomic": "verif.local/sim/satomic",
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instrument:"}, a...)...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "package directory")
	out := flag.String("out", "", "output directory")
	yields := flag.Bool("yields", true, "insert yields")
	as := flag.String("as", "", "directory the overlay stands for (default: src)")
	flag.Parse()
	if *as == "" {
		*as = *src
	}
	ctx := build.Default
	pkg, err := ctx.ImportDir(*src, 0)
	if err != nil {
		fatal(err)
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, f := range pkg.GoFiles {
		p := filepath.Join(*src, f)
		b, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		af, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		files = append(files, af)
		names = append(names, f)
		srcs[f] = b
	}
	info := typecheck(*src, fset, files)

	overlay := map[string]string{}
	site := 0
	type siteInfo struct {
		File string `json:"f"`
		Line int    `json:"l"`
		Func string `json:"fn"`
	}
	var sites []siteInfo
	iterInit := hasIterInit(files)
	rawFuncs := map[string]bool{"make": true, "new": true}
	for _, af := range files {
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil && fd.Recv == nil {
				rawFuncs[fd.Name.Name] = true // linked into the Go runtime
			}
		}
	}
	for i, af := range files {
		name := names[i]
		b := srcs[name]
		var ins []insertion
		tf := fset.File(af.Pos())
		off := func(p token.Pos) int { return tf.Offset(p) }
		add := func(o int, text string) {
			ins = append(ins, insertion{off: o, end: o, text: text, seq: len(ins)})
		}
		usesYield := false
		// imports
		for _, im := range af.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			np, ok := replaced[path]
			if !ok {
				continue
			}
			o, e := off(im.Path.Pos()), off(im.Path.End())
			text := strconv.Quote(np)
			if im.Name == nil {
				text = filepath.Base(path) + " " + text
			}
			ins = append(ins, insertion{off: o, end: e, text: text, seq: len(ins)})
		}
		yield := func(p token.Pos, fn, call string) {
			if !*yields {
				return
			}
			add(off(p), fmt.Sprintf("simrt.%s(%d);", call, site))
			sites = append(sites, siteInfo{name, tf.Line(p), fn})
			site++
			usesYield = true
		}
		yieldAt := func(p token.Pos, fn string) { yield(p, fn, "Y") }
		var curFn string
		nvar := 0
		var walk func(n ast.Node)
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				if raw(s, rawFuncs) {
					yield(s.Pos(), curFn, "A")
					continue
				}
				yieldAt(s.Pos(), curFn)
			}
		}
		labeled := map[ast.Stmt]bool{}
		walk = func(n ast.Node) {
			ast.Inspect(n, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.LabeledStmt:
					labeled[x.Stmt] = true
				case *ast.BlockStmt:
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				case *ast.ForStmt:
					if len(x.Body.List) == 0 {
						yieldAt(x.Body.Rbrace, curFn)
					}
				case *ast.RangeStmt:
					if len(x.Body.List) == 0 {
						yieldAt(x.Body.Rbrace, curFn)
					}
					if info == nil || typesPkg == nil || labeled[x] {
						break
					}
					t := info.TypeOf(x.X)
					if t == nil {
						break
					}
					m, ok := t.Underlying().(*types.Map)
					if !ok || (x.Tok != token.DEFINE && x.Tok != token.ILLEGAL) {
						break
					}
					if !pure(x.X) {
						break
					}
					key := types.Unalias(m.Key())
					if nt, ok := key.(*types.Named); ok {
						sc := typesPkg.Scope().Innermost(x.Pos())
						if sc == nil {
							break
						}
						_, obj := sc.LookupParent(nt.Obj().Name(), x.Pos())
						if obj != nt.Obj() {
							break // shadowed
						}
					}
					kt := types.TypeString(key, func(p *types.Package) string {
						if p.Name() == af.Name.Name {
							return ""
						}
						return p.Name()
					})
					if strings.Contains(kt, "invalid") || hasForeign(key, af.Name.Name) {
						break
					}
					nvar++
					v := fmt.Sprintf("simv%d", nvar)
					ident := func(e ast.Expr) string {
						if e == nil {
							return "_"
						}
						if id, ok := e.(*ast.Ident); ok {
							return id.Name
						}
						return "_"
					}
					k, val := ident(x.Key), ident(x.Value)
					expr := string(b[off(x.X.Pos()):off(x.X.End())])
					text := fmt.Sprintf("for _, %si := range simrt.MapKeys(%s) { %sk := %si.(%s); %se, %sok := (%s)[%sk]; if !%sok { continue }; _ = %se; ", v, expr, v, v, kt, v, v, expr, v, v, v)
					if k != "_" {
						text += fmt.Sprintf("%s := %sk; _ = %s; ", k, v, k)
					}
					if val != "_" {
						text += fmt.Sprintf("%s := %se; _ = %s; ", val, v, val)
					}
					ins = append(ins, insertion{off: off(x.For), end: off(x.Body.Lbrace) + 1, text: text, seq: len(ins)})
					usesYield = true
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && iterInit && id.Name == "mapiterinit" && len(x.Args) == 3 {
						ins = append(ins, insertion{off: off(id.Pos()), end: off(id.End()), text: "simMapIterInit", seq: len(ins)})
					}
				}
				return true
			})
		}
		for _, d := range af.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Body == nil || nosplit(x) {
					continue
				}
				curFn = x.Name.Name
				walk(x.Body)
			case *ast.GenDecl:
				curFn = "var"
				walk(x)
			}
		}
		if usesYield {
			add(off(af.Name.End()), "; import simrt \"verif.local/sim/simrt\"")
		}
		nb := apply(b, ins)
		p := filepath.Join(*out, name)
		if err := os.WriteFile(p, nb, 0o644); err != nil {
			fatal(err)
		}
		overlay[filepath.Join(*as, name)] = p
	}
	if iterInit {
		p := filepath.Join(*out, "zz_sim_mapiter.go")
		if err := os.WriteFile(p, []byte(fmt.Sprintf(mapIter, files[0].Name.Name)), 0o644); err != nil {
			fatal(err)
		}
		overlay[filepath.Join(*as, "zz_sim_mapiter.go")] = p
	}
	if site >= 1<<15 {
		fatal("too many sites", site)
	}
	writeJSON(filepath.Join(*out, "overlay.json"), map[string]interface{}{"Replace": overlay})
	writeJSON(filepath.Join(*out, "sites.json"), sites)
	fmt.Printf("instrumented %d files, %d yield sites\n", len(files), site)
}

const mapIter = `package %s

import "unsafe"

// the position where a map iteration starts is random: start at the first
// bucket instead
func simMapIterInit(t rtype, m unsafe.Pointer, it *hiter) {
	mapiterinit(t, m, it)
	if it.key == nil {
		return
	}
	it.startBucket = 0
	it.offset = 0
	it.wrapped = false
	it.i = 0
	it.bucket = 0
	it.checkBucket = 0
	it.bptr = nil
	it.key = nil
	it.elem = nil
	mapiternext(it)
}
`

// hasIterInit: the library declares the runtime's map iterator in the shape
// known here.
func hasIterInit(files []*ast.File) bool {
	want := map[string]bool{"startBucket": true, "offset": true, "wrapped": true, "i": true, "bucket": true, "checkBucket": true, "bptr": true, "key": true, "elem": true}
	hiter, rtype, init, next := false, false, false, false
	for _, f := range files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Body == nil {
					if x.Name.Name == "mapiterinit" && x.Type.Params.NumFields() == 3 {
						init = true
					}
					if x.Name.Name == "mapiternext" && x.Type.Params.NumFields() == 1 {
						next = true
					}
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					ts, ok := s.(*ast.TypeSpec)
					if !ok {
						continue
					}
					if ts.Name.Name == "rtype" {
						rtype = true
					}
					if ts.Name.Name == "hiter" {
						n := 0
						if st, ok := ts.Type.(*ast.StructType); ok {
							for _, fl := range st.Fields.List {
								for _, nm := range fl.Names {
									if want[nm.Name] {
										n++
									}
								}
							}
						}
						hiter = n == len(want)
					}
				}
			}
		}
	}
	return hiter && rtype && init && next
}

// pure: evaluating the expression again is harmless.
func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	}
	return false
}

func hasForeign(t types.Type, self string) bool {
	switch x := t.(type) {
	case *types.Alias:
		return hasForeign(types.Unalias(x), self)
	case *types.Named:
		return x.Obj().Pkg() != nil && x.Obj().Pkg().Name() != self
	case *types.Basic:
		return false
	}
	return true
}

func nosplit(f *ast.FuncDecl) bool {
	if f.Doc == nil {
		return false
	}
	for _, c := range f.Doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") {
			return true
		}
	}
	return false
}

func apply(b []byte, ins []insertion) []byte {
	sort.SliceStable(ins, func(i, j int) bool {
		if ins[i].off != ins[j].off {
			return ins[i].off < ins[j].off
		}
		// insertions before replacements at the same place
		ri, rj := ins[i].end > ins[i].off, ins[j].end > ins[j].off
		if ri != rj {
			return !ri
		}
		return ins[i].seq < ins[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, in := range ins {
		if in.off < pos {
			continue // inside a replaced range
		}
		out.Write(b[pos:in.off])
		out.WriteString(in.text)
		pos = in.end
	}
	out.Write(b[pos:])
	return out.Bytes()
}

var typesPkg *types.Package

func typecheck(dir string, fset *token.FileSet, files []*ast.File) *types.Info {
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", ".")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	exp := map[string]string{}
	for _, l := range strings.Split(string(o), "\n") {
		if f := strings.Split(l, "\t"); len(f) == 2 {
			exp[f[0]] = f[1]
		}
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			f, ok := exp[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(f)
		}),
		Error: func(error) {},
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	typesPkg, _ = conf.Check(files[0].Name.Name, fset, files, info)
	return info
}

func writeJSON(p string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal(err)
	}
}

// raw tells if the statement itself (not a block within it) allocates or calls
// one of the functions linked into the Go runtime, which work on raw memory.
func raw(s ast.Stmt, fns map[string]bool) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && fns[id.Name] {
				found = true
			}
		}
		return !found
	})
	return found
}
