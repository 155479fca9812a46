// refactor changes all of the code under test without changing what it does:
// a stress test for the machinery, which must stay quiet.
//
//	refactor -repo DIR -mode rename|wrap|index|maploop|else
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	start, end int
	text       string
}

func main() {
	repo := flag.String("repo", "", "")
	mode := flag.String("mode", "rename", "")
	flag.Parse()
	cfg := &packages.Config{Dir: *repo, Mode: packages.LoadAllSyntax}
	pkgs, err := packages.Load(cfg, "./pkg/...", "./cmd/...")
	if err != nil {
		panic(err)
	}
	own := map[*types.Package]bool{}
	for _, p := range pkgs {
		own[p.Types] = true
	}
	total := 0
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if !strings.HasPrefix(name, *repo+"/") || strings.Contains(name, "zz_generated") {
				if *mode != "rename" {
					continue
				}
			}
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			tf := p.Fset.File(f.Pos())
			off := func(x token.Pos) int { return tf.Offset(x) }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			var edits []edit
			extra := ""
			n := 0
			switch *mode {
			case "rename":
				ast.Inspect(f, func(x ast.Node) bool {
					id, ok := x.(*ast.Ident)
					if !ok {
						return true
					}
					o := p.TypesInfo.Uses[id]
					if o == nil {
						o = p.TypesInfo.Defs[id]
					}
					if o == nil || o.Pkg() == nil || !own[o.Pkg()] || token.IsExported(id.Name) || id.Name == "_" || id.Name == "init" || id.Name == "main" {
						return true
					}
					switch o := o.(type) {
					case *types.PkgName, *types.Label:
						return true
					case *types.Var:
						// variables of type switches have no single object
						if !o.IsField() && o.Parent() != o.Pkg().Scope() {
							return true
						}
					}
					if id.Name == "error" {
						return true
					}
					if strings.HasPrefix(id.Name, "verif") {
						return true
					}
					edits = append(edits, edit{off(id.End()), off(id.End()), "Rn"})
					return true
				})
			case "wrap":
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Name.Name == "_" || fd.Type.TypeParams != nil {
						continue
					}
					if fd.Recv != nil && (len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_") {
						continue
					}
					if fd.Recv != nil && strings.Contains(text(fd.Recv), "[") {
						continue
					}
					var args []string
					good := true
					for _, a := range fd.Type.Params.List {
						if len(a.Names) == 0 {
							good = false
						}
						for _, an := range a.Names {
							if an.Name == "_" {
								good = false
							}
							x := an.Name
							if _, ok := a.Type.(*ast.Ellipsis); ok {
								x += "..."
							}
							args = append(args, x)
						}
					}
					if !good {
						continue
					}
					impl := fd.Name.Name + "Impl"
					call := impl + "(" + strings.Join(args, ", ") + ")"
					if fd.Recv != nil {
						call = fd.Recv.List[0].Names[0].Name + "." + call
					}
					if fd.Type.Results != nil {
						call = "return " + call
					}
					sig := string(src[off(fd.Type.Func):off(fd.Body.Lbrace)])
					recv := ""
					if fd.Recv != nil {
						recv = text(fd.Recv) + " "
					}
					_ = sig
					extra += "\nfunc " + recv + impl + string(src[off(fd.Type.Params.Pos()):off(fd.Type.End())]) + " " + text(fd.Body) + "\n"
					edits = append(edits, edit{off(fd.Body.Lbrace) + 1, off(fd.Body.Rbrace), "\n\t" + call + "\n"})
				}
			case "index":
				ast.Inspect(f, func(x ast.Node) bool {
					r, ok := x.(*ast.RangeStmt)
					if !ok || r.Tok != token.DEFINE {
						return true
					}
					if _, ok := p.TypesInfo.Types[r.X].Type.Underlying().(*types.Slice); !ok {
						return true
					}
					v, ok := r.Value.(*ast.Ident)
					if !ok || v.Name == "_" {
						return true
					}
					n++
					k := "idx" + fmt.Sprint(n)
					if id := r.Key.(*ast.Ident); id.Name != "_" {
						k = id.Name
					}
					s := "sl" + fmt.Sprint(n)
					edits = append(edits, edit{off(r.For), off(r.X.Pos()), "for " + s + ", " + k + " := "},
						edit{off(r.X.End()), off(r.X.End()), ", 0; " + k + " < len(" + s + "); " + k + "++ "},
						edit{off(r.Body.Lbrace) + 1, off(r.Body.Lbrace) + 1, "\n" + v.Name + " := " + s + "[" + k + "]\n{"}, edit{off(r.Body.Rbrace), off(r.Body.Rbrace), "}\n"})
					return true
				})
			case "maploop":
				ast.Inspect(f, func(x ast.Node) bool {
					r, ok := x.(*ast.RangeStmt)
					if !ok || r.Tok != token.DEFINE {
						return true
					}
					if _, ok := p.TypesInfo.Types[r.X].Type.Underlying().(*types.Map); !ok {
						return true
					}
					v, ok := r.Value.(*ast.Ident)
					if !ok || v.Name == "_" {
						return true
					}
					n++
					k := "key" + fmt.Sprint(n)
					if id := r.Key.(*ast.Ident); id.Name != "_" {
						k = id.Name
					}
					s := "mp" + fmt.Sprint(n)
					// { m := X; for k := range m { v := m[k]; ... } }
					edits = append(edits, edit{off(r.Key.Pos()), off(r.X.Pos()), k + " := range "},
						edit{off(r.Body.Lbrace) + 1, off(r.Body.Lbrace) + 1, "\n" + v.Name + " := " + text(r.X) + "[" + k + "]\n"})
					_ = s
					return true
				})
			case "else":
				if strings.HasSuffix(name, "schemapatcher/gen.go") {
					continue
				}
				ast.Inspect(f, func(x ast.Node) bool {
					b, ok := x.(*ast.BlockStmt)
					if !ok {
						return true
					}
					for i, s := range b.List {
						is, ok := s.(*ast.IfStmt)
						if !ok || is.Else != nil || i == len(b.List)-1 || len(is.Body.List) == 0 {
							continue
						}
						switch is.Body.List[len(is.Body.List)-1].(type) {
						case *ast.ReturnStmt, *ast.BranchStmt:
						default:
							continue
						}
						labels := false
						for _, r := range b.List[i+1:] {
							ast.Inspect(r, func(y ast.Node) bool {
								if _, ok := y.(*ast.LabeledStmt); ok {
									labels = true
								}
								return true
							})
						}
						if labels {
							continue
						}
						last := b.List[len(b.List)-1]
						edits = append(edits, edit{off(is.End()), off(is.End()), " else {"}, edit{off(last.End()), off(last.End()), "\n}"})
						break
					}
					return true
				})
			case "defer":
				// a statement that does nothing in every function
				ast.Inspect(f, func(x ast.Node) bool {
					fd, ok := x.(*ast.FuncDecl)
					if ok && fd.Body != nil {
						edits = append(edits, edit{off(fd.Body.Lbrace) + 1, off(fd.Body.Lbrace) + 1, " if false { println() }; "})
					}
					return true
				})
			}
			if len(edits) == 0 {
				continue
			}
			total += len(edits)
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].start < edits[j].start })
			var b strings.Builder
			pos := 0
			for _, e := range edits {
				if e.start < pos {
					continue
				}
				b.Write(src[pos:e.start])
				b.WriteString(e.text)
				pos = e.end
			}
			b.Write(src[pos:])
			b.WriteString(extra)
			if err := os.WriteFile(name, []byte(b.String()), 0o644); err != nil {
				panic(err)
			}
		}
	}
	fmt.Println(*mode, total, "edits")
}
