// instrument writes an overlay in which every iteration over a Go map in the
// code under test goes through rt.Map, and (with -sync) every goroutine start
// and every use of package sync goes through the controlled scheduler vsync.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

const base = "sigs.k8s.io/controller-tools/verifmc/"

type edit struct {
	start, end int
	text       string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "directory for the rewritten files")
	harness := flag.String("harness", "", "harness source directory")
	overlay := flag.String("overlay", "", "overlay file to write")
	doSync := flag.Bool("sync", false, "also instrument package sync and go statements")
	plain := flag.Bool("plain", false, "no instrumentation, harness packages only")
	flag.Parse()

	repl := map[string]string{}
	_ = filepath.Walk(*harness, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*harness, p)
			repl[filepath.Join(*repo, "verifmc", rel)] = p
		}
		return nil
	})

	sites := 0
	if !*plain {
		cfg := &packages.Config{Dir: *repo, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports}
		pkgs, err := packages.Load(cfg, "./pkg/...", "./cmd/...")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, pkg := range pkgs {
			for i, f := range pkg.Syntax {
				name := pkg.CompiledGoFiles[i]
				if !strings.HasSuffix(name, ".go") || !strings.HasPrefix(name, *repo+"/") {
					continue
				}
				src, err := os.ReadFile(name)
				if err != nil {
					continue
				}
				n, res := rewrite(pkg, f, src, *doSync)
				if n == 0 {
					continue
				}
				sites += n
				dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(name, *repo+"/"), "/", "__"))
				if err := os.WriteFile(dst, res, 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(1)
				}
				repl[name] = dst
			}
		}
	}
	data, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(*overlay, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Fprintf(os.Stderr, "instrument: %d sites\n", sites)
}

func rewrite(pkg *packages.Package, f *ast.File, src []byte, doSync bool) (int, []byte) {
	tf := pkg.Fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	needRT, needSync := false, false
	extra := ""
	mapsUsed := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			tv, ok := pkg.TypesInfo.Types[n.X]
			if !ok || tv.Type == nil {
				return true
			}
			isMap := false
			if _, ok := tv.Type.Underlying().(*types.Map); ok {
				isMap = true
			}
			if tp, ok := tv.Type.(*types.TypeParam); ok {
				_ = tp
				isMap = false
			}
			if !isMap {
				return true
			}
			edits = append(edits, edit{off(n.X.Pos()), off(n.X.Pos()), "verifrt.Map("}, edit{off(n.X.End()), off(n.X.End()), ")"})
			needRT = true
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := pkg.TypesInfo.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "maps" &&
					(n.Sel.Name == "Keys" || n.Sel.Name == "Values" || n.Sel.Name == "All") {
					edits = append(edits, edit{off(id.Pos()), off(id.End()), "verifrt"})
					needRT, mapsUsed = true, true
					extra = "\nvar _ = " + id.Name + ".Clone[map[int]int]\n"
				}
			}
		case *ast.GoStmt:
			if !doSync {
				return true
			}
			// go F(a, b)  =>  vsync.Go(func() func() { f, a0, a1 := F, a, b; return func() { f(a0, a1) } }())
			if n.Call.Ellipsis.IsValid() {
				return true
			}
			if len(n.Call.Args) == 0 {
				edits = append(edits, edit{off(n.Go), off(n.Call.Fun.Pos()), "verifsync.Go("},
					edit{off(n.Call.Fun.End()), off(n.Call.End()), ")"})
			} else {
				names := []string{}
				for i := range n.Call.Args {
					names = append(names, "verifa"+strconv.Itoa(i))
				}
				lhs := "veriff, " + strings.Join(names, ", ")
				edits = append(edits,
					edit{off(n.Go), off(n.Call.Fun.Pos()), "verifsync.Go(func() func() { " + lhs + " := "},
					edit{off(n.Call.Fun.End()), off(n.Call.Lparen) + 1, ", "},
					edit{off(n.Call.Rparen), off(n.Call.End()), "; return func() { veriff(" + strings.Join(names, ", ") + ") } }())"})
				// a trailing comma before the closing parenthesis would not parse
			}
			needSync = true
		}
		return true
	})
	_ = mapsUsed
	if doSync {
		for _, im := range f.Imports {
			if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
				name := "sync"
				if im.Name != nil {
					name = im.Name.Name
				}
				st := im.Path.Pos()
				if im.Name != nil {
					st = im.Name.Pos()
				}
				edits = append(edits, edit{off(st), off(im.Path.End()), name + ` "` + base + `vsync"`})
			}
		}
	}
	if len(edits) == 0 {
		return 0, nil
	}
	// imports on the line of the package clause keep the line numbers.
	imp := ""
	if needRT {
		imp += `; import verifrt "` + base + `rt"`
	}
	if needSync {
		imp += `; import verifsync "` + base + `vsync"`
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), imp})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].start < edits[j].start })
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.start < pos {
			// nested edit inside replaced text; skip it
			continue
		}
		b.Write(src[pos:e.start])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString(extra)
	return len(edits), []byte(b.String())
}
