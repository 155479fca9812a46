package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/verifmc/mc"
)

// pkgSrc is a package on disk.
type pkgSrc struct {
	path, name string
	files      []string
	imports    []string
}

const driver = "#!/bin/sh\ncat > /dev/null\ncat \"$VERIF_DRIVER_RESPONSE\"\n"

// load loads the packages through the loader, with the first one as root.
func load(r *mc.Run, srcs []pkgSrc) (*loader.Package, error) {
	dir := filepath.Join(r.Scratch, "src")
	_ = os.RemoveAll(dir)
	resp := packages.DriverResponse{Compiler: "gc", Arch: "amd64"}
	resp.Packages = append(resp.Packages, &packages.Package{ID: "unsafe", PkgPath: "unsafe", Name: "unsafe"})
	for i, s := range srcs {
		p := &packages.Package{ID: s.path, PkgPath: s.path, Name: s.name, Imports: map[string]*packages.Package{}}
		for j, text := range s.files {
			fn := filepath.Join(dir, s.path, fmt.Sprintf("f%d.go", j))
			_ = os.MkdirAll(filepath.Dir(fn), 0o755)
			if err := os.WriteFile(fn, []byte(text), 0o644); err != nil {
				return nil, err
			}
			p.GoFiles = append(p.GoFiles, fn)
			p.CompiledGoFiles = append(p.CompiledGoFiles, fn)
		}
		for _, im := range s.imports {
			p.Imports[im] = &packages.Package{ID: im}
		}
		resp.Packages = append(resp.Packages, p)
		if i == 0 {
			resp.Roots = append(resp.Roots, p.ID)
		}
	}
	data, err := json.Marshal(resp)
	if err != nil {
		return nil, err
	}
	file := filepath.Join(r.Scratch, "response.json")
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return nil, err
	}
	os.Setenv("VERIF_DRIVER_RESPONSE", file)
	pkgs, err := loader.LoadRootsWithConfig(&packages.Config{}, srcs[0].path)
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages", len(pkgs))
	}
	return pkgs[0], nil
}

// world checks everything with go/types alone.
type world struct {
	fset  *token.FileSet
	infos map[string]*types.Info
	files map[string][]*ast.File
	pkgs  map[string]*types.Package
	srcs  map[string]pkgSrc
	errs  []string
}

func (w *world) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := w.pkgs[path]; p != nil {
		return p, nil
	}
	s := w.srcs[path]
	var files []*ast.File
	for i, text := range s.files {
		f, err := parser.ParseFile(w.fset, fmt.Sprintf("%s/f%d.go", path, i), text, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: w, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) {
		w.errs = append(w.errs, err.Error())
	}}
	p, _ := cfg.Check(path, w.fset, files, info)
	w.pkgs[path], w.infos[path], w.files[path] = p, info, files
	return p, nil
}

// the packages that are referenced
var deps = []pkgSrc{
	{"ex.com/b", "b", []string{`package b

import (
	"ex.com/c"
	"ex.com/v"
)

type T struct {
	F c.T ` + "`json:\"f\"`" + `
	G func(c.F)
	H string
}

type A = c.T
type D c.T
type Q[X any] struct {
	F X ` + "`json:\"f\"`" + `
}
type P[X, Y any] struct {
	F X ` + "`json:\"f\"`" + `
	G Y ` + "`json:\"g\"`" + `
}
type Int int
type C interface{ ~string | ~int }

const N = 3
const K = c.N
const V = v.N

var Arr [5]string
var Tab [v.N]string
`}, []string{"ex.com/c", "ex.com/v"}},
	{"ex.com/v", "v", []string{"package v\n\nconst N = 9\n"}, nil},
	{"ex.com/r", "r", []string{`package r

type T struct {
	X int ` + "`json:\"x\"`" + `
}

const N = 4
`}, nil},
	{"ex.com/my-odd", "odd", []string{`package odd

type T string

const N = 6
`}, nil},
	{"ex.com/d", "d", []string{`package d

type DT []string

const DN = 7
`}, nil},
	{"ex.com/c", "c", []string{`package c

type T struct {
	S string ` + "`json:\"s\"`" + `
}

type F struct{}

const N = 8
`}, nil},
}

const preamble = `package p

import (
	"unsafe"

	"ex.com/b"
	. "ex.com/d"
	"ex.com/my-odd"
	rn "ex.com/r"
)

var _ b.T
var _ DT
var _ odd.T
var _ rn.T
var _ unsafe.Pointer
`

// other is the second file, in which b is another package.
const other = `package p

import b "ex.com/r"

const N4 = b.N

type O struct {
	F b.T ` + "`json:\"f\"`" + `
}
`

// ref is a way to refer to another package; with declarations it needs.
type ref struct {
	expr, decl string
	comparable bool
}

var refs = []ref{
	{"b.T", "", false},
	{"rn.T", "", true},
	{"odd.T", "", true},
	{"DT", "", false},
	{"O", "", true},
	{"L", "type L struct {\n\tF rn.T `json:\"f\"`\n}\n", true},
	{"b.A", "", true},
	{"b.D", "", true},
	{"b.Q[string]", "", true},
	{"b.Q[rn.T]", "", true},
	{"b.P[rn.T, odd.T]", "", true},
	{"G[rn.T]", "type G[X any] struct {\n\tF X `json:\"f\"`\n}\n", true},
	{"G[G[odd.T]]", "type G[X any] struct {\n\tF X `json:\"f\"`\n}\n", true},
	{"H[string]", "type H[X b.C] struct {\n\tF X `json:\"f\"`\n}\n", true},
	{"H[rn.T]", "type H[X interface{ rn.T }] struct {\n\tF X `json:\"f\"`\n}\n", true},
	{"H[[]rn.T]", "type H[X ~[]rn.T] struct {\n\tF X `json:\"f\"`\n}\n", false},
	{"[b.N]int", "", true},
	{"[b.K]int", "", true},
	{"[DN]int", "", true},
	{"[rn.N + b.N]int", "", true},
	{"[(odd.N)]int", "", true},
	{"[N1]int", "const N1 = odd.N\n", true},
	{"[N1 * 2]int", "const N1 = N0 + 1\nconst N0 = rn.N\n", true},
	{"[N2]int", "const (\n\tN1 = iota + b.N\n\tN2\n)\n", true},
	{"[N3]int", "const N3 b.Int = 2\n", true},
	{"[N4]int", "", true},
	{"[len(b.Arr)]int", "", true},
	{"[unsafe.Sizeof(b.T{})]byte", "", true},
	{"[len(local.F)]int", "var local struct{ F [3]b.T }\n", true},
	{"[len(local)]int", "var local = b.Arr\n", true},
	{"[C1]int", "const C1 = unsafe.Sizeof(b.T{})\n", true},
	{"[b.Int(2)]int", "", true},
	{"[len(fun)]int", "var fun [b.N]rn.T = func() [b.N]rn.T { x := struct{ F [b.N]rn.T }{}; return x.F }()\n", true},
	{"[len(two)]int", "var one, two = [1]b.T{}, [b.N]rn.T{}\n", true},
}

type context struct {
	name   string
	wrap   func(x string) string
	needEq bool
	eq     bool // the result may be a map key when the content may
}

var contexts = []context{
	{"plain", func(x string) string { return x }, false, true},
	{"parentheses", func(x string) string { return "(" + x + ")" }, false, true},
	{"pointer", func(x string) string { return "*" + x }, false, true},
	{"slice", func(x string) string { return "[]" + x }, false, false},
	{"array", func(x string) string { return "[2]" + x }, false, true},
	{"map value", func(x string) string { return "map[string]" + x }, false, false},
	{"map key", func(x string) string { return "map[" + x + "]string" }, true, false},
	{"channel", func(x string) string { return "chan " + x }, false, true},
	{"function", func(x string) string { return "func(" + x + ") " + x }, false, false},
	{"interface", func(x string) string { return "interface{ M(" + x + ") }" }, false, true},
	{"tagged field", func(x string) string { return "struct {\n\tF, E " + x + " `json:\"f\"`\n}" }, false, true},
	{"untagged field", func(x string) string { return "struct {\n\tF " + x + "\n}" }, false, true},
	{"other tag", func(x string) string { return "struct {\n\tF " + x + " `yaml:\"f\"`\n}" }, false, true},
	{"generic argument", func(x string) string { return "b.Q[" + x + "]" }, false, true},
}

var declarations = []struct{ name, format string }{
	{"type", "type D %s\n"},
	{"alias", "type D = %s\n"},
	{"group", "type (\n\tE int\n\tD %s\n)\n"},
	{"generic", "type D[X any] struct {\n\tF %s `json:\"f\"`\n\tG X `json:\"g\"`\n}\n"},
	{"embedded", "type Emb %s\ntype D struct {\n\tEmb `json:\",inline\"`\n}\n"},
}

// filterKind is a filter that generators use.
type filterKind struct {
	name string
	fs   []loader.NodeFilter
}

func filters() []filterKind {
	c := crd.Generator{}.CheckFilter()
	d := deepcopy.Generator{}.CheckFilter()
	none := func(ast.Node) bool { return false }
	return []filterKind{
		{"no filter", nil},
		{"crd", []loader.NodeFilter{c}},
		{"object", []loader.NodeFilter{d}},
		{"crd and object", []loader.NodeFilter{c, d}},
		{"nothing and crd", []loader.NodeFilter{none, c}},
	}
}

func (f filterKind) passes(n ast.Node) bool {
	if len(f.fs) == 0 {
		return true
	}
	for _, g := range f.fs {
		if g(n) {
			return true
		}
	}
	return false
}

// described gives the type of every expression of the declarations that passes
// the filter, by position, and the packages of their types.
func described(files []*ast.File, fset *token.FileSet, info *types.Info, f filterKind) (map[string]string, map[string]bool) {
	out := map[string]string{}
	need := map[string]bool{}
	qual := func(p *types.Package) string { return p.Path() }
	for i, file := range files {
		base := fset.File(file.Pos())
		for _, d := range file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, s := range gd.Specs {
				ts := s.(*ast.TypeSpec)
				visit := func(root ast.Node) {
					var stack func(n ast.Node)
					stack = func(n ast.Node) {
						ast.Inspect(n, func(n ast.Node) bool {
							if n == nil || !f.passes(n) {
								return false
							}
							e, ok := n.(ast.Expr)
							if !ok {
								return true
							}
							key := fmt.Sprintf("file %d, %s, bytes %d to %d", i, ts.Name.Name, base.Offset(e.Pos()), base.Offset(e.End()))
							tv, ok := info.Types[e]
							if ok && tv.Type != nil {
								text := types.TypeString(tv.Type, qual)
								if st, isStruct := e.(*ast.StructType); isStruct {
									// its fields speak for themselves
									text = fmt.Sprintf("struct with %d field lists", len(st.Fields.List))
								} else if n, isNamed := tv.Type.(*types.Named); isNamed && n.TypeParams().Len() > n.TypeArgs().Len() {
									// its constraints may be hidden, and are compared where they are written
									text = n.Obj().Name()
									packagesOf(tv.Type, need, 0)
								} else if hides(e, f) {
									text = "not compared"
								} else {
									packagesOf(tv.Type, need, 0)
								}
								if tv.Value != nil {
									text += " = " + tv.Value.String()
								}
								out[key] = text
							}
							return true
						})
					}
					stack(root)
				}
				if ts.TypeParams != nil {
					visit(ts.TypeParams)
				}
				visit(ts.Type)
			}
		}
	}
	return out, need
}

// hides tells whether the filter hides some part of the expression.
func hides(e ast.Expr, f filterKind) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if n != nil && !f.passes(n) {
			found = true
		}
		return !found
	})
	return found
}

// packagesOf collects the packages of the named types.
func packagesOf(t types.Type, into map[string]bool, depth int) {
	if depth > 6 {
		return
	}
	switch t := t.(type) {
	case *types.Named:
		if t.Obj().Pkg() != nil {
			into[t.Obj().Pkg().Path()] = true
		}
		for i := 0; i < t.TypeArgs().Len(); i++ {
			packagesOf(t.TypeArgs().At(i), into, depth+1)
		}
	case *types.Alias:
		if t.Obj().Pkg() != nil {
			into[t.Obj().Pkg().Path()] = true
		}
	case *types.Pointer:
		packagesOf(t.Elem(), into, depth+1)
	case *types.Slice:
		packagesOf(t.Elem(), into, depth+1)
	case *types.Array:
		packagesOf(t.Elem(), into, depth+1)
	case *types.Chan:
		packagesOf(t.Elem(), into, depth+1)
	case *types.Map:
		packagesOf(t.Key(), into, depth+1)
		packagesOf(t.Elem(), into, depth+1)
	case *types.Signature:
		for _, tup := range []*types.Tuple{t.Params(), t.Results()} {
			for i := 0; i < tup.Len(); i++ {
				packagesOf(tup.At(i).Type(), into, depth+1)
			}
		}
	}
}

func references(r *mc.Run) {
	depth2 := 1
	if r.Thorough {
		depth2 = len(declarations)
	}
	kinds := filters()
	one := func(key, decls string) {
		if r.Expired() || !r.Mine() {
			return
		}
		r.Case(key, decls, true, func() string { return refCase(r, decls, kinds) })
	}
	// values of other packages that come from yet other ones
	one("ref [b.V]int", "type D [b.V]int\n")
	one("ref [len(b.Tab)]int", "type D [len(b.Tab)]int\n")
	for _, x := range refs {
		for _, c := range contexts {
			if c.needEq && !x.comparable {
				continue
			}
			e := c.wrap(x.expr)
			for _, d := range declarations {
				one(fmt.Sprintf("ref %s in %s as %s", x.expr, c.name, d.name), x.decl+fmt.Sprintf(d.format, e))
			}
			if !r.Thorough && (c.name == "parentheses" || c.name == "other tag") {
				continue
			}
			for _, c2 := range contexts[1:] {
				if c2.needEq && (!x.comparable || !c.eq) || c2.needEq && c.name == "function" {
					continue
				}
				for _, d := range declarations[:depth2] {
					one(fmt.Sprintf("ref %s in %s in %s as %s", x.expr, c.name, c2.name, d.name), x.decl+fmt.Sprintf(d.format, c2.wrap(e)))
				}
			}
		}
	}
}

func refCase(r *mc.Run, decls string, kinds []filterKind) string {
	p := pkgSrc{"ex.com/p", "p", []string{preamble + "\n" + decls, other}, []string{"ex.com/b", "ex.com/d", "ex.com/my-odd", "ex.com/r", "unsafe"}}
	srcs := append([]pkgSrc{p}, deps...)
	w := &world{fset: token.NewFileSet(), infos: map[string]*types.Info{}, files: map[string][]*ast.File{}, pkgs: map[string]*types.Package{}, srcs: map[string]pkgSrc{}}
	for _, s := range srcs {
		w.srcs[s.path] = s
	}
	if _, err := w.Import(p.path); err != nil {
		panic(err)
	}
	for _, e := range w.errs {
		if !strings.Contains(e, "invalid recursive type") && !strings.Contains(e, "embedded field type") {
			panic(decls + e)
		}
		r.Count("not valid Go", 1)
		return ""
	}
	root, err := load(r, srcs)
	if err != nil {
		return err.Error()
	}
	byPath := map[string]*loader.Package{}
	var visit func(p *loader.Package)
	visit = func(p *loader.Package) {
		if byPath[p.PkgPath] == nil {
			byPath[p.PkgPath] = p
			if len(p.Errors) > 0 {
				err = p.Errors[0]
			}
			for _, q := range p.Imports() {
				visit(q)
			}
		}
	}
	visit(root)
	if err != nil {
		return err.Error()
	}
	for _, f := range kinds {
		// as freshly loaded
		for _, p := range byPath {
			p.Errors, p.Syntax, p.Types, p.TypesInfo, p.IllTyped = nil, nil, nil, nil, false
		}
		(&loader.TypeChecker{NodeFilters: f.fs}).Check(root)
		queue := []string{p.path}
		done := map[string]bool{"unsafe": true}
		for len(queue) > 0 {
			path := queue[0]
			queue = queue[1:]
			if done[path] {
				continue
			}
			done[path] = true
			pkg := byPath[path]
			for _, e := range pkg.Errors {
				if e.Kind != packages.TypeError {
					return fmt.Sprintf("%s: error %s", f.name, e.Error())
				}
			}
			want, need := described(w.files[path], w.fset, w.infos[path], f)
			for n := range need {
				queue = append(queue, n)
			}
			sort.Strings(queue)
			if pkg.TypesInfo == nil {
				return fmt.Sprintf("%s: %s is not checked", f.name, path)
			}
			fset := pkg.Fset
			got, _ := described(pkg.Syntax, fset, pkg.TypesInfo, f)
			var keys []string
			for k := range want {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				r.Transition(1)
				if got[k] != want[k] {
					return fmt.Sprintf("%s: %s: %s is %q instead of %q", f.name, path, k, got[k], want[k])
				}
			}
			r.State(path + f.name + decls)
		}
	}
	return ""
}
