// Package world produces loader.Package values for in-memory sources, so that
// a check can put hundreds of thousands of Go packages through the real code.
//
// One package is loaded the ordinary way (go list, through loader.LoadRoots);
// the in-memory ones share its loader: parsing is ours, type checking and
// everything behind it is the code under test.
package world

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/loader"
)

// World holds the shared loader.
type World struct {
	Fset  *token.FileSet
	Roots []*loader.Package
	raw   map[string]*packages.Package // every package of the graph, by path
	wrap  map[string]*loader.Package
	tmpl  *loader.Package
	n     int
	// Generated packages by path (so that later ones can import them).
	gen map[string]*packages.Package
}

// DefaultImports are loaded in every World.
var DefaultImports = []string{
	"k8s.io/apimachinery/pkg/apis/meta/v1",
	"k8s.io/api/core/v1",
	"k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1",
	"k8s.io/apimachinery/pkg/util/intstr",
	"k8s.io/apimachinery/pkg/api/resource",
	"k8s.io/apimachinery/pkg/runtime",
	"encoding/json", "time", "fmt",
}

// Light loads no Kubernetes package.
var Light = []string{"fmt"}

// New loads the base packages through the loader under test.
func New(imports ...string) (*World, error) {
	if len(imports) == 0 {
		imports = DefaultImports
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	w := &World{Fset: token.NewFileSet(), raw: map[string]*packages.Package{}, gen: map[string]*packages.Package{}, wrap: map[string]*loader.Package{}}
	cfg := &packages.Config{Dir: repo, Fset: w.Fset}
	roots, err := loader.LoadRootsWithConfig(cfg, imports...)
	if err != nil {
		return nil, err
	}
	if len(roots) == 0 {
		return nil, fmt.Errorf("no packages loaded")
	}
	w.Roots = roots
	w.tmpl = roots[0]
	var raws []*packages.Package
	for _, r := range roots {
		raws = append(raws, r.Package)
		w.wrap[r.PkgPath] = r
	}
	packages.Visit(raws, nil, func(p *packages.Package) { w.raw[p.PkgPath] = p })
	return w, nil
}

// Must is New or exit.
func Must(imports ...string) *World {
	w, err := New(imports...)
	if err != nil {
		fmt.Println("setup:", err)
		os.Exit(3)
	}
	return w
}

// Package returns a loaded (root) package.
func (w *World) Package(path string) *loader.Package { return w.wrap[path] }

// ParseError is returned for sources that do not parse.
type ParseError struct{ Err error }

func (p ParseError) Error() string { return "generated source does not parse: " + p.Err.Error() }

// Pkg makes a package of the given import path from in-memory files.
func (w *World) Pkg(path, name string, files ...string) (*loader.Package, error) {
	w.n++
	raw := &packages.Package{ID: path, Name: name, PkgPath: path, Imports: map[string]*packages.Package{}, TypesSizes: w.tmpl.Package.TypesSizes}
	var syn []*ast.File
	for i, src := range files {
		fn := fmt.Sprintf("/mem/%s/f%d.go", path, i)
		f, err := parser.ParseFile(w.Fset, fn, src, parser.ParseComments|parser.AllErrors)
		if err != nil {
			return nil, ParseError{err}
		}
		raw.GoFiles = append(raw.GoFiles, fn)
		raw.CompiledGoFiles = append(raw.CompiledGoFiles, fn)
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if g := w.gen[p]; g != nil {
				raw.Imports[p] = g
			} else if g := w.raw[p]; g != nil {
				raw.Imports[p] = g
			}
		}
		syn = append(syn, f)
	}
	raw.Syntax = syn
	return w.wrapRaw(raw), nil
}

// wrapRaw gives a raw package the same loader as the template's.
func (w *World) wrapRaw(raw *packages.Package) *loader.Package {
	p := clone(w.tmpl)
	p.Package = raw
	importsMap := map[string]*loader.Package{}
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Type() {
		case reflect.TypeOf(importsMap):
			// forget the template's imports; they are recomputed on demand
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.Zero(f.Type()))
		case reflect.TypeOf(sync.Mutex{}):
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.Zero(f.Type()))
		}
	}
	return p
}

// Importable registers pkg so that packages generated later can import it, and
// returns the wrapped package those will see.
func (w *World) Importable(pkg *loader.Package) {
	w.gen[pkg.PkgPath] = pkg.Package
}

// ImportableAs is Importable for a package that is imported by a path that is
// not its own (a vendored package).
func (w *World) ImportableAs(path string, pkg *loader.Package) {
	w.gen[path] = pkg.Package
}

// LinkAs is Link for a package that is imported by another path.
func LinkAs(pkg *loader.Package, path string, dep *loader.Package) {
	im := pkg.Imports()
	if _, ok := im[path]; ok {
		im[path] = dep
	}
}

// Link points the imports of pkg at the given wrapped packages (the loader
// does the same for root packages).
func Link(pkg *loader.Package, deps ...*loader.Package) {
	im := pkg.Imports()
	for _, d := range deps {
		if _, ok := im[d.PkgPath]; ok {
			im[d.PkgPath] = d
		}
	}
}

// Forget drops a generated package.
func (w *World) Forget(path string) { delete(w.gen, path) }

func clone(p *loader.Package) *loader.Package {
	n := reflect.New(reflect.TypeOf(p).Elem())
	n.Elem().Set(reflect.ValueOf(p).Elem())
	return n.Interface().(*loader.Package)
}

// Errors renders the errors of a package (as the tool does, without errors of
// type checking: packages that are not needed are not loaded).
func Errors(p *loader.Package) []string {
	var out []string
	for _, e := range p.Errors {
		if e.Kind == packages.TypeError {
			continue
		}
		out = append(out, e.Msg)
	}
	sort.Strings(out)
	return out
}

// Fresh recycles the file set size concern: the number of packages made.
func (w *World) Made() int { return w.n }
