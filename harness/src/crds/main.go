// C11, C12: custom resource definitions.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/vsync"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

var (
	w   *world.World
	reg *markers.Registry
)

// memFiles keeps artifacts in memory.
type memFiles struct {
	files map[string]string
	twice []string
}

type memFile struct {
	bytes.Buffer
	m    *memFiles
	path string
}

func (f *memFile) Close() error { f.m.files[f.path] = f.String(); return nil }

func (m *memFiles) Open(_ *loader.Package, path string) (io.WriteCloser, error) {
	if _, dup := m.files[path]; dup {
		m.twice = append(m.twice, path)
	}
	m.files[path] = ""
	return &memFile{m: m, path: path}, nil
}

type memInput map[string]string

func (m memInput) OpenForRead(path string) (io.ReadCloser, error) {
	s, ok := m[path]
	if !ok {
		return nil, errors.New("no such file " + path)
	}
	return io.NopCloser(strings.NewReader(s)), nil
}

// outcome is everything a run shows.
type outcome struct {
	files map[string]string
	twice []string
	errs  []string
	panic string
}

func (o outcome) String() string {
	if o.panic != "" {
		return "panic: " + o.panic
	}
	var names []string
	for n := range o.files {
		names = append(names, n)
	}
	sort.Strings(names)
	s := "errors: " + strings.Join(o.errs, " | ") + "\n"
	for _, n := range names {
		s += "== " + n + "\n" + o.files[n]
	}
	return s
}

// run puts the packages through the generator, with a context of their own.
func run(g crd.Generator, roots []*loader.Package, all []*loader.Package, input memInput) outcome {
	ctx := context(roots, input)
	return runIn(ctx, g, all)
}

func context(roots []*loader.Package, input memInput) *genall.GenerationContext {
	return &genall.GenerationContext{
		Collector: warmCollector(),
		Roots:     roots,
		Checker:   &loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}},
		InputRule: input,
	}
}

var warmed *markers.Collector

// warmCollector gives a new collector that already knows the packages of the
// base world (collecting metav1's markers again for every case would dominate
// everything else).
func warmCollector() *markers.Collector {
	if warmed == nil {
		warmed = &markers.Collector{Registry: reg}
		for _, p := range w.Roots {
			_, _ = warmed.MarkersInPackage(p)
		}
	}
	c := &markers.Collector{Registry: reg}
	from, to := reflect.ValueOf(warmed).Elem(), reflect.ValueOf(c).Elem()
	for i := 0; i < from.NumField(); i++ {
		f := from.Field(i)
		if f.Kind() != reflect.Map || f.IsNil() {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		m := reflect.MakeMap(f.Type())
		for _, k := range f.MapKeys() {
			m.SetMapIndex(k, f.MapIndex(k))
		}
		t := to.Field(i)
		reflect.NewAt(t.Type(), unsafe.Pointer(t.UnsafeAddr())).Elem().Set(m)
	}
	return c
}

func runIn(ctx *genall.GenerationContext, g crd.Generator, all []*loader.Package) (out outcome) {
	m := &memFiles{files: map[string]string{}}
	ctx.OutputRule = m
	for _, p := range all {
		p.Errors = nil
	}
	// the type checker starts goroutines: in a fixed order, unless explored
	s := &vsync.Sched{}
	s.Run(func() {
		defer func() {
			if e := recover(); e != nil {
				out.panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		if err := g.Generate(ctx); err != nil {
			out.errs = append(out.errs, err.Error())
		}
	})
	if s.Deadlock {
		out.panic = "deadlock"
	} else if s.Panic != "" {
		out.panic = s.Panic
	}
	for _, p := range all {
		for _, e := range world.Errors(p) {
			out.errs = append(out.errs, p.PkgPath+": "+e)
		}
	}
	sort.Strings(out.errs)
	out.files, out.twice = m.files, m.twice
	return out
}

// source is one package of a generated API.
type source struct {
	path  string
	files []string
}

// build makes the packages; later ones may import earlier ones.
func build(srcs []source) ([]*loader.Package, error) {
	var pkgs []*loader.Package
	defer func() {
		for _, s := range srcs {
			w.Forget(s.path)
		}
	}()
	for _, s := range srcs {
		p, err := w.Pkg(s.path, filepath.Base(s.path), s.files...)
		if err != nil {
			return nil, err
		}
		world.Link(p, pkgs...)
		w.Importable(p)
		pkgs = append(pkgs, p)
	}
	return pkgs, nil
}

// setupWorld loads the base packages and warms every cache below them, so that
// all runs make the same choices.
func setupWorld() {
	w = world.Must()
	warmCollector()
	pkgs, err := build([]source{{"ex.com/warm", []string{head("warm", "w.io") + kind("Foo", "", "string")}}})
	if err != nil {
		panic(err)
	}
	for i := 0; i < 2; i++ {
		run(crd.Generator{}, pkgs, pkgs, memInput{})
	}
}

func main() {
	reg = &markers.Registry{}
	if err := (crd.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
	specs := map[string]mc.Spec{
		"C11": {Property: "C11", Body: c11,
			Rule:        "every combination of version markers over up to three versions, every combination of resource, subresource, column, selectable field and metadata markers, package and type shapes, and generator options, each with the markers in both orders; non-trivial: a CRD is produced",
			Assumptions: []string{"the expected CRD computed in the harness from the documented meaning of the markers", "later versions win where versions disagree about the resource"}},
		"C12": {Property: "C12", Body: c12,
			Rule:        "for each API of the corpus every map iteration order within the deviation bound, every order of packages and of files, every subset of the packages that holds all versions of a kind, repeated and shared runs; non-trivial: the order differs from the default one",
			Assumptions: []string{"map iteration is the only source of nondeterminism inside a single-threaded run"}},
	}
	spec, ok := specs[os.Args[1]]
	if !ok {
		fmt.Println("unknown", os.Args[1])
		os.Exit(2)
	}
	mc.Main(spec)
}
