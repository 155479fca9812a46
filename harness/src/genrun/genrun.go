// Package genrun runs a generator over in-memory packages with in-memory
// artifacts.
package genrun

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/verifmc/vsync"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

// Files keeps artifacts in memory.
type Files struct {
	Text  map[string]string
	Twice []string
}

type file struct {
	bytes.Buffer
	m    *Files
	path string
}

func (f *file) Close() error { f.m.Text[f.path] = f.String(); return nil }

// Open implements genall.OutputRule.
func (m *Files) Open(pkg *loader.Package, path string) (io.WriteCloser, error) {
	if pkg != nil {
		path = pkg.PkgPath + "/" + path
	}
	if m.Text == nil {
		m.Text = map[string]string{}
	}
	if _, dup := m.Text[path]; dup {
		m.Twice = append(m.Twice, path)
	}
	m.Text[path] = ""
	return &file{m: m, path: path}, nil
}

// Input implements genall.InputRule.
type Input map[string]string

// OpenForRead implements genall.InputRule.
func (m Input) OpenForRead(path string) (io.ReadCloser, error) {
	s, ok := m[path]
	if !ok {
		return nil, errors.New("no such file " + path)
	}
	return io.NopCloser(strings.NewReader(s)), nil
}

// Outcome is everything a run shows.
type Outcome struct {
	Files map[string]string
	Twice []string
	Errs  []string
	Panic string
}

// Failed reports whether the run reports a failure.
func (o Outcome) Failed() bool { return len(o.Errs) > 0 }

func (o Outcome) String() string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	var names []string
	for n := range o.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	s := "errors: " + strings.Join(o.Errs, " | ") + "\n"
	for _, n := range names {
		s += "== " + n + "\n" + o.Files[n]
	}
	return s
}

// Run runs the generator in the context; goroutines it starts run in a fixed
// order (in a build with controlled goroutines).
func Run(g genall.Generator, ctx *genall.GenerationContext, all []*loader.Package) (out Outcome) {
	m := &Files{Text: map[string]string{}}
	ctx.OutputRule = m
	for _, p := range all {
		p.Errors = nil
	}
	s := &vsync.Sched{}
	s.Run(func() {
		defer func() {
			if e := recover(); e != nil {
				out.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		if err := g.Generate(ctx); err != nil {
			out.Errs = append(out.Errs, err.Error())
		}
	})
	if s.Deadlock {
		out.Panic = "deadlock"
	} else if s.Panic != "" {
		out.Panic = s.Panic
	}
	for _, p := range all {
		for _, e := range world.Errors(p) {
			out.Errs = append(out.Errs, p.PkgPath+": "+e)
		}
	}
	sort.Strings(out.Errs)
	out.Files, out.Twice = m.Text, m.Twice
	return out
}

// Source is one generated package.
type Source struct {
	Path  string
	Files []string
}

// Build makes the packages; later ones may import earlier ones.
func Build(w *world.World, srcs []Source) ([]*loader.Package, error) {
	var pkgs []*loader.Package
	defer func() {
		for _, s := range srcs {
			w.Forget(s.Path)
		}
	}()
	for _, s := range srcs {
		p, err := w.Pkg(s.Path, filepath.Base(s.Path), s.Files...)
		if err != nil {
			return nil, err
		}
		world.Link(p, pkgs...)
		w.Importable(p)
		pkgs = append(pkgs, p)
	}
	return pkgs, nil
}

// Permutations lists all orders of n things.
func Permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range Permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			out = append(out, append(append(append([]int{}, p[:i]...), n-1), p[i:]...))
		}
	}
	return out
}

// Warm makes collectors that already know the packages of the base world
// (collecting metav1's markers again for every case would dominate everything
// else).
type Warm struct{ c *markers.Collector }

// NewWarm collects the markers of the base world.
func NewWarm(w *world.World, reg *markers.Registry) *Warm {
	c := &markers.Collector{Registry: reg}
	for _, p := range w.Roots {
		_, _ = c.MarkersInPackage(p)
	}
	return &Warm{c}
}

// Collector gives a new collector.
func (w *Warm) Collector() *markers.Collector {
	c := &markers.Collector{Registry: w.c.Registry}
	from, to := reflect.ValueOf(w.c).Elem(), reflect.ValueOf(c).Elem()
	for i := 0; i < from.NumField(); i++ {
		f := from.Field(i)
		if f.Kind() != reflect.Map || f.IsNil() {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		m := reflect.MakeMap(f.Type())
		for _, k := range f.MapKeys() {
			m.SetMapIndex(k, f.MapIndex(k))
		}
		t := to.Field(i)
		reflect.NewAt(t.Type(), unsafe.Pointer(t.UnsafeAddr())).Elem().Set(m)
	}
	return c
}
