// C19: loading under every interleaving.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/vsync"
)

// pkgSrc is a package on disk.
type pkgSrc struct {
	path    string
	files   []string // contents; "-" for a file that is not there, "/" for a directory
	imports []string
}

const driver = "#!/bin/sh\ncat > /dev/null\nif [ -f response.json ]; then cat response.json; else cat \"$VERIF_DRIVER_RESPONSE\"; fi\n"

// load loads the packages through the loader; the first are the roots, which
// are loaded together or each on its own.
func load(r *mc.Run, srcs []pkgSrc, roots int, each bool) ([]*loader.Package, error) {
	dir := filepath.Join(r.Scratch, "src")
	_ = os.RemoveAll(dir)
	resp := packages.DriverResponse{Compiler: "gc", Arch: "amd64"}
	var patterns []string
	for i, s := range srcs {
		p := &packages.Package{ID: s.path, PkgPath: s.path, Name: filepath.Base(s.path), Imports: map[string]*packages.Package{}}
		for j, text := range s.files {
			fn := filepath.Join(dir, s.path, fmt.Sprintf("f%d.go", j))
			_ = os.MkdirAll(filepath.Dir(fn), 0o755)
			switch text {
			case "-":
			case "/":
				_ = os.Mkdir(fn, 0o755)
			default:
				if err := os.WriteFile(fn, []byte(text), 0o644); err != nil {
					return nil, err
				}
			}
			p.GoFiles = append(p.GoFiles, fn)
			p.CompiledGoFiles = append(p.CompiledGoFiles, fn)
		}
		for _, im := range s.imports {
			p.Imports[im] = &packages.Package{ID: im}
		}
		resp.Packages = append(resp.Packages, p)
		if i < roots {
			resp.Roots = append(resp.Roots, p.ID)
			patterns = append(patterns, p.ID)
		}
	}
	if each {
		patterns = nil
		for _, s := range srcs[:roots] {
			d := filepath.Join(dir, s.path)
			one := resp
			one.Roots = []string{s.path}
			data, err := json.Marshal(one)
			if err != nil {
				return nil, err
			}
			if err := os.WriteFile(filepath.Join(d, "response.json"), data, 0o644); err != nil {
				return nil, err
			}
			patterns = append(patterns, d)
		}
	}
	data, err := json.Marshal(resp)
	if err != nil {
		return nil, err
	}
	file := filepath.Join(r.Scratch, "response.json")
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return nil, err
	}
	os.Setenv("VERIF_DRIVER_RESPONSE", file)
	return loader.LoadRootsWithConfig(&packages.Config{}, patterns...)
}

// all lists the packages of the graph, by path (there may be several of the
// same path, one for each load).
func all(roots []*loader.Package) []*loader.Package {
	seen := map[*loader.Package]bool{}
	var out []*loader.Package
	var visit func(p *loader.Package)
	visit = func(p *loader.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		out = append(out, p)
		var paths []string
		for path := range p.Imports() {
			paths = append(paths, path)
		}
		sort.Strings(paths)
		for _, path := range paths {
			visit(p.Imports()[path])
		}
	}
	for _, p := range roots {
		visit(p)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].PkgPath < out[j].PkgPath })
	return out
}

// state of a package right after loading.
type state struct {
	errs []packages.Error
}

func save(pkgs []*loader.Package) []state {
	var out []state
	for _, p := range pkgs {
		out = append(out, state{append([]packages.Error{}, p.Errors...)})
	}
	return out
}

func restore(pkgs []*loader.Package, st []state) {
	for i, p := range pkgs {
		p.Errors = append([]packages.Error{}, st[i].errs...)
		p.Syntax, p.Types, p.TypesInfo, p.IllTyped = nil, nil, nil, false
	}
}

// passes is the filter of most checks: no functions and no interfaces.
func passes(n ast.Node) bool {
	switch n.(type) {
	case *ast.FuncType, *ast.InterfaceType:
		return false
	}
	return true
}

// describe tells everything about the packages that may not depend on the
// schedule.
func describe(pkgs []*loader.Package, dir string, filtered, onlyErrors bool) string {
	var b strings.Builder
	for _, p := range pkgs {
		fmt.Fprintf(&b, "package %s", p.PkgPath)
		if !filtered && p.IllTyped {
			b.WriteString(" (ill-typed)")
		}
		for _, e := range p.Errors {
			if e.Kind == packages.TypeError && filtered {
				continue // of declarations that are ignored, too
			}
			fmt.Fprintf(&b, "\n error %v %s: %s", e.Kind, strings.ReplaceAll(e.Pos, dir, ""), strings.ReplaceAll(e.Msg, dir, ""))
		}
		if onlyErrors {
			continue
		}
		for _, f := range p.Syntax {
			fmt.Fprintf(&b, "\n file %s", f.Name.Name)
			ast.Inspect(f, func(n ast.Node) bool {
				ts, ok := n.(*ast.TypeSpec)
				if !ok {
					return true
				}
				fmt.Fprintf(&b, "\n  type %s", ts.Name.Name)
				if p.TypesInfo == nil {
					return false
				}
				obj := p.TypesInfo.Defs[ts.Name]
				if obj == nil {
					fmt.Fprintf(&b, " unknown")
					return false
				}
				if st, ok := ts.Type.(*ast.StructType); ok {
					for _, fld := range st.Fields.List {
						if filtered && !interesting(fld.Type) {
							continue
						}
						t := p.TypesInfo.TypeOf(fld.Type)
						fmt.Fprintf(&b, "\n   field %s %s", fld.Names[0].Name, typeText(t, 0))
					}
				} else {
					fmt.Fprintf(&b, "\n   is %s", typeText(obj.Type(), 0))
				}
				return false
			})
		}
		b.WriteString("\n")
	}
	return b.String()
}

func interesting(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if n != nil && !passes(n) {
			ok = false
		}
		return ok
	})
	return ok
}

// typeText tells what the type is, through its fields.
func typeText(t types.Type, depth int) string {
	if t == nil {
		return "nil"
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if depth > 4 {
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s += "{"
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if strings.Contains(ft.String(), "func") || strings.Contains(ft.String(), "interface") {
				continue // ignored by the filter
			}
			s += u.Field(i).Name() + " " + typeText(ft, depth+1) + ";"
		}
		s += "}"
	case *types.Pointer:
		s += "*" + typeText(u.Elem(), depth+1)
	case *types.Slice:
		s += "[]" + typeText(u.Elem(), depth+1)
	case *types.Basic:
		s += "=" + u.Name()
	}
	return s
}

// races reads what the race detector found since the last time.
func races(r *mc.Run) string {
	if raceLog == nil {
		m, _ := filepath.Glob(filepath.Join(r.Scratch, "race.*"))
		if len(m) == 0 {
			return ""
		}
		f, err := os.Open(m[0])
		if err != nil {
			panic(err)
		}
		raceLog = f
	}
	data, err := io.ReadAll(raceLog)
	if err != nil {
		panic(err)
	}
	return string(data)
}

var raceLog *os.File

// explore runs body under every schedule and compares the outcomes.
func explore(r *mc.Run, key string, bound int, delays bool, pkgs []*loader.Package, body func(), filtered bool, want func(got string) string) string {
	st := save(pkgs)
	dir := filepath.Join(r.Scratch, "src")
	first, msg := "", ""
	how := vsync.Explore
	if delays {
		how = vsync.ExploreDelays
	}
	res := how(bound, 50000, func() func() {
		restore(pkgs, st)
		return body
	}, func(s *vsync.Sched) bool {
		r.Transition(len(s.Points) + 1)
		switch {
		case s.Deadlock:
			msg = fmt.Sprintf("deadlock under schedule %v", s.Trace())
		case s.Panic != "":
			msg = fmt.Sprintf("panic under schedule %v: %s", s.Trace(), s.Panic)
		case s.Overrun:
			msg = fmt.Sprintf("does not end under schedule %v", s.Trace())
		}
		if msg == "" {
			if race := races(r); race != "" {
				msg = fmt.Sprintf("data race under schedule %v\n%s", s.Trace(), race)
			}
		}
		if msg == "" {
			got := describe(pkgs, dir, filtered, strings.HasPrefix(key, "cycle"))
			r.State(key + got + fmt.Sprint(len(s.Points)))
			if first == "" {
				first = got
				if want != nil {
					if m := want(got); m != "" {
						msg = fmt.Sprintf("under schedule %v: %s\n%s", s.Trace(), m, got)
					}
				}
			} else if got != first {
				msg = fmt.Sprintf("under schedule %v:\n%s\ninstead of\n%s", s.Trace(), got, first)
			}
		}
		return msg == ""
	})
	r.Count("schedules", res.Executions)
	if !res.Complete && !res.Stopped {
		r.Incomplete("schedules of " + key)
	}
	return msg
}

func body(r *mc.Run) {
	if !vsync.Racy {
		panic("not built with the race detector")
	}
	drv := filepath.Join(r.Scratch, "driver.sh")
	if err := os.WriteFile(drv, []byte(driver), 0o755); err != nil {
		panic(err)
	}
	os.Setenv("GOPACKAGESDRIVER", drv)
	// the race detector has to notice a race of the harness's own
	races(r)
	s := &vsync.Sched{}
	n := 0
	s.Run(func() {
		var wg vsync.WaitGroup
		var mu vsync.Mutex
		for i := 0; i < 2; i++ {
			wg.Add(1)
			vsync.Go(func() { defer wg.Done(); mu.Lock(); n++; mu.Unlock() })
		}
		wg.Wait()
		n++
	})
	if got := races(r); got != "" {
		panic("a race that is none: " + got)
	}
	s = &vsync.Sched{}
	s.Run(func() {
		var wg vsync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			vsync.Go(func() { defer wg.Done(); n++ })
		}
		wg.Wait()
	})
	if got := races(r); !strings.Contains(got, "DATA RACE") {
		panic("the race detector does not work")
	}
	parsing(r)
	graphs(r)
	cycles(r)
	r.Sample("parsing of packages of up to three good, bad and missing files, and type checking of every import graph of three packages with every kind of reference, and import cycles")
}

// parsing: every combination of good and bad files.
func parsing(r *mc.Run) {
	kinds := []struct {
		name, text string
		errs       int
	}{
		{"good", "package p\n\ntype T%d struct{ A string }\n", 0},
		{"syntax error", "package p\n\ntype T%d struct{ A string\n", 1},
		{"two errors", "package p\n\ntype T%d strukt{ }\n\nfunc (\n", 2},
		{"missing", "-", 1},
		{"directory", "/", 1},
		{"other package", "package q\n\ntype U%d int\n", 0},
	}
	bound := 2
	max := 3
	if r.Thorough {
		bound, max = 3, 4
	}
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 && !r.Expired() && r.Mine() {
			key := fmt.Sprint("parse")
			src := pkgSrc{path: "ex.com/p"}
			bad := 0
			for i, k := range cur {
				key += " " + kinds[k].name
				text := kinds[k].text
				if strings.Contains(text, "%d") {
					text = fmt.Sprintf(text, i)
				}
				src.files = append(src.files, text)
				if kinds[k].errs > 0 {
					bad++
				}
			}
			r.Case(key, "", bad > 0, func() string {
				pkgs, err := load(r, []pkgSrc{src}, 1, false)
				if err != nil {
					return err.Error()
				}
				return explore(r, key, bound, false, pkgs, func() {
					pkgs[0].NeedSyntax()
					pkgs[0].NeedSyntax()
				}, false, func(string) string {
					// errors of every bad file, in the order of the files, once
					last := -1
					seen := map[int]bool{}
					dup := map[string]bool{}
					for _, e := range pkgs[0].Errors {
						at := -1
						for i := range cur {
							if strings.Contains(e.Pos, fmt.Sprintf("f%d.go", i)) {
								at = i
							}
						}
						if at < last || at < 0 {
							return "errors are not in order"
						}
						if dup[e.Error()] {
							return "an error is there twice"
						}
						dup[e.Error()] = true
						last, seen[at] = at, true
					}
					for i, k := range cur {
						if seen[i] != (kinds[k].errs > 0) {
							return fmt.Sprintf("file %d has errors: %v", i, seen[i])
						}
					}
					if bad == 0 && len(pkgs[0].Syntax) != len(cur) {
						return fmt.Sprintf("%d files", len(pkgs[0].Syntax))
					}
					if bad > 0 && len(pkgs[0].Syntax) != 0 {
						for _, f := range pkgs[0].Syntax {
							if f == nil {
								return "nil syntax"
							}
						}
					}
					return ""
				})
			})
		}
		if len(cur) < max {
			for k := range kinds {
				rec(append(append([]int{}, cur...), k))
			}
		}
	}
	rec(nil)
}

// edge is how a package uses another one.
type edge int

const (
	noEdge  edge = iota
	field        // in a struct field
	ignored      // in a function type, which the filter ignores
	both
	edges
)

// sources makes the packages of a graph: pkg i has edge e[i][j] to package j.
func sources(n int, e [][]edge, twoFiles bool, broken int) []pkgSrc {
	var out []pkgSrc
	name := func(i int) string { return string(rune('a' + i)) }
	for i := 0; i < n; i++ {
		s := pkgSrc{path: "ex.com/" + name(i)}
		imps, flds, fns := "", "", ""
		for j := 0; j < n; j++ {
			if e[i][j] == noEdge {
				continue
			}
			s.imports = append(s.imports, "ex.com/"+name(j))
			imps += fmt.Sprintf("import %q\n", "ex.com/"+name(j))
			if e[i][j] == field || e[i][j] == both {
				flds += fmt.Sprintf("\tF%s []*%s.T\n", name(j), name(j))
			}
			if e[i][j] == ignored || e[i][j] == both {
				fns += fmt.Sprintf("\tG%s func(%s.T)\n", name(j), name(j))
			}
		}
		if i == broken {
			fns += "\tX Undeclared\n"
		}
		text := fmt.Sprintf("package %s\n\n%s\ntype T struct {\n\tA string\n%s%s}\n", name(i), imps, flds, fns)
		s.files = []string{text}
		if twoFiles {
			s.files = append(s.files, fmt.Sprintf("package %s\n\ntype U struct {\n\tB T\n}\n", name(i)))
		}
		out = append(out, s)
	}
	return out
}

// checkAll type-checks the roots as generators do, one after the other.
func checkAll(roots []*loader.Package, filters []loader.NodeFilter) func() {
	return func() {
		c := &loader.TypeChecker{NodeFilters: filters}
		for _, p := range roots {
			c.Check(p)
		}
		for _, p := range roots {
			c.Check(p)
		}
	}
}

func graphs(r *mc.Run) {
	for n := 2; n <= 4; n++ {
		pairs := n * (n - 1) / 2
		base := int(edges)
		bound := 2
		if n == 4 {
			base = 2 // only fields
			bound = 1
			if r.Thorough {
				base, bound = 3, 2
			}
		} else if r.Thorough {
			bound = 3
		}
		total := 1
		for i := 0; i < pairs; i++ {
			total *= base
		}
		for code := 0; code < total; code++ {
			e := make([][]edge, n)
			c := code
			for i := range e {
				e[i] = make([]edge, n)
				for j := i + 1; j < n; j++ {
					e[i][j] = edge(c % base)
					c /= base
				}
			}
			for variant := 0; variant < 9; variant++ {
				twoFiles := variant == 1 || variant == 5
				broken := -1
				switch variant {
				case 2, 7:
					broken = n - 1
				case 3, 8:
					broken = 1
				}
				filtered := variant != 4 && variant < 7
				roots := 1
				if variant == 5 || variant == 6 {
					roots = n
				}
				if n == 4 && !r.Thorough && variant != 0 && variant != 4 {
					continue
				}
				if r.Expired() || !r.Mine() {
					continue
				}
				key := fmt.Sprintf("graph %d %v variant %d", n, e, variant)
				srcs := sources(n, e, twoFiles, broken)
				r.Case(key, srcs[0].files[0], code > 0, func() string {
					pkgs, err := load(r, srcs, roots, variant == 6)
					if err != nil {
						return err.Error()
					}
					every := all(pkgs)
					var filters []loader.NodeFilter
					if filtered {
						filters = []loader.NodeFilter{passes}
					}
					// the whole package, with everything it needs, one after the other
					st := save(every)
					byPath := map[string]*loader.Package{}
					for _, p := range every {
						byPath[p.PkgPath] = p
					}
					for i := n - 1; i >= 0; i-- {
						if p := byPath[srcs[i].path]; p != nil {
							p.NeedTypesInfo()
						}
					}
					full := perType(describe(every, filepath.Join(r.Scratch, "src"), filtered, false))
					restore(every, st)
					return explore(r, key, bound, n > 2, every, checkAll(pkgs, filters), filtered, func(got string) string {
						for name, text := range perType(got) {
							if text != full[name] {
								return fmt.Sprintf("%s differs from checking everything: %s", name, full[name])
							}
						}
						// nothing that is needed is left out
						need := map[int]bool{}
						var visit func(i int)
						visit = func(i int) {
							if need[i] {
								return
							}
							need[i] = true
							for j := range e[i] {
								if e[i][j] == field || e[i][j] == both || e[i][j] == ignored && !filtered {
									visit(j)
								}
							}
						}
						for i := 0; i < roots; i++ {
							visit(i)
						}
						for i := range need {
							if byPath[srcs[i].path].TypesInfo == nil {
								return srcs[i].path + " is not checked"
							}
						}
						typeErrs := false
						for _, p := range every {
							for _, e := range p.Errors {
								if e.Kind != packages.TypeError {
									return "error " + e.Error()
								}
								typeErrs = true
							}
						}
						if !filtered && typeErrs != (broken >= 0 && need[broken]) {
							return fmt.Sprintf("type errors: %v", typeErrs)
						}
						if !filtered {
							// a package is ill-typed if one that it uses is
							var bad func(i int) bool
							bad = func(i int) bool {
								if i == broken {
									return true
								}
								for j := range e[i] {
									if e[i][j] != noEdge && bad(j) {
										return true
									}
								}
								return false
							}
							for i := range need {
								if p := byPath[srcs[i].path]; p.IllTyped != bad(i) {
									return fmt.Sprintf("%s is ill-typed: %v", p.PkgPath, p.IllTyped)
								}
							}
						}
						if broken >= 0 && need[broken] {
							found := false
							for _, e := range byPath[srcs[broken].path].Errors {
								found = found || strings.Contains(e.Msg, "Undeclared")
							}
							if !found {
								return "the type error is not recorded"
							}
						}
						return ""
					})
				})
			}
		}
	}
}

// perType splits a description by package and type, where it was checked.
func perType(text string) map[string]string {
	out := map[string]string{}
	pkg, typ := "", ""
	for _, l := range strings.Split(text, "\n") {
		switch {
		case strings.HasPrefix(l, "package "):
			pkg, typ = l, ""
		case strings.HasPrefix(l, "  type "):
			typ = pkg + l
		case strings.HasPrefix(l, "   ") && typ != "":
			out[typ] += l + "\n"
		}
	}
	return out
}

// cycles: import cycles are reported, and nothing waits forever.
func cycles(r *mc.Run) {
	bound := 1
	if r.Thorough {
		bound = 2
	}
	for n := 2; n <= 3; n++ {
		pairs := n * (n - 1)
		for code := 0; code < 1<<pairs; code++ {
			e := make([][]edge, n)
			c := code
			for i := range e {
				e[i] = make([]edge, n)
				for j := range e[i] {
					if i != j {
						e[i][j] = edge(c % 2)
						c /= 2
					}
				}
			}
			// reachability
			reach := func(a, b int) bool {
				seen := map[int]bool{}
				var visit func(i int) bool
				visit = func(i int) bool {
					for j := range e[i] {
						if e[i][j] != noEdge && !seen[j] {
							seen[j] = true
							if j == b || visit(j) {
								return true
							}
						}
					}
					return false
				}
				return visit(a)
			}
			for variant := 1; variant <= 2*n; variant++ {
				if r.Expired() || !r.Mine() {
					continue
				}
				roots, each := (variant+1)/2, variant%2 == 0
				cyc := false
				for i := 0; i < n; i++ {
					from := false
					for k := 0; k < roots; k++ {
						from = from || k == i || reach(k, i)
					}
					cyc = cyc || from && reach(i, i)
				}
				key := fmt.Sprintf("cycle %d %v roots %d %v", n, e, roots, each)
				srcs := sources(n, e, false, -1)
				r.Case(key, "", cyc, func() string {
					pkgs, err := load(r, srcs, roots, each)
					if err != nil {
						return err.Error()
					}
					every := all(pkgs)
					return explore(r, key, bound, n > 2, every, checkAll(pkgs, []loader.NodeFilter{passes}), true, func(string) string {
						reported := false
						for _, p := range every {
							for _, e := range p.Errors {
								reported = reported || e.Kind != packages.TypeError
							}
						}
						if reported != cyc {
							return fmt.Sprintf("a cycle is reported: %v", reported)
						}
						return ""
					})
				})
			}
		}
	}
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C19" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C19", Body: body,
		Rule:        "all schedules up to two (thorough: three) preemptions at every synchronisation operation and goroutine start, each under the race detector, of: parsing packages of up to three files, each of them good or bad in one of five ways; type-checking every acyclic import graph of two to four packages with every kind of reference (none, field, ignored, both; four packages: none, field), with and without filter, broken packages, several files and roots; and every import graph of up to three packages with cycles; non-trivial: something is wrong or referenced",
		Assumptions: []string{"locks, wait groups and goroutines of the code under test are replaced by controlled ones that tell the race detector the ordering the real ones give", "a schedule in which no data race is found is determined by the order of the synchronisation operations", "packages are listed by a stand-in driver"}})
}
