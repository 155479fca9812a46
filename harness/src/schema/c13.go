package main

import (
	"fmt"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

func c13(r *mc.Run) {
	setup()
	alphabet := []string{"a", "~", "/", "0", "1", ".", "-", "%", "b"}
	depth := 6
	if r.Thorough {
		depth = 7
	}
	names := []string{"T", "T0", "A_1", "É", "e"}
	// injectivity needs all links in one place; one shard owns a first letter
	var walk func(prefix string, d int, links map[string]string)
	one := func(path string, links map[string]string) {
		for _, n := range names {
			key := "ref:" + path + "|" + n
			r.State(key)
			r.Transition(1)
			r.Case(key, path+" "+n, strings.ContainsAny(path, "~/"), func() string {
				link := crd.TypeRefLink(path, n)
				typ, pkg, err := crd.RefParts(link)
				if err != nil {
					return fmt.Sprintf("link %q does not resolve: %v", link, err)
				}
				if typ != n || pkg != path {
					return fmt.Sprintf("link %q of %q in %q resolves to %q in %q", link, n, path, typ, pkg)
				}
				if o, ok := links[link]; ok {
					return fmt.Sprintf("link %q stands for %s and %s|%s", link, o, path, n)
				}
				links[link] = path + "|" + n
				r.Outcome(fmt.Sprint(strings.Count(link, "~"), strings.Count(link, "/")))
				return ""
			})
		}
	}
	walk = func(prefix string, d int, links map[string]string) {
		if d == 0 {
			return
		}
		for _, a := range alphabet {
			one(prefix+a, links)
			walk(prefix+a, d-1, links)
			if r.Expired() {
				return
			}
		}
	}
	for _, a := range alphabet {
		for _, b := range alphabet {
			if !r.Mine() {
				continue
			}
			links := map[string]string{}
			one(a+b, links)
			walk(a+b, depth-2, links)
		}
	}
	if r.Mine() {
		links := map[string]string{}
		one("", links)
		for _, a := range alphabet {
			one(a, links)
		}
	}
	// links that are none
	for _, l := range []string{"", "#/definitions", "#/definition/T", "T", "definitions/T", "#/properties/x", "/definitions/T"} {
		if !r.Mine() {
			continue
		}
		l := l
		r.State("bad:" + l)
		r.Case("bad:"+l, l, true, func() string {
			if _, _, err := crd.RefParts(l); err == nil {
				return fmt.Sprintf("%q is no reference to a definition, but is taken for one", l)
			}
			return ""
		})
	}
	c13e2e(r)
	c13vendor(r)
}

// c13vendor: packages in vendor directories go by the path they are imported by.
func c13vendor(r *mc.Run) {
	els := []string{"a.com", "b", "vendor", "vendors", "xvendor", "~1"}
	depth := 5
	if r.Thorough {
		depth = 7
	}
	var walk func(path []string)
	walk = func(path []string) {
		if len(path) == depth || r.Expired() {
			return
		}
		for _, e := range els {
			p := append(append([]string{}, path...), e)
			if p[0] == "vendor" || e == "vendor" && path[len(path)-1] == "vendor" || len(p) == 1 && !r.Mine() {
				continue
			}
			walk(p)
			if e == "vendor" {
				continue // no package
			}
			want := p
			for i, x := range p {
				if x == "vendor" {
					want = p[i+1:]
				}
			}
			raw, key := strings.Join(p, "/"), "vendor:"+strings.Join(p, "/")
			r.State(key)
			r.Transition(1)
			r.Case(key, raw, len(want) != len(p), func() string {
				if got, want := loader.NonVendorPath(raw), strings.Join(want, "/"); got != want {
					return fmt.Sprintf("%s is imported as %s, not as %s", raw, want, got)
				}
				return ""
			})
		}
	}
	walk(nil)
	for _, dir := range []string{"example.com/main/vendor/", "example.com/main/vendor/mid.com/vendor/", "a/vendor/b/vendor/c.com/d/vendor/"} {
		for _, path := range []string{"dep.com/x", "dep.com", "dep.com/~1/y"} {
			for _, also := range []bool{false, true} {
				if !r.Mine() {
					continue
				}
				key := fmt.Sprintf("vendored:%s%s %v", dir, path, also)
				src := fmt.Sprintf("package p\n\nimport x %q\n\ntype Root struct {\n\tA x.T `json:\"a\"`\n\tB []x.U `json:\"b\"`\n}\n", path)
				r.State(key)
				r.Transition(1)
				r.Case(key, src, true, func() string {
					dep, err := w.Pkg(dir+path, "x", "package x\n\ntype T struct {\n\tL string `json:\"l\"`\n}\n\ntype U struct {\n\tT T `json:\"t\"`\n}\n")
					if err != nil {
						return "HARNESS: " + err.Error()
					}
					w.ImportableAs(path, dep)
					defer w.Forget(path)
					main, err := w.Pkg("example.com/main", "p", src)
					if err != nil {
						return "HARNESS: " + err.Error()
					}
					world.LinkAs(main, path, dep)
					parser := newParser()
					if also {
						// the vendored package is looked at in its own right, too
						if _, errs := schemaOf(parser, dep, "U"); len(errs) > 0 {
							return fmt.Sprintf("errors: %v", errs)
						}
					}
					got, errs := schemaOf(parser, main, "Root")
					errs = append(errs, world.Errors(dep)...)
					if len(errs) > 0 {
						return fmt.Sprintf("errors: %v", errs)
					}
					x := strct([]string{"l"}, map[string]*S{"l": sch("string", "")})
					u := strct([]string{"t"}, map[string]*S{"t": x})
					want := strct([]string{"a", "b"}, map[string]*S{"a": x, "b": arr(u)})
					if g, e := canon(got, false), canon(want, false); g != e {
						return fmt.Sprintf("schema %s\nexpected %s", g, e)
					}
					return ""
				})
			}
		}
	}
}

// c13e2e: types of the same name in packages of colliding paths.
func c13e2e(r *mc.Run) {
	segs := []string{"q", "~q", "q~", "q~1r", "q~0r", "~0T", "q.r", "q-r", "0", "1", "q~~", "T"}
	hosts := []string{"example.com/", "example.com/x/"}
	var paths []string
	for _, h := range hosts {
		for _, s := range segs {
			paths = append(paths, h+s)
		}
	}
	if r.Thorough {
		for _, s := range segs {
			for _, t := range segs {
				paths = append(paths, "example.com/"+s+"/"+t)
			}
		}
	}
	for i, a := range paths {
		for j, b := range paths {
			if i == j || !r.Mine() {
				continue
			}
			if r.Expired() {
				return
			}
			key := "pkgs:" + a + "|" + b
			r.State(key)
			r.Transition(3)
			src := fmt.Sprintf("package p\n\nimport (\n\tx %q\n\ty %q\n)\n\ntype T struct {\n\tL string `json:\"l\"`\n}\n\ntype Root struct {\n\tA x.T `json:\"a\"`\n\tB y.T `json:\"b\"`\n\tC T `json:\"c\"`\n\tD map[string]x.T `json:\"d\"`\n\tE []y.T `json:\"e\"`\n}\n", a, b)
			r.Case(key, src, true, func() string {
				var ps []*loader.Package
				for k, path := range []string{a, b} {
					other := ""
					if k == 1 {
						// the second one refers to the first
						other = fmt.Sprintf("\nimport x %q\n", a)
					}
					body := "package q\n" + other + fmt.Sprintf("\ntype T struct {\n\tP%d int64 `json:\"p%d\"`\n", k, k)
					if k == 1 {
						body += "\tX x.T `json:\"x\"`\n"
					}
					body += "}\n"
					p, err := w.Pkg(path, "q", body)
					if err != nil {
						return "HARNESS: " + err.Error()
					}
					if k == 1 {
						world.Link(p, ps[0])
					}
					w.Importable(p)
					ps = append(ps, p)
				}
				pkg, err := w.Pkg("example.com/main", "p", src)
				if err != nil {
					return "HARNESS: " + err.Error()
				}
				world.Link(pkg, ps[0])
				world.Link(pkg, ps[1])
				got, errs := schemaOf(newParser(), pkg, "Root")
				w.Forget(ps[0].PkgPath)
				w.Forget(ps[1].PkgPath)
				for _, p := range ps {
					errs = append(errs, world.Errors(p)...)
				}
				if len(errs) > 0 {
					return fmt.Sprintf("errors: %v", errs)
				}
				x := strct([]string{"p0"}, map[string]*S{"p0": sch("integer", "int64")})
				y := strct([]string{"p1", "x"}, map[string]*S{"p1": sch("integer", "int64"), "x": x})
				c := strct([]string{"l"}, map[string]*S{"l": sch("string", "")})
				want := strct([]string{"a", "b", "c", "d", "e"}, map[string]*S{"a": x, "b": y, "c": c, "d": obj(x), "e": arr(y)})
				if g, e := canon(got, false), canon(want, false); g != e {
					return fmt.Sprintf("schema %s\nexpected %s", g, e)
				}
				return ""
			})
		}
	}
}
