package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/rt"
)

// api is one program of the corpus.
type api struct {
	name string
	srcs []source
	// onlyRef marks packages that are not roots in the full run
	onlyRef map[string]bool
	// groupOf lists the packages that declare versions of the same kinds:
	// subsets of the roots must hold whole groups
	groups [][]string
	gen    crd.Generator
}

const imp = "\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\nvar _ metav1.Time\n"

func head(name, group string, more ...string) string {
	s := ""
	if group != "" {
		s = "// +groupName=" + group + "\n"
	}
	for _, m := range more {
		s += "// " + m + "\n"
	}
	return s + "package " + name + imp
}

func kind(name, marks, spec string) string {
	s := ""
	for _, m := range strings.Split(marks, "\n") {
		if m != "" {
			s += "// " + m + "\n"
		}
	}
	return s + "type " + name + " struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec " + spec + " `json:\"spec,omitempty\"`\n}\n"
}

func corpus() []api {
	var out []api
	add := func(name string, groups [][]string, srcs ...source) {
		out = append(out, api{name: name, srcs: srcs, groups: groups})
	}
	one := func(name string, body string) {
		add(name, nil, source{"ex.com/v1", []string{head("v1", "g.io") + body}})
	}
	// markers that set the same thing on one type
	one("topology", kind("Foo", "", "FooSpec")+`
// +mapType=granular
// +structType=atomic
type FooSpec struct {
	// +mapType=atomic
	// +kubebuilder:validation:XMapType=granular
	// +structType=granular
	M map[string]string `+"`json:\"m\"`"+`
	// +listType=set
	// +kubebuilder:validation:items:MaxLength=4
	// +kubebuilder:validation:XListType=atomic
	// +kubebuilder:validation:UniqueItems=true
	L []string `+"`json:\"l\"`"+`
	// +structType=atomic
	// +mapType=granular
	S Sub `+"`json:\"s\"`"+`
}
// +structType=granular
type Sub struct {
	A string `+"`json:\"a\"`"+`
}
`)
	one("topology, valid", kind("Foo", "", "FooSpec")+`
// +mapType=granular
// +structType=granular
type FooSpec struct {
	// +mapType=atomic
	// +kubebuilder:validation:XMapType=granular
	M map[string]string `+"`json:\"m\"`"+`
	// +listType=set
	// +kubebuilder:validation:XListType=atomic
	// +kubebuilder:validation:UniqueItems=true
	L []string `+"`json:\"l\"`"+`
	// +listType=map
	// +listMapKey=a
	// +listMapKey=b
	// +listType=map
	K []Sub `+"`json:\"k\"`"+`
	// +structType=atomic
	S Sub `+"`json:\"s\"`"+`
}
// +structType=granular
type Sub struct {
	A string `+"`json:\"a\"`"+`
	B string `+"`json:\"b\"`"+`
}
`)
	one("validation, valid", kind("Foo", "", "FooSpec")+`
type FooSpec struct {
	// +kubebuilder:validation:Type=integer
	// +kubebuilder:validation:Minimum=1
	// +kubebuilder:validation:ExclusiveMinimum=true
	// +kubebuilder:validation:MultipleOf=2
	// +kubebuilder:default=1
	// +default=2
	// +kubebuilder:example=4
	// +kubebuilder:validation:Format=int64
	A string `+"`json:\"a\"`"+`
	// +kubebuilder:validation:XIntOrString
	// +kubebuilder:validation:Pattern=a
	// +kubebuilder:validation:Maximum=3
	// +kubebuilder:validation:MaxLength=3
	I int `+"`json:\"i\"`"+`
	// +optional
	// +kubebuilder:validation:Required
	// +nullable
	// +kubebuilder:title=x
	B Str `+"`json:\"b\"`"+`
}
// +kubebuilder:validation:MinLength=2
// +kubebuilder:validation:Pattern=b
// +kubebuilder:validation:Enum=b;c
type Str string
`)
	one("validation", kind("Foo", "+kubebuilder:validation:XValidation:rule=\"a\"\n+kubebuilder:validation:XValidation:rule=\"b\"", "FooSpec")+`
type FooSpec struct {
	// +kubebuilder:validation:Type=object
	// +kubebuilder:validation:XIntOrString
	// +kubebuilder:validation:Pattern=a
	// +kubebuilder:validation:Minimum=1
	// +kubebuilder:validation:ExclusiveMinimum=true
	// +kubebuilder:default=1
	// +default=2
	// +kubebuilder:example=4
	A int `+"`json:\"a\"`"+`
	// +kubebuilder:validation:Enum=a;b
	// +kubebuilder:validation:MinLength=1
	// +kubebuilder:validation:MaxLength=2
	// +nullable
	// +kubebuilder:validation:Nullable
	// +optional
	// +kubebuilder:validation:Required
	// +required
	// +kubebuilder:validation:Optional
	B Str `+"`json:\"b\"`"+`
	// +kubebuilder:validation:EmbeddedResource
	// +kubebuilder:pruning:PreserveUnknownFields
	// +kubebuilder:validation:XPreserveUnknownFields
	// +kubebuilder:validation:XEmbeddedResource
	C Sub `+"`json:\"c\"`"+`
	// +kubebuilder:validation:Schemaless
	// +kubebuilder:validation:Type=string
	// +kubebuilder:validation:Format=date
	D func() `+"`json:\"d\"`"+`
}
// +kubebuilder:validation:MinLength=2
// +kubebuilder:validation:Pattern=b
// +kubebuilder:validation:Enum=b;c
type Str string
type Sub struct {
	A string `+"`json:\"a\"`"+`
}
`)
	one("embedding", kind("Foo", "", "FooSpec")+`
type FooSpec struct {
	A `+"`json:\",inline\"`"+`
	B `+"`json:\",inline\"`"+`
	// C in the spec
	C string `+"`json:\"c\"`"+`
}
// A doc
// +kubebuilder:validation:MinProperties=1
type A struct {
	// C in A
	// +kubebuilder:validation:MaxLength=3
	C string `+"`json:\"c\"`"+`
	// X in A
	X string `+"`json:\"x,omitempty\"`"+`
}
// B doc
// +kubebuilder:validation:MinProperties=2
// +kubebuilder:validation:MaxProperties=4
type B struct {
	// X in B
	// +kubebuilder:validation:MinLength=3
	X string `+"`json:\"x\"`"+`
	// Y
	Y []string `+"`json:\"y\"`"+`
}
`)
	one("conflict", kind("Foo", "", "FooSpec")+`
type FooSpec struct {
	A `+"`json:\",inline\"`"+`
	B `+"`json:\",inline\"`"+`
}
type A struct {
	X string `+"`json:\"x\"`"+`
	Y int `+"`json:\"y\"`"+`
	Z int `+"`json:\"z\"`"+`
}
type B struct {
	X int `+"`json:\"x\"`"+`
	Y string `+"`json:\"y\"`"+`
	// +kubebuilder:validation:Minimum=3
	Z int `+"`json:\"z\"`"+`
}
`)
	one("bad markers", kind("Foo", "+kubebuilder:metadata:labels=a\n+kubebuilder:metadata:annotations=b", "FooSpec")+kind("Bar", "", "FooSpec")+`
type FooSpec struct {
	// +kubebuilder:validation:MinLength=3
	// +kubebuilder:validation:MinItems=3
	// +kubebuilder:validation:MinProperties=3
	// +listType=set
	// +mapType=atomic
	A int `+"`json:\"a\"`"+`
	B int `+"`json:\"b\"`"+`
	C float64 `+"`json:\"c\"`"+`
	D chan int `+"`json:\"d\"`"+`
}
`)
	one("unreadable markers", kind("Foo", "", "FooSpec")+`
type FooSpec struct {
	// +kubebuilder:validation:Maximum=x
	// +kubebuilder:validation:MaxLength=x
	A int `+"`json:\"a\"`"+`
	// +listType=
	// +kubebuilder:validation:Minimum=y
	B int `+"`json:\"b\"`"+`
}
`)
	one("skipped with columns", kind("Foo", "+kubebuilder:skipversion\n+kubebuilder:subresource:status\n+kubebuilder:printcolumn:name=A,type=string,JSONPath=.a\n+kubebuilder:selectablefield:JSONPath=.a\n+kubebuilder:resource:scope=Cluster\n+kubebuilder:storageversion", "string"))
	two := func(name string, m1, m2 string) {
		add(name, [][]string{{"ex.com/v1", "ex.com/v2"}},
			source{"ex.com/v1", []string{head("v1", "g.io") + kind("Foo", m1, "string") + kind("Bar", "", "int")}},
			source{"ex.com/v2", []string{head("v2", "g.io") + kind("Foo", m2, "int") + kind("Bar", "+kubebuilder:storageversion", "string")}})
	}
	two("two versions", "+kubebuilder:storageversion", "")
	two("no storage", "", "")
	two("two storages", "+kubebuilder:storageversion", "+kubebuilder:storageversion")
	two("unserved", "+kubebuilder:storageversion\n+kubebuilder:unservedversion", "+kubebuilder:unservedversion")
	two("resources", "+kubebuilder:storageversion\n+kubebuilder:resource:path=ones,singular=one,shortName=o,categories=all", "+kubebuilder:resource:path=twos,scope=Cluster,shortName=t")
	two("metadata", "+kubebuilder:storageversion\n+kubebuilder:metadata:labels=\"a=1\",annotations=\"x=1\"", "+kubebuilder:metadata:labels=\"a=2\",annotations=\"x=2\"")
	two("bad metadata", "+kubebuilder:storageversion\n+kubebuilder:metadata:labels=\"a\"", "+kubebuilder:metadata:annotations=\"x\"")
	two("skip", "+kubebuilder:storageversion", "+kubebuilder:skipversion\n+kubebuilder:subresource:status\n+kubebuilder:resource:scope=Cluster")
	two("columns", "+kubebuilder:storageversion\n+kubebuilder:printcolumn:name=B,type=string,JSONPath=.b\n+kubebuilder:printcolumn:name=A,type=string,JSONPath=.a", "+kubebuilder:deprecatedversion:warning=x\n+kubebuilder:subresource:scale:specpath=.a,statuspath=.b\n+kubebuilder:subresource:status\n+kubebuilder:printcolumn:name=A,type=string,JSONPath=.a")
	add("same version twice", [][]string{{"ex.com/a/v1", "ex.com/b/v1"}},
		source{"ex.com/a/v1", []string{head("v1", "g.io") + kind("Foo", "+kubebuilder:storageversion", "string")}},
		source{"ex.com/b/v1", []string{head("v1", "g.io") + kind("Foo", "+kubebuilder:resource:scope=Cluster", "int")}})
	// a version that is only referenced, from a kind that sorts first
	ref := api{name: "referenced version", srcs: []source{
		{"ex.com/v1", []string{head("v1", "g.io") + kind("Aaa", "", "string") + kind("Foo", "", "int") + "type Common struct {\n\tA string `json:\"a\"`\n}\n"}},
		{"ex.com/v2", []string{strings.Replace(head("v2", "g.io"), "import ", "import v1 \"ex.com/v1\"\nimport ", 1) + kind("Aaa", "", "v1.Common") + kind("Foo", "", "v1.Common") + kind("Zed", "", "v1.Foo")}},
	}, onlyRef: map[string]bool{"ex.com/v1": true}}
	out = append(out, ref)
	cross := []source{
		{"ex.com/common", []string{head("common", "") + `
// Shared doc
// +kubebuilder:validation:MinProperties=1
type Shared struct {
	// A doc
	// +kubebuilder:validation:MaxLength=3
	A string ` + "`json:\"a\"`" + `
	// +optional
	Next *Other ` + "`json:\"next\"`" + `
}
type Other struct {
	B map[string]Leaf ` + "`json:\"b,omitempty\"`" + `
}
// +kubebuilder:validation:Enum=a;b
type Leaf string
`}},
		{"ex.com/v1", []string{strings.Replace(head("v1", "g.io"), "import ", "import \"ex.com/common\"\nimport ", 1) + kind("Foo", "+kubebuilder:storageversion", "FooSpec") + `
type FooSpec struct {
	// first
	// +nullable
	// +kubebuilder:pruning:PreserveUnknownFields
	// +kubebuilder:validation:XValidation:rule="x"
	A common.Shared ` + "`json:\"a\"`" + `
	common.Other ` + "`json:\",inline\"`" + `
}
`}},
		{"ex.com/v2", []string{strings.Replace(head("v2", "g.io"), "import ", "import \"ex.com/common\"\nimport v1 \"ex.com/v1\"\nimport ", 1) + kind("Foo", "", "FooSpec") + `
type FooSpec struct {
	v1.FooSpec ` + "`json:\",inline\"`" + `
	// second
	L common.Leaf ` + "`json:\"l\"`" + `
}
`, "package v2\n" + kind("Bar", "", "common2")[0:0] + "type Extra struct {\n\tA string `json:\"a\"`\n}\n"}},
		{"ex.com/h/v1", []string{strings.Replace(head("v1", "h.io"), "import ", "import \"ex.com/common\"\nimport ", 1) + kind("Foo", "", "common.Shared") + kind("Baz", "", "common.Other")}},
	}
	add("packages", [][]string{{"ex.com/v1", "ex.com/v2"}}, cross...)
	// packages that do not use the metadata types are roots like the others
	add("plain packages", nil,
		source{"ex.com/a", []string{"package a\n\ntype Plain struct {\n\tA string `json:\"a\"`\n}\n"}},
		source{"ex.com/b", []string{"package b\n\nvar X int\n"}},
		source{"ex.com/v1", []string{strings.Replace(head("v1", "g.io"), "import ", "import \"ex.com/a\"\nimport ", 1) + kind("Foo", "", "a.Plain")}},
		source{"ex.com/z", []string{"package z\n\nimport v1 \"ex.com/v1\"\n\ntype Z v1.Foo\n"}},
		source{"ex.com/zz/v1", []string{head("v1", "h.io") + kind("Bar", "", "string")}})
	one("recursive", kind("Foo", "", "Node")+`
type Node struct {
	A *Node `+"`json:\"a,omitempty\"`"+`
	B []Peer `+"`json:\"b,omitempty\"`"+`
}
type Peer struct {
	N *Node `+"`json:\"n,omitempty\"`"+`
}
`)
	add("same resource", nil, source{"ex.com/v1", []string{head("v1", "g.io") + kind("Foo", "+kubebuilder:resource:path=xs", "string") + kind("Bar", "+kubebuilder:resource:path=xs", "int")}})
	zero := 0
	l := api{name: "options", srcs: cross, groups: [][]string{{"ex.com/v1", "ex.com/v2"}}, gen: crd.Generator{MaxDescLen: &zero}}
	out = append(out, l)
	add("two files", nil, source{"ex.com/v1", []string{head("v1", "g.io") + kind("Foo", "", "A"), "package v1\n// A doc\ntype A struct {\n\tB B `json:\"b\"`\n}\n", "// +kubebuilder:validation:Optional\npackage v1\n// +kubebuilder:validation:Pattern=x\ntype B string\n"}})
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func (a api) roots(pkgs []*loader.Package) []*loader.Package {
	var out []*loader.Package
	for _, p := range pkgs {
		if !a.onlyRef[p.PkgPath] {
			out = append(out, p)
		}
	}
	return out
}

func c12(r *mc.Run) {
	setupWorld()
	histories(r)
	bound, capExec := 1, 6000
	if r.Thorough {
		bound, capExec = 2, 60000
	}
	exec := func(a api, arrange func([]*loader.Package) []*loader.Package, srcs []source) (outcome, error) {
		pkgs, err := build(srcs)
		if err != nil {
			return outcome{}, err
		}
		roots := a.roots(pkgs)
		if arrange != nil {
			roots = arrange(roots)
		}
		return run(a.gen, roots, pkgs, memInput{}), nil
	}
	for _, a := range corpus() {
		a := a
		input := ""
		for _, s := range a.srcs {
			input += "== " + s.path + "\n" + strings.Join(s.files, "\n--\n")
		}
		base, err := exec(a, nil, a.srcs)
		if err != nil {
			r.Case("build "+a.name, input, false, func() string { return "harness: " + err.Error() })
			continue
		}
		want := base.String()
		if os.Getenv("MC_DUMP") != "" && r.Shard == 0 {
			fmt.Fprintf(os.Stderr, "%s: files=%d %.600s\n", a.name, len(base.files), strings.SplitN(want, "\n", 2)[0])
		}
		r.Sample(a.name + ": " + want)
		r.Outcome(want)
		same := func(what string, o outcome, err error) string {
			r.Transition(1)
			if err != nil {
				return "harness: " + err.Error()
			}
			if s := o.String(); s != want {
				return fmt.Sprintf("%s changes the result from\n%s\nto\n%s", what, want, s)
			}
			return ""
		}
		// map orders: the choice points are dealt out over the shards
		points := 0
		for part := 0; part < r.N; part++ {
			if !r.Mine() {
				continue
			}
			part := part
			key := fmt.Sprintf("%s: map orders, part %d", a.name, part)
			if r.N == 1 {
				key = a.name + ": map orders"
			}
			r.Case(key, input, true, func() string {
				msg := ""
				res := rt.ExplorePart(bound, capExec, part, r.N, func(c *rt.Choices) bool {
					if r.Expired() {
						return false
					}
					o, err := exec(a, nil, a.srcs)
					last := ""
					if n := len(c.Prefix); n > 0 {
						last = c.Sites[min(n, len(c.Sites))-1]
					}
					msg = same(fmt.Sprintf("map order %v (last at %s)", c.Prefix, last), o, err)
					r.State(fmt.Sprintf("%s %v", a.name, c.Prefix))
					return msg == ""
				})
				r.Count("map_orders", res.Executions)
				points = res.Points
				if res.Diverged != "" {
					r.Incomplete(res.Diverged)
				}
				if msg == "" && !res.Complete {
					r.Incomplete("map-order cap: " + a.name)
				}
				return msg
			})
		}
		_ = points
		if !r.Mine() {
			continue
		}
		r.Case(a.name+": reversed maps", input, true, func() string {
			rt.Reverse = true
			o, err := exec(a, nil, a.srcs)
			rt.Reverse = false
			return same("reversing every map order", o, err)
		})
		pkgs, _ := build(a.srcs)
		n := len(a.roots(pkgs))
		for _, perm := range permutations(n) {
			perm := perm
			r.Case(fmt.Sprintf("%s: root order %v", a.name, perm), input, true, func() string {
				o, err := exec(a, func(rs []*loader.Package) []*loader.Package {
					var out []*loader.Package
					for _, i := range perm {
						out = append(out, rs[i])
					}
					return out
				}, a.srcs)
				r.State(fmt.Sprintf("%s root order %v", a.name, perm))
				return same(fmt.Sprintf("root order %v", perm), o, err)
			})
		}
		// file order
		for i, s := range a.srcs {
			if len(s.files) < 2 {
				continue
			}
			for _, perm := range permutations(len(s.files)) {
				perm := perm
				srcs := append([]source{}, a.srcs...)
				fs := make([]string, len(perm))
				for j, k := range perm {
					fs[j] = s.files[k]
				}
				srcs[i] = source{s.path, fs}
				r.Case(fmt.Sprintf("%s: file order %v", a.name, perm), input, true, func() string {
					o, err := exec(a, nil, srcs)
					r.State(fmt.Sprintf("%s file order %v", a.name, perm))
					return same(fmt.Sprintf("file order %v", perm), o, err)
				})
			}
		}
		// repeated runs: in a context of its own over the same packages, and in
		// the same context
		for again := 0; again < 4; again++ {
			again := again
			r.Case(fmt.Sprintf("%s: again %d", a.name, again), input, true, func() string {
				pkgs, err := build(a.srcs)
				if err != nil {
					return "harness: " + err.Error()
				}
				ctx := context(a.roots(pkgs), memInput{})
				for i := 0; i < 3; i++ {
					if again&1 != 0 {
						ctx = context(a.roots(pkgs), memInput{})
					}
					g := a.gen
					if again&2 != 0 && i == 1 {
						// another generator in between
						one, yes := 5, true
						g = crd.Generator{MaxDescLen: &one, GenerateEmbeddedObjectMeta: &yes}
					}
					o := runIn(ctx, g, pkgs)
					if again&2 != 0 && i == 1 {
						continue
					}
					if msg := same(fmt.Sprintf("run %d", i), o, nil); msg != "" {
						return msg
					}
				}
				r.State(fmt.Sprintf("%s again %d", a.name, again))
				return ""
			})
		}
		// subsets of the roots that keep the versions of a kind together; the
		// rest of the packages is still there to be referenced
		if len(base.errs) > 0 || n < 2 {
			continue
		}
		for mask := 1; mask < 1<<n; mask++ {
			mask := mask
			in := map[string]bool{}
			for i, p := range a.roots(pkgs) {
				in[p.PkgPath] = mask>>i&1 == 1
			}
			whole := true
			for _, g := range a.groups {
				for _, p := range g {
					whole = whole && in[p] == in[g[0]]
				}
			}
			if !whole {
				continue
			}
			r.Case(fmt.Sprintf("%s: subset %b", a.name, mask), input, true, func() string {
				r.Transition(1)
				o, err := exec(a, func(rs []*loader.Package) []*loader.Package {
					var out []*loader.Package
					for _, p := range rs {
						if in[p.PkgPath] {
							out = append(out, p)
						}
					}
					return out
				}, a.srcs)
				if err != nil {
					return "harness: " + err.Error()
				}
				if len(o.errs) > 0 || o.panic != "" {
					return "the subset alone fails: " + o.String()
				}
				r.State(fmt.Sprintf("%s subset %b", a.name, mask))
				for f, text := range o.files {
					if base.files[f] != text {
						return fmt.Sprintf("%s differs from the one of the whole run: \n%s\nnot\n%s", f, text, base.files[f])
					}
				}
				// and every file of the whole run comes from some package of it
				for f := range base.files {
					if _, ok := o.files[f]; !ok && mask == 1<<n-1 {
						return "missing " + f
					}
				}
				return ""
			})
		}
	}
	_ = filepath.Base
}
