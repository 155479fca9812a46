package main

import (
	"fmt"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/verifmc/genrun"
	"sigs.k8s.io/controller-tools/verifmc/mc"
)

// mark is a marker line and what it says: 0 nothing, 1 yes, 2 no, 3 is wrong.
type mark struct {
	text string
	says int
}

var (
	pkgMarks = []mark{
		{"", 0}, {"// +kubebuilder:object:generate=true", 1}, {"// +kubebuilder:object:generate=false", 2},
		{"// +k8s:deepcopy-gen=package", 1}, {"// +k8s:deepcopy-gen=package,register", 1}, {"// +k8s:deepcopy-gen=none", 2},
		{"// +kubebuilder:object:generate=false\n// +k8s:deepcopy-gen=package", 2}, {"// +k8s:deepcopy-gen=false\n// +kubebuilder:object:generate=true", 1},
		{"// +kubebuilder:object:generate=maybe", 3}, {"// +kubebuilder:object:root=true", 0},
	}
	typeMarks = []mark{
		{"", 0}, {"// +kubebuilder:object:generate=true", 1}, {"// +kubebuilder:object:generate=false", 2},
		{"// +k8s:deepcopy-gen=true", 1}, {"// +k8s:deepcopy-gen=false", 2}, {"// +k8s:deepcopy-gen=package", 2},
		{"// +k8s:deepcopy-gen=true\n// +kubebuilder:object:generate=false", 2}, {"// +k8s:deepcopy-gen=false\n// +kubebuilder:object:generate=true", 1},
		{"// +kubebuilder:object:generate=1", 3},
	}
	rootMarks = []mark{
		{"", 0}, {"// +kubebuilder:object:root=true", 1}, {"// +kubebuilder:object:root=false", 2}, {"// +kubebuilder:object:root", 3},
		{"// +k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object", 1},
		{"// +k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Other", 2},
		{"// +k8s:deepcopy-gen:interfaces=ex.com/x.Y\n// +k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object", 1},
		{"// +kubebuilder:object:root=false\n// +k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object", 2},
	}
)

// kind is a declaration; %s is where markers go.
type kind struct {
	name, decl string
	into, copy bool // methods that are not to be generated
	object     bool
	none       bool // nothing to generate at all
	optional   bool
	reported   bool // has to be reported when it is to be copied
}

var kinds = []kind{
	{name: "struct", decl: "type T struct{ A []string }\n"},
	{name: "empty struct", decl: "type T struct{}\n"},
	{name: "in a group", decl: "type (\n%s\n\tT struct{ A []string }\n)\n"},
	{name: "slice", decl: "type T []string\n"},
	{name: "map", decl: "type T map[string]string\n"},
	{name: "of a struct", decl: "type T S\n\n// +kubebuilder:object:generate=false\ntype S struct{ A string }\n"},
	{name: "unexported", decl: "type t struct{ A []string }\n", none: true},
	{name: "basic", decl: "type T string\n", none: true},
	{name: "alias", decl: "type T = S\n\n// +kubebuilder:object:generate=false\ntype S struct{ A string }\n", none: true},
	{name: "interface", decl: "type T interface{ M() }\n", none: true, optional: true},
	{name: "pointer", decl: "type T *S\n\n// +kubebuilder:object:generate=false\ntype S struct{ A string }\n", none: true},
	{name: "with DeepCopyInto", decl: "type T struct{ A []string }\n\nfunc (in *T) DeepCopyInto(out *T) {}\n", into: true},
	{name: "with DeepCopy", decl: "type T struct{ A []string }\n\nfunc (in *T) DeepCopy() *T { return nil }\n", copy: true},
	{name: "with DeepCopy of values", decl: "type T struct{ A []string }\n\nfunc (in T) DeepCopy() T { return in }\n", copy: true},
	{name: "slice with DeepCopy", decl: "type T []string\n\nfunc (in T) DeepCopy() T { return in }\n", copy: true},
	{name: "slice with DeepCopyInto", decl: "type T []string\n\nfunc (in T) DeepCopyInto(out *T) {}\n", into: true},
	{name: "slice with DeepCopy of pointers", decl: "type T []string\n\nfunc (in *T) DeepCopy() *T { return in }\n", copy: true},
	{name: "with both", decl: "type T struct{ A []string }\n\nfunc (in *T) DeepCopyInto(out *T) {}\n\nfunc (in *T) DeepCopy() *T { return nil }\n", into: true, copy: true},
	{name: "with DeepCopyObject", decl: "type T struct{ A []string }\n\nfunc (in *T) DeepCopyObject() runtime.Object { return nil }\n", object: true},
	{name: "with all", decl: "type T struct{ A []string }\n\nfunc (in *T) DeepCopyInto(out *T) {}\n\nfunc (in *T) DeepCopy() *T { return nil }\n\nfunc (in *T) DeepCopyObject() runtime.Object { return nil }\n", into: true, copy: true, object: true},
	{name: "with a method of another kind", decl: "type T struct{ A []string }\n\nfunc (in *T) Copy() *T { return nil }\n"},
	{name: "generic", decl: "type T[E any] struct{ A []E }\n", reported: true},
	{name: "generic with both", decl: "type T[E any] struct{ A []E }\n\nfunc (in *T[E]) DeepCopyInto(out *T[E]) {}\n\nfunc (in *T[E]) DeepCopy() *T[E] { return nil }\n", none: true},
	{name: "generic with DeepCopy", decl: "type T[E any] struct{ A []E }\n\nfunc (in *T[E]) DeepCopy() *T[E] { return nil }\n", reported: true},
	{name: "generic with DeepCopyInto", decl: "type T[E any] struct{ A []E }\n\nfunc (in *T[E]) DeepCopyInto(out *T[E]) {}\n", reported: true},
	{name: "unexported generic", decl: "type t[E any] struct{ A []E }\n", none: true},
	{name: "with methods of an embedded type", decl: "type T struct{ S }\n\n// +kubebuilder:object:generate=false\ntype S struct{ A string }\n\nfunc (in *S) DeepCopyInto(out *S) {}\n\nfunc (in *S) DeepCopy() *S { return nil }\n"},
}

// selection: which methods are generated for which types.
func selection(r *mc.Run) {
	for _, p := range pkgMarks {
		for _, t := range typeMarks {
			for _, ro := range rootMarks {
				for _, k := range kinds {
					if r.Expired() {
						return
					}
					if !r.Mine() {
						continue
					}
					selected(r, p, t, ro, k)
				}
			}
		}
	}
}

func selected(r *mc.Run, p, t, ro mark, k kind) {
	var lines []string
	for _, l := range []string{t.text, ro.text} {
		if l != "" {
			lines = append(lines, l)
		}
	}
	markers := strings.Join(lines, "\n")
	decl := k.decl
	if strings.Contains(decl, "%s") {
		decl = fmt.Sprintf(decl, markers)
	} else if markers != "" {
		decl = markers + "\n" + decl
	}
	text := "package p\n\n"
	if strings.Contains(decl, "runtime.Object {") {
		text += "import \"k8s.io/apimachinery/pkg/runtime\"\n\n"
	}
	text += decl + "\n// another type, for which nothing is said\ntype Other struct{ A []string }\n"
	if p.text != "" {
		text = p.text + "\n" + text
	}
	r.Case(fmt.Sprintf("select %s | %s | %s | %s", p.text, t.text, ro.text, k.name), text, true, func() string {
		r.Transition(1)
		o, err := generate([]source{runtimePkg, {"ex.com/p", "p", []string{text}}}, deepcopy.Generator{}, nil)
		if err != nil {
			panic(text + err.Error())
		}
		if o.Panic != "" {
			return o.Panic
		}
		if p.says == 3 || t.says == 3 || ro.says == 3 {
			if !o.Failed() {
				return "the wrong marker is not reported"
			}
			return ""
		}
		enabled := t.says == 1 || t.says == 0 && (p.says == 1 || ro.says == 1)
		if k.reported && enabled {
			if !o.Failed() {
				return "a type that cannot be copied is not reported"
			}
			return ""
		}
		if o.Failed() {
			if k.optional {
				return "" // interfaces are reported
			}
			return "fails: " + strings.Join(o.Errs, " | ")
		}
		want := map[string][]string{}
		if enabled && !k.none && !k.reported {
			var ms []string
			if !k.copy {
				ms = append(ms, "DeepCopy")
			}
			if !k.into {
				ms = append(ms, "DeepCopyInto")
			}
			if ro.says == 1 && !k.object {
				ms = append(ms, "DeepCopyObject")
			}
			if len(ms) > 0 {
				want["T"] = ms
			}
		}
		if p.says == 1 {
			want["Other"] = []string{"DeepCopy", "DeepCopyInto"}
		}
		out, exists := o.Files["ex.com/p/"+output]
		if len(want) == 0 {
			if exists {
				return "generates something where there is nothing to generate:\n" + out
			}
			return ""
		}
		if !exists {
			return fmt.Sprint("generates nothing instead of ", want)
		}
		_, got, err := part(out, func(string) bool { return true })
		if err != nil {
			return err.Error() + "\n" + out
		}
		for _, ms := range got {
			sort.Strings(ms)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("generates methods %v instead of %v", got, want)
		}
		r.State(out)
		check := text
		if len(want["T"]) > 0 && ro.says == 1 {
			if !strings.Contains(check, "import") {
				check = strings.Replace(check, "package p\n", "package p\n\nimport \"k8s.io/apimachinery/pkg/runtime\"\n", 1)
			}
			check += "\nvar _ runtime.Object = "
			if k.name == "slice" || k.name == "map" {
				check += "T{}\n"
			} else {
				check += "new(T)\n"
			}
		}
		c := newCompiled()
		c.add(runtimePkg.path, runtimeSrc)
		if msg := c.add("ex.com/p", check, out); msg != "" {
			return "the generated code does not compile: " + msg + "\n" + out
		}
		return ""
	})
}

// importNames are paths of imported packages and their names.
var importNames = [][2]string{
	{"ex.com/dep", "dep"}, {"ex.com/in", "in"}, {"ex.com/out", "out"}, {"ex.com/key", "key"}, {"ex.com/val", "val"}, {"ex.com/i", "i"},
	{"ex.com/x", "x"}, {"ex.com/outVal", "outVal"}, {"ex.com/inVal", "inVal"}, {"ex.com/clone", "clone"}, {"ex.com/c", "c"},
	{"ex.com/string", "string_"}, {"ex.com/len", "len"}, {"ex.com/make", "make"}, {"ex.com/new", "new"}, {"ex.com/nil", "nil_"}, {"ex.com/copy", "copy"},
	{"ex.com/type", "type_"}, {"ex.com/func", "func_"}, {"ex.com/range", "ranges"}, {"ex.com/map", "maps"}, {"ex.com/int", "ints"}, {"ex.com/init", "inits"},
	{"ex.com/9p", "p9"}, {"ex.com/9", "nine"}, {"ex.com/a-b", "ab"}, {"ex.com/a.b", "ab"}, {"ex.com/a_b", "ab"}, {"ex.com/-", "dash"}, {"ex.com/_", "under"},
	{"ex.com/p", "p"}, {"ex.com/other/p", "p"}, {"ex.com/v1", "v1"}, {"ex.com/apps/v1", "v1"}, {"ex.com/a/apps/v1", "v1"}, {"ex.com/v2", "v1"}, {"9p/v1", "v1"}, {"ex.com/2b/v1", "v1"},
	{"x", "x"}, {"dep", "dep"}, {"v1", "v1"}, {"in", "in"}, {"runtime", "runtime"}, {"ex.com/runtime", "runtime"}, {"ex.com/T", "T"}, {"ex.com/Value", "Value"}, {"ex.com/helper", "helper"},
	{"ex.com/für", "für"}, {"gopkg.in/yaml.v3", "yaml"}, {"ex.com/x/v2", "x"}, {"ex.com/go-dep", "dep"},
}

// names: packages may be called anything.
func names(r *mc.Run) {
	n := len(importNames)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			// a third one, in thorough runs every one
			for k := -1; k < n; k++ {
				if k == i || k == j || k >= 0 && !r.Thorough && k != (i*7+j*3)%n {
					continue
				}
				if r.Expired() {
					return
				}
				if r.Mine() {
					named(r, []int{i, j, k})
				}
			}
		}
	}
	header(r)
}

func named(r *mc.Run, ids []int) {
	const root = "ex.com/root/q"
	srcs := []source{runtimePkg}
	decl := "// +kubebuilder:object:generate=true\npackage q\n\nimport (\n"
	var fields string
	key := "imports"
	for n, i := range ids {
		if i < 0 {
			continue
		}
		im := importNames[i]
		key += " " + im[0]
		srcs = append(srcs, source{im[0], im[1], []string{"package " + im[1] + "\n\ntype S struct{ P *int }\n\nfunc (in *S) DeepCopyInto(out *S) {}\n\nfunc (in *S) DeepCopy() *S { return nil }\n\ntype L []string\n\ntype B string\n\ntype M map[B]B\n\ntype D struct{ P *B }\n"}})
		decl += fmt.Sprintf("\ti%d %q\n", n, im[0])
		fields += fmt.Sprintf("\tA%[1]d i%[1]d.S\n\tB%[1]d []i%[1]d.S\n\tC%[1]d map[i%[1]d.B]*i%[1]d.S\n\tD%[1]d *i%[1]d.L\n\tE%[1]d map[string]i%[1]d.L\n\tF%[1]d i%[1]d.M\n\tG%[1]d []*i%[1]d.B\n\tH%[1]d *i%[1]d.S\n", n)
	}
	decl += ")\n\n// +kubebuilder:object:root=true\ntype T struct {\n" + fields + "}\n\ntype Value struct{ N string }\n\nfunc helper() {}\n"
	srcs = append(srcs, source{root, "q", []string{decl}})
	r.Case(key, decl, true, func() string {
		r.Transition(1)
		o, err := generate(srcs, deepcopy.Generator{}, nil)
		if err != nil {
			panic(decl + err.Error())
		}
		if o.Panic != "" {
			return o.Panic
		}
		if o.Failed() {
			return "fails: " + strings.Join(o.Errs, " | ")
		}
		text := o.Files[root+"/"+output]
		r.State(text)
		c := newCompiled()
		for _, s := range srcs[:len(srcs)-1] {
			if msg := c.add(s.path, s.files...); msg != "" {
				panic(msg)
			}
		}
		if msg := c.add(root, decl, text); msg != "" {
			return "the generated code does not compile: " + msg + "\n" + text
		}
		return ""
	})
}

// header: what precedes the generated code.
func header(r *mc.Run) {
	src := []source{{"ex.com/p", "p", []string{"// +kubebuilder:object:generate=true\npackage p\n\ntype T struct{ A []string }\n"}}}
	plain, err := generate(src, deepcopy.Generator{}, nil)
	if err != nil {
		panic(err)
	}
	base := plain.Files["ex.com/p/"+output]
	for _, h := range []string{"", "// Copyright YEAR me", "/*\nCopyright YEAR The Authors.\n\n YEAR and YEARS, NEWYEAR\n*/\n", "// none\n", "// 100% of it\n// %s %d\n", "// a\n\n// b YEAR YEAR\n"} {
		for _, y := range []string{"", "2024", "in 2024", "%d"} {
			if !r.Mine() {
				continue
			}
			r.Case("header "+h+"\x00"+y, h+"\n"+y, true, func() string {
				r.Transition(1)
				o, err := generate(src, deepcopy.Generator{HeaderFile: "h.txt", Year: y}, genrun.Input{"h.txt": h})
				if err != nil {
					panic(err)
				}
				if o.Failed() || o.Panic != "" {
					return o.String()
				}
				got := o.Files["ex.com/p/"+output]
				r.State(got)
				const tag = "//go:build !ignore_autogenerated\n"
				if !strings.HasPrefix(got, tag) || !strings.HasPrefix(base, tag) {
					return "does not begin with the build constraint:\n" + got
				}
				// the header stands between the constraint and the notice
				notice := "// Code generated by controller-gen. DO NOT EDIT.\n"
				_, rest, ok := strings.Cut(base, notice)
				_, gotRest, ok2 := strings.Cut(got, notice)
				if !ok || !ok2 || rest != gotRest {
					return "the header changes the code:\n" + got
				}
				lead, _, _ := strings.Cut(strings.TrimPrefix(got, tag), notice)
				want := strings.ReplaceAll(h, " YEAR", " "+y)
				clean := func(s string) string { return strings.Join(strings.Fields(s), " ") }
				if clean(lead) != clean(want) {
					return fmt.Sprintf("header %q becomes %q", want, lead)
				}
				c := newCompiled()
				if msg := c.add("ex.com/p", src[0].files[0], got); msg != "" {
					return "does not compile: " + msg + "\n" + got
				}
				return ""
			})
		}
	}
	if r.Mine() {
		r.Case("header missing", "no such file", true, func() string {
			o, err := generate(src, deepcopy.Generator{HeaderFile: "other.txt"}, genrun.Input{"h.txt": "x"})
			if err != nil {
				panic(err)
			}
			if !o.Failed() || o.Files["ex.com/p/"+output] != "" {
				return "a header that cannot be read is not reported: " + o.String()
			}
			return ""
		})
	}
}
