package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"k8s.io/apimachinery/pkg/runtime/schema"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

// histories: every sequence of requests to one parser.  What the parser then
// has for a type or a kind is what it has after that request alone, so that no
// request depends on, or changes, what others gave.
func histories(r *mc.Run) {
	srcs := []source{
		{"ex.com/shared", []string{"package shared\n\n// Sub is shared. By everyone.\ntype Sub struct {\n\t// X is a leaf. It is used here.\n\tX Leaf `json:\"x\"`\n\t// +kubebuilder:validation:MinItems=1\n\tL []Leaf `json:\"l,omitempty\"`\n}\n\n// Leaf is the end. There is no more.\n// +kubebuilder:validation:Enum=a;b\ntype Leaf string\n"}},
		{"ex.com/v1", []string{"// +groupName=g.io\npackage v1\n\nimport \"ex.com/shared\"" + c12imp + c12kind("Foo", "// +kubebuilder:storageversion\n", "\t// A is the first. Really.\n\tA shared.Sub `json:\"a\"`\n\t// B is local.\n\t// +kubebuilder:validation:XValidation:rule=\"self.x == 'a'\"\n\tB Own `json:\"b,omitempty\"`\n\tshared.Sub `json:\",inline\"`\n") +
			c12kind("Bar", "", "\tM map[string]Own `json:\"m\"`\n\t// Another one. Indeed.\n\tF *Foo `json:\"f\"`\n") + "// Own is declared here. And used twice.\ntype Own struct {\n\t// again a leaf\n\tX shared.Leaf `json:\"x\"`\n\tY *shared.Sub `json:\"y,omitempty\"`\n}\n"}},
		{"ex.com/v2", []string{"// +groupName=g.io\npackage v2\n\nimport \"ex.com/v1\"" + c12imp + c12kind("Foo", "", "\t// O is taken from there. And nothing else.\n\tO []v1.Own `json:\"o\"`\n")}},
	}
	pkgs, err := build(srcs)
	if err != nil {
		r.Case("histories", "", false, func() string { return "harness: " + err.Error() })
		return
	}
	byName := map[string]*loader.Package{}
	for i, s := range srcs {
		byName[s.path] = pkgs[i]
	}
	id := func(pkg, name string) crd.TypeIdent { return crd.TypeIdent{Package: byName["ex.com/"+pkg], Name: name} }
	fresh := func() *crd.Parser {
		p := &crd.Parser{Collector: warmCollector(), Checker: &loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}}}
		crd.AddKnownTypes(p)
		for _, pkg := range pkgs[1:] {
			p.NeedPackage(pkg)
		}
		return p
	}
	dump := func(v any) string { b, _ := json.Marshal(v); return string(b) }
	foo, bar := schema.GroupKind{Group: "g.io", Kind: "Foo"}, schema.GroupKind{Group: "g.io", Kind: "Bar"}
	n := func(i int) *int { return &i }
	type request struct {
		name string
		gk   schema.GroupKind
		do   func(p *crd.Parser)
	}
	flat := func(pkg, name string) request {
		return request{name: "flat " + pkg + "." + name, do: func(p *crd.Parser) { p.NeedFlattenedSchemaFor(id(pkg, name)) }}
	}
	crdOf := func(gk schema.GroupKind, max *int) request {
		return request{"crd " + gk.Kind + dump(max), gk, func(p *crd.Parser) { p.NeedCRDFor(gk, max) }}
	}
	requests := []request{
		{name: "schema v1.Own", do: func(p *crd.Parser) { p.NeedSchemaFor(id("v1", "Own")) }},
		{name: "package shared", do: func(p *crd.Parser) { p.NeedPackage(byName["ex.com/shared"]) }},
		flat("v1", "Foo"), flat("v1", "Own"), flat("shared", "Sub"), flat("shared", "Leaf"), flat("v2", "Foo"),
		crdOf(foo, nil), crdOf(foo, n(12)), crdOf(bar, n(0)), crdOf(bar, nil),
	}
	// the answers to each request alone
	schemas, flats, crds := map[string]string{}, map[string]string{}, map[string]string{}
	at := func(t crd.TypeIdent) string { return t.Package.PkgPath + "." + t.Name }
	schemaAlone := func(t crd.TypeIdent) string {
		if _, ok := schemas[at(t)]; !ok {
			p := fresh()
			p.NeedSchemaFor(t)
			schemas[at(t)] = dump(p.Schemata[t])
		}
		return schemas[at(t)]
	}
	flatAlone := func(t crd.TypeIdent) string {
		if _, ok := flats[at(t)]; !ok {
			p := fresh()
			p.NeedFlattenedSchemaFor(t)
			flats[at(t)] = dump(p.FlattenedSchemata[t])
		}
		return flats[at(t)]
	}
	crdAlone := func(q request) string {
		if _, ok := crds[q.name]; !ok {
			p := fresh()
			q.do(p)
			crds[q.name] = dump(p.CustomResourceDefinitions[q.gk])
		}
		return crds[q.name]
	}
	depth := 3
	if r.Thorough {
		depth = 5
	}
	var seq []int
	var rec func()
	rec = func() {
		if r.Expired() {
			return
		}
		if len(seq) > 0 && r.Mine() {
			var names []string
			for _, i := range seq {
				names = append(names, requests[i].name)
			}
			key := "history: " + strings.Join(names, ", ")
			r.State(key)
			r.Case(key, key, len(seq) > 1, func() string {
				p := fresh()
				first := map[schema.GroupKind]request{}
				for _, i := range seq {
					q := requests[i]
					if _, had := first[q.gk]; !had && q.gk.Kind != "" {
						first[q.gk] = q
					}
					q.do(p)
					r.Transition(1)
				}
				for _, pkg := range pkgs {
					if errs := world.Errors(pkg); len(errs) > 0 {
						return "errors: " + strings.Join(errs, "; ")
					}
				}
				for t, s := range p.Schemata {
					if !strings.HasPrefix(t.Package.PkgPath, "ex.com/") {
						continue
					}
					if got, want := dump(s), schemaAlone(t); got != want {
						return fmt.Sprintf("the schema of %s is\n%s\ninstead of\n%s", at(t), got, want)
					}
				}
				for t, s := range p.FlattenedSchemata {
					got, want := dump(s), flatAlone(t)
					if got != want {
						return fmt.Sprintf("the flattened schema of %s is\n%s\ninstead of\n%s", at(t), got, want)
					}
					r.Outcome(got)
				}
				for gk, q := range first {
					got, want := dump(p.CustomResourceDefinitions[gk]), crdAlone(q)
					if got != want || got == "{}" {
						return fmt.Sprintf("the CRD of %s after %s is\n%s\ninstead of\n%s", gk, q.name, got, want)
					}
				}
				return ""
			})
		}
		if len(seq) == depth {
			return
		}
		for i := range requests {
			seq = append(seq, i)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

const c12imp = "\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\nvar _ metav1.Time\n\n"

func c12kind(name, marks, body string) string {
	return "// " + name + " has a description. And a second sentence.\n" + marks + "type " + name + " struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n" + body + "}\n\n"
}
