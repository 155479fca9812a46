// C07, C08, C09, C13: schemas generated from Go types.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

var (
	w   *world.World
	reg *markers.Registry
)

func setup(imports ...string) {
	w = world.Must(imports...)
	reg = &markers.Registry{}
	if err := (crd.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
}

// schemaOf gives the flattened schema of a type, with the errors reported.
func newParser(opts ...func(*crd.Parser)) *crd.Parser {
	p := &crd.Parser{
		Collector: &markers.Collector{Registry: reg},
		Checker:   &loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}},
	}
	for _, o := range opts {
		o(p)
	}
	crd.AddKnownTypes(p)
	return p
}

func schemaOf(p *crd.Parser, pkg *loader.Package, name string) (*apiext.JSONSchemaProps, []string) {
	p.NeedPackage(pkg)
	id := crd.TypeIdent{Package: pkg, Name: name}
	p.NeedFlattenedSchemaFor(id)
	s := p.FlattenedSchemata[id]
	return &s, world.Errors(pkg)
}

// canon renders a schema in a canonical form: empty and absent containers are
// the same, lists that are sets are sorted.  Descriptions are kept on request.
func canon(s *apiext.JSONSchemaProps, keepDoc bool) string {
	c := s.DeepCopy()
	normalize(c, keepDoc)
	b, err := json.Marshal(c)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

func normalize(s *apiext.JSONSchemaProps, keepDoc bool) {
	if !keepDoc {
		s.Description, s.Title = "", ""
	}
	if len(s.Properties) == 0 {
		s.Properties = nil
	}
	sort.Strings(s.Required)
	for k, v := range s.Properties {
		normalize(&v, keepDoc)
		s.Properties[k] = v
	}
	if s.Items != nil && s.Items.Schema != nil {
		normalize(s.Items.Schema, keepDoc)
	}
	if s.AdditionalProperties != nil {
		s.AdditionalProperties.Allows = true
		if s.AdditionalProperties.Schema != nil {
			normalize(s.AdditionalProperties.Schema, keepDoc)
		}
	}
	for i := range s.AllOf {
		normalize(&s.AllOf[i], keepDoc)
	}
	for i := range s.AnyOf {
		normalize(&s.AnyOf[i], keepDoc)
	}
	for i := range s.OneOf {
		normalize(&s.OneOf[i], keepDoc)
	}
}

func join(ss ...string) string { return strings.Join(ss, "\n") }

func main() {
	id := os.Args[1]
	specs := map[string]mc.Spec{
		"C07": {Property: "C07", Body: c07,
			Rule:        "every base type under every constructor, every tag under every combination of optionality markers, package default, option and field form, and all pairs of embedded structs; non-trivial: the type can be expressed",
			Assumptions: []string{"encoding/json of the harness' own Go toolchain defines the JSON form", "fields without a JSON tag are errors by design of the tool"}},
		"C08": {Property: "C08", Body: c08,
			Rule:        "every schema marker in several values on every target type in every position, all pairs and orders on one target; non-trivial: at least one marker applies",
			Assumptions: []string{"the table of documented effects in the harness"}},
		"C09": {Property: "C09", Body: c09,
			Rule:        "every reference graph up to the bound with sibling constraints and every order of requests; non-trivial: the graph has a reference",
			Assumptions: []string{"substitution semantics of references"}},
		"C13": {Property: "C13", Body: c13,
			Rule:        "every package path and type name over the alphabet up to the bound, and references between generated packages; non-trivial: the path or name has a special character",
			Assumptions: []string{"Go import paths and identifiers"}},
	}
	spec, ok := specs[id]
	if !ok {
		fmt.Println("unknown", id)
		os.Exit(2)
	}
	mc.Main(spec)
}
