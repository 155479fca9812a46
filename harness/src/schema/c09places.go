package main

import (
	"encoding/json"
	"fmt"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/pkg/crd"

	"sigs.k8s.io/controller-tools/verifmc/mc"
)

// positions of nested schemas.
var positions = []struct {
	name string
	put  func(p, c *apiext.JSONSchemaProps)
	get  func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps
}{
	{"property", func(p, c *apiext.JSONSchemaProps) { p.Properties = map[string]apiext.JSONSchemaProps{"x": *c, "y": {}} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { v := p.Properties["x"]; return &v }},
	{"items", func(p, c *apiext.JSONSchemaProps) { p.Items = &apiext.JSONSchemaPropsOrArray{Schema: c} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.Items.Schema }},
	{"additional", func(p, c *apiext.JSONSchemaProps) {
		p.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: c}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.AdditionalProperties.Schema }},
	{"allOf", func(p, c *apiext.JSONSchemaProps) { p.AllOf = []apiext.JSONSchemaProps{{}, *c} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return &p.AllOf[1] }},
	{"anyOf", func(p, c *apiext.JSONSchemaProps) { p.AnyOf = []apiext.JSONSchemaProps{*c} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return &p.AnyOf[0] }},
	{"oneOf", func(p, c *apiext.JSONSchemaProps) { p.OneOf = []apiext.JSONSchemaProps{*c, {}} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return &p.OneOf[0] }},
	{"not", func(p, c *apiext.JSONSchemaProps) { p.Not = c }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.Not }},
	{"pattern", func(p, c *apiext.JSONSchemaProps) {
		p.PatternProperties = map[string]apiext.JSONSchemaProps{"x": *c}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { v := p.PatternProperties["x"]; return &v }},
	{"items list", func(p, c *apiext.JSONSchemaProps) {
		p.Items = &apiext.JSONSchemaPropsOrArray{JSONSchemas: []apiext.JSONSchemaProps{{}, *c}}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return &p.Items.JSONSchemas[1] }},
	{"additional items", func(p, c *apiext.JSONSchemaProps) {
		p.AdditionalItems = &apiext.JSONSchemaPropsOrBool{Schema: c}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.AdditionalItems.Schema }},
	{"dependency", func(p, c *apiext.JSONSchemaProps) {
		p.Dependencies = apiext.JSONSchemaDependencies{"x": {Schema: c}, "y": {Property: []string{"z"}}}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.Dependencies["x"].Schema }},
	{"definition", func(p, c *apiext.JSONSchemaProps) { p.Definitions = apiext.JSONSchemaDefinitions{"x": *c} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { v := p.Definitions["x"]; return &v }},
}

// c09places: references at every position that a schema may have, two deep,
// after every short history of requests.
func c09places(r *mc.Run) {
	histories := []string{"A", "BA", "CA", "CBA", "AA", "ABC"}
	for i, p1 := range positions {
		for j, p2 := range positions {
			if p1.name == "allOf" || p2.name == "allOf" {
				continue
			}
			for _, h := range histories {
				if !r.Mine() || r.Expired() {
					continue
				}
				key := fmt.Sprintf("place %d %d %s", i, j, h)
				r.State(key)
				r.Transition(len(h))
				r.Case(key, fmt.Sprintf("%s of %s, requests %s", p2.name, p1.name, h), true, func() string {
					pkg, err := w.Pkg("example.com/u/p", "p", "package p\n")
					if err != nil {
						return "HARNESS: " + err.Error()
					}
					p := newParser()
					p.NeedPackage(pkg)
					ref := func(to string, max int64) *S {
						l := "#/definitions/" + to
						return &S{Ref: &l, MaxProperties: &max, Description: "at the reference to " + to}
					}
					put := func(n string, s *S) { p.Schemata[crd.TypeIdent{Package: pkg, Name: n}] = *s }
					put("C", &S{Type: "object", Description: "of C"})
					b := &S{Type: "object", Description: "of B"}
					p2.put(b, ref("C", 3))
					put("B", b)
					a := &S{Type: "object"}
					p1.put(a, ref("B", 5))
					put("A", a)
					for n, t := range h {
						got, errs := schemaOf(p, pkg, string(t))
						if len(errs) > 0 {
							return "errors: " + strings.Join(errs, "; ")
						}
						text, err := json.Marshal(got)
						if err != nil {
							return err.Error()
						}
						if strings.Contains(string(text), "$ref") {
							return fmt.Sprintf("request %d: %s still has references: %s", n, string(t), text)
						}
						level := func(what string, s *S, max int64, desc string) string {
							if s.Type != "object" || s.Description != desc {
								return fmt.Sprintf("request %d: %s in the schema of %s has type %q and description %q", n, what, string(t), s.Type, s.Description)
							}
							if (s.MaxProperties == nil) != (max == 0) || s.MaxProperties != nil && *s.MaxProperties != max {
								return fmt.Sprintf("request %d: %s in the schema of %s has the wrong maximum: %s", n, what, string(t), text)
							}
							return ""
						}
						msg := ""
						switch t {
						case 'C':
							msg = level("C", got, 0, "of C")
						case 'B':
							if msg = level("B", got, 0, "of B"); msg == "" {
								msg = level("C", p2.get(got), 3, "at the reference to C")
							}
						case 'A':
							s := p1.get(got)
							if msg = level("B", s, 5, "at the reference to B"); msg == "" {
								msg = level("C", p2.get(s), 3, "at the reference to C")
							}
						}
						if msg != "" {
							return msg
						}
						r.Outcome(string(text))
					}
					return ""
				})
			}
		}
	}
}
