package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

// docLine is one line of a documentation comment.
type docLine struct {
	text      string // what follows "//" (with its own leading blank, if any)
	marker    bool
	directive bool
}

var docVocab = []docLine{
	{text: " plain text"},
	{text: ""},
	{text: " TODO: later"},
	{text: " TODOs"},
	{text: " ---"},
	{text: " --- rest"},
	{text: " ```"},
	{text: " +mk:a=1", marker: true},
	{text: "go:generate x", directive: true},
	{text: "   indented + more  "},
	{text: "nospace +mk"},
	{text: " - ~x~ TODO é。"},
	{text: "\ttab -- \"quoted\" `x`"},
	{text: "+mk:zz", marker: true},
}

// expectDoc is the documentation text of the lines, from the rules.
func expectDoc(lines []docLine, block bool) string {
	var ls []string
	for _, l := range lines {
		t := l.text
		if !block {
			if l.marker || l.directive {
				continue
			}
			t = strings.TrimPrefix(t, " ")
		}
		t = strings.TrimRight(t, " \t")
		if block {
			t = strings.TrimLeft(t, " \t")
		}
		ls = append(ls, t)
	}
	// runs of blank lines are one paragraph break; none at the ends
	var col []string
	for _, l := range ls {
		if l == "" && (len(col) == 0 || col[len(col)-1] == "") {
			continue
		}
		col = append(col, l)
	}
	for len(col) > 0 && col[len(col)-1] == "" {
		col = col[:len(col)-1]
	}
	var out []string
	fenced := false
	for _, l := range col {
		if strings.HasPrefix(l, "```") || strings.HasPrefix(l, "~~~") {
			fenced = !fenced
		} else if !fenced {
			if strings.HasPrefix(l, "TODO") {
				continue
			}
			if strings.HasPrefix(l, "---") {
				break
			}
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func renderDoc(lines []docLine, block bool, indent string) string {
	var sb strings.Builder
	if block {
		sb.WriteString(indent + "/*\n")
		for _, l := range lines {
			sb.WriteString(indent + l.text + "\n")
		}
		sb.WriteString(indent + "*/\n")
		return sb.String()
	}
	for _, l := range lines {
		sb.WriteString(indent + "//" + l.text + "\n")
	}
	return sb.String()
}

func c06docs(r *mc.Run) {
	n := 5
	if r.Thorough {
		n = 6
	}
	reg := newRegistry()
	_ = reg.Define("mk", markers.DescribesType, "")
	for _, fence := range []string{" ```", " ~~~go"} {
		vocab := append([]docLine{}, docVocab...)
		for i := range vocab {
			if vocab[i].text == " ```" {
				vocab[i].text = fence
			}
		}
		if fence != " ```" {
			// second round: only the lines that interact with fences
			vocab = []docLine{vocab[0], vocab[1], vocab[2], vocab[4], vocab[6], vocab[7]}
		}
		var rec func(lines []docLine)
		rec = func(lines []docLine) {
			if len(lines) > 0 {
				for _, block := range []bool{false, true} {
					c06doc(r, reg, fence, lines, block)
				}
			}
			if len(lines) == n || r.Expired() {
				return
			}
			for _, l := range vocab {
				rec(append(lines[:len(lines):len(lines)], l))
			}
		}
		rec(nil)
	}
}

func c06doc(r *mc.Run, reg *markers.Registry, fence string, lines []docLine, block bool) {
	if !r.Mine() {
		return
	}
	var ids []string
	for _, l := range lines {
		ids = append(ids, l.text)
	}
	key := fmt.Sprintf("doc:%s:%v:%q", fence, block, ids)
	want := expectDoc(lines, block)
	doc := renderDoc(lines, block, "")
	src := "package p\n\n" +
		"// a comment apart\n\n" + doc + "type Single struct {\n" + renderDoc(lines, block, "\t") + "\tF, G int\n}\n\n" +
		"// doc of the group\ntype (\n" + renderDoc(lines, block, "\t") + "\tOne int\n\t// apart\n\n\tTwo int\n)\n"
	r.State(key)
	r.Transition(len(lines))
	r.Outcome(want)
	r.Case(key, src, strings.Count(want, "\n")+1 != len(lines), func() string {
		pkg, err := w.Pkg("example.com/d", "p", src)
		if err != nil {
			return "HARNESS: " + err.Error()
		}
		col := &markers.Collector{Registry: reg}
		got := map[string]string{}
		err = markers.EachType(col, pkg, func(ti *markers.TypeInfo) {
			got[ti.Name] = ti.Doc
			for _, f := range ti.Fields {
				got[ti.Name+"."+f.Name] = f.Doc
			}
		})
		if err != nil {
			return "EachType fails: " + err.Error()
		}
		for n, wd := range map[string]string{"Single": want, "Single.F": want, "Single.G": want, "One": want, "Two": ""} {
			if got[n] != wd {
				return fmt.Sprintf("documentation of %s is %q, expected %q", n, got[n], wd)
			}
		}
		return ""
	})
	r.Sample(src)
}

// c06schema: the same text reaches the schema.
func c06schema(r *mc.Run) {
	reg := &markers.Registry{}
	gen := crd.Generator{}
	if err := gen.RegisterMarkers(reg); err != nil {
		panic(err)
	}
	n := 3
	vocab := docVocab[:12]
	if r.Thorough {
		n = 4
	}
	var rec func(lines []docLine)
	rec = func(lines []docLine) {
		if len(lines) > 0 && r.Mine() {
			var ids []string
			for _, l := range lines {
				ids = append(ids, l.text)
			}
			key := fmt.Sprintf("schema:%q", ids)
			want := expectDoc(lines, false)
			src := "package p\n\n" + renderDoc(lines, false, "") + "type Top struct {\n" + renderDoc(lines, false, "\t") + "\tF int `json:\"f\"`\n" + renderDoc(lines, false, "\t") +
				"\tG []Elem `json:\"g\"`\n\tH *Elem `json:\"h\"`\n}\n\n" + renderDoc(lines, false, "") + "type Elem string\n"
			r.State(key)
			r.Case(key, src, true, func() string {
				pkg, err := w.Pkg("example.com/d", "p", src)
				if err != nil {
					return "HARNESS: " + err.Error()
				}
				p := &crd.Parser{Collector: &markers.Collector{Registry: reg}, Checker: &loader.TypeChecker{}}
				crd.AddKnownTypes(p)
				p.NeedPackage(pkg)
				for _, t := range []string{"Top", "Elem"} {
					p.NeedFlattenedSchemaFor(crd.TypeIdent{Package: pkg, Name: t})
				}
				if len(pkg.Errors) > 0 {
					return fmt.Sprintf("errors: %v", pkg.Errors)
				}
				top := p.FlattenedSchemata[crd.TypeIdent{Package: pkg, Name: "Top"}]
				for what, got := range map[string]string{"Top": top.Description, "Top.f": top.Properties["f"].Description, "Top.g": top.Properties["g"].Description,
					"Top.g items": top.Properties["g"].Items.Schema.Description, "Top.h": top.Properties["h"].Description,
					"Elem": p.FlattenedSchemata[crd.TypeIdent{Package: pkg, Name: "Elem"}].Description} {
					if got != want {
						return fmt.Sprintf("description of %s is %q, expected %q", what, got, want)
					}
				}
				return ""
			})
		}
		if len(lines) == n || r.Expired() {
			return
		}
		for _, l := range vocab {
			rec(append(lines[:len(lines):len(lines)], l))
		}
	}
	rec(nil)
}

func isTerm(c rune) bool { return c == '.' || c == '!' || c == '?' || c == '。' }
func isBlank(c rune) bool {
	return c == ' ' || c == '\n' || c == '\t' || c == '\u3000'
}

// expectCut is the shortened text, from the rules.
func expectCut(s string, max int) string {
	if max < 0 || len(s) <= max {
		return s
	}
	if max == 0 {
		return ""
	}
	// the longest prefix of whole characters that fits
	fit, term, blank := 0, 0, 0
	for i, c := range s {
		end := i + utf8.RuneLen(c)
		if end > max {
			break
		}
		fit = end
		if isTerm(c) && i > 0 {
			term = end
		}
		if isBlank(c) && i > 0 {
			blank = i
		}
	}
	switch {
	case term > 0:
		return s[:term]
	case blank > 0:
		return s[:blank] + "..."
	default:
		return s[:fit] + "..."
	}
}

// positions of nested schemas.
var positions = []struct {
	name string
	put  func(p, c *apiext.JSONSchemaProps)
	get  func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps
}{
	{"property", func(p, c *apiext.JSONSchemaProps) { p.Properties = map[string]apiext.JSONSchemaProps{"x": *c, "y": {}} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { v := p.Properties["x"]; return &v }},
	{"items", func(p, c *apiext.JSONSchemaProps) { p.Items = &apiext.JSONSchemaPropsOrArray{Schema: c} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.Items.Schema }},
	{"additional", func(p, c *apiext.JSONSchemaProps) {
		p.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: c}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.AdditionalProperties.Schema }},
	{"allOf", func(p, c *apiext.JSONSchemaProps) { p.AllOf = []apiext.JSONSchemaProps{{}, *c} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return &p.AllOf[1] }},
	{"anyOf", func(p, c *apiext.JSONSchemaProps) { p.AnyOf = []apiext.JSONSchemaProps{*c} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return &p.AnyOf[0] }},
	{"oneOf", func(p, c *apiext.JSONSchemaProps) { p.OneOf = []apiext.JSONSchemaProps{*c, {}} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return &p.OneOf[0] }},
	{"not", func(p, c *apiext.JSONSchemaProps) { p.Not = c }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.Not }},
	{"pattern", func(p, c *apiext.JSONSchemaProps) {
		p.PatternProperties = map[string]apiext.JSONSchemaProps{"x": *c}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { v := p.PatternProperties["x"]; return &v }},
	{"items list", func(p, c *apiext.JSONSchemaProps) {
		p.Items = &apiext.JSONSchemaPropsOrArray{JSONSchemas: []apiext.JSONSchemaProps{{}, *c}}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return &p.Items.JSONSchemas[1] }},
	{"additional items", func(p, c *apiext.JSONSchemaProps) {
		p.AdditionalItems = &apiext.JSONSchemaPropsOrBool{Schema: c}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.AdditionalItems.Schema }},
	{"dependency", func(p, c *apiext.JSONSchemaProps) {
		p.Dependencies = apiext.JSONSchemaDependencies{"x": {Schema: c}, "y": {Property: []string{"z"}}}
	}, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { return p.Dependencies["x"].Schema }},
	{"definition", func(p, c *apiext.JSONSchemaProps) { p.Definitions = apiext.JSONSchemaDefinitions{"x": *c} }, func(p *apiext.JSONSchemaProps) *apiext.JSONSchemaProps { v := p.Definitions["x"]; return &v }},
}

func c06cut(r *mc.Run) {
	alpha := []string{"a", ".", " ", "é", "。", "\n", "日"}
	n := 6
	if r.Thorough {
		n = 7
		alpha = append(alpha, "!")
	}
	var rec func(s string, left int)
	rec = func(s string, left int) {
		if s != "" && r.Mine() {
			key := fmt.Sprintf("cut:%q", s)
			r.State(key)
			r.Transition(len(s) + 3)
			r.Case(key, s, true, func() string {
				for max := -1; max <= len(s)+1; max++ {
					sc := &apiext.JSONSchemaProps{Description: s}
					crd.TruncateDescription(sc, max)
					want := expectCut(s, max)
					got := sc.Description
					if !utf8.ValidString(got) {
						return fmt.Sprintf("with maximum %d, %q becomes the invalid text %q", max, s, got)
					}
					if got != want {
						return fmt.Sprintf("with maximum %d, %q becomes %q, expected %q", max, s, got, want)
					}
				}
				return ""
			})
		}
		if left == 0 {
			return
		}
		for _, a := range alpha {
			rec(s+a, left-1)
		}
	}
	rec("", n)

	// every nesting of positions to depth 3; every level has its own text
	depth := 3
	if r.Thorough {
		depth = 4
	}
	texts := []string{"First sentence. Second one here", "nospaces", "short", "two words", ""}
	var nest func(path []int)
	nest = func(path []int) {
		if len(path) > 0 && r.Mine() {
			key := fmt.Sprintf("nest:%v", path)
			r.State(key)
			r.Transition(len(path))
			r.Case(key, key, true, func() string {
				for _, max := range []int{-1, 0, 5, 8, 20, 100} {
					build := func() *apiext.JSONSchemaProps {
						var inner *apiext.JSONSchemaProps
						for i := len(path); i >= 0; i-- {
							c := &apiext.JSONSchemaProps{Type: "object", Description: texts[i%len(texts)], Title: "t"}
							if i < len(path) {
								positions[path[i]].put(c, inner)
							}
							inner = c
						}
						return inner
					}
					root := build()
					crd.TruncateDescription(root, max)
					c := root
					for i := 0; ; i++ {
						if want := expectCut(texts[i%len(texts)], max); c.Description != want || c.Type != "object" || c.Title != "t" {
							return fmt.Sprintf("maximum %d, level %d: description %q (type %q), expected %q", max, i, c.Description, c.Type, want)
						}
						if i == len(path) {
							break
						}
						c = positions[path[i]].get(c)
					}
				}
				return ""
			})
		}
		if len(path) == depth {
			return
		}
		for i := range positions {
			nest(append(path[:len(path):len(path)], i))
		}
	}
	nest(nil)
}

func c06(r *mc.Run) {
	w = world.Must(world.Light...)
	c06docs(r)
	c06schema(r)
	c06cut(r)
}
