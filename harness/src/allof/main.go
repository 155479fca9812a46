// C10: merging allOf.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"regexp"
	"sort"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/verifmc/mc"
)

type S = apiext.JSONSchemaProps

type recorder struct{ errs []string }

func (r *recorder) AddError(err error) { r.errs = append(r.errs, err.Error()) }

// ---- evaluation -------------------------------------------------------------

var regexps = map[string]*regexp.Regexp{}

func canonDoc(d interface{}) string {
	b, _ := json.Marshal(d)
	return string(b)
}

// opaque is the meaning given to formats and CEL rules: an arbitrary but fixed
// predicate on documents.
func opaque(name string, d interface{}) bool {
	h := fnv.New32a()
	h.Write([]byte(name + "|" + canonDoc(d)))
	return h.Sum32()>>7&1 == 0
}

func accepts(s *S, d interface{}) bool {
	switch s.Type {
	case "integer":
		if f, ok := d.(float64); !ok || f != math.Trunc(f) {
			return false
		}
	case "number":
		if _, ok := d.(float64); !ok {
			return false
		}
	case "string":
		if _, ok := d.(string); !ok {
			return false
		}
	case "boolean":
		if _, ok := d.(bool); !ok {
			return false
		}
	case "array":
		if _, ok := d.([]interface{}); !ok {
			return false
		}
	case "object":
		if _, ok := d.(map[string]interface{}); !ok {
			return false
		}
	}
	if s.XIntOrString {
		f, num := d.(float64)
		_, str := d.(string)
		if !(num && f == math.Trunc(f)) && !str {
			return false
		}
	}
	switch v := d.(type) {
	case float64:
		if s.Maximum != nil && (v > *s.Maximum || s.ExclusiveMaximum && v == *s.Maximum) {
			return false
		}
		if s.Minimum != nil && (v < *s.Minimum || s.ExclusiveMinimum && v == *s.Minimum) {
			return false
		}
		if s.MultipleOf != nil && math.Mod(v, *s.MultipleOf) != 0 {
			return false
		}
	case string:
		if s.MaxLength != nil && int64(len(v)) > *s.MaxLength {
			return false
		}
		if s.MinLength != nil && int64(len(v)) < *s.MinLength {
			return false
		}
		if s.Pattern != "" {
			re := regexps[s.Pattern]
			if re == nil {
				re = regexp.MustCompile(s.Pattern)
				regexps[s.Pattern] = re
			}
			if !re.MatchString(v) {
				return false
			}
		}
		if s.Format != "" && !opaque("format:"+s.Format, d) {
			return false
		}
	case []interface{}:
		if s.MaxItems != nil && int64(len(v)) > *s.MaxItems {
			return false
		}
		if s.MinItems != nil && int64(len(v)) < *s.MinItems {
			return false
		}
		if s.UniqueItems {
			seen := map[string]bool{}
			for _, e := range v {
				k := canonDoc(e)
				if seen[k] {
					return false
				}
				seen[k] = true
			}
		}
		if s.Items != nil && s.Items.Schema != nil {
			for _, e := range v {
				if !accepts(s.Items.Schema, e) {
					return false
				}
			}
		}
	case map[string]interface{}:
		if s.MaxProperties != nil && int64(len(v)) > *s.MaxProperties {
			return false
		}
		if s.MinProperties != nil && int64(len(v)) < *s.MinProperties {
			return false
		}
		for _, k := range s.Required {
			if _, ok := v[k]; !ok {
				return false
			}
		}
		for k, e := range v {
			if p, ok := s.Properties[k]; ok {
				if !accepts(&p, e) {
					return false
				}
				continue
			}
			if s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil && !accepts(s.AdditionalProperties.Schema, e) {
				return false
			}
		}
	}
	if len(s.Enum) > 0 {
		ok := false
		for _, e := range s.Enum {
			if string(e.Raw) == canonDoc(d) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	for _, x := range s.XValidations {
		if !opaque("rule:"+x.Rule, d) {
			return false
		}
	}
	for i := range s.AllOf {
		if !accepts(&s.AllOf[i], d) {
			return false
		}
	}
	if len(s.AnyOf) > 0 {
		ok := false
		for i := range s.AnyOf {
			ok = ok || accepts(&s.AnyOf[i], d)
		}
		if !ok {
			return false
		}
	}
	if len(s.OneOf) > 0 {
		n := 0
		for i := range s.OneOf {
			if accepts(&s.OneOf[i], d) {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	if s.Not != nil && accepts(s.Not, d) {
		return false
	}
	return true
}

var leaves = []interface{}{2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 2.5, -1.0, "", "a", "ab", "abc", "bbbbbb", true}

func universe() []interface{} {
	docs := append([]interface{}{}, leaves...)
	docs = append(docs, []interface{}{}, []interface{}{1.0, 1.0, 1.0, 1.0})
	for _, e := range leaves {
		docs = append(docs, []interface{}{e}, []interface{}{e, e}, []interface{}{3.0, e, "a"})
	}
	docs = append(docs, map[string]interface{}{}, map[string]interface{}{"a": 5.0, "b": "a", "c": 1.0})
	for _, e := range leaves {
		docs = append(docs, map[string]interface{}{"a": e}, map[string]interface{}{"b": e}, map[string]interface{}{"a": e, "b": e}, map[string]interface{}{"a": 3.0, "c": e})
	}
	return docs
}

// ---- what can be merged -------------------------------------------------------

// nodes collects, for every place in the document, the schemas that apply.
func nodes(s *S, path string, out map[string][]*S) {
	out[path] = append(out[path], s)
	for i := range s.AllOf {
		nodes(&s.AllOf[i], path, out)
	}
	for k := range s.Properties {
		p := s.Properties[k]
		nodes(&p, path+"."+k, out)
	}
	if s.Items != nil && s.Items.Schema != nil {
		nodes(s.Items.Schema, path+"[]", out)
	}
	if s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil {
		nodes(s.AdditionalProperties.Schema, path+"{}", out)
	}
}

// unmergeable says why the branches cannot become one structural schema.
func unmergeable(ns map[string][]*S) string {
	for path, l := range ns {
		types, defs, lt, lk := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
		props, addl := false, false
		for _, s := range l {
			if s.Type != "" {
				types[s.Type] = true
			}
			if s.Default != nil {
				defs[string(s.Default.Raw)] = true
			}
			if s.XListType != nil {
				lt[*s.XListType] = true
			}
			if s.XListMapKeys != nil {
				lk[strings.Join(s.XListMapKeys, ",")] = true
			}
			props = props || len(s.Properties) > 0
			addl = addl || s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil
		}
		switch {
		case len(types) > 1:
			return path + ": types"
		case len(defs) > 1:
			return path + ": defaults"
		case len(lt) > 1 || len(lk) > 1:
			return path + ": list types"
		case props && addl:
			return path + ": properties next to additionalProperties"
		}
	}
	return ""
}

// structural checks that the remaining allOf branches only validate values.
func structural(s *S, in bool, path string) string {
	if in {
		switch {
		case s.Type != "":
			return path + ": type inside allOf"
		case s.Default != nil:
			return path + ": default inside allOf"
		case s.Nullable:
			return path + ": nullable inside allOf"
		case s.Title != "" || s.Description != "":
			return path + ": documentation inside allOf"
		case s.XListType != nil || s.XListMapKeys != nil || s.XMapType != nil || s.XIntOrString || s.XEmbeddedResource || s.XPreserveUnknownFields != nil || s.XValidations != nil:
			return path + ": extension inside allOf"
		case s.Items != nil || s.AdditionalProperties != nil:
			return path + ": items or additionalProperties inside allOf"
		case len(s.Properties) > 0:
			return path + ": properties inside allOf"
		case len(s.Required) > 0:
			return path + ": required could be merged"
		case len(s.AllOf) > 0:
			return path + ": allOf inside allOf"
		}
	}
	for i := range s.AllOf {
		if m := structural(&s.AllOf[i], true, fmt.Sprintf("%s/allOf[%d]", path, i)); m != "" {
			return m
		}
	}
	for k, p := range s.Properties {
		if m := structural(&p, in, path+"."+k); m != "" {
			return m
		}
	}
	if s.Items != nil && s.Items.Schema != nil {
		if m := structural(s.Items.Schema, in, path+"[]"); m != "" {
			return m
		}
	}
	if s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil {
		return structural(s.AdditionalProperties.Schema, in, path+"{}")
	}
	return ""
}

// place finds the merged node for a path.
func places(s *S, path string, out map[string]*S) {
	out[path] = s
	for k := range s.Properties {
		p := s.Properties[k]
		places(&p, path+"."+k, out)
	}
	if s.Items != nil && s.Items.Schema != nil {
		places(s.Items.Schema, path+"[]", out)
	}
	if s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil {
		places(s.AdditionalProperties.Schema, path+"{}", out)
	}
}

// metadata compares what does not decide about documents.
func metadata(ns map[string][]*S, after *S) string {
	got := map[string]*S{}
	places(after, "$", got)
	for path, l := range ns {
		g := got[path]
		if g == nil {
			return path + " is gone"
		}
		nullable, preserve, embedded, intstr := false, false, false, false
		var def, lt *string
		maps := map[string]bool{}
		rules := map[string]int{}
		keys := 0
		for _, s := range l {
			nullable = nullable || s.Nullable
			preserve = preserve || s.XPreserveUnknownFields != nil
			embedded = embedded || s.XEmbeddedResource
			intstr = intstr || s.XIntOrString
			if s.Default != nil {
				d := string(s.Default.Raw)
				def = &d
			}
			if s.XListType != nil {
				lt = s.XListType
			}
			if len(s.XListMapKeys) > 0 {
				keys = len(s.XListMapKeys)
			}
			if s.XMapType != nil {
				maps[*s.XMapType] = true
			}
			for _, x := range s.XValidations {
				rules[x.Rule]++
			}
		}
		switch {
		case g.Nullable != nullable:
			return fmt.Sprintf("%s: nullable is %v", path, g.Nullable)
		case (g.XPreserveUnknownFields != nil) != preserve:
			return path + ": x-preserve-unknown-fields"
		case g.XEmbeddedResource != embedded:
			return path + ": x-embedded-resource"
		case g.XIntOrString != intstr:
			return path + ": x-int-or-string"
		case (g.Default != nil) != (def != nil) || def != nil && string(g.Default.Raw) != *def:
			return path + ": default"
		case (g.XListType != nil) != (lt != nil) || lt != nil && *g.XListType != *lt:
			return path + ": x-list-type"
		case len(g.XListMapKeys) != keys:
			return fmt.Sprintf("%s: x-list-map-keys %v", path, g.XListMapKeys)
		case (g.XMapType != nil) != (len(maps) > 0) || g.XMapType != nil && !maps[*g.XMapType]:
			return path + ": x-map-type"
		}
		for _, x := range g.XValidations {
			delete(rules, x.Rule)
		}
		if len(rules) > 0 {
			return fmt.Sprintf("%s: rules lost: %v", path, rules)
		}
	}
	return ""
}

// ---- branches ------------------------------------------------------------------

func f(v float64) *float64 { return &v }
func n(v int64) *int64     { return &v }
func st(s string) *string  { return &s }
func js(s string) apiext.JSON {
	return apiext.JSON{Raw: []byte(s)}
}
func props(kv ...interface{}) map[string]S {
	out := map[string]S{}
	for i := 0; i < len(kv); i += 2 {
		out[kv[i].(string)] = kv[i+1].(S)
	}
	return out
}
func items(s S) *apiext.JSONSchemaPropsOrArray { return &apiext.JSONSchemaPropsOrArray{Schema: &s} }
func addl(s S) *apiext.JSONSchemaPropsOrBool {
	return &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: &s}
}

type branch struct {
	name string
	s    func() S
	core bool // takes part in the longer sequences
}

func branches() []branch {
	yes := true
	reason := apiext.FieldValueInvalid
	var out []branch
	b := func(name string, core bool, s func() S) { out = append(out, branch{name, s, core}) }
	b("empty", false, func() S { return S{} })
	for _, t := range []string{"integer", "number", "string", "array", "object"} {
		t := t
		b("type="+t, t == "integer" || t == "object", func() S { return S{Type: t} })
	}
	b("max5", true, func() S { return S{Maximum: f(5)} })
	b("max7", true, func() S { return S{Maximum: f(7)} })
	b("max5x", true, func() S { return S{Maximum: f(5), ExclusiveMaximum: true} })
	b("max7x", true, func() S { return S{Maximum: f(7), ExclusiveMaximum: true} })
	b("min3", true, func() S { return S{Minimum: f(3)} })
	b("min4x", true, func() S { return S{Minimum: f(4), ExclusiveMinimum: true} })
	b("min3x", false, func() S { return S{Minimum: f(3), ExclusiveMinimum: true} })
	b("int5..7x", true, func() S { return S{Type: "integer", Minimum: f(5), Maximum: f(7), ExclusiveMaximum: true} })
	b("mult2", false, func() S { return S{MultipleOf: f(2)} })
	b("mult3", false, func() S { return S{MultipleOf: f(3)} })
	b("maxlen1", false, func() S { return S{MaxLength: n(1)} })
	b("maxlen2", true, func() S { return S{MaxLength: n(2)} })
	b("minlen1", false, func() S { return S{MinLength: n(1)} })
	b("minlen2", false, func() S { return S{MinLength: n(2)} })
	b("pata", true, func() S { return S{Pattern: "^a"} })
	b("patb", true, func() S { return S{Pattern: "b"} })
	b("fmt1", false, func() S { return S{Format: "one"} })
	b("fmt2", false, func() S { return S{Format: "two"} })
	b("maxitems1", false, func() S { return S{MaxItems: n(1)} })
	b("maxitems2", false, func() S { return S{MaxItems: n(2)} })
	b("minitems1", false, func() S { return S{MinItems: n(1)} })
	b("unique", false, func() S { return S{UniqueItems: true} })
	b("maxprops1", false, func() S { return S{MaxProperties: n(1)} })
	b("maxprops2", false, func() S { return S{MaxProperties: n(2)} })
	b("minprops1", false, func() S { return S{MinProperties: n(1)} })
	b("minprops2", false, func() S { return S{MinProperties: n(2)} })
	b("enum1", true, func() S { return S{Enum: []apiext.JSON{js("3"), js(`"a"`), js("5")}} })
	b("enum2", true, func() S { return S{Enum: []apiext.JSON{js("5"), js(`"ab"`)}} })
	b("nullable", false, func() S { return S{Nullable: true} })
	b("def1", true, func() S { d := js("5"); return S{Default: &d} })
	b("def2", false, func() S { d := js("6"); return S{Default: &d} })
	b("req-a", true, func() S { return S{Required: []string{"a"}} })
	b("req-ab", false, func() S { return S{Required: []string{"b", "a"}} })
	b("rule1", true, func() S { return S{XValidations: apiext.ValidationRules{{Rule: "one"}}} })
	b("rule2", false, func() S {
		return S{XValidations: apiext.ValidationRules{{Rule: "two", Message: "m", Reason: &reason}, {Rule: "three"}}}
	})
	b("anyof1", false, func() S { return S{AnyOf: []S{{Maximum: f(4)}, {Pattern: "b"}}} })
	b("anyof2", false, func() S { return S{AnyOf: []S{{Minimum: f(4)}, {MinLength: n(2)}}} })
	b("oneof1", false, func() S { return S{OneOf: []S{{Maximum: f(4)}, {Minimum: f(3)}}} })
	b("oneof2", false, func() S { return S{OneOf: []S{{MaxLength: n(2)}, {Pattern: "^a"}}} })
	b("not1", false, func() S { return S{Not: &S{Enum: []apiext.JSON{js("5")}}} })
	b("not2", false, func() S { return S{Not: &S{MaxLength: n(1)}} })
	b("ios", true, func() S { return S{XIntOrString: true, AnyOf: []S{{Type: "integer"}, {Type: "string"}}} })
	b("preserve", false, func() S { return S{XPreserveUnknownFields: &yes} })
	b("embedded", false, func() S { return S{XEmbeddedResource: true} })
	b("ltset", false, func() S { return S{XListType: st("set")} })
	b("ltmap", true, func() S { return S{XListType: st("map"), XListMapKeys: []string{"a"}} })
	b("ltmap2", false, func() S { return S{XListType: st("map"), XListMapKeys: []string{"b"}} })
	b("mapatomic", false, func() S { return S{XMapType: st("atomic")} })
	b("mapgran", false, func() S { return S{XMapType: st("granular")} })
	b("items-int", true, func() S { return S{Type: "array", Items: items(S{Type: "integer"})} })
	b("items-max5", true, func() S { return S{Items: items(S{Maximum: f(5)})} })
	b("items-str", false, func() S { return S{Items: items(S{Type: "string"})} })
	b("prop-a-int", true, func() S { return S{Type: "object", Properties: props("a", S{Type: "integer"})} })
	b("prop-a-max5", true, func() S { return S{Properties: props("a", S{Maximum: f(5), Description: "d"})} })
	b("prop-a-max7x", true, func() S {
		return S{Properties: props("a", S{Maximum: f(7), ExclusiveMaximum: true}, "b", S{Type: "string"})}
	})
	b("prop-a-str", false, func() S { return S{Properties: props("a", S{Type: "string"})} })
	b("prop-a-items", false, func() S { return S{Properties: props("a", S{Type: "array", Items: items(S{Type: "string"})})} })
	b("prop-b", false, func() S { return S{Properties: props("b", S{MinLength: n(1)})} })
	b("prop-deep", false, func() S {
		return S{Properties: props("a", S{Properties: props("a", S{Maximum: f(5), ExclusiveMaximum: true})})}
	})
	b("prop-allof", true, func() S {
		return S{Properties: props("a", S{AllOf: []S{{Maximum: f(7)}, {Maximum: f(6), ExclusiveMaximum: true}}})}
	})
	b("addl-int", false, func() S { return S{Type: "object", AdditionalProperties: addl(S{Type: "integer"})} })
	b("addl-max5", true, func() S { return S{AdditionalProperties: addl(S{Maximum: f(5)})} })
	b("addl-allows", false, func() S { return S{AdditionalProperties: &apiext.JSONSchemaPropsOrBool{Allows: true}} })
	b("allof-max", true, func() S { return S{AllOf: []S{{Maximum: f(6), ExclusiveMaximum: true}, {Maximum: f(7)}}} })
	b("allof-mix", false, func() S { return S{Pattern: "b", AllOf: []S{{Pattern: "^a"}, {AllOf: []S{{MaxLength: n(2)}}}}} })
	b("doc", false, func() S {
		e := js("1")
		return S{Title: "t", Description: "d", Example: &e}
	})
	return out
}

// check merges one schema and decides.
func check(docs []interface{}, s S) (string, string) {
	before := canonS(&s)
	in := s.DeepCopy()
	rec := &recorder{}
	out := crd.FlattenEmbedded(in, rec)
	if canonS(in) != before {
		return "the input was modified", ""
	}
	ns := map[string][]*S{}
	nodes(&s, "$", ns)
	why := unmergeable(ns)
	if why != "" {
		if len(rec.errs) == 0 {
			return fmt.Sprintf("cannot be merged (%s), but no error is reported; result %s", why, canonS(out)), ""
		}
		return "", "error"
	}
	if len(rec.errs) > 0 {
		return fmt.Sprintf("errors %v, though the branches can be merged", rec.errs), ""
	}
	if m := structural(out, false, "$"); m != "" {
		return m + "; result " + canonS(out), ""
	}
	if m := metadata(ns, out); m != "" {
		return m + "; result " + canonS(out), ""
	}
	if out.Title != s.Title || out.Description != s.Description || (out.Example == nil) != (s.Example == nil) {
		return "the documentation changed: " + canonS(out), ""
	}
	sig := make([]byte, 0, len(docs))
	for _, d := range docs {
		b, a := accepts(&s, d), accepts(out, d)
		if b != a {
			return fmt.Sprintf("document %s: accepted before: %v, after: %v; result %s", canonDoc(d), b, a, canonS(out)), ""
		}
		if a {
			sig = append(sig, 1)
		} else {
			sig = append(sig, 0)
		}
	}
	// merging what is merged already keeps the meaning, too
	rec2 := &recorder{}
	again := crd.FlattenEmbedded(out, rec2)
	if len(rec2.errs) > 0 {
		return fmt.Sprintf("merging %s once more gives errors %v", canonS(out), rec2.errs), ""
	}
	for i, d := range docs {
		if accepts(again, d) != (sig[i] == 1) {
			return fmt.Sprintf("document %s: merging once more changes %s to %s", canonDoc(d), canonS(out), canonS(again)), ""
		}
	}
	h := fnv.New64a()
	h.Write(sig)
	return "", fmt.Sprint(h.Sum64())
}

func canonS(s *S) string {
	b, err := json.Marshal(s)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

// wrap places a schema somewhere in a document.
var wraps = []struct {
	name string
	f    func(s S) S
}{
	{"top", func(s S) S { return s }},
	{"property", func(s S) S { return S{Type: "object", Properties: props("a", s)} }},
	{"items", func(s S) S { return S{Type: "array", Items: items(s)} }},
	{"additional", func(s S) S { return S{Type: "object", AdditionalProperties: addl(s)} }},
	{"below a branch", func(s S) S {
		return S{AllOf: []S{{Properties: props("a", s)}, {Properties: props("b", S{Type: "string"})}}}
	}},
}

func c10(r *mc.Run) {
	docs := universe()
	bs := branches()
	one := func(key string, s S) {
		r.State(key)
		r.Transition(1)
		r.Case(key, canonS(&s), true, func() string {
			msg, out := check(docs, s)
			if msg == "" {
				r.Outcome(out)
			}
			return msg
		})
	}
	var core []int
	for i, b := range bs {
		if b.core {
			core = append(core, i)
		}
	}
	r.Count("branches", len(bs))
	r.Count("documents", len(docs))
	seq := func(own int, list []int, shape int) {
		var names []string
		for _, i := range list {
			names = append(names, bs[i].name)
		}
		for _, w := range wraps {
			if !r.Mine() {
				continue
			}
			s := bs[own].s()
			allOf := s.AllOf
			s.AllOf = nil
			var l []S
			l = append(l, allOf...)
			for _, i := range list {
				l = append(l, bs[i].s())
			}
			switch shape {
			case 0:
				s.AllOf = l
			case 1: // the first ones one level deeper
				k := len(l) - 1
				s.AllOf = append([]S{{AllOf: append([]S{}, l[:k]...)}}, l[k])
			case 2: // the last ones one level deeper, the first as the owner
				l[0].AllOf = append(append([]S{}, l[0].AllOf...), l[1:]...)
				s.AllOf = l[:1]
			}
			one(fmt.Sprintf("%s: %s + %s shape %d", w.name, bs[own].name, strings.Join(names, ", "), shape), w.f(s))
		}
	}
	for own := range bs {
		for i := range bs {
			seq(own, []int{i}, 0)
		}
	}
	for i := range bs {
		for j := range bs {
			for shape := 0; shape < 3; shape++ {
				seq(0, []int{i, j}, shape)
			}
		}
		if r.Expired() {
			return
		}
	}
	own := core
	if r.Thorough {
		own = nil
		for i := range bs {
			own = append(own, i)
		}
	}
	for _, o := range own {
		for _, i := range own {
			for _, j := range own {
				seq(o, []int{i, j}, 0)
			}
			if r.Expired() {
				return
			}
		}
	}
	for _, i := range core {
		for _, j := range core {
			for _, k := range core {
				for shape := 0; shape < 3; shape++ {
					seq(0, []int{i, j, k}, shape)
				}
				if r.Thorough {
					for _, l := range core {
						seq(0, []int{i, j, k, l}, 0)
					}
				}
			}
			if r.Expired() {
				return
			}
		}
	}
}

func main() {
	_ = sort.Strings
	if os.Args[1] != "C10" {
		fmt.Println("unknown", os.Args[1])
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C10", Body: c10,
		Rule:        "every pair of branches (also as parent and branch) in every place and nesting shape, and every triple of the core branches; non-trivial: all",
		Assumptions: []string{"the evaluator in the harness", "formats and CEL rules are arbitrary fixed predicates", "null is allowed if any branch allows it (documented)"}})
}
