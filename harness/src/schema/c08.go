package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	rt_ "sigs.k8s.io/controller-tools/verifmc/rt"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

// mk is a marker in one concrete value, with its documented effect.
type mk struct {
	text  string // without "// +"
	first bool   // takes effect before the markers that look at the schema
	last  bool   // takes effect after its sibling (kubebuilder:default over default)
	kinds string // f: field, t: type, F: items on a field, T: items on a type
	pair  bool   // takes part in the pairs
	app   func(s *S) bool
}

func num(s *S) bool  { return s.Type == "integer" || s.Type == "number" }
func text(s *S) bool { return s.Type == "string" || s.XIntOrString }
func f64(f float64) *float64 {
	return &f
}
func i64(i int64) *int64 { return &i }
func raw(v string) *apiext.JSON {
	return &apiext.JSON{Raw: []byte(v)}
}
func str(s string) *string { return &s }

func always(f func(s *S)) func(*S) bool { return func(s *S) bool { f(s); return true } }
func when(c func(*S) bool, f func(s *S)) func(*S) bool {
	return func(s *S) bool {
		if !c(s) {
			return false
		}
		f(s)
		return true
	}
}
func never(*S) bool { return false }

// numeric: number markers take whole numbers only on integers.
func numeric(v float64, f func(s *S)) func(*S) bool {
	return when(func(s *S) bool { return num(s) && (s.Type != "integer" || v == math.Trunc(v)) }, f)
}
func isType(t string) func(*S) bool { return func(s *S) bool { return s.Type == t } }

func schemaMarkers() []mk {
	all := "ftFT"
	kv := "kubebuilder:validation:"
	yes := true
	out := []mk{}
	add := func(m mk) { out = append(out, m) }
	for i, v := range []float64{3, -2, 0, 2.5, 9007199254740992, -0.125, 1e6} {
		t := map[float64]string{3: "3", -2: "-2", 0: "0", 2.5: "2.5", 9007199254740992: "9007199254740992", -0.125: "-0.125", 1e6: "1e6"}[v]
		v := v
		add(mk{text: kv + "Maximum=" + t, kinds: all, pair: i == 0, app: numeric(v, func(s *S) { s.Maximum = f64(v) })})
		add(mk{text: kv + "Minimum=" + t, kinds: all, pair: i == 1, app: numeric(v, func(s *S) { s.Minimum = f64(v) })})
		if v > 0 {
			add(mk{text: kv + "MultipleOf=" + t, kinds: all, pair: i == 0, app: numeric(v, func(s *S) { s.MultipleOf = f64(v) })})
		}
	}
	for _, b := range []bool{true, false} {
		b := b
		t := fmt.Sprint(b)
		add(mk{text: kv + "ExclusiveMaximum=" + t, kinds: all, pair: b, app: when(num, func(s *S) { s.ExclusiveMaximum = b })})
		add(mk{text: kv + "ExclusiveMinimum=" + t, kinds: all, pair: b, app: when(num, func(s *S) { s.ExclusiveMinimum = b })})
		add(mk{text: kv + "UniqueItems=" + t, kinds: all, pair: b, app: when(isType("array"), func(s *S) { s.UniqueItems = b })})
	}
	for _, n := range []int64{0, 7, 9007199254740993} {
		n := n
		add(mk{text: fmt.Sprintf(kv+"MaxLength=%d", n), kinds: all, pair: n == 7, app: when(text, func(s *S) { s.MaxLength = i64(n) })})
		add(mk{text: fmt.Sprintf(kv+"MinLength=%d", n), kinds: all, pair: n == 7, app: when(text, func(s *S) { s.MinLength = i64(n) })})
		add(mk{text: fmt.Sprintf(kv+"MaxItems=%d", n), kinds: all, pair: n == 7, app: when(isType("array"), func(s *S) { s.MaxItems = i64(n) })})
		add(mk{text: fmt.Sprintf(kv+"MinItems=%d", n), kinds: all, pair: n == 7, app: when(isType("array"), func(s *S) { s.MinItems = i64(n) })})
		add(mk{text: fmt.Sprintf(kv+"MaxProperties=%d", n), kinds: all, pair: n == 7, app: when(isType("object"), func(s *S) { s.MaxProperties = i64(n) })})
		add(mk{text: fmt.Sprintf(kv+"MinProperties=%d", n), kinds: all, pair: n == 7, app: when(isType("object"), func(s *S) { s.MinProperties = i64(n) })})
	}
	for i, p := range []struct{ t, v string }{{"`^\\d+$`", `^\d+$`}, {`"^a\\.b$"`, `^a\.b$`}, {"^[a-z]+$", "^[a-z]+$"}, {"`a=b,c;d`", "a=b,c;d"}} {
		p := p
		add(mk{text: kv + "Pattern=" + p.t, kinds: all, pair: i < 2, app: when(text, func(s *S) { s.Pattern = p.v })})
	}
	for i, e := range []struct {
		t  string
		vs []string
	}{{"a;b", []string{`"a"`, `"b"`}}, {"1;2", []string{"1", "2"}}, {`{"x y",z}`, []string{`"x y"`, `"z"`}}, {"true;false", []string{"true", "false"}}, {`{"1",b,"c;d"}`, []string{`"1"`, `"b"`, `"c;d"`}}, {`{1,a,true,-2.5}`, []string{"1", `"a"`, "true", "-2.5"}}, {"a", []string{`"a"`}}, {`"";x`, []string{`""`, `"x"`}}, {"9007199254740993;2", []string{"9007199254740993", "2"}}} {
		e := e
		add(mk{text: kv + "Enum=" + e.t, kinds: all, pair: i < 2, app: always(func(s *S) {
			s.Enum = nil
			for _, v := range e.vs {
				s.Enum = append(s.Enum, apiext.JSON{Raw: []byte(v)})
			}
		})})
	}
	add(mk{text: kv + "Format=date-time", kinds: all, pair: true, app: always(func(s *S) { s.Format = "date-time" })})
	add(mk{text: kv + `Format="int64"`, kinds: all, app: always(func(s *S) { s.Format = "int64" })})
	for _, t := range []string{"string", "integer", "array", "object", "number"} {
		t := t
		add(mk{text: kv + "Type=" + t, first: true, kinds: all, pair: t != "number", app: always(func(s *S) { s.Type = t })})
	}
	pres := func(s *S) { s.XPreserveUnknownFields = &yes }
	add(mk{text: kv + "XPreserveUnknownFields", kinds: all, app: always(pres)})
	add(mk{text: "kubebuilder:pruning:PreserveUnknownFields", kinds: "ft", pair: true, app: always(pres)})
	emb := func(s *S) { s.XEmbeddedResource = true }
	add(mk{text: kv + "XEmbeddedResource", kinds: all, app: always(emb)})
	add(mk{text: kv + "EmbeddedResource", kinds: "f", pair: true, app: always(emb)})
	add(mk{text: kv + "XIntOrString", first: true, kinds: all, pair: true, app: always(func(s *S) { s.XIntOrString = true })})
	rule := func(v apiext.ValidationRule) func(*S) bool {
		return always(func(s *S) { s.XValidations = append(s.XValidations, v) })
	}
	add(mk{text: kv + `XValidation:rule="self > 1"`, kinds: all, pair: true, app: rule(apiext.ValidationRule{Rule: "self > 1"})})
	reason := apiext.FieldValueForbidden
	add(mk{text: kv + `XValidation:rule="self.a == 'b'",message="must, be",reason=FieldValueForbidden,fieldPath=".x"`, kinds: all, pair: true,
		app: rule(apiext.ValidationRule{Rule: "self.a == 'b'", Message: "must, be", Reason: &reason, FieldPath: ".x"})})
	add(mk{text: kv + "XValidation:rule=`oldSelf == self`,messageExpression=`'n' + self`,optionalOldSelf=true", kinds: all,
		app: rule(apiext.ValidationRule{Rule: "oldSelf == self", MessageExpression: "'n' + self", OptionalOldSelf: &yes})})
	for _, reason := range []apiext.FieldValueErrorReason{apiext.FieldValueRequired, apiext.FieldValueInvalid, apiext.FieldValueDuplicate} {
		reason := reason
		add(mk{text: kv + `XValidation:rule="2 > 1",reason=` + string(reason), kinds: all, app: rule(apiext.ValidationRule{Rule: "2 > 1", Reason: &reason})})
	}
	add(mk{text: kv + `XValidation:rule="1 == 1",reason=Nonsense`, kinds: all, app: never})

	add(mk{text: "nullable", kinds: "f", pair: true, app: always(func(s *S) { s.Nullable = true })})
	def := func(v string, last, pair bool, src string) {
		add(mk{text: src, last: last, kinds: "f", pair: pair, app: always(func(s *S) {
			if v == "{}" && s.Type == "array" && last {
				s.Default = raw("[]")
				return
			}
			s.Default = raw(v)
		})})
	}
	for i, d := range []struct{ t, v string }{{"5", "5"}, {"abc", `"abc"`}, {`"a b"`, `"a b"`}, {"{a,b}", `["a","b"]`}, {"{}", "{}"}, {"{x: 1}", `{"x":1}`}, {"true", "true"}, {"2.5", "2.5"}, {`"5"`, `"5"`}, {"`<&>`", `"\u003c\u0026\u003e"`}, {"9007199254740993", "9007199254740993"}, {"-7", "-7"}, {"-0.25", "-0.25"}, {"100000.5", "100000.5"}, {"1;2", "[1,2]"}, {`""`, `""`}, {"{x: {y: a}, z: {1,2}}", `{"x":{"y":"a"},"z":[1,2]}`}, {"{{a,b},{c}}", `[["a","b"],["c"]]`}, {"`日本 é`", `"日本 é"`}, {"`line\\n`", `"line\\n"`}, {"a-b/c.d", `"a-b/c.d"`}} {
		def(d.v, true, i == 4 || i == 1, "kubebuilder:default:="+d.t)
		if i == 0 {
			def(d.v, true, false, "kubebuilder:default="+d.t)
		}
		d := d
		add(mk{text: "kubebuilder:example:=" + d.t, kinds: "f", pair: i == 0, app: always(func(s *S) { s.Example = raw(d.v) })})
	}
	for i, d := range []struct{ t, v string }{{"7", "7"}, {`"q"`, `"q"`}, {"[1,2]", "[1,2]"}, {`{"a":{"b":null}}`, `{"a":{"b":null}}`}, {"false", "false"}, {"9007199254740993", "9007199254740993"}, {`{"n":-9007199254740993,"l":[1152921504606846977]}`, `{"l":[1152921504606846977],"n":-9007199254740993}`}, {"-2.5", "-2.5"}, {`""`, `""`}, {"[]", "[]"}, {"{}", "{}"}, {` "q r" `, `"q r"`}, {`"é\n"`, `"é\n"`}} {
		def(d.v, false, i == 0, "default="+d.t)
	}
	for _, t := range []string{"default=ref(Foo)", "default= ref(pkg.Foo)"} {
		add(mk{text: t, kinds: "f", app: always(func(*S) {})})
	}
	for _, t := range []string{"default=abc", `default="open`, "default=1 2", "default=[1,]", "default='q'", "default={a:1}"} {
		add(mk{text: t, kinds: "f", app: never})
	}
	add(mk{text: `kubebuilder:title="A title"`, kinds: "f", pair: true, app: always(func(s *S) { s.Title = "A title" })})
	add(mk{text: "kubebuilder:title=5", kinds: "f", app: never})

	for _, l := range []string{"map", "set", "atomic", "array"} {
		l := l
		app := when(isType("array"), func(s *S) { s.XListType = str(l) })
		if l == "array" {
			app = never
		}
		add(mk{text: "listType=" + l, first: true, kinds: "ft", pair: l != "array" && l != "set", app: app})
	}
	for i, k := range []string{"name", "port"} {
		k := k
		add(mk{text: "listMapKey=" + k, kinds: "ft", pair: i == 0, app: when(func(s *S) bool { return s.Type == "array" && s.XListType != nil && *s.XListType == "map" }, func(s *S) { s.XListMapKeys = append(s.XListMapKeys, k) })})
	}
	for _, m := range []string{"granular", "atomic", "nope"} {
		m := m
		mt := when(isType("object"), func(s *S) { s.XMapType = str(m) })
		st := when(func(s *S) bool { return s.Type == "object" || s.Type == "" }, func(s *S) { s.XMapType = str(m) })
		if m == "nope" {
			mt, st = never, never
		}
		add(mk{text: "mapType=" + m, kinds: "ft", pair: m == "atomic", app: mt})
		// the one of the two that counts when both are written is left open
		add(mk{text: "structType=" + m, kinds: "ft", pair: m == "atomic", app: st})
	}
	return out
}

// itemsText turns a validation marker into its items form.
func itemsText(t string) string {
	return strings.Replace(t, "kubebuilder:validation:", "kubebuilder:validation:items:", 1)
}

// target is a Go type to put markers on.
type target struct {
	src        string
	extra      string // always written above the field
	exp        func() *S
	danger     bool
	typeOK     bool   // can be declared as "type T <src>"
	methods    string // methods of the declared type
	textual    bool   // must stay a string
	ref        bool
	schemaless bool
}

func targets() []target {
	nstruct := func() *S {
		return strct([]string{"x"}, map[string]*S{"x": sch("integer", ""), "y": sch("string", "")})
	}
	k := func(t, f string) func() *S { return func() *S { return sch(t, f) } }
	return []target{
		{src: "int", exp: k("integer", ""), typeOK: true},
		{src: "int64", exp: k("integer", "int64"), typeOK: true},
		{src: "float64", exp: k("number", ""), danger: true, typeOK: true},
		{src: "bool", exp: k("boolean", ""), typeOK: true},
		{src: "string", exp: k("string", ""), typeOK: true},
		{src: "*string", exp: k("string", "")},
		{src: "[]byte", exp: k("string", "byte"), typeOK: true},
		{src: "[]string", exp: func() *S { return arr(sch("string", "")) }, typeOK: true},
		{src: "[]int", exp: func() *S { return arr(sch("integer", "")) }, typeOK: true},
		{src: "[][]string", exp: func() *S { return arr(arr(sch("string", ""))) }, typeOK: true},
		{src: "[]map[string]int", exp: func() *S { return arr(obj(sch("integer", ""))) }},
		{src: "map[string]string", exp: func() *S { return obj(sch("string", "")) }, typeOK: true},
		{src: "map[string][]int", exp: func() *S { return obj(arr(sch("integer", ""))) }, typeOK: true},
		{src: "map[string]*string", exp: func() *S { return obj(sch("string", "")) }, typeOK: true},
		{src: "[]*string", exp: func() *S { return arr(sch("string", "")) }, typeOK: true},
		{src: "[]map[string]*string", exp: func() *S { return arr(obj(sch("string", ""))) }, typeOK: true},
		{src: "map[string][]*string", exp: func() *S { return obj(arr(sch("string", ""))) }, typeOK: true},
		{src: "NStruct", exp: nstruct, ref: true},
		{src: "struct {\n\tX int `json:\"x\"`\n\tY string `json:\"y,omitempty\"`\n}", exp: nstruct, typeOK: true, schemaless: true /* only as a type */},
		{src: "NStruct", extra: "kubebuilder:validation:Schemaless", exp: func() *S { return &S{} }},
		{src: "struct{ v string }", exp: k("string", ""), typeOK: true, textual: true, schemaless: true, methods: "func (T) MarshalText() ([]byte, error) { return nil, nil }\n"},
	}
}

// applyModel applies markers the documented way; false: an error is due.
func applyModel(s *S, ms []mk, items bool) bool {
	ok := true
	for pass := 0; pass < 4; pass++ {
		for _, m := range ms {
			p := 2
			if m.first {
				p = 0
			}
			if strings.HasPrefix(m.text, "listType") {
				p = 1 // looks at the type, decides about the map keys
			}
			if m.last {
				p = 3
			}
			if p != pass {
				continue
			}
			if items {
				if s.Type != "array" || s.Items == nil || s.Items.Schema == nil {
					ok = false
					continue
				}
				if !m.app(s.Items.Schema) {
					ok = false
				}
				continue
			}
			if !m.app(s) {
				ok = false
			}
		}
	}
	return ok
}

// c08case checks one list of markers on a target in a position.
func c08case(r *mc.Run, t target, pos string, ms []mk, itemMs []mk) {
	if !r.Mine() {
		return
	}
	var texts []string
	if t.extra != "" {
		texts = append(texts, t.extra)
	}
	for i := 0; i < len(ms) || i < len(itemMs); i++ {
		if i < len(itemMs) {
			texts = append(texts, itemsText(itemMs[i].text))
		}
		if i < len(ms) {
			texts = append(texts, ms[i].text)
		}
	}
	key := pos + "|" + t.src + "|" + strings.Join(texts, "|")
	body := "type Root struct {\n\tBefore []string `json:\"before,omitempty\"`\n\n"
	comment := "// doc\n"
	for _, x := range texts {
		comment += "// +" + x + "\n"
	}
	if pos == "field" {
		body += comment + "F " + t.src + " `json:\"f\"`\n"
	} else {
		body += "\tF int `json:\"f\"`\n"
	}
	body += "\n\tAfter int `json:\"after,omitempty\"`\n}\n"
	if pos == "type" {
		body += "type B []string\n\n" + comment + "type T " + t.src + "\n\ntype A []string\n" + t.methods
	}
	want := t.exp()
	if t.ref {
		// what the referenced type is, is not known where markers are applied
		want = &S{}
	}
	ok := applyModel(want, ms, false)
	if t.ref {
		full := t.exp()
		if want.Type != "" && want.Type != full.Type {
			ok = false
		}
		want.Type, want.Properties, want.Required = full.Type, full.Properties, full.Required
	}
	if !applyModel(want, itemMs, true) {
		ok = false
	}
	if t.textual && want.Type != "string" {
		ok = false
	}
	r.State(key)
	r.Transition(len(texts))
	one := func() string {
		pkg, err := c07pkg(body)
		if err != nil {
			return "HARNESS: " + err.Error()
		}
		var opts []func(*crd.Parser)
		if t.danger {
			opts = append(opts, dangerous)
		}
		p := newParser(opts...)
		root, errs := schemaOf(p, pkg, "Root")
		got := root.Properties["f"]
		if pos == "type" {
			var ts *S
			ts, errs = schemaOf(p, pkg, "T")
			got = *ts
		}
		if !ok {
			if len(errs) == 0 {
				return fmt.Sprintf("a marker does not apply here, but no error is reported; schema %s", canon(&got, false))
			}
			return ""
		}
		if len(errs) > 0 {
			return fmt.Sprintf("errors: %v", errs)
		}
		g, e := canonT(&got), canonT(want)
		r.Outcome(g)
		if g != e {
			return fmt.Sprintf("schema %s\nexpected %s", g, e)
		}
		rest := *root
		delete(rest.Properties, "f")
		if g, e := canonT(&rest), canonT(strct([]string{"f"}, map[string]*S{"before": arr(sch("string", "")), "after": sch("integer", "")})); g != e {
			return fmt.Sprintf("the rest of the type is %s\nexpected %s", g, e)
		}
		if pos == "type" {
			for _, n := range []string{"A", "B"} {
				s, _ := schemaOf(p, pkg, n)
				if g, e := canonT(s), canonT(arr(sch("string", ""))); g != e {
					return fmt.Sprintf("the neighbouring type %s is %s", n, g)
				}
			}
		}
		return ""
	}
	r.Case(key, body, ok, func() string {
		if msg := one(); msg != "" || len(ms)+len(itemMs) < 2 {
			return msg
		}
		// the markers are held in a map: the other order must not differ
		rt_.Reverse = true
		defer func() { rt_.Reverse = false }()
		if msg := one(); msg != "" {
			return "with maps iterated in reverse: " + msg
		}
		return ""
	})
	if ok {
		r.Sample(key)
	}
}

// canonT keeps titles.
func canonT(s *S) string {
	t := s.Title
	c := s.DeepCopy()
	normalize(c, false)
	c.Title = t
	b, err := json.Marshal(c)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

func c08(r *mc.Run) {
	setupC07()
	ms := schemaMarkers()
	var pairs []mk
	for _, m := range ms {
		if m.pair {
			pairs = append(pairs, m)
		}
	}
	r.Count("markers", len(ms))
	for _, t := range targets() {
		for _, pos := range []string{"field", "type"} {
			if pos == "type" && !t.typeOK || pos == "field" && t.schemaless {
				continue
			}
			kind, ikind := "f", "F"
			if pos == "type" {
				kind, ikind = "t", "T"
			}
			c08case(r, t, pos, nil, nil)
			for _, m := range ms {
				if strings.Contains(m.kinds, kind) {
					c08case(r, t, pos, []mk{m}, nil)
				}
				if strings.Contains(m.kinds, ikind) {
					c08case(r, t, pos, nil, []mk{m})
				}
			}
			src := pairs
			if r.Thorough {
				src = ms
			}
			for _, a := range src {
				for _, b := range src {
					if r.Expired() {
						return
					}
					if conflict(a, b) {
						continue
					}
					if strings.Contains(a.kinds, kind) && strings.Contains(b.kinds, kind) {
						c08case(r, t, pos, []mk{a, b}, nil)
					}
					if strings.Contains(a.kinds, ikind) && strings.Contains(b.kinds, ikind) && strings.HasPrefix(t.src, "[]") {
						c08case(r, t, pos, nil, []mk{a, b})
					}
					if strings.Contains(a.kinds, kind) && strings.Contains(b.kinds, ikind) && (strings.HasPrefix(t.src, "[]") || a.first) {
						c08case(r, t, pos, []mk{a}, []mk{b})
					}
				}
			}
		}
	}
	// several rules keep their order, however many there are
	for _, n := range []int{3, 12, 13, 14, 25, 40} {
		var rules []mk
		for i := 0; i < n; i++ {
			i := i
			rules = append(rules, mk{text: fmt.Sprintf("kubebuilder:validation:XValidation:rule=\"self > %d\"", i), app: always(func(s *S) {
				s.XValidations = append(s.XValidations, apiext.ValidationRule{Rule: fmt.Sprintf("self > %d", i)})
			})})
		}
		t := targets()[0]
		c08case(r, t, "field", rules, nil)
		c08case(r, t, "type", rules, nil)
		c08case(r, targets()[8], "field", nil, rules)
		mixed := append(append([]mk{}, rules...), mk{text: "kubebuilder:validation:Maximum=3", app: numeric(3, func(s *S) { s.Maximum = f64(3) })})
		c08case(r, t, "field", mixed, nil)
		for _, m := range ms {
			if m.first || strings.HasPrefix(m.text, "listType") {
				// one that takes effect before the rules, though it is written after them
				late := append(append([]mk{}, rules...), m)
				for _, i := range []int{0, 4, 7} {
					for _, pos := range []string{"field", "type"} {
						c08case(r, targets()[i], pos, late, nil)
					}
				}
			}
		}
	}
	// list map keys in order
	lm := []mk{}
	for _, m := range ms {
		if m.text == "listType=map" || strings.HasPrefix(m.text, "listMapKey") {
			lm = append(lm, m)
		}
	}
	for _, p := range perms(len(lm)) {
		var o []mk
		for _, i := range p {
			o = append(o, lm[i])
		}
		c08case(r, targets()[7], "field", o, nil)
		c08case(r, targets()[7], "type", o, nil)
	}
	_ = world.Errors
}

// conflict: two ways of writing the same keyword whose precedence is not
// documented.
func conflict(a, b mk) bool {
	k := func(m mk) string { return strings.SplitN(m.text, "=", 2)[0] }
	x, y := k(a), k(b)
	return x == "mapType" && y == "structType" || x == "structType" && y == "mapType"
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}
