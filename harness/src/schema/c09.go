package main

import (
	"encoding/json"
	"fmt"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

// The abstract program: a list of declared types.  A type refers only to
// types with a larger index (no cycles), in the same or a later package.
type refForm struct {
	src string // with %s
	// steps to the place the referenced type describes
	steps  string
	inline bool
}

var refForms = []refForm{
	{src: "%s"},
	{src: "*%s"},
	{src: "[]%s", steps: "[]"},
	{src: "map[string]%s", steps: "{}"},
	{src: "[]*%s", steps: "[]"},
	{src: "map[string][]%s", steps: "{}[]"},
	{src: "%s", inline: true},
}

type nfield struct {
	form    int
	target  int
	markers []mk
	doc     string
	opt     bool
}

type ntype struct {
	pkg     int
	kind    string // string, int, struct, slice, map, named, alias
	markers []mk
	doc     string
	target  int // of slice, map, named, alias
	fields  []nfield
}

type prog []ntype

func (p prog) name(i int) string { return fmt.Sprintf("T%d", i) }

var pkgNames = []string{"p", "q", "r"}

func (p prog) ref(from, to int) string {
	if p[from].pkg == p[to].pkg {
		return p.name(to)
	}
	return pkgNames[p[to].pkg] + "." + p.name(to)
}

func comments(indent, doc string, ms []mk) string {
	out := ""
	if doc != "" {
		out += indent + "// " + doc + "\n"
	}
	for _, m := range ms {
		out += indent + "// +" + m.text + "\n"
	}
	return out
}

func (p prog) sources() []string {
	out := make([]string, len(pkgNames))
	used := make([]map[string]bool, len(pkgNames))
	for i := range used {
		used[i] = map[string]bool{}
	}
	for i, t := range p {
		use := func(to int) string {
			if p[to].pkg != t.pkg {
				used[t.pkg][pkgNames[p[to].pkg]] = true
			}
			return p.ref(i, to)
		}
		s := comments("", t.doc, t.markers)
		switch t.kind {
		case "string", "int":
			s += "type " + p.name(i) + " " + t.kind + "\n"
		case "slice":
			s += "type " + p.name(i) + " []" + use(t.target) + "\n"
		case "map":
			s += "type " + p.name(i) + " map[string]" + use(t.target) + "\n"
		case "named":
			s += "type " + p.name(i) + " " + use(t.target) + "\n"
		case "alias":
			s += "type " + p.name(i) + " = " + use(t.target) + "\n"
		case "struct":
			s += "type " + p.name(i) + " struct {\n"
			for k, f := range t.fields {
				s += comments("\t", f.doc, f.markers)
				typ := fmt.Sprintf(refForms[f.form].src, use(f.target))
				if refForms[f.form].inline {
					s += "\t" + typ + " `json:\",inline\"`\n"
					continue
				}
				o := ""
				if f.opt {
					o = ",omitempty"
				}
				s += fmt.Sprintf("\tF%d %s `json:\"f%d%s\"`\n", k, typ, k, o)
			}
			s += fmt.Sprintf("\tOwn%d bool `json:\"own%d\"`\n}\n", i, i)
		}
		out[t.pkg] += s + "\n"
	}
	for i := range out {
		hdr := "package " + pkgNames[i] + "\n\n"
		var im []string
		for u := range used[i] {
			im = append(im, u)
		}
		sort.Strings(im)
		for _, u := range im {
			hdr += "import \"example.com/g/" + u + "\"\n"
		}
		out[i] = hdr + "\n" + out[i]
	}
	return out
}

// meaning is what a schema says: for every place the set of constraints, and
// the documentation.
type meaning struct {
	atoms map[string]map[string]bool
	docs  map[string]string
}

func newMeaning() *meaning {
	return &meaning{atoms: map[string]map[string]bool{}, docs: map[string]string{}}
}

func (m *meaning) add(path string, atoms ...string) {
	if m.atoms[path] == nil {
		m.atoms[path] = map[string]bool{}
	}
	for _, a := range atoms {
		m.atoms[path][a] = true
	}
}

func (m *meaning) String() string {
	var lines []string
	for p, as := range m.atoms {
		var l []string
		for a := range as {
			l = append(l, a)
		}
		sort.Strings(l)
		lines = append(lines, fmt.Sprintf("%s: %s %q", p, strings.Join(l, " "), m.docs[p]))
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// atomsOf reads the constraints of one node, without its children.
func atomsOf(s *S) []string {
	c := s.DeepCopy()
	c.Properties, c.Items, c.AdditionalProperties, c.AllOf, c.Required = nil, nil, nil, nil, nil
	c.Description = ""
	var out []string
	if c.Maximum != nil {
		out = append(out, fmt.Sprintf("max:%v/%v", *c.Maximum, c.ExclusiveMaximum))
		c.Maximum, c.ExclusiveMaximum = nil, false
	}
	if c.Minimum != nil {
		out = append(out, fmt.Sprintf("min:%v/%v", *c.Minimum, c.ExclusiveMinimum))
		c.Minimum, c.ExclusiveMinimum = nil, false
	}
	for _, v := range c.XValidations {
		b, _ := json.Marshal(v)
		out = append(out, "rule:"+string(b))
	}
	c.XValidations = nil
	b, _ := json.Marshal(c)
	var m map[string]json.RawMessage
	_ = json.Unmarshal(b, &m)
	for k, v := range m {
		out = append(out, k+":"+string(v))
	}
	for _, r := range s.Required {
		out = append(out, "required:"+r)
	}
	return out
}

// read gives the meaning of a schema; "" if it has references.
func (m *meaning) read(s *S, path string, branch bool) string {
	if s.Ref != nil {
		return path + ": reference " + *s.Ref
	}
	m.add(path, atomsOf(s)...)
	if !branch {
		m.docs[path] = s.Description
	}
	for i := range s.AllOf {
		if r := m.read(&s.AllOf[i], path, true); r != "" {
			return r
		}
	}
	for k, p := range s.Properties {
		if r := m.read(&p, path+"."+k, branch); r != "" {
			return r
		}
	}
	if s.Items != nil && s.Items.Schema != nil {
		if r := m.read(s.Items.Schema, path+"[]", branch); r != "" {
			return r
		}
	}
	if s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil {
		if r := m.read(s.AdditionalProperties.Schema, path+"{}", branch); r != "" {
			return r
		}
	}
	return ""
}

// build gives the meaning the program has; false: an error is due.
func (p prog) build(m *meaning, i int, path string) bool {
	t := p[i]
	ok := true
	sib := func(base *S, ms []mk, path string) {
		if !applyModel(base, ms, false) {
			ok = false
		}
		m.add(path, atomsOf(base)...)
	}
	doc := func(path, d string) {
		if d != "" {
			m.docs[path] = d
		}
	}
	switch t.kind {
	case "string", "int":
		k := map[string]string{"string": "string", "int": "integer"}[t.kind]
		sib(sch(k, ""), t.markers, path)
		m.docs[path] = ""
		doc(path, t.doc)
	case "slice", "map":
		st := "[]"
		base := arr(&S{})
		if t.kind == "map" {
			st = "{}"
			base = obj(&S{})
		}
		sib(base, t.markers, path)
		doc(path, t.doc)
		ok = p.build(m, t.target, path+st) && ok
	case "named", "alias":
		ok = p.build(m, t.target, path) && ok
		sib(&S{}, t.markers, path)
		doc(path, t.doc)
	case "struct":
		base := &S{Type: "object"}
		var req []string
		for k, f := range t.fields {
			ff := refForms[f.form]
			if ff.inline {
				keep, had := m.docs[path]
				ok = p.build(m, f.target, path) && ok
				// the documentation of embedded structs does not count
				delete(m.docs, path)
				if had {
					m.docs[path] = keep
				}
				continue
			}
			key := fmt.Sprintf("f%d", k)
			fp := path + "." + key
			ok = p.build(m, f.target, fp+ff.steps) && ok
			var fs *S
			switch {
			case ff.steps == "":
				fs = &S{}
			case strings.HasPrefix(ff.steps, "[]"):
				fs = arr(&S{})
			default:
				fs = obj(&S{})
			}
			if ff.steps == "{}[]" {
				m.add(fp+"{}", atomsOf(arr(&S{}))...)
			}
			sib(fs, f.markers, fp)
			doc(fp, f.doc)
			if !f.opt {
				req = append(req, key)
			}
		}
		own := fmt.Sprintf("own%d", i)
		m.add(path+"."+own, "type:\"boolean\"")
		base.Required = append(req, own)
		sib(base, t.markers, path)
		doc(path, t.doc)
	}
	return ok
}

func (m *meaning) types(path string) int {
	n := 0
	for a := range m.atoms[path] {
		if strings.HasPrefix(a, "type:") {
			n++
		}
	}
	return n
}

// load makes the packages of a program.
func (p prog) load() ([]*loader.Package, string) {
	srcs := p.sources()
	pkgs := make([]*loader.Package, len(pkgNames))
	for i := len(pkgNames) - 1; i >= 0; i-- {
		if !strings.Contains(srcs[i], "type ") {
			continue
		}
		pkg, err := w.Pkg("example.com/g/"+pkgNames[i], pkgNames[i], srcs[i])
		if err != nil {
			return nil, "HARNESS: " + err.Error()
		}
		for j := i + 1; j < len(pkgNames); j++ {
			if pkgs[j] != nil && strings.Contains(srcs[i], "/g/"+pkgNames[j]+"\"") {
				world.Link(pkg, pkgs[j])
			}
		}
		w.Importable(pkg)
		pkgs[i] = pkg
	}
	return pkgs, ""
}

func (p prog) text() string {
	out := ""
	for i, s := range p.sources() {
		if strings.Contains(s, "type ") {
			out += fmt.Sprintf("-- %s.go --\n%s", pkgNames[i], s)
		}
	}
	return out
}

// flatten requests the given types in order and gives the flattened results.
func (p prog) flatten(order []int) (map[int]*S, []string, string) {
	pkgs, h := p.load()
	if h != "" {
		return nil, nil, h
	}
	ps := newParser()
	out := map[int]*S{}
	for _, i := range order {
		pkg := pkgs[p[i].pkg]
		ps.NeedPackage(pkg)
		id := crd.TypeIdent{Package: pkg, Name: p.name(i)}
		ps.NeedFlattenedSchemaFor(id)
		s := ps.FlattenedSchemata[id]
		out[i] = &s
	}
	var errs []string
	for _, pkg := range pkgs {
		if pkg != nil {
			errs = append(errs, world.Errors(pkg)...)
		}
	}
	// what was requested first must not have changed since
	for i, s := range out {
		id := crd.TypeIdent{Package: pkgs[p[i].pkg], Name: p.name(i)}
		now := ps.FlattenedSchemata[id]
		if canon(&now, true) != canon(s, true) {
			errs = append(errs, "CHANGED "+p.name(i))
		}
	}
	return out, errs, ""
}

func (p prog) check(r *mc.Run, key string, orders [][]int) {
	r.State(key)
	r.Transition(len(p) + len(orders))
	wants := map[int]*meaning{}
	fine := map[int]bool{}
	all := true
	for _, o := range orders {
		for _, i := range o {
			if wants[i] == nil {
				wants[i] = newMeaning()
				fine[i] = p.build(wants[i], i, "$")
				for path := range wants[i].atoms {
					fine[i] = fine[i] && wants[i].types(path) < 2
				}
				all = all && fine[i]
			}
		}
	}
	r.Case(key, p.text(), all, func() string {
		for _, o := range orders {
			got, errs, h := p.flatten(o)
			if h != "" {
				return h
			}
			expectErr := false
			for _, i := range o {
				expectErr = expectErr || !fine[i]
			}
			if expectErr {
				if len(errs) == 0 {
					return fmt.Sprintf("order %v: constraints that cannot be combined, but no error", o)
				}
				continue
			}
			if len(errs) > 0 {
				return fmt.Sprintf("order %v: errors %v", o, errs)
			}
			for _, i := range o {
				g := newMeaning()
				if m := g.read(got[i], "$", false); m != "" {
					return fmt.Sprintf("order %v: %s is not self-contained: %s", o, p.name(i), m)
				}
				gs, ws := g.String(), wants[i].String()
				r.Outcome(gs)
				if gs != ws {
					return fmt.Sprintf("order %v: %s means\n%s\nexpected\n%s", o, p.name(i), gs, ws)
				}
			}
		}
		return ""
	})
}

func pick(ms []mk, text string) mk {
	for _, m := range ms {
		if m.text == text {
			return m
		}
	}
	panic("no marker " + text)
}

func c09(r *mc.Run) {
	setup(world.Light...)
	ms := schemaMarkers()
	kv := "kubebuilder:validation:"
	get := func(ts ...string) []mk {
		var out []mk
		for _, t := range ts {
			out = append(out, pick(ms, t))
		}
		return out
	}
	strMarkers := [][]mk{nil, get(kv + "MaxLength=7"), get(kv + "Pattern=^[a-z]+$"), get(kv + "Enum=a;b"), get(kv+"Format=date-time", kv+"MinLength=0"), get(kv + `XValidation:rule="self > 1"`)}
	intMarkers := [][]mk{nil, get(kv + "Maximum=3"), get(kv+"Maximum=3", kv+"ExclusiveMaximum=true"), get(kv+"Minimum=-2", kv+"ExclusiveMinimum=true", kv+"MultipleOf=3"), get(kv + "Enum=1;2")}
	objMarkers := [][]mk{nil, get(kv + "MaxProperties=7"), get("structType=atomic"), get("kubebuilder:pruning:PreserveUnknownFields"), get(kv + `XValidation:rule="self > 1"`)}
	arrMarkers := [][]mk{nil, get(kv + "MaxItems=7"), get("listType=map", "listMapKey=name")}
	sib := [][]mk{nil, get("nullable"), get("kubebuilder:default:=abc"), get("kubebuilder:example:=5"), get(`kubebuilder:title="A title"`),
		get(kv + `XValidation:rule="self.a == 'b'",message="must, be",reason=FieldValueForbidden,fieldPath=".x"`),
		get(kv + "Enum=1;2"), get(kv + `Format="int64"`), get(kv + "MaxLength=7"), get(kv + "Maximum=0"),
		get(kv+"Type=string", kv+"MaxLength=0"), get(kv+"Type=string", kv+`Pattern="^a\\.b$"`), get(kv+"Type=integer", kv+"Maximum=0", kv+"ExclusiveMaximum=true"), get(kv+"Type=integer", kv+"Minimum=0"),
		get("structType=atomic"), get("mapType=atomic"), get(kv+"Type=array", kv+"MinItems=0"), get("listType=atomic"), get(kv + "MinItems=0"), get(kv + "MaxProperties=0"), get(kv + "EmbeddedResource")}
	if !r.Thorough {
		sib = append(sib[:10:10], sib[10:]...)
	}
	kinds := []struct {
		kind string
		ms   [][]mk
	}{{"string", strMarkers}, {"int", intMarkers}, {"struct", objMarkers}}

	// one reference, everything next to it
	docs := [][2]string{{"", ""}, {"", "doc of the type"}, {"doc of the field", ""}, {"doc of the field", "doc of the type"}}
	for fi, ff := range refForms {
		for _, k := range kinds {
			if ff.inline && k.kind != "struct" {
				continue
			}
			for ti, tm := range k.ms {
				for si, sm := range sib {
					if ff.inline && si > 0 {
						continue
					}
					for di, d := range docs {
						if di > 0 && di < 3 && !r.Thorough && (ti+si)%3 != 0 {
							continue
						}
						for pkg := 0; pkg < 2; pkg++ {
							if !r.Mine() {
								continue
							}
							p := prog{
								{kind: "struct", doc: "doc of the root", fields: []nfield{{form: fi, target: 1, markers: sm, doc: d[0]}}},
								{pkg: pkg, kind: k.kind, markers: tm, doc: d[1]},
							}
							p.check(r, fmt.Sprintf("one:%d:%s:%d:%d:%d:%d", fi, k.kind, ti, si, di, pkg), [][]int{{0}, {1, 0}, {0, 1}})
						}
						if r.Expired() {
							return
						}
					}
				}
			}
		}
	}
	// chains through declared types
	links := []string{"named", "alias", "slice", "map", "struct"}
	for _, l1 := range links {
		for _, l2 := range links {
			for _, k := range kinds {
				for ti, tm := range k.ms {
					for pk := 0; pk < 4; pk++ {
						for m2 := 0; m2 < 3; m2++ {
							for si, sm := range sib {
								if si > 5 && !r.Thorough && (pk != 1 || m2 == 2) {
									continue
								}
								if !r.Mine() {
									continue
								}
								if r.Expired() {
									return
								}
								link := func(l string, to int, pkg int, d string, extra int) ntype {
									t := ntype{pkg: pkg, kind: l, target: to, doc: d}
									if l == "struct" {
										t.fields = []nfield{{form: 0, target: to, opt: true}}
									}
									switch {
									case extra == 1:
										t.markers = get(kv+`XValidation:rule="self > 1"`, kv+"Enum=1;2")
									case extra == 2 && l == "slice":
										t.markers = arrMarkers[2]
									case extra == 2 && l == "struct":
										t.markers = get("structType=atomic")
									}
									return t
								}
								p := prog{
									{kind: "struct", fields: []nfield{{form: 0, target: 1, markers: sm}}},
									link(l1, 2, pk&1, "", m2),
									link(l2, 3, pk&1+pk>>1, "doc of T2", (m2+1)%3),
									{pkg: pk&1 + pk>>1, kind: k.kind, markers: tm, doc: "doc of T3"},
								}
								p.check(r, fmt.Sprintf("chain:%s:%s:%s:%d:%d:%d:%d", l1, l2, k.kind, ti, pk, m2, si), [][]int{{0}})
							}
						}
					}
				}
			}
		}
	}
	// sharing: several places refer to the same types, in every request order
	for a := range refForms {
		for b := range refForms {
			if refForms[a].inline && refForms[b].inline {
				continue
			}
			for si, sm := range [][]mk{sib[0], sib[1], sib[5], sib[14]} {
				for sj, sn := range [][]mk{sib[0], sib[2], sib[6]} {
					for pkg := 0; pkg < 3; pkg++ {
						if !r.Mine() {
							continue
						}
						if r.Expired() {
							return
						}
						fa := nfield{form: a, target: 2, markers: sm, doc: "doc of a"}
						fb := nfield{form: b, target: 2, markers: sn}
						fc := nfield{form: 0, target: 1, markers: sn, doc: "doc of c"}
						if refForms[a].inline {
							fa.markers = nil
						}
						if refForms[b].inline {
							fb.markers = nil
						}
						p := prog{
							{kind: "struct", fields: []nfield{fa, fb, fc}},
							{kind: "struct", pkg: pkg / 2, fields: []nfield{{form: a, target: 2, opt: true}, {form: 2, target: 3, markers: arrMarkers[1]}}, doc: "doc of T1"},
							{kind: "struct", pkg: (pkg + 1) / 2, fields: []nfield{{form: 3, target: 3, markers: get(kv + "MaxProperties=7")}}, markers: get(kv + `XValidation:rule="self > 1"`)},
							{kind: "string", pkg: (pkg + 1) / 2, markers: strMarkers[1], doc: "doc of T3"},
						}
						if refForms[a].inline {
							p[1].fields[0].markers = nil
						}
						if refForms[a].inline || refForms[b].inline {
							// the embedded T2 has a property f0 as well
							p[2].fields = nil
						}
						orders := perms(4)
						if !r.Thorough {
							orders = [][]int{{0}, {0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2}, {1, 0, 1, 0}}
						}
						p.check(r, fmt.Sprintf("share:%d:%d:%d:%d:%d", a, b, si, sj, pkg), orders)
					}
				}
			}
		}
	}
	c09cycles(r)
}

// c09cycles: types that contain themselves.
func c09cycles(r *mc.Run) {
	c09unresolved(r)
	c09docs(r)
	c09places(r)
	forms := []string{"[]%s", "map[string]%s", "*%s", "[]*%s", "map[string][]%s"}
	for n := 1; n <= 3; n++ {
		for _, f := range forms {
			for _, g := range forms {
				for start := 0; start < n; start++ {
					for mode := 0; mode < 2; mode++ {
						if !r.Mine() {
							continue
						}
						key := fmt.Sprintf("cycle:%d:%s:%s:%d:%d", n, f, g, start, mode)
						var sb strings.Builder
						sb.WriteString("package p\n\n")
						for i := 0; i < n; i++ {
							next := fmt.Sprintf("C%d", (i+1)%n)
							fmt.Fprintf(&sb, "type C%d struct {\n\tA %s `json:\"a,omitempty\"`\n", i, fmt.Sprintf(f, next))
							if mode == 1 {
								fmt.Fprintf(&sb, "\tB %s `json:\"b,omitempty\"`\n", fmt.Sprintf(g, "C0"))
							}
							sb.WriteString("}\n")
						}
						src := sb.String()
						r.State(key)
						r.Transition(n)
						r.Case(key, src, true, func() string {
							pkg, err := w.Pkg("example.com/c/p", "p", src)
							if err != nil {
								return "HARNESS: " + err.Error()
							}
							// ending at all, with a result without references or
							// an error, is what is asked for here
							got, errs := schemaOf(newParser(), pkg, fmt.Sprintf("C%d", start))
							if len(errs) > 0 {
								return ""
							}
							m := newMeaning()
							if s := m.read(got, "$", false); s != "" {
								return "not self-contained: " + s
							}
							return ""
						})
					}
				}
			}
		}
	}
	// the schema of a recursive type cannot be finite: it must be reported
	if r.Mine() {
		key := "recursive type"
		src := "package p\n\ntype C struct {\n\tA []C `json:\"a,omitempty\"`\n}\n"
		r.State(key)
		r.Case(key, src, true, func() string {
			pkg, err := w.Pkg("example.com/c/p", "p", src)
			if err != nil {
				return "HARNESS: " + err.Error()
			}
			got, errs := schemaOf(newParser(), pkg, "C")
			if len(errs) == 0 {
				return "a recursive type is cut off without an error: " + canon(got, false)
			}
			return ""
		})
	}
}

// c09unresolved: types and references that cannot be resolved are reported.
func c09unresolved(r *mc.Run) {
	const other = "example.com/u/other"
	srcs := []string{
		"package p\n\ntype C struct {\n\tA string `json:\"a\"`\n}\n",
		"package p\n\nimport \"" + other + "\"\n\ntype C struct {\n\tA other.T `json:\"a\"`\n}\n",
		// no type of a package with broken markers is known
		"package p\n\n// +kubebuilder:validation:Maximum=x\ntype N int\n\ntype C struct {\n\tA N `json:\"a\"`\n}\n",
	}
	refs := []string{
		"", // the type itself does not exist
		"#/definitions/Missing",
		"#/definitions/example.com~1u~1other~0Missing",
		"#/definitions/example.com~1u~1nowhere~0T",
		"#/definitions/example.com~1u~1other",
		"#/definitions/",
		"http://example.com/schema.json",
		"Missing",
	}
	for si, src := range srcs {
		for _, ref := range refs {
			for place := 0; place < 4; place++ {
				if !r.Mine() || ref == "" && place > 0 {
					continue
				}
				key := fmt.Sprintf("unresolved %d %q %d", si, ref, place)
				r.State(key)
				r.Transition(1)
				r.Case(key, src, true, func() string {
					op, err := w.Pkg(other, "other", "package other\n\ntype T struct {\n\tX int `json:\"x\"`\n}\n")
					if err != nil {
						return "HARNESS: " + err.Error()
					}
					w.Importable(op)
					defer w.Forget(other)
					pkg, err := w.Pkg("example.com/u/p", "p", src)
					if err != nil {
						return "HARNESS: " + err.Error()
					}
					world.Link(pkg, op)
					p := newParser()
					if ref == "" {
						_, errs := schemaOf(p, pkg, "Missing")
						if len(errs) == 0 {
							return "a type that does not exist is flattened without an error"
						}
						return ""
					}
					p.NeedPackage(pkg)
					s := S{Ref: &ref}
					switch place {
					case 1:
						s = *strct(nil, map[string]*S{"a": {Ref: &ref, Description: "d"}, "b": sch("string", "")})
					case 2:
						s = *arr(&S{Ref: &ref})
					case 3:
						s = S{Type: "object", AllOf: []S{{Ref: &ref}, *sch("object", "")}}
					}
					p.Schemata[crd.TypeIdent{Package: pkg, Name: "X"}] = s
					_, errs := schemaOf(p, pkg, "X")
					for _, imp := range pkg.Imports() {
						errs = append(errs, world.Errors(imp)...)
					}
					if len(errs) == 0 {
						return "a reference to " + ref + " is flattened without an error"
					}
					return ""
				})
			}
		}
	}
}

// c09docs: the documentation next to references wins, that of the referenced
// schema is kept where there is none.
func c09docs(r *mc.Run) {
	parts := func(mask int, by string) S {
		var s S
		if mask&1 != 0 {
			s.Title = "title " + by
		}
		if mask&2 != 0 {
			s.Description = "description " + by
		}
		if mask&4 != 0 {
			s.Example = &apiext.JSON{Raw: []byte(`"` + by + `"`)}
		}
		if mask&8 != 0 {
			s.ExternalDocs = &apiext.ExternalDocumentation{URL: by}
		}
		return s
	}
	seen := func(s *S) string {
		b, _ := json.Marshal(S{Title: s.Title, Description: s.Description, Example: s.Example, ExternalDocs: s.ExternalDocs})
		return string(b)
	}
	merge := func(first, then S) S {
		if first.Title == "" {
			first.Title = then.Title
		}
		if first.Description == "" {
			first.Description = then.Description
		}
		if first.Example == nil {
			first.Example = then.Example
		}
		if first.ExternalDocs == nil {
			first.ExternalDocs = then.ExternalDocs
		}
		return first
	}
	for place := 0; place < 4; place++ {
		for a := 0; a < 16; a++ {
			for b := 0; b < 16; b++ {
				for c := 0; c < 16; c++ {
					if !r.Thorough && c != 0 && c != 5 && c != 10 && c != 15 {
						continue
					}
					if !r.Mine() || r.Expired() {
						continue
					}
					key := fmt.Sprintf("docs %d %d %d %d", place, a, b, c)
					r.State(key)
					r.Transition(3)
					r.Case(key, key, a|b|c != 0, func() string {
						pkg, err := w.Pkg("example.com/u/p", "p", "package p\n")
						if err != nil {
							return "HARNESS: " + err.Error()
						}
						p := newParser()
						p.NeedPackage(pkg)
						ref := func(to string, mask int) S {
							s := parts(mask, "at the reference to "+to)
							l := "#/definitions/" + to
							s.Ref = &l
							return s
						}
						put := func(n string, s S) { p.Schemata[crd.TypeIdent{Package: pkg, Name: n}] = s }
						last := parts(c, "of C")
						last.Type = "string"
						put("C", last)
						put("B", ref("C", b))
						top := ref("B", a)
						at := func(s *S) *S { return s }
						switch place {
						case 1:
							put("A", *strct(nil, map[string]*S{"a": &top}))
							at = func(s *S) *S { x := s.Properties["a"]; return &x }
						case 2:
							put("A", *arr(&top))
							at = func(s *S) *S { return s.Items.Schema }
						case 3:
							put("A", *obj(&top))
							at = func(s *S) *S { return s.AdditionalProperties.Schema }
						default:
							put("A", top)
						}
						got, errs := schemaOf(p, pkg, "A")
						if len(errs) > 0 {
							return "errors: " + strings.Join(errs, "; ")
						}
						x := at(got)
						want := merge(parts(a, "at the reference to B"), merge(parts(b, "at the reference to C"), parts(c, "of C")))
						r.Outcome(seen(x))
						if seen(x) != seen(&want) {
							return fmt.Sprintf("documentation %s instead of %s", seen(x), seen(&want))
						}
						if x.Type != "string" {
							return "type " + x.Type
						}
						return ""
					})
				}
			}
		}
	}
}
