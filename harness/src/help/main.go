// C23: the help output lists every marker and argument.
//
// Registries are enumerated together with what they must be described as; the
// description is written down here independently of the definitions.  The
// registries of the real generators are described from their definitions.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/fatih/color"

	"sigs.k8s.io/controller-tools/pkg/genall/help"
	prettyhelp "sigs.k8s.io/controller-tools/pkg/genall/help/pretty"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/rt"
)

// ---- what a registry has to be described as --------------------------------

// argDoc is an argument; typ is written as in the text form.
type argDoc struct {
	name, typ        string
	optional         bool
	summary, details string
}

type markerDoc struct {
	name, target, category string
	summary, details       string
	deprecated             *string
	args                   []argDoc
}

func (d markerDoc) key() string { return d.target + " " + d.name }

// shape is a type of an argument.
type shape struct {
	typ  string // as documented
	rt   reflect.Type
	opt  bool // optional without saying so
	raw  bool
	elem bool // may be an element
}

type namedString string
type namedInt int32
type namedList []string

func shapes(depth int) []shape {
	out := []shape{
		{typ: "int", rt: reflect.TypeOf(0), elem: true},
		{typ: "int", rt: reflect.TypeOf(int32(0)), elem: true},
		{typ: "number", rt: reflect.TypeOf(0.0), elem: true},
		{typ: "string", rt: reflect.TypeOf(""), elem: true},
		{typ: "bool", rt: reflect.TypeOf(false), elem: true},
		{typ: "any", rt: reflect.TypeOf((*interface{})(nil)).Elem(), elem: true},
		{typ: "string", rt: reflect.TypeOf(namedString("")), elem: true},
		{typ: "int", rt: reflect.TypeOf(namedInt(0)), elem: true},
		{typ: "[]string", rt: reflect.TypeOf(namedList(nil)), elem: true},
	}
	level := out
	for i := 0; i < depth; i++ {
		var next []shape
		for _, s := range level {
			next = append(next, shape{typ: "[]" + s.typ, rt: reflect.SliceOf(s.rt), elem: true},
				shape{typ: "map[string]" + s.typ, rt: reflect.MapOf(reflect.TypeOf(""), s.rt), elem: true})
		}
		out = append(out, next...)
		level = next
	}
	for _, s := range out {
		if s.rt.Kind() != reflect.Interface {
			out = append(out, shape{typ: s.typ, rt: reflect.PointerTo(s.rt), opt: true})
		}
	}
	return append(out, shape{typ: "raw", rt: reflect.TypeOf(markers.RawArguments(nil)), raw: true})
}

// ---- reading the help ------------------------------------------------------

// flat is what the documentation says, in the order it says it.
func flat(docs []help.CategoryDoc) ([]string, map[string][]markerDoc, string) {
	var order []string
	got := map[string][]markerDoc{}
	for _, c := range docs {
		for _, o := range order {
			if o == c.Category {
				return nil, nil, fmt.Sprintf("group %q twice", c.Category)
			}
		}
		order = append(order, c.Category)
		for _, m := range c.Markers {
			d := markerDoc{name: m.Name, target: m.Target, category: m.Category, summary: m.Summary, details: m.Details, deprecated: m.DeprecatedInFavorOf}
			for _, f := range m.Fields {
				d.args = append(d.args, argDoc{name: f.Name, typ: typeText(f.Argument), optional: f.Optional, summary: f.Summary, details: f.Details})
			}
			got[c.Category] = append(got[c.Category], d)
		}
	}
	return order, got, ""
}

// typeText writes the type of the data, from the data.
func typeText(a help.Argument) string {
	switch a.Type {
	case "slice", "map":
		if a.ItemType == nil {
			return a.Type + " of nothing"
		}
		if a.Type == "map" {
			return "map[string]" + typeText(*a.ItemType)
		}
		return "[]" + typeText(*a.ItemType)
	}
	if a.ItemType != nil {
		return a.Type + " of " + typeText(*a.ItemType)
	}
	return a.Type
}

func str(p *string) string {
	if p == nil {
		return "no"
	}
	return fmt.Sprintf("%q", *p)
}

// compare compares descriptions; the order of arguments is not compared here.
func compare(got, want markerDoc) string {
	if got.name != want.name || got.target != want.target {
		return fmt.Sprintf("%s %s instead of %s %s", got.target, got.name, want.target, want.name)
	}
	at := want.target + " marker " + want.name + ": "
	switch {
	case got.category != want.category:
		return fmt.Sprintf("%scategory %q instead of %q", at, got.category, want.category)
	case got.summary != want.summary || got.details != want.details:
		return fmt.Sprintf("%sdocumented as %q, %q instead of %q, %q", at, got.summary, got.details, want.summary, want.details)
	case str(got.deprecated) != str(want.deprecated):
		return fmt.Sprintf("%sdeprecated in favor of %s instead of %s", at, str(got.deprecated), str(want.deprecated))
	case len(got.args) != len(want.args):
		return fmt.Sprintf("%s%d arguments instead of %d", at, len(got.args), len(want.args))
	}
	have := map[string]argDoc{}
	for _, a := range got.args {
		have[a.name] = a
	}
	for _, a := range want.args {
		g, ok := have[a.name]
		switch {
		case !ok:
			return fmt.Sprintf("%sargument %q missing", at, a.name)
		case g.typ != a.typ:
			return fmt.Sprintf("%sargument %q has type %q instead of %q", at, a.name, g.typ, a.typ)
		case g != a:
			return fmt.Sprintf("%sargument %q is %+v instead of %+v", at, a.name, g, a)
		}
	}
	return ""
}

var escapes = regexp.MustCompile("\x1b\\[[0-9;]*m")

// words splits at white space and around the name of a marker, because only
// the layout may differ.
func words(s string) []string { return strings.Fields(s) }

func syntax(a argDoc) string {
	s := a.name + "=<" + a.typ + ">"
	if a.optional {
		return "[" + s + "]"
	}
	return s
}

func text(level int, docs []help.CategoryDoc) (string, string) {
	var buf bytes.Buffer
	for _, c := range docs {
		if c.Category == "" {
			continue
		}
		var s prettyhelp.Span
		if level == 1 {
			s = prettyhelp.MarkersSummary(c.Category, c.Markers)
		} else {
			s = prettyhelp.MarkersDetails(level == 3, c.Category, c.Markers)
		}
		if err := s.WriteTo(&buf); err != nil {
			return "", err.Error()
		}
	}
	return buf.String(), ""
}

// expectText is the text that a description has to be shown as, up to layout.
func expectText(level int, order []string, docs map[string][]markerDoc) []string {
	var out []string
	add := func(s string) { out = append(out, words(s)...) }
	for _, c := range order {
		if c == "" {
			continue
		}
		add(c)
		for _, m := range docs[c] {
			anon := len(m.args) == 1 && m.args[0].name == ""
			use := ""
			if m.deprecated != nil && *m.deprecated != "" {
				use = "(use " + *m.deprecated + ") "
			}
			switch {
			case level == 1:
				s := "+" + m.name
				sep := ":"
				if anon {
					sep = ""
				}
				for _, a := range m.args {
					x := sep + a.name + "=<" + a.typ + ">"
					if a.optional {
						x = "[" + x + "]"
					}
					s += x
					sep = ","
				}
				add(s + " " + m.target + " " + use + m.summary)
			default:
				add("+" + m.name + " " + m.target)
				if anon {
					add(syntax(m.args[0]))
				}
				add(use + m.summary)
				if level == 3 {
					add(m.details)
				}
				if anon {
					continue
				}
				for _, a := range m.args {
					add(syntax(a))
					add(a.summary)
					if level == 3 {
						add(a.details)
					}
				}
			}
		}
	}
	return out
}

func sameWords(got string, want []string) string {
	g := words(escapes.ReplaceAllString(got, ""))
	for i := 0; i < len(g) || i < len(want); i++ {
		x, y := "the end", "the end"
		if i < len(g) {
			x = g[i]
		}
		if i < len(want) {
			y = want[i]
		}
		if x != y {
			from := i - 4
			if from < 0 {
				from = 0
			}
			return fmt.Sprintf("%q instead of %q after %q", x, y, strings.Join(want[from:i], " "))
		}
	}
	return ""
}

// describe checks everything about one registry.  group says which group a
// marker belongs to, and byName whether the groups are sorted by name.
func describe(reg *markers.Registry, sorter help.SortGroup, want []markerDoc, group func(markerDoc) string, byName bool, texts bool) (string, []help.CategoryDoc) {
	docs := help.ByCategory(reg, sorter)
	order, got, msg := flat(docs)
	if msg != "" {
		return msg, docs
	}
	total := 0
	for _, c := range order {
		total += len(got[c])
	}
	for _, w := range want {
		n := 0
		for _, c := range order {
			for _, g := range got[c] {
				if g.key() != w.key() {
					continue
				}
				n++
				if c != group(w) {
					return fmt.Sprintf("%s marker %s is in group %q instead of %q", w.target, w.name, c, group(w)), docs
				}
				if msg := compare(g, w); msg != "" {
					return msg, docs
				}
			}
		}
		if n != 1 {
			return fmt.Sprintf("%s marker %s is listed %d times", w.target, w.name, n), docs
		}
	}
	if total != len(want) {
		return fmt.Sprintf("%d markers instead of %d", total, len(want)), docs
	}
	for _, c := range order {
		if len(got[c]) == 0 {
			return fmt.Sprintf("empty group %q", c), docs
		}
		for i, g := range got[c] {
			if byName && i > 0 && got[c][i-1].name > g.name {
				return fmt.Sprintf("%s comes after %s", g.name, got[c][i-1].name), docs
			}
		}
	}
	// the JSON form
	data, err := json.Marshal(docs)
	if err != nil {
		return "JSON: " + err.Error(), docs
	}
	var back []help.CategoryDoc
	if err := json.Unmarshal(data, &back); err != nil {
		return "JSON: " + err.Error(), docs
	}
	if again, _ := json.Marshal(back); !bytes.Equal(again, data) {
		return "the JSON form does not survive reading it", docs
	}
	border, bgot, msg := flat(back)
	if msg != "" {
		return "JSON: " + msg, docs
	}
	if strings.Join(border, "\n") != strings.Join(order, "\n") {
		return "JSON: other groups", docs
	}
	for _, c := range order {
		for i := range got[c] {
			if msg := compare(bgot[c][i], got[c][i]); msg != "" {
				return "JSON: " + msg, docs
			}
		}
	}
	if !texts {
		return "", docs
	}
	for level := 1; level <= 3; level++ {
		for _, colors := range []bool{false, true} {
			color.NoColor = !colors
			t, msg := text(level, docs)
			color.NoColor = true
			if msg == "" {
				msg = sameWords(t, expectText(level, order, got))
			}
			if msg != "" {
				return fmt.Sprintf("text %d: %s", level, msg), docs
			}
			if !colors && strings.Contains(t, "\x1b") {
				return "colors that are switched off", docs
			}
		}
	}
	return "", docs
}

func byCategory(d markerDoc) string { return d.category }

// ---- parts -----------------------------------------------------------------

var helps = []struct {
	name string
	h    *markers.DefinitionHelp // without fields
}{
	{"none", nil},
	{"plain", &markers.DefinitionHelp{Category: "Some things", DetailedHelp: markers.DetailedHelp{Summary: "does some things.", Details: "It does\nmany of them.\n\n\tand 100% <more>"}}},
	{"summary only", &markers.DefinitionHelp{Category: "A", DetailedHelp: markers.DetailedHelp{Summary: "s %d \"q\""}}},
	{"uncategorized", &markers.DefinitionHelp{DetailedHelp: markers.DetailedHelp{Summary: "x"}}},
	{"deprecated", markers.DeprecatedHelp("other:marker", "A", "is old")},
	{"just deprecated", markers.DeprecatedHelp("", "A", "is old")},
	{"simple", markers.SimpleHelp("Ä b", "é ü")},
	{"details only", &markers.DefinitionHelp{Category: "A", DetailedHelp: markers.DetailedHelp{Details: "only details"}}},
}

var fieldHelps = []markers.DetailedHelp{{}, {Summary: "field summary"}, {Summary: "two\nlines", Details: "more\n\nof it"}, {Details: "d"}}

var targets = []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField}
var targetName = map[markers.TargetType]string{markers.DescribesPackage: "package", markers.DescribesType: "type", markers.DescribesField: "field"}

func withHelp(h *markers.DefinitionHelp, fields map[string]markers.DetailedHelp) *markers.DefinitionHelp {
	if h == nil {
		return nil
	}
	c := *h
	if fields != nil {
		c.FieldHelp = fields
	}
	return &c
}

func docOf(name string, t markers.TargetType, h *markers.DefinitionHelp) markerDoc {
	d := markerDoc{name: name, target: targetName[t]}
	if h != nil {
		d.category, d.summary, d.details, d.deprecated = h.Category, h.Summary, h.Details, h.DeprecatedInFavorOf
	}
	return d
}

func check(reg *markers.Registry, want []markerDoc) string {
	msg, _ := describe(reg, help.SortByCategory, want, byCategory, true, true)
	return msg
}

// arguments: every type of argument in every place.
func arguments(r *mc.Run) {
	depth := 2
	if r.Thorough {
		depth = 3
	}
	all := shapes(depth)
	one := func(key string, def *markers.Definition, err error, h *markers.DefinitionHelp, want markerDoc) {
		r.State(key)
		r.Case("arg "+key, key, true, func() string {
			if err != nil {
				return "no definition: " + err.Error()
			}
			reg := &markers.Registry{}
			if err := reg.Register(def); err != nil {
				return err.Error()
			}
			if h != nil {
				reg.AddHelp(def, h)
			}
			r.Transition(1)
			return check(reg, []markerDoc{want})
		})
	}
	for _, s := range all {
		for ti, t := range targets {
			for _, h := range helps {
				if ti != 0 && h.name != "plain" {
					continue
				}
				if r.Mine() {
					var out interface{} = struct{ Value interface{} }{} // an interface needs a type
					if s.rt.Kind() != reflect.Interface {
						out = reflect.New(s.rt).Elem().Interface()
					}
					def, err := markers.MakeDefinition("a:b", t, out)
					w := docOf("a:b", t, h.h)
					a := argDoc{typ: s.typ, optional: s.opt}
					if s.rt.Kind() == reflect.Interface {
						a.name = "value"
					}
					w.args = []argDoc{a}
					one(fmt.Sprintf("%s %s, %s help, alone", targetName[t], s.rt, h.name), def, err, withHelp(h.h, nil), w)
				}
				if s.raw {
					continue
				}
				// in a struct
				for _, tag := range []string{"", `marker:",optional"`, `marker:"other"`, `marker:"other,optional"`, `marker:""`, `json:"x"`} {
					for fi, fh := range fieldHelps {
						if !r.Mine() {
							continue
						}
						st := reflect.StructOf([]reflect.StructField{{Name: "ShortName", Type: s.rt, Tag: reflect.StructTag(tag)}})
						def, err := markers.MakeDefinition("a:b", t, reflect.New(st).Elem().Interface())
						w := docOf("a:b", t, h.h)
						a := argDoc{name: "shortName", typ: s.typ, optional: s.opt || strings.Contains(tag, "optional")}
						if strings.Contains(tag, "other") {
							a.name = "other"
						}
						if h.h != nil {
							a.summary, a.details = fh.Summary, fh.Details
						}
						w.args = []argDoc{a}
						one(fmt.Sprintf("%s struct of %s `%s`, %s help, field help %d", targetName[t], s.rt, tag, h.name, fi), def, err, withHelp(h.h, map[string]markers.DetailedHelp{"ShortName": fh}), w)
					}
				}
			}
		}
	}
	// several fields, and definitions of any type
	fields := []struct {
		f reflect.StructField
		a argDoc
	}{
		{reflect.StructField{Name: "B", Type: reflect.TypeOf("")}, argDoc{name: "b", typ: "string"}},
		{reflect.StructField{Name: "A", Type: reflect.TypeOf(0), Tag: `marker:",optional"`}, argDoc{name: "a", typ: "int", optional: true}},
		{reflect.StructField{Name: "URL", Type: reflect.TypeOf(new(string)), Tag: `marker:"url"`}, argDoc{name: "url", typ: "string", optional: true}},
		{reflect.StructField{Name: "C", Type: reflect.TypeOf([]bool{}), Tag: `marker:"JSONPath"`}, argDoc{name: "JSONPath", typ: "[]bool"}},
		{reflect.StructField{Name: "hidden", PkgPath: "p", Type: reflect.TypeOf("")}, argDoc{}},
		{reflect.StructField{Name: "D", Type: reflect.TypeOf(map[string]float64{})}, argDoc{name: "d", typ: "map[string]number"}},
	}
	max := 3
	if r.Thorough {
		max = 5
	}
	var pick func(chosen []int)
	pick = func(chosen []int) {
		if r.Mine() {
			var fs []reflect.StructField
			fh := map[string]markers.DetailedHelp{}
			w := docOf("m", markers.DescribesType, helps[1].h)
			key := "fields"
			for n, i := range chosen {
				fs = append(fs, fields[i].f)
				d := markers.DetailedHelp{Summary: "summary of " + fields[i].f.Name, Details: "details of " + fields[i].f.Name}
				if n == 1 { // no documentation of the second one
					d = markers.DetailedHelp{}
				} else {
					fh[fields[i].f.Name] = d
				}
				a := fields[i].a
				if a.name != "" {
					a.summary, a.details = d.Summary, d.Details
					w.args = append(w.args, a)
				}
				key += " " + fields[i].f.Name
			}
			def, err := markers.MakeDefinition("m", markers.DescribesType, reflect.New(reflect.StructOf(fs)).Elem().Interface())
			one(key, def, err, withHelp(helps[1].h, fh), w)
		}
		if len(chosen) == max {
			return
		}
	next:
		for i := range fields {
			for _, c := range chosen {
				if c == i {
					continue next
				}
			}
			pick(append(append([]int{}, chosen...), i))
		}
	}
	pick(nil)
	for _, t := range targets {
		for _, h := range helps {
			if !r.Mine() {
				continue
			}
			def, err := markers.MakeAnyTypeDefinition("any:one", t, struct{ Value interface{} }{})
			w := docOf("any:one", t, h.h)
			a := argDoc{typ: "any"}
			if h.h != nil {
				a.summary = "the value"
			}
			w.args = []argDoc{a}
			one(fmt.Sprintf("any type, %s, %s help", targetName[t], h.name), def, err, withHelp(h.h, map[string]markers.DetailedHelp{"Value": {Summary: "the value"}}), w)
		}
	}
}

// entry is a definition for the registries below.
type entry struct {
	name   string
	target markers.TargetType
	help   *markers.DefinitionHelp
	out    any
	args   []argDoc
}

func (e entry) String() string {
	c := "-"
	if e.help != nil {
		c = fmt.Sprintf("%q", e.help.Category)
	}
	return targetName[e.target] + " " + e.name + " " + c
}

func build(list []entry) (*markers.Registry, []markerDoc) {
	reg := &markers.Registry{}
	docs := map[string]markerDoc{}
	for _, e := range list {
		def := markers.Must(markers.MakeDefinition(e.name, e.target, e.out))
		if err := reg.Register(def); err != nil {
			panic(err)
		}
		if e.help != nil {
			reg.AddHelp(def, e.help)
		}
		d := docOf(e.name, e.target, e.help)
		d.args = e.args
		docs[d.key()] = d // the last one counts
	}
	var want []markerDoc
	for _, d := range docs {
		want = append(want, d)
	}
	sort.Slice(want, func(i, j int) bool { return want[i].key() < want[j].key() })
	return reg, want
}

func keyOf(docs []markerDoc) string {
	return fmt.Sprintf("%+v", func() (out []string) {
		for _, d := range docs {
			out = append(out, d.key()+"/"+d.category+"/"+d.summary)
		}
		return
	}())
}

// registries: every sequence of definitions, in every order of the maps.
func registries(r *mc.Run) {
	type two struct {
		Y string
		X int `marker:",optional"`
	}
	twoArgs := []argDoc{{name: "y", typ: "string"}, {name: "x", typ: "int", optional: true}}
	hA, hB := markers.SimpleHelp("A", "in A"), markers.SimpleHelp("B", "in B")
	pool := []entry{
		{"m", markers.DescribesPackage, hA, struct{}{}, nil},
		{"m", markers.DescribesType, hA, "", []argDoc{{typ: "string"}}},
		{"m", markers.DescribesField, hA, two{}, twoArgs},
		{"m:n", markers.DescribesType, hA, struct{}{}, nil},
		{"m", markers.DescribesField, hB, struct{}{}, nil}, // another definition of the same
		{"n", markers.DescribesType, hB, struct{}{}, nil},
		{"n", markers.DescribesPackage, nil, struct{}{}, nil},
		{"m:n", markers.DescribesField, markers.SimpleHelp("", "nowhere"), 0, []argDoc{{typ: "int"}}},
		{"l", markers.DescribesField, markers.DeprecatedHelp("m", "A", "in A"), two{}, twoArgs},
		{"M", markers.DescribesType, hA, struct{}{}, nil},
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	first := map[string]string{}
	one := func(list []entry) {
		var names []string
		for _, e := range list {
			names = append(names, e.String())
		}
		key := strings.Join(names, ", ")
		r.Case("registry "+key, key, len(list) > 1, func() (msg string) {
			res := rt.Explore(2, 3000, func(c *rt.Choices) bool {
				reg, want := build(list)
				var docs []help.CategoryDoc
				msg, docs = describe(reg, help.SortByCategory, want, byCategory, true, len(c.Prefix) == 0)
				if msg == "" {
					data, _ := json.Marshal(docs)
					k := keyOf(want)
					if first[k] == "" {
						first[k] = string(data)
					} else if first[k] != string(data) {
						msg = fmt.Sprintf("another order: %s instead of %s", data, first[k])
					}
				}
				return msg == ""
			})
			r.Transition(res.Executions)
			r.Count("map orders", res.Executions)
			if msg == "" && !res.Complete {
				r.Incomplete("map orders of a registry")
			}
			return msg
		})
	}
	// all orders of a set belong to one shard
	var sets func(from int, chosen []entry)
	sets = func(from int, chosen []entry) {
		if r.Mine() {
			permute(chosen, one)
		}
		if len(chosen) == max {
			return
		}
		for i := from; i < len(pool); i++ {
			sets(i+1, append(append([]entry{}, chosen...), pool[i]))
		}
	}
	sets(0, nil)
	// many at once, where sorting may treat equal ones differently
	for _, n := range []int{12, 13, 20, 50} {
		if !r.Mine() {
			continue
		}
		var list []entry
		for i := 0; i < n; i++ {
			list = append(list, entry{fmt.Sprintf("k%02d", i/3), targets[i%3], hA, struct{}{}, nil})
		}
		one2 := func(l []entry, what string) {
			r.Case(fmt.Sprintf("many %d %s", n, what), fmt.Sprintf("%d definitions, %s", n, what), true, func() (msg string) {
				res := rt.Explore(1, 3000, func(c *rt.Choices) bool {
					reg, want := build(l)
					var docs []help.CategoryDoc
					msg, docs = describe(reg, help.SortByCategory, want, byCategory, true, false)
					data, _ := json.Marshal(docs)
					k := keyOf(want)
					if first[k] == "" {
						first[k] = string(data)
					} else if msg == "" && first[k] != string(data) {
						msg = "another order of the same markers"
					}
					return msg == ""
				})
				r.Transition(res.Executions)
				r.Count("map orders", res.Executions)
				return msg
			})
		}
		one2(list, "forwards")
		var rev []entry
		for i := range list {
			rev = append(rev, list[len(list)-1-i])
		}
		one2(rev, "backwards")
		rt.Reverse = true
		r.Case(fmt.Sprintf("many %d reversed", n), fmt.Sprintf("%d definitions, all maps in reverse", n), true, func() string {
			reg, want := build(list)
			msg, docs := describe(reg, help.SortByCategory, want, byCategory, true, false)
			if data, _ := json.Marshal(docs); msg == "" && first[keyOf(want)] != string(data) {
				msg = "another order of the same markers"
			}
			return msg
		})
		rt.Reverse = false
	}
}

func permute(list []entry, f func([]entry)) {
	var rec func(done, rest []entry)
	rec = func(done, rest []entry) {
		if len(rest) == 0 {
			f(done)
			return
		}
		for i := range rest {
			n := append(append([]entry{}, rest[:i]...), rest[i+1:]...)
			rec(append(append([]entry{}, done...), rest[i]), n)
		}
	}
	rec(nil, list)
}

// optionSets: the help of command-line options.
func optionSets(r *mc.Run) {
	h := func(s string) *markers.DefinitionHelp { return markers.SimpleHelp("", s) }
	dir := []argDoc{{typ: "string"}}
	pool := []entry{
		{"crd", markers.DescribesPackage, h("crds"), struct{ MaxDescLen *int }{}, []argDoc{{name: "maxDescLen", typ: "int", optional: true}}},
		{"rbac", markers.DescribesPackage, h("roles"), struct{ RoleName string }{}, []argDoc{{name: "roleName", typ: "string"}}},
		{"webhook", markers.DescribesPackage, nil, struct{}{}, nil},
		{"paths", markers.DescribesPackage, h("the paths"), []string{}, []argDoc{{typ: "[]string"}}},
		{"output:dir", markers.DescribesPackage, h("to a directory"), "", dir},
		{"output:none", markers.DescribesPackage, h("to nowhere"), struct{}{}, nil},
		{"output:crd:dir", markers.DescribesPackage, h("to a directory"), "", dir},
		{"output:crd:none", markers.DescribesPackage, h("to nowhere"), struct{}{}, nil},
		{"output:rbac:dir", markers.DescribesPackage, h("to a directory"), "", dir},
		{"pathsx", markers.DescribesPackage, h("like paths"), struct{}{}, nil},
	}
	group := func(d markerDoc) string {
		switch strings.Count(d.name, ":") {
		case 0:
			if d.name == "paths" {
				return "generic"
			}
			return "generators"
		case 1:
			return "output rules (optionally as output:<generator>:...)"
		}
		return ""
	}
	for set := 0; set < 1<<len(pool); set++ {
		if !r.Mine() {
			continue
		}
		var list []entry
		var names []string
		for i, e := range pool {
			if set&(1<<i) != 0 {
				list = append(list, e)
				names = append(names, e.name)
			}
		}
		key := strings.Join(names, " ")
		r.State(key)
		r.Case("options "+key, key, true, func() (msg string) {
			first := ""
			bound := 1
			if r.Thorough {
				bound = 2
			}
			res := rt.Explore(bound, 5000, func(c *rt.Choices) bool {
				reg, want := build(list)
				var docs []help.CategoryDoc
				msg, docs = describe(reg, help.SortByOption, want, group, false, len(c.Prefix) == 0)
				data, _ := json.Marshal(docs)
				if first == "" {
					first = string(data)
				} else if msg == "" && first != string(data) {
					msg = fmt.Sprintf("another order: %s instead of %s", data, first)
				}
				return msg == ""
			})
			r.Transition(res.Executions)
			r.Count("map orders", res.Executions)
			if msg == "" && !res.Complete {
				r.Incomplete("map orders of a set of options")
			}
			return msg
		})
	}
}

func body(r *mc.Run) {
	color.NoColor = true
	arguments(r)
	registries(r)
	optionSets(r)
	generators(r)
	commands(r)
	r.Sample("every type of argument in every place; every registry of several definitions in every order; the markers of every set of generators; the help of the commands")
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C23" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C23", Body: body,
		Rule:        "all argument types to a depth, in all places and with all forms of help, described independently; all sequences of up to three (thorough: four) of ten definitions, all sets of ten options and all sets of the real generators under deviation-bounded map orders, with JSON and all text forms compared with the description; the help of the commands for all sets of generators; non-trivial: all but registries of one definition",
		Assumptions: []string{"the text forms are compared up to white space and colors", "groups without a name are left out of the text forms, as the code has it"}})
}
