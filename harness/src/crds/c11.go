package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/version"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/yaml"
)

type resource struct {
	path, singular string
	short, cats    []string
	scope          string
}

type column struct {
	name, typ, path string
	desc, format    string
	prio            int
}

type kindDef struct {
	name             string
	storage, skip    bool
	unserved         bool
	deprecated       int // 0 no, 1 yes, 2 with a warning
	res              *resource
	status           bool
	scale            int // 0 no, 1 without selector, 2 with selector
	cols             []column
	sel              []string
	ann, lab         []string
	meta             [][2][]string // further metadata markers: annotations, labels
	noType, noObject bool
	field            string // distinguishes the versions
	doc              string
}

type verDef struct {
	path    string
	group   string // "-": no marker
	version string // "": the package name
	skipPkg bool
	kinds   []kindDef
}

type options struct {
	maxDesc  *int
	versions []string
	preserve *bool
	embed    *bool
	header   string
	year     string
}

func quoteList(ss []string) string {
	var out []string
	for _, s := range ss {
		out = append(out, fmt.Sprintf("%q", s))
	}
	return "{" + strings.Join(out, ",") + "}"
}

func (k kindDef) markers() []string {
	var ms []string
	if k.res != nil {
		var a []string
		if k.res.path != "" {
			a = append(a, "path="+k.res.path)
		}
		if k.res.singular != "" {
			a = append(a, "singular="+k.res.singular)
		}
		if k.res.short != nil {
			a = append(a, "shortName="+quoteList(k.res.short))
		}
		if k.res.cats != nil {
			a = append(a, "categories="+strings.Join(k.res.cats, ";"))
		}
		if k.res.scope != "" {
			a = append(a, "scope="+k.res.scope)
		}
		m := "+kubebuilder:resource"
		if len(a) > 0 {
			m += ":" + strings.Join(a, ",")
		}
		ms = append(ms, m)
	}
	if k.skip {
		ms = append(ms, "+kubebuilder:skipversion")
	}
	if k.storage {
		ms = append(ms, "+kubebuilder:storageversion")
	}
	if k.unserved {
		ms = append(ms, "+kubebuilder:unservedversion")
	}
	switch k.deprecated {
	case 1:
		ms = append(ms, "+kubebuilder:deprecatedversion")
	case 2:
		ms = append(ms, `+kubebuilder:deprecatedversion:warning="use, another: one"`)
	}
	if k.status {
		ms = append(ms, "+kubebuilder:subresource:status")
	}
	switch k.scale {
	case 1:
		ms = append(ms, "+kubebuilder:subresource:scale:specpath=.spec.n,statuspath=.status.n")
	case 2:
		ms = append(ms, "+kubebuilder:subresource:scale:specpath=.spec.n,statuspath=.status.n,selectorpath=.status.sel")
	}
	if k.ann != nil {
		ms = append(ms, "+kubebuilder:metadata:annotations="+quoteList(k.ann))
	}
	if k.lab != nil {
		ms = append(ms, "+kubebuilder:metadata:labels="+quoteList(k.lab))
	}
	// repeated markers keep their order
	metas := ""
	for i, m := range k.meta {
		if i > 0 {
			metas += "\n"
		}
		metas += "+kubebuilder:metadata:"
		if m[0] != nil {
			metas += "annotations=" + quoteList(m[0])
			if m[1] != nil {
				metas += ","
			}
		}
		if m[1] != nil {
			metas += "labels=" + quoteList(m[1])
		}
	}
	if metas != "" {
		ms = append(ms, metas)
	}
	cols := ""
	for i, c := range k.cols {
		if i > 0 {
			cols += "\n"
		}
		cols += fmt.Sprintf("+kubebuilder:printcolumn:name=%q,type=%q,JSONPath=%q", c.name, c.typ, c.path)
		if c.desc != "" {
			cols += fmt.Sprintf(",description=%q", c.desc)
		}
		if c.format != "" {
			cols += fmt.Sprintf(",format=%q", c.format)
		}
		if c.prio != 0 {
			cols += fmt.Sprintf(",priority=%d", c.prio)
		}
	}
	if cols != "" {
		ms = append(ms, cols)
	}
	sel := ""
	for i, s := range k.sel {
		if i > 0 {
			sel += "\n"
		}
		sel += fmt.Sprintf("+kubebuilder:selectablefield:JSONPath=%q", s)
	}
	if sel != "" {
		ms = append(ms, sel)
	}
	return ms
}

func (v verDef) source(reverse bool) source {
	var b strings.Builder
	if v.group != "-" {
		fmt.Fprintf(&b, "// +groupName=%s\n", v.group)
	}
	if v.version != "" {
		fmt.Fprintf(&b, "// +versionName=%s\n", v.version)
	}
	if v.skipPkg {
		b.WriteString("// +kubebuilder:skip\n")
	}
	fmt.Fprintf(&b, "package %s\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\nvar _ metav1.Time\n", filepath.Base(v.path))
	for _, k := range v.kinds {
		ms := k.markers()
		if reverse {
			for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
				ms[i], ms[j] = ms[j], ms[i]
			}
		}
		b.WriteString("\n")
		if k.doc != "" {
			b.WriteString("// " + k.doc + "\n")
		}
		for _, m := range ms {
			for _, l := range strings.Split(m, "\n") {
				b.WriteString("// " + l + "\n")
			}
		}
		fmt.Fprintf(&b, "type %s struct {\n", k.name)
		if !k.noType {
			b.WriteString("\tmetav1.TypeMeta `json:\",inline\"`\n")
		}
		if !k.noObject {
			if len(k.name)%2 == 1 {
				// what is written here stays out of the schema
				b.WriteString("\t// Standard object's metadata.\n\t// More of it.\n")
			}
			b.WriteString("\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n")
		}
		fmt.Fprintf(&b, "\tSpec %sSpec `json:\"spec,omitempty\"`\n}\n", k.name)
		fmt.Fprintf(&b, "\n// The %s.\ntype %sSpec struct {\n\tF string `json:%q`\n}\n", k.name, k.name, k.field)
		fmt.Fprintf(&b, "\ntype %sList struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ListMeta `json:\"metadata,omitempty\"`\n\tItems []%s `json:\"items\"`\n}\n", k.name, k.name)
	}
	return source{v.path, []string{b.String()}}
}

var plurals = map[string]string{"Foo": "foos", "Bus": "buses", "Puppy": "puppies", "Box": "boxes", "HTTPRoute": "httproutes", "Zebra": "zebras", "Day": "days", "Aaa": "aaas",
	"AllowList": "allowlists", "Widgets": "widgets", "Status": "statuses", "Sheep": "sheep", "CRD": "crds", "List": "lists", "Class": "classes", "Key": "keys"}

type obj = map[string]any

// expect computes the files and whether an error has to be reported.
func expect(vers []verDef, o options) (map[string]obj, bool) {
	wantErr := false
	type gk struct{ group, kind string }
	type entry struct {
		ver  string
		path string
		k    kindDef
	}
	byKind := map[gk][]entry{}
	for _, v := range vers {
		if v.skipPkg || v.group == "-" {
			continue
		}
		ver := v.version
		if ver == "" {
			ver = filepath.Base(v.path)
		}
		for _, k := range v.kinds {
			id := gk{v.group, k.name}
			byKind[id] = append(byKind[id], entry{ver, v.path, k})
		}
	}
	// a kind has to be a root kind in one of its versions
	for id, es := range byKind {
		root := false
		for _, e := range es {
			root = root || !e.k.noType && !e.k.noObject
		}
		if !root {
			delete(byKind, id)
		}
	}
	crdVersions := o.versions
	if len(crdVersions) == 0 {
		crdVersions = []string{"v1"}
	}
	files := map[string]obj{}
	for id, es := range byKind {
		for _, cv := range crdVersions {
			if cv != "v1" {
				wantErr = true
			}
		}
		sort.Slice(es, func(i, j int) bool { return es[i].ver < es[j].ver })
		plural, singular := plurals[id.kind], strings.ToLower(id.kind)
		scope := "Namespaced"
		var short, cats []any
		ann := obj{"controller-gen.kubebuilder.io/version": version.Version()}
		lab := obj{}
		var versions []any
		seen := map[string]bool{}
		storages, served := 0, 0
		for _, e := range es {
			k := e.k
			if k.res != nil {
				if k.res.path != "" {
					plural = k.res.path
				}
				if k.res.singular != "" {
					singular = k.res.singular
				}
				scope = "Namespaced"
				if k.res.scope != "" {
					scope = k.res.scope
				}
				short, cats = anys(k.res.short), anys(k.res.cats)
			}
			for _, s := range k.ann {
				a, b, ok := strings.Cut(s, "=")
				if !ok {
					wantErr = true
				}
				ann[a] = b
			}
			for _, s := range k.lab {
				a, b, ok := strings.Cut(s, "=")
				if !ok {
					wantErr = true
				}
				lab[a] = b
			}
			for _, m := range k.meta {
				for i, list := range m {
					for _, s := range list {
						a, b, ok := strings.Cut(s, "=")
						if !ok {
							wantErr = true
						}
						[]obj{ann, lab}[i][a] = b
					}
				}
			}
			if k.skip {
				continue
			}
			if seen[e.ver] {
				wantErr = true
			}
			seen[e.ver] = true
			schema := obj{"type": "object", "properties": obj{
				"spec": obj{"type": "object", "properties": obj{k.field: obj{"type": "string"}}, "required": []any{k.field}},
			}}
			props := schema["properties"].(obj)
			if !k.noType {
				props["apiVersion"] = obj{"type": "string"}
				props["kind"] = obj{"type": "string"}
			}
			if !k.noObject {
				props["metadata"] = obj{"type": "object"}
			}
			if k.doc != "" && (o.maxDesc == nil || *o.maxDesc > 100) {
				schema["description"] = k.doc
			}
			v := obj{"name": e.ver, "served": !k.unserved, "storage": k.storage, "schema": obj{"openAPIV3Schema": schema}}
			if k.storage {
				storages++
			}
			if !k.unserved {
				served++
			}
			if k.deprecated > 0 {
				v["deprecated"] = true
			}
			if k.deprecated == 2 {
				v["deprecationWarning"] = "use, another: one"
			}
			sub := obj{}
			if k.status {
				sub["status"] = obj{}
			}
			if k.scale > 0 {
				s := obj{"specReplicasPath": ".spec.n", "statusReplicasPath": ".status.n"}
				if k.scale == 2 {
					s["labelSelectorPath"] = ".status.sel"
				}
				sub["scale"] = s
			}
			if len(sub) > 0 {
				v["subresources"] = sub
			}
			if len(k.cols) > 0 {
				var cs []any
				for _, c := range k.cols {
					m := obj{"name": c.name, "type": c.typ, "jsonPath": c.path}
					if c.desc != "" {
						m["description"] = c.desc
					}
					if c.format != "" {
						m["format"] = c.format
					}
					if c.prio != 0 {
						m["priority"] = float64(c.prio)
					}
					cs = append(cs, m)
				}
				v["additionalPrinterColumns"] = cs
			}
			if len(k.sel) > 0 {
				var ss []any
				for _, s := range k.sel {
					ss = append(ss, obj{"jsonPath": s})
				}
				v["selectableFields"] = ss
			}
			versions = append(versions, v)
		}
		if len(versions) == 0 {
			continue
		}
		if len(versions) == 1 {
			versions[0].(obj)["storage"] = true
			storages = 1
		}
		if storages != 1 || served == 0 {
			wantErr = true
		}
		names := obj{"kind": id.kind, "listKind": id.kind + "List", "plural": plural, "singular": singular}
		if len(short) > 0 {
			names["shortNames"] = short
		}
		if len(cats) > 0 {
			names["categories"] = cats
		}
		meta := obj{"name": plural + "." + id.group, "annotations": ann}
		if len(lab) > 0 {
			meta["labels"] = lab
		}
		spec := obj{"group": id.group, "names": names, "scope": scope, "versions": versions}
		if o.preserve != nil {
			spec["preserveUnknownFields"] = *o.preserve
		}
		c := obj{"apiVersion": "apiextensions.k8s.io/v1", "kind": "CustomResourceDefinition", "metadata": meta, "spec": spec}
		for i, cv := range crdVersions {
			n := id.group + "_" + plural + ".yaml"
			if i > 0 {
				n = id.group + "_" + plural + "." + cv + ".yaml"
			}
			if _, dup := files[n]; dup {
				wantErr = true
			}
			files[n] = c
		}
	}
	return files, wantErr
}

func anys(ss []string) []any {
	var out []any
	for _, s := range ss {
		out = append(out, s)
	}
	return out
}

// dropDocs removes the descriptions below the top of a schema.
func dropDocs(x any, isProps bool, found *int) {
	switch x := x.(type) {
	case obj:
		if !isProps {
			if _, ok := x["description"].(string); ok {
				*found++
				delete(x, "description")
			}
		}
		for k, v := range x {
			dropDocs(v, !isProps && k == "properties", found)
		}
	case []any:
		for _, v := range x {
			dropDocs(v, false, found)
		}
	}
}

func checkCRD(vers []verDef, o options, reverse bool) (string, bool) {
	var srcs []source
	for _, v := range vers {
		srcs = append(srcs, v.source(reverse))
	}
	pkgs, err := build(srcs)
	if err != nil {
		return "harness: " + err.Error(), false
	}
	g := crd.Generator{MaxDescLen: o.maxDesc, CRDVersions: o.versions, GenerateEmbeddedObjectMeta: o.embed, Year: o.year,
		DeprecatedV1beta1CompatibilityPreserveUnknownFields: o.preserve}
	in := memInput{}
	if o.header != "" {
		g.HeaderFile = "header"
		in["header"] = o.header
	}
	out := run(g, pkgs, pkgs, in)
	want, wantErr := expect(vers, o)
	if out.panic != "" {
		return "panic: " + out.panic, false
	}
	if wantErr {
		if len(out.errs) == 0 {
			return "no error reported; files:\n" + out.String(), false
		}
		return "", false
	}
	if len(out.errs) > 0 {
		return "unexpected errors: " + strings.Join(out.errs, " | "), false
	}
	if len(out.twice) > 0 {
		return fmt.Sprintf("written twice: %v", out.twice), false
	}
	head := strings.ReplaceAll(o.header, " YEAR", " "+o.year)
	var names, wantNames []string
	for n := range out.files {
		names = append(names, n)
	}
	for n := range want {
		wantNames = append(wantNames, n)
	}
	sort.Strings(names)
	sort.Strings(wantNames)
	if !reflect.DeepEqual(names, wantNames) {
		return fmt.Sprintf("files %v, want %v", names, wantNames), false
	}
	for _, n := range names {
		text := out.files[n]
		if !strings.HasPrefix(text, head+"---\n") {
			return fmt.Sprintf("%s does not start with the header", n), false
		}
		text = strings.TrimPrefix(text, head+"---\n")
		var got obj
		if err := yaml.Unmarshal([]byte(text), &got); err != nil {
			return "unreadable: " + err.Error(), false
		}
		vs, _ := got["spec"].(obj)["versions"].([]any)
		for _, v := range vs {
			v := v.(obj)
			if s, ok := v["subresources"].(obj); ok && len(s) == 0 {
				delete(v, "subresources")
			}
			docs := 0
			sch, _ := v["schema"].(obj)
			top, _ := sch["openAPIV3Schema"].(obj)
			if props, ok := top["properties"].(obj); ok {
				if m, ok := props["metadata"].(obj); ok && m["description"] != nil {
					return fmt.Sprintf("%s: the metadata of objects is described: %v", n, m), false
				}
			}
			dropDocs(top["properties"], true, &docs)
			if _, ok := top["description"]; ok {
				docs++
			}
			if o.maxDesc != nil && *o.maxDesc == 0 && docs > 0 {
				return "descriptions with maxDescLen=0", false
			}
			if o.maxDesc != nil && *o.maxDesc <= 100 {
				delete(top, "description")
			}
		}
		var wantN obj
		b, _ := json.Marshal(want[n])
		_ = json.Unmarshal(b, &wantN)
		if !reflect.DeepEqual(got, wantN) {
			gb, _ := json.Marshal(got)
			return fmt.Sprintf("%s:\n got  %s\n want %s", n, gb, b), false
		}
	}
	return "", len(want) > 0
}

func c11(r *mc.Run) {
	setupWorld()
	try := func(key string, vers []verDef, o options) {
		for _, reverse := range []bool{false, true} {
			if r.Expired() {
				r.Incomplete("time")
				return
			}
			k := fmt.Sprintf("%s reverse=%v", key, reverse)
			if !r.Mine() {
				continue
			}
			var src string
			for _, v := range vers {
				src += v.source(reverse).files[0] + "\n"
			}
			r.Case(k, src, true, func() string {
				msg, produced := checkCRD(vers, o, reverse)
				if produced {
					r.Count("crds", 1)
				} else {
					r.Count("errors_or_nothing", 1)
				}
				r.State(src + fmt.Sprint(o))
				r.Transition(1)
				r.Outcome(fmt.Sprint(expectKey(vers, o)))
				return msg
			})
		}
	}
	// versions
	flags := func(i int) kindDef {
		return kindDef{name: "Foo", storage: i&1 != 0, skip: i&2 != 0, unserved: i&4 != 0, deprecated: i / 8, field: "f"}
	}
	verNames := []string{"v1alpha1", "v1", "v2"}
	for n := 1; n <= 3; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= 24
		}
		for c := 0; c < total; c++ {
			var vers []verDef
			x := c
			keep, deps := true, 0
			for i := 0; i < n; i++ {
				k := flags(x % 24)
				if k.deprecated != 0 {
					deps++
				}
				if n == 3 && !r.Thorough && deps > 1 {
					keep = false
				}
				x /= 24
				k.field = "in" + verNames[i]
				vers = append(vers, verDef{path: "ex.com/" + verNames[i], group: "g.io", kinds: []kindDef{k}})
			}
			if keep {
				try(fmt.Sprintf("versions %d of %d", c, n), vers, options{})
			}
		}
	}
	// version names, groups, package markers, kinds that are not root kinds
	for _, group := range []string{"g.io", "h.io", "-"} {
		for _, vn := range []string{"", "v9", "v1"} {
			for shape := 0; shape < 8; shape++ {
				for other := 0; other < 6; other++ {
					a := kindDef{name: "Foo", field: "a", doc: "Foo is a kind.", noType: shape&1 != 0, noObject: shape&2 != 0}
					p := verDef{path: "ex.com/v1", group: group, version: vn, skipPkg: shape&4 != 0, kinds: []kindDef{a}}
					vers := []verDef{p}
					b := kindDef{name: "Foo", field: "b", storage: true}
					switch other {
					case 1:
						vers = append(vers, verDef{path: "ex.com/v2", group: "g.io", kinds: []kindDef{b}})
					case 2:
						vers = append(vers, verDef{path: "ex.com/v0", group: "g.io", kinds: []kindDef{{name: "Bus", field: "c"}, b}})
					case 3:
						vers = append(vers, verDef{path: "ex.com/h/v1", group: "h.io", kinds: []kindDef{b, {name: "Aaa", field: "d"}}})
					case 4:
						vers = append([]verDef{{path: "ex.com/a/v9", group: "g.io", kinds: []kindDef{b}}}, vers...)
					case 5:
						vers[0].kinds = append(vers[0].kinds, kindDef{name: "Zebra", field: "z", res: &resource{path: "foos"}})
					}
					if other == 5 && (group == "-" || shape != 0) {
						continue
					}
					try(fmt.Sprintf("package group=%s version=%s shape=%d other=%d", group, vn, shape, other), vers, options{})
				}
			}
		}
	}
	// resource markers
	for _, name := range []string{"Foo", "Bus", "Puppy", "Box", "HTTPRoute", "Day", "AllowList", "Widgets", "Status", "Sheep", "CRD", "List", "Class", "Key"} {
		try("default resource "+name, []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{{name: name, field: "f"}}}}, options{})
		for _, path := range []string{"", "things"} {
			for _, singular := range []string{"", "thing"} {
				for si, short := range [][]string{nil, {"f"}, {"z", "a"}} {
					for ci, cats := range [][]string{nil, {"all"}, {"z", "all"}} {
						for _, scope := range []string{"", "Cluster", "Namespaced"} {
							res := &resource{path, singular, short, cats, scope}
							key := fmt.Sprintf("resource %s %s %s %d %d %s", name, path, singular, si, ci, scope)
							try(key, []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{{name: name, field: "f", res: res}}}}, options{})
							if name == "Foo" || r.Thorough {
								// on one of two versions, and with another resource on the other one
								for second := 0; second < 4; second++ {
									a, b := kindDef{name: name, field: "a", res: res, storage: true}, kindDef{name: name, field: "b"}
									if second >= 2 {
										b.res = &resource{scope: "Cluster", short: []string{"o"}, path: "others"}
									}
									if second%2 == 1 {
										a.res, b.res = b.res, a.res
									}
									try(fmt.Sprintf("%s second=%d", key, second), []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{a}}, {path: "ex.com/v2", group: "g.io", kinds: []kindDef{b}}}, options{})
								}
							}
						}
					}
				}
			}
		}
	}
	// subresources, columns, selectable fields: on each of two versions
	colSets := [][]column{nil,
		{{name: "A", typ: "string", path: ".spec.f"}},
		{{name: "B", typ: "integer", path: ".spec.b", desc: "the b: one", format: "int32", prio: 1}, {name: "A", typ: "string", path: ".spec.a", prio: -1}},
		{{name: "A", typ: "date", path: ".metadata.creationTimestamp"}, {name: "B", typ: "string", path: `.spec.x[?(@.a=="b")].c`}, {name: "B", typ: "string", path: ".y", desc: "#1"}}}
	selSets := [][]string{nil, {".spec.f"}, {".spec.z", ".spec.a"}}
	var shapes []kindDef
	for _, status := range []bool{false, true} {
		for scale := 0; scale < 3; scale++ {
			for _, cols := range colSets {
				for _, sel := range selSets {
					shapes = append(shapes, kindDef{name: "Foo", status: status, scale: scale, cols: cols, sel: sel})
				}
			}
		}
	}
	for i, a := range shapes {
		a.field = "a"
		try(fmt.Sprintf("sub %d", i), []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{a}}}, options{})
		for j, b := range shapes {
			a.storage, b.field = true, "b"
			try(fmt.Sprintf("sub %d %d", i, j), []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{a}}, {path: "ex.com/v2", group: "g.io", kinds: []kindDef{b}}}, options{})
			if j == 0 || i == 0 {
				// next to a skipped version
				s := b
				s.skip = true
				try(fmt.Sprintf("sub %d skipped %d", i, j), []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{a}}, {path: "ex.com/v2", group: "g.io", kinds: []kindDef{s}}}, options{})
			}
		}
	}
	// metadata
	metas := [][]string{nil, {"a=b"}, {"a=b", "c=d=e"}, {"a="}, {"a"}, {"a=b", "x"}, {"a=b", "a=c"}}
	for i, ann := range metas {
		for j, lab := range metas {
			k := kindDef{name: "Foo", field: "f", ann: ann, lab: lab}
			try(fmt.Sprintf("metadata %d %d", i, j), []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{k}}}, options{})
			for l, ann2 := range metas {
				k2 := kindDef{name: "Foo", field: "g", ann: ann2, storage: true}
				try(fmt.Sprintf("metadata %d %d %d", i, j, l), []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{k}}, {path: "ex.com/v2", group: "g.io", kinds: []kindDef{k2}}}, options{})
			}
		}
	}
	// several metadata markers on one type
	var single [][2][]string
	for _, ann := range [][]string{nil, {"a=b"}, {"c=d=e", "a=x"}, {"y"}} {
		for _, lab := range [][]string{nil, {"a=b"}, {"c=d=e", "a=x"}, {"y"}} {
			if ann != nil || lab != nil {
				single = append(single, [2][]string{ann, lab})
			}
		}
	}
	for i, m1 := range single {
		for j, m2 := range single {
			k := kindDef{name: "Foo", field: "f", meta: [][2][]string{m1, m2}}
			try(fmt.Sprintf("several metadata %d %d", i, j), []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{k}}}, options{})
			for l, m3 := range single {
				if !r.Thorough && l%3 != 0 {
					continue
				}
				k := kindDef{name: "Foo", field: "f", meta: [][2][]string{m1, m2, m3}}
				try(fmt.Sprintf("several metadata %d %d %d", i, j, l), []verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{k}}}, options{})
			}
		}
	}
	// options
	zero, one, many, yes, no := 0, 10, 1000, true, false
	for di, d := range []*int{nil, &zero, &one, &many} {
		for vi, vs := range [][]string{nil, {"v1"}, {"v1beta1"}, {"v1", "v1beta1"}, {"v1", "v1"}, {"v2"}, {"v1beta1", "v1"}} {
			for pi, p := range []*bool{nil, &yes, &no} {
				for ei, e := range []*bool{nil, &yes, &no} {
					for hi, h := range []string{"", "# Copyright YEAR me.\n", "# YEAR\n# a YEAR b YEAR\n\n"} {
						for _, y := range []string{"", "2031"} {
							k := kindDef{name: "Foo", field: "f", doc: "Foo is a kind. It has a longer text.", status: true}
							k2 := kindDef{name: "Bus", field: "f", doc: "Bus."}
							try(fmt.Sprintf("options %d %d %d %d %d %s", di, vi, pi, ei, hi, y),
								[]verDef{{path: "ex.com/v1", group: "g.io", kinds: []kindDef{k, k2}}}, options{d, vs, p, e, h, y})
						}
					}
				}
			}
		}
	}
}

func expectKey(vers []verDef, o options) string {
	f, e := expect(vers, o)
	b, _ := json.Marshal(f)
	return fmt.Sprint(e, string(b))
}
