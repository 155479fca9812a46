// C18: patching the schemas of CRD manifests.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/verifmc/genrun"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/rt"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

var (
	w    *world.World
	reg  *markers.Registry
	warm *genrun.Warm
)

// code is one state of the Go code.
type code struct {
	name string
	srcs []genrun.Source
	// roots are the packages that are generated for
	roots []int

	pkgs []*loader.Package
	want map[string]*generated
}

// generated is what the CRD generator makes of the code.
type generated struct {
	failed bool
	// schemas by group/kind and version
	schemas map[string]map[string]any
}

const imp = "\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\nvar _ metav1.Time\n"

func kind(name, marks, body string) string {
	return marks + "// " + name + " has a description. It has a second sentence.\ntype " + name + " struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\t// the metadata\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n" + body + "}\n"
}

func pkg(path, group string, body ...string) genrun.Source {
	s := "package " + filepath.Base(path) + imp + strings.Join(body, "\n")
	if group != "" {
		s = "// +groupName=" + group + "\n" + s
	}
	return genrun.Source{Path: path, Files: []string{s}}
}

const (
	storage = "// +kubebuilder:storageversion\n"
	bodyA   = "\t// A is here. And more.\n\t// +kubebuilder:validation:MinLength=2\n\tA string `json:\"a\"`\n"
	bodyB   = "\tB map[string]int32 `json:\"b,omitempty\"`\n\tT metav1.ObjectMeta `json:\"t,omitempty\"`\n\t// +kubebuilder:default=\"no\"\n\t// +kubebuilder:example=\"012\"\n\tC string `json:\"yes\"`\n"
)

const nothing = "nothing of Kubernetes"

func codes() []*code {
	all := func(name string, srcs ...genrun.Source) *code {
		c := &code{name: name, srcs: srcs}
		for i := range srcs {
			c.roots = append(c.roots, i)
		}
		return c
	}
	v1 := func(body string) genrun.Source { return pkg("ex.com/v1", "g.io", kind("Foo", "", body)) }
	v2 := func(body string) genrun.Source { return pkg("ex.com/v2", "g.io", kind("Foo", storage, body)) }
	ref := all("v1 refers to v2",
		pkg("ex.com/v2", "g.io", kind("Foo", "", bodyB), "type Sub struct {\n\tX string `json:\"x\"`\n}\n"),
		genrun.Source{Path: "ex.com/v1", Files: []string{"// +groupName=g.io\npackage v1\n\nimport \"ex.com/v2\"" + imp + kind("Foo", "", "\tS v2.Sub `json:\"s\"`\n")}})
	ref.roots = []int{1}
	return []*code{
		all("v1", v1(bodyA)),
		all("v1 v2 same", v1(bodyA), v2(bodyA)),
		all("v1 v2", v1(bodyA), v2(bodyB)),
		all("v2", v2(bodyB)),
		all("v1, v2 without it", v1(bodyA), pkg("ex.com/v2", "g.io", kind("Bar", "", bodyA))),
		ref,
		all("other kind", pkg("ex.com/v1", "g.io", kind("Bar", "", bodyA))),
		all("other group", pkg("ex.com/v1", "h.io", kind("Foo", "", bodyA))),
		all("v1 twice", v1(bodyA), pkg("ex.com/b/v1", "g.io", kind("Foo", "", bodyB))),
		all("both kinds", pkg("ex.com/v1", "g.io", kind("Foo", "", bodyA), kind("Bar", "", bodyB))),
		all(nothing, genrun.Source{Path: "ex.com/v1", Files: []string{"// +groupName=g.io\npackage v1\n\ntype Foo struct {\n\tX string `json:\"x\"`\n}\n"}}),
		all("v1 not an object", pkg("ex.com/v1", "g.io", "type Foo struct {\n\tX string `json:\"x\"`\n}\n"), v2(bodyB)),
	}
}

func (c *code) build() {
	if c.pkgs != nil {
		return
	}
	var err error
	if c.pkgs, err = genrun.Build(w, c.srcs); err != nil {
		panic(err)
	}
	c.want = map[string]*generated{}
}

func (c *code) context() *genall.GenerationContext {
	ctx := &genall.GenerationContext{
		Collector: warm.Collector(),
		Checker:   &loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}},
		InputRule: genall.InputFromFileSystem,
	}
	for _, i := range c.roots {
		ctx.Roots = append(ctx.Roots, c.pkgs[i])
	}
	return ctx
}

// options are the options of the generators.
type options struct {
	maxDesc int // -1: none
	meta    bool
}

var plain = options{maxDesc: -1}

// generated gives what the CRD generator makes.
func (c *code) generated(o options) *generated {
	c.build()
	key := fmt.Sprint(o)
	if g := c.want[key]; g != nil {
		return g
	}
	gen := crd.Generator{}
	if o.maxDesc >= 0 {
		gen.MaxDescLen = &o.maxDesc
	}
	if o.meta {
		gen.GenerateEmbeddedObjectMeta = &o.meta
	}
	out := genrun.Run(gen, c.context(), c.pkgs)
	if out.Panic != "" {
		panic(out.Panic)
	}
	g := &generated{schemas: map[string]map[string]any{}, failed: out.Failed()}
	for _, text := range out.Files {
		var m struct {
			Spec struct {
				Group    string
				Names    struct{ Kind string }
				Versions []struct {
					Name   string
					Schema struct {
						S any `yaml:"openAPIV3Schema"`
					}
				}
			}
		}
		if err := yaml.Unmarshal([]byte(text), &m); err != nil {
			panic(err)
		}
		vs := map[string]any{}
		for _, v := range m.Spec.Versions {
			vs[v.Name] = v.Schema.S
		}
		g.schemas[m.Spec.Group+"/"+m.Spec.Names.Kind] = vs
	}
	c.want[key] = g
	return g
}

// patch runs the generator on the directory.
func patch(c *code, o options, dir string) genrun.Outcome {
	c.build()
	gen := schemapatcher.Generator{ManifestsPath: dir}
	if o.maxDesc >= 0 {
		gen.MaxDescLen = &o.maxDesc
	}
	if o.meta {
		gen.GenerateEmbeddedObjectMeta = &o.meta
	}
	return genrun.Run(&gen, c.context(), c.pkgs)
}

// documents of a file, or nil if it is no YAML.
func documents(text string) []*yaml.Node {
	var out []*yaml.Node
	dec := yaml.NewDecoder(strings.NewReader(text))
	for {
		n := &yaml.Node{}
		err := dec.Decode(n)
		if err != nil {
			if err.Error() == "EOF" {
				return out
			}
			return nil
		}
		if c := n.Content; len(c) == 1 && c[0].Kind == yaml.ScalarNode && c[0].Value == "" && c[0].ShortTag() == "!!null" {
			continue // empty
		}
		out = append(out, n)
	}
}

func get(n *yaml.Node, path ...string) *yaml.Node {
	if n != nil && n.Kind == yaml.DocumentNode {
		n = n.Content[0]
	}
	for _, p := range path {
		if n != nil && n.Kind == yaml.AliasNode {
			n = n.Alias
		}
		if n == nil || n.Kind != yaml.MappingNode {
			return nil
		}
		var next *yaml.Node
		for i := 0; i+1 < len(n.Content); i += 2 {
			if n.Content[i].Value == p {
				next = n.Content[i+1]
			}
		}
		n = next
	}
	return n
}

func str(n *yaml.Node) string {
	if n == nil || n.Kind != yaml.ScalarNode || n.ShortTag() != "!!str" {
		return ""
	}
	return n.Value
}

// isCRD tells what a document is: "", "old" or group/kind.
func isCRD(doc *yaml.Node) string {
	if str(get(doc, "kind")) != "CustomResourceDefinition" || str(get(doc, "apiVersion")) == "" {
		return ""
	}
	if str(get(doc, "apiVersion")) != "apiextensions.k8s.io/v1" {
		return "old"
	}
	return str(get(doc, "spec", "group")) + "/" + str(get(doc, "spec", "names", "kind"))
}

func versionNames(doc *yaml.Node) []string {
	var out []string
	vs := get(doc, "spec", "versions")
	if vs != nil && vs.Kind == yaml.SequenceNode {
		for _, v := range vs.Content {
			out = append(out, str(get(v, "name")))
		}
	}
	return out
}

// rest renders everything but the schemas.
func rest(doc *yaml.Node, patched bool) string {
	var b strings.Builder
	var write func(n *yaml.Node, path string, depth int)
	comment := func(n *yaml.Node) {
		for _, c := range []string{n.HeadComment, n.LineComment, n.FootComment} {
			if c != "" {
				fmt.Fprintf(&b, " %q", c)
			}
		}
	}
	write = func(n *yaml.Node, path string, depth int) {
		fmt.Fprintf(&b, "%s%d %s %q %s", strings.Repeat(" ", depth), n.Kind, n.ShortTag(), n.Value, n.Anchor)
		comment(n)
		b.WriteString("\n")
		if n.Kind == yaml.MappingNode {
			for i := 0; i+1 < len(n.Content); i += 2 {
				p := path + "." + n.Content[i].Value
				if patched && (p == ".spec.versions[].schema" || p == ".spec.validation") {
					continue
				}
				write(n.Content[i], "", depth+1)
				write(n.Content[i+1], p, depth+1)
			}
			return
		}
		for _, c := range n.Content {
			p := path
			if n.Kind == yaml.SequenceNode {
				p += "[]"
			}
			write(c, p, depth+1)
		}
	}
	write(doc, "", 0)
	return b.String()
}

// manifests is a directory of files.
type manifests map[string]string

func (m manifests) String() string {
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	s := ""
	for _, n := range names {
		s += "=== " + n + "\n" + m[n]
	}
	return s
}

func (m manifests) write(dir string) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	old, _ := os.ReadDir(dir)
	for _, f := range old {
		if _, keep := m[f.Name()]; !keep {
			if err := os.Remove(filepath.Join(dir, f.Name())); err != nil {
				panic(err)
			}
		}
	}
	for n, text := range m {
		if strings.HasSuffix(n, "/") {
			_ = os.Mkdir(filepath.Join(dir, n), 0o755)
			continue
		}
		if err := os.WriteFile(filepath.Join(dir, n), []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
}

// expectation for a directory.
const (
	exact     = iota // has to be right
	rightOrNo        // has to be right or reported
)

// check compares the outcome with what the manifests call for.
func check(c *code, o options, in manifests, out genrun.Outcome, how int) string {
	if out.Panic != "" {
		return "panic: " + out.Panic
	}
	gen := c.generated(o)
	// what has to be reported
	docs := map[string][]*yaml.Node{}
	found := map[string]bool{}
	bad := ""
	for name, text := range in {
		if filepath.Ext(name) != ".yaml" {
			continue
		}
		docs[name] = documents(text)
		for _, d := range docs[name] {
			gk := isCRD(d)
			if gk == "old" {
				bad = "unsupported manifest " + name
			}
			for _, v := range versionNames(d) {
				if _, has := gen.schemas[gk][v]; has {
					found[gk] = true
					if gen.failed {
						bad = "the CRD generator fails for " + gk
					}
				}
			}
		}
	}
	if bad != "" {
		if !out.Failed() && c.name == nothing {
			return "" // no kinds to look for
		}
		if !out.Failed() {
			return "nothing reported: " + bad
		}
		return ""
	}
	if out.Failed() {
		if how == rightOrNo {
			return ""
		}
		return "failed: " + strings.Join(out.Errs, " | ")
	}
	if len(out.Twice) > 0 {
		return fmt.Sprint("written twice: ", out.Twice)
	}
	for name, text := range out.Files {
		if _, ok := in[name]; !ok {
			return "writes " + name
		}
		if docs[name] == nil {
			return "writes " + name + " which is not YAML"
		}
		got := documents(text)
		if len(got) != len(docs[name]) {
			return fmt.Sprintf("%s has %d documents instead of %d:\n%s", name, len(got), len(docs[name]), text)
		}
		for i, d := range docs[name] {
			if msg := compare(gen, found, d, got[i]); msg != "" {
				return name + ": " + msg + "\n" + text
			}
		}
	}
	for name := range docs {
		if _, written := out.Files[name]; written {
			continue
		}
		// left as it is: that has to be right
		for _, d := range docs[name] {
			if msg := compare(gen, found, d, d); msg != "" {
				return name + " is not written, but " + msg
			}
		}
	}
	return ""
}

func compare(gen *generated, found map[string]bool, before, after *yaml.Node) string {
	gk := isCRD(before)
	patched := gk != "" && found[gk]
	if a, b := rest(before, patched), rest(after, patched); a != b {
		return "the rest of the document changed from\n" + a + "to\n" + b
	}
	if !patched {
		return ""
	}
	if get(after, "spec", "validation") != nil {
		return "has a global schema"
	}
	vs := get(after, "spec", "versions")
	if vs == nil {
		return ""
	}
	for _, v := range vs.Content {
		name := str(get(v, "name"))
		want, has := gen.schemas[gk][name]
		if !has {
			if get(v, "schema") != nil {
				return "version " + name + " keeps a schema"
			}
			continue
		}
		s := get(v, "schema")
		if s == nil || s.Kind != yaml.MappingNode || get(s, "openAPIV3Schema") == nil {
			return "version " + name + " has no schema"
		}
		var got any
		if err := get(s, "openAPIV3Schema").Decode(&got); err != nil {
			return err.Error()
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("version %s has the schema\n%v\ninstead of\n%v", name, got, want)
		}
	}
	return ""
}

// step checks one patch and that another one changes nothing.
func step(r *mc.Run, c *code, o options, in manifests, how int) (string, manifests) {
	dir := filepath.Join(r.Scratch, "manifests")
	in.write(dir)
	r.Transition(1)
	r.State(c.name + fmt.Sprint(o) + in.String())
	out := patch(c, o, dir)
	if msg := check(c, o, in, out, how); msg != "" {
		return msg, nil
	}
	if out.Failed() {
		return "", nil
	}
	after := manifests{}
	for n, t := range in {
		after[n] = t
	}
	for n, t := range out.Files {
		after[n] = t
	}
	return "", after
}

func try(r *mc.Run, key string, c *code, o options, in manifests, how int) {
	if r.Expired() || !r.Mine() {
		return
	}
	r.Case(key, c.name+"\n"+in.String(), true, func() string {
		msg, after := step(r, c, o, in, how)
		if msg != "" || after == nil {
			return msg
		}
		msg, again := step(r, c, o, after, exact)
		if msg != "" {
			return "patching the result: " + msg
		}
		if after.String() != again.String() {
			return "patching the result again changes it from\n" + after.String() + "to\n" + again.String()
		}
		return ""
	})
}

func body(r *mc.Run) {
	w = world.Must()
	warm = genrun.NewWarm(w, reg)
	all := codes()
	for _, c := range all {
		c.generated(plain)
	}
	partA(r, all)
	partB(r, all)
	partC(r, all)
	partD(r, all)
	r.Sample("versions x schema forms x code states; formatting; directories; histories")
}

// crdText writes a manifest.
type crdText struct {
	group, kind string
	versions    []verText
	validation  bool
}

type verText struct{ name, schema string }

var forms = []string{
	"",
	"    schema:\n      openAPIV3Schema:\n        type: object\n        properties:\n          old: {type: string}\n",
	"    schema: {}\n",
	"    schema:\n      openAPIV3Schema: {}\n",
	"    schema:\n      openAPIV3Schema:\n",
	"    schema:\n",
	"    schema: {\"openAPIV3Schema\": {\"type\": \"object\"}}\n",
}

func (t crdText) String() string {
	s := "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nmetadata:\n  name: foos.g.io\nspec:\n  group: " + t.group + "\n  names:\n    kind: " + t.kind + "\n    plural: foos\n"
	if t.validation {
		s += "  validation:\n    openAPIV3Schema:\n      type: object\n"
	}
	s += "  scope: Namespaced\n"
	if t.versions == nil {
		return s
	}
	s += "  versions:\n"
	for i, v := range t.versions {
		s += "  - name: " + v.name + "\n    served: true\n" + v.schema + fmt.Sprintf("    storage: %v\n", i == 0)
	}
	return s
}

func partA(r *mc.Run, all []*code) {
	names := []string{"v1", "v2", "v9"}
	depth := 3
	var lists [][]string
	var rec func(cur []string)
	rec = func(cur []string) {
		lists = append(lists, append([]string{}, cur...))
		if len(cur) == depth {
			return
		}
		for _, n := range names {
			if len(cur) == 2 && (n == cur[0] || n == cur[1] || cur[0] == cur[1]) {
				continue
			}
			rec(append(cur, n))
		}
	}
	rec(nil)
	for _, c := range all {
		for _, l := range lists {
			nf := len(forms)
			if len(l) == 3 && !r.Thorough {
				nf = 3
			}
			n := 1
			for range l {
				n *= nf
			}
			for f := 0; f < n; f++ {
				for _, val := range []bool{false, true} {
					t := crdText{"g.io", "Foo", nil, val}
					g := f
					for _, name := range l {
						t.versions = append(t.versions, verText{name, forms[g%nf]})
						g /= nf
					}
					how := exact
					for _, v := range t.versions {
						if v.schema == forms[5] { // reported as no mapping
							how = rightOrNo
						}
					}
					key := fmt.Sprintf("A %s %v %d %v", c.name, l, f, val)
					try(r, key, c, plain, manifests{"crd.yaml": t.String()}, how)
					if len(l) == 2 && (f == 0 || f == 8) {
						for _, d := range []int{-1, 0, 20} {
							for _, m := range []bool{false, true} {
								try(r, fmt.Sprintf("%s %d %v", key, d, m), c, options{d, m}, manifests{"crd.yaml": t.String()}, exact)
							}
						}
					}
				}
			}
		}
	}
}

// perm orders of the items.
func perms[T any](items []T) [][]T {
	var out [][]T
	for _, p := range genrun.Permutations(len(items)) {
		var o []T
		for _, i := range p {
			o = append(o, items[i])
		}
		out = append(out, o)
	}
	return out
}

func partB(r *mc.Run, all []*code) {
	some := []*code{all[0], all[2], all[3], all[6]}
	top := []string{"apiVersion: apiextensions.k8s.io/v1\n", "kind: CustomResourceDefinition\n", "metadata: {name: foos.g.io}\n", "@spec@"}
	spec := []string{"  group: g.io\n", "  names: {kind: Foo}\n", "  extra: [1, two, 0x3, ~, 1e3]\n", "@versions@"}
	ver := []string{"name: v1\n", "served: true\n", "schema: {openAPIV3Schema: {type: string}}\n", "extra: {a: b}\n"}
	second := "  - name: v2\n    storage: true\n"
	versions := func(v []string) string {
		return "  versions:\n  - " + strings.Join(v, "    ") + second
	}
	join := func(top, spec, ver []string) string {
		s := strings.Replace(strings.Join(spec, ""), "@versions@", versions(ver), 1)
		return strings.Replace(strings.Join(top, ""), "@spec@", "spec:\n"+s, 1)
	}
	for _, c := range some {
		for i, t := range perms(top) {
			try(r, fmt.Sprintf("B top %s %d", c.name, i), c, plain, manifests{"crd.yaml": join(t, spec, ver)}, exact)
		}
		for i, s := range perms(spec) {
			for j, v := range perms(ver) {
				try(r, fmt.Sprintf("B spec %s %d %d", c.name, i, j), c, plain, manifests{"crd.yaml": join(top, s, v)}, exact)
			}
		}
	}
	// comments: at every line, above it or on it, one and two of them
	base := crdText{"g.io", "Foo", []verText{{"v1", forms[1]}, {"v2", ""}, {"v9", forms[3]}}, true}.String()
	lines := strings.SplitAfter(strings.TrimSuffix(base, "\n"), "\n")
	lines[len(lines)-1] += "\n"
	inSchema := func(i int) bool {
		l := lines[i]
		return strings.Contains(l, "schema:") || strings.Contains(l, "openAPI") || strings.HasPrefix(l, "        ") || strings.Contains(l, "validation:") || strings.HasPrefix(l, "      type")
	}
	type place struct {
		line int
		how  string
	}
	var places []place
	for i := range lines {
		if inSchema(i) {
			continue
		}
		if i == 0 || !inSchema(i-1) { // otherwise it may belong to the schema
			places = append(places, place{i, "head"}, place{i, "head2"}, place{i, "gap"})
		}
		places = append(places, place{i, "line"})
	}
	with := func(ps ...place) string {
		s := ""
		for i, l := range lines {
			ind := l[:len(l)-len(strings.TrimLeft(l, " "))]
			if strings.HasPrefix(strings.TrimLeft(l, " "), "- ") {
				ind += ""
			}
			for _, p := range ps {
				if p.line != i {
					continue
				}
				switch p.how {
				case "head":
					s += ind + "# above " + fmt.Sprint(i) + "\n"
				case "head2":
					s += ind + "# above " + fmt.Sprint(i) + "\n" + ind + "# more\n"
				case "gap":
					s += "\n" + ind + "# above " + fmt.Sprint(i) + "\n"
				}
			}
			tail := ""
			for _, p := range ps {
				if p.line == i && p.how == "line" {
					tail = " # on " + fmt.Sprint(i)
				}
			}
			s += strings.TrimSuffix(l, "\n") + tail + "\n"
		}
		return s
	}
	unstable := 0
	tryText := func(key string, c *code, text string, how int) {
		if !stable(text) {
			unstable++
			return
		}
		try(r, key, c, plain, manifests{"crd.yaml": text}, how)
	}
	for _, c := range some {
		for i, p := range places {
			tryText(fmt.Sprintf("B comment %s %v", c.name, p), c, with(p), exact)
			if c != all[2] && !r.Thorough {
				continue
			}
			for _, q := range places[i+1:] {
				tryText(fmt.Sprintf("B comments %s %v %v", c.name, p, q), c, with(p, q), exact)
			}
		}
	}
	// decorations
	decorate := map[string]func(string) string{
		"license":     func(s string) string { return "# Copyright\n# all of it\n\n" + s },
		"start":       func(s string) string { return "---\n" + s },
		"start end":   func(s string) string { return "---\n" + s + "...\n" },
		"blank start": func(s string) string { return "\n\n---\n\n" + s },
		"trailing":    func(s string) string { return s + "# the end\n" },
		"no newline":  func(s string) string { return strings.TrimSuffix(s, "\n") },
		"crlf":        func(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") },
		"bom":         func(s string) string { return "\ufeff" + s },
		"quoted": func(s string) string {
			return strings.NewReplacer("spec:", `"spec":`, "versions:", `'versions':`, "name: v1", `name: "v1"`, "name: v2", "name: 'v2'", "schema:", `"schema":`).Replace(s)
		},
		"block name": func(s string) string { return strings.Replace(s, "name: v1\n", "name: |-\n      v1\n", 1) },
		"folded": func(s string) string {
			return strings.Replace(s, "scope: Namespaced", "scope: >-\n    Name\n    spaced", 1)
		},
		"literal": func(s string) string {
			return strings.Replace(s, "  name: foos.g.io\n", "  name: foos.g.io\n  note: |\n    a\n     b\n\n    # no comment\n", 1)
		},
		"long": func(s string) string {
			return strings.Replace(s, "  name: foos.g.io\n", "  name: foos.g.io\n  note: "+strings.Repeat("word ", 60)+"end\n", 1)
		},
		"unicode": func(s string) string {
			return strings.Replace(s, "  name: foos.g.io\n", "  name: foos.g.io\n  note: \"\\u2028 \\0 \u00e9 \U0001F600\"\n", 1)
		},
		"values": func(s string) string {
			return strings.Replace(s, "  name: foos.g.io\n", "  name: foos.g.io\n  l: [1, 0o7, 07, 0x1F, 1_000, yes, No, ~, null, 2001-01-01, '1', \"true\", 1.0, 1e3, !!str 1]\n", 1)
		},
		"anchor": func(s string) string {
			return strings.Replace(strings.Replace(s, "  name: foos.g.io\n", "  name: &n foos.g.io\n", 1), "scope: Namespaced", "scope: *n", 1)
		},
		"merge": func(s string) string {
			return strings.Replace(s, "  name: foos.g.io\n", "  name: foos.g.io\n  base: &b {x: 1}\n  more:\n    <<: *b\n    y: 2\n", 1)
		},
		"validation?": func(s string) string {
			return strings.Replace(s, "  scope: Namespaced\n", "  scope: Namespaced\n  conversion: {strategy: None}\n", 1)
		},
	}
	var names []string
	for n := range decorate {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, c := range all {
		for i, n := range names {
			text := decorate[n](base)
			how := exact
			try(r, "B deco "+c.name+" "+n, c, plain, manifests{"crd.yaml": text}, how)
			for _, m := range names[i+1:] {
				if !stable(decorate[m](text)) {
					unstable++
					continue
				}
				try(r, "B deco "+c.name+" "+n+", "+m, c, plain, manifests{"crd.yaml": decorate[m](text)}, how)
			}
		}
	}
	// unusual shapes: right, or reported
	head := "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\n"
	odd := []string{
		`{"apiVersion": "apiextensions.k8s.io/v1", "kind": "CustomResourceDefinition", "spec": {"group": "g.io", "names": {"kind": "Foo"}, "versions": [{"name": "v1", "schema": {"openAPIV3Schema": {"type": "object"}}}, {"name": "v2"}]}}`,
		"{\n  \"apiVersion\": \"apiextensions.k8s.io/v1\",\n  \"kind\": \"CustomResourceDefinition\",\n  \"spec\": {\n    \"group\": \"g.io\", \"names\": {\"kind\": \"Foo\"},\n    \"versions\": [{\"name\": \"v2\"}]\n  }\n}\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1}, {name: v2, schema: {}}]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1}, {served: true}]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1}, {name: \"\"}]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1}, {name: }]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1}, null]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1}, {name: 1}]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1}, {name: [v2]}]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1}, v2]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1, schema: text}]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1, schema: [1]}]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1, schema: {openAPIV3Schema: text}}]\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: {name: v1}\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions:\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: []\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions: v1\n",
		head + "spec:\n  group: g.io\n  names:\n",
		head + "spec: text\n", head + "spec:\n", head,
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  validation: text\n  versions: [{name: v1}]\n",
		head + "common: &c {name: v1, served: true}\nspec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v2}, *c]\n",
		head + "common: &c {name: v1, served: true}\nspec:\n  group: g.io\n  names: {kind: Foo}\n  versions: [*c]\n",
		head + "common: &c {name: v1, served: true}\nspec:\n  group: g.io\n  names: {kind: Foo}\n  versions:\n  - <<: *c\n    storage: true\n  - name: v2\n",
		head + "common: &c [{name: v1, served: true}]\nspec:\n  group: g.io\n  names: {kind: Foo}\n  versions: *c\n",
		head + "common: &c\n  group: g.io\n  names: {kind: Foo}\n  versions: [{name: v1}]\nspec: *c\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions:\n  - name: v1\n    schema: &s\n      openAPIV3Schema: {type: object}\n  - name: v2\n    schema: *s\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions:\n  - name: v1\n    schema:\n      openAPIV3Schema: &s {type: object}\n  - name: v2\n    schema:\n      openAPIV3Schema: *s\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions:\n  - name: v1\n    schema:\n      openAPIV3Schema: &s {type: object}\n  - name: v2\n    old: *s\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions:\n  - name: v2\n    schema:\n      openAPIV3Schema:\n        x: &s {type: object}\n  - name: v1\n    old: *s\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  validation: &s {}\n  versions:\n  - name: v2\n  - name: v1\n    old: *s\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  versions:\n  - &n name: v1\n    *n : v2\n",
		head + "spec:\n  group: g.io\n  names: {kind: Foo}\n  names: {kind: Bar}\n  versions: [{name: v1}]\n",
		"apiVersion: apiextensions.k8s.io/v1beta1\nkind: CustomResourceDefinition\nspec: {group: g.io}\n",
		"apiVersion: 1\nkind: CustomResourceDefinition\n", "kind: CustomResourceDefinition\n",
		"- apiVersion: apiextensions.k8s.io/v1\n", "text", "", "\n", "---\n", "# only a comment\n", "a: [", "\t", "a: b: c\n", "\xff\xfe",
	}
	for _, c := range all {
		for i, text := range odd {
			if d := documents(text); len(d) > 0 && !stable(text) {
				continue
			}
			try(r, fmt.Sprintf("B odd %s %d", c.name, i), c, plain, manifests{"crd.yaml": text}, rightOrNo)
		}
	}
	r.Count("comment_layouts_the_yaml_library_does_not_keep", unstable)
}

// encode writes the documents with the YAML library alone.
func encode(text string) (string, bool) {
	var docs []*yaml.Node
	dec := yaml.NewDecoder(strings.NewReader(text))
	for {
		n := &yaml.Node{}
		if err := dec.Decode(n); err != nil {
			if err.Error() != "EOF" {
				return "", false
			}
			break
		}
		docs = append(docs, n)
	}
	var b strings.Builder
	enc := yaml.NewEncoder(&b)
	enc.SetIndent(2)
	for _, d := range docs {
		if enc.Encode(d) != nil {
			return "", false
		}
	}
	return b.String(), enc.Close() == nil
}

// stable tells whether the YAML library itself keeps the text; what it does
// not keep is no concern of the generator.
func stable(text string) bool {
	once, ok := encode(text)
	twice, ok2 := encode(once)
	a, b := documents(text), documents(once)
	if !ok || !ok2 || once != twice || len(a) != len(b) {
		return false
	}
	for i := range a {
		if rest(a[i], false) != rest(b[i], false) {
			return false
		}
	}
	return true
}

// partC puts several files into the directory.
func partC(r *mc.Run, all []*code) {
	crdOf := func(group, kind string, versions ...string) string {
		t := crdText{group: group, kind: kind}
		for _, v := range versions {
			t.versions = append(t.versions, verText{v, forms[1]})
		}
		return t.String()
	}
	foo1, foo2, bar := crdOf("g.io", "Foo", "v1"), crdOf("g.io", "Foo", "v2", "v9"), crdOf("g.io", "Bar", "v1")
	conf := "apiVersion: v1\nkind: ConfigMap\nmetadata: {name:   x}\ndata: {a: b} # c\n"
	list := "apiVersion: v1\nkind: List\nitems: []\n"
	type file struct{ name, text string }
	files := []file{
		{"foo.yaml", foo1},
		{"foo2.yaml", foo2},
		{"a-foo.yaml", crdOf("g.io", "Foo", "v2", "v1")},
		{"bar.yaml", bar},
		{"other.yaml", crdOf("o.io", "Foo", "v1")},
		{"h.yaml", crdOf("h.io", "Foo", "v1")},
		{"none.yaml", crdText{group: "g.io", kind: "Foo"}.String()},
		{"conf.yaml", conf},
		{"bad.yaml", "a: ["},
		{"empty.yaml", ""},
		{"old.yaml", "apiVersion: apiextensions.k8s.io/v1beta1\nkind: CustomResourceDefinition\nmetadata: {name: x}\n"},
		{"foo.yml", foo1},
		{"readme.txt", "text"},
		{"dir.yaml/", ""},
		{"both.yaml", foo1 + "---\n" + bar},
		{"mixed.yaml", conf + "---\n" + foo2 + "---\n" + list},
		{"tail.yaml", foo1 + "---\n# nothing\n"},
		{"lead.yaml", "# first\n---\n" + foo2},
		{"split.yaml", foo1 + "---\n" + foo2},
		{"oldlast.yaml", conf + "---\napiVersion: apiextensions.k8s.io/v1beta1\nkind: CustomResourceDefinition\nmetadata: {name: x}\n"},
		{"badlast.yaml", foo1 + "---\na: [\n"},
	}
	some := []*code{all[0], all[2], all[4], all[9]}
	max := 2
	if r.Thorough {
		max = 3
	}
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		in := manifests{}
		how := exact
		for _, i := range cur {
			in[files[i].name] = files[i].text
			switch files[i].name {
			case "badlast.yaml", "none.yaml":
				how = rightOrNo
			}
		}
		for _, c := range some {
			try(r, fmt.Sprintf("C %s %v", c.name, cur), c, plain, in, how)
			if len(cur) == 2 && c == all[2] && cur[1] < 7 {
				orders(r, fmt.Sprintf("C %s %v map orders", c.name, cur), c, in)
			}
		}
		if len(cur) == max {
			return
		}
		for i := from; i < len(files); i++ {
			rec(i+1, append(append([]int{}, cur...), i))
		}
	}
	rec(0, nil)
	r.Case("missing directory", "", true, func() string {
		out := patch(all[0], plain, filepath.Join(r.Scratch, "no such directory"))
		if out.Panic != "" || !out.Failed() || len(out.Files) > 0 {
			return "not reported: " + out.String()
		}
		return ""
	})
}

// orders explores the orders of maps.
func orders(r *mc.Run, key string, c *code, in manifests) {
	if r.Expired() || !r.Mine() {
		return
	}
	r.Case(key, c.name+"\n"+in.String(), true, func() string {
		dir := filepath.Join(r.Scratch, "manifests")
		in.write(dir)
		want, msg := "", ""
		bound, max := 1, 200
		if r.Thorough {
			bound, max = 2, 20000
		}
		res := rt.Explore(bound, max, func(*rt.Choices) bool {
			r.Transition(1)
			got := patch(c, plain, dir).String()
			if want == "" {
				want = got
			}
			if got != want {
				msg = "map order changes the result from\n" + want + "\nto\n" + got
			}
			return msg == ""
		})
		r.Count("map_orders", res.Executions)
		return msg
	})
}

// partD patches again after the code changed.
func partD(r *mc.Run, all []*code) {
	some := []*code{all[0], all[1], all[2], all[3], all[6], all[9]}
	mk := func(vs ...verText) string { return crdText{"g.io", "Foo", vs, true}.String() }
	starts := []manifests{
		{"a.yaml": mk(verText{"v1", ""})},
		{"a.yaml": mk(verText{"v1", forms[1]}, verText{"v2", ""})},
		{"a.yaml": mk(verText{"v2", "    # about the schema\n" + forms[1]}, verText{"v9", forms[1]}, verText{"v1", forms[2]})},
		{"a.yaml": mk(verText{"v1", ""}), "b.yaml": mk(verText{"v2", forms[1]})},
		{"a.yaml": "# c\n" + mk(verText{"v1", ""}, verText{"v2", forms[6]}) + "---\nx: y\n"},
	}
	depth := 3
	if r.Thorough {
		depth = 4
	}
	for si, start := range starts {
		var rec func(cur []int)
		rec = func(cur []int) {
			if len(cur) > 1 && !r.Expired() && r.Mine() {
				r.Case(fmt.Sprintf("D %d %v", si, cur), start.String(), true, func() string {
					m := start
					for n, i := range cur {
						msg, after := step(r, some[i], plain, m, exact)
						if msg != "" {
							return fmt.Sprintf("step %d: %s", n, msg)
						}
						m = after
					}
					// the schemas do not depend on what was there before
					return ""
				})
			}
			if len(cur) == depth {
				return
			}
			for i := range some {
				if len(cur) > 0 && cur[len(cur)-1] == i {
					continue
				}
				rec(append(append([]int{}, cur...), i))
			}
		}
		rec(nil)
	}
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C18" {
		os.Exit(2)
	}
	reg = &markers.Registry{}
	if err := (schemapatcher.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
	mc.Main(mc.Spec{Property: "C18", Body: body,
		Rule:        "every list of up to three versions with every form of existing schema against every state of the code, every key order, comments at every one and two places, every two decorations, every one and two (thorough: three) of 21 files in a directory with map orders, and every sequence of up to three (four) code states; each result patched again; non-trivial: every case",
		Assumptions: []string{"the CRD generator's own output for the same code gives the expected schemas", "comment layouts that the YAML library itself does not keep are left out and counted"}})
}
