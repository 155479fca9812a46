// C24: scaffolded types are valid, complete input for the generators.
//
// Kind names and options are enumerated; what the scaffolder prints is put
// into a package, type-checked, and sent through the generators for CRDs and
// deep copies.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/gobuffalo/flect"
	"sigs.k8s.io/yaml"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/typescaffold"
	"sigs.k8s.io/controller-tools/verifmc/genrun"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

var (
	w      *world.World
	crdReg *markers.Registry
	cpReg  *markers.Registry
	warm   *genrun.Warm
)

// input is one use of the scaffolder.
type input struct {
	kind, resource string
	namespaced     bool
	help           string
	clients        bool
}

func (in input) String() string {
	return fmt.Sprintf("kind %q resource %q namespaced %v help %q clients %v", in.kind, in.resource, in.namespaced, in.help, in.clients)
}

var (
	kindRE     = regexp.MustCompile(`^[A-Z][A-Za-z0-9]*$`)
	resourceRE = regexp.MustCompile(`^[a-z]([-a-z0-9]*[a-z0-9])?$`)
)

// invalid names can be no kind or resource of an API.
func (in input) invalid() string {
	switch {
	case !kindRE.MatchString(in.kind) || len(in.kind) > 63:
		return "the kind"
	case in.resource != "" && (!resourceRE.MatchString(in.resource) || len(in.resource) > 63):
		return "the resource"
	}
	return ""
}

// scaffold runs the scaffolder.
func scaffold(in input) (text, resource string, err error, msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	opts := typescaffold.ScaffoldOptions{
		Resource:       typescaffold.Resource{Namespaced: in.namespaced, Kind: in.kind, Resource: in.resource},
		AdditionalHelp: in.help, GenerateClients: in.clients,
	}
	if err := opts.Validate(); err != nil {
		return "", "", err, ""
	}
	var out bytes.Buffer
	if err := opts.Scaffold(&out); err != nil {
		return "", "", nil, "Scaffold fails: " + err.Error()
	}
	return out.String(), opts.Resource.Resource, nil, ""
}

const metaPath = "k8s.io/apimachinery/pkg/apis/meta/v1"
const runtimePath = "k8s.io/apimachinery/pkg/runtime"

// stubs are enough of the libraries for type-checking.
var stubs = map[string]string{
	runtimePath: "package runtime\n\ntype Object interface {\n\tGetObjectKind() int\n\tDeepCopyObject() Object\n}\n",
	metaPath:    "package v1\n\ntype TypeMeta struct{ Kind string }\n\nfunc (*TypeMeta) GetObjectKind() int { return 0 }\n\ntype ObjectMeta struct{ Name string }\n\nfunc (in *ObjectMeta) DeepCopyInto(out *ObjectMeta) {}\n\ntype ListMeta struct{ Name string }\n\nfunc (in *ListMeta) DeepCopyInto(out *ListMeta) {}\n",
}

type importer map[string]*types.Package

func (m importer) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

func compile(m importer, path string, files ...string) string {
	fset := token.NewFileSet()
	var fs []*ast.File
	for _, text := range files {
		f, err := parser.ParseFile(fset, "f.go", text, parser.SkipObjectResolution)
		if err != nil {
			return err.Error()
		}
		fs = append(fs, f)
	}
	msg := ""
	cfg := types.Config{Importer: m, Error: func(err error) {
		if msg == "" {
			msg = err.Error()
		}
	}}
	p, _ := cfg.Check(path, fset, fs, nil)
	m[path] = p
	return msg
}

var libs = func() importer {
	m := importer{}
	for _, p := range []string{runtimePath, metaPath} {
		if msg := compile(m, p, stubs[p]); msg != "" {
			panic(msg)
		}
	}
	return m
}()

// boilerplate is what people put around the types.
var boilerplate = []string{
	"// +groupName=g.io\n// +kubebuilder:object:generate=true\npackage v1\n\nimport metav1 \"" + metaPath + "\"\n\n",
	"// Package v1 is documented.\n// +k8s:deepcopy-gen=package\n// +groupName=g.io\npackage v1\n\nimport (\n\tmetav1 \"" + metaPath + "\"\n)\n\nvar _ = metav1.TypeMeta{}\n\n",
}

// generate runs a generator over the package.
func generate(g genall.Generator, text string, c *markers.Collector) (genrun.Outcome, error) {
	p, err := w.Pkg("ex.com/v1", "v1", text)
	if err != nil {
		return genrun.Outcome{}, err
	}
	ctx := &genall.GenerationContext{
		Collector: c, Roots: []*loader.Package{p}, InputRule: genrun.Input{},
		Checker: &loader.TypeChecker{},
	}
	if f, ok := g.(genall.NeedsTypeChecking); ok {
		ctx.Checker.NodeFilters = []loader.NodeFilter{f.CheckFilter()}
	}
	return genrun.Run(g, ctx, []*loader.Package{p}), nil
}

// described are the lines of the comments in the struct of a name.
func described(text, name string) ([]string, string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "f.go", text, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err.Error()
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || len(gd.Specs) != 1 {
			continue
		}
		ts, ok := gd.Specs[0].(*ast.TypeSpec)
		if !ok || ts.Name.Name != name {
			continue
		}
		var lines []string
		for _, cg := range f.Comments {
			if cg.Pos() > ts.Pos() && cg.End() < ts.End() {
				for _, c := range cg.List {
					lines = append(lines, strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " "))
				}
			}
		}
		return lines, ""
	}
	return nil, "no type " + name
}

// names are the declared types.
func names(text string) ([]string, string) {
	f, err := parser.ParseFile(token.NewFileSet(), "f.go", text, parser.SkipObjectResolution)
	if err != nil {
		return nil, err.Error()
	}
	var out []string
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
			for _, s := range gd.Specs {
				out = append(out, s.(*ast.TypeSpec).Name.Name)
			}
		}
	}
	sort.Strings(out)
	return out, ""
}

// complete checks that a scaffolded text is valid, complete input.
func complete(in input, text, resource string, plate int) string {
	k := in.kind
	source := boilerplate[plate] + text
	if in.resource != "" && resource != in.resource {
		return fmt.Sprintf("the resource becomes %q", resource)
	}
	if want := flect.Pluralize(strings.ToLower(k)); in.resource == "" && resource != want {
		return fmt.Sprintf("the resource becomes %q instead of %q", resource, want)
	}
	if !resourceRE.MatchString(resource) {
		return fmt.Sprintf("%q can be no resource", resource)
	}
	got, msg := names(source)
	if msg != "" {
		return msg + "\n" + source
	}
	// the markers for generators of clients
	clients := map[string]bool{}
	for _, l := range strings.Split(source, "\n") {
		if l, ok := strings.CutPrefix(strings.TrimSpace(l), "// +genclient"); ok {
			clients[l] = true
		}
	}
	if clients[""] != in.clients || clients[":nonNamespaced"] != (in.clients && !in.namespaced) || len(clients) > 2 {
		return fmt.Sprintf("the markers for clients are %v\n%s", clients, source)
	}
	want := []string{k, k + "List", k + "Spec", k + "Status"}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("declares %q instead of %q", got, want)
	}
	for _, part := range []string{k + "Spec", k + "Status"} {
		lines, msg := described(source, part)
		if msg != "" {
			return msg
		}
		if in.help == "" {
			if len(lines) != 1 {
				return fmt.Sprintf("the comments of %s are %q", part, lines)
			}
		} else if want := strings.Split(in.help, "\n"); len(lines) != 1+len(want) || !same(lines[1:], want) {
			return fmt.Sprintf("the comments of %s are %q for the help %q", part, lines, in.help)
		}
	}
	m := importer{}
	for p, t := range libs {
		m[p] = t
	}
	if msg := compile(m, "ex.com/v1", source); msg != "" {
		return "does not compile: " + msg + "\n" + source
	}
	if msg := structure(m["ex.com/v1"], k); msg != "" {
		return msg
	}
	// the CRD
	o, err := generate(crd.Generator{}, source, warm.Collector())
	if err != nil {
		return err.Error()
	}
	if o.Panic != "" || o.Failed() {
		return "the CRD generator fails: " + o.Panic + strings.Join(o.Errs, "; ")
	}
	if msg := crdOf(in, resource, o.Files); msg != "" {
		return msg + "\n" + o.String()
	}
	// deep copies
	o, err = generate(deepcopy.Generator{}, source, &markers.Collector{Registry: cpReg})
	if err != nil {
		return err.Error()
	}
	if o.Panic != "" || o.Failed() {
		return "the deepcopy generator fails: " + o.Panic + strings.Join(o.Errs, "; ")
	}
	if len(o.Files) != 1 {
		return fmt.Sprintf("%d files of deep copies", len(o.Files))
	}
	for _, t := range o.Files {
		objects := "package v1\n\nimport \"" + runtimePath + "\"\n\nvar _ = []runtime.Object{&" + k + "{}, &" + k + "List{}}\n\nvar _ = (&" + k + "Spec{}).DeepCopy\n\nvar _ = (&" + k + "Status{}).DeepCopy\n"
		if msg := compile(m, "ex.com/v1", source, t, objects); msg != "" {
			return "does not compile with the deep copies: " + msg + "\n" + t
		}
	}
	return ""
}

func same(a, b []string) bool {
	for i := range a {
		if strings.TrimRight(a[i], " ") != strings.TrimRight(b[i], " ") {
			return false
		}
	}
	return true
}

// structure checks the fields.
func structure(p *types.Package, k string) string {
	for name, want := range map[string]string{
		k:          "TypeMeta *v1.TypeMeta `json:\",inline\"`|ObjectMeta *v1.ObjectMeta `json:\"metadata,omitempty\"`|Spec v1." + k + "Spec `json:\"spec,omitempty\"`|Status v1." + k + "Status `json:\"status,omitempty\"`",
		k + "List": "TypeMeta *v1.TypeMeta `json:\",inline\"`|ListMeta *v1.ListMeta `json:\"metadata,omitempty\"`|Items []v1." + k + " `json:\"items\"`",
	} {
		st, ok := p.Scope().Lookup(name).Type().Underlying().(*types.Struct)
		if !ok {
			return name + " is no struct"
		}
		var got []string
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			e := ""
			if f.Embedded() {
				e = "*"
			}
			got = append(got, fmt.Sprintf("%s %s%s `%s`", f.Name(), e, types.TypeString(f.Type(), func(p *types.Package) string { return p.Name() }), st.Tag(i)))
		}
		if strings.Join(got, "|") != want {
			return fmt.Sprintf("%s is %s", name, strings.Join(got, "|"))
		}
	}
	return ""
}

func crdOf(in input, resource string, files map[string]string) string {
	if len(files) != 1 {
		return fmt.Sprintf("%d CRDs", len(files))
	}
	for name, text := range files {
		if want := "g.io_" + resource + ".yaml"; name != want {
			return "the CRD is in " + name + " instead of " + want
		}
		var c struct {
			Metadata struct{ Name string }
			Spec     struct {
				Group    string
				Scope    string
				Names    struct{ Kind, ListKind, Plural, Singular string }
				Versions []struct {
					Name            string
					Served, Storage bool
					Schema          struct {
						OpenAPIV3Schema struct {
							Type       string
							Properties map[string]struct{ Type string }
						}
					}
				}
			}
		}
		if err := yaml.Unmarshal([]byte(text), &c); err != nil {
			return err.Error()
		}
		scope := "Cluster"
		if in.namespaced {
			scope = "Namespaced"
		}
		n := c.Spec.Names
		switch {
		case c.Metadata.Name != resource+".g.io":
			return "the CRD is called " + c.Metadata.Name
		case n.Kind != in.kind || n.ListKind != in.kind+"List" || n.Plural != resource || n.Singular != strings.ToLower(in.kind):
			return fmt.Sprintf("the CRD has the names %+v for the resource %s", n, resource)
		case c.Spec.Scope != scope:
			return fmt.Sprintf("the CRD has the scope %s", c.Spec.Scope)
		case len(c.Spec.Versions) != 1 || c.Spec.Versions[0].Name != "v1":
			return "wrong versions"
		}
		var props []string
		for p, t := range c.Spec.Versions[0].Schema.OpenAPIV3Schema.Properties {
			props = append(props, p+" "+t.Type)
		}
		sort.Strings(props)
		if got := strings.Join(props, ", "); got != "apiVersion string, kind string, metadata object, spec object, status object" {
			return "the schema has " + got
		}
	}
	return ""
}

// check tries an input; sound inputs must be accepted.
func check(r *mc.Run, in input, sound bool, plate int) {
	if !r.Mine() || r.Expired() {
		return
	}
	r.State(in.String())
	r.Case(in.String(), in.String(), in.invalid() == "", func() string {
		text, resource, err, msg := scaffold(in)
		r.Transition(1)
		if msg != "" {
			return msg
		}
		bad := in.invalid()
		if err != nil {
			r.Outcome("rejected")
			if sound {
				return "rejected: " + err.Error()
			}
			return ""
		}
		if bad != "" {
			return bad + " is accepted"
		}
		r.Outcome(resource)
		return complete(in, text, resource, plate)
	})
}

var words = []string{"Foo", "Job", "Bus", "Policy", "Box", "Sheep", "Data", "Class", "Status", "Spec", "List", "Meta", "Person", "Day", "Hero", "Type", "Key", "Fish", "Child", "Index", "Series", "News"}

var helps = []string{"", "help", "two\nlines", "trailing\n", "\nleading", "a\n\nb", "`quote` */ \"x\" // %s %d {{.Resource}} \\n", "  indented\n\ttab", "é世界"}

var resources = []string{"", "foos", "x", "foo-bars", "f00", "kinds", "a-b-c", strings.Repeat("r", 63),
	"Foos", "foo bar", "a/b", "a.b", "foos\nbars", "-a", "a-", "1a", "a,scope=Cluster", "a\"b", "`", "é", "_", "a_b", " a", "a ", strings.Repeat("r", 64), "\n}", "{{.}}"}

func body(r *mc.Run) {
	// names over letters
	alphabet := "ABaz0_- .é"
	max := 3
	if r.Thorough {
		max = 4
	}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		for _, ns := range []bool{true, false} {
			check(r, input{kind: s, namespaced: ns}, false, n%2)
		}
		if n == max {
			return
		}
		for _, c := range alphabet {
			rec(s+string(c), n+1)
		}
	}
	rec("", 0)
	// words, and words between and around others
	for _, a := range words {
		check(r, input{kind: a}, true, 0)
		for _, b := range words {
			for _, ns := range []bool{true, false} {
				check(r, input{kind: a + b, namespaced: ns}, true, 1)
			}
			for _, sep := range []string{"_", "-", " ", ".", "/", "\n", ":", "\t", "é", "'", "`", "{}", "0", "É"} {
				check(r, input{kind: a + sep + b, namespaced: true}, false, 0)
			}
			check(r, input{kind: strings.ToLower(a) + b}, false, 0)
			check(r, input{kind: strings.ToUpper(a) + b}, false, 0)
			check(r, input{kind: a + strings.ToLower(b)}, false, 0)
			check(r, input{kind: a + strings.ToUpper(b)}, false, 0)
			if r.Thorough {
				for _, c := range words {
					check(r, input{kind: a + b + c, namespaced: true}, true, 0)
				}
			}
		}
	}
	for _, k := range []string{"Type", "String", "Int", "Func", "Interface", "Error", "Any", "TypeMeta", "ObjectMeta", "ListMeta", "Object", "Scheme", "Metav1", "Kind", "HTTPServer", "IDMapper", "UserID", "UserId", "K8sThing", "V1", "X509Cert", "IPv4", strings.Repeat("Ab", 31), strings.Repeat("Ab", 32), strings.Repeat("Ab", 100), "ẞa", "Ǆx", "𝐀b", "Foo\x00", "Foo\xff"} {
		for _, ns := range []bool{true, false} {
			check(r, input{kind: k, namespaced: ns}, false, 0)
		}
	}
	// every combination of the options
	for _, k := range []string{"Foo", "Policy", "FooBar", "Sheep"} {
		for _, res := range resources {
			for _, h := range helps {
				for i := 0; i < 8; i++ {
					in := input{kind: k, resource: res, help: h, namespaced: i&1 == 0, clients: i&2 == 0}
					check(r, in, in.invalid() == "", i>>2)
				}
			}
		}
	}
	r.Sample("kind Foo, resource foo-bars, in no namespace, with clients: the CRD foo-bars.g.io of the scope Cluster")
	failing(r)
	commands(r)
}

type limited struct{ n int }

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.n {
		n := l.n
		l.n = 0
		return n, errors.New("no more")
	}
	l.n -= len(p)
	return len(p), nil
}

// failing writers are reported, whenever they fail.
func failing(r *mc.Run) {
	opts := typescaffold.ScaffoldOptions{Resource: typescaffold.Resource{Kind: "Foo", Resource: "foos", Namespaced: true}, AdditionalHelp: "a\nb"}
	var out bytes.Buffer
	_ = opts.Scaffold(&out)
	for n := 0; n <= out.Len(); n++ {
		if !r.Mine() {
			continue
		}
		r.Case(fmt.Sprintf("writer fails after %d bytes", n), fmt.Sprint(n), true, func() string {
			r.Transition(1)
			err := opts.Scaffold(&limited{n})
			if (err != nil) != (n < out.Len()) {
				return fmt.Sprintf("Scaffold returns %v with %d bytes of room for %d", err, n, out.Len())
			}
			return ""
		})
	}
}

// commands: the command prints what the library does, and nothing for
// invalid names.
func commands(r *mc.Run) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	bin := filepath.Join(filepath.Dir(self), "type-scaffold")
	type run struct {
		args []string
		in   *input // nil: is to be rejected
	}
	var runs []run
	add := func(in *input, args ...string) { runs = append(runs, run{args, in}) }
	for _, k := range []string{"Foo", "Policy", "FooBar", "Foo_bar", "foo", "", "Foo bar", "1a", "É"} {
		for _, res := range []string{"-", "", "foos", "bars", "a b", "Foos", "a\nb"} {
			for _, ns := range []string{"", "--namespaced", "--namespaced=true", "--namespaced=false"} {
				in := &input{kind: k, namespaced: ns != "--namespaced=false"}
				args := []string{"--kind", k}
				if res != "-" {
					in.resource = res
					args = append(args, "--resource="+res)
				}
				if ns != "" {
					args = append(args, ns)
				}
				if in.invalid() != "" {
					in = nil
				}
				add(in, args...)
			}
		}
	}
	for _, args := range [][]string{{}, {"--resource", "foos"}, {"--namespaced=maybe", "--kind=Foo"}, {"--kind"}, {"--bogus", "--kind=Foo"}} {
		add(nil, args...)
	}
	for i, c := range runs {
		if !r.Mine() {
			continue
		}
		key := fmt.Sprintf("type-scaffold %q", c.args)
		r.Case(key, key, c.in != nil, func() string {
			r.Transition(1)
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			cmd := exec.CommandContext(ctx, bin, c.args...)
			cmd.Dir = r.Scratch
			var stdout, stderr bytes.Buffer
			cmd.Stdout, cmd.Stderr = &stdout, &stderr
			if err := cmd.Run(); err != nil && cmd.ProcessState == nil {
				return err.Error()
			}
			code := cmd.ProcessState.ExitCode()
			if c.in == nil {
				if code != 1 || stdout.Len() > 0 || stderr.Len() == 0 || strings.Contains(stderr.String(), "goroutine ") {
					return fmt.Sprintf("not a reported failure (%d): %s / %s", code, stdout.String(), stderr.String())
				}
				return ""
			}
			want, resource, err, msg := scaffold(*c.in)
			if err != nil || msg != "" {
				return fmt.Sprint(err, msg)
			}
			if code != 0 || stderr.Len() > 0 {
				return fmt.Sprintf("fails (%d): %s", code, stderr.String())
			}
			if stdout.String() != want {
				return "prints something else than the library: " + stdout.String()
			}
			return complete(*c.in, stdout.String(), resource, i%2)
		})
	}
	if r.Mine() {
		r.Case("output is full", "", true, func() string {
			full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				return ""
			}
			defer full.Close()
			cmd := exec.Command(bin, "--kind", "Foo")
			cmd.Stdout = full
			if err := cmd.Run(); err == nil {
				return "reports success without an output"
			}
			return ""
		})
	}
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C24" {
		os.Exit(2)
	}
	crdReg, cpReg = &markers.Registry{}, &markers.Registry{}
	if err := (crd.Generator{}).RegisterMarkers(crdReg); err != nil {
		panic(err)
	}
	if err := (deepcopy.Generator{}).RegisterMarkers(cpReg); err != nil {
		panic(err)
	}
	mc.Main(mc.Spec{Property: "C24", Body: func(r *mc.Run) {
		w = world.Must(metaPath, runtimePath, "fmt")
		warm = genrun.NewWarm(w, crdReg)
		body(r)
	},
		Rule:        "all names of up to three (thorough: four) letters of ten, all pairs (thorough: also triples) of twenty-two words and pairs with separators and other cases; all combinations of resources, help texts, scope and clients for four kinds; every failing write; the command with all its options; non-trivial: valid names",
		Assumptions: []string{"a kind is valid if it is an exported Go name of ASCII letters and digits of up to 63 characters, a resource if it is a DNS label that starts with a letter", "the libraries are stand-ins when the types are compiled; the generators see the real ones", "which spellings of acronyms are accepted is left to the scaffolder"}})
}
