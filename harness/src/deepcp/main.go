// C21: generated deep copies.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/verifmc/genrun"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

var (
	w   *world.World
	reg *markers.Registry
)

const output = "zz_generated.deepcopy.go"

// source is one package in memory.
type source struct {
	path, name string
	files      []string
}

// generate runs the generator for the last package.
func generate(srcs []source, g deepcopy.Generator, input genrun.Input) (genrun.Outcome, error) {
	var pkgs []*loader.Package
	defer func() {
		for _, s := range srcs {
			w.Forget(s.path)
		}
	}()
	for _, s := range srcs {
		p, err := w.Pkg(s.path, s.name, s.files...)
		if err != nil {
			return genrun.Outcome{}, err
		}
		world.Link(p, pkgs...)
		w.Importable(p)
		pkgs = append(pkgs, p)
	}
	ctx := &genall.GenerationContext{
		Collector: &markers.Collector{Registry: reg},
		Roots:     pkgs[len(pkgs)-1:],
		Checker:   &loader.TypeChecker{NodeFilters: []loader.NodeFilter{g.CheckFilter()}},
		InputRule: input,
	}
	return genrun.Run(g, ctx, pkgs), nil
}

// compiled checks sources with go/types alone.
type compiled struct {
	fset *token.FileSet
	pkgs map[string]*types.Package
	errs []string
}

func newCompiled() *compiled {
	return &compiled{fset: token.NewFileSet(), pkgs: map[string]*types.Package{"unsafe": types.Unsafe}}
}

func (c *compiled) Import(path string) (*types.Package, error) {
	if p := c.pkgs[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

func (c *compiled) add(path string, files ...string) string {
	var fs []*ast.File
	for i, text := range files {
		f, err := parser.ParseFile(c.fset, fmt.Sprintf("%s/f%d.go", path, i), text, parser.SkipObjectResolution)
		if err != nil {
			return err.Error()
		}
		fs = append(fs, f)
	}
	msg := ""
	cfg := types.Config{Importer: c, GoVersion: "go1.24", Error: func(err error) {
		if msg == "" {
			msg = err.Error()
		}
	}}
	p, _ := cfg.Check(path, c.fset, fs, nil)
	c.pkgs[path] = p
	return msg
}

// part gives the methods of the named types in generated code, as a file of
// its own, and the names of all types with methods.
func part(text string, own func(name string) bool) (string, map[string][]string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", text, parser.SkipObjectResolution)
	if err != nil {
		return "", nil, err
	}
	methods := map[string][]string{}
	var decls []ast.Decl
	used := map[string]bool{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fd.Recv == nil {
			return "", nil, fmt.Errorf("function %s", fd.Name.Name)
		}
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if ix, ok := t.(*ast.IndexExpr); ok {
			t = ix.X
		}
		name := t.(*ast.Ident).Name
		methods[name] = append(methods[name], fd.Name.Name)
		if !own(name) {
			continue
		}
		decls = append(decls, fd)
		ast.Inspect(fd, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := se.X.(*ast.Ident); ok {
					used[x.Name] = true
				}
			}
			return true
		})
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n", f.Name.Name)
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		if used[name] {
			fmt.Fprintf(&b, "import %s %q\n", name, path)
		}
	}
	for _, d := range decls {
		b.WriteString("\n")
		if err := printer.Fprint(&b, fset, d); err != nil {
			return "", nil, err
		}
		b.WriteString("\n")
	}
	return b.String(), methods, nil
}

// entry is a case whose code is to be executed.
type entry struct {
	index   int
	key     string
	decl    string // source of the case
	gen     string
	counted bool
	nils    bool
}

var (
	libFile string // what every case finds in its own package
	libGen  string // generated for it alone
	depGen  string
	batch   []entry
	base    *compiled
)

func body(r *mc.Run) {
	w = world.Must("errors")
	reg = &markers.Registry{}
	if err := (deepcopy.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
	libFile = strings.Replace(depSrc, "package dep", "package p", 1) + libExtra
	prepare(r)
	shapes(r)
	execute(r)
	selection(r)
	names(r)
	r.Sample(`type T struct { F map[string][]*MV ` + "`json:\"f\"`" + ` }`)
}

var (
	runtimePkg = source{"k8s.io/apimachinery/pkg/runtime", "runtime", []string{runtimeSrc}}
	depPkg     = source{"ex.com/dep", "dep", []string{depSrc}}
)

// prepare generates the code of the other package and of what cases use.
func prepare(r *mc.Run) {
	base = newCompiled()
	if msg := base.add(runtimePkg.path, runtimeSrc); msg != "" {
		panic(msg)
	}
	for _, s := range []source{depPkg, {"ex.com/p", "p", []string{libFile}}} {
		o, err := generate([]source{runtimePkg, s}, deepcopy.Generator{}, nil)
		if err != nil {
			panic(err)
		}
		text := o.Files[s.path+"/"+output]
		key := "library " + s.name
		if s.name == "dep" {
			depGen = text
		} else {
			libGen = text
		}
		bad := ""
		if o.Failed() || o.Panic != "" {
			bad = o.String()
		} else if msg := base.add(s.path, s.files[0], text); msg != "" {
			bad = msg
		}
		if r.Shard == 0 {
			r.Case(key, s.files[0], true, func() string { return bad })
		}
		if bad != "" && s.name == "p" {
			libGen = ""
		}
	}
	delete(base.pkgs, "ex.com/p")
}

// try generates the code of one case, checks that it compiles, and queues it.
func try(r *mc.Run, key, decl string, mustWork, counted, plain bool) {
	r.Case(key, decl, true, func() string {
		uses := ""
		if strings.Contains(decl, "dep.") {
			uses = "import \"ex.com/dep\"\n\n"
		}
		file := "package p\n\n" + uses + decl
		o, err := generate([]source{runtimePkg, depPkg, {"ex.com/p", "p", []string{libFile, file}}}, deepcopy.Generator{}, nil)
		if err != nil {
			panic(decl + err.Error())
		}
		r.Transition(1)
		if o.Panic != "" {
			return o.Panic
		}
		if o.Failed() {
			r.State("reported " + key)
			r.Outcome(strings.Join(o.Errs, " "))
			if mustWork {
				return "is not supported: " + strings.Join(o.Errs, " | ")
			}
			return ""
		}
		text := o.Files["ex.com/p/"+output]
		gen, methods, err := part(text, func(n string) bool { return n == "T" || strings.HasPrefix(n, "T_") })
		if err != nil {
			return "generated code: " + err.Error() + "\n" + text
		}
		libOnly, _, err := part(text, func(n string) bool { return n != "T" && !strings.HasPrefix(n, "T_") })
		if err != nil {
			return err.Error()
		}
		if want, _, _ := part(libGen, func(string) bool { return true }); libOnly != want {
			return "the code of other types depends on this one:\n" + libOnly + "\ninstead of\n" + want
		}
		c := newCompiled()
		for k, v := range base.pkgs {
			c.pkgs[k] = v
		}
		c.fset = base.fset
		c.fset = token.NewFileSet()
		if msg := c.add("ex.com/p", libFile, file, text); msg != "" {
			return "the generated code does not compile: " + msg + "\n" + gen
		}
		got := strings.Join(methods["T"], " ")
		if got == "" && plain {
			return ""
		}
		if got != "DeepCopyInto DeepCopy" {
			return "generated methods: " + got
		}
		r.State(gen)
		i := len(batch)
		if i > 0 && batch[i-1].key == key {
			return ""
		}
		batch = append(batch, entry{index: i, key: key, decl: uses + decl, gen: gen, counted: counted, nils: strings.HasPrefix(key, "nil ")})
		return ""
	})
}

// basics are the types of which named ones need no methods (or can have none).
var basics = map[string]bool{"string": true, "int": true, "bool": true, "float64": true, "complex64": true, "uintptr": true, "byte": true,
	"B": true, "AS": true, "MBs": true, "dep.B": true, "dep.AS": true, "P": true, "PL": true, "AP": true}

// shapes: every type, in a field, embedded, and as a named type.
func shapes(r *mc.Run) {
	plain := false
	one := func(key, decl string, mustWork, counted bool) {
		if !r.Expired() && r.Mine() {
			try(r, key, decl, mustWork, counted, plain)
		}
	}
	depth := 2
	if r.Thorough {
		depth = 3
	}
	for _, e := range elements {
		if e.thorough && !r.Thorough {
			continue
		}
		var rec func(text, name string, ok, key bool, d int)
		rec = func(text, name string, ok, key bool, d int) {
			one("field "+name, "type T struct {\n\tF "+text+"\n}\n", ok, true)
			if d > 0 && !strings.Contains(text, "interface") && text[0] != '*' {
				one("named "+name, "type T "+text+"\n", ok, true)
			}
			if d == 0 {
				if e.embed {
					one("embedded "+name, "type T struct {\n\t"+text+"\n\tX int\n}\n", ok, true)
				}
				if e.pembed {
					one("embedded pointer "+name, "type T struct {\n\t*"+text+"\n\tX []int\n}\n", ok, true)
				}
				one("unexported field "+name, "type T struct {\n\tx, y "+text+"\n\tF string\n}\n", ok, true)
				one("blank field "+name, "type T struct {\n\t_ "+text+"\n\tF []string\n}\n", ok, false)
				one("structs and maps "+name, "type T struct {\n\tF map[string]T_a\n\tG []T_a\n\tH *T_a\n\tI map[string]*T_a\n}\n\ntype T_a struct {\n\tF "+text+"\n}\n", ok, true)
				const uses = "type T struct {\n\tF map[string]T_a\n\tG []T_a\n\tH *T_a\n\tI map[string]*T_a\n\tJ T_a\n}\n\n"
				if e.embed {
					one("elements embedding "+name, uses+"type T_a struct {\n\t"+text+"\n\tX int\n}\n", ok, true)
					one("elements embedding only "+name, uses+"type T_a struct {\n\t"+text+"\n}\n", ok, true)
				}
				if e.pembed {
					one("elements embedding pointer "+name, uses+"type T_a struct {\n\t*"+text+"\n\tX int\n}\n", ok, true)
				}
				one("elements embedding struct with "+name, uses+"type T_a struct {\n\tT_b\n\tX int\n}\n\ntype T_b struct {\n\tF "+text+"\n}\n", ok, true)
				one("elements with fields of structs with "+name, uses+"type T_a struct {\n\tX int\n\tT T_b\n}\n\ntype T_b struct {\n\tT_c\n}\n\ntype T_c struct {\n\tF "+text+"\n\tY bool\n}\n", ok, true)
				if ok {
					plain = basics[text]
					one("type of "+name, "type T "+text+"\n", ok, false)
					plain = false
				}
			}
			if d == depth {
				return
			}
			for _, wr := range wraps {
				if wr.key && !key {
					continue
				}
				isKey := key && wr.name == "array" // arrays are reported, anyway
				rec(wr.f(text), wr.name+" of "+name, ok && !wr.bad, isKey, d+1)
			}
		}
		rec(e.text, e.text, e.ok, e.key, 0)
	}
	for _, d := range []struct {
		name, decl string
		ok         bool
	}{
		{"recursive slice", "type T []T\n", false},
		{"recursive map", "type T map[string]T\n", false},
		{"recursive map of slices", "type T map[string][]T\n", false},
		{"recursive through a slice", "type T struct {\n\tF T_a\n}\n\ntype T_a []T\n", true},
		{"recursive through another", "type T []T_a\n\ntype T_a map[string]T\n", false},
		{"recursive slice in a field", "type T struct {\n\tF T_a\n}\n\ntype T_a []T_a\n", false},
		{"recursive struct", "type T struct {\n\tF *T\n\tG []T\n\tH map[string]T\n\tI map[string][]*T\n}\n", true},
		{"generic field", "type T struct {\n\tF T_g[string]\n}\n\ntype T_g[X any] struct {\n\tF X\n}\n", false},
		{"slice of generics", "type T struct {\n\tF []T_g[string]\n}\n\n// +kubebuilder:object:generate=false\ntype T_g[X any] struct {\n\tF X\n}\n", false},
		{"pointer to generic", "type T struct {\n\tF *T_g[string]\n\tG map[string]*T_g[int]\n}\n\n// +kubebuilder:object:generate=false\ntype T_g[X any] struct {\n\tF X\n}\n", false},
		{"generic type", "type T[X any] struct {\n\tF X\n}\n", false},
		{"generic type without fields", "type T[X any] struct {\n\tF []string\n}\n", false},
		{"generic slice", "type T[X any] []X\n", false},
		{"generic with methods", "type T struct {\n\tF []T_g[string]\n\tG T_g[int]\n\tH *T_g[bool]\n}\n\n// +kubebuilder:object:generate=false\ntype T_g[X any] struct {\n\tF []X\n}\n\nfunc (in *T_g[X]) DeepCopyInto(out *T_g[X]) {\n\t*out = *in\n\tif in.F != nil {\n\t\tout.F = append([]X{}, in.F...)\n\t}\n}\n\nfunc (in *T_g[X]) DeepCopy() *T_g[X] {\n\tif in == nil {\n\t\treturn nil\n\t}\n\tout := new(T_g[X])\n\tin.DeepCopyInto(out)\n\treturn out\n}\n", false},
		{"nil pointers to types with value receivers in maps", "type T struct {\n\tF map[string]*MV\n}\n", true},
		{"own type named like a variable", "type T struct {\n\tF map[string]map[key]string\n}\n\ntype key string\n", true},
		{"unsafe", "type T struct {\n\tF func(int) error\n}\n", false},
		{"no fields", "type T struct{}\n", true},
		{"root", "// +kubebuilder:object:root=true\ntype T struct {\n\tF []string\n}\n", true},
	} {
		if d.name == "root" {
			continue // see selection
		}
		one(d.name, d.decl, d.ok, false)
	}
}

// execute compiles and runs everything that was generated.
func execute(r *mc.Run) {
	if len(batch) == 0 {
		return
	}
	for i := range batch {
		batch[i].index = i
	}
	results, fatal := run(r, batch)
	for _, e := range batch {
		r.Case(e.key, e.decl, true, func() string {
			if fatal != "" {
				return "the programs cannot be run: " + fatal
			}
			res, ok := results[e.index]
			if !ok {
				return "no result"
			}
			r.Transition(res.values)
			r.Count("values copied", res.values)
			if res.msg != "" {
				return res.msg + "\n" + e.gen
			}
			return ""
		})
	}
}

type result struct {
	values int
	msg    string
}

func run(r *mc.Run, es []entry) (map[int]result, string) {
	dir := filepath.Join(r.Scratch, "module")
	write := func(name, text string) {
		fn := filepath.Join(dir, name)
		_ = os.MkdirAll(filepath.Dir(fn), 0o755)
		if err := os.WriteFile(fn, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	write("go.mod", "module ex.com\n\ngo 1.24\n\nrequire k8s.io/apimachinery v0.0.0\n\nreplace k8s.io/apimachinery => ./fake\n")
	write("fake/go.mod", "module k8s.io/apimachinery\n\ngo 1.24\n")
	write("fake/pkg/runtime/r.go", runtimeSrc)
	write("dep/dep.go", depSrc)
	write("dep/gen.go", depGen)
	write("p/lib.go", libFile)
	write("p/lib_gen.go", libGen)
	var reg strings.Builder
	reg.WriteString("package p\n\ntype Entry struct {\n\tIndex int\n\tCounted bool\n\tNil bool\n\tNew func() any\n}\n\nvar Entries = []Entry{\n")
	for _, e := range es {
		n := fmt.Sprintf("T%d", e.index)
		write(fmt.Sprintf("p/c%d.go", e.index), "package p\n\n"+rename(e.decl, n))
		write(fmt.Sprintf("p/g%d.go", e.index), rename(e.gen, n))
		fmt.Fprintf(&reg, "\t{%d, %v, %v, func() any { return new(%s) }},\n", e.index, e.counted, e.nils, n)
	}
	reg.WriteString("}\n")
	write("p/reg.go", reg.String())
	write("main.go", oracle)
	cmd := exec.Command("go", "build", "-buildvcs=false", "-gcflags=-N -l -c=1", "-ldflags=-s -w", "-o", "prog", ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOMAXPROCS=2")
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, err.Error() + "\n" + string(out)
	}
	out, err := exec.Command(filepath.Join(dir, "prog")).CombinedOutput()
	results := map[int]result{}
	for _, l := range strings.Split(string(out), "\n") {
		var i, n int
		var msg string
		if _, err := fmt.Sscanf(l, "%d %d %q", &i, &n, &msg); err == nil {
			results[i] = result{n, msg}
		}
	}
	if err != nil {
		s := string(out)
		if len(s) > 2000 {
			s = "…" + s[max(0, strings.Index(s, "\nfatal")):]
			s = s[:min(len(s), 2000)]
		}
		return nil, err.Error() + "\n" + s
	}
	return results, ""
}

// rename gives the types of a case names of their own.
func rename(text, name string) string {
	fset := token.NewFileSet()
	src := text
	if !strings.HasPrefix(src, "package") {
		src = "package p\n" + src
	}
	f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	type edit struct{ at, n int }
	var edits []edit
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			ast.Inspect(se.X, func(n ast.Node) bool { return true })
		}
		if id, ok := n.(*ast.Ident); ok && (id.Name == "T" || strings.HasPrefix(id.Name, "T_") || id.Name == "tA") {
			edits = append(edits, edit{fset.Position(id.Pos()).Offset, 1})
		}
		return true
	})
	sort.Slice(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
	for _, e := range edits {
		lead := name
		if src[e.at] == 't' {
			lead = "t" + name
		}
		src = src[:e.at] + lead + src[e.at+1:]
	}
	if !strings.HasPrefix(text, "package") {
		src = strings.TrimPrefix(src, "package p\n")
	}
	return src
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C21" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C21", Body: body,
		Rule:        "all types made of up to two (thorough: three) constructors (pointer, slice, map, map key, array) over sixty elements (basic, named, alias, struct, recursive, other package, with hand-written methods of every kind, and types that cannot be copied), as field, embedded, unexported, blank, inside another struct and as a named type: the generated code is type-checked, compiled and run on values up to depth three; all combinations of package, type and root markers; names of imported packages; non-trivial: all",
		Assumptions: []string{"types of struct fields, elements and pointers that need copying have methods, or the type is reported or rejected", "runtime.Object is a stand-in with the same method"}})
}
