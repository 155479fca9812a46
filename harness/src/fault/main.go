// C16: failures are reported.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/verifmc/genrun"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/vsync"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

var w *world.World

// fault says what happens at an operation.
type fault struct {
	at   int // operation index
	kind string
}

// io is the world that generators read from and write to.
type faulty struct {
	faults []fault
	ops    []string // every operation so far
	hit    []string // operations that failed
	text   map[string]string
	open   map[string]int // opened minus closed
	files  map[string]string
}

var errInjected = errors.New("injected failure")

// next counts an operation and says which fault it meets.
func (f *faulty) next(op string) string {
	i := len(f.ops)
	f.ops = append(f.ops, op)
	for _, x := range f.faults {
		if x.at == i {
			if kinds[strings.SplitN(op, " ", 2)[0]][x.kind] {
				f.hit = append(f.hit, op+" "+x.kind)
				return x.kind
			}
		}
	}
	return ""
}

// kinds lists the ways in which an operation can fail.
var kinds = map[string]map[string]bool{
	"open":     {"error": true},
	"write":    {"error": true, "part": true, "short": true, "one less": true},
	"close":    {"error": true},
	"openread": {"error": true},
	"read":     {"error": true, "part": true},
}

type outFile struct {
	f    *faulty
	path string
	b    bytes.Buffer
	done bool
}

type rule struct {
	f     *faulty
	scope string
}

func (r rule) Open(pkg *loader.Package, path string) (io.WriteCloser, error) {
	if pkg != nil {
		path = pkg.PkgPath + "/" + path
	}
	path = r.scope + ":" + path
	if r.f.next("open "+path) != "" {
		return nil, errInjected
	}
	r.f.open[path]++
	r.f.text[path] = "(not closed)"
	return &outFile{f: r.f, path: path}, nil
}

func (o *outFile) Write(p []byte) (int, error) {
	switch o.f.next("write " + o.path) {
	case "error":
		return 0, errInjected
	case "part":
		o.b.Write(p[:len(p)/2])
		return len(p) / 2, errInjected
	case "short":
		o.b.Write(p[:len(p)/2])
		return len(p) / 2, nil
	case "one less":
		if len(p) == 0 {
			return 0, nil
		}
		o.b.Write(p[:len(p)-1])
		return len(p) - 1, nil
	}
	return o.b.Write(p)
}

func (o *outFile) Close() error {
	kind := o.f.next("close " + o.path)
	if !o.done {
		o.f.open[o.path]--
	}
	o.done = true
	if kind != "" {
		// what was written may be lost
		o.f.text[o.path] = "(lost)"
		return errInjected
	}
	o.f.text[o.path] = o.b.String()
	return nil
}

type inFile struct {
	f    *faulty
	path string
	r    *strings.Reader
	n    int
}

// OpenForRead implements genall.InputRule.
func (f *faulty) OpenForRead(path string) (io.ReadCloser, error) {
	path = filepath.Base(path)
	if f.next("openread "+path) != "" {
		return nil, errInjected
	}
	text, ok := f.files[path]
	if !ok {
		return nil, errors.New("no such file " + path)
	}
	return &inFile{f: f, path: path, r: strings.NewReader(text)}, nil
}

func (i *inFile) Read(p []byte) (int, error) {
	kind := ""
	if i.n < 2 { // the first part, and then the end of it
		kind = i.f.next("read " + i.path)
	}
	i.n++
	switch kind {
	case "error":
		return 0, errInjected
	case "part":
		n, _ := i.r.Read(p[:len(p)/8])
		return n, errInjected
	}
	return i.r.Read(p)
}

func (i *inFile) Close() error { return nil }

// gens are the generators.
type genOf struct {
	name string
	make func(dir string) genall.Generator
}

var gens = []genOf{
	{"crd", func(string) genall.Generator { return crd.Generator{HeaderFile: "header.txt"} }},
	{"rbac", func(string) genall.Generator {
		return rbac.Generator{RoleName: "role", HeaderFile: "header.txt"}
	}},
	{"webhook", func(string) genall.Generator { return webhook.Generator{HeaderFile: "header.txt"} }},
	{"object", func(string) genall.Generator { return deepcopy.Generator{HeaderFile: "header.txt"} }},
	{"schemapatch", func(dir string) genall.Generator { return &schemapatcher.Generator{ManifestsPath: dir} }},
}

const types = `

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
import "k8s.io/apimachinery/pkg/runtime"

var _ runtime.Object

// +kubebuilder:rbac:groups=a,resources=b,verbs=get
// +kubebuilder:rbac:groups=a,resources=b,verbs=get,namespace=n
// +kubebuilder:webhook:path=/p,mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=n.x.y,sideEffects=None,admissionReviewVersions=v1
// +kubebuilder:webhook:path=/p,mutating=false,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=n.x.y,sideEffects=None,admissionReviewVersions=v1

`

func sources() []genrun.Source {
	kind := func(name string) string {
		return "// +kubebuilder:object:root=true\ntype " + name + " struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tA []string `json:\"a\"`\n}\n\n"
	}
	return []genrun.Source{
		{Path: "ex.com/v1", Files: []string{"// +groupName=g.io\n// +kubebuilder:object:generate=true\npackage v1" + types + kind("Foo") + kind("Bar")}},
		{Path: "ex.com/h/v2", Files: []string{"// +groupName=h.io\n// +kubebuilder:object:generate=true\npackage v2" + strings.ReplaceAll(types, "n.x.y", "o.x.y") + kind("Baz")}},
	}
}

var manifest = "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nspec:\n  group: g.io\n  names: {kind: Foo}\n  versions:\n  - name: v1\n"

// result of one run.
type result struct {
	failed  bool
	printed string
	panic   string
	f       *faulty
}

var (
	pkgs  []*loader.Package
	warms = map[string]*genrun.Warm{}
)

// run runs the generators with the faults.
func run(r *mc.Run, which []int, faults []fault) (res result) {
	f := &faulty{faults: faults, text: map[string]string{}, open: map[string]int{}, files: map[string]string{"header.txt": "/*\nheader\n*/\n", "a.yaml": manifest, "b.yaml": strings.ReplaceAll(manifest, "Foo", "Bar")}}
	if len(which) > 0 {
		// manifests with their own header: the YAML ones are comments
		f.files["header.txt"] = "// header\n"
	}
	res.f = f
	dir := filepath.Join(r.Scratch, "manifests")
	var gs genall.Generators
	rules := genall.OutputRules{Default: rule{f, "default"}, ByGenerator: map[*genall.Generator]genall.OutputRule{}}
	key := ""
	for _, i := range which {
		g := gens[i].make(dir)
		gs = append(gs, &g)
		rules.ByGenerator[&g] = rule{f, gens[i].name}
		key += gens[i].name + " "
	}
	warm := warms[key]
	if warm == nil {
		reg := &markers.Registry{}
		if err := gs.RegisterMarkers(reg); err != nil {
			panic(err)
		}
		warm = genrun.NewWarm(w, reg)
		warms[key] = warm
	}
	for _, p := range pkgs {
		p.Errors = nil
	}
	var printed bytes.Buffer
	rt := &genall.Runtime{
		Generators: gs,
		GenerationContext: genall.GenerationContext{
			Collector: warm.Collector(),
			Roots:     pkgs,
			InputRule: f,
			Checker:   &loader.TypeChecker{NodeFilters: gs.CheckFilters()},
		},
		OutputRules: rules,
		ErrorWriter: &printed,
	}
	res.failed, res.printed, res.panic = runRuntime(r, rt, &printed)
	return res
}

func runRuntime(r *mc.Run, rt *genall.Runtime, printed *bytes.Buffer) (failed bool, out, panicked string) {
	// package errors go to the standard error output
	errPath := filepath.Join(r.Scratch, "stderr")
	errFile, err := os.Create(errPath)
	if err != nil {
		panic(err)
	}
	old := os.Stderr
	os.Stderr = errFile
	s := &vsync.Sched{}
	s.Run(func() {
		defer func() {
			if e := recover(); e != nil {
				panicked = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		failed = rt.Run()
	})
	os.Stderr = old
	_ = errFile.Close()
	data, _ := os.ReadFile(errPath)
	if s.Deadlock {
		panicked = "deadlock"
	} else if s.Panic != "" {
		panicked = s.Panic
	}
	return failed, printed.String() + string(data), panicked
}

func names(which []int) string {
	var out []string
	for _, i := range which {
		out = append(out, gens[i].name)
	}
	return strings.Join(out, " ")
}

func body(r *mc.Run) {
	w = world.Must()
	var err error
	if pkgs, err = genrun.Build(w, sources()); err != nil {
		panic(err)
	}
	dir := filepath.Join(r.Scratch, "manifests")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	for _, n := range []string{"a.yaml", "b.yaml"} {
		_ = os.WriteFile(filepath.Join(dir, n), []byte(manifest), 0o644)
	}
	var combos [][]int
	for mask := 1; mask < 1<<len(gens); mask++ {
		var c []int
		for i := range gens {
			if mask>>i&1 == 1 {
				c = append(c, i)
			}
		}
		if len(c) <= 2 || len(c) == len(gens) || r.Thorough {
			combos = append(combos, c)
			if len(c) == 2 {
				combos = append(combos, []int{c[1], c[0]})
			}
		}
	}
	for _, c := range combos {
		injected(r, c)
	}
	packageErrors(r)
	generatorErrors(r)
	disk(r)
	r.Sample("a failure at every operation of every pair of generators, package errors, failing generators, and failing files on disk")
}

// injected lets every single operation fail (thorough: every two).
func injected(r *mc.Run, which []int) {
	var clean result
	ok := true
	// not a case of its own: all cases below compare with it
	clean = run(r, which, nil)
	if r.Shard == 0 {
		r.Case(names(which)+": without failure", "", false, func() string {
			if clean.panic != "" {
				return clean.panic
			}
			if clean.failed || clean.printed != "" {
				return "failed: " + clean.printed
			}
			perGen := map[string]bool{}
			for p, t := range clean.f.text {
				if t == "" || t == "(not closed)" || clean.f.open[p] != 0 {
					return p + " is not complete: " + t
				}
				perGen[strings.SplitN(p, ":", 2)[0]] = true
			}
			for _, i := range which {
				if !perGen[gens[i].name] {
					return gens[i].name + " wrote nothing"
				}
			}
			return ""
		})
	}
	ok = clean.panic == "" && !clean.failed
	if !ok {
		return
	}
	single := func(key string, faults []fault) (msg string) {
		res := run(r, which, faults)
		r.Transition(1)
		r.State(key)
		if res.panic != "" {
			return "panic: " + res.panic
		}
		if len(res.f.hit) == 0 {
			if res.failed {
				return "failed without a failure: " + res.printed
			}
		} else {
			r.Outcome(strings.Join(res.f.hit, ", "))
			if !res.failed {
				return fmt.Sprintf("%v is not reported", res.f.hit)
			}
			if strings.TrimSpace(res.printed) == "" {
				return fmt.Sprintf("%v: no message", res.f.hit)
			}
		}
		// other generators are not affected
		hitGen := map[string]bool{}
		for _, h := range res.f.hit {
			if f := strings.Fields(h); f[0] == "open" || f[0] == "write" || f[0] == "close" {
				hitGen[strings.SplitN(f[1], ":", 2)[0]] = true
			} else {
				// one reader: those that read the file; found by what is missing
				hitGen["reader"] = true
			}
		}
		missing := map[string]bool{}
		for p, t := range clean.f.text {
			gen := strings.SplitN(p, ":", 2)[0]
			if hitGen[gen] {
				continue
			}
			if res.f.text[p] != t {
				missing[gen] = true
				if !hitGen["reader"] {
					return fmt.Sprintf("%v: artifact %s of another generator is %q", res.f.hit, p, res.f.text[p])
				}
			}
		}
		if len(missing) > len(res.f.hit) {
			return fmt.Sprintf("%v: generators %v lack artifacts", res.f.hit, missing)
		}
		return ""
	}
	n := len(clean.f.ops)
	for at, op := range clean.f.ops {
		var ks []string
		for k := range kinds[strings.SplitN(op, " ", 2)[0]] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if (k == "short" || k == "one less") && strings.HasPrefix(op, "write schemapatch:") {
				// the YAML encoder, as it may, relies on writers to
				// report short writes
				continue
			}
			if r.Expired() || !r.Mine() {
				continue
			}
			key := fmt.Sprintf("%s: %d %s %s", names(which), at, op, k)
			r.Case(key, strings.Join(clean.f.ops, "\n"), true, func() string { return single(key, []fault{{at, k}}) })
		}
		if !r.Thorough || len(which) > 2 {
			continue
		}
		for second := at + 1; second < n+4; second++ {
			if r.Expired() || !r.Mine() {
				continue
			}
			key := fmt.Sprintf("%s: %d and %d", names(which), at, second)
			r.Case(key, strings.Join(clean.f.ops, "\n"), true, func() string {
				return single(key, []fault{{at, "error"}, {second, "error"}})
			})
		}
	}
}

// packageErrors: errors of packages are reported wherever they are.
func packageErrors(r *mc.Run) {
	mk := func(kind packages.ErrorKind) packages.Error {
		return packages.Error{Pos: "x.go:1:1", Msg: "broken", Kind: kind}
	}
	ks := []packages.ErrorKind{packages.ListError, packages.ParseError, packages.UnknownError, packages.TypeError}
	deps := func() []*packages.Package {
		var out []*packages.Package
		seen := map[string]bool{}
		packages.Visit([]*packages.Package{pkgs[0].Package}, nil, func(p *packages.Package) {
			if !seen[p.ID] && p != pkgs[0].Package {
				seen[p.ID] = true
				out = append(out, p)
			}
		})
		return out
	}()
	places := map[string]*packages.Package{"first root": pkgs[0].Package, "second root": pkgs[1].Package}
	if len(deps) > 0 {
		places["a dependency"] = deps[0]
		places["the last dependency"] = deps[len(deps)-1]
	}
	var pn []string
	for n := range places {
		pn = append(pn, n)
	}
	sort.Strings(pn)
	for _, which := range [][]int{{0}, {1}, {3}, {1, 2}} {
		clean := run(r, which, nil)
		for _, place := range pn {
			for mask := 1; mask < 1<<len(ks); mask++ {
				if !r.Mine() {
					continue
				}
				r.Case(fmt.Sprintf("package error %s %s %b", names(which), place, mask), "", true, func() string {
					p := places[place]
					old := p.Errors
					defer func() { p.Errors = old }()
					want := false
					var errs []packages.Error
					for i, k := range ks {
						if mask>>i&1 == 1 {
							errs = append(errs, mk(k))
							want = want || k != packages.TypeError
						}
					}
					res := runWith(r, which, func() { p.Errors = append(p.Errors, errs...) })
					if res.panic != "" {
						return res.panic
					}
					if res.failed != want {
						return fmt.Sprintf("fails: %v instead of %v", res.failed, want)
					}
					if want && !strings.Contains(res.printed, "broken") {
						return "not printed: " + res.printed
					}
					for a, t := range clean.f.text {
						if res.f.text[a] != t {
							return "artifact " + a + " changed"
						}
					}
					return ""
				})
			}
		}
	}
}

// runWith runs with something done after the packages are reset.
func runWith(r *mc.Run, which []int, do func()) result {
	f := &faulty{text: map[string]string{}, open: map[string]int{}, files: map[string]string{"header.txt": "// header\n"}}
	var gs genall.Generators
	rules := genall.OutputRules{ByGenerator: map[*genall.Generator]genall.OutputRule{}}
	for _, i := range which {
		g := gens[i].make("")
		gs = append(gs, &g)
		rules.ByGenerator[&g] = rule{f, gens[i].name}
	}
	reg := &markers.Registry{}
	if err := gs.RegisterMarkers(reg); err != nil {
		panic(err)
	}
	key := "with " + names(which)
	if warms[key] == nil {
		warms[key] = genrun.NewWarm(w, reg)
	}
	for _, p := range pkgs {
		p.Errors = nil
	}
	do()
	var printed bytes.Buffer
	rt := &genall.Runtime{Generators: gs, GenerationContext: genall.GenerationContext{Collector: warms[key].Collector(), Roots: pkgs, InputRule: f, Checker: &loader.TypeChecker{NodeFilters: gs.CheckFilters()}}, OutputRules: rules, ErrorWriter: &printed}
	res := result{f: f}
	res.failed, res.printed, res.panic = runRuntime(r, rt, &printed)
	return res
}

// fake is a generator that does as it is told.
type fake struct {
	kind string
	log  *[]string
	id   int
}

func (f fake) RegisterMarkers(*markers.Registry) error {
	if f.kind == "cannot register" {
		return errors.New("cannot register")
	}
	return nil
}

func (f fake) Generate(ctx *genall.GenerationContext) error {
	*f.log = append(*f.log, fmt.Sprint(f.id))
	if ctx.Checker != nil {
		return errors.New("got a type checker")
	}
	return f.do(ctx)
}

func (f fake) do(ctx *genall.GenerationContext) error {
	name := fmt.Sprintf("f%d", f.id)
	switch f.kind {
	case "ok":
	case "error":
		return errors.New("failed " + name)
	case "package error":
		ctx.Roots[0].AddError(errors.New("failed " + name))
	case "last package error":
		ctx.Roots[len(ctx.Roots)-1].AddError(loader.ErrFromNode(errors.New("failed "+name), ctx.Roots[0].Syntax[0]))
	case "changes the context":
		// the context is the generator's own
		ctx.Roots = nil
		rule := ctx.OutputRule
		ctx.OutputRule = nil
		ctx.InputRule = nil
		ctx.Collector = nil
		ctx.OutputRule = rule
	}
	return ctx.WriteYAML(name, "", []interface{}{map[string]any{"metadata": map[string]any{}, "id": f.id}})
}

// checking is one that needs a type checker.
type checking struct{ fake }

func (c checking) CheckFilter() loader.NodeFilter { return loader.NodeFilter(nil) }

func (c checking) Generate(ctx *genall.GenerationContext) error {
	*c.log = append(*c.log, fmt.Sprint(c.id))
	if ctx.Checker == nil {
		return errors.New("got no type checker")
	}
	return c.do(ctx)
}

func generatorErrors(r *mc.Run) {
	ks := []string{"ok", "error", "package error", "last package error", "changes the context"}
	max := 3
	if r.Thorough {
		max = 4
	}
	pkgs[0].NeedSyntax()
	var rec func(cur []int)
	rec = func(cur []int) {
		if r.Expired() {
			return
		}
		if r.Mine() {
			r.Case(fmt.Sprint("generators ", cur), "", true, func() string {
				var log []string
				f := &faulty{text: map[string]string{}, open: map[string]int{}}
				var gs genall.Generators
				rules := genall.OutputRules{Default: rule{f, "default"}, ByGenerator: map[*genall.Generator]genall.OutputRule{}}
				want := len(cur) == 0
				for i, k := range cur {
					kind := ks[k/2]
					var g genall.Generator = fake{kind, &log, i}
					if k%2 == 1 {
						g = checking{fake{kind, &log, i}}
					}
					gs = append(gs, &g)
					if i%2 == 0 {
						rules.ByGenerator[&g] = rule{f, fmt.Sprint("own", i)}
					}
					want = want || (kind != "ok" && kind != "changes the context")
				}
				for _, p := range pkgs {
					p.Errors = nil
				}
				var printed bytes.Buffer
				rt := &genall.Runtime{Generators: gs, GenerationContext: genall.GenerationContext{Collector: &markers.Collector{Registry: &markers.Registry{}}, Roots: pkgs, InputRule: f, Checker: &loader.TypeChecker{}}, OutputRules: rules, ErrorWriter: &printed}
				failed, out, panicked := runRuntime(r, rt, &printed)
				r.State(fmt.Sprint(cur))
				if panicked != "" {
					return panicked
				}
				if failed != want {
					return fmt.Sprintf("fails: %v instead of %v: %s", failed, want, out)
				}
				if want == (out == "") {
					return fmt.Sprintf("printed %q", out)
				}
				if len(log) != len(cur) {
					return fmt.Sprint("ran ", log)
				}
				for i, k := range cur {
					if log[i] != fmt.Sprint(i) {
						return fmt.Sprint("ran ", log)
					}
					kind := ks[k/2]
					name := fmt.Sprintf("f%d", i)
					if n := strings.Count(out, "failed "+name); (n == 1) != (kind != "ok" && kind != "changes the context") {
						return fmt.Sprintf("%s of %s is printed %d times: %s", name, kind, n, out)
					}
					scope := "default"
					if i%2 == 0 {
						scope = fmt.Sprint("own", i)
					}
					_, wrote := f.text[scope+":"+name]
					if wrote != (kind != "error") {
						return fmt.Sprintf("%s of %s written: %v", name, kind, wrote)
					}
				}
				return ""
			})
		}
		if len(cur) < max {
			for i := 0; i < 2*len(ks); i++ {
				rec(append(append([]int{}, cur...), i))
			}
		}
	}
	rec(nil)
	for n := 1; n <= 4; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			if !r.Mine() {
				continue
			}
			key := fmt.Sprintf("registering %d %b", n, mask)
			r.State(key)
			r.Case(key, "", mask != 0, func() string {
				var gs genall.Generators
				for i := 0; i < n; i++ {
					var g genall.Generator = fake{kind: "ok"}
					if mask>>i&1 == 1 {
						g = fake{kind: "cannot register"}
					}
					gs = append(gs, &g)
				}
				if err := gs.RegisterMarkers(&markers.Registry{}); (err != nil) != (mask != 0) {
					return fmt.Sprintf("registering markers gives the error %v", err)
				}
				return ""
			})
		}
	}
}

// disk lets files on the disk fail.
func disk(r *mc.Run) {
	base := filepath.Join(r.Scratch, "disk")
	for gi := range gens {
		clean := run(r, []int{gi}, nil)
		var arts []string
		for p := range clean.f.text {
			arts = append(arts, strings.SplitN(p, ":", 2)[1])
		}
		sort.Strings(arts)
		for _, art := range arts {
			for _, how := range []string{"full", "directory", "file for directory", "dangling", "fine"} {
				if !r.Mine() {
					continue
				}
				r.Case(fmt.Sprintf("disk %s %s %s", gens[gi].name, art, how), "", true, func() string {
					_ = os.RemoveAll(base)
					out := filepath.Join(base, "out")
					if err := os.MkdirAll(out, 0o755); err != nil {
						return err.Error()
					}
					file := filepath.Join(out, filepath.Base(art))
					want := true
					var err error
					switch how {
					case "full":
						if _, e := os.Stat("/dev/full"); e != nil {
							return ""
						}
						err = os.Symlink("/dev/full", file)
					case "directory":
						err = os.Mkdir(file, 0o755)
					case "file for directory":
						_ = os.Remove(out)
						err = os.WriteFile(out, nil, 0o644)
					case "dangling":
						err = os.Symlink(filepath.Join(base, "none", "x"), file)
					default:
						want = false
					}
					if err != nil {
						return err.Error()
					}
					f := &faulty{files: map[string]string{"header.txt": "// header\n", "a.yaml": manifest, "b.yaml": strings.ReplaceAll(manifest, "Foo", "Bar")}}
					g := gens[gi].make(filepath.Join(r.Scratch, "manifests"))
					gs := genall.Generators{&g}
					reg := &markers.Registry{}
					if err := gs.RegisterMarkers(reg); err != nil {
						return err.Error()
					}
					for _, p := range pkgs {
						p.Errors = nil
					}
					key := "disk" + gens[gi].name
					if warms[key] == nil {
						warms[key] = genrun.NewWarm(w, reg)
					}
					var printed bytes.Buffer
					rt := &genall.Runtime{Generators: gs, GenerationContext: genall.GenerationContext{Collector: warms[key].Collector(), Roots: pkgs, InputRule: f, Checker: &loader.TypeChecker{NodeFilters: gs.CheckFilters()}}, OutputRules: genall.OutputRules{Default: genall.OutputToDirectory(out)}, ErrorWriter: &printed}
					failed, text, panicked := runRuntime(r, rt, &printed)
					if panicked != "" {
						return panicked
					}
					if failed != want {
						return fmt.Sprintf("fails: %v instead of %v: %s", failed, want, text)
					}
					if want && strings.TrimSpace(text) == "" {
						return "no message"
					}
					return ""
				})
			}
		}
	}
	_ = os.RemoveAll(base)
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C16" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C16", Body: body,
		Rule:        "every single operation (open, every write, close, open for reading, every read) of every single generator, every ordered pair of generators and all of them together failing in every way (error, partial write, short write; thorough: every subset of generators and every two operations of pairs), every combination of package error kinds at every place, every sequence of up to three (four) generators that succeed or fail, and full or unusable files; non-trivial: a failure happens",
		Assumptions: []string{"faults are injected through the output and input rules and through unusable paths", "applyconfiguration writes through its own library and is covered by C26"}})
}
