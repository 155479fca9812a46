// C22: collecting markers is repeatable, isolated and safe to share.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/verifmc/genrun"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/rt"
	"sigs.k8s.io/controller-tools/verifmc/vsync"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

var w *world.World

// dump tells everything about a value.
func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 8 {
		b.WriteString("…")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%s:", v.Elem().Type())
		dump(b, v.Elem(), depth+1)
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + "=")
			dump(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dump(&e, k, depth+1)
			e.WriteString(":")
			dump(&e, v.MapIndex(k), depth+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString("map[" + strings.Join(es, " ") + "]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(b, "%s(%v)", v.Type(), v.IsNil())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

func values(vs markers.MarkerValues) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(map[string][]interface{}(vs)), 0)
	if len(vs) == 0 {
		return "none"
	}
	return b.String()
}

// op is something that can be asked for.
type op struct {
	name string
	run  func(col *markers.Collector, pkgs []*loader.Package) string
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return "error: " + err.Error()
}

func eachType(p int) op {
	return op{fmt.Sprintf("EachType %c", 'a'+p), func(col *markers.Collector, pkgs []*loader.Package) string {
		var b strings.Builder
		err := markers.EachType(col, pkgs[p], func(info *markers.TypeInfo) {
			fmt.Fprintf(&b, "%s %q %s\n", info.Name, info.Doc, values(info.Markers))
			for _, f := range info.Fields {
				fmt.Fprintf(&b, "  %s %q %q %s\n", f.Name, f.Doc, f.Tag, values(f.Markers))
			}
		})
		return b.String() + errText(err)
	}}
}

func packageMarkers(p int) op {
	return op{fmt.Sprintf("PackageMarkers %c", 'a'+p), func(col *markers.Collector, pkgs []*loader.Package) string {
		vs, err := markers.PackageMarkers(col, pkgs[p])
		return values(vs) + errText(err)
	}}
}

func markersIn(p int) op {
	return op{fmt.Sprintf("MarkersInPackage %c", 'a'+p), func(col *markers.Collector, pkgs []*loader.Package) string {
		ms, err := col.MarkersInPackage(pkgs[p])
		var lines []string
		for n, vs := range ms {
			lines = append(lines, fmt.Sprintf("%d %T %s", n.Pos(), n, values(vs)))
		}
		// positions in the order of the package only
		sort.Slice(lines, func(i, j int) bool {
			var a, b int
			fmt.Sscan(lines[i], &a)
			fmt.Sscan(lines[j], &b)
			return a < b || a == b && lines[i] < lines[j]
		})
		for i, l := range lines {
			_, lines[i], _ = strings.Cut(l, " ")
		}
		return strings.Join(lines, "\n") + errText(err)
	}}
}

// caller changes what it is given, which is its own: the map of package
// markers is made for each call.
func changing(p int) op {
	return op{fmt.Sprintf("PackageMarkers %c and change", 'a'+p), func(col *markers.Collector, pkgs []*loader.Package) string {
		vs, err := markers.PackageMarkers(col, pkgs[p])
		out := values(vs) + errText(err)
		for k := range vs {
			vs[k] = append(vs[k], "other")
			delete(vs, k)
		}
		return out
	}}
}

func lookup(text string, target markers.TargetType) op {
	return op{"Lookup " + text, func(col *markers.Collector, _ []*loader.Package) string {
		def := col.Registry.Lookup(text, target)
		if def == nil {
			return "none"
		}
		v, err := def.Parse(text)
		var b strings.Builder
		dump(&b, reflect.ValueOf(v), 0)
		help := "no help"
		if h := col.Registry.HelpFor(def); h != nil {
			help = h.Summary
		}
		return def.Name + " " + b.String() + errText(err) + help
	}}
}

func allDefinitions() op {
	return op{"AllDefinitions", func(col *markers.Collector, _ []*loader.Package) string {
		var names []string
		for _, d := range col.Registry.AllDefinitions() {
			if !strings.HasPrefix(d.Name, "x:") {
				names = append(names, fmt.Sprint(d.Name, d.Target))
			}
		}
		sort.Strings(names)
		return strings.Join(names, " ")
	}}
}

func register(name string) op {
	return op{"Register " + name, func(col *markers.Collector, _ []*loader.Package) string {
		d, err := markers.MakeDefinition("x:"+name, markers.DescribesType, "")
		if err != nil {
			return err.Error()
		}
		if err := col.Registry.Register(d); err != nil {
			return err.Error()
		}
		col.Registry.AddHelp(d, markers.SimpleHelp("x", name))
		if h := col.Registry.HelpFor(d); h == nil || h.Summary != name {
			return "no help"
		}
		if col.Registry.Lookup("+x:"+name+"=1", markers.DescribesType) != d {
			return "not registered"
		}
		return ""
	}}
}

var texts = []string{
	`// +t:pkg=one
// +t:any={a: {1,2}}
package a

// T is one.
// +t:str=x
// +t:st:name=y,list={a,b}
type T struct {
	// F is a field.
	// +t:num=1
	F string ` + "`json:\"f\"`" + `
	// +t:list=a;b
	G, H []int
	U
}

// +t:pkg=two

// +t:both=1
type U string
`,
	`package a

// +t:both=package

// +t:num=1
// +t:num=2
type V struct {
	// +t:num=3
	A struct {
		// +t:str=inner
		B int
	}
}

// +t:pkg=last
`,
	`// +t:num=wrong
package a

// +t:num=one
// +t:str=ok
type W struct {
	// +t:num=two
	A int
	// +t:num=three
	B int
}

// +t:st:name=x,other=y
type X int
`,
	`package a

type Plain struct{ A int }
`,
}

type named struct {
	Name string
	List []string `marker:",optional"`
}

func registry() *markers.Registry {
	reg := &markers.Registry{}
	for _, d := range []*markers.Definition{
		markers.Must(markers.MakeDefinition("t:pkg", markers.DescribesPackage, "")),
		markers.Must(markers.MakeAnyTypeDefinition("t:any", markers.DescribesPackage, struct{ Value interface{} }{})),
		markers.Must(markers.MakeDefinition("t:num", markers.DescribesPackage, 0)),
		markers.Must(markers.MakeDefinition("t:str", markers.DescribesType, "")),
		markers.Must(markers.MakeDefinition("t:num", markers.DescribesType, 0)),
		markers.Must(markers.MakeDefinition("t:st", markers.DescribesType, named{})),
		markers.Must(markers.MakeDefinition("t:both", markers.DescribesPackage, "")),
		markers.Must(markers.MakeDefinition("t:both", markers.DescribesType, 0)),
		markers.Must(markers.MakeDefinition("t:num", markers.DescribesField, 0)),
		markers.Must(markers.MakeDefinition("t:str", markers.DescribesField, "")),
		markers.Must(markers.MakeDefinition("t:list", markers.DescribesField, []string(nil))),
	} {
		if err := reg.Register(d); err != nil {
			panic(err)
		}
		reg.AddHelp(d, markers.SimpleHelp("t", "about "+d.Name))
	}
	return reg
}

// pair makes two packages.
func pair(i, j int) []*loader.Package {
	var out []*loader.Package
	for n, k := range []int{i, j} {
		path := fmt.Sprintf("ex.com/%c", 'a'+n)
		var files []string
		switch {
		case k < len(texts):
			files = []string{texts[k]}
		default: // several files
			files = []string{texts[0], texts[(k+1)%3], texts[3]}
		}
		p, err := w.Pkg(path, "a", files...)
		if err != nil {
			panic(err)
		}
		out = append(out, p)
	}
	w.Forget("ex.com/a")
	w.Forget("ex.com/b")
	return out
}

func body(r *mc.Run) {
	w = world.Must("errors", "time", "k8s.io/apimachinery/pkg/apis/meta/v1")
	if !vsync.Racy {
		panic("not built with the race detector")
	}
	races(r)
	sequences(r)
	concurrent(r)
	together(r)
	r.Sample("EachType a, PackageMarkers b and change, EachType a: as the first time")
}

// sequences: whatever has been asked before, the answer is the same.
func sequences(r *mc.Run) {
	ops := []op{eachType(0), eachType(1), packageMarkers(0), packageMarkers(1), markersIn(0), markersIn(1), changing(0), changing(1), allDefinitions()}
	depth := 3
	if r.Thorough {
		depth = 4
	}
	n := len(texts) + 2
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			// every answer on its own
			var alone []string
			for _, o := range ops {
				alone = append(alone, o.run(&markers.Collector{Registry: registry()}, pair(i, j)))
			}
			for s, o := range ops {
				if r.Expired() || !r.Mine() {
					continue
				}
				key := fmt.Sprint("orders of maps ", i, j, " ", o.name)
				r.Case(key, key, true, func() string {
					msg := ""
					res := rt.Explore(2, 400, func(c *rt.Choices) bool {
						r.Transition(1)
						if got := o.run(&markers.Collector{Registry: registry()}, pair(i, j)); got != alone[s] {
							msg = fmt.Sprintf("with maps in order %v gives\n%s\ninstead of\n%s", c.Taken, got, alone[s])
						}
						return msg == ""
					})
					r.Count("map orders", res.Executions)
					if !res.Complete && msg == "" {
						r.Count("map orders capped", 1)
					}
					return msg
				})
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				if len(seq) == depth {
					if r.Expired() || !r.Mine() {
						return
					}
					key := fmt.Sprint("sequence ", i, j)
					for _, s := range seq {
						key += ", " + ops[s].name
					}
					r.Case(key, key, true, func() string {
						r.Transition(len(seq))
						pkgs := pair(i, j)
						col := &markers.Collector{Registry: registry()}
						// another collector, which knows other markers
						other := &markers.Collector{Registry: &markers.Registry{}}
						for n, s := range seq {
							if got := ops[s].run(col, pkgs); got != alone[s] {
								return fmt.Sprintf("step %d gives\n%s\ninstead of\n%s", n+1, got, alone[s])
							}
							r.State(fmt.Sprint(i, j, seq[:n+1]))
							if got := ops[s].run(other, pkgs); strings.Contains(got, "t:") {
								return "a collector without markers finds " + got
							}
						}
						return ""
					})
					return
				}
				for s := range ops {
					rec(append(append([]int{}, seq...), s))
				}
			}
			rec(nil)
		}
	}
}

// races reads what the race detector found since the last time.
func races(r *mc.Run) string {
	if raceLog == nil {
		m, _ := filepath.Glob(filepath.Join(r.Scratch, "race.*"))
		if len(m) == 0 {
			return ""
		}
		f, err := os.Open(m[0])
		if err != nil {
			panic(err)
		}
		raceLog = f
	}
	data, err := io.ReadAll(raceLog)
	if err != nil {
		panic(err)
	}
	return string(data)
}

var raceLog *os.File

// concurrent: goroutines share a collector.
func concurrent(r *mc.Run) {
	ops := []op{eachType(0), eachType(1), packageMarkers(0), packageMarkers(1), markersIn(0), allDefinitions(), lookup("+t:st:name=x", markers.DescribesType), lookup("+t:num=1", markers.DescribesField), register("one"), register("two")}
	for i := 0; i < 4; i++ {
		for a := range ops {
			for b := range ops {
				bound := 2
				if r.Thorough {
					bound = 3
				}
				at(r, i, ops, bound, []int{a}, []int{b})
				for c := range ops {
					if r.Thorough || (a+b*2+c*5)%16 == i {
						at(r, i, ops, bound-1, []int{a, c}, []int{b})
					}
					if a <= b && b <= c && (r.Thorough || (a+b*2+c*5)%16 == i) {
						at(r, i, ops, 1, []int{a}, []int{b}, []int{c})
					}
				}
			}
		}
	}
}

func at(r *mc.Run, i int, ops []op, bound int, threads ...[]int) {
	if r.Expired() || !r.Mine() {
		return
	}
	key := fmt.Sprint("concurrent ", i)
	regs := map[string]bool{}
	for _, t := range threads {
		key += " |"
		for _, s := range t {
			key += " " + ops[s].name + ","
			if strings.HasPrefix(ops[s].name, "Register") {
				if regs[ops[s].name] {
					return // registering the same definition twice at once is not covered
				}
				regs[ops[s].name] = true
			}
		}
	}
	r.Case(key, key, true, func() string {
		pkgs := pair(i, (i+1)%4)
		alone := map[int]string{}
		for _, t := range threads {
			for _, s := range t {
				alone[s] = ops[s].run(&markers.Collector{Registry: registry()}, pkgs)
			}
		}
		msg := ""
		res := vsync.Explore(bound, 20000, func() func() {
			reg := registry()
			return func() {
				col := &markers.Collector{Registry: reg}
				got := make([][]string, len(threads))
				var wg vsync.WaitGroup
				for n, t := range threads {
					wg.Add(1)
					vsync.Go(func() {
						defer wg.Done()
						for _, s := range t {
							got[n] = append(got[n], ops[s].run(col, pkgs))
						}
					})
				}
				wg.Wait()
				for n, t := range threads {
					for m, s := range t {
						if got[n][m] != alone[s] && msg == "" {
							msg = fmt.Sprintf("%s gives\n%s\ninstead of\n%s", ops[s].name, got[n][m], alone[s])
						}
					}
				}
			}
		}, func(s *vsync.Sched) bool {
			r.Transition(len(s.Points) + 1)
			r.State(key + fmt.Sprint(s.Trace()))
			switch {
			case s.Deadlock:
				msg = fmt.Sprintf("deadlock under schedule %v", s.Trace())
			case s.Panic != "":
				msg = fmt.Sprintf("panic under schedule %v: %s", s.Trace(), s.Panic)
			case msg != "":
				msg = fmt.Sprintf("under schedule %v: %s", s.Trace(), msg)
			default:
				if race := races(r); race != "" {
					msg = fmt.Sprintf("data race under schedule %v\n%s", s.Trace(), race)
				}
			}
			return msg == ""
		})
		r.Count("schedules", res.Executions)
		if !res.Complete && !res.Stopped {
			r.Incomplete("schedules of " + key)
		}
		return msg
	})
}

// generators that share a run.
func generators() map[string]genall.Generator {
	maxLen := 10
	return map[string]genall.Generator{
		"rbac":    rbac.Generator{RoleName: "role"},
		"crd":     crd.Generator{},
		"short":   crd.Generator{MaxDescLen: &maxLen},
		"webhook": webhook.Generator{},
		"object":  deepcopy.Generator{},
	}
}

var genNames = []string{"rbac", "crd", "webhook", "object", "short"}

// pieces of source that the generators look at.
var pieces = []struct{ pkg, decl string }{
	{"// +kubebuilder:object:generate=true\n", ""},
	{"// +groupName=g.ex.com\n// +versionName=v1\n", "// Foo is a thing with a long description.\n// +kubebuilder:object:root=true\n// +kubebuilder:subresource:status\n// +kubebuilder:printcolumn:name=\"A\",type=string,JSONPath=\".spec.a\"\ntype Foo struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec Spec `json:\"spec\"`\n\tStatus Status `json:\"status\"`\n}\n\ntype Spec struct {\n\tA string `json:\"a\"`\n\tB []string `json:\"b\"`\n\tC map[string]*Spec2 `json:\"c\"`\n\tT metav1.Time `json:\"t\"`\n}\n\ntype Status struct {\n\tD *metav1.Duration `json:\"d\"`\n}\n\n// +kubebuilder:validation:MaxProperties=3\ntype Spec2 struct {\n\t// A is a validated field.\n\t// +kubebuilder:validation:MaxLength=3\n\t// +optional\n\tA *string `json:\"a\"`\n}\n"},
	{"// +kubebuilder:rbac:groups=core;apps,resources=pods;pods/status,verbs=get;list;watch\n// +kubebuilder:rbac:groups=\"\",resources=pods,verbs=update\n", "// +kubebuilder:rbac:groups=core,resources=nodes,verbs=get,namespace=zoo\n\n// another\ntype Roles struct{ A []string }\n"},
	{"// +kubebuilder:webhook:path=/x,mutating=true,failurePolicy=fail,sideEffects=None,groups=core,resources=pods,verbs=update;create,versions=v1;v1beta1,name=a.ex.com,admissionReviewVersions=v1\n", "// +kubebuilder:webhook:path=/y,mutating=false,failurePolicy=ignore,sideEffects=None,groups=core;apps,resources=pods,verbs=delete,versions=v1,name=b.ex.com,admissionReviewVersions=v1;v1beta1\n\ntype Hook struct{ B *int }\n"},
	{"", "// Fn has what cannot be copied or described.\n// +kubebuilder:object:generate=false\ntype Fn struct {\n\tF func(Iface) error `json:\"-\"`\n\tI Iface `json:\"-\"`\n\tG metav1.GroupVersionKind\n}\n\n// +kubebuilder:object:generate=false\ntype Iface interface{ M(Fn) Fn }\n\ntype UsesFn struct {\n\tA *string\n\tB []UsesFn\n}\n"},
	{"// +kubebuilder:rbac:groups=x,resources=y\n// +kubebuilder:rbac:groups=x,resources=y,verbs=\n", ""},
	{"", "type Bad struct {\n\t// +kubebuilder:validation:MaxLength=x\n\tA string\n}\n"},
	{"// +kubebuilder:object:generate=maybe\n", ""},
	{"", "type Missing struct {\n\tA NotThere `json:\"a\"`\n\tB *int\n}\n"},
	{"", "// +kubebuilder:object:root=true\n// +kubebuilder:resource:path=bars,scope=Cluster\ntype Bar struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tO other.Foo `json:\"o\"`\n}\n"},
	{"// +kubebuilder:storageversion\n", "// +kubebuilder:validation:Enum=a;b\n// +kubebuilder:default=a\ntype E string\n\n// +kubebuilder:object:root=true\n// +kubebuilder:storageversion\n// +kubebuilder:unservedversion\ntype Baz struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\t// +kubebuilder:example={a: {1,2}}\n\t// +kubebuilder:validation:XValidation:rule=\"self\",message=\"m\"\n\tE E `json:\"e\"`\n}\n"},
}

// sources puts pieces together.
func sources(set []int) []genrun.Source {
	text := func(pkg string, ids []int, rest string) string {
		var head, decls string
		for _, i := range ids {
			head += pieces[i].pkg
			decls += "\n" + pieces[i].decl
		}
		imports := ""
		if strings.Contains(decls, "metav1.") {
			imports += "import metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n"
		}
		if strings.Contains(decls, "other.") {
			imports += "import other \"ex.com/other\"\n"
		}
		return head + "package " + pkg + "\n\n" + imports + decls + rest
	}
	return []genrun.Source{
		{Path: "ex.com/other", Files: []string{text("other", []int{1, 0}, "")}},
		{Path: "ex.com/api", Files: []string{text("api", set, "")}},
	}
}

// session is what a run with several generators shows.
type session struct {
	out   map[string]genrun.Outcome
	cache string
}

var warm = map[string]*genrun.Warm{}

// collector makes one that knows the markers of the generators, in order.
func collector(names []string) *markers.Collector {
	key := strings.Join(names, " ")
	if warm[key] == nil {
		reg := &markers.Registry{}
		done := map[string]bool{}
		for _, n := range names {
			g := generators()[n]
			if key := fmt.Sprintf("%T", g); !done[key] {
				done[key] = true
				if err := g.RegisterMarkers(reg); err != nil {
					panic(err)
				}
			}
		}
		warm[key] = genrun.NewWarm(w, reg)
	}
	return warm[key].Collector()
}

func runAll(srcs []genrun.Source, names []string, roots []int) session {
	pkgs, err := genrun.Build(w, srcs)
	if err != nil {
		panic(err)
	}
	gs := generators()
	var list genall.Generators
	for _, n := range names {
		g := gs[n]
		list = append(list, &g)
	}
	ctx := genall.GenerationContext{Collector: collector(names), Checker: &loader.TypeChecker{NodeFilters: list.CheckFilters()}}
	for _, i := range roots {
		ctx.Roots = append(ctx.Roots, pkgs[i])
	}
	s := session{out: map[string]genrun.Outcome{}}
	for i, g := range list {
		c := ctx
		if _, ok := (*g).(genall.NeedsTypeChecking); !ok {
			c.Checker = nil
		}
		s.out[names[i]] = genrun.Run(*g, &c, pkgs)
	}
	var b strings.Builder
	for i := range roots {
		for _, o := range []op{eachType(i), packageMarkers(i)} {
			b.WriteString(o.run(ctx.Collector, ctx.Roots) + "\n")
		}
	}
	s.cache = b.String()
	return s
}

// together: what a generator makes does not depend on others in the same run.
func together(r *mc.Run) {
	var orders [][]string
	for i := range genNames {
		for j := range genNames {
			orders = append(orders, []string{genNames[i], genNames[j]})
		}
	}
	perms := genrun.Permutations(len(genNames))
	for n, p := range perms {
		if !r.Thorough && n%24 != 0 {
			continue
		}
		var o []string
		for _, i := range p {
			o = append(o, genNames[i])
		}
		orders = append(orders, o)
	}
	var sets [][]int
	for i := range pieces {
		sets = append(sets, []int{i})
		for j := i + 1; j < len(pieces); j++ {
			sets = append(sets, []int{i, j})
		}
	}
	sets = append(sets, []int{0, 1, 2, 3, 4, 9, 10}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10})
	for _, set := range sets {
		for _, roots := range [][]int{{1}, {0, 1}, {1, 0}} {
			if r.Expired() {
				return
			}
			if !r.Mine() {
				continue
			}
			srcs := sources(set)
			alone := map[string]genrun.Outcome{}
			for _, n := range genNames {
				alone[n] = runAll(srcs, []string{n}, roots).out[n]
			}
			caches := map[string]string{}
			for _, names := range orders {
				key := fmt.Sprint("generators ", names, " for pieces ", set, " roots ", roots)
				r.Case(key, srcs[1].Files[0], true, func() string {
					r.Transition(len(names))
					s := runAll(srcs, names, roots)
					failed := false
					for _, n := range names {
						failed = failed || alone[n].Failed()
					}
					if failed {
						// wrong markers of one generator may stop the others, too
						for _, n := range names {
							if s.out[n].Failed() {
								return ""
							}
						}
						return "no generator reports what one of them reports alone"
					}
					for _, n := range names {
						got, want := s.out[n], alone[n]
						if got.String() != want.String() {
							return fmt.Sprintf("%s makes\n%s\ninstead of\n%s", n, got, want)
						}
						r.State(got.String())
					}
					// the collected values are those of a run in which nothing happened
					sorted := append([]string{}, names...)
					sort.Strings(sorted)
					k := strings.Join(sorted, " ")
					if caches[k] == "" {
						caches[k] = untouched(srcs, sorted, roots)
					}
					if s.cache != caches[k] {
						return fmt.Sprintf("generators change the collected values to\n%s\nwhich were\n%s", s.cache, caches[k])
					}
					return ""
				})
			}
		}
	}
}

func untouched(srcs []genrun.Source, names []string, roots []int) string {
	pkgs, err := genrun.Build(w, srcs)
	if err != nil {
		panic(err)
	}
	col := collector(names)
	var list []*loader.Package
	for _, i := range roots {
		list = append(list, pkgs[i])
	}
	var b strings.Builder
	for i := range roots {
		for _, o := range []op{eachType(i), packageMarkers(i)} {
			b.WriteString(o.run(col, list) + "\n")
		}
	}
	return b.String()
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C22" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C22", Body: body,
		Rule:        "all sequences of three (thorough: four) questions to a collector about every pair of six package contents (good and wrong markers), next to a second collector; all schedules with up to two preemptions of two or three goroutines that share collector and registry, under the race detector; all ordered pairs and orders of five generators in one run over all pairs of eleven pieces of source and every choice of root packages; non-trivial: all",
		Assumptions: []string{"packages are parsed before goroutines share them", "callers do not change the values they are given, only maps made for them"}})
}
