// C15: command-line options.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/verifmc/mc"
)

func ptr[T any](t T) *T { return &t }

// the kinds of options
const (
	isGen = iota
	isDefault
	isRule
	isPaths
	isBad   // has to be rejected
	isWeird // rejected, or has to be accepted as nothing at all
)

// option is an option string and what it means.
type option struct {
	text  string
	kind  int
	name  string // of the generator
	gen   genall.Generator
	rule  genall.OutputRule
	paths []string
}

var options = []option{
	{text: "crd", kind: isGen, name: "crd", gen: crd.Generator{}},
	{text: "+crd:maxDescLen=1,allowDangerousTypes=true", kind: isGen, name: "crd", gen: crd.Generator{MaxDescLen: ptr(1), AllowDangerousTypes: ptr(true)}},
	{text: "object", kind: isGen, name: "object", gen: deepcopy.Generator{}},
	{text: "object:headerFile=x,year=2020", kind: isGen, name: "object", gen: deepcopy.Generator{HeaderFile: "x", Year: "2020"}},
	{text: "rbac:roleName=r", kind: isGen, name: "rbac", gen: rbac.Generator{RoleName: "r"}},
	{text: "webhook", kind: isGen, name: "webhook", gen: webhook.Generator{}},
	{text: "schemapatch:manifests=./m", kind: isGen, name: "schemapatch", gen: schemapatcher.Generator{ManifestsPath: "./m"}},
	{text: "output:dir=a", kind: isDefault, rule: genall.OutputToDirectory("a")},
	{text: "output:none", kind: isDefault, rule: genall.OutputToNothing},
	{text: "output:artifacts:config=c,code=d", kind: isDefault, rule: genall.OutputArtifacts{Config: "c", Code: "d"}},
	{text: "output:crd:dir=b", kind: isRule, name: "crd", rule: genall.OutputToDirectory("b")},
	{text: "output:crd:stdout", kind: isRule, name: "crd", rule: genall.OutputToStdout},
	{text: "+output:object:none", kind: isRule, name: "object", rule: genall.OutputToNothing},
	{text: "output:rbac:artifacts:config=e", kind: isRule, name: "rbac", rule: genall.OutputArtifacts{Config: "e"}},
	{text: "output:webhook:dir=./f", kind: isRule, name: "webhook", rule: genall.OutputToDirectory("./f")},
	{text: "paths=x/y", kind: isPaths, paths: []string{"x/y"}},
	{text: "paths={z,x/y...}", kind: isPaths, paths: []string{"z", "x/y..."}},
	{text: "paths=w;v", kind: isPaths, paths: []string{"w", "v"}},
	{text: "", kind: isWeird},
	{text: "nope", kind: isBad},
	// the ones below are only used in shorter lists
	{text: "applyconfiguration", kind: isGen, name: "applyconfiguration", gen: applyconfiguration.Generator{}},
	{text: "applyconfiguration:headerFile=x", kind: isGen, name: "applyconfiguration", gen: applyconfiguration.Generator{HeaderFile: "x"}},
	{text: "+crd", kind: isGen, name: "crd", gen: crd.Generator{}},
	{text: "crd:crdVersions=v1", kind: isGen, name: "crd", gen: crd.Generator{CRDVersions: []string{"v1"}}},
	{text: "crd:crdVersions={v1},generateEmbeddedObjectMeta=false,headerFile=\"a b\",year=2020,ignoreUnexportedFields=true", kind: isGen, name: "crd", gen: crd.Generator{CRDVersions: []string{"v1"}, GenerateEmbeddedObjectMeta: ptr(false), HeaderFile: "a b", Year: "2020", IgnoreUnexportedFields: ptr(true)}},
	{text: "rbac:roleName=r,fileName=f.yaml,headerFile=h", kind: isGen, name: "rbac", gen: rbac.Generator{RoleName: "r", FileName: "f.yaml", HeaderFile: "h"}},
	{text: "webhook:headerFile=h,year=1", kind: isGen, name: "webhook", gen: webhook.Generator{HeaderFile: "h", Year: "1"}},
	{text: "schemapatch:manifests=m,maxDescLen=0,generateEmbeddedObjectMeta=true", kind: isGen, name: "schemapatch", gen: schemapatcher.Generator{ManifestsPath: "m", MaxDescLen: ptr(0), GenerateEmbeddedObjectMeta: ptr(true)}},
	{text: "output:stdout", kind: isDefault, rule: genall.OutputToStdout},
	{text: "+output:dir=\"g h\"", kind: isDefault, rule: genall.OutputToDirectory("g h")},
	{text: "output:artifacts:config=c", kind: isDefault, rule: genall.OutputArtifacts{Config: "c"}},
	{text: "output:object:artifacts:code=d,config=c", kind: isRule, name: "object", rule: genall.OutputArtifacts{Config: "c", Code: "d"}},
	{text: "output:schemapatch:dir=m", kind: isRule, name: "schemapatch", rule: genall.OutputToDirectory("m")},
	{text: "output:applyconfiguration:none", kind: isRule, name: "applyconfiguration", rule: genall.OutputToNothing},
	{text: "output:rbac:none", kind: isRule, name: "rbac", rule: genall.OutputToNothing},
	{text: "output:rbac:stdout", kind: isRule, name: "rbac", rule: genall.OutputToStdout},
	{text: "+paths=u", kind: isPaths, paths: []string{"u"}},
	{text: "paths=\"t\"", kind: isPaths, paths: []string{"t"}},
	{text: "+", kind: isWeird},
	{text: "++crd", kind: isBad},
	{text: "=", kind: isBad},
	{text: ":", kind: isBad},
	{text: "crd:", kind: isWeird},
	{text: "crd:bogus=1", kind: isBad},
	{text: "crd:maxDescLen=x", kind: isBad},
	{text: "crd:maxDescLen", kind: isBad},
	{text: "crd=1", kind: isBad},
	{text: "crdx", kind: isBad},
	{text: "CRD", kind: isBad},
	{text: "rbac", kind: isBad},
	{text: "rbac:fileName=x", kind: isBad},
	{text: "schemapatch", kind: isBad},
	{text: "output", kind: isBad},
	{text: "output:", kind: isBad},
	{text: "output:nope", kind: isBad},
	{text: "output:dir", kind: isBad},
	{text: "output:crd", kind: isBad},
	{text: "output:crd:nope", kind: isBad},
	{text: "output:nope:dir=x", kind: isBad},
	{text: "output:crd:dir:x=y", kind: isBad},
	{text: "output:artifacts", kind: isBad},
	{text: "output:artifacts:code=x", kind: isBad},
	{text: "output:artifacts:config=x,bogus=y", kind: isBad},
	{text: "paths", kind: isBad},
	{text: "path=x", kind: isBad},
	{text: "help", kind: isBad},
	{text: "crd,object", kind: isBad},
	{text: "kubebuilder:rbac", kind: isBad},
	{text: "é", kind: isBad},
	{text: "\x00", kind: isBad},
}

const long = 20 // options for longer lists

func registry() *markers.Registry {
	reg := &markers.Registry{}
	gens := map[string]genall.Generator{}
	for _, o := range options {
		if o.kind == isGen {
			gens[o.name] = reflect.Zero(reflect.TypeOf(o.gen)).Interface().(genall.Generator)
		}
	}
	rules := map[string]genall.OutputRule{"dir": genall.OutputToDirectory(""), "none": genall.OutputToNothing, "stdout": genall.OutputToStdout, "artifacts": genall.OutputArtifacts{}}
	add := func(name string, v any) {
		if err := reg.Register(markers.Must(markers.MakeDefinition(name, markers.DescribesPackage, v))); err != nil {
			panic(err)
		}
	}
	for n, g := range gens {
		add(n, g)
		for rn, ru := range rules {
			add("output:"+n+":"+rn, ru)
		}
	}
	for rn, ru := range rules {
		add("output:"+rn, ru)
	}
	if err := genall.RegisterOptionsMarkers(reg); err != nil {
		panic(err)
	}
	return reg
}

// result of the options.
type result struct {
	err   error
	panic string
	rt    *genall.Runtime
	calls []string // calls of the package driver
}

var optionsReg *markers.Registry

func run(log string, opts []string) (res result) {
	_ = os.WriteFile(log, nil, 0o644)
	defer func() {
		if e := recover(); e != nil {
			res.panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	res.rt, res.err = genall.FromOptionsWithConfig(&packages.Config{}, optionsReg, opts)
	data, _ := os.ReadFile(log)
	for _, l := range strings.Split(string(data), "\n") {
		if l != "" {
			res.calls = append(res.calls, l)
		}
	}
	return res
}

// want is what a list of options means.
type want struct {
	bad    []string // why it has to be rejected
	maybe  bool     // it may be rejected
	gens   []option
	paths  []string
	def    []genall.OutputRule // the last one, or any of several
	byName map[string][]genall.OutputRule
}

func model(list []option) want {
	w := want{byName: map[string][]genall.OutputRule{}}
	have := map[string]bool{}
	for _, o := range list {
		switch o.kind {
		case isGen:
			if have[o.name] {
				w.bad = append(w.bad, "two "+o.name)
			}
			have[o.name] = true
			w.gens = append(w.gens, o)
		case isDefault:
			w.def = append(w.def, o.rule)
		case isRule:
			w.byName[o.name] = append(w.byName[o.name], o.rule)
		case isPaths:
			w.paths = append(w.paths, o.paths...)
		case isBad:
			w.bad = append(w.bad, "option "+o.text)
		case isWeird:
			w.maybe = true
		}
	}
	for n := range w.byName {
		if !have[n] {
			w.bad = append(w.bad, "output of "+n)
		}
	}
	return w
}

func check(list []option, res result) string {
	w := model(list)
	if res.panic != "" {
		return "panic: " + res.panic
	}
	if len(w.bad) > 0 {
		if res.err == nil {
			return fmt.Sprint("accepted in spite of ", w.bad)
		}
		return ""
	}
	if res.err != nil {
		if w.maybe && strings.Contains(res.err.Error(), "option") {
			return ""
		}
		return "rejected: " + res.err.Error()
	}
	for _, o := range list {
		if o.text == "crd:" {
			// either crd without settings or nothing
			return ""
		}
	}
	if len(res.rt.Generators) != len(w.gens) {
		return fmt.Sprintf("%d generators instead of %d", len(res.rt.Generators), len(w.gens))
	}
	for i, g := range w.gens {
		got := res.rt.Generators[i]
		val := reflect.ValueOf(*got)
		if val.Kind() == reflect.Pointer {
			val = val.Elem()
		}
		if !reflect.DeepEqual(val.Interface(), g.gen) {
			return fmt.Sprintf("generator %d is %#v", i, *got)
		}
		rule := res.rt.OutputRules.ForGenerator(got)
		var allowed []genall.OutputRule
		switch {
		case len(w.byName[g.name]) > 0:
			allowed = w.byName[g.name]
		case len(w.def) > 0:
			allowed = w.def
		default:
			allowed = []genall.OutputRule{genall.OutputArtifacts{Config: genall.OutputToDirectory("config/" + g.name)}}
		}
		ok := false
		for _, a := range allowed {
			ok = ok || reflect.DeepEqual(a, rule)
		}
		if !ok {
			return fmt.Sprintf("the output rule of %s is %#v", g.name, rule)
		}
	}
	// the paths
	seen := map[string]bool{}
	var paths []string
	for _, p := range w.paths {
		if !seen[p] {
			seen[p] = true
			paths = append(paths, p)
		}
	}
	var roots []string
	for _, p := range res.rt.Roots {
		roots = append(roots, p.PkgPath)
	}
	wantRoots := paths
	if len(paths) == 0 {
		wantRoots = []string{"here"}
	}
	if !reflect.DeepEqual(roots, wantRoots) {
		return fmt.Sprintf("roots %v instead of %v (driver: %v)", roots, wantRoots, res.calls)
	}
	return ""
}

func registered(opts []string, list []option) string {
	w := model(list)
	reg, err := genall.RegistryFromOptions(optionsReg, opts)
	if len(w.bad) > 0 {
		if err == nil {
			return "help is accepted in spite of " + fmt.Sprint(w.bad)
		}
		return ""
	}
	if w.maybe {
		return ""
	}
	if err != nil {
		return "help: " + err.Error()
	}
	have := map[string]bool{}
	for _, d := range reg.AllDefinitions() {
		have[fmt.Sprint(d.Name, " ", d.Target)] = true
	}
	wantAll := map[string]bool{}
	for _, g := range w.gens {
		one := &markers.Registry{}
		if err := g.gen.RegisterMarkers(one); err != nil {
			return err.Error()
		}
		for _, d := range one.AllDefinitions() {
			wantAll[fmt.Sprint(d.Name, " ", d.Target)] = true
		}
	}
	if !reflect.DeepEqual(have, wantAll) {
		return fmt.Sprintf("help knows %d markers instead of %d", len(have), len(wantAll))
	}
	return ""
}

const driver = `#!/bin/sh
echo "$PWD $*" >> "$VERIF_DRIVER_LOG"
roots= pkgs= sep=
if [ $# = 0 ]; then set -- here; fi
for a in "$@"; do
  case "$roots" in *"\"$a\""*) continue;; esac
  roots="$roots$sep\"$a\""
  pkgs="$pkgs$sep{\"ID\":\"$a\",\"Name\":\"p\",\"PkgPath\":\"$a\"}"
  sep=,
done
echo "{\"Compiler\":\"gc\",\"Arch\":\"amd64\",\"Roots\":[$roots],\"Packages\":[$pkgs]}"
`

func body(r *mc.Run) {
	optionsReg = registry()
	drv := filepath.Join(r.Scratch, "driver.sh")
	if err := os.WriteFile(drv, []byte(driver), 0o755); err != nil {
		panic(err)
	}
	log := filepath.Join(r.Scratch, "driver.log")
	os.Setenv("VERIF_DRIVER_LOG", log)
	os.Setenv("GOPACKAGESDRIVER", drv)
	one := func(list []option) {
		if r.Expired() || !r.Mine() {
			return
		}
		var texts []string
		nontrivial := false
		for _, o := range list {
			texts = append(texts, o.text)
			nontrivial = nontrivial || o.kind != isBad
		}
		r.Case(fmt.Sprintf("options %q", texts), "", nontrivial && len(list) > 1, func() string {
			res := run(log, texts)
			r.State(fmt.Sprint(texts))
			r.Transition(len(list))
			if res.err != nil {
				r.Outcome("rejected: " + strings.SplitN(res.err.Error(), "\"", 2)[0])
			} else {
				r.Outcome(fmt.Sprint("accepted ", len(model(list).gens)))
			}
			if msg := check(list, res); msg != "" {
				return msg
			}
			if len(list) <= 2 {
				return registered(texts, list)
			}
			return ""
		})
	}
	one(nil)
	for _, a := range options {
		one([]option{a})
		for _, b := range options {
			one([]option{a, b})
		}
	}
	// three, four, ...
	vocab := options[:long]
	max := 3
	if r.Thorough {
		max = 4
	}
	var rec func(cur []option)
	rec = func(cur []option) {
		if len(cur) >= 3 {
			one(cur)
		}
		if len(cur) == max || r.Expired() {
			return
		}
		for _, o := range vocab {
			rec(append(append([]option{}, cur...), o))
		}
	}
	rec(nil)
	// everything at once: every generator with every subset of the rules
	byText := map[string]option{}
	for _, o := range options {
		byText[o.text] = o
	}
	all := []option{byText["crd"], byText["object"], byText["rbac:roleName=r"], byText["webhook"], byText["schemapatch:manifests=./m"]}
	ruleOf := []option{byText["output:crd:dir=b"], byText["+output:object:none"], byText["output:rbac:artifacts:config=e"], byText["output:webhook:dir=./f"], byText["output:schemapatch:dir=m"], byText["output:dir=a"], byText["paths=x/y"], byText["paths=w;v"]}
	for gm := 0; gm < 1<<len(all); gm++ {
		for rm := 0; rm < 1<<len(ruleOf); rm++ {
			for order := 0; order < 2; order++ {
				if gm != 1<<len(all)-1 && (order == 1 || !r.Thorough && rm>>len(all) != 1) {
					continue
				}
				var gs, rs []option
				for i, o := range all {
					if gm>>i&1 == 1 {
						gs = append(gs, o)
					}
				}
				for i, o := range ruleOf {
					if rm>>i&1 == 1 {
						rs = append(rs, o)
					}
				}
				if order == 0 {
					one(append(gs, rs...))
				} else {
					one(append(rs, gs...))
				}
			}
		}
	}
	os.Unsetenv("GOPACKAGESDRIVER")
	command(r)
	r.Sample("lists of up to three options, every subset of generators with every subset of rules, and the command itself")
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C15" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C15", Body: body,
		Rule:        "every list of up to two options of a vocabulary of 69 (every generator with and without settings, every output rule, paths, and malformed options), every list of three (thorough: four) of twenty of them, and every subset of five generators with output rules are parsed into a runtime and compared with a reference model; the command itself is run on a module for one and two generators with every default and own output rule, every rejected option, packages with errors, build tags and help; non-trivial: at least two options, not all malformed",
		Assumptions: []string{"the registry of the first part registers the same generators and rules as the command, whose own registry is exercised by the second part", "packages are listed by a stand-in driver in the first part and by the go command in the second", "if an output rule is given twice, either counts"}})
}
