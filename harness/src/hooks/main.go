// C17: webhook configurations.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/verifmc/genrun"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/rt"
	"sigs.k8s.io/controller-tools/verifmc/world"
	"sigs.k8s.io/yaml"
)

type obj = map[string]any

// attribute is one argument of the marker with its values; the first one is
// the one that is used where the attribute is not varied.
type attribute struct {
	name string
	vals []value
}

// value is one way to write an argument.
type value struct {
	text string // "" for not written
	bad  bool   // has to be reported
	// what it means
	list []string
	str  string
	num  int64
}

func str(text, means string) value { return value{text: text, str: means} }
func bad(text string) value        { return value{text: text, bad: true} }
func list(text string, means ...string) value {
	return value{text: text, list: means}
}

var attributes = []attribute{
	{"mutating", []value{str("false", ""), str("true", "true")}},
	{"failurePolicy", []value{str("fail", "Fail"), str("Ignore", "Ignore"), str("FAIL", "Fail"), str("ignore", "Ignore"), bad("")}},
	{"matchPolicy", []value{str("", ""), str("exact", "Exact"), str("Equivalent", "Equivalent"), str("EXACT", "Exact"), bad("Other"), str(`"equivalent"`, "Equivalent")}},
	{"sideEffects", []value{str("None", "None"), str("none", "None"), str("NoneOnDryRun", "NoneOnDryRun"), str("noneondryrun", "NoneOnDryRun"), bad("Some"), bad("some"), bad("Unknown"), bad("Other"), bad("")}},
	{"timeoutSeconds", []value{{}, {text: "1", num: 1}, {text: "10", num: 10}, {text: "30", num: 30}, bad("31"), bad("-1"), bad("4294967306"), bad("4294967296"), bad("-4294967286"), bad("x"), bad("1.5")}},
	{"groups", []value{list("apps", "apps"), list("core", ""), list(`""`, ""), list("core;apps", "", "apps"), list("apps;core;x.io", "apps", "", "x.io"), list("core;core;a", "", "", "a"), list(`"*"`, "*"), list(`{a,"core",b}`, "a", "", "b"), list("scored", "scored"), bad("")}},
	{"resources", []value{list("pods", "pods"), list("pods;pods/status", "pods", "pods/status"), list(`"*/*"`, "*/*"), list("core", "core"), bad("")}},
	{"verbs", []value{list("create", "CREATE"), list("Create;UPDATE;delete;cOnnect", "CREATE", "UPDATE", "DELETE", "CONNECT"), list("*", "*"), list("update;create", "UPDATE", "CREATE"), bad("")}},
	{"versions", []value{list("v1", "v1"), list("v1;v1beta1", "v1", "v1beta1"), list("*", "*"), list("v2;v1", "v2", "v1"), bad("")}},
	{"name", []value{str("a.b.c", "a.b.c"), str(`"x.y.z"`, "x.y.z"), bad("")}},
	{"serviceName", []value{{}, str("svc", "svc"), str(`""`, "")}},
	{"serviceNamespace", []value{{}, str("space", "space")}},
	{"path", []value{str("/p", "/p"), {}, str(`"/a,b"`, "/a,b"), str(`""`, "")}},
	{"url", []value{{}, str(`"https://h:9443/p"`, "https://h:9443/p")}},
	{"servicePort", []value{{}, {text: "443", num: 443}, {text: "1", num: 1}, bad("4294967297"), bad("x")}},
	{"webhookVersions", []value{{}, list("v1", "v1"), list("v1;v1", "v1"), bad("v1beta1"), bad("v1;v1beta1"), bad("v2")}},
	{"admissionReviewVersions", []value{list("v1", "v1"), list("v1;v1beta1", "v1", "v1beta1"), list("v1beta1;v1", "v1beta1", "v1"), bad("{}"), bad("")}},
	{"reinvocationPolicy", []value{{}, str("Never", "Never"), str("never", "Never"), str("IfNeeded", "IfNeeded"), str("ifneeded", "IfNeeded"), bad("Other")}},
}

var attrIndex = func() map[string]int {
	m := map[string]int{}
	for i, a := range attributes {
		m[a.name] = i
	}
	return m
}()

// hook is one marker: an index into the values of every attribute.
type hook []int

func (h hook) get(name string) value { i := attrIndex[name]; return attributes[i].vals[h[i]] }

func (h hook) set(name string, text string) hook {
	n := append(hook{}, h...)
	i := attrIndex[name]
	for j, v := range attributes[i].vals {
		if v.text == text {
			n[i] = j
			return n
		}
	}
	panic(name + " " + text)
}

func (h hook) marker(reverse bool) string {
	var args []string
	for i, a := range attributes {
		if t := a.vals[h[i]].text; t != "" {
			args = append(args, a.name+"="+t)
		}
	}
	if reverse {
		for i, j := 0, len(args)-1; i < j; i, j = i+1, j-1 {
			args[i], args[j] = args[j], args[i]
		}
	}
	return "+kubebuilder:webhook:" + strings.Join(args, ",")
}

func (h hook) mutating() bool { return h.get("mutating").str == "true" }

// expect gives the entry of the marker, or false for an error.
func (h hook) expect() (obj, bool) {
	for i, a := range attributes {
		v := a.vals[h[i]]
		if v.bad {
			// a policy that the entry has no field for is not looked at
			if a.name == "reinvocationPolicy" && !h.mutating() {
				continue
			}
			return nil, false
		}
	}
	path, url := h.get("path").str, h.get("url").str
	if (path == "") == (url == "") {
		return nil, false
	}
	e := obj{
		"name":                    h.get("name").str,
		"failurePolicy":           h.get("failurePolicy").str,
		"sideEffects":             h.get("sideEffects").str,
		"admissionReviewVersions": h.get("admissionReviewVersions").list,
		"rules": []any{obj{
			"apiGroups":   h.get("groups").list,
			"apiVersions": h.get("versions").list,
			"operations":  h.get("verbs").list,
			"resources":   h.get("resources").list,
		}},
	}
	if m := h.get("matchPolicy").str; m != "" {
		e["matchPolicy"] = m
	}
	if t := h.get("timeoutSeconds").num; t != 0 {
		e["timeoutSeconds"] = t
	}
	if p := h.get("reinvocationPolicy").str; p != "" && h.mutating() {
		e["reinvocationPolicy"] = p
	}
	if url != "" {
		e["clientConfig"] = obj{"url": url}
	} else {
		svc := obj{"name": "webhook-service", "namespace": "system", "path": path}
		if n := h.get("serviceName").str; n != "" {
			svc["name"] = n
		}
		if n := h.get("serviceNamespace").str; n != "" {
			svc["namespace"] = n
		}
		if p := h.get("servicePort").num; p != 0 {
			svc["port"] = p
		}
		e["clientConfig"] = obj{"service": svc}
	}
	return e, true
}

// configuration is a kubebuilder:webhookconfiguration marker.
type configuration struct {
	mutating bool
	name     string
}

func (c configuration) marker() string {
	s := fmt.Sprintf("+kubebuilder:webhookconfiguration:mutating=%v", c.mutating)
	if c.name != "" {
		s += ",name=" + c.name
	}
	return s
}

// item is a marker in some package.
type item struct {
	hook hook
	conf *configuration
}

func (i item) marker(reverse bool) string {
	if i.conf != nil {
		return i.conf.marker()
	}
	return i.hook.marker(reverse)
}

// expect computes the whole manifest: the packages in order.
func expect(pkgs [][]item) ([]any, bool) {
	names := map[bool]string{true: "mutating-webhook-configuration", false: "validating-webhook-configuration"}
	seen := map[bool]bool{}
	entries := map[bool][]any{}
	ok := true
	for _, p := range pkgs {
		for _, it := range p {
			if it.conf != nil {
				if seen[it.conf.mutating] {
					ok = false
				}
				seen[it.conf.mutating] = true
				if it.conf.name != "" {
					names[it.conf.mutating] = it.conf.name
				}
				continue
			}
			e, fine := it.hook.expect()
			if !fine {
				ok = false
				continue
			}
			entries[it.hook.mutating()] = append(entries[it.hook.mutating()], e)
		}
	}
	if !ok {
		return nil, false
	}
	var docs []any
	for _, mutating := range []bool{true, false} {
		es := entries[mutating]
		if len(es) == 0 {
			continue
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].(obj)["name"].(string) < es[j].(obj)["name"].(string) })
		kind := "ValidatingWebhookConfiguration"
		if mutating {
			kind = "MutatingWebhookConfiguration"
		}
		docs = append(docs, obj{"apiVersion": "admissionregistration.k8s.io/v1", "kind": kind, "metadata": obj{"name": names[mutating]}, "webhooks": es})
	}
	return docs, true
}

var (
	w   *world.World
	reg *markers.Registry
)

func generate(g webhook.Generator, srcs []genrun.Source, order []int, input genrun.Input) genrun.Outcome {
	pkgs, err := genrun.Build(w, srcs)
	if err != nil {
		return genrun.Outcome{Panic: "harness: " + err.Error()}
	}
	var roots []*loader.Package
	for _, i := range order {
		roots = append(roots, pkgs[i])
	}
	ctx := &genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Roots: roots, InputRule: input}
	return genrun.Run(g, ctx, pkgs)
}

func source(pkgs [][]item, reverse bool) []genrun.Source {
	var out []genrun.Source
	for i, p := range pkgs {
		s := ""
		for _, it := range p {
			s += "// " + it.marker(reverse) + "\n"
		}
		out = append(out, genrun.Source{Path: fmt.Sprintf("ex.com/p%d", i), Files: []string{s + fmt.Sprintf("package p%d\n", i)}})
	}
	return out
}

func compare(out genrun.Outcome, docs []any, ok bool, head string) string {
	if out.Panic != "" {
		return "panic: " + out.Panic
	}
	if !ok {
		if !out.Failed() {
			return "no error reported:\n" + out.String()
		}
		return ""
	}
	if out.Failed() {
		return "unexpected error: " + strings.Join(out.Errs, " | ")
	}
	if len(docs) == 0 {
		if len(out.Files) > 0 {
			return "something is written for no webhooks: " + out.String()
		}
		return ""
	}
	text, there := out.Files["manifests.yaml"]
	if !there || len(out.Files) != 1 || len(out.Twice) > 0 {
		return "wrong files: " + out.String()
	}
	if !strings.HasPrefix(text, head+"---\n") {
		return "the header is not as requested:\n" + text
	}
	text = strings.TrimPrefix(text, head+"---\n")
	parts := strings.Split(text, "\n---\n")
	var got []any
	for _, p := range parts {
		var o any
		if err := yaml.Unmarshal([]byte(p), &o); err != nil {
			return "unreadable: " + err.Error()
		}
		got = append(got, o)
	}
	b, _ := json.Marshal(docs)
	var want []any
	_ = json.Unmarshal(b, &want)
	if !reflect.DeepEqual(got, want) {
		g, _ := json.Marshal(got)
		return "got  " + string(g) + "\nwant " + string(b)
	}
	return ""
}

func body(r *mc.Run) {
	w = world.Must(world.Light...)
	reg = &markers.Registry{}
	if err := (webhook.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
	try := func(key string, pkgs [][]item, order []int, reverse bool) {
		if r.Expired() || !r.Mine() {
			return
		}
		srcs := source(pkgs, reverse)
		text := ""
		for _, s := range srcs {
			text += s.Files[0]
		}
		r.Case(key, text, true, func() string {
			out := generate(webhook.Generator{}, srcs, order, nil)
			var ordered [][]item
			for _, i := range order {
				ordered = append(ordered, pkgs[i])
			}
			docs, ok := expect(ordered)
			r.State(text + fmt.Sprint(order))
			r.Transition(1)
			b, _ := json.Marshal(docs)
			r.Outcome(fmt.Sprint(ok, string(b)))
			if ok {
				r.Count("accepted", 1)
			} else {
				r.Count("rejected", 1)
			}
			return compare(out, docs, ok, "")
		})
	}
	// one marker: every combination of values for every choice of up to depth
	// attributes, for both kinds
	depth := 3
	if r.Thorough {
		depth = 4
	}
	n := len(attributes)
	var vary func(h hook, from, left int)
	seen := map[string]bool{}
	vary = func(h hook, from, left int) {
		k := fmt.Sprint(h)
		if !seen[k] {
			seen[k] = true
			rev := false
			for _, x := range h {
				rev = rev != (x%2 == 1)
			}
			try("one "+h.marker(rev), [][]item{{{hook: h}}}, []int{0}, rev)
		}
		if left == 0 {
			return
		}
		for i := from; i < n; i++ {
			for v := 1; v < len(attributes[i].vals); v++ {
				m := append(hook{}, h...)
				m[i] = v
				vary(m, i+1, left-1)
			}
		}
	}
	base := make(hook, n)
	vary(base, 1, depth)
	vary(base.set("mutating", "true"), 1, depth)
	if depth == 3 {
		// the client configuration and the values that depend on the kind, fully
		for _, mut := range []string{"true", "false"} {
			b := base.set("mutating", mut)
			group := []string{"serviceName", "serviceNamespace", "path", "url", "servicePort", "reinvocationPolicy"}
			var rec func(h hook, i int)
			rec = func(h hook, i int) {
				if i == len(group) {
					if k := fmt.Sprint(h); !seen[k] {
						seen[k] = true
						try("one "+h.marker(false), [][]item{{{hook: h}}}, []int{0}, false)
					}
					return
				}
				for v := range attributes[attrIndex[group[i]]].vals {
					m := append(hook{}, h...)
					m[attrIndex[group[i]]] = v
					rec(m, i+1)
				}
			}
			rec(b, 0)
		}
	}
	// several markers in every order and distribution
	names := []string{"a.b.c", `"x.y.z"`}
	mk := func(mut, name, verbs string) item {
		return item{hook: base.set("mutating", mut).set("name", name).set("verbs", verbs)}
	}
	var pool []item
	for _, mut := range []string{"true", "false"} {
		for _, name := range names {
			pool = append(pool, mk(mut, name, "create"))
		}
	}
	pool = append(pool,
		mk("true", "a.b.c", "*"), // the same name again
		item{hook: base.set("groups", "core").set("name", `"x.y.z"`)},
		item{hook: base.set("sideEffects", "Some")},
		item{hook: base.set("mutating", "true").set("webhookVersions", "v1beta1")},
		item{conf: &configuration{true, "m"}},
		item{conf: &configuration{true, ""}},
		item{conf: &configuration{true, "m2"}},
		item{conf: &configuration{false, "v"}},
		item{conf: &configuration{false, "v2"}},
	)
	maxItems := 3
	if r.Thorough {
		maxItems = 4
	}
	var seq func(cur []int)
	seq = func(cur []int) {
		if len(cur) > 0 {
			var its []item
			for _, i := range cur {
				its = append(its, pool[i])
			}
			for cut := 0; cut <= len(its); cut++ {
				key := fmt.Sprintf("many %v cut %d", cur, cut)
				if cut == 0 {
					try(key, [][]item{its}, []int{0}, false)
					continue
				}
				if cut == len(its) && len(its) > 2 {
					// three packages
					if len(its) == 3 {
						try(key+" three", [][]item{its[:1], its[1:2], its[2:]}, []int{0, 1, 2}, false)
					}
					continue
				}
				try(key, [][]item{its[:cut], its[cut:]}, []int{0, 1}, false)
			}
		}
		if len(cur) == maxItems {
			return
		}
		for i := range pool {
			seq(append(append([]int{}, cur...), i))
		}
	}
	seq(nil)
	// markers with names of their own: any order of markers and of packages
	// gives the same bytes, whatever the order of maps
	distinct := []item{
		mk("true", "a.b.c", "create"), mk("true", `"x.y.z"`, "*"), mk("false", "a.b.c", "update;create"), mk("false", `"x.y.z"`, "create"),
		{conf: &configuration{true, "m"}}, {conf: &configuration{false, "v"}},
	}
	for mask := 1; mask < 1<<len(distinct); mask++ {
		var its []item
		for i, it := range distinct {
			if mask>>i&1 == 1 {
				its = append(its, it)
			}
		}
		if len(its) > 4 && !r.Thorough {
			continue
		}
		if r.Expired() || !r.Mine() {
			continue
		}
		r.Case(fmt.Sprintf("orders %b", mask), source([][]item{its}, false)[0].Files[0], true, func() string {
			want := ""
			for _, perm := range genrun.Permutations(len(its)) {
				for cut := 0; cut <= len(its); cut++ {
					var p [][]item
					a := []item{}
					for _, i := range perm {
						a = append(a, its[i])
					}
					p = [][]item{a[:cut], a[cut:]}
					for _, order := range [][]int{{0, 1}, {1, 0}} {
						r.Transition(1)
						r.State(fmt.Sprint(mask, perm, cut, order))
						got := generate(webhook.Generator{}, source(p, false), order, nil).String()
						if want == "" {
							want = got
						}
						if got != want {
							return fmt.Sprintf("order %v cut %d packages %v changes the result from\n%s\nto\n%s", perm, cut, order, want, got)
						}
					}
				}
			}
			msg := ""
			res := rt.Explore(2, 3000, func(*rt.Choices) bool {
				got := generate(webhook.Generator{}, source([][]item{its}, false), []int{0}, nil).String()
				if got != want {
					msg = "map order changes the result from\n" + want + "\nto\n" + got
				}
				return msg == ""
			})
			r.Count("map_orders", res.Executions)
			return msg
		})
	}
	// a second run in the same context gives the same, and the markers that
	// other generators see are as written
	for i := range pool {
		for j := range pool {
			if !r.Mine() {
				continue
			}
			pkgs := [][]item{{pool[i], pool[j]}}
			srcs := source(pkgs, false)
			r.Case(fmt.Sprintf("again %d %d", i, j), srcs[0].Files[0], true, func() string {
				built, err := genrun.Build(w, srcs)
				if err != nil {
					return "harness: " + err.Error()
				}
				col := &markers.Collector{Registry: reg}
				ctx := &genall.GenerationContext{Collector: col, Roots: built}
				first := genrun.Run(webhook.Generator{}, ctx, built).String()
				second := genrun.Run(webhook.Generator{}, ctx, built).String()
				if first != second {
					return "a second run gives\n" + second + "\nafter\n" + first
				}
				fresh, err := markers.PackageMarkers(&markers.Collector{Registry: reg}, built[0])
				if err != nil {
					return ""
				}
				used, err := markers.PackageMarkers(col, built[0])
				if err != nil || !reflect.DeepEqual(fresh, used) {
					return fmt.Sprintf("the run changed the markers from %v to %v", fresh, used)
				}
				return ""
			})
		}
	}
	// header
	for _, h := range []string{"", "# Copyright YEAR x\n", "# YEAR YEAR\nYEAR\n"} {
		for _, y := range []string{"", "2031"} {
			if !r.Mine() {
				continue
			}
			r.Case("header "+strconv.Quote(h)+y, h, true, func() string {
				p := [][]item{{mk("true", "a.b.c", "create"), mk("false", "a.b.c", "create")}}
				docs, ok := expect(p)
				out := generate(webhook.Generator{HeaderFile: "h", Year: y}, source(p, false), []int{0}, genrun.Input{"h": h})
				if msg := compare(out, docs, ok, strings.ReplaceAll(h, " YEAR", " "+y)); msg != "" {
					return msg
				}
				if out := generate(webhook.Generator{HeaderFile: "missing"}, source(p, false), []int{0}, genrun.Input{}); !out.Failed() {
					return "no error for a missing header file"
				}
				return ""
			})
		}
	}
}

func main() {
	if os.Args[1] != "C17" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C17", Body: body,
		Rule:        "every combination of values of every three (thorough: four) of the 18 attributes of a webhook marker, all sequences of up to three (four) markers and configuration markers in every distribution over packages, all orders of markers with distinct names; non-trivial: every case",
		Assumptions: []string{"the documented meaning and spelling of every attribute, as written down in the harness", "entries with the same name keep their order"}})
}
