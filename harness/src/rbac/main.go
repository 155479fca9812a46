// C01 / C02: RBAC role generation.
//
// Every multiset of up to N +kubebuilder:rbac markers over small argument
// domains is generated by the real code, in every order, in one or two
// packages, and under every map iteration order with a bounded number of
// deviations.  Oracle C01: for every request of a universe that separates the
// alphabet, the generated roles allow it iff the declared markers do.
// Oracle C02: same multiset => same bytes; rules are sorted and irredundant.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	rbacv1 "k8s.io/api/rbac/v1"
	"sigs.k8s.io/yaml"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/verifmc/genrun"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/rt"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

// decl is one declared rule; nil slice = argument absent.
type decl struct {
	groups, resources, names, urls, verbs []string
	ns                                    string
}

func (d decl) marker() string {
	var args []string
	add := func(k string, v []string) {
		if v == nil {
			return
		}
		var q []string
		for _, s := range v {
			if s == "" || strings.ContainsAny(s, "*/") {
				s = `"` + s + `"`
			}
			q = append(q, s)
		}
		args = append(args, k+"="+strings.Join(q, ";"))
	}
	add("groups", d.groups)
	add("resources", d.resources)
	add("resourceNames", d.names)
	add("urls", d.urls)
	add("verbs", d.verbs)
	if d.ns != "" {
		args = append(args, "namespace="+d.ns)
	}
	return "// +kubebuilder:rbac:" + strings.Join(args, ",")
}

// ---- the reference model: what a set of declarations permits -------------

func has(l []string, v string) bool {
	for _, s := range l {
		if s == v || s == "*" {
			return true
		}
	}
	return false
}

func hasGroup(l []string, v string) bool {
	for _, s := range l {
		if s == "core" {
			s = ""
		}
		if s == v || s == "*" {
			return true
		}
	}
	return false
}

func hasURL(l []string, v string) bool {
	for _, s := range l {
		if s == "*" || s == v || (strings.HasSuffix(s, "*") && strings.HasPrefix(v, strings.TrimSuffix(s, "*"))) {
			return true
		}
	}
	return false
}

type request struct{ verb, group, resource, name, url string }

func allows(d decl, q request) bool {
	if !has(d.verbs, q.verb) {
		return false
	}
	if q.url != "" {
		return hasURL(d.urls, q.url)
	}
	return hasGroup(d.groups, q.group) && has(d.resources, q.resource) && (len(d.names) == 0 || func() bool {
		for _, n := range d.names {
			if n == q.name {
				return true
			}
		}
		return false
	}())
}

var universe = func() []request {
	var out []request
	for _, v := range []string{"get", "list", "watch", "other"} {
		for _, g := range []string{"", "a", "b", "other"} {
			for _, r := range []string{"x", "y", "x/status", "other"} {
				for _, n := range []string{"", "n1", "n2", "other"} {
					out = append(out, request{verb: v, group: g, resource: r, name: n})
				}
			}
		}
		for _, u := range []string{"/u", "/v", "/u/z", "/other"} {
			out = append(out, request{verb: v, url: u})
		}
	}
	return out
}()

// ---- driving the implementation ------------------------------------------

var (
	w   *world.World
	reg *markers.Registry
	ctr int
	// lastRoots are the packages of the last call of roles.
	lastRoots []*loader.Package
)

func roles(pkgs ...[]decl) ([]interface{}, string) {
	var roots []*loader.Package
	for i, ds := range pkgs {
		var src strings.Builder
		for _, d := range ds {
			src.WriteString(d.marker() + "\n")
		}
		src.WriteString("\npackage p\n")
		p, err := w.Pkg(fmt.Sprintf("mem.io/p%d", i), "p", src.String())
		if err != nil {
			return nil, "harness: " + err.Error()
		}
		roots = append(roots, p)
	}
	lastRoots = roots
	ctx := &genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Roots: roots}
	objs, err := rbac.GenerateRoles(ctx, "role")
	if err != nil {
		return nil, "GenerateRoles: " + err.Error()
	}
	for _, r := range roots {
		if len(r.Errors) > 0 {
			return nil, "package errors: " + strings.Join(world.Errors(r), "; ")
		}
	}
	return objs, ""
}

func dump(objs []interface{}) string {
	b, _ := json.Marshal(objs)
	return string(b)
}

// check compares the generated roles with the declarations.
func check(ds []decl, objs []interface{}) string {
	byNS := map[string][]decl{}
	for _, d := range ds {
		byNS[d.ns] = append(byNS[d.ns], d)
	}
	got := map[string][]rbacv1.PolicyRule{}
	prev := ""
	for i, o := range objs {
		ns, name, kind, api := "", "", "", ""
		var rules []rbacv1.PolicyRule
		switch o := o.(type) {
		case rbacv1.ClusterRole:
			rules, name, kind, api = o.Rules, o.Name, o.Kind, o.APIVersion
			if kind != "ClusterRole" {
				return "cluster role with kind " + kind
			}
		case rbacv1.Role:
			ns, rules, name, kind, api = o.Namespace, o.Rules, o.Name, o.Kind, o.APIVersion
			if ns == "" || kind != "Role" {
				return "role with namespace " + ns + ", kind " + kind
			}
		default:
			return fmt.Sprintf("unexpected object %T", o)
		}
		if name != "role" || api != "rbac.authorization.k8s.io/v1" {
			return "role named " + name + " with version " + api
		}
		if _, dup := got[ns]; dup {
			return "two roles for namespace " + ns
		}
		if i > 0 && ns < prev {
			return "roles are not ordered by namespace"
		}
		prev = ns
		got[ns] = rules
		if _, ok := byNS[ns]; !ok {
			return "role for undeclared namespace " + ns
		}
	}
	for ns, want := range byNS {
		for _, q := range universe {
			exp := false
			for _, d := range want {
				if allows(d, q) {
					exp = true
					break
				}
			}
			act := false
			for _, r := range got[ns] {
				if allows(decl{groups: r.APIGroups, resources: r.Resources, names: r.ResourceNames, urls: r.NonResourceURLs, verbs: r.Verbs}, q) {
					act = true
					break
				}
			}
			if exp != act {
				word := "is not granted although declared"
				if act {
					word = "is granted although not declared"
				}
				return fmt.Sprintf("namespace %q: request %+v %s; generated %s", ns, q, word, dump(objs))
			}
		}
	}
	return ""
}

// tidy checks that the rules of each role are sorted lists without duplicates.
func tidy(objs []interface{}) string {
	for _, o := range objs {
		var rules []rbacv1.PolicyRule
		switch o := o.(type) {
		case rbacv1.ClusterRole:
			rules = o.Rules
		case rbacv1.Role:
			rules = o.Rules
		}
		seen := map[string]bool{}
		for _, r := range rules {
			for what, l := range map[string][]string{"apiGroups": r.APIGroups, "resources": r.Resources, "resourceNames": r.ResourceNames, "urls": r.NonResourceURLs, "verbs": r.Verbs} {
				if !sort.StringsAreSorted(l) {
					return "unsorted " + what + ": " + dump(objs)
				}
				for i := 1; i < len(l); i++ {
					if l[i] == l[i-1] {
						return "duplicate in " + what + ": " + dump(objs)
					}
				}
			}
			for _, g := range r.APIGroups {
				if g == "core" {
					return "the core group is not written as the empty string: " + dump(objs)
				}
			}
			k := fmt.Sprintf("%q %q %q %q", r.APIGroups, r.Resources, r.ResourceNames, r.NonResourceURLs)
			if seen[k] {
				return "two rules for the same groups, resources, names and URLs: " + dump(objs)
			}
			seen[k] = true
			if len(r.Verbs) > 1 && has(r.Verbs, "*") && func() bool {
				for _, v := range r.Verbs {
					if v == "*" {
						return true
					}
				}
				return false
			}() {
				return "the verb * is not normalised: " + dump(objs)
			}
		}
	}
	return ""
}

// ---- alphabets -----------------------------------------------------------

type dom struct {
	name                                  string
	groups, resources, names, urls, verbs [][]string
	ns                                    []string
	depth, deepDepth                      int
	mapBound                              int // map-order deviations explored on the canonical sequence
}

func one(s ...string) []string { return s }

var none []string

func (d dom) all() []decl {
	def := func(l [][]string) [][]string {
		if l == nil {
			return [][]string{nil}
		}
		return l
	}
	ns := d.ns
	if ns == nil {
		ns = []string{""}
	}
	var out []decl
	for _, n := range ns {
		for _, v := range d.verbs {
			for _, u := range def(d.urls) {
				for _, nm := range def(d.names) {
					for _, r := range def(d.resources) {
						for _, g := range def(d.groups) {
							out = append(out, decl{g, r, nm, u, v, n})
						}
					}
				}
			}
		}
	}
	return out
}

var (
	get, list, both = one("get"), one("list"), one("get", "list")
	a, b, ab        = one("a"), one("b"), one("b", "a")
	x, y, xy        = one("x"), one("y"), one("y", "x")
)

var domains = []dom{
	{name: "groups×resources×verbs", groups: [][]string{a, b, ab}, resources: [][]string{x, y, xy}, verbs: [][]string{get, list, both}, depth: 3, deepDepth: 4, mapBound: 1},
	{name: "groups×verbs deep", groups: [][]string{a, b, ab}, resources: [][]string{x}, verbs: [][]string{get, list, both}, depth: 4, deepDepth: 5, mapBound: 1},
	{name: "urls", groups: [][]string{none, a}, urls: [][]string{one("/u"), one("/v"), one("/v", "/u")}, verbs: [][]string{get, list, both}, depth: 3, deepDepth: 4, mapBound: 1},
	{name: "urls deep", urls: [][]string{one("/u"), one("/v"), one("/v", "/u"), one("/u/*")}, verbs: [][]string{get, list, both}, depth: 4, deepDepth: 5, mapBound: 1},
	{name: "names", groups: [][]string{a}, resources: [][]string{x, xy}, names: [][]string{none, one("n1"), one("n2"), one("n2", "n1")}, verbs: [][]string{get, list}, depth: 3, deepDepth: 4, mapBound: 1},
	{name: "namespaces", groups: [][]string{a, ab}, resources: [][]string{x, xy}, verbs: [][]string{get, list}, ns: []string{"", "ns1", "ns2"}, depth: 3, deepDepth: 4, mapBound: 1},
	{name: "core and wildcards", groups: [][]string{one("core"), one(""), one("*"), one("core", "a"), one("", "core"), none}, resources: [][]string{x, one("*"), none}, verbs: [][]string{get, one("*"), one("list", "*")}, depth: 2, deepDepth: 3, mapBound: 1},
	{name: "shared arguments", groups: [][]string{one("core", "a"), one("core")}, resources: [][]string{one("x", "y", "x/status"), one("x/status"), one("y")}, names: [][]string{none, one("n1")}, verbs: [][]string{one("watch", "get", "list"), one("list", "list", "get"), one("get")}, depth: 2, deepDepth: 3, mapBound: 1},
	{name: "rules naming resources and urls", groups: [][]string{none, a}, resources: [][]string{none, x, y}, urls: [][]string{none, one("/u"), one("/v")}, verbs: [][]string{get, list}, depth: 3, deepDepth: 4, mapBound: 1},
	{name: "everything, pairs", groups: [][]string{none, one("core"), a, ab}, resources: [][]string{none, x, xy}, names: [][]string{none, one("n1"), one("n2", "n1")}, urls: [][]string{none, one("/u"), one("/v", "/u")}, verbs: [][]string{get, both, one("*")}, ns: []string{"", "ns1"}, depth: 1, deepDepth: 2, mapBound: 0},
	{name: "empty elements", groups: [][]string{one(""), none, one("", "a")}, resources: [][]string{x, none}, names: [][]string{none}, verbs: [][]string{get, list}, depth: 3, deepDepth: 4, mapBound: 1},
}

func key(dn string, ds []decl) string {
	var s []string
	for _, d := range ds {
		s = append(s, strings.TrimPrefix(d.marker(), "// +kubebuilder:rbac:"))
	}
	return dn + ": " + strings.Join(s, " | ")
}

func permutations(n int, f func([]int) bool) {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return f(idx)
		}
		for i := k; i < n; i++ {
			idx[k], idx[i] = idx[i], idx[k]
			ok := rec(k + 1)
			idx[k], idx[i] = idx[i], idx[k]
			if !ok {
				return false
			}
		}
		return true
	}
	rec(0)
}

func main() {
	prop := os.Args[1]
	spec := mc.Spec{Property: prop, Body: func(r *mc.Run) { body(r, prop) },
		Rule: "multisets of rbac markers over the argument domains, each in every order, split over one or two packages and under every map order with the stated number of deviations; non-trivial: at least two markers in the same namespace",
		Assumptions: []string{
			"Kubernetes RBAC semantics as in the reference model (verb, group, resource, name, URL matching with *)",
			"argument values outside the listed domains behave like the listed ones",
		}}
	mc.Main(spec)
}

func body(r *mc.Run, prop string) {
	w = world.Must(world.Light...)
	reg = &markers.Registry{}
	if err := (rbac.Generator{}).RegisterMarkers(reg); err != nil {
		panic(err)
	}
	for _, d := range domains {
		alpha := d.all()
		if prop == "C01" {
			written(r, d, 0, nil)
			for i := range alpha {
				written(r, d, len(alpha)+i, alpha[i:i+1])
				written(r, d, len(alpha)+i, []decl{alpha[i], alpha[(i*7+3)%len(alpha)]})
			}
		}
		depth := d.depth
		mapBound := d.mapBound
		if r.Thorough {
			depth = d.deepDepth
		}
		for n := 1; n <= depth; n++ {
			idx := make([]int, n)
			var rec func(pos, from int)
			rec = func(pos, from int) {
				if r.Expired() {
					return
				}
				if pos == n {
					if !r.Mine() {
						return
					}
					ds := make([]decl, n)
					for i, j := range idx {
						ds[i] = alpha[j]
					}
					one1(r, prop, d.name, ds, mapBound)
					return
				}
				for j := from; j < len(alpha); j++ {
					idx[pos] = j
					rec(pos+1, j)
				}
			}
			rec(0, 0)
		}
	}
}

// written runs the generator as a whole: the documents it writes are those of
// GenerateRoles, in the file asked for and below the header, and there is no
// file without roles.
// With more than a hundred markers to choose from, each list gets one of the
// ways of writing.
func written(r *mc.Run, d dom, n int, from []decl) {
	hdrs := []struct{ file, year, want string }{{}, {file: "h.txt", year: "2031"}}
	headers := genrun.Input{"h.txt": "# of YEAR, YEAR\n# and MYYEAR YEARS\n"}
	hdrs[1].want = strings.ReplaceAll(headers["h.txt"], " YEAR", " 2031")
	ways := 0
	for hi, h := range hdrs {
		for _, file := range []string{"", "x.yaml", "role.yaml"} {
			for split := 0; split < 2; split++ {
				if ways++; n > 200 && ways%12 != n%12 || !r.Mine() || r.Expired() {
					continue
				}
				k := fmt.Sprintf("written %s %q %d %s", key(d.name, from), file, hi, strings.Repeat("split", split))
				r.State(k)
				r.Case(k, k, len(from) > 0, func() string {
					pkgs := [][]decl{from}
					if split == 1 {
						pkgs = [][]decl{from[:len(from)/2], {}, from[len(from)/2:]}
					}
					objs, msg := roles(pkgs...)
					if msg != "" {
						return msg
					}
					roots := lastRoots
					r.Transition(1)
					out := genrun.Run(rbac.Generator{RoleName: "role", FileName: file, HeaderFile: h.file, Year: h.year},
						&genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Roots: roots, InputRule: headers}, roots)
					if out.Panic != "" || out.Failed() || len(out.Twice) > 0 {
						return "fails: " + out.String()
					}
					if len(objs) == 0 {
						if len(out.Files) > 0 {
							return "files without roles: " + out.String()
						}
						return ""
					}
					name := file
					if name == "" {
						name = "role.yaml"
					}
					text, ok := out.Files[name]
					if !ok || len(out.Files) != 1 {
						return "not the file " + name + ": " + out.String()
					}
					rest, ok := strings.CutPrefix(text, h.want)
					if !ok {
						return fmt.Sprintf("does not start with the header: %q", text)
					}
					docs := strings.Split("\n"+rest, "\n---\n")
					if strings.TrimSpace(docs[0]) != "" || len(docs) != len(objs)+1 {
						return fmt.Sprintf("%d documents for %d roles: %q", len(docs)-1, len(objs), rest)
					}
					for i, o := range objs {
						var got any
						if err := yaml.Unmarshal([]byte(docs[i+1]), &got); err != nil {
							return err.Error()
						}
						var want map[string]any
						b, _ := json.Marshal(o)
						_ = json.Unmarshal(b, &want)
						delete(want["metadata"].(map[string]any), "creationTimestamp")
						if g, _ := json.Marshal(got); true {
							if wb, _ := json.Marshal(want); string(g) != string(wb) {
								return fmt.Sprintf("document %s for the role %s", g, wb)
							}
						}
					}
					r.Outcome(text)
					return ""
				})
			}
		}
	}
}

func one1(r *mc.Run, prop, dn string, ds []decl, mapBound int) {
	k := key(dn, ds)
	r.State(k)
	var input strings.Builder
	for _, d := range ds {
		input.WriteString(d.marker() + "\n")
	}
	perNS := map[string]int{}
	nontrivial := false
	for _, d := range ds {
		perNS[d.ns]++
		if perNS[d.ns] > 1 {
			nontrivial = true
		}
	}
	if nontrivial {
		r.Sample(strings.TrimSpace(input.String()))
	}
	ok := r.Case(k, input.String(), nontrivial, func() string {
		ref := ""
		msg := ""
		inspect := func(how string, objs []interface{}, err string) bool {
			if err != "" {
				msg = how + ": " + err
				return false
			}
			r.Transition(len(ds))
			if prop == "C01" {
				if m := check(ds, objs); m != "" {
					msg = how + ": " + m
					return false
				}
				return true
			}
			out := dump(objs)
			r.Outcome(out)
			if ref == "" {
				ref = out
				if m := tidy(objs); m != "" {
					msg = how + ": " + m
					return false
				}
			} else if out != ref {
				msg = fmt.Sprintf("%s: the output differs:\n%s\nversus\n%s", how, ref, out)
				return false
			}
			return true
		}
		// every order of the markers, in one package and split over two
		seen := map[string]bool{}
		permutations(len(ds), func(p []int) bool {
			seq := make([]decl, len(ds))
			for i, j := range p {
				seq[i] = ds[j]
			}
			sk := key("", seq)
			if seen[sk] {
				return true
			}
			seen[sk] = true
			objs, err := roles(seq)
			if !inspect("order "+sk, objs, err) {
				return false
			}
			if len(seq) > 1 {
				h := len(seq) / 2
				objs, err := roles(seq[:h], seq[h:])
				if !inspect("two packages, order "+sk, objs, err) {
					return false
				}
			}
			return true
		})
		if msg != "" || mapBound == 0 || len(ds) < 2 {
			return msg
		}
		// every map order with at most mapBound deviations
		res := rt.Explore(mapBound, 4000, func(c *rt.Choices) bool {
			objs, err := roles(ds)
			return inspect(fmt.Sprintf("map order %v", c.Taken), objs, err)
		})
		r.Count("map_orders", res.Executions)
		r.Count("map_choice_points", res.Points)
		if res.Diverged != "" {
			r.Incomplete(res.Diverged)
		}
		if msg == "" && !res.Complete {
			r.Incomplete("map-order cap")
		}
		// and everything reversed
		rt.Reverse = true
		objs, err := roles(ds)
		rt.Reverse = false
		if msg == "" {
			inspect("reverse map order", objs, err)
		}
		return msg
	})
	_ = ok
}
