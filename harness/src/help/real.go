package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/genall/help"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/rt"
)

var gens = []struct {
	name, option string
	gen          genall.Generator
}{
	{"applyconfiguration", "applyconfiguration", applyconfiguration.Generator{}},
	{"crd", "crd", crd.Generator{}},
	{"object", "object", deepcopy.Generator{}},
	{"rbac", "rbac:roleName=x", rbac.Generator{}},
	{"schemapatch", "schemapatch:manifests=.", schemapatcher.Generator{}},
	{"webhook", "webhook", webhook.Generator{}},
}

// typeOf writes the type of an argument of a definition.
func typeOf(a markers.Argument) string {
	switch a.Type {
	case markers.IntType:
		return "int"
	case markers.NumberType:
		return "number"
	case markers.StringType:
		return "string"
	case markers.BoolType:
		return "bool"
	case markers.AnyType:
		return "any"
	case markers.SliceType:
		return "[]" + typeOf(*a.ItemType)
	case markers.MapType:
		return "map[string]" + typeOf(*a.ItemType)
	case markers.RawType:
		return "raw"
	}
	return "invalid"
}

// wantOf describes a registry from its definitions.
func wantOf(reg *markers.Registry) []markerDoc {
	var out []markerDoc
	for _, def := range reg.AllDefinitions() {
		h := reg.HelpFor(def)
		d := docOf(def.Name, def.Target, h)
		for name, a := range def.Fields {
			x := argDoc{name: name, typ: typeOf(a), optional: a.Optional}
			if h != nil {
				fh := h.FieldHelp[def.FieldNames[name]]
				x.summary, x.details = fh.Summary, fh.Details
			}
			d.args = append(d.args, x)
		}
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

func registryOf(order []int) *markers.Registry {
	reg := &markers.Registry{}
	for _, i := range order {
		if err := gens[i].gen.RegisterMarkers(reg); err != nil {
			panic(err)
		}
	}
	return reg
}

// orderOf is the order in which things are listed.
func orderOf(docs []help.CategoryDoc) string {
	var b strings.Builder
	for _, d := range docs {
		b.WriteString("\n" + d.Category)
		for _, m := range d.Markers {
			b.WriteString(" " + m.Target + " " + m.Name)
			for _, f := range m.Fields {
				b.WriteString(":" + f.Name)
			}
		}
	}
	return b.String()
}

// generators: the markers of every set of generators.
func generators(r *mc.Run) {
	for set := 1; set < 1<<len(gens); set++ {
		if !r.Mine() {
			continue
		}
		var order []int
		var names []string
		for i := range gens {
			if set&(1<<i) != 0 {
				order = append(order, i)
				names = append(names, gens[i].name)
			}
		}
		key := strings.Join(names, " ")
		r.State("generators " + key)
		r.Case("generators "+key, key, true, func() string {
			first := map[int]string{}
			for variant := 0; variant < 4; variant++ {
				o := append([]int{}, order...)
				if variant&1 != 0 {
					for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
						o[i], o[j] = o[j], o[i]
					}
				}
				rt.Reverse = variant&2 != 0
				reg := registryOf(o)
				want := wantOf(reg)
				msg, docs := describe(reg, help.SortByCategory, want, byCategory, true, true)
				rt.Reverse = false
				r.Transition(1)
				if msg != "" {
					return msg
				}
				for _, w := range want {
					if w.category == "" || w.summary == "" && w.details == "" && len(w.args) == 0 {
						return fmt.Sprintf("%s marker %s has no category or no documentation, and is not listed", w.target, w.name)
					}
					for _, a := range w.args {
						if strings.Contains(a.typ, "invalid") {
							return fmt.Sprintf("%s marker %s: argument %q of type %s", w.target, w.name, a.name, a.typ)
						}
					}
				}
				// a marker that two generators bring is the one of the last,
				// so the order of the generators may matter
				if o := orderOf(docs); first[variant&1] == "" {
					first[variant&1] = o
				} else if first[variant&1] != o {
					return fmt.Sprintf("the order depends on that of the maps (variant %d)", variant)
				}
			}
			return ""
		})
	}
	// all of them in every order of the maps
	all := []int{0, 1, 2, 3, 4, 5}
	first := ""
	r.Case("all generators", "all generators", true, func() (msg string) {
		limit := 120000
		reg := registryOf(all)
		res := rt.ExplorePart(1, limit, r.Shard, r.N, func(c *rt.Choices) bool {
			o := orderOf(help.ByCategory(reg, help.SortByCategory))
			if first == "" {
				first = o
			} else if first != o {
				msg = "another order"
			}
			return msg == "" && !r.Expired()
		})
		r.Transition(res.Executions)
		r.Count("map orders", res.Executions)
		if msg == "" && !res.Complete {
			r.Incomplete(fmt.Sprintf("map orders of all generators %+v", res))
		}
		return msg
	})
}

func binary(name string) string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Join(filepath.Dir(self), name)
}

func runCommand(r *mc.Run, args ...string) (stdout, stderr string, err error) {
	cmd := exec.Command(binary("controller-gen"), args...)
	cmd.Dir = r.Scratch
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	return so.String(), se.String(), err
}

// commands: what the command prints.
func commands(r *mc.Run) {
	ask := func(label string, args []string, flag string, want []markerDoc, group func(markerDoc) string) string {
		so, se, err := runCommand(r, append(append([]string{}, args...), "-"+strings.Repeat(flag, 4))...)
		if err != nil {
			return fmt.Sprintf("%s in JSON: %v: %s", label, err, se)
		}
		var docs []help.CategoryDoc
		if i := strings.Index(so, "[{"); i > 0 && flag == "h" {
			so = so[i:]
		}
		if err := json.Unmarshal([]byte(so), &docs); err != nil && strings.TrimSpace(so) != "" || err != nil && len(want) > 0 {
			return fmt.Sprintf("%s is not JSON: %v: %s", label, err, so)
		}
		order, got, msg := flat(docs)
		if msg != "" {
			return msg
		}
		total := 0
		for _, c := range order {
			total += len(got[c])
		}
		for _, w := range want {
			n := 0
			for _, g := range got[group(w)] {
				if g.key() == w.key() {
					n++
					if msg := compare(g, w); msg != "" {
						return msg
					}
				}
			}
			if n != 1 {
				return fmt.Sprintf("%s: %s %s is listed %d times", label, w.target, w.name, n)
			}
		}
		if total != len(want) {
			return fmt.Sprintf("%s: %d instead of %d", label, total, len(want))
		}
		for level := 1; level <= 3; level++ {
			so, se, err := runCommand(r, append(append([]string{}, args...), "-"+strings.Repeat(flag, level))...)
			if err != nil {
				return fmt.Sprintf("%s, level %d: %v: %s", label, level, err, se)
			}
			out := so + se
			if flag == "h" {
				i := strings.LastIndex(out, "\nOptions\n")
				if i < 0 {
					return fmt.Sprintf("%s, level %d: no options in %q", label, level, out)
				}
				out = out[i+len("\nOptions\n"):]
			}
			if msg := sameWords(out, expectText(level, order, got)); msg != "" {
				return fmt.Sprintf("%s, level %d: %s", label, level, msg)
			}
			r.Transition(1)
		}
		return ""
	}
	for set := 0; set < 1<<len(gens); set++ {
		if !r.Mine() {
			continue
		}
		var args []string
		var order []int
		for i := range gens {
			if set&(1<<i) != 0 {
				args = append(args, gens[i].option)
				order = append(order, i)
			}
		}
		key := strings.Join(args, " ")
		r.Case("command "+key, "controller-gen "+key+" -w, -ww, -www, -wwww", true, func() string {
			return ask("markers", args, "w", wantOf(registryOf(order)), byCategory)
		})
	}
	if !r.Mine() {
		return
	}
	r.Case("command options", "controller-gen -h, -hh, -hhh, -hhhh", true, func() string {
		reg := &markers.Registry{}
		add := func(name string, v any) {
			def := markers.Must(markers.MakeDefinition(name, markers.DescribesPackage, v))
			if err := reg.Register(def); err != nil {
				panic(err)
			}
			reg.AddHelp(def, v.(genall.HasHelp).Help())
		}
		for _, g := range gens {
			add(g.name, g.gen)
		}
		for name, rule := range map[string]any{"dir": genall.OutputToDirectory(""), "none": genall.OutputToNothing, "stdout": genall.OutputToStdout, "artifacts": genall.OutputArtifacts{}} {
			add("output:"+name, rule)
			for _, g := range gens {
				add("output:"+g.name+":"+name, rule)
			}
		}
		if err := genall.RegisterOptionsMarkers(reg); err != nil {
			panic(err)
		}
		return ask("options", nil, "h", wantOf(reg), func(d markerDoc) string {
			switch {
			case d.name == "paths":
				return "generic"
			case strings.Count(d.name, ":") == 0:
				return "generators"
			case strings.Count(d.name, ":") == 1:
				return "output rules (optionally as output:<generator>:...)"
			}
			return ""
		})
	})
}
