// C26: apply configurations are generated for exactly the enabled types.
//
// Packages are enumerated over the markers of packages and types; the real
// command generates apply configurations for them, in a module with small
// stand-ins for the libraries that the types and the generated code use.
package main

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"sigs.k8s.io/controller-tools/verifmc/mc"
)

const metaPath = "k8s.io/apimachinery/pkg/apis/meta/v1"

// libs are the stand-ins.
var libs = map[string]string{
	"apimachinery/go.mod":                        "module k8s.io/apimachinery\ngo 1.21\n",
	"apimachinery/pkg/apis/meta/v1/a.go":         "package v1\n\ntype TypeMeta struct {\n\tKind string `json:\"kind,omitempty\"`\n\tAPIVersion string `json:\"apiVersion,omitempty\"`\n}\n\ntype ObjectMeta struct {\n\tName string `json:\"name,omitempty\"`\n\tNamespace string `json:\"namespace,omitempty\"`\n}\n\ntype ListMeta struct {\n\tResourceVersion string `json:\"resourceVersion,omitempty\"`\n}\n",
	"apimachinery/pkg/runtime/a.go":              "package runtime\n\ntype Scheme struct{}\n",
	"apimachinery/pkg/runtime/schema/a.go":       "package schema\n\ntype GroupVersionKind struct{ Group, Version, Kind string }\n\ntype GroupVersion struct{ Group, Version string }\n\nfunc (g GroupVersion) WithKind(k string) GroupVersionKind { return GroupVersionKind{g.Group, g.Version, k} }\n",
	"client-go/go.mod":                           "module k8s.io/client-go\ngo 1.21\nrequire (\n\tk8s.io/apimachinery v0.0.0\n\tsigs.k8s.io/structured-merge-diff/v4 v4.0.0\n)\n",
	"client-go/applyconfigurations/meta/v1/a.go": "package v1\n\ntype TypeMetaApplyConfiguration struct {\n\tKind *string\n\tAPIVersion *string\n}\n\ntype ObjectMetaApplyConfiguration struct {\n\tName *string\n\tNamespace *string\n}\n\ntype ListMetaApplyConfiguration struct{}\n",
	"client-go/testing/a.go":                     "package testing\n\nimport (\n\t\"k8s.io/apimachinery/pkg/runtime\"\n\t\"sigs.k8s.io/structured-merge-diff/v4/typed\"\n)\n\ntype TypeConverter struct {\n\tScheme *runtime.Scheme\n\tTypeResolver *typed.Parser\n}\n",
	"smd/go.mod":                                 "module sigs.k8s.io/structured-merge-diff/v4\ngo 1.21\n",
	"smd/typed/a.go":                             "package typed\n\ntype Parser struct{}\n\ntype YAMLObject string\n\nfunc NewParser(s YAMLObject) (*Parser, error) { return nil, nil }\n",
}

const goMod = "module ex.com/m\ngo 1.21\nrequire (\n\tk8s.io/apimachinery v0.0.0\n\tk8s.io/client-go v0.0.0\n\tsigs.k8s.io/structured-merge-diff/v4 v4.0.0\n)\nreplace k8s.io/apimachinery => ../libs/apimachinery\nreplace k8s.io/client-go => ../libs/client-go\nreplace sigs.k8s.io/structured-merge-diff/v4 => ../libs/smd\n"

// ---- types -----------------------------------------------------------------

// form is a type declaration; NAME is its name.
type form struct {
	name    string
	markers []string
	object  bool   // has the metadata of an object
	entry   bool   // gets an entry point
	source  string // without markers
}

const object = "type NAME struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tA string `json:\"a\"`\n}\n"
const part = "type NAME struct {\n\tA string `json:\"a\"`\n}\n"

const (
	res = "+kubebuilder:resource"
	on  = "+kubebuilder:ac:generate=true"
	off = "+kubebuilder:ac:generate=false"
)

var forms = []form{
	{"plain", nil, true, false, object},
	{"resource", []string{res}, true, true, object},
	{"enabled", []string{on}, true, true, object},
	{"resource-off", []string{res, off}, true, false, object},
	{"off-resource", []string{off, res}, true, false, object},
	{"resource-on", []string{res, on}, true, true, object},
	{"cluster", []string{"+kubebuilder:resource:path=x,scope=Cluster,shortName={a,b}"}, true, true, object},
	{"off", []string{off}, true, false, object},
	{"root", []string{"+kubebuilder:object:root=true"}, true, false, object},
	{"root-resource", []string{"+kubebuilder:object:root=true", res, "+kubebuilder:subresource:status", "+other:marker"}, true, true, object},
	{"client-off", []string{"+genclient", off}, true, false, object},
	{"client-resource", []string{"+genclient", res}, true, true, object},
	{"client-resource-off", []string{"+genclient", "+genclient:nonNamespaced", res, off}, true, false, object},
	{"part", nil, false, false, part},
	{"part-enabled", []string{on}, false, false, part},
	{"part-resource", []string{res}, false, false, part},
	{"list", nil, false, false, "type NAMEList struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ListMeta `json:\"metadata,omitempty\"`\n\tItems []NAMEItem `json:\"items\"`\n}\n\ntype NAMEItem struct {\n\tB int `json:\"b\"`\n}\n"},
	{"alias", nil, false, false, "type NAME string\n"},
	{"part-meta", []string{res}, false, false, "type NAME struct {\n\tTemplate metav1.ObjectMeta `json:\"template,omitempty\"`\n\tA string `json:\"a\"`\n}\n"},
}

// using a type: an object with a field of every other type.
func user(others []string) string {
	s := "// +kubebuilder:resource\ntype User struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n"
	for i, o := range others {
		kind := []string{"", "*", "[]", "map[string]"}[i%4]
		s += fmt.Sprintf("\tF%d %s%s `json:\"f%d\"`\n", i, kind, o, i)
	}
	return s + "}\n"
}

// place of the markers of a type.
func declare(f form, name string, place int) string {
	var m string
	for _, x := range f.markers {
		m += "// " + x + "\n"
	}
	src := strings.ReplaceAll(f.source, "NAME", name)
	switch place {
	case 1:
		return m + "\n// " + name + " is documented.\n" + src
	case 2:
		return "// " + name + " is documented.\n" + m + src
	case 3:
		if strings.Count(src, "type ") == 1 {
			return "type (\n" + m + strings.TrimPrefix(src, "type ") + ")\n"
		}
	}
	return m + src
}

// ---- packages --------------------------------------------------------------

type pkg struct {
	key     string
	markers string // of the package
	free    bool   // the markers are in a comment of their own
	second  string // comment in the second file
	enabled bool
	out     string // directory of the output, relative to the package
	forms   []int
	place   int
	user    bool // with a type that uses all others
}

func nameOf(i int, f form) string {
	return fmt.Sprintf("K%d%s", i, strings.ReplaceAll(f.name, "-", ""))
}

func (p pkg) files(name string) map[string]string {
	head := "package " + name + "\n\nimport (\n\tmetav1 \"" + metaPath + "\"\n\t\"k8s.io/apimachinery/pkg/runtime/schema\"\n)\n\nvar SchemeGroupVersion = schema.GroupVersion{Group: \"g\", Version: \"v\"}\n\nvar _ metav1.TypeMeta\n\n"
	var b strings.Builder
	if p.free {
		b.WriteString(head + p.markers + "\nvar between int\n\n")
	} else {
		b.WriteString(p.markers + head)
	}
	second := p.second
	second += "package " + name + "\n\nimport metav1 \"" + metaPath + "\"\n\nvar _ metav1.ObjectMeta\n\n"
	var names []string
	for i, fi := range p.forms {
		f := forms[fi]
		n := nameOf(i, f)
		s := declare(f, n, p.place) + "\n"
		if i%2 == 0 {
			b.WriteString(s)
		} else {
			second += s
		}
		if f.name != "list" { // nothing refers to lists
			names = append(names, n)
		}
	}
	if p.user {
		b.WriteString(user(names))
	}
	return map[string]string{"a.go": b.String(), "b.go": second}
}

// entries are the types with entry points of their own.
func (p pkg) entries() []string {
	out := []string{}
	if !p.enabled {
		return out
	}
	for i, fi := range p.forms {
		if forms[fi].entry {
			out = append(out, nameOf(i, forms[fi]))
		}
	}
	if p.user {
		out = append(out, "User")
	}
	sort.Strings(out)
	return out
}

type pkgForm struct {
	name    string
	markers string
	free    bool
	second  string
	enabled bool
	out     string
}

const def = "applyconfiguration"

var pkgForms = []pkgForm{
	{"none", "", false, "", false, ""},
	{"on", "// " + on + "\n", false, "", true, def},
	{"off", "// " + off + "\n", false, "", false, ""},
	{"on, in a comment", "// " + on + "\n", true, "", true, def},
	{"on, in the second file", "", false, "// " + on + "\n", true, def},
	{"off and output", "// " + off + "\n// +kubebuilder:ac:output:package=other\n", false, "", false, ""},
	{"output only", "// +kubebuilder:ac:output:package=other\n", false, "", false, ""},
	{"on, other", "// Package doc.\n// " + on + "\n// +kubebuilder:ac:output:package=other\n", false, "", true, "other"},
	{"on, quoted", "// " + on + "\n", true, "// +kubebuilder:ac:output:package=\"some/where\"\n", true, "some/where"},
	{"on, above", "// " + on + "\n// +kubebuilder:ac:output:package=\"../PKGclients\"\n", false, "", true, "../PKGclients"},
	{"on, dot", "// +groupName=g.io\n// " + on + "\n// +kubebuilder:ac:output:package=./there\n", false, "", true, "there"},
	{"only types", "// +kubebuilder:object:generate=true\n", false, "", false, ""},
}

func packages(r *mc.Run) []pkg {
	var out []pkg
	// every list of types in an enabled package, with and without a user
	max := 2
	if r.Thorough {
		max = 3
	}
	var rec func(chosen []int)
	rec = func(chosen []int) {
		for _, u := range []bool{false, true} {
			n := len(out)
			pf := pkgForms[1]
			p := pkg{markers: pf.markers, enabled: true, out: pf.out, forms: chosen, place: n % 4, user: u}
			p.key = "enabled:"
			for _, c := range chosen {
				p.key += " " + forms[c].name
			}
			p.key += fmt.Sprintf(", place %d, used %v", p.place, u)
			out = append(out, p)
		}
		if len(chosen) == max {
			return
		}
		for i := range forms {
			rec(append(chosen[:len(chosen):len(chosen)], i))
		}
	}
	rec(nil)
	// every form of package with every type in every place
	for _, pf := range pkgForms[0:] {
		for i := range forms {
			for place := 0; place < 4; place++ {
				if place > 0 && !r.Thorough && len(forms[i].markers) == 0 {
					continue
				}
				p := pkg{markers: pf.markers, free: pf.free, second: pf.second, enabled: pf.enabled, out: pf.out, forms: []int{i}, place: place}
				p.key = fmt.Sprintf("package %s: %s, place %d", pf.name, forms[i].name, place)
				out = append(out, p)
			}
		}
	}
	return out
}

// ---- running ---------------------------------------------------------------

func binary(name string) string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Join(filepath.Dir(self), name)
}

func write(dir string, files map[string]string) {
	for n, t := range files {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
}

func command(dir, name string, args ...string) (string, int) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "PWD="+dir)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil && cmd.ProcessState == nil {
		return err.Error(), -1
	}
	return out.String(), cmd.ProcessState.ExitCode()
}

// newFiles lists what is not in have.
func newFiles(dir string, have map[string]string) (map[string]string, string) {
	out := map[string]string{}
	changed := ""
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == "go.sum" {
			return nil
		}
		data, _ := os.ReadFile(p)
		if old, ok := have[rel]; !ok {
			out[rel] = string(data)
		} else if old != string(data) && rel != "go.mod" {
			changed = rel
		}
		return nil
	})
	return out, changed
}

// constructors returns the entry points of generated files: functions that
// make an object of a name, and those that make a part.
func constructors(files map[string]string) (entry, parts []string, msg string) {
	for f, text := range files {
		if !strings.HasSuffix(f, ".go") {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, text, 0)
		if err != nil {
			return nil, nil, err.Error()
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Type.Results == nil || len(fd.Type.Results.List) != 1 {
				continue
			}
			st, ok := fd.Type.Results.List[0].Type.(*ast.StarExpr)
			if !ok {
				continue
			}
			id, ok := st.X.(*ast.Ident)
			if !ok || id.Name != fd.Name.Name+"ApplyConfiguration" {
				continue
			}
			if len(fd.Type.Params.List) > 0 {
				entry = append(entry, fd.Name.Name)
			} else {
				parts = append(parts, fd.Name.Name)
			}
		}
	}
	sort.Strings(entry)
	sort.Strings(parts)
	return entry, parts, ""
}

var perRun = func() int {
	if os.Getenv("ONE") != "" {
		return 1
	}
	return 40
}()

var compileLine = regexp.MustCompile(`(?m)^(?:# ex\.com/m/|)(pk\d+)\b`)

func body(r *mc.Run) {
	type place struct {
		p    pkg
		dir  string
		name string
	}
	write(filepath.Join(r.Scratch, "libs"), libs)
	var batch []place
	n := 0
	flush := func() {
		if len(batch) == 0 {
			return
		}
		dir := filepath.Join(r.Scratch, "module")
		_ = os.RemoveAll(dir)
		files := map[string]string{"go.mod": goMod}
		for i := range batch {
			b := &batch[i]
			b.p.out = strings.ReplaceAll(b.p.out, "PKG", b.dir)
			b.p.markers = strings.ReplaceAll(b.p.markers, "PKG", b.dir)
			for f, t := range b.p.files("v1") {
				files[b.dir+"/v1/"+f] = t
			}
		}
		write(dir, files)
		out, code := command(dir, binary("controller-gen"), "applyconfiguration", "paths=./...")
		r.Transition(1)
		got, changed := newFiles(dir, files)
		failed := ""
		switch {
		case code != 0:
			failed = fmt.Sprintf("fails with %d: %s", code, out)
		case changed != "":
			failed = "changes " + changed
		}
		compiled := map[string]string{}
		if failed == "" {
			if out, code := command(dir, "go", "build", "./..."); code != 0 {
				for _, part := range strings.Split("\n"+out, "\n# ") {
					if m := compileLine.FindStringSubmatch(strings.TrimPrefix(part, "ex.com/m/")); m != nil {
						compiled[m[1]] = part
					} else if strings.TrimSpace(part) != "" {
						failed = "the generated code does not compile: " + part
					}
				}
			}
		}
		for _, b := range batch {
			r.State(b.p.key)
			src := b.p.files("v1")
			r.Case(b.p.key, src["a.go"]+"\n"+src["b.go"], b.p.enabled, func() string {
				if failed != "" {
					return failed
				}
				if c := compiled[b.dir]; c != "" {
					return "the generated code does not compile: " + c
				}
				mine := map[string]string{}
				under := filepath.Join(b.dir, "v1", b.p.out) + "/"
				for f, t := range got {
					switch {
					case b.p.enabled && strings.HasPrefix(f, under):
						mine[f] = t
					case strings.HasPrefix(f, b.dir+"/"):
						return "unexpected file " + f
					}
				}
				entry, parts, msg := constructors(mine)
				if msg != "" {
					return msg
				}
				r.Outcome(strings.Join(entry, " ") + "/" + strings.Join(parts, " "))
				want := b.p.entries()
				if strings.Join(entry, " ") != strings.Join(want, " ") {
					return fmt.Sprintf("entry points for %q instead of %q", entry, want)
				}
				if len(want) > 0 && len(mine) == 0 {
					return "nothing generated"
				}
				return ""
			})
		}
		batch = nil
	}
	for _, p := range packages(r) {
		if !r.Mine() || r.Expired() {
			continue
		}
		batch = append(batch, place{p: p, dir: fmt.Sprintf("pk%d", n)})
		n++
		if len(batch) == perRun {
			flush()
		}
	}
	flush()
	failures(r)
	r.Sample("every list of two forms of types in an enabled package, used by another one and not; every form of package with every form of type")
}

// failures are reported, and the other packages are generated.
func failures(r *mc.Run) {
	good := pkg{markers: pkgForms[1].markers, enabled: true, out: def, forms: []int{1}}
	cases := []struct {
		name   string
		change func(files map[string]string)
		args   []string
	}{
		{"package marker", func(f map[string]string) {
			f["bad/v1/a.go"] = strings.Replace(f["bad/v1/a.go"], on, "+kubebuilder:ac:generate=maybe", 1)
		}, nil},
		{"package marker without a value", func(f map[string]string) {
			f["bad/v1/a.go"] = strings.Replace(f["bad/v1/a.go"], on, "+kubebuilder:ac:generate=", 1)
		}, nil},
		{"output marker", func(f map[string]string) {
			f["bad/v1/a.go"] = "// +kubebuilder:ac:output:package={a,b}\n" + f["bad/v1/a.go"]
		}, nil},
		{"resource marker", func(f map[string]string) {
			f["bad/v1/a.go"] = strings.Replace(f["bad/v1/a.go"], res, res+":bogus=1", 1)
		}, nil},
		{"type marker", func(f map[string]string) {
			f["bad/v1/a.go"] = strings.Replace(f["bad/v1/a.go"], res, "+kubebuilder:ac:generate=1", 1)
		}, nil},
		{"type marker in the second file", func(f map[string]string) {
			f["bad/v1/b.go"] += "// +kubebuilder:ac:generate=1\ntype X struct{}\n"
		}, nil},
		{"malformed output marker of a disabled package", func(f map[string]string) {
			f["bad/v1/a.go"] = "// +kubebuilder:ac:output:package={a,b}\n" + strings.Replace(f["bad/v1/a.go"], on, off, 1)
		}, nil},
		{"syntax error", func(f map[string]string) { f["bad/v1/b.go"] += "func {\n" }, nil},
		{"file where the output belongs", func(f map[string]string) { f["bad/v1/"+def] = "a file" }, nil},
		{"file where the types belong", func(f map[string]string) { f["bad/v1/"+def+"/bad"] = "a file" }, nil},
		{"directory where a type belongs", func(f map[string]string) { f["bad/v1/"+def+"/bad/v1/k0resource.go/x"] = "a file" }, nil},
		{"directory where the utilities belong", func(f map[string]string) { f["bad/v1/"+def+"/utils.go/x"] = "a file" }, nil},
		{"no header", func(f map[string]string) {}, []string{"applyconfiguration:headerFile=none.txt"}},
		{"header is a directory", func(f map[string]string) {}, []string{"applyconfiguration:headerFile=../libs"}},
		{"unknown option", func(f map[string]string) {}, []string{"applyconfiguration:bogus=1"}},
	}
	for ci, c := range cases {
		for _, with := range []bool{false, true} {
			if !r.Mine() {
				continue
			}
			r.Case(fmt.Sprintf("failure %s, with another generator %v", c.name, with), c.name, true, func() string {
				dir := filepath.Join(r.Scratch, fmt.Sprintf("failure%d", ci))
				_ = os.RemoveAll(dir)
				defer os.RemoveAll(dir)
				files := map[string]string{"go.mod": goMod}
				for _, d := range []string{"bad", "good"} {
					for f, t := range good.files("v1") {
						files[d+"/v1/"+f] = t
					}
				}
				c.change(files)
				files["good/v1/a.go"] = "// +kubebuilder:rbac:groups=a,resources=b,verbs=get\n" + files["good/v1/a.go"]
				write(dir, files)
				args := c.args
				if args == nil {
					args = []string{"applyconfiguration"}
				}
				if with {
					args = append(args, "rbac:roleName=r")
				}
				args = append(args, "paths=./...")
				out, code := command(dir, binary("controller-gen"), args...)
				r.Transition(1)
				got, _ := newFiles(dir, files)
				if code == 0 {
					return fmt.Sprintf("controller-gen %s reports success; it wrote %d files: %s", strings.Join(args, " "), len(got), out)
				}
				if code != 1 || strings.Contains(out, "goroutine ") || strings.TrimSpace(out) == "" {
					return fmt.Sprintf("not a reported failure (%d): %s", code, out)
				}
				if c.args == nil {
					have := map[string]string{}
					for f, t := range got {
						if strings.HasPrefix(f, "good/v1/"+def+"/") {
							have[f] = t
						}
					}
					entry, _, msg := constructors(have)
					if msg != "" {
						return msg
					}
					if want := good.entries(); strings.Join(entry, " ") != strings.Join(want, " ") {
						return fmt.Sprintf("the other package has entry points for %q instead of %q: %s", entry, want, out)
					}
				}
				if with && c.name != "unknown option" && got["config/rbac/role.yaml"] == "" {
					return "the other generator has not been run: " + out
				}
				return ""
			})
		}
	}
	// with a header file
	for _, h := range []string{"// Some header.\n", "/*\nCopyright YEAR x.\n*/\n"} {
		if !r.Mine() {
			continue
		}
		r.Case("header "+h, h, true, func() string {
			dir := filepath.Join(r.Scratch, "header")
			_ = os.RemoveAll(dir)
			defer os.RemoveAll(dir)
			files := map[string]string{"go.mod": goMod, "h.txt": h}
			for f, t := range good.files("v1") {
				files["good/v1/"+f] = t
			}
			write(dir, files)
			out, code := command(dir, binary("controller-gen"), "applyconfiguration:headerFile=h.txt", "paths=./good/...")
			r.Transition(1)
			if code != 0 {
				return fmt.Sprintf("fails with %d: %s", code, out)
			}
			got, _ := newFiles(dir, files)
			if len(got) == 0 {
				return "nothing generated"
			}
			start, _, _ := strings.Cut(h, "YEAR")
			for f, t := range got {
				if !strings.HasPrefix(t, start) {
					return f + " does not start with the header: " + t[:60]
				}
			}
			return ""
		})
	}
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C26" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C26", Body: body,
		Rule:        "all lists of up to two (thorough: three) of nineteen forms of types in an enabled package, with and without a type that refers to all of them; twelve forms of package markers with every form of type in four places of its markers; the generated code is compiled; malformed markers and obstacles to writing; non-trivial: enabled packages",
		Assumptions: []string{"the libraries that types and generated code use are small stand-ins", "only types with the metadata of an object can have an entry point", "types that only have a genclient marker of another generator are not enumerated"}})
}
