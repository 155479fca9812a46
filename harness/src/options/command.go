package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"sigs.k8s.io/controller-tools/verifmc/mc"
)

// module is what the command is run on.
func module() map[string]string {
	files := map[string]string{
		"go.mod":                     "module ex.com\ngo 1.21\nrequire k8s.io/apimachinery v0.0.0\nreplace k8s.io/apimachinery => ./fake\n",
		"fake/go.mod":                "module k8s.io/apimachinery\ngo 1.21\n",
		"fake/pkg/apis/meta/v1/a.go": "package v1\ntype TypeMeta struct { Kind string `json:\"kind,omitempty\"` }\ntype ObjectMeta struct { Name string `json:\"name,omitempty\"` }\n",
		"h.txt":                      "# YEAR header\n",
		"g.txt":                      "// YEAR header\n",
		"m/k.yaml":                   "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nspec:\n  group: p.io\n  names: {kind: Kp}\n  versions:\n  - name: p\n",
		"bad/a.go":                   "// +groupName=bad.io\npackage bad\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n// +kubebuilder:rbac:groups=a,bogus=1\n// +kubebuilder:webhook:path=/p\n\n// +kubebuilder:object:root=true\ntype Kbad struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\t// +kubebuilder:validation:Minimum=1\n\tA string `json:\"a\"`\n}\n",
		"broken/a.go":                "// +groupName=bad.io\npackage broken\n\nfunc {\n",
		"badtype/a.go":               "package badtype\n\n// +kubebuilder:rbac:groups=t,resources=b,verbs=get\n\ntype T Undeclared\n",
	}
	for _, x := range []string{"p", "q"} {
		files[x+"/a.go"] = strings.ReplaceAll(`// +groupName=X.io
// +kubebuilder:object:generate=true
package X

import metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

// +kubebuilder:rbac:groups=X,resources=b,verbs=get
// +kubebuilder:webhook:path=/p,mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=X.x.y,sideEffects=None,admissionReviewVersions=v1

// A type.
// +kubebuilder:object:root=true
type KX struct {
	metav1.TypeMeta `+"`json:\",inline\"`"+`
	metav1.ObjectMeta `+"`json:\"metadata,omitempty\"`"+`
	A []string `+"`json:\"a\"`"+`
}
`, "X", x)
		files[x+"/tagged.go"] = strings.ReplaceAll(`//go:build extra

package X

// +kubebuilder:rbac:groups=X,resources=tagged,verbs=get

`, "X", x)
	}
	return files
}

// out is what one run of the command left behind.
type out struct {
	code   int
	stdout string
	stderr string
	files  map[string]string // the new or changed files
	panic  bool
}

func binary(name string) string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Join(filepath.Dir(self), name)
}

// invoke runs the command in a fresh copy of the module.
func invoke(r *mc.Run, args ...string) out {
	dir := filepath.Join(r.Scratch, "module")
	_ = os.RemoveAll(dir)
	src := module()
	for n, t := range src {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
	cmd := exec.Command(binary("controller-gen"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "PWD="+dir)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	o := out{files: map[string]string{}}
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		o.code = cmd.ProcessState.ExitCode()
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		o.code = -1
	}
	o.stdout, o.stderr = so.String(), se.String()
	o.panic = o.code == 2 || strings.Contains(o.stderr, "goroutine ")
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		data, _ := os.ReadFile(p)
		if old, had := src[rel]; !had || old != string(data) {
			o.files[rel] = string(data)
		}
		return nil
	})
	return o
}

// cliGen is a generator option and facts about what it writes for package p.
type cliGen struct {
	name, text string
	file       string // one of its artifacts for p
	has, lacks string
	code       bool
}

var cliGens = []cliGen{
	{"crd", "crd", "p.io_kps.yaml", "description: A type", "header", false},
	{"rbac", "rbac:roleName=r", "role.yaml", "name: r\n", "header", false},
	{"object", "object", "zz_generated.deepcopy.go", "func (in *Kp) DeepCopy()", "header", true},
	{"webhook", "webhook", "manifests.yaml", "name: p.x.y", "header", false},
	{"schemapatch", "schemapatch:manifests=m", "k.yaml", "openAPIV3Schema", "header", false},
	// other settings
	{"crd", "crd:maxDescLen=0", "p.io_kps.yaml", "openAPIV3Schema", "description: A type", false},
	{"crd", "crd:headerFile=h.txt,year=1999", "p.io_kps.yaml", "# 1999 header", "YEAR", false},
	{"rbac", "rbac:roleName=s,fileName=other.yaml", "other.yaml", "name: s\n", "name: r", false},
	{"object", "object:headerFile=g.txt,year=1999", "zz_generated.deepcopy.go", "1999 header", "YEAR", true},
	{"webhook", "webhook:headerFile=h.txt", "manifests.yaml", " header\n", "1999", false},
	{"schemapatch", "schemapatch:manifests=m,maxDescLen=0", "k.yaml", "openAPIV3Schema", "description: A type", false},
}

const mainGens = 5

// cliRule is an output rule without its generator.
type cliRule struct {
	text   string
	config string // directory of configuration; "" for not on disk
	code   string // directory of code; "-" for where it belongs
	stdout bool
}

var cliRules = []cliRule{
	{text: "dir=o/d", config: "o/d", code: "o/d"},
	{text: "none"},
	{text: "stdout", stdout: true},
	{text: "artifacts:config=o/c", config: "o/c", code: "-"},
	{text: "artifacts:config=o/c,code=o/x", config: "o/c", code: "o/x"},
}

// reference is what a generator writes on its own.
type reference struct {
	config map[string]string
	code   map[string]string // path in the module
	stdout string
	err    string
}

var references = map[string]*reference{}

func referenceOf(r *mc.Run, g cliGen, paths []string) *reference {
	key := g.text + " " + strings.Join(paths, " ")
	if ref := references[key]; ref != nil {
		return ref
	}
	ref := &reference{config: map[string]string{}, code: map[string]string{}}
	references[key] = ref
	o := invoke(r, append([]string{g.text, "output:artifacts:config=zz"}, paths...)...)
	if o.code != 0 || o.stderr != "" || o.stdout != "" {
		ref.err = fmt.Sprintf("%s fails: %d %s%s", key, o.code, o.stdout, o.stderr)
		return ref
	}
	for f, t := range o.files {
		if d, base := filepath.Split(f); d == "zz/" {
			ref.config[base] = t
		} else {
			ref.code[f] = t
		}
	}
	o = invoke(r, append([]string{g.text, "output:stdout"}, paths...)...)
	if o.code != 0 || o.stderr != "" || len(o.files) != 0 {
		ref.err = fmt.Sprintf("%s to stdout fails: %d %s %v", key, o.code, o.stderr, o.files)
	}
	ref.stdout = o.stdout
	total := 0
	for _, t := range ref.config {
		total += len(t)
		if !strings.Contains(ref.stdout, t) {
			ref.err = key + ": stdout lacks an artifact"
		}
	}
	for _, t := range ref.code {
		total += len(t)
		if !strings.Contains(ref.stdout, t) {
			ref.err = key + ": stdout lacks an artifact"
		}
	}
	if total != len(ref.stdout) {
		ref.err = key + ": stdout has more than the artifacts"
	}
	for _, p := range paths {
		if p != "paths=./p" {
			continue
		}
		t, where := ref.config[g.file], ref.config
		if g.code {
			t, where = ref.code["p/"+g.file], ref.code
		}
		if !strings.Contains(t, g.has) || strings.Contains(t, g.lacks) {
			ref.err = fmt.Sprintf("%s: %s is %q (of %d)", key, g.file, t, len(where))
		}
	}
	return ref
}

// expected places what the generators write.
func (ref *reference) place(rule cliRule, files map[string][]string, stdout *string) {
	if rule.stdout {
		*stdout += ref.stdout
	}
	if rule.config != "" {
		for n, t := range ref.config {
			p := filepath.Join(rule.config, n)
			files[p] = append(files[p], t)
		}
	}
	switch rule.code {
	case "":
	case "-":
		for p, t := range ref.code {
			files[p] = append(files[p], t)
		}
	default:
		for p, t := range ref.code {
			p = filepath.Join(rule.code, filepath.Base(p))
			files[p] = append(files[p], t)
		}
	}
}

// command runs the command itself.
func command(r *mc.Run) {
	pathSets := [][]string{{"paths=./p"}, {"paths=./p", "paths=./q"}, {"paths={./q,./p}"}, {"paths=ex.com/q"}}
	var lists [][]cliGen
	for _, g := range cliGens {
		lists = append(lists, []cliGen{g})
	}
	for i, g := range cliGens[:mainGens] {
		for j, h := range cliGens[:mainGens] {
			if i != j {
				lists = append(lists, []cliGen{g, h})
			}
		}
	}
	lists = append(lists, cliGens[:mainGens])
	n := 0
	for _, gens := range lists {
		for di := -1; di < len(cliRules); di++ {
			for ri := -1; ri < len(cliRules); ri++ {
				for pi, paths := range pathSets {
					if r.Expired() {
						return
					}
					n++
					if !r.Thorough && (len(gens) == 1 || pi != n%len(pathSets)) && pi != 1 {
						continue
					}
					if len(gens) > 1 && !r.Thorough && (pi == 1) && n%3 != 0 {
						continue
					}
					if !r.Mine() {
						continue
					}
					var opts []string
					for _, g := range gens {
						opts = append(opts, g.text)
					}
					rules := map[string]cliRule{}
					for _, g := range gens {
						rules[g.name] = cliRule{config: "config/" + g.name, code: "-"}
					}
					if di >= 0 {
						opts = append(opts, "output:"+cliRules[di].text)
						for _, g := range gens {
							rules[g.name] = cliRules[di]
						}
					}
					if ri >= 0 {
						own := cliRules[ri]
						text := own.text
						if own.config != "" {
							text = strings.ReplaceAll(text, "=o/", "=own/")
							own.config = strings.Replace(own.config, "o/", "own/", 1)
							own.code = strings.Replace(own.code, "o/", "own/", 1)
						}
						opts = append([]string{"output:" + gens[0].name + ":" + text}, opts...)
						rules[gens[0].name] = own
					}
					r.Case(fmt.Sprintf("command %q %q", opts, paths), "", true, func() string {
						files := map[string][]string{}
						stdout := ""
						for _, g := range gens {
							ref := referenceOf(r, g, paths)
							if ref.err != "" {
								return ref.err
							}
							ref.place(rules[g.name], files, &stdout)
						}
						o := invoke(r, append(append([]string{}, paths...), opts...)...)
						r.State(fmt.Sprint(opts, paths))
						r.Transition(len(opts) + len(paths))
						if o.code != 0 || o.stderr != "" {
							return fmt.Sprintf("exit %d %s", o.code, o.stderr)
						}
						if o.stdout != stdout {
							return fmt.Sprintf("stdout is %q instead of %q", o.stdout, stdout)
						}
						return sameFiles(o.files, files)
					})
				}
			}
		}
	}
	failures(r)
}

func sameFiles(got map[string]string, want map[string][]string) string {
	for f, ts := range want {
		t, ok := got[f]
		if !ok {
			return f + " is not written"
		}
		found := false
		for _, w := range ts {
			found = found || w == t
		}
		if !found {
			return fmt.Sprintf("%s is %q", f, t)
		}
	}
	for f := range got {
		if want[f] == nil {
			return f + " is written"
		}
	}
	return ""
}

// failures: the exit status, and that nothing is lost or written in vain.
func failures(r *mc.Run) {
	var rejected [][]string
	for _, o := range options {
		if o.kind == isBad && !strings.Contains(o.text, "\x00") {
			rejected = append(rejected, []string{o.text}, []string{"crd", "paths=./p", o.text}, []string{o.text, "rbac:roleName=r", "paths=./p"})
		}
	}
	rejected = append(rejected, []string{}, []string{"paths=./p"}, []string{"output:none"}, []string{"paths=./p", "output:dir=x"}, []string{"crd", "crd", "paths=./p"},
		[]string{"crd", "paths=./p", "output:rbac:none"}, []string{"", "paths=./p"}, []string{"crd", "--nope", "paths=./p"})
	for _, args := range rejected {
		if r.Expired() || !r.Mine() {
			continue
		}
		r.Case(fmt.Sprintf("rejected %q", args), "", true, func() string {
			o := invoke(r, args...)
			r.State(fmt.Sprint(args))
			r.Transition(len(args))
			if o.panic || o.code == 0 || strings.TrimSpace(o.stderr) == "" || len(o.files) > 0 {
				return fmt.Sprintf("exit %d, files %v, %s", o.code, keys(o.files), o.stderr)
			}
			return ""
		})
	}
	// packages with errors: every generator with every pair of a good and a bad package
	type badPkg struct {
		path  string
		fails map[string]bool
	}
	none := map[string]bool{}
	everyone := map[string]bool{"crd": true, "rbac": true, "object": true, "webhook": true, "schemapatch": true}
	bads := []badPkg{
		{"./bad", map[string]bool{"crd": true, "rbac": true, "webhook": true}},
		{"./broken", everyone},
		{"./nope", everyone},
		{"./badtype", none},
	}
	for _, b := range bads {
		for i, g := range cliGens[:mainGens] {
			for j := -1; j < mainGens; j++ {
				if i == j || r.Expired() || !r.Mine() {
					continue
				}
				gens := []cliGen{g}
				if j >= 0 {
					gens = append(gens, cliGens[j])
				}
				args := []string{"paths=./p", "paths=" + b.path, "output:dir=o"}
				fails := false
				for _, x := range gens {
					args = append(args, x.text)
					fails = fails || b.fails[x.name]
				}
				r.Case(fmt.Sprintf("errors %q", args), "", true, func() string {
					o := invoke(r, args...)
					r.State(fmt.Sprint(args))
					r.Transition(len(args))
					if o.panic || o.code > 1 || o.code < 0 {
						return fmt.Sprintf("exit %d %s", o.code, o.stderr)
					}
					if fails != (o.code == 1) {
						return fmt.Sprintf("exit %d %s", o.code, o.stderr)
					}
					if fails == (strings.TrimSpace(o.stderr) == "") {
						return "stderr is " + o.stderr
					}
					// the good package is still handled by generators without errors
					for _, x := range gens {
						if b.fails[x.name] {
							continue
						}
						ref := referenceOf(r, x, []string{"paths=./p"})
						for n, t := range ref.config {
							if got := o.files["o/"+n]; got == "" || len(got) < len(t)/2 {
								return fmt.Sprintf("%s of %s is %q", n, x.name, got)
							}
						}
					}
					return ""
				})
			}
		}
	}
	// build tags
	for _, tags := range []struct {
		args []string
		want bool
	}{{nil, false}, {[]string{"--load-build-tags=extra"}, true}, {[]string{"--load-build-tags", "ignore_autogenerated,extra"}, true}, {[]string{"--load-build-tags=other"}, false}, {[]string{"--load-build-tags=other", "--load-build-tags=extra"}, true}, {[]string{"--load-build-tags="}, false}} {
		if r.Expired() || !r.Mine() {
			continue
		}
		r.Case(fmt.Sprintf("tags %q", tags.args), "", true, func() string {
			o := invoke(r, append(append([]string{}, tags.args...), "rbac:roleName=r", "paths=./p", "output:dir=o")...)
			if o.code != 0 {
				return fmt.Sprintf("exit %d %s", o.code, o.stderr)
			}
			if got := strings.Contains(o.files["o/role.yaml"], "tagged"); got != tags.want {
				return fmt.Sprintf("files with the tag are used: %v", got)
			}
			return ""
		})
	}
	// asking for help or the version writes nothing
	for _, args := range [][]string{{"--version"}, {"--help"}, {"-h"}, {"-hh"}, {"-hhh"}, {"-hhhh"}, {"-w", "crd"}, {"crd", "-ww"}, {"-wwww", "object"}, {"crd", "paths=./p", "-w"}, {"crd", "paths=./p", "--version"}, {"crd", "paths=./nope", "-w"}, {"crd", "paths=./p", "-h"}} {
		if r.Expired() || !r.Mine() {
			continue
		}
		r.Case(fmt.Sprintf("help %q", args), "", true, func() string {
			o := invoke(r, args...)
			if o.code != 0 || o.panic || len(o.files) > 0 || strings.TrimSpace(o.stdout+o.stderr) == "" {
				return fmt.Sprintf("exit %d, files %v, %s", o.code, keys(o.files), o.stderr)
			}
			return ""
		})
	}
}

func keys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
