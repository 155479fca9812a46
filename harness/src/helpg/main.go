// C25: the generated help is what the comments say.
//
// Marker types are enumerated with all documentation comments up to a length,
// the real helpgen command generates their help, the result is compiled with
// the real markers package and executed, and what Help returns is compared
// with the comments.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"sigs.k8s.io/controller-tools/verifmc/mc"
)

// ---- documentation comments ------------------------------------------------

type line struct {
	text   string // after "//"; NAME is what is documented
	marker bool
}

var vocab = []line{
	{text: " NAME does things."},
	{text: " plain text"},
	{text: ""},
	{text: " NAME"},
	{text: " TODO: later"},
	{text: " ---"},
	{text: " +mk:a=1", marker: true},
	{text: "   indented + more  "},
	{text: "\ttab \"quoted\" `x` \\n \\ 'y'"},
	{text: " 100% %s %d %[1]s %"},
	{text: " é世界 \u2028 $x ${y} */"},
	{text: " NAMEs are not it"},
	{text: " NAME: is"},
	{text: "nospace NAME x"},
	{text: " NAME  two"},
	{text: " LOWER and UPPER"},
	{text: " UPPER is"},
}

// named puts the name of what is documented into a line.
func named(text, name string) string {
	return strings.NewReplacer("NAME", name, "LOWER", strings.ToLower(name), "UPPER", strings.ToUpper(name)).Replace(text)
}

// docText is the documentation the lines are.
func docText(lines []line, name string) string {
	var ls []string
	for _, l := range lines {
		if l.marker {
			continue
		}
		t := named(l.text, name)
		ls = append(ls, strings.TrimRight(strings.TrimPrefix(t, " "), " \t"))
	}
	var col []string
	for _, l := range ls {
		if l == "" && (len(col) == 0 || col[len(col)-1] == "") {
			continue
		}
		col = append(col, l)
	}
	for len(col) > 0 && col[len(col)-1] == "" {
		col = col[:len(col)-1]
	}
	var out []string
	for _, l := range col {
		if strings.HasPrefix(l, "TODO") {
			continue
		}
		if strings.HasPrefix(l, "---") {
			break
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// helpText splits a documentation text.  The blanks before and after the
// details do not count.
func helpText(doc, name string) detail {
	sum, rest, _ := strings.Cut(doc, "\n")
	if sum == name {
		sum = ""
	} else if t, ok := strings.CutPrefix(sum, name+" "); ok {
		sum = t
	}
	return detail{sum, strings.TrimSpace(rest)}
}

func render(lines []line, name, indent string) string {
	var b strings.Builder
	for _, l := range lines {
		b.WriteString(indent + "//" + named(l.text, name) + "\n")
	}
	return b.String()
}

// ---- marker types ----------------------------------------------------------

type detail struct{ Summary, Details string }

// field is one field declaration.
type field struct {
	names []string // of the help
	decl  string
	doc   []line
}

// typ is a type declaration.
type typ struct {
	key      string
	category string // of the marker, as written; "-" for no marker
	want     string // the category
	place    int
	doc      []line
	under    string // what it is, if not a struct
	fields   []field
	group    bool
}

const markerText = "+controllertools:marker:generateHelp"

// places of the marker
const (
	before   = iota // in a comment of its own before the documentation
	attached        // at the start of the documentation
	last            // at its end
	far             // before it, with other markers
	nplaces
)

func (t typ) source(name string) string {
	var b strings.Builder
	ind := ""
	if t.group {
		b.WriteString("type (\n")
		ind = "\t"
	}
	mk := ""
	if t.category != "-" {
		mk = ind + "// " + markerText + t.category + "\n"
	}
	doc := render(t.doc, name, ind)
	switch t.place {
	case before:
		if mk != "" {
			b.WriteString(mk + "\n")
		}
		b.WriteString(doc)
	case attached:
		b.WriteString(mk + doc)
	case last:
		b.WriteString(doc + mk)
	case far:
		b.WriteString(ind + "// +mk:before\n" + mk + ind + "// +mk:after=3\n\n" + doc)
	}
	b.WriteString(ind)
	if !t.group {
		b.WriteString("type ")
	}
	b.WriteString(name + " ")
	if t.under != "" {
		b.WriteString(t.under + "\n")
	} else {
		b.WriteString("struct {\n")
		for _, f := range t.fields {
			n := ""
			if len(f.names) > 0 {
				n = f.names[0]
			}
			b.WriteString(render(f.doc, n, ind+"\t"))
			b.WriteString(ind + "\t" + f.decl + "\n")
		}
		b.WriteString(ind + "}\n")
	}
	if t.group {
		b.WriteString(")\n")
	}
	return b.String() + "\n"
}

// helpOf is what a type's help has to be (nil: none).
type helpOf struct {
	detail
	Category  string
	FieldHelp map[string]detail
}

func (t typ) help(name string) *helpOf {
	if t.category == "-" {
		return nil
	}
	h := &helpOf{Category: t.want, detail: helpText(docText(t.doc, name), name), FieldHelp: map[string]detail{}}
	for _, f := range t.fields {
		for _, n := range f.names {
			// the text names the first one
			h.FieldHelp[n] = helpText(docText(f.doc, f.names[0]), n)
		}
	}
	return h
}

func (h *helpOf) String() string {
	if h == nil {
		return "none"
	}
	data, _ := json.Marshal(h)
	return string(data)
}

// ---- running the command ---------------------------------------------------

func binary(name string) string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Join(filepath.Dir(self), name)
}

func repo() string {
	if v := os.Getenv("VERIF_REPO"); v != "" {
		return v
	}
	return "/repo"
}

func write(dir string, files map[string]string) {
	for n, t := range files {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
}

// command runs something with a limit.
func command(dir string, env []string, name string, args ...string) (string, int) {
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "GOPROXY=off", "GOWORK=off", "PWD="+dir), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil && cmd.ProcessState == nil {
		return err.Error(), -1
	}
	return out.String(), cmd.ProcessState.ExitCode()
}

const generated = "zz_generated.markerhelp.go"

// helpgen runs the command and returns the generated files.
func helpgen(dir, order string, args ...string) (map[string]string, string, int) {
	out, code := command(dir, []string{"GOFLAGS=-mod=mod", "VERIF_MAP_ORDER=" + order}, binary("helpgen"), args...)
	files := map[string]string{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && filepath.Base(p) == generated {
			rel, _ := filepath.Rel(dir, p)
			data, _ := os.ReadFile(p)
			files[rel] = string(data)
		}
		return nil
	})
	return files, out, code
}

const runner = `package main

import (
	"encoding/json"
	"os"
	"sigs.k8s.io/controller-tools/pkg/markers"
%s)

type helper interface{ Help() *markers.DefinitionHelp }

func main() {
	out := map[string]*markers.DefinitionHelp{}
	add := func(pkg string, all map[string]any) {
		for n, v := range all {
			if h, ok := v.(helper); ok {
				out[pkg+"."+n] = h.Help()
			}
		}
	}
%s	json.NewEncoder(os.Stdout).Encode(out)
}
`

// execute compiles the packages with the generated files in the place of
// packages of the repository, and asks every type for its help.
func execute(scratch string, pkgs map[string]map[string]string, names map[string][]string) (map[string]*helpOf, string) {
	base := filepath.Join(repo(), "verifmc", "generated")
	replace := map[string]string{}
	var imports, calls strings.Builder
	var sorted []string
	for p := range pkgs {
		sorted = append(sorted, p)
	}
	sort.Strings(sorted)
	src := filepath.Join(scratch, "compile")
	_ = os.RemoveAll(src)
	for _, p := range sorted {
		for f, text := range pkgs[p] {
			write(src, map[string]string{p + "/" + f: text})
			replace[filepath.Join(base, p, f)] = filepath.Join(src, p, f)
		}
		var all strings.Builder
		all.WriteString("package " + p + "\n\nfunc All() map[string]any {\n\treturn map[string]any{\n")
		for _, n := range names[p] {
			fmt.Fprintf(&all, "\t\t%q: new(%s),\n", n, n)
		}
		all.WriteString("\t}\n}\n")
		write(src, map[string]string{p + "/all.go": all.String()})
		replace[filepath.Join(base, p, "all.go")] = filepath.Join(src, p, "all.go")
		fmt.Fprintf(&imports, "\t%q\n", "sigs.k8s.io/controller-tools/verifmc/generated/"+p)
		fmt.Fprintf(&calls, "\tadd(%q, %s.All())\n", p, p)
	}
	write(src, map[string]string{"run/main.go": fmt.Sprintf(runner, imports.String(), calls.String())})
	replace[filepath.Join(base, "run", "main.go")] = filepath.Join(src, "run", "main.go")
	data, _ := json.Marshal(map[string]any{"Replace": replace})
	write(src, map[string]string{"overlay.json": string(data)})
	exe := filepath.Join(scratch, "asks")
	if out, code := command(repo(), []string{"GOFLAGS="}, "go", "build", "-buildvcs=false", "-overlay", filepath.Join(src, "overlay.json"), "-o", exe, "./verifmc/generated/run"); code != 0 {
		return nil, "the generated code does not compile: " + out
	}
	out, code := command(scratch, nil, exe)
	if code != 0 {
		return nil, "the generated code fails: " + out
	}
	res := map[string]*helpOf{}
	if err := json.Unmarshal([]byte(out), &res); err != nil {
		return nil, "the generated code prints " + out
	}
	return res, ""
}

// ---- enumeration -----------------------------------------------------------

func docs(n int) [][]line {
	var out [][]line
	var rec func(ls []line)
	rec = func(ls []line) {
		out = append(out, ls)
		if len(ls) == n {
			return
		}
		for _, l := range vocab {
			rec(append(ls[:len(ls):len(ls)], l))
		}
	}
	rec(nil)
	return out
}

func show(ls []line) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.text)
	}
	return fmt.Sprintf("%q", s)
}

func types(r *mc.Run) []typ {
	n := 3
	if r.Thorough {
		n = 4
	}
	var out []typ
	all := docs(n)
	plain := []line{vocab[0], vocab[1]}
	// all documentation, of types and of fields
	for i, d := range all {
		fd := all[len(all)-1-i]
		t := typ{category: ":category=C", want: "C", doc: d, place: i % 2 * last, fields: []field{{names: []string{"Field"}, decl: "Field string", doc: fd}}}
		t.key = fmt.Sprintf("documentation %s, of the field %s", show(d), show(fd))
		out = append(out, t)
	}
	// all categories, places and kinds of types
	cats := []struct{ text, want string }{
		{"-", ""}, {"", ""}, {`:category=Webhook`, "Webhook"}, {`:category="CRD validation"`, "CRD validation"},
		{`:category=""`, ""}, {":category=\"a \\\"b\\\" \\\\ %s\"", "a \"b\" \\ %s"}, {":category=`r\\a \"w\"`", `r\a "w"`}, {`:category="é 世"`, "é 世"},
	}
	kinds := []struct {
		under  string
		fields []field
	}{
		{under: "string"}, {under: "int"}, {under: "[]string"}, {under: "map[string]interface{}"}, {under: "bool"}, {under: "[]byte"}, {under: "float64"},
		{}, {fields: []field{{names: []string{"A"}, decl: "A string `marker:\"a,optional\"`", doc: plain}}},
	}
	for _, c := range cats {
		for place := 0; place < nplaces; place++ {
			for ki, k := range kinds {
				for _, group := range []bool{false, true} {
					for di, d := range [][]line{plain, nil} {
						t := typ{category: c.text, want: c.want, place: place, doc: d, under: k.under, fields: k.fields, group: group}
						if c.text == "-" && place != before {
							continue
						}
						t.key = fmt.Sprintf("category %s, place %d, kind %d, group %v, doc %d", c.text, place, ki, group, di)
						out = append(out, t)
					}
				}
			}
		}
	}
	// all lists of fields
	pool := []field{
		{names: []string{"A"}, decl: "A string", doc: plain},
		{names: []string{"B", "C"}, decl: "B, C *int", doc: []line{vocab[0]}},
		{names: []string{"D"}, decl: "D []string `marker:\"x,optional\"`"},
		{names: []string{"e"}, decl: "e int // not this", doc: plain},
		{names: []string{"Local"}, decl: "Local", doc: []line{vocab[0]}},
		{names: []string{"Point"}, decl: "*Point `json:\"p\"`", doc: plain},
		{names: []string{"Name"}, decl: "other.Name", doc: []line{vocab[1]}},
		{names: []string{"F"}, decl: "F struct {\n\t\t// Inner is not a field of the type.\n\t\tInner string\n\t}", doc: plain},
		{names: []string{"G"}, decl: "G map[string][]interface{} /* nor this */", doc: []line{vocab[0], vocab[2], vocab[1]}},
		{names: []string{"H"}, decl: "H func(in string) (out string)", doc: []line{{text: " " + markerText + ":category=x", marker: true}, vocab[0]}},
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	var rec func(chosen []int)
	rec = func(chosen []int) {
		t := typ{category: ":category=C", want: "C", doc: plain}
		t.key = "fields"
		for _, i := range chosen {
			t.fields = append(t.fields, pool[i])
			t.key += " " + strings.Join(pool[i].names, ",")
		}
		out = append(out, t)
		if len(chosen) == max {
			return
		}
	next:
		for i := range pool {
			for _, c := range chosen {
				if c == i {
					continue next
				}
			}
			rec(append(chosen[:len(chosen):len(chosen)], i))
		}
	}
	rec(nil)
	return out
}

const perPackage = 60

func body(r *mc.Run) {
	dir := filepath.Join(r.Scratch, "module")
	_ = os.RemoveAll(dir)
	files := map[string]string{
		"go.mod":           "module ex.com\ngo 1.21\n",
		"header.txt":       "// Copyright YEAR Somebody.\n/* not % a verb */",
		"other/other.go":   "package other\n\ntype Name string\n",
		"nothing/a.go":     "// Package nothing has no types with help.\npackage nothing\n\n// +mk:a=1\n\n// T is documented.\ntype T struct{}\n",
		"nothing/a_x.go":   "package nothing\n\n// not the " + markerText + "\ntype U int\n",
		"nothing/b/b.go":   "package b\n\nfunc F() {\n\t// " + markerText + "\n\ttype T struct{}\n\t_ = T{}\n}\n",
		"nothing/b/b_t.go": "package b\n\n// " + markerText + "\n\nvar V int\n",
	}
	type place struct {
		pkg, name string
		t         typ
	}
	var mine []place
	names := map[string][]string{}
	srcs := map[string]map[string]string{}
	i := 0
	for _, t := range types(r) {
		if !r.Mine() {
			continue
		}
		p := place{fmt.Sprintf("p%d", i/perPackage), fmt.Sprintf("T%d", i), t}
		if i%7 == 3 {
			p.name = fmt.Sprintf("t%d", i)
		}
		mine = append(mine, p)
		names[p.pkg] = append(names[p.pkg], p.name)
		if srcs[p.pkg] == nil {
			srcs[p.pkg] = map[string]string{}
		}
		f := fmt.Sprintf("f%d.go", i%2)
		if srcs[p.pkg][f] == "" {
			srcs[p.pkg][f] = "// Package doc.\npackage " + p.pkg + "\n\n"
			if i%2 == 0 {
				srcs[p.pkg][f] += "type Local string\n\ntype Point int\n\n"
			}
		}
		srcs[p.pkg][f] += t.source(p.name)
		i++
	}
	for p, fs := range srcs {
		for f, s := range fs {
			if strings.Contains(s, "other.Name") {
				s = strings.Replace(s, "package "+p+"\n", "package "+p+"\n\nimport \"ex.com/other\"\n", 1)
			}
			fs[f] = s
			files[p+"/"+f] = s
		}
	}
	write(dir, files)
	args := []string{"generate:headerFile=header.txt,year=2031", "paths=./..."}
	var first map[string]string
	var help map[string]*helpOf
	failed := ""
	r.Case("run", fmt.Sprintf("helpgen on %d types", len(mine)), true, func() string {
		got, out, code := helpgen(dir, "", args...)
		r.Transition(1)
		if code != 0 || strings.TrimSpace(out) != "" {
			failed = fmt.Sprintf("helpgen fails with %d: %s", code, out)
			return failed
		}
		first = got
		for f, text := range got {
			if strings.HasPrefix(f, "nothing") || strings.HasPrefix(f, "other") {
				return f + " is written, and there is nothing to write: " + text
			}
			if !strings.Contains(text, "// Copyright 2031 Somebody.\n") || strings.Contains(text, "YEAR") || !strings.Contains(text, "/* not % a verb */") {
				return fmt.Sprintf("%s does not start with the header of 2031: %.300q", f, text)
			}
		}
		// again, and with all maps in reverse
		for _, order := range []string{"", "reverse"} {
			again, out, code := helpgen(dir, order, args...)
			r.Transition(1)
			if code != 0 || out != "" {
				return fmt.Sprintf("helpgen fails with %d the second time: %s", code, out)
			}
			for f, text := range again {
				if first[f] != text {
					return fmt.Sprintf("%s is different the next time (map order %q)", f, order)
				}
			}
			if len(again) != len(first) {
				return "other files the next time"
			}
		}
		return ""
	})
	if failed == "" {
		r.Case("compile", "compiling the generated help", true, func() string {
			pkgs := map[string]map[string]string{}
			for p, fs := range srcs {
				pkgs[p] = map[string]string{}
				for f, s := range fs {
					pkgs[p][f] = strings.ReplaceAll(s, `"ex.com/other"`, `"sigs.k8s.io/controller-tools/verifmc/generated/other"`)
				}
				if g, ok := first[p+"/"+generated]; ok {
					pkgs[p][generated] = g
				}
			}
			pkgs["other"] = map[string]string{"other.go": files["other/other.go"]}
			help, failed = execute(r.Scratch, pkgs, names)
			return failed
		})
	}
	if failed == "" {
		for _, p := range mine {
			want := p.t.help(p.name)
			got := help[p.pkg+"."+p.name]
			r.State(want.String())
			r.Case(p.t.key, p.t.source(p.name), want != nil, func() string {
				r.Outcome(got.String())
				return diff(got, want)
			})
		}
		r.Transition(len(mine))
	}
	headers(r)
	errors(r)
	obstacles(r)
	ours(r)
	r.Sample("every documentation of up to three lines on types and fields; every category, place of the marker and kind of type; every list of three fields; the marker types of the repository")
}

func diff(got, want *helpOf) string {
	switch {
	case want == nil && got == nil:
		return ""
	case want == nil:
		return "help that nothing asks for: " + got.String()
	case got == nil:
		return "no help instead of " + want.String()
	case got.Category != want.Category:
		return fmt.Sprintf("category %q instead of %q", got.Category, want.Category)
	case got.detail != want.detail:
		return fmt.Sprintf("documentation %q instead of %q", got.detail, want.detail)
	}
	for n, w := range want.FieldHelp {
		g, ok := got.FieldHelp[n]
		if !ok {
			return fmt.Sprintf("no help for field %s", n)
		}
		if g != w {
			return fmt.Sprintf("field %s: documentation %q instead of %q", n, g, w)
		}
	}
	for n := range got.FieldHelp {
		if _, ok := want.FieldHelp[n]; !ok {
			return fmt.Sprintf("help for field %q", n)
		}
	}
	return ""
}

// headers: the header and the year.
func headers(r *mc.Run) {
	for _, h := range []string{"", "// x", "/*\nCopyright YEAR The A YEAR.\n*/", "// YEAR\n\n// more"} {
		for _, year := range []string{"-", "2020", "\"\"", "\" x \""} {
			if !r.Mine() {
				continue
			}
			r.Case(fmt.Sprintf("header %q year %s", h, year), h, true, func() string {
				dir := filepath.Join(r.Scratch, "header")
				_ = os.RemoveAll(dir)
				write(dir, map[string]string{"go.mod": "module ex.com\ngo 1.21\n", "h.txt": h, "p/p.go": "package p\n\n// " + markerText + "\n\n// T is a.\ntype T struct{}\n"})
				arg := "generate"
				if h != "" {
					arg += ":headerFile=h.txt"
					if year != "-" {
						arg += ",year=" + year
					}
				} else if year != "-" {
					arg += ":year=" + year
				}
				got, out, code := helpgen(dir, "", arg, "paths=./...")
				r.Transition(1)
				if code != 0 || out != "" {
					return fmt.Sprintf("helpgen %s fails with %d: %s", arg, code, out)
				}
				y := map[string]string{"-": "", "2020": "2020", "\"\"": "", "\" x \"": " x "}[year]
				text := got["p/"+generated]
				if want := strings.ReplaceAll(h, " YEAR", " "+y); strings.TrimSpace(want) != "" && !strings.Contains(text, want) {
					// formatting may trim blanks at the ends of lines
					var ls []string
					for _, l := range strings.Split(want, "\n") {
						ls = append(ls, strings.TrimRight(l, " "))
					}
					if !strings.Contains(text, strings.Join(ls, "\n")) {
						return fmt.Sprintf("the header %q is not in %.300q", want, text)
					}
				}
				if !strings.Contains(text, "func (T) Help()") && !strings.Contains(text, "T) Help()") {
					return fmt.Sprintf("no help in %q", text)
				}
				return ""
			})
		}
	}
}

// errors: what cannot be generated is reported.
func errors(r *mc.Run) {
	for _, m := range []string{":bogus=1", ":category=x,bogus=1", ":category={a}", ":category=\"x", "=x", ":"} {
		if !r.Mine() {
			continue
		}
		r.Case("error "+m, m, true, func() string {
			dir := filepath.Join(r.Scratch, "errors")
			_ = os.RemoveAll(dir)
			write(dir, map[string]string{"go.mod": "module ex.com\ngo 1.21\n", "h.txt": "// h", "p/p.go": "package p\n\n// " + markerText + m + "\n\n// T is a.\ntype T struct{}\n"})
			_, out, code := helpgen(dir, "", "generate:headerFile=h.txt", "paths=./...")
			r.Transition(1)
			if m == ":" { // nothing is wrong with it, or something is
				return ""
			}
			if code == 0 {
				return "the marker is accepted"
			}
			if code != 1 || strings.Contains(out, "goroutine ") || strings.TrimSpace(out) == "" {
				return fmt.Sprintf("not reported (%d): %s", code, out)
			}
			return ""
		})
	}
	for _, args := range [][]string{{"generate:headerFile=none.txt", "paths=./..."}, {"generate:headerFile=h.txt", "paths=./broken"}, {"generate:bogus=x", "paths=./..."}, {"generat"}} {
		if !r.Mine() {
			continue
		}
		key := strings.Join(args, " ")
		r.Case("failure "+key, key, true, func() string {
			dir := filepath.Join(r.Scratch, "errors")
			_ = os.RemoveAll(dir)
			write(dir, map[string]string{"go.mod": "module ex.com\ngo 1.21\n", "h.txt": "// h", "p/p.go": "package p\n\n// " + markerText + "\n\n// T is a.\ntype T struct{}\n", "broken/p.go": "package p\n\nfunc {\n"})
			_, out, code := helpgen(dir, "", args...)
			r.Transition(1)
			if code != 1 || strings.Contains(out, "goroutine ") || strings.TrimSpace(out) == "" {
				return fmt.Sprintf("not reported (%d): %s", code, out)
			}
			return ""
		})
	}
}

// obstacles to writing the help of a package are reported, and the other package gets its help.
func obstacles(r *mc.Run) {
	source := func(p string) string {
		return "package " + p + "\n\n// " + markerText + ":category=x\n\n// T is a.\ntype T struct{}\n"
	}
	for _, bad := range []string{"a", "b", "c"} {
		for _, how := range []string{"directory", "full device", "dangling link"} {
			if !r.Mine() {
				continue
			}
			key := "obstacle " + how + " in " + bad
			r.Case(key, key, true, func() string {
				dir := filepath.Join(r.Scratch, "obstacles")
				_ = os.RemoveAll(dir)
				defer os.RemoveAll(dir)
				write(dir, map[string]string{"go.mod": "module ex.com\ngo 1.21\n", "h.txt": "// h", "a/a.go": source("a"), "b/b.go": source("b"), "c/c.go": source("c")})
				place := filepath.Join(dir, bad, generated)
				var err error
				switch how {
				case "directory":
					err = os.MkdirAll(filepath.Join(place, "x"), 0o755)
				case "full device":
					err = os.Symlink("/dev/full", place)
				default:
					err = os.Symlink(filepath.Join(dir, "nowhere", "x"), place)
				}
				if err != nil {
					panic(err)
				}
				_, out, code := helpgen(dir, "", "generate:headerFile=h.txt", "paths=./...")
				r.Transition(1)
				if code != 1 || strings.Contains(out, "goroutine ") || strings.TrimSpace(out) == "" {
					return fmt.Sprintf("not reported (%d): %s", code, out)
				}
				for _, p := range []string{"a", "b", "c"} {
					if p == bad {
						continue
					}
					text, err := os.ReadFile(filepath.Join(dir, p, generated))
					if err != nil || !strings.Contains(string(text), "func (T) Help()") {
						return fmt.Sprintf("package %s gets no help (%v): %s", p, err, text)
					}
				}
				return ""
			})
		}
	}
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C25" {
		os.Exit(2)
	}
	mc.Main(mc.Spec{Property: "C25", Body: body,
		Rule:        "all documentation comments of up to three (thorough: four) lines from a vocabulary of seventeen, on types and on fields; all categories, places of the marker and kinds of types; all lists of up to three (thorough: four) fields of ten forms; headers, years, malformed markers and obstacles to writing; all marker types of the repository; the generated code is compiled with the real markers package and executed; non-trivial: types with the marker",
		Assumptions: []string{"the marker types can have methods (no generic, interface or pointer types), and their package declares nothing called markers", "white space around the details does not count"}})
}
