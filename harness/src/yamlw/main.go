// C14: written YAML artifacts.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	yamlv3 "gopkg.in/yaml.v3"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/verifmc/genrun"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
	"sigs.k8s.io/yaml"
)

type obj = map[string]any

// write writes the objects.
func write(header string, objs []any, opts ...*genall.WriteYAMLOptions) (string, error) {
	m := &genrun.Files{}
	ctx := genall.GenerationContext{OutputRule: m}
	err := ctx.WriteYAML("f.yaml", header, objs, opts...)
	return m.Text["f.yaml"], err
}

// num is a number, exact if it is written as an integer.
type num struct {
	exact string
	f     float64
}

// same compares normalised values.
func same(a, b any) bool {
	switch a := a.(type) {
	case num:
		b, ok := b.(num)
		if ok && a.exact != "" && b.exact != "" {
			return a.exact == b.exact
		}
		return ok && a.f == b.f
	case map[string]any:
		b, ok := b.(map[string]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	case []any:
		b, ok := b.([]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !same(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// norm turns a decoded value into one that can be compared: all numbers become
// num.
func norm(v any) any {
	switch v := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, e := range v {
			out[k] = norm(e)
		}
		return out
	case map[any]any:
		out := map[string]any{}
		for k, e := range v {
			s, ok := k.(string)
			if !ok {
				s = fmt.Sprintf("not a string: %T %v", k, k)
			}
			out[s] = norm(e)
		}
		return out
	case []any:
		out := make([]any, len(v))
		for i, e := range v {
			out[i] = norm(e)
		}
		return out
	case json.Number:
		if i, err := strconv.ParseInt(string(v), 10, 64); err == nil {
			return norm(i)
		}
		if u, err := strconv.ParseUint(string(v), 10, 64); err == nil {
			return norm(u)
		}
		f, err := strconv.ParseFloat(string(v), 64)
		if err != nil {
			return string(v) + " out of range"
		}
		return num{"", f}
	case int:
		return num{strconv.Itoa(v), float64(v)}
	case int64:
		return num{strconv.FormatInt(v, 10), float64(v)}
	case uint64:
		return num{strconv.FormatUint(v, 10), float64(v)}
	case float64:
		return num{"", v}
	default:
		return v
	}
}

// meaning of a value that goes through JSON.
func meaning(v any) (any, error) {
	data, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var out any
	if err := dec.Decode(&out); err != nil {
		return nil, err
	}
	return norm(out), nil
}

// docs reads all documents with an independent decoder.
func docs(text string) ([]any, error) {
	var out []any
	dec := yamlv3.NewDecoder(strings.NewReader(text))
	for {
		var v any
		if err := dec.Decode(&v); err == io.EOF {
			return out, nil
		} else if err != nil {
			return nil, err
		}
		out = append(out, norm(v))
	}
}

// roundtrip writes the objects and compares what the artifact says.
func roundtrip(header string, objs []any) string {
	text, err := write(header, objs)
	if err != nil {
		return "not written: " + err.Error()
	}
	return compare(header, objs, text)
}

func compare(header string, objs []any, text string) string {
	if !strings.HasPrefix(text, header) {
		return fmt.Sprintf("does not start with the header %q:\n%s", header, text)
	}
	if !utf8.ValidString(text) {
		return fmt.Sprintf("is not UTF-8: %q", text)
	}
	var want []any
	for _, o := range objs {
		m, err := meaning(o)
		if err != nil {
			return "harness: " + err.Error()
		}
		want = append(want, m)
	}
	got, err := docs(text)
	if err != nil {
		return fmt.Sprintf("%v: %q", err, clip(text))
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d documents instead of %d:\n%s", len(got), len(want), clip(text))
	}
	for i := range want {
		if !same(got[i], want[i]) {
			return fmt.Sprintf("document %d reads\n%#v\ninstead of\n%#v\nfrom %q", i, got[i], want[i], clip(text))
		}
	}
	// the way users read it
	body := strings.TrimPrefix(text, header)
	parts := strings.Split("\n"+body, "\n---\n")
	if len(parts) != len(objs)+1 || strings.TrimSpace(parts[0]) != "" {
		return fmt.Sprintf("%d parts for %d objects in %q", len(parts)-1, len(objs), clip(text))
	}
	for i, p := range parts[1:] {
		j, err := yaml.YAMLToJSON([]byte(p))
		if err != nil {
			return fmt.Sprintf("%v: %q", err, clip(p))
		}
		dec := json.NewDecoder(bytes.NewReader(j))
		dec.UseNumber()
		var v any
		if err := dec.Decode(&v); err != nil {
			return err.Error()
		}
		if v = norm(v); !same(v, want[i]) {
			return fmt.Sprintf("document %d is read as\n%#v\ninstead of\n%#v\nfrom %q", i, v, want[i], clip(p))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// alphabet holds characters that YAML treats specially.
var alphabet = []string{"a", "n", "y", "e", "x", "_", "0", "1", "7", ".", "-", "+", ":", "#", " ", "\n", "\t", "\r", "\"", "'", "\\", ",", "{", "[", "]", "}", "&", "*", "!", "|", ">", "%", "@", "`", "?", "~", "=", "<", "/",
	"\x00", "\x1b", "\x7f", "\u0080", "\u0085", "\u00a0", "\u00e9", "\u2028", "\u2029", "\ufeff", "\ufffe", "\uffff", "\U0001F600", "\U0010FFFF"}

var words = []string{"true", "True", "TRUE", "false", "yes", "Yes", "NO", "no", "on", "Off", "y", "n", "Y", "N", "null", "Null", "NULL", "~", "", "nil", "none",
	".inf", "-.inf", "+.Inf", ".nan", ".NaN", "inf", "NaN", "Infinity", "0x1F", "0X1f", "0o17", "017", "08", "0b101", "1_000", "1__0", "_1", "1:30", "1:30:15", "190:20:30.15", "-1:30", "+1", "-1", "1.", ".5", "-.5", "1e3", "1E3", "1e+3", "1e-3", "1.5e3", "1e", "0e0", "12e03", "1e400",
	"685_230.15", "2001-01-01", "2001-1-1", "2001-12-14t21:59:43.10-05:00", "2001-12-15 2:59:43.10", "12:34", "<<", "=", "---", "...", "--- a", "- a", "-", "- ", "? a", "?", ": a", ":", "a:", "a: b", "a:b", "a #b", "a#b", "#a", "#", "%YAML 1.2", "%", "@a", "`a", "!a", "!!str a", "&a", "*a", "&a b", "|", "|-", ">", ">-", "| a", "[a]", "[", "]", "{a: b}", "{", "}", "a]", ",", ",a", "a,", "'a'", "'", "\"a\"", "\"", "a'", "it's",
	" a", "a ", "  ", "\ta", "a\t", "\t", "\n", "\n\n", "a\n", "a\n\n", "\na", "\n a", " \na", "a\n b", "a\n  b\nc", "a \nb", "a\n\nb", "a\n \nb", "a\n\t\nb", "a\r\nb", "a\rb", "\r", "a\n---\nb", "a\n...\nb", "---\na", "a\n#b", "# a\nb\n", "- a\n- b\n", "a: b\nc: d\n", "\"a\nb\"", "a\\nb", "\\", "a\\", "\\u0041", "\u0085", "a\u0085b", "a\u2028b", "\u2029", "\ufeffa", "a\ufeff", "\u00a0", "\u200b", "\u00ad",
	strings.Repeat("word ", 50), strings.Repeat("word ", 50) + "\n" + strings.Repeat("more ", 40), strings.Repeat("x", 300), strings.Repeat("a: ", 60), strings.Repeat(" ", 100), strings.Repeat("\n", 5), strings.Repeat("a\n", 90), strings.Repeat("\u00e9 ", 80), "a" + strings.Repeat(" ", 90) + "b", strings.Repeat("k", 130)}

// holder puts strings into every place of an object.
func holder(ss []string) obj {
	m := obj{}
	var list []any
	for i, s := range ss {
		list = append(list, s)
		if s == "<<" {
			continue // as a key: see below
		}
		m[s] = obj{"v": s, "in": []any{s, []any{s}, obj{s: s}}}
		m[s+":key"] = s
		m["l"+strconv.Itoa(i)] = []string{s}
	}
	return obj{"metadata": obj{}, "list": list, "m": m}
}

func body(r *mc.Run) {
	strs := func(name string, ss []string) {
		const chunk = 40
		for from := 0; from < len(ss); from += chunk {
			to := min(from+chunk, len(ss))
			if r.Expired() {
				return
			}
			if !r.Mine() {
				continue
			}
			part := ss[from:to]
			r.Case(fmt.Sprintf("%s %d", name, from), fmt.Sprintf("%q", part), true, func() string {
				for _, s := range part {
					r.State(s)
				}
				r.Transition(len(part))
				msg := roundtrip("", []any{holder(part)})
				if msg == "" {
					return ""
				}
				for _, s := range part {
					if one := roundtrip("", []any{holder([]string{s})}); one != "" {
						return fmt.Sprintf("string %q: %s", s, one)
					}
				}
				return msg
			})
		}
	}
	strs("words", words)
	// all strings up to a length
	max := 3
	if r.Thorough {
		max = 4
	}
	var ss []string
	var rec func(cur string, n int)
	rec = func(cur string, n int) {
		ss = append(ss, cur)
		if n == max {
			return
		}
		for _, a := range alphabet {
			rec(cur+a, n+1)
		}
	}
	if !r.Thorough {
		rec("", 0)
		strs("strings", ss)
		// and longer ones over fewer characters
		all := alphabet
		alphabet = []string{"a", "0", " ", "\n", ":", "#", "-", "\"", "'", "\t"}
		max = 5
		ss = nil
		rec("", 0)
		strs("long strings", ss)
		alphabet = all
	} else {
		for _, a := range alphabet {
			ss = nil
			rec(a, 1)
			strs("strings "+a, ss)
		}
		alphabet = []string{"a", "0", " ", "\n", ":", "#", "-", "\"", "'", "\t"}
		max = 6
		ss = nil
		rec("", 0)
		strs("long strings", ss)
	}
	// words next to words
	for i, a := range words {
		var list []string
		for _, b := range words {
			list = append(list, a+b, a+" "+b, a+"\n"+b)
		}
		strs(fmt.Sprint("pairs ", i), list)
	}
	// numbers
	var nums []string
	for _, sign := range []string{"", "-"} {
		for _, n := range []string{"0", "1", "9", "10", "63", "100000", "1000000", "10000000", "2147483647", "2147483648", "4294967296", "9007199254740991", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890"} {
			for _, frac := range []string{"", ".0", ".5", ".25", ".1", ".000001", ".123456789012345678"} {
				for _, exp := range []string{"", "e0", "E2", "e+5", "e-7", "e20", "e21", "e-300", "e270"} {
					nums = append(nums, sign+n+frac+exp)
				}
			}
		}
	}
	for i := 0; i < len(nums); i += 20 {
		part := nums[i:min(i+20, len(nums))]
		if !r.Mine() {
			continue
		}
		r.Case(fmt.Sprint("numbers ", i), strings.Join(part, " "), true, func() string {
			for _, n := range part {
				r.State(n)
				if msg := roundtrip("", []any{obj{"metadata": obj{}, "n": json.RawMessage(n), "l": []any{json.RawMessage(n)}}}); msg != "" {
					return n + ": " + msg
				}
			}
			return ""
		})
	}
	// structures
	leaves := []any{nil, "a", "", 0, true, obj{}, []any{}, []obj(nil), "x: y\n"}
	var level func(d int) []any
	level = func(d int) []any {
		if d == 0 {
			return leaves
		}
		in := level(d - 1)
		out := append([]any{}, leaves...)
		for i, a := range in {
			out = append(out, obj{"k": a}, []any{a}, obj{"b": a, "a": a}, []any{a, a})
			if d == 1 || i%3 == 0 {
				for j, b := range in {
					if d == 1 || j%5 == 0 {
						out = append(out, obj{"b": a, "a": b}, []any{a, b})
					}
				}
			}
		}
		return out
	}
	depth := 2
	if r.Thorough {
		depth = 3
	}
	all := level(depth)
	for i := 0; i < len(all); i += 25 {
		part := all[i:min(i+25, len(all))]
		if r.Expired() || !r.Mine() {
			continue
		}
		r.Case(fmt.Sprint("structures ", i), fmt.Sprintf("%v", part), true, func() string {
			for j, v := range part {
				r.State(fmt.Sprintf("%#v", v))
				r.Transition(1)
				o := obj{"metadata": obj{}, "v": v}
				if msg := roundtrip("", []any{o}); msg != "" {
					return fmt.Sprintf("%d: %s", j, msg)
				}
			}
			return ""
		})
	}
	if r.Shard == 0 {
		r.Case("map key <<", "<<", true, func() string {
			return roundtrip("", []any{obj{"metadata": obj{}, "m": obj{"<<": "x"}}})
		})
	}
	headers(r)
	transforms(r)
	destinations(r)
	generators(r)
	r.Sample("strings over 53 special characters in every position; numbers; structures; headers; destinations; generators with hostile text")
}

// headers: the text is reproduced, and every object follows in its own
// document.
func headers(r *mc.Run) {
	objs := []any{obj{"metadata": obj{}, "a": 1}, obj{"metadata": obj{"name": "x"}, "a": "---\nb"}, obj{"metadata": obj{}, "l": []int{1}}}
	for i, h := range []string{"", "# c\n", "# c\n# d\n\n", "\n", "# c\n\n\n", "# c\r\n", "# \u00e9 YEAR\n", "#\n", "---\n", "# a\n---\n", "# c\n...\n"} {
		for n := 0; n <= 3; n++ {
			for _, perm := range genrun.Permutations(n) {
				if !r.Mine() {
					continue
				}
				var os []any
				for _, j := range perm {
					os = append(os, objs[j])
				}
				r.Case(fmt.Sprintf("header %d %v", i, perm), h, true, func() string {
					text, err := write(h, os)
					if err != nil {
						return err.Error()
					}
					if n == 0 {
						if text != h {
							return fmt.Sprintf("%q", text)
						}
						return ""
					}
					if strings.HasSuffix(h, "---\n") || strings.HasSuffix(h, "...\n") {
						// an additional empty document is the header's
						if !strings.HasPrefix(text, h) {
							return fmt.Sprintf("%q", text)
						}
						return compare("", os, strings.TrimPrefix(text, h))
					}
					return compare(h, os, text)
				})
			}
		}
	}
}

// transforms change the object before it is written, in order, and failures
// are reported.
func transforms(r *mc.Run) {
	set := func(k string, v any) *genall.WriteYAMLOptions {
		return genall.WithTransform(func(o map[string]any) error { o[k] = v; return nil })
	}
	del := func(k string) *genall.WriteYAMLOptions {
		return genall.WithTransform(func(o map[string]any) error { delete(o, k); return nil })
	}
	fail := genall.WithTransform(func(map[string]any) error { return fmt.Errorf("no") })
	ops := []struct {
		name string
		opt  *genall.WriteYAMLOptions
		do   func(obj)
	}{
		{"a=1", set("a", 1), func(o obj) { o["a"] = 1 }},
		{"a=x", set("a", "x"), func(o obj) { o["a"] = "x" }},
		{"-a", del("a"), func(o obj) { delete(o, "a") }},
		{"-status", del("status"), func(o obj) { delete(o, "status") }},
		{"nil", genall.WithTransform(nil), func(obj) {}},
		{"ts", genall.WithTransform(genall.TransformRemoveCreationTimestamp), func(o obj) {
			if m, ok := o["metadata"].(obj); ok {
				delete(m, "creationTimestamp")
			}
		}},
		{"fail", fail, nil},
	}
	metas := []any{nil, "none", obj{}, obj{"creationTimestamp": nil}, obj{"creationTimestamp": nil, "name": "x", "annotations": obj{"creationTimestamp": "y"}}}
	var rec func(cur []int)
	rec = func(cur []int) {
		for mi, meta := range metas {
			if !r.Mine() {
				continue
			}
			r.Case(fmt.Sprintf("transforms %v %d", cur, mi), "", len(cur) > 0, func() string {
				mk := func() obj {
					o := obj{"a": 5, "status": obj{"x": 1}, "spec": obj{"status": obj{}, "creationTimestamp": nil}}
					if meta != "none" {
						o["metadata"] = meta
						if m, ok := meta.(obj); ok {
							c := obj{}
							for k, v := range m {
								c[k] = v
							}
							o["metadata"] = c
						}
					}
					return o
				}
				want, failing := mk(), false
				var opts []*genall.WriteYAMLOptions
				for _, i := range cur {
					opts = append(opts, ops[i].opt)
					if ops[i].do == nil {
						failing = true
						continue
					}
					ops[i].do(want)
				}
				in := mk()
				text, err := write("# h\n", []any{in}, opts...)
				if !reflect.DeepEqual(in, mk()) {
					return "the object was changed"
				}
				if failing {
					if err == nil {
						return "not reported"
					}
					return ""
				}
				if err != nil {
					return err.Error()
				}
				return compare("# h\n", []any{want}, text)
			})
		}
		if len(cur) < 3 {
			for i := range ops {
				rec(append(append([]int{}, cur...), i))
			}
		}
	}
	rec(nil)
}

// destinations: the bytes are the same everywhere.
func destinations(r *mc.Run) {
	if r.Shard != 0 {
		return
	}
	objs := []any{obj{"metadata": obj{}, "a": "b"}, obj{"metadata": obj{}, "s": "x\ny\n"}}
	want, err := write("# h\n", objs)
	if err != nil {
		panic(err)
	}
	base := filepath.Join(r.Scratch, "out")
	read := func(p string) string {
		data, err := os.ReadFile(p)
		if err != nil {
			return err.Error()
		}
		return string(data)
	}
	inPkg := filepath.Join(base, "src", "p.go")
	type dest struct {
		name string
		rule genall.OutputRule
		pkg  bool
		path func(item string) string
	}
	dir := func(parts ...string) func(string) string {
		return func(item string) string { return filepath.Join(append(append([]string{base}, parts...), item)...) }
	}
	gen := new(genall.Generator)
	other := new(genall.Generator)
	per := genall.DirectoryPerGenerator(filepath.Join(base, "per"), map[string]*genall.Generator{"g": gen})
	dests := []dest{
		{"directory", genall.OutputToDirectory(filepath.Join(base, "d")), false, dir("d")},
		{"nested directory", genall.OutputToDirectory(filepath.Join(base, "d", "e", "f") + "/"), false, dir("d", "e", "f")},
		{"directory for code", genall.OutputToDirectory(filepath.Join(base, "dc")), true, dir("dc")},
		{"artifacts", genall.OutputArtifacts{Config: genall.OutputToDirectory(filepath.Join(base, "conf"))}, false, dir("conf")},
		{"artifacts for code", genall.OutputArtifacts{Config: genall.OutputToDirectory(filepath.Join(base, "conf"))}, true, dir("src")},
		{"artifacts with code directory", genall.OutputArtifacts{Config: genall.OutputToDirectory(filepath.Join(base, "conf2")), Code: genall.OutputToDirectory(filepath.Join(base, "code"))}, true, dir("code")},
		{"artifacts with code directory, config", genall.OutputArtifacts{Config: genall.OutputToDirectory(filepath.Join(base, "conf2")), Code: genall.OutputToDirectory(filepath.Join(base, "code"))}, false, dir("conf2")},
		{"per generator", per.ForGenerator(gen), false, dir("per", "g")},
		{"per generator, code", per.ForGenerator(gen), true, dir("src")},
		{"other generator", per.ForGenerator(other), false, dir("per")},
		{"rules", genall.OutputRules{Default: genall.OutputToDirectory(filepath.Join(base, "def")), ByGenerator: map[*genall.Generator]genall.OutputRule{gen: genall.OutputToDirectory(filepath.Join(base, "spec"))}}.ForGenerator(gen), false, dir("spec")},
		{"rules, other", genall.OutputRules{Default: genall.OutputToDirectory(filepath.Join(base, "def")), ByGenerator: map[*genall.Generator]genall.OutputRule{gen: genall.OutputToDirectory(filepath.Join(base, "spec"))}}.ForGenerator(other), false, dir("def")},
	}
	for _, d := range dests {
		for _, item := range []string{"f.yaml", "sub/f.yaml", "./f.yaml", "sub/../f.yaml"} {
			if d.pkg && strings.Contains(item, "sub") {
				continue
			}
			for _, old := range []string{"none", "longer", "deeper"} {
				r.Case("destination "+d.name+" "+item+" "+old, "", true, func() string {
					_ = os.RemoveAll(base)
					if old != "none" {
						p := d.path(item)
						if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
							return err.Error()
						}
						if err := os.WriteFile(p, []byte(strings.Repeat("old text\n", 500)), 0o644); err != nil {
							return err.Error()
						}
						if old == "deeper" {
							_ = os.WriteFile(filepath.Join(filepath.Dir(p), "keep"), []byte("keep"), 0o644)
						}
					}
					var pkg *loader.Package
					if d.pkg {
						pkg = packageAt(inPkg)
					}
					ctx := genall.GenerationContext{OutputRule: withPackage{d.rule, pkg}}
					if err := ctx.WriteYAML(item, "# h\n", objs); err != nil {
						return err.Error()
					}
					if got := read(d.path(item)); got != want {
						return fmt.Sprintf("%s holds %q instead of %q", d.path(item), clip(got), want)
					}
					n := 0
					_ = filepath.Walk(base, func(_ string, fi os.FileInfo, _ error) error {
						if fi != nil && fi.Mode().IsRegular() {
							n++
						}
						return nil
					})
					if (old == "deeper" && n != 2) || (old != "deeper" && n != 1) {
						return fmt.Sprintf("%d files", n)
					}
					return ""
				})
			}
		}
	}
	r.Case("destination stdout", "", true, func() string {
		old := os.Stdout
		p := filepath.Join(r.Scratch, "stdout")
		f, err := os.Create(p)
		if err != nil {
			return err.Error()
		}
		os.Stdout = f
		ctx := genall.GenerationContext{OutputRule: genall.OutputToStdout}
		err = ctx.WriteYAML("x", "# h\n", objs)
		if err == nil {
			// it stays open for the next artifact
			err = ctx.WriteYAML("y", "# h\n", objs)
		}
		os.Stdout = old
		if err != nil {
			return err.Error()
		}
		_ = f.Close()
		if got := read(p); got != want+want {
			return fmt.Sprintf("%q", got)
		}
		return ""
	})
	r.Case("destination nothing", "", true, func() string {
		ctx := genall.GenerationContext{OutputRule: genall.OutputToNothing}
		if err := ctx.WriteYAML("x", "# h\n", objs); err != nil {
			return err.Error()
		}
		return ""
	})
	r.Case("destination code without files", "", true, func() string {
		ctx := genall.GenerationContext{OutputRule: withPackage{genall.OutputArtifacts{}, packageAt("")}}
		if err := ctx.WriteYAML("x", "# h\n", objs); err == nil {
			return "not reported"
		}
		return ""
	})
}

// withPackage opens artifacts as part of a package.
type withPackage struct {
	genall.OutputRule
	pkg *loader.Package
}

func (w withPackage) Open(_ *loader.Package, p string) (io.WriteCloser, error) {
	return w.OutputRule.Open(w.pkg, p)
}

func packageAt(file string) *loader.Package {
	p, err := light.Pkg("ex.com/dest", "dest", "package dest\n")
	if err != nil {
		panic(err)
	}
	light.Forget("ex.com/dest")
	if file == "" {
		p.CompiledGoFiles, p.GoFiles = nil, nil
	} else {
		p.CompiledGoFiles, p.GoFiles = []string{file}, []string{file}
	}
	return p
}

var light *world.World

// generators put text of the user into their artifacts.
func generators(r *mc.Run) {
	full := world.Must()
	type gen struct {
		g   genall.Generator
		src func(text string) (string, bool)
		get func(doc any) any
	}
	at := func(path ...any) func(any) any {
		return func(v any) any {
			for _, p := range path {
				switch k := p.(type) {
				case string:
					m, ok := v.(map[string]any)
					if !ok {
						return nil
					}
					v = m[k]
				case int:
					l, ok := v.([]any)
					if !ok || k >= len(l) {
						return nil
					}
					v = l[k]
				}
			}
			return v
		}
	}
	marker := func(s string) (string, bool) {
		// the argument as a Go string
		return strconv.Quote(s), true
	}
	gens := map[string]gen{
		"rbac": {rbac.Generator{RoleName: "role"}, func(t string) (string, bool) {
			q, ok := marker(t)
			return "// +kubebuilder:rbac:groups=" + q + ",resources=x,verbs=get\npackage p\n", ok && t != ""
		}, at("rules", 0, "apiGroups", 0)},
		"webhook": {webhook.Generator{}, func(t string) (string, bool) {
			q, ok := marker(t)
			return "// +kubebuilder:webhook:path=" + q + ",mutating=true,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=n.x.y,sideEffects=None,admissionReviewVersions=v1\npackage p\n", ok && t != ""
		}, at("webhooks", 0, "clientConfig", "service", "path")},
		"crd": {crd.Generator{}, func(t string) (string, bool) {
			q, ok := marker(t)
			return "// +groupName=g.io\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\ntype Foo struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\t// +kubebuilder:default=" + q + "\n\t// +kubebuilder:validation:Enum={" + q + "}\n\tA string `json:\"a\"`\n}\n", ok
		}, at("spec", "versions", 0, "schema", "openAPIV3Schema", "properties", "a", "default")},
	}
	for name, g := range gens {
		reg := &markers.Registry{}
		if err := g.g.RegisterMarkers(reg); err != nil {
			panic(err)
		}
		warm := genrun.NewWarm(full, reg)
		for i, t := range words {
			if r.Expired() || !r.Mine() {
				continue
			}
			src, ok := g.src(t)
			if !ok {
				continue
			}
			for _, h := range []string{"", "# c YEAR\n#  YEAR, YEAR\n"} {
				r.Case(fmt.Sprintf("generator %s %d %q", name, i, h), src, true, func() string {
					built, err := genrun.Build(full, []genrun.Source{{Path: "ex.com/v1", Files: []string{src}}})
					if err != nil {
						return "" // not Go
					}
					ctx := &genall.GenerationContext{Collector: warm.Collector(), Roots: built, Checker: &loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}}, InputRule: genrun.Input{"h": h}}
					gg := g.g
					if h != "" {
						switch v := gg.(type) {
						case rbac.Generator:
							v.HeaderFile, v.Year = "h", "2031"
							gg = v
						case webhook.Generator:
							v.HeaderFile, v.Year = "h", "2031"
							gg = v
						case crd.Generator:
							v.HeaderFile, v.Year = "h", "2031"
							gg = v
						}
					}
					out := genrun.Run(gg, ctx, built)
					if out.Panic != "" {
						return out.Panic
					}
					if out.Failed() {
						return "not written: " + strings.Join(out.Errs, " | ")
					}
					if len(out.Files) != 1 {
						return out.String()
					}
					for _, text := range out.Files {
						hh := strings.ReplaceAll(h, " YEAR", " 2031")
						if !strings.HasPrefix(text, hh+"---\n") {
							return "does not start with the header: " + text
						}
						ds, err := docs(text)
						if err != nil || len(ds) != 1 {
							return fmt.Sprintf("%d documents, %v: %q", len(ds), err, text)
						}
						if got := g.get(ds[0]); got != t {
							return fmt.Sprintf("reads %#v instead of %q: %q", got, t, text)
						}
					}
					return ""
				})
			}
		}
	}
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C14" {
		os.Exit(2)
	}
	light = world.Must(world.Light...)
	mc.Main(mc.Spec{Property: "C14", Body: body,
		Rule:        "every string of up to three (thorough: four) characters over 53 special ones and of up to five (six) over ten, every pair of 190 hostile words, numbers over signs, magnitudes, fractions and exponents, all structures up to depth two (three), in every position of an object (value, list item, key); header texts, transform sequences, destinations and real generators; non-trivial: something special in the object",
		Assumptions: []string{"two decoders (yaml.v3 and sigs.k8s.io/yaml) stand for the readers of the artifacts", "numbers are compared as 64-bit integers and floats"}})
}
