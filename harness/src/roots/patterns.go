package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/verifmc/mc"
)

// tree is four modules, one within the other, and one beside them.
var tree = map[string]string{
	"root/go.mod":                "module ex.com/root\n\ngo 1.24\n\nrequire ex.com/nested v0.0.0\n\nreplace ex.com/nested => ./nested\n",
	"root/root.go":               "package root\n\nimport _ \"ex.com/root/a\"\nimport _ \"ex.com/nested/c\"\n",
	"root/a/a.go":                "package a\n\nimport _ \"ex.com/root/a/x\"\n",
	"root/a/a2.go":               "package a\n",
	"root/a/x/x.go":              "package x\n",
	"root/b/b.go":                "package b\n\nimport _ \"ex.com/nested/c\"\nimport _ \"ex.com/root/a\"\n",
	"root/b/tagged.go":           "//go:build other\n\npackage b\n",
	"root/b/generated.go":        "//go:build !ignore_autogenerated\n\npackage b\n",
	"root/b/b_test.go":           "package b\n",
	"root/b/testdata/t/t.go":     "package t\n",
	"root/b/_skip/s.go":          "package s\n",
	"root/.hidden/h.go":          "package h\n",
	"root/empty/README":          "nothing\n",
	"root/nested/go.mod":         "module ex.com/nested\n\ngo 1.24\n",
	"root/nested/n.go":           "package nested\n\nimport _ \"ex.com/nested/c\"\n",
	"root/nested/c/c.go":         "package c\n\nimport _ \"ex.com/nested/d\"\n",
	"root/nested/d/d.go":         "package d\n",
	"root/nested/deep/m2/go.mod": "module ex.com/m2\n\ngo 1.24\n",
	"root/nested/deep/m2/m.go":   "package m2\n",
	"beside/go.mod":              "module ex.com/beside\n\ngo 1.24\n\nrequire (\n\tex.com/root v0.0.0\n\tex.com/nested v0.0.0\n)\n\nreplace ex.com/root => ../root\nreplace ex.com/nested => ../root/nested\n",
	"beside/s.go":                "package beside\n\nimport _ \"ex.com/root/a\"\n",
}

// what the packages import
var imports = map[string][]string{
	"ex.com/root":                    {"ex.com/nested/c", "ex.com/root/a"},
	"ex.com/root/a":                  {"ex.com/root/a/x"},
	"ex.com/root/a/x":                nil,
	"ex.com/root/b":                  {"ex.com/nested/c", "ex.com/root/a"},
	"ex.com/root/b/testdata/t":       nil,
	"ex.com/nested":                  {"ex.com/nested/c"},
	"ex.com/nested/c":                {"ex.com/nested/d"},
	"ex.com/nested/d":                nil,
	"ex.com/m2":                      nil,
	"ex.com/beside":                  {"ex.com/root/a"},
	"files root/a/a.go":              {"ex.com/root/a/x"},
	"files root/a/a2.go":             nil,
	"files root/a/a.go root/a/a2.go": {"ex.com/root/a/x"},
	"files root/b/b.go":              {"ex.com/nested/c", "ex.com/root/a"},
	"files root/nested/c/c.go":       {"ex.com/nested/d"},
}

// pattern is a root and what it stands for.
type pattern struct {
	text string
	want string // the packages; or files, by directory
	err  bool   // reports an error, from the loader or from the package
}

const (
	pRoot   = "ex.com/root"
	pA      = "ex.com/root/a"
	pX      = "ex.com/root/a/x"
	pB      = "ex.com/root/b"
	pNested = "ex.com/nested"
	pC      = "ex.com/nested/c"
	pD      = "ex.com/nested/d"
	pM2     = "ex.com/m2"
)

// places to load from, and what the patterns mean there
var places = []struct {
	dir      string
	patterns []pattern
}{
	{"root", []pattern{
		{".", pRoot, false},
		{"./", pRoot, false},
		{"./...", pRoot + " " + pA + " " + pX + " " + pB + " " + pNested + " " + pC + " " + pD + " " + pM2, false},
		{"./a", pA, false},
		{"./a/...", pA + " " + pX, false},
		{"./b/../a/", pA, false},
		{"./b", pB, false},
		{"./b/...", pB, false},
		{"./b/testdata/...", pRoot + "/b/testdata/t", false},
		{"./nested", pNested, false},
		{"./nested/...", pNested + " " + pC + " " + pD + " " + pM2, false},
		{"./nested/c", pC, false},
		{"./nested/deep/...", pM2, false},
		{"../root/nested/deep/m2", pM2, false},
		{"../beside", "ex.com/beside", false},
		{"$/root/a", pA, false},
		{"$/root/nested/...", pNested + " " + pC + " " + pD + " " + pM2, false},
		{"$/beside/...", "ex.com/beside", false},
		{"ex.com/root/a", pA, false},
		{"ex.com/root/...", pRoot + " " + pA + " " + pX + " " + pB, false},
		{"ex.com/nested/c", pC, false},
		{"ex.com/nested/...", pNested + " " + pC + " " + pD, false},
		{"./a/a.go", "a/a.go", false},
		{"a/a2.go", "a/a2.go", false},
		{"$/root/a/a.go", "a/a.go", false},
		{"./b/../b/b.go", "b/b.go", false},
		{"./nested/c/c.go", "nested/c/c.go", false},
		{"./empty", "", true},
		{"./missing", "", true},
		{"ex.com/missing", "", true},
		{"./missing/...", "", true},
		{"./a/missing.go", "", true},
	}},
	{"root/a", []pattern{
		{".", pA, false},
		{"./...", pA + " " + pX, false},
		{"..", pRoot, false},
		{"../...", pRoot + " " + pA + " " + pX + " " + pB + " " + pNested + " " + pC + " " + pD + " " + pM2, false},
		{"../nested/c", pC, false},
		{"./x", pX, false},
		{"../b", pB, false},
		{"ex.com/root/b", pB, false},
		{"ex.com/nested/d", pD, false},
		{"./a.go", "a/a.go", false},
		{"a2.go", "a/a2.go", false},
	}},
	{"root/nested", []pattern{
		{".", pNested, false},
		{"./...", pNested + " " + pC + " " + pD + " " + pM2, false},
		{"./c", pC, false},
		{"../a", pA, false},
		{"../a/...", pA + " " + pX, false},
		{"ex.com/nested/c", pC, false},
		{"./c/c.go", "nested/c/c.go", false},
		{"ex.com/missing/a", "", true},
	}},
	{"beside", []pattern{
		{".", "ex.com/beside", false},
		{"../root/...", pRoot + " " + pA + " " + pX + " " + pB + " " + pNested + " " + pC + " " + pD + " " + pM2, false},
		{"ex.com/root/a", pA, false},
		{"ex.com/root/...", pRoot + " " + pA + " " + pX + " " + pB, false},
		{"../root/nested/c", pC, false},
	}},
}

func patterns(r *mc.Run) {
	root := filepath.Join(r.Scratch, "tree")
	var err error
	if root, err = filepath.EvalSymlinks(r.Scratch); err != nil {
		panic(err)
	}
	root = filepath.Join(root, "tree")
	for name, text := range tree {
		fn := filepath.Join(root, name)
		_ = os.MkdirAll(filepath.Dir(fn), 0o755)
		if err := os.WriteFile(fn, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOWORK", "off")
	for _, pl := range places {
		max := 2
		if r.Thorough && pl.dir == "root" {
			max = 3
		}
		var rec func(cur []int)
		rec = func(cur []int) {
			if len(cur) > 0 {
				for how := 0; how < 3; how++ {
					if how > 0 && len(cur) > 1 && !r.Thorough || len(cur) > 2 && how > 0 {
						continue
					}
					if r.Expired() || !r.Mine() {
						continue
					}
					var ps []pattern
					key := fmt.Sprintf("patterns in %s (%d)", pl.dir, how)
					for _, i := range cur {
						ps = append(ps, pl.patterns[i])
						key += " " + pl.patterns[i].text
					}
					r.Case(key, "", true, func() string { return patternCase(r, root, pl.dir, ps, how) })
				}
			}
			if len(cur) < max {
				for i := range pl.patterns {
					rec(append(append([]int{}, cur...), i))
				}
			}
		}
		rec(nil)
		// no patterns: the current directory
		if r.Mine() {
			r.Case("no patterns in "+pl.dir, "", true, func() string { return patternCase(r, root, pl.dir, nil, 0) })
		}
	}
}

func patternCase(r *mc.Run, root, dir string, ps []pattern, how int) string {
	var texts []string
	want := map[string]bool{}
	files := map[string]map[string]bool{}
	wantErr := false
	for _, p := range ps {
		texts = append(texts, strings.ReplaceAll(p.text, "$", root))
		wantErr = wantErr || p.err
		for _, w := range strings.Fields(p.want) {
			if strings.HasSuffix(w, ".go") {
				f := "root/" + w
				d := filepath.Dir(f)
				if files[d] == nil {
					files[d] = map[string]bool{}
				}
				files[d][f] = true
			} else {
				want[w] = true
			}
		}
	}
	if len(ps) == 0 {
		for _, pl := range places {
			if pl.dir == dir {
				want[pl.patterns[0].want] = true
			}
		}
	}
	for _, fs := range files {
		var l []string
		for f := range fs {
			l = append(l, f)
		}
		sort.Strings(l)
		want["files "+strings.Join(l, " ")] = true
	}
	abs := filepath.Join(root, dir)
	cfg := &packages.Config{}
	switch how {
	case 0: // in the working directory
		if err := os.Chdir(abs); err != nil {
			return err.Error()
		}
	case 1: // with the directory given
		_ = os.Chdir(root)
		cfg.Dir = abs
	case 2: // with the directory given as a relative path
		_ = os.Chdir(root)
		cfg.Dir = dir
	}
	defer os.Chdir(root)
	before := cfg.Dir
	pkgs, err := loader.LoadRootsWithConfig(cfg, texts...)
	r.Transition(1 + len(pkgs))
	if cfg.Dir != before {
		return fmt.Sprintf("the directory of the configuration is now %q", cfg.Dir)
	}
	gotErr := err != nil
	got := map[string]int{}
	byPath := map[string]*loader.Package{}
	id := func(p *loader.Package) string {
		if p.PkgPath == "command-line-arguments" {
			var l []string
			for _, f := range p.GoFiles {
				l = append(l, strings.TrimPrefix(f, root+"/"))
			}
			sort.Strings(l)
			return "files " + strings.Join(l, " ")
		}
		return p.PkgPath
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			gotErr = true
			continue
		}
		got[id(p)]++
		byPath[id(p)] = p
	}
	if gotErr != wantErr {
		msg := fmt.Sprintf("an error is reported: %v", gotErr)
		if err != nil {
			msg += ": " + err.Error()
		}
		for _, p := range pkgs {
			for _, e := range p.Errors {
				msg += "\n" + p.PkgPath + ": " + e.Error()
			}
		}
		return msg
	}
	if err != nil {
		r.State("error")
		return ""
	}
	var keys []string
	for w := range want {
		keys = append(keys, w)
		if got[w] != 1 {
			return fmt.Sprintf("%s is loaded %d times, of %v", w, got[w], got)
		}
	}
	for g := range got {
		if !want[g] {
			return fmt.Sprintf("%s is not asked for", g)
		}
	}
	sort.Strings(keys)
	r.State(strings.Join(keys, " "))
	// imports of everything
	seen := map[*loader.Package]bool{}
	var visit func(p *loader.Package) string
	visit = func(p *loader.Package) string {
		if seen[p] {
			return ""
		}
		seen[p] = true
		name := id(p)
		if q := byPath[name]; q != nil && q != p {
			return name + " is imported as another package"
		}
		wantImps, ok := imports[name]
		if !ok {
			return "unknown package " + name
		}
		if len(p.Imports()) != len(wantImps) {
			return fmt.Sprintf("%s imports %d packages", name, len(p.Imports()))
		}
		for _, im := range wantImps {
			q := p.Imports()[im]
			if q == nil || q.PkgPath != im {
				return fmt.Sprintf("%s does not import %s", name, im)
			}
			if msg := visit(q); msg != "" {
				return msg
			}
		}
		if !strings.HasPrefix(name, "files ") {
			n := 1
			if name == pA {
				n = 2
			}
			if len(p.GoFiles) != n || len(p.CompiledGoFiles) != n {
				return fmt.Sprintf("%s has files %v", name, p.GoFiles)
			}
		}
		return ""
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			continue
		}
		if msg := visit(p); msg != "" {
			return msg
		}
	}
	return ""
}
