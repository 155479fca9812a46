package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/verifmc/mc"
)

// ours: the marker types of the repository itself.  Their documentation is
// read from the source here, and the help that the command generates for a copy of
// the packages is compared with it.
func ours(r *mc.Run) {
	if !r.Mine() {
		return
	}
	dir := filepath.Join(r.Scratch, "ours")
	_ = os.RemoveAll(dir)
	files := map[string]string{"go.mod": "module sigs.k8s.io/controller-tools\ngo 1.21\n", "h.txt": "// h"}
	wants := map[string]map[string]*helpOf{} // by directory and type
	root := repo()
	_ = filepath.Walk(filepath.Join(root, "pkg"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && fi.Name() == "testdata" {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || filepath.Base(p) == generated {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		files[rel] = string(data)
		for n, h := range helpIn(string(data)) {
			d := filepath.Dir(rel)
			if wants[d] == nil {
				wants[d] = map[string]*helpOf{}
			}
			wants[d][n] = h
		}
		return nil
	})
	write(dir, files)
	var got map[string]string
	if !r.Case("repository", "the packages of the repository", true, func() string {
		var out string
		var code int
		// (their dependencies cannot be loaded, which nobody needs)
		got, out, code = helpgen(dir, "", "generate:headerFile=h.txt", "paths=./pkg/...")
		r.Transition(1)
		if len(got) == 0 {
			return fmt.Sprintf("nothing is generated (%d): %s", code, out)
		}
		return ""
	}) {
		return
	}
	var dirs []string
	for d := range wants {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		var names []string
		for n := range wants[d] {
			names = append(names, n)
		}
		sort.Strings(names)
		text := got[filepath.Join(d, generated)]
		for _, n := range names {
			r.Case("repository "+d+" "+n, d+"."+n, true, func() string {
				return mentions(text, n, wants[d][n])
			})
		}
		// what is committed
		r.Case("committed "+d, d, true, func() string {
			data, err := os.ReadFile(filepath.Join(root, d, generated))
			if err != nil {
				return err.Error()
			}
			for _, n := range names {
				if !ast.IsExported(n) {
					continue // its name is nobody else's business
				}
				if msg := mentions(string(data), n, wants[d][n]); msg != "" {
					return "the committed help is out of date: " + n + ": " + msg
				}
			}
			return ""
		})
	}
	for f := range got {
		if wants[filepath.Dir(f)] == nil {
			r.Case("repository "+f, f, true, func() string { return "help that nothing asks for" })
		}
	}
}

// helpIn reads the marker types of a source file.
func helpIn(src string) map[string]*helpOf {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil
	}
	lines := strings.Split(src, "\n")
	out := map[string]*helpOf{}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.TYPE {
			continue
		}
		for _, s := range gd.Specs {
			ts := s.(*ast.TypeSpec)
			at, doc := ts.Pos(), ts.Doc
			if !gd.Lparen.IsValid() {
				at, doc = gd.Pos(), gd.Doc
			}
			var text []line
			start := fset.Position(at).Line
			if doc != nil {
				start = fset.Position(doc.Pos()).Line
				text = commentLines(doc)
			}
			// the marker is in the documentation, or in the comment before it
			var marks []string
			for _, l := range text {
				marks = append(marks, strings.TrimSpace(l.text))
			}
			i := start - 2
			for i >= 0 && strings.TrimSpace(lines[i]) == "" {
				i--
			}
			for ; i >= 0 && strings.HasPrefix(strings.TrimSpace(lines[i]), "//"); i-- {
				marks = append(marks, strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(lines[i]), "//")))
			}
			has, cat := false, ""
			for _, m := range marks {
				rest, ok := strings.CutPrefix(m, markerText)
				if !ok {
					continue
				}
				has = true
				cat = strings.TrimPrefix(rest, ":category=")
				if u, err := strconv.Unquote(cat); err == nil {
					cat = u
				}
			}
			if !has {
				continue
			}
			h := &helpOf{Category: cat, detail: helpText(docText(text, ""), ts.Name.Name), FieldHelp: map[string]detail{}}
			if st, ok := ts.Type.(*ast.StructType); ok {
				for _, fd := range st.Fields.List {
					for _, n := range fd.Names {
						h.FieldHelp[n.Name] = helpText(docText(commentLines(fd.Doc), ""), n.Name)
					}
				}
			}
			out[ts.Name.Name] = h
		}
	}
	return out
}

func commentLines(g *ast.CommentGroup) []line {
	if g == nil {
		return nil
	}
	var out []line
	for _, c := range g.List {
		t := strings.TrimPrefix(c.Text, "//")
		out = append(out, line{text: t, marker: strings.HasPrefix(strings.TrimSpace(t), "+")})
	}
	return out
}

// mentions checks that the help of a type in a generated file has the texts.
func mentions(text, name string, want *helpOf) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", text, 0)
	if err != nil {
		return err.Error()
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != "Help" || fd.Recv == nil {
			continue
		}
		if id, ok := fd.Recv.List[0].Type.(*ast.Ident); !ok || id.Name != name {
			continue
		}
		// all strings, except that concatenations are joined
		have := map[string]int{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.STRING {
				s, _ := strconv.Unquote(b.Value)
				have[s]++
			}
			return true
		})
		need := map[string]int{want.Category: 1}
		add := func(d detail) {
			need[d.Summary]++
			need[d.Details]++
		}
		add(want.detail)
		for n, d := range want.FieldHelp {
			need[n]++
			add(d)
		}
		for s, n := range need {
			if s != "" && have[s] < n {
				return fmt.Sprintf("%q is in the help %d times instead of %d", s, have[s], n)
			}
		}
		for s := range have {
			if s != "" && need[s] == 0 {
				return fmt.Sprintf("%q is in the help and not in the source", s)
			}
		}
		return ""
	}
	return "no help instead of " + want.String()
}
