// C05 / C06: which node a marker comment belongs to, and the documentation
// text of types and fields.
//
// C05 builds source files from abstract layouts (declarations with comment
// groups in every position), so the documented owner of every marker is known,
// and compares with what the collector delivers.  C06 enumerates comment line
// sequences, and texts with every maximum length.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

// Marker kinds: by the targets that the name is registered for.
//
//	p package, t type, b package and type, f field, a all three,
//	g package and field, n none (but looks like a marker)
var registered = map[byte]string{'p': "P", 't': "T", 'b': "PT", 'f': "F", 'a': "PTF", 'g': "PF", 'n': ""}

func newRegistry() *markers.Registry {
	reg := &markers.Registry{}
	for k, ts := range registered {
		for _, t := range ts {
			tgt := map[rune]markers.TargetType{'P': markers.DescribesPackage, 'T': markers.DescribesType, 'F': markers.DescribesField}[t]
			if err := reg.Define("mk:"+string(k), tgt, int(0)); err != nil {
				panic(err)
			}
		}
	}
	return reg
}

// builder writes source and keeps the model in step.
type builder struct {
	sb     strings.Builder
	id     int
	want   map[string][]entry // owner -> deliveries in source order
	maybe  map[int]bool       // ids whose owner is unspecified, other than types and fields
	spaces string             // how the comment marker is written
}

type entry struct {
	name string
	id   int
}

func newBuilder() *builder {
	return &builder{want: map[string][]entry{}, maybe: map[int]bool{}, spaces: " "}
}

func (b *builder) line(s string) { b.sb.WriteString(s); b.sb.WriteByte('\n') }

// group writes one comment group; each byte of g is a marker kind, or 'x' for
// plain text, '*' for a block comment with a marker inside.  It returns the
// markers written.
func (b *builder) group(g, indent string) []entry {
	var out []entry
	for i := 0; i < len(g); i++ {
		switch g[i] {
		case 'x':
			b.line(indent + "// some text +mk:a=99")
		case '*':
			b.line(indent + "/* +mk:a=98 */")
		case '#':
			b.line(indent + "/*\n+mk:a=97\n*/")
		default:
			b.id++
			b.line(fmt.Sprintf("%s//%s+mk:%c=%d", indent, b.spaces, g[i], b.id))
			out = append(out, entry{"mk:" + string(g[i]), b.id})
		}
	}
	return out
}

func has(e entry, t string) bool { return strings.Contains(registered[e.name[3]], t) }

func (b *builder) give(owner, target string, es []entry) {
	for _, e := range es {
		if has(e, target) {
			b.want[owner] = append(b.want[owner], e)
		}
	}
}

// toPackage: free-standing comments.
func (b *builder) toPackage(es []entry) { b.give("pkg", "P", es) }

// closestToType: the closest non-godoc comment group above a type.
func (b *builder) closestToType(owner string, es []entry) {
	for _, e := range es {
		if has(e, "T") {
			b.want[owner] = append(b.want[owner], e)
		} else if has(e, "P") {
			b.want["pkg"] = append(b.want["pkg"], e)
		}
	}
}

func (b *builder) unspecified(es []entry) {
	for _, e := range es {
		b.maybe[e.id] = true
	}
}

// slots are the comment groups of a declaration, in order of appearance.
type slots []string

// decl kinds; slotsOf gives the number of slots of each.
type declKind struct {
	name  string
	slots int
	emit  func(b *builder, n string, s slots)
}

// above writes the free group, the closest group and the doc comment.
func above(b *builder, free, closest, doc, indent string) (f, c, d []entry) {
	f = b.group(free, indent)
	if free != "" {
		b.line("")
	}
	c = b.group(closest, indent)
	if closest != "" {
		b.line("")
	}
	d = b.group(doc, indent)
	return
}

func typeAbove(b *builder, owner string, s slots) {
	f, c, d := above(b, s[0], s[1], s[2], "")
	closest, free := c, f
	if s[1] == "" {
		closest, free = f, nil // the other group is then the closest one
	}
	b.toPackage(free)
	b.closestToType(owner, closest)
	b.give(owner, "T", d)
}

// otherAbove is for declarations that take no markers themselves.
func otherAbove(b *builder, s slots) {
	f, c, _ := above(b, s[0], s[1], s[2], "")
	b.toPackage(f)
	b.toPackage(c)
	// the doc comment of a node that takes no markers belongs to nothing
}

func fieldAbove(b *builder, owner string, s slots, indent string) {
	f, c, d := above(b, s[0], s[1], s[2], indent)
	closest := c
	if s[1] == "" {
		closest = f
	}
	b.give(owner, "F", closest)
	b.give(owner, "F", d)
}

var kinds = []declKind{
	{"struct1", 7, func(b *builder, n string, s slots) {
		typeAbove(b, n, s)
		b.line("type " + n + " struct {")
		fieldAbove(b, n+".A", s[3:6], "\t")
		b.line("\tA int")
		b.group(s[6], "\t") // dangling, inside a struct: belongs to nothing
		b.line("}")
	}},
	{"struct2", 9, func(b *builder, n string, s slots) {
		typeAbove(b, n, s)
		b.line("type " + n + " struct {")
		fieldAbove(b, n+".A", slots{"", s[3], s[4]}, "\t")
		b.line("\tA int `json:\"a\"`")
		fieldAbove(b, n+".B", s[5:8], "\t")
		b.line("\tB, C string")
		b.want[n+".C"] = b.want[n+".B"]
		b.group(s[8], "\t")
		b.line("}")
	}},
	{"nested", 9, func(b *builder, n string, s slots) {
		typeAbove(b, n, s)
		b.line("type " + n + " struct {")
		fieldAbove(b, n+".A", slots{"", s[3], s[4]}, "\t")
		b.line("\tA struct {")
		// fields of the anonymous struct are not fields of the type
		b.unspecified(b.group(s[5], "\t\t"))
		b.line("\t\tX int")
		b.unspecified(b.group(s[6], "\t\t"))
		b.line("\t}")
		fieldAbove(b, n+".B", slots{"", s[7], s[8]}, "\t")
		b.line("\tB int")
		b.line("}")
	}},
	{"embedded", 7, func(b *builder, n string, s slots) {
		typeAbove(b, n, s)
		b.line("type " + n + " struct {")
		fieldAbove(b, n+".", slots{"", s[3], s[4]}, "\t")
		b.line("\t*fmt.Stringer `json:\",inline\"`")
		fieldAbove(b, n+".B", slots{"", s[5], s[6]}, "\t")
		b.line("\tB func(x int) (y string)")
		b.line("}")
	}},
	{"plain", 4, func(b *builder, n string, s slots) {
		typeAbove(b, n, s)
		if s[3] != "" {
			// at the end of the line: neither above the node nor its godoc
			b.id++
			b.line(fmt.Sprintf("type %s int // +mk:%c=%d", n, s[3][0], b.id))
		} else {
			b.line("type " + n + " int")
		}
	}},
	{"alias", 3, func(b *builder, n string, s slots) {
		typeAbove(b, n, s)
		b.line("type " + n + " = []string")
	}},
	{"eols", 8, func(b *builder, n string, s slots) {
		typeAbove(b, n, s)
		eol := func(g string) string {
			if g == "" {
				return ""
			}
			b.id++
			return fmt.Sprintf(" // +mk:%c=%d", g[0], b.id)
		}
		b.line("type " + n + " struct {")
		b.line("\tA int" + eol(s[3]))
		fieldAbove(b, n+".B", slots{"", s[4], s[5]}, "\t")
		b.line("\tB int" + eol(s[6]))
		b.line("\tfmt.Stringer `json:\",inline\"`" + eol(s[7]))
		b.line("}")
	}},
	{"empty", 4, func(b *builder, n string, s slots) {
		typeAbove(b, n, s)
		b.line("type " + n + " struct {")
		b.group(s[3], "\t")
		b.line("}")
	}},
	{"iface", 4, func(b *builder, n string, s slots) {
		typeAbove(b, n, s)
		b.line("type " + n + " interface {")
		b.unspecified(b.group(s[3], "\t"))
		b.line("\tM(x int) string")
		b.line("}")
	}},
	{"grouped", 8, func(b *builder, n string, s slots) {
		// above the keyword: free-standing; the group's doc belongs to nothing
		otherAbove(b, s)
		b.line("type (")
		_, c, d := above(b, "", s[3], s[4], "\t")
		b.closestToType(n+"1", c)
		b.give(n+"1", "T", d)
		b.line("\t" + n + "1 int")
		_, c, d = above(b, "", s[5], s[6], "\t")
		b.closestToType(n+"2", c)
		b.give(n+"2", "T", d)
		b.line("\t" + n + "2 struct {")
		_, c, d = above(b, "", s[7], "", "\t\t")
		b.give(n+"2.F", "F", c)
		_ = d
		b.line("\t\tF bool")
		b.line("\t}")
		b.line(")")
	}},
	{"var", 4, func(b *builder, n string, s slots) {
		otherAbove(b, s)
		if s[3] != "" {
			b.id++
			b.line(fmt.Sprintf("var V%s = 1 // +mk:%c=%d", n, s[3][0], b.id))
			b.maybe[b.id] = true
		} else {
			b.line("var V" + n + " = 1")
		}
	}},
	{"consts", 5, func(b *builder, n string, s slots) {
		otherAbove(b, s)
		b.line("const (")
		b.unspecified(b.group(s[3], "\t"))
		if s[3] != "" {
			b.line("")
		}
		b.unspecified(b.group(s[4], "\t"))
		b.line("\tC" + n + " = 1")
		b.line(")")
	}},
	{"func", 4, func(b *builder, n string, s slots) {
		otherAbove(b, s)
		b.line("func F" + n + "(a int) {")
		b.unspecified(b.group(s[3], "\t"))
		b.line("\tfmt.Println(a)")
		b.line("}")
	}},
	{"method", 4, func(b *builder, n string, s slots) {
		otherAbove(b, s)
		b.line("func (r *R) M" + n + "() {")
		b.unspecified(b.group(s[3], "\t"))
		b.line("}")
	}},
}

// file is one generated file: header groups, declarations with their slots.
type fileDecl struct {
	kind  declKind
	slots slots
}
type fileSpec struct {
	head  [3]string // two free groups and the doc above the package clause
	imp   [2]string // free and closest above the import
	decls []fileDecl
	tail  [2]string
}

func (f fileSpec) emit(b *builder, prefix string) {
	for i, g := range f.head {
		es := b.group(g, "")
		b.toPackage(es)
		if i < 2 && g != "" {
			b.line("")
		}
	}
	b.line("package p")
	b.line("")
	for _, g := range f.imp {
		if g != "" {
			b.toPackage(b.group(g, ""))
			b.line("")
		}
	}
	b.line("import \"fmt\"")
	b.line("")
	for i, d := range f.decls {
		d.kind.emit(b, fmt.Sprintf("%s%d", prefix, i), d.slots)
		b.line("")
	}
	for _, g := range f.tail {
		if g != "" {
			b.line("")
			b.toPackage(b.group(g, ""))
		}
	}
}

var w *world.World

// run builds the package and compares.
func runFiles(r *mc.Run, key string, files []fileSpec, spaces string) {
	if !r.Mine() {
		return
	}
	b := newBuilder()
	b.spaces = spaces
	var srcs []string
	for i, f := range files {
		b.sb.Reset()
		f.emit(b, fmt.Sprintf("T%d", i))
		srcs = append(srcs, b.sb.String())
	}
	r.State(strings.Join(srcs, "\x00"))
	r.Transition(b.id)
	n := 0
	for _, es := range b.want {
		n += len(es)
	}
	r.Case(key, strings.Join(srcs, "\n---- next file\n"), n > 0, func() string {
		got, msg := collectAll(r, srcs)
		if msg != "" {
			return msg
		}
		return compare(b, got)
	})
	if n > 1 {
		r.Sample(srcs[0])
	}
}

// collectAll returns what was delivered, by owner.
func collectAll(r *mc.Run, srcs []string) (map[string]markers.MarkerValues, string) {
	pkg, err := w.Pkg("example.com/p", "p", srcs...)
	if err != nil {
		return nil, "HARNESS: " + err.Error()
	}
	col := &markers.Collector{Registry: newRegistry()}
	got := map[string]markers.MarkerValues{}
	pm, err := markers.PackageMarkers(col, pkg)
	if err != nil {
		return nil, "PackageMarkers fails: " + err.Error()
	}
	got["pkg"] = pm
	err = markers.EachType(col, pkg, func(ti *markers.TypeInfo) {
		got[ti.Name] = ti.Markers
		for _, f := range ti.Fields {
			got[ti.Name+"."+f.Name] = f.Markers
		}
	})
	if err != nil {
		return nil, "EachType fails: " + err.Error()
	}
	if len(pkg.Errors) > 0 {
		return nil, fmt.Sprintf("errors reported on the package: %v", pkg.Errors)
	}
	return got, ""
}

func compare(b *builder, got map[string]markers.MarkerValues) string {
	owners := map[string]bool{}
	for o := range b.want {
		owners[o] = true
	}
	for o := range got {
		owners[o] = true
	}
	var os_ []string
	for o := range owners {
		os_ = append(os_, o)
	}
	sort.Strings(os_)
	var diffs []string
	for _, o := range os_ {
		want := map[string][]int{}
		for _, e := range b.want[o] {
			want[e.name] = append(want[e.name], e.id)
		}
		have := map[string][]int{}
		for name, vals := range got[o] {
			for _, v := range vals {
				id := v.(int)
				if b.maybe[id] && o == "pkg" {
					continue
				}
				have[name] = append(have[name], id)
			}
		}
		if fmt.Sprint(want) != fmt.Sprint(have) {
			diffs = append(diffs, fmt.Sprintf("%s: documented %v, delivered %v", o, want, have))
		}
	}
	return strings.Join(diffs, "\n")
}

// fillings calls f with every way of filling at most max of n slots from vals.
func fillings(n, max int, vals []string, f func(slots)) {
	cur := make(slots, n)
	var rec func(i, used int)
	rec = func(i, used int) {
		if i == n {
			f(cur)
			return
		}
		cur[i] = ""
		rec(i+1, used)
		if used < max {
			for _, v := range vals {
				cur[i] = v
				rec(i+1, used+1)
			}
			cur[i] = ""
		}
	}
	rec(0, 0)
}

func specOf(ks []declKind, s slots) fileSpec {
	var f fileSpec
	for _, k := range ks {
		f.decls = append(f.decls, fileDecl{k, append(slots{}, s[:k.slots]...)})
		s = s[k.slots:]
	}
	f.tail[0] = s[0]
	return f
}

func nslots(ks []declKind) int {
	n := 1
	for _, k := range ks {
		n += k.slots
	}
	return n
}

func c05(r *mc.Run) {
	w = world.Must(world.Light...)
	// one declaration, up to three filled slots, all marker kinds
	vals := []string{"p", "t", "b", "f", "a", "n", "x", "*"}
	max := 3
	if r.Thorough {
		vals = append(vals, "g", "tp", "#")
	}
	for _, k := range kinds {
		v := vals
		if k.slots > 7 && !r.Thorough {
			v = []string{"p", "t", "f", "a", "x"}
		}
		fillings(k.slots+1, max, v, func(s slots) {
			runFiles(r, "one:"+k.name+":"+strings.Join(s, ","), []fileSpec{specOf([]declKind{k}, s)}, " ")
		})
		if r.Expired() {
			return
		}
	}
	// groups with several comments in the slots of one declaration
	multi := []string{"pt", "tp", "bx", "xt", "tnf", "x*t", "aap", "ff", "tt", "pp"}
	for _, k := range kinds {
		fillings(k.slots+1, 2, multi, func(s slots) {
			runFiles(r, "multi:"+k.name+":"+strings.Join(s, ","), []fileSpec{specOf([]declKind{k}, s)}, " ")
		})
	}
	// two declarations
	vals2 := []string{"p", "t", "f", "a", "n", "x"}
	if r.Thorough {
		vals2 = []string{"p", "t", "b", "f", "a", "g", "n", "x", "*", "pt"}
	}
	for _, k1 := range kinds {
		for _, k2 := range kinds {
			ks := []declKind{k1, k2}
			fillings(nslots(ks), 2, vals2, func(s slots) {
				runFiles(r, "two:"+k1.name+"+"+k2.name+":"+strings.Join(s, ","), []fileSpec{specOf(ks, s)}, " ")
			})
			if r.Expired() {
				return
			}
		}
	}
	// three declarations: adjacent interactions over a longer file
	short := []int{0, 4, 7, 9, 10, 12}
	vals3 := []string{"p", "t", "a"}
	if r.Thorough {
		vals3 = append(vals3, "f", "x")
	}
	for _, i1 := range short {
		for _, i2 := range short {
			for _, i3 := range short {
				ks := []declKind{kinds[i1], kinds[i2], kinds[i3]}
				fillings(nslots(ks), 2, vals3, func(s slots) {
					runFiles(r, "three:"+ks[0].name+"+"+ks[1].name+"+"+ks[2].name+":"+strings.Join(s, ","), []fileSpec{specOf(ks, s)}, " ")
				})
			}
		}
		if r.Expired() {
			return
		}
	}
	// header, import and end of file
	fillings(8, 3, []string{"p", "t", "a", "x", "pp"}, func(s slots) {
		for _, k := range []declKind{kinds[0], kinds[10]} {
			sl := make(slots, k.slots)
			sl[1] = s[5]
			f := fileSpec{head: [3]string{s[0], s[1], s[2]}, imp: [2]string{s[3], s[4]}, decls: []fileDecl{{k, sl}}, tail: [2]string{s[6], s[7]}}
			runFiles(r, "head:"+k.name+":"+strings.Join(s, ","), []fileSpec{f}, " ")
		}
	})
	// two files; every slot of interest in both
	fillings(8, 4, []string{"p", "t", "b"}, func(s slots) {
		mk := func(s slots) fileSpec {
			sl := make(slots, kinds[0].slots)
			sl[1], sl[2] = s[1], s[2]
			return fileSpec{head: [3]string{"", "", s[0]}, decls: []fileDecl{{kinds[0], sl}}, tail: [2]string{s[3], ""}}
		}
		runFiles(r, "files:"+strings.Join(s, ","), []fileSpec{mk(s[:4]), mk(s[4:])}, " ")
	})
	// spacing of the marker itself
	for _, sp := range []string{"", " ", "  ", "\t", " \t "} {
		for _, k := range kinds {
			fillings(k.slots+1, 1, []string{"p", "t", "f", "a"}, func(s slots) {
				runFiles(r, fmt.Sprintf("space:%q:%s:%s", sp, k.name, strings.Join(s, ",")), []fileSpec{specOf([]declKind{k}, s)}, sp)
			})
		}
	}
	c05lookup(r)
}

// c05lookup: which definition a text selects, for all registries.
func c05lookup(r *mc.Run) {
	names := []string{"a", "a:b", "a:b:c", "b", "ab", "a.b:c"}
	texts := []string{"a", "a=1", "a:b", "a:b=1", "a:b=", "a:b:c", "a:b:c=1", "a:b:c=1,d=2", "a:b:c={x: y:z}", "a:b:c:d", "a:b:c:d=1", "b", "b:a=1", "ab:c=1", "ab=1", "a.b:c=1", "a.b:c", "a.b", "c", "a:", "a:=1", ":a=1", "=1", "", "a=b:c", "a:b=c:d=e", "a::b=1", "A=1", "a =1"}
	targets := []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField}
	for mask := 0; mask < 1<<uint(2*len(names)); mask++ {
		if !r.Mine() {
			continue
		}
		key := fmt.Sprintf("lookup:%d", mask)
		// two targets carry arbitrary subsets; the third is the complement of the first
		sets := make([]map[string]bool, 3)
		for i := range sets {
			sets[i] = map[string]bool{}
		}
		for i, n := range names {
			if mask>>uint(2*i)&1 == 1 {
				sets[0][n] = true
			} else {
				sets[2][n] = true
			}
			if mask>>uint(2*i+1)&1 == 1 {
				sets[1][n] = true
			}
		}
		r.State(key)
		r.Transition(len(texts) * 3)
		r.Case(key, fmt.Sprint(sets), true, func() string {
			reg := &markers.Registry{}
			for t := range sets {
				for n := range sets[t] {
					if err := reg.Define(n, targets[t], int(0)); err != nil {
						return "Define fails: " + err.Error()
					}
				}
			}
			for t := range sets {
				for _, tx := range texts {
					anon := tx
					full := tx
					if i := strings.Index(tx, "="); i >= 0 {
						anon = tx[:i]
						full = anon
						if j := strings.LastIndex(anon, ":"); j >= 0 {
							full = anon[:j]
						}
					}
					want := ""
					if sets[t][anon] {
						want = anon
					} else if sets[t][full] {
						want = full
					}
					d := reg.Lookup("+"+tx, targets[t])
					got := ""
					if d != nil {
						got = d.Name
						if d.Target != targets[t] {
							return fmt.Sprintf("looking up %q for target %v gives a definition for target %v", tx, targets[t], d.Target)
						}
					}
					if got != want {
						return fmt.Sprintf("looking up %q for target %d with %v registered gives %q, documented %q", tx, t, sets[t], got, want)
					}
				}
			}
			if d := reg.Lookup("+a", markers.TargetType(9)); d != nil {
				return "unknown target finds a definition"
			}
			return ""
		})
	}
}

func main() {
	switch os.Args[1] {
	case "C05":
		mc.Main(mc.Spec{Property: "C05", Body: c05,
			Rule:        "every file layout with up to 3 filled comment positions (one declaration), 2 (two and three declarations), header, end and two-file layouts; non-trivial: at least one marker has a documented owner",
			Assumptions: []string{"end-of-line comments belong to no node above which they stand", "comments inside const/var groups, function bodies, interfaces and anonymous structs may be package-level or ignored, but never reach another type or field"}})
	case "C06":
		mc.Main(mc.Spec{Property: "C06", Body: c06,
			Rule:        "every documentation comment over the line vocabulary up to the bound in both comment styles, every text over the alphabet with every maximum; non-trivial: something is removed or cut",
			Assumptions: []string{"go/ast's CommentGroup.Text rules (blank line collapsing, trailing blanks, directives) are part of Go's definition of documentation text"}})
	}
}
