// C03 / C04: marker argument parsing.
//
// C03 enumerates value trees and every documented way of writing each node,
// and compares the parsed value with the tree; then every text of the listed
// error classes, which must be rejected.  C04 enumerates all strings up to a
// length, and pumped short strings, for every argument shape and every marker
// the tool registers.
package main

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
	"sigs.k8s.io/controller-tools/verifmc/mc"
)

// ---- abstract values -------------------------------------------------------

type kind int

const (
	kInt kind = iota
	kNum
	kStr
	kBool
	kList
	kMap
)

// val is a value tree.
type val struct {
	k     kind
	i     int
	f     float64
	s     string
	b     bool
	elems []val
	keys  []string
}

// text is one way of writing a value, with what it commits to.
type text struct {
	s string
	// legacy: contains a semicolon list outside braces; mapTop etc.
	legacy bool
	bare   bool
}

// typ is an argument type.
type typ struct {
	name string
	rt   reflect.Type
	any  bool
	k    kind
	elem *typ
}

func tInt() *typ  { return &typ{name: "int", rt: reflect.TypeOf(0), k: kInt} }
func tI32() *typ  { return &typ{name: "int32", rt: reflect.TypeOf(int32(0)), k: kInt} }
func tNum() *typ  { return &typ{name: "float64", rt: reflect.TypeOf(0.0), k: kNum} }
func tStr() *typ  { return &typ{name: "string", rt: reflect.TypeOf(""), k: kStr} }
func tBool() *typ { return &typ{name: "bool", rt: reflect.TypeOf(false), k: kBool} }
func tAny() *typ {
	return &typ{name: "any", rt: reflect.TypeOf((*interface{})(nil)).Elem(), any: true}
}
func tList(e *typ) *typ {
	return &typ{name: "[]" + e.name, rt: reflect.SliceOf(e.rt), k: kList, elem: e}
}
func tMap(e *typ) *typ {
	return &typ{name: "map[" + e.name + "]", rt: reflect.MapOf(reflect.TypeOf(""), e.rt), k: kMap, elem: e}
}

func tPtr(e *typ) *typ {
	c := *e
	c.name, c.rt = "*"+e.name, reflect.PointerTo(e.rt)
	return &c
}

type wrapped string
type wrappedInt int32

func tNamed() *typ { return &typ{name: "namedstring", rt: reflect.TypeOf(wrapped("")), k: kStr} }
func tNamedInt() *typ {
	return &typ{name: "namedint32", rt: reflect.TypeOf(wrappedInt(0)), k: kInt}
}

// ---- vocabulary ------------------------------------------------------------

var strVocab = []string{"a", "foo bar", "a-b/c.d", "/tmp/x-0B7LDeo", "v1.0_b", "é ü", "x=y", "it's", "", "a,b", "a;b", "k: v", "{x}", `q"q`, "b`t", `back\slash`, "tab\tnl\n", "true", "12", "-3", "1.5", "trueish", "foo 08", "^[a-z]+$", "10Gi", "false x", "+m", "#c", "//x", "日本"}

// bareOK says whether the documentation lets a string be written bare.
func bareOK(s string, any bool) bool {
	if s == "" || strings.TrimSpace(s) != s || strings.ContainsAny(s, ",;:{}\"`\n\t\\") {
		return false
	}
	if any {
		// written bare these mean a number or a boolean
		first := strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' })
		if len(first) > 0 && strings.HasPrefix(s, first[0]) && (first[0] == "true" || first[0] == "false") {
			return false
		}
		t := strings.TrimLeft(s, "-. ")
		if t == "" || unicode.IsDigit([]rune(t)[0]) || s[0] == '\'' {
			return false
		}
	}
	return true
}

func renderStr(s string, any bool, rich bool) []text {
	var out []text
	if bareOK(s, any) {
		out = append(out, text{s: s, bare: true})
	}
	if rich || len(out) == 0 {
		out = append(out, text{s: strconv.Quote(s)})
		if !strings.ContainsAny(s, "`\n\t") {
			out = append(out, text{s: "`" + s + "`"})
		}
	}
	return out
}

// scalars of a type; rich: the whole vocabulary.
func scalars(k kind, t *typ, rich bool) []val {
	var out []val
	switch k {
	case kInt:
		is := []int{7, -3}
		if rich {
			is = []int{0, 7, -3, 42, 100, math.MaxInt32, math.MinInt32}
			if !strings.Contains(t.name, "int32") {
				is = append(is, math.MaxInt64, math.MinInt64, 2147483648)
			}
		}
		for _, i := range is {
			out = append(out, val{k: kInt, i: i})
		}
	case kNum:
		fs := []float64{0.5, -1.25}
		if rich {
			fs = []float64{0.5, -1.25, 1e21, 2.5e-7, 100.125, -0.0625}
			if !t.any {
				fs = append(fs, 3, 0, -17)
			}
		}
		for _, f := range fs {
			out = append(out, val{k: kNum, f: f})
		}
	case kStr:
		ss := []string{"a", "x y", "a,b"}
		if rich {
			ss = strVocab
		}
		for _, s := range ss {
			out = append(out, val{k: kStr, s: s})
		}
	case kBool:
		out = append(out, val{k: kBool, b: true}, val{k: kBool, b: false})
	}
	return out
}

// render lists ways of writing v for an argument of type t.  inList: directly
// inside a list (a legacy list is then only possible in typed arguments).
func render(v val, t *typ, rich, inList bool) []text {
	switch v.k {
	case kInt:
		return []text{{s: strconv.Itoa(v.i), bare: true}}
	case kNum:
		out := []text{{s: strconv.FormatFloat(v.f, 'f', -1, 64), bare: true}}
		if rich {
			s := strconv.FormatFloat(v.f, 'e', -1, 64)
			if s != out[0].s {
				out = append(out, text{s: s, bare: true})
			}
		}
		if t.any && !strings.ContainsAny(out[0].s, ".e") {
			out = out[1:]
		}
		return out
	case kStr:
		return renderStr(v.s, t.any, rich)
	case kBool:
		return []text{{s: strconv.FormatBool(v.b), bare: true}}
	case kList:
		et := t
		if !t.any {
			et = t.elem
		}
		parts := [][]text{}
		for _, e := range v.elems {
			parts = append(parts, render(e, et, false, true))
		}
		var out []text
		for _, combo := range product(parts, 6) {
			seps := []string{", ", ","}
			for _, sep := range seps {
				out = append(out, text{s: "{" + join(combo, sep) + "}"})
			}
			if rich {
				out = append(out, text{s: "{ " + join(combo, " , ") + " }"})
			}
			// the legacy form: scalars only, at least two of them for any
			scal := len(v.elems) > 0
			for _, e := range v.elems {
				if e.k == kList || e.k == kMap {
					scal = false
				}
			}
			if scal && (!t.any || (len(v.elems) > 1 && !inList)) {
				out = append(out, text{s: join(combo, ";"), legacy: true})
				if rich {
					out = append(out, text{s: join(combo, "; "), legacy: true})
				}
			}
		}
		return out
	case kMap:
		et := t
		if !t.any {
			et = t.elem
		}
		parts := [][]text{}
		for _, e := range v.elems {
			parts = append(parts, render(e, et, false, false))
		}
		var out []text
		for _, combo := range product(parts, 6) {
			for style := 0; style < 4; style++ {
				if style > 1 && !rich {
					break
				}
				var es []string
				for i, k := range v.keys {
					key := k
					if !bareOK(k, t.any) || style == 1 {
						key = strconv.Quote(k)
					} else if style == 2 {
						key = "`" + k + "`"
					}
					colon := ": "
					if style == 3 {
						colon = ":"
					}
					es = append(es, key+colon+combo[i].s)
				}
				sep := ", "
				if style == 3 {
					sep = ","
				}
				out = append(out, text{s: "{" + strings.Join(es, sep) + "}"})
			}
		}
		return out
	}
	return nil
}

func join(c []text, sep string) string {
	var s []string
	for _, t := range c {
		s = append(s, t.s)
	}
	return strings.Join(s, sep)
}

func product(parts [][]text, max int) [][]text {
	out := [][]text{nil}
	for _, p := range parts {
		var next [][]text
		for _, o := range out {
			for _, t := range p {
				next = append(next, append(append([]text(nil), o...), t))
			}
		}
		out = next
	}
	if len(out) > max {
		// keep a spread that includes the first and last of every part
		var keep [][]text
		for i := 0; i < max; i++ {
			keep = append(keep, out[i*(len(out)-1)/(max-1)])
		}
		out = keep
	}
	return out
}

// values enumerates value trees for a type.
func values(t *typ, depth int, rich bool) []val {
	if t.any {
		var out []val
		for _, k := range []kind{kInt, kNum, kStr, kBool} {
			out = append(out, scalars(k, t, rich)...)
		}
		if depth <= 0 {
			return out
		}
		// lists are uniform: the elements have the type of the first
		for _, k := range []kind{kInt, kNum, kStr, kBool} {
			sc := scalars(k, t, false)
			out = append(out, lists(sc)...)
		}
		if depth > 1 {
			inner := []val{
				{k: kList, elems: []val{{k: kInt, i: 1}, {k: kInt, i: -2}}},
				{k: kList, elems: []val{{k: kInt, i: 3}}},
			}
			out = append(out, lists(inner)...)
			inner = []val{
				{k: kList, elems: []val{{k: kStr, s: "a"}, {k: kStr, s: "b;c"}}},
				{k: kList, elems: []val{{k: kStr, s: "x y"}}},
			}
			out = append(out, lists(inner)...)
			ms := maps(values(t, depth-2, false), []string{"k"}, 1)
			ms = append(ms, val{k: kMap, keys: []string{"p", "q r"}, elems: []val{{k: kInt, i: -1}, {k: kStr, s: "z"}}})
			for _, m := range ms {
				out = append(out, val{k: kList, elems: []val{m}}, val{k: kList, elems: []val{m, ms[len(ms)-1]}}, val{k: kList, elems: []val{ms[len(ms)-1], m}})
			}
		}
		out = append(out, val{k: kMap})
		vs := values(t, depth-1, false)
		out = append(out, maps(vs, []string{"k", "two words"}, 2)...)
		return out
	}
	switch t.k {
	case kList:
		vs := values(t.elem, depth-1, rich)
		out := []val{{k: kList}}
		out = append(out, lists(vs)...)
		return out
	case kMap:
		vs := values(t.elem, depth-1, rich)
		out := []val{{k: kMap}}
		// keys of every kind of text
		for _, k := range strVocab {
			if k != "" {
				out = append(out, val{k: kMap, keys: []string{k}, elems: vs[:1]})
			}
		}
		for _, k := range []string{" lead", "trail ", "In Between", "UPPER", "a:b:c"} {
			out = append(out, val{k: kMap, keys: []string{k}, elems: vs[len(vs)-1:]})
		}
		return append(out, maps(vs, []string{"k", "two words"}, 2)...)
	default:
		return scalars(t.k, t, rich)
	}
}

func lists(vs []val) []val {
	var out []val
	for i := range vs {
		out = append(out, val{k: kList, elems: []val{vs[i]}})
		for j := range vs {
			if len(vs) > 12 && i != 0 && j != 0 && i != j {
				continue
			}
			out = append(out, val{k: kList, elems: []val{vs[i], vs[j]}})
		}
	}
	if len(vs) >= 2 {
		out = append(out, val{k: kList, elems: []val{vs[0], vs[1], vs[len(vs)-1], vs[0]}})
	}
	return out
}

func maps(vs []val, keys []string, n int) []val {
	var out []val
	for i := range vs {
		out = append(out, val{k: kMap, keys: keys[:1], elems: []val{vs[i]}})
		if n < 2 {
			continue
		}
		for j := range vs {
			if len(vs) > 16 && i != 0 && j != 0 && i != j {
				continue
			}
			out = append(out, val{k: kMap, keys: []string{keys[0], keys[1]}, elems: []val{vs[i], vs[j]}})
		}
	}
	return out
}

// ---- expected Go values ------------------------------------------------------

func anyType(v val) reflect.Type {
	switch v.k {
	case kInt:
		return reflect.TypeOf(0)
	case kNum:
		return reflect.TypeOf(0.0)
	case kStr:
		return reflect.TypeOf("")
	case kBool:
		return reflect.TypeOf(false)
	case kList:
		if len(v.elems) == 0 {
			return reflect.TypeOf(map[string]interface{}{})
		}
		return reflect.SliceOf(anyType(v.elems[0]))
	}
	return reflect.TypeOf(map[string]interface{}{})
}

func expected(v val, rt reflect.Type) reflect.Value {
	if rt.Kind() == reflect.Interface {
		rt = anyType(v)
	}
	if rt.Kind() == reflect.Ptr {
		p := reflect.New(rt.Elem())
		p.Elem().Set(expected(v, rt.Elem()))
		return p
	}
	out := reflect.New(rt).Elem()
	switch v.k {
	case kInt:
		if rt.Kind() == reflect.Float64 {
			out.SetFloat(float64(v.i))
		} else {
			out.SetInt(int64(v.i))
		}
	case kNum:
		out.SetFloat(v.f)
	case kStr:
		out.SetString(v.s)
	case kBool:
		out.SetBool(v.b)
	case kList:
		for _, e := range v.elems {
			out = reflect.Append(out, expected(e, rt.Elem()))
		}
	case kMap:
		out.Set(reflect.MakeMap(rt))
		for i, e := range v.elems {
			out.SetMapIndex(reflect.ValueOf(v.keys[i]), expected(e, rt.Elem()))
		}
	}
	return out
}

// same compares values, taking nil and empty lists as the same.
func same(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	for a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !same(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func show(v reflect.Value) string { return fmt.Sprintf("%T %#v", v.Interface(), v.Interface()) }

// ---- C03 ---------------------------------------------------------------------

var types = []*typ{
	tInt(), tI32(), tNamedInt(), tNum(), tStr(), tNamed(), tBool(), tAny(),
	tList(tInt()), tList(tI32()), tList(tStr()), tList(tNamed()), tList(tBool()), tList(tNum()), tList(tAny()),
	tList(tList(tInt())), tList(tList(tStr())),
	tMap(tStr()), tMap(tInt()), tMap(tBool()), tMap(tAny()), tMap(tNum()),
	tMap(tList(tStr())), tMap(tMap(tInt())), tMap(tList(tInt())),
	tList(tMap(tStr())), tList(tMap(tAny())),
	tList(tPtr(tStr())), tList(tPtr(tI32())), tMap(tPtr(tInt())), tMap(tPtr(tList(tStr()))), tList(tPtr(tBool())),
}

func structOf(fields ...reflect.StructField) reflect.Type { return reflect.StructOf(fields) }

func c03(r *mc.Run) {
	for _, t := range types {
		depth := 3
		// anonymous markers
		var anon *markers.Definition
		var err error
		if !t.any {
			anon, err = markers.MakeDefinition("t:anon", markers.DescribesType, reflect.Zero(t.rt).Interface())
		} else {
			// an interface type can only be the type of a field: mapped to an anonymous marker
			type custom struct{ Value interface{} }
			anon, err = markers.MakeAnyTypeDefinition("t:anon", markers.DescribesType, custom{})
		}
		if err != nil {
			r.Case("def "+t.name, t.name, true, func() string { return "cannot define: " + err.Error() })
			continue
		}
		var ptr *markers.Definition
		if !t.any && t.k != kList && t.k != kMap {
			ptr, _ = markers.MakeDefinition("t:ptr", markers.DescribesType, reflect.Zero(reflect.PtrTo(t.rt)).Interface())
		}
		// a named argument before, after and between others
		mid := structOf(
			reflect.StructField{Name: "First", Type: reflect.TypeOf(""), Tag: `marker:",optional"`},
			reflect.StructField{Name: "Value", Type: t.rt},
			reflect.StructField{Name: "Last", Type: reflect.TypeOf(0), Tag: `marker:"other,optional"`},
			reflect.StructField{Name: "List", Type: reflect.TypeOf([]string(nil)), Tag: `marker:",optional"`},
			reflect.StructField{Name: "Ptr", Type: reflect.TypeOf((*bool)(nil))},
		)
		named, err := markers.MakeDefinition("t:named", markers.DescribesType, reflect.Zero(mid).Interface())
		if err != nil {
			r.Case("def "+t.name, t.name, true, func() string { return "cannot define: " + err.Error() })
			continue
		}
		for _, v := range values(t, depth, true) {
			exp := expected(v, t.rt)
			for _, tx := range render(v, t, true, false) {
				if r.Expired() {
					return
				}
				if !r.Mine() {
					continue
				}
				r.State(t.name + "\x00" + tx.s)
				r.Transition(6)
				key := t.name + " " + tx.s
				nontrivial := v.k == kList || v.k == kMap || v.k == kStr
				if nontrivial {
					r.Sample("+t:named:value=" + tx.s + "  →  " + show(exp))
				}
				r.Case(key, "argument of type "+t.name+" written "+tx.s, nontrivial, func() string {
					try := func(d *markers.Definition, raw string, want func(out reflect.Value) string) string {
						out, err := d.Parse(raw)
						if err != nil {
							return raw + " is rejected: " + err.Error()
						}
						if m := want(reflect.ValueOf(out)); m != "" {
							return raw + ": " + m
						}
						return ""
					}
					eq := func(got, want reflect.Value) string {
						if !same(got, want) {
							return "gives " + show(got) + ", written was " + show(want)
						}
						return ""
					}
					// an empty text as whole argument is no argument at all
					if tx.s != "" {
						for _, assign := range []string{"=", ":="} {
							if m := try(anon, "+t:anon"+assign+tx.s, func(out reflect.Value) string {
								if t.any {
									out = out.Field(0)
								}
								return eq(out, exp)
							}); m != "" {
								return m
							}
						}
						if ptr != nil {
							if m := try(ptr, "+t:ptr="+tx.s, func(out reflect.Value) string { return eq(out.Elem(), exp) }); m != "" {
								return m
							}
						}
					}
					for _, w := range []struct {
						raw         string
						first, last bool
						list        int
						ptr         bool
					}{
						{raw: "+t:named:value=" + tx.s},
						{raw: "+t:named:first=hi there,value=" + tx.s, first: true},
						{raw: "+t:named:value=" + tx.s + ",other=-42", last: true},
						{raw: "+t:named:first=\"hi there\",value=" + tx.s + ",other=-42", first: true, last: true},
						{raw: "+t:named:list=a;b,value=" + tx.s + ",ptr=false", list: 2, ptr: true},
						{raw: "+t:named:value=" + tx.s + ",list={a,b}", list: 2},
						{raw: "+t:named:value=" + tx.s + ",list=a;b,first=hi there", list: 2, first: true},
					} {
						if m := try(named, w.raw, func(out reflect.Value) string {
							if m := eq(out.FieldByName("Value"), exp); m != "" {
								return m
							}
							wantFirst, wantLast := "", 0
							if w.first {
								wantFirst = "hi there"
							}
							if w.last {
								wantLast = -42
							}
							if got := out.FieldByName("First").String(); got != wantFirst {
								return fmt.Sprintf("the argument first is %q, written %q", got, wantFirst)
							}
							if got := int(out.FieldByName("Last").Int()); got != wantLast {
								return fmt.Sprintf("the argument other is %d, written %d", got, wantLast)
							}
							l := out.FieldByName("List")
							if l.Len() != w.list || (w.list == 2 && (l.Index(0).String() != "a" || l.Index(1).String() != "b")) {
								return fmt.Sprintf("the argument list is %v", l)
							}
							p := out.FieldByName("Ptr")
							if p.IsNil() == w.ptr || (w.ptr && p.Elem().Bool()) {
								return fmt.Sprintf("the argument ptr is %v", p)
							}
							return ""
						}); m != "" {
							return m
						}
					}
					return ""
				})
			}
		}
	}
	raws(r)
	rejects(r)
	grammar(r)
}

// raws: raw-argument markers get the text unchanged; empty markers nothing.
func raws(r *mc.Run) {
	d, err := markers.MakeDefinition("t:raw", markers.DescribesType, markers.RawArguments(nil))
	if err != nil {
		panic(err)
	}
	for _, s := range []string{"a", "this;totally,doesn't;get,parsed", `"x" y`, "{a: b", " lead", "1 2", "a=b", "é,ü", "``"} {
		if !r.Mine() {
			continue
		}
		r.State("raw " + s)
		r.Case("raw "+s, s, true, func() string {
			out, err := d.Parse("+t:raw=" + s)
			if err != nil {
				return "raw arguments rejected: " + err.Error()
			}
			if got := string(out.(markers.RawArguments)); got != s {
				return fmt.Sprintf("raw arguments %q became %q", s, got)
			}
			return ""
		})
	}
}

type allReq struct {
	Str   string
	Int   int
	Small int32
	Bool  bool
	Num   float64
	Any   interface{}
	Ptr   *string
	Opt   string `marker:",optional"`
	Named string `marker:"renamed"`
	Strs  []string
	Ints  []int
	Map   map[string]int
}

func rejects(r *mc.Run) {
	// wrong texts per type; each must be rejected, anonymous and named
	bad := map[string][]string{
		"int":         {"abc", "1.5", "true", `"1"`, "{1}", "1 2", "1a", "--1", "9223372036854775808", "-9223372036854775809", "1;2", "- -1", "{}", "1,", "1}", "1:2", "0x", "1_", "`1`", "-", "+1", "99999999999999999999"},
		"int32":       {"2147483648", "-2147483649", "4294967296", "9223372036854775807", "4294967297", "abc"},
		"namedint32":  {"2147483648", "-2147483649", "4294967295"},
		"float64":     {"abc", "true", `"1"`, "{1}", "1.5.5", "1 2", "1e999", "-", "1.5x", "1;2", "{}", "inf", "-inf", "nan", "NaN", "Infinity"},
		"bool":        {"yes", "1", `"true"`, "True", "TRUE", "truee", "true false", "{true}", "true;false", "tru", "0"},
		"string":      {`"a" b`, `"a"b`, `"unterminated`, "`unterminated", "{a}", "a}", "a;b", `"a";"b"`, "a:b", "{a: b}", `"\q"`},
		"namedstring": {`"a" b`, `"unterminated`, "a;b"},
		"[]int":       {"a;b", "{1;2}", "{1;2,3}", "{a}", "{1", "{1,2", "1;a", "{1;2}x", `{"1"}`, "{1 2}", "{1,,2}", "1;;2", "1;2}", "{1}}", "{1},2x", "{{1}}", "{1: 2}", "true"},
		"[]int32":     {"{2147483648}", "1;2147483648", "{1, -2147483649}"},
		"[]bool":      {"{true;false}", "{1}", "{yes}", "true;1", "{true", "{true false}"},
		"[]float64":   {"{a}", "1.5;x", "{1.5"},
		"[]string":    {"{a;b}", `{"a";"b"}`, "{a;b,c}", "{a", `{"a"`, `{"a" "b"}`, `{"a"b}`, "{a}b", "{a: b}", `"a`, `"a" "b"`, "a;b}"},
		"[][]int":     {"{{1,2}", "{{1},{a}}", "{{1},2a}", "{{1} {2}}", "a"},
		"map[string]": {"abc", "{a}", "{a: b", "{a b}", "{a: b c: d}", "{a: b,, c: d}", "{a: b}}", "a: b", "{a: b} c", "{a: {b}}"},
		"map[int]":    {"{a: b}", "{a: 1.5}", "{a: 1, b: x}", "{a: 1", "{a: true}", "{1}", "{a: 1;2}"},
		"map[any]":    {"abc", "{a}", "{a: 1", "{a: 1 b: 2}", "{a: {b: 1}", "{a: }}"},
		"[]any":       {"{a;b}", "{1;2,3}", "{a;b,c}", "{a,b;c}"},
		"any":         {"{a: 1", "{1, 2", "{1, a}", `"a" b`, `"unterminated`, "1 2", "1;a", "{true, 1}", "{a: 1} b", "{{1}, {a}}", "true false", "1.5.5", "-", "10Gi"},
	}
	// "-" and "10Gi" for any: a lone dash is a bare string, 10Gi starts like a
	// number; only forms that cannot be any documented value are listed
	bad["any"] = bad["any"][:len(bad["any"])-2]
	var names []string
	for n := range bad {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, t := range types {
		texts, ok := bad[t.name]
		if !ok {
			continue
		}
		st := structOf(reflect.StructField{Name: "Value", Type: t.rt}, reflect.StructField{Name: "Other", Type: reflect.TypeOf(0), Tag: `marker:",optional"`})
		d, err := markers.MakeDefinition("t:named", markers.DescribesType, reflect.Zero(st).Interface())
		if err != nil {
			panic(err)
		}
		var anon *markers.Definition
		if !t.any {
			anon, _ = markers.MakeDefinition("t:anon", markers.DescribesType, reflect.Zero(t.rt).Interface())
		}
		for _, tx := range texts {
			if !r.Mine() {
				continue
			}
			r.State("reject " + t.name + tx)
			r.Case("reject "+t.name+" "+tx, "an argument of type "+t.name+" written "+tx, true, func() string {
				raws := []string{"+t:named:value=" + tx, "+t:named:value=" + tx + ",other=1", "+t:named:other=1,value=" + tx}
				for i, raw := range raws {
					if i == 1 && (strings.Contains(tx, "unterminated") || strings.HasSuffix(tx, ",")) {
						continue
					}
					if out, err := d.Parse(raw); err == nil {
						return fmt.Sprintf("%s is accepted as %#v", raw, out)
					}
				}
				if anon != nil {
					raw := "+t:anon=" + tx
					if out, err := anon.Parse(raw); err == nil {
						return fmt.Sprintf("%s is accepted as %#v", raw, out)
					}
				}
				return ""
			})
		}
	}
	// every subset of the arguments present: rejected exactly if a required one is missing
	d, err := markers.MakeDefinition("t:all", markers.DescribesType, allReq{})
	if err != nil {
		panic(err)
	}
	args := []struct {
		text     string
		required bool
	}{{"str=a", true}, {"int=1", true}, {"small=2", true}, {"bool=true", true}, {"num=1.5", true}, {"any=x", true}, {"ptr=p", false}, {"opt=o", false}, {"renamed=n", true}, {"strs=a;b", true}, {"ints={1,2}", true}, {"map={a: 1}", true}}
	for mask := 0; mask < 1<<len(args); mask++ {
		for _, rev := range []bool{false, true} {
			if !r.Mine() {
				continue
			}
			var parts []string
			missing := false
			for i, a := range args {
				if mask&(1<<i) != 0 {
					if rev {
						parts = append([]string{a.text}, parts...)
					} else {
						parts = append(parts, a.text)
					}
				} else if a.required {
					missing = true
				}
			}
			raw := "+t:all"
			if len(parts) > 0 {
				raw += ":" + strings.Join(parts, ",")
			}
			r.State(raw)
			r.Case(raw, raw, true, func() string {
				out, err := d.Parse(raw)
				if missing && err == nil {
					return fmt.Sprintf("%s lacks a required argument and is accepted as %#v", raw, out)
				}
				if !missing && err != nil {
					return raw + " is rejected: " + err.Error()
				}
				if !missing {
					v := out.(allReq)
					w := allReq{Str: "a", Int: 1, Small: 2, Bool: true, Num: 1.5, Any: "x", Named: "n", Strs: []string{"a", "b"}, Ints: []int{1, 2}, Map: map[string]int{"a": 1}}
					p := "p"
					if mask&(1<<6) != 0 {
						w.Ptr = &p
					}
					if mask&(1<<7) != 0 {
						w.Opt = "o"
					}
					if !reflect.DeepEqual(v, w) {
						return fmt.Sprintf("%s gives %#v", raw, v)
					}
				}
				// an unknown argument, anywhere, is always rejected; so is trailing text
				for _, extra := range []string{"zz=1", "Str=a", "string=a", "str", "=1"} {
					for _, at := range []string{"front", "back"} {
						ps := append(append([]string(nil), parts...), extra)
						if at == "front" {
							ps = append([]string{extra}, parts...)
						}
						raw := "+t:all:" + strings.Join(ps, ",")
						if out, err := d.Parse(raw); err == nil && !missing {
							return fmt.Sprintf("%s is accepted as %#v", raw, out)
						}
					}
				}
				return ""
			})
		}
	}
	// an empty bare string is empty, and ends at the separator
	for _, c := range []struct {
		typ  *typ
		text string
		want interface{}
	}{
		{tStr(), "", ""}, {tStr(), " ", ""}, {tNamed(), "", wrapped("")},
		{tList(tStr()), ";a", []string{"", "a"}}, {tList(tStr()), "a;;b", []string{"a", "", "b"}}, {tList(tStr()), "{a,,b}", []string{"a", "", "b"}},
		{tList(tStr()), "{,a}", []string{"", "a"}}, {tMap(tStr()), "{a: ,b: c}", map[string]string{"a": "", "b": "c"}}, {tMap(tStr()), "{a: }", map[string]string{"a": ""}},
		{tList(tStr()), "", []string(nil)},
	} {
		if !r.Mine() {
			continue
		}
		st := structOf(reflect.StructField{Name: "Value", Type: c.typ.rt}, reflect.StructField{Name: "Other", Type: reflect.TypeOf(0)})
		d, err := markers.MakeDefinition("t:named", markers.DescribesType, reflect.Zero(st).Interface())
		if err != nil {
			panic(err)
		}
		r.State("bare empty " + c.typ.name + c.text)
		r.Case("bare empty "+c.typ.name+" "+c.text, c.text, true, func() string {
			for _, raw := range []string{"+t:named:value=" + c.text + ",other=4", "+t:named:other=4,value=" + c.text} {
				if c.text == " " && strings.HasSuffix(raw, " ") {
					continue
				}
				out, err := d.Parse(raw)
				if err != nil {
					return raw + " is rejected: " + err.Error()
				}
				v := reflect.ValueOf(out)
				if !same(v.Field(0), reflect.ValueOf(c.want)) || v.Field(1).Int() != 4 {
					return fmt.Sprintf("%s gives %#v", raw, out)
				}
			}
			return ""
		})
	}
	// markers without arguments reject any
	e, err := markers.MakeDefinition("t:empty", markers.DescribesType, struct{}{})
	if err != nil {
		panic(err)
	}
	for _, tx := range []string{"a", "1", "true", "{}", "a=b", `""`} {
		if r.Mine() {
			r.Case("empty "+tx, tx, true, func() string {
				if _, err := e.Parse("+t:empty=" + tx); err == nil {
					return "+t:empty=" + tx + " is accepted although the marker has no arguments"
				}
				return ""
			})
		}
	}
	if r.Mine() {
		r.Case("empty", "", true, func() string {
			if _, err := e.Parse("+t:empty"); err != nil {
				return "+t:empty is rejected: " + err.Error()
			}
			return ""
		})
	}
}

// ---- C04 ---------------------------------------------------------------------

const alphabet = "a1-.\"`{},;:= t\\"

func realRegistry() *markers.Registry {
	reg := &markers.Registry{}
	for _, g := range []genall.Generator{crd.Generator{}, rbac.Generator{}, webhook.Generator{}, deepcopy.Generator{}, applyconfiguration.Generator{}, schemapatcher.Generator{}} {
		if err := g.RegisterMarkers(reg); err != nil {
			panic(err)
		}
	}
	if err := genall.RegisterOptionsMarkers(reg); err != nil {
		panic(err)
	}
	return reg
}

func allStrings(alpha string, max int, f func(string) bool) {
	rs := []rune(alpha)
	buf := make([]rune, max)
	var rec func(n, len int) bool
	rec = func(pos, l int) bool {
		if pos == l {
			return f(string(buf[:l]))
		}
		for _, c := range rs {
			buf[pos] = c
			if !rec(pos+1, l) {
				return false
			}
		}
		return true
	}
	for l := 0; l <= max; l++ {
		if !rec(0, l) {
			return
		}
	}
}

// total parses raw and says what is wrong with how it ended.
func total(d *markers.Definition, raw string) string {
	out, err := d.Parse(raw)
	if err != nil && err.Error() == "" {
		return raw + ": an error without text"
	}
	if err == nil {
		if out == nil {
			if d.Output.Kind() != reflect.Interface {
				return raw + ": accepted with a nil value"
			}
		} else if reflect.TypeOf(out) != d.Output {
			return fmt.Sprintf("%s: accepted with a value of type %T instead of %v", raw, out, d.Output)
		}
	}
	return ""
}

func c04(r *mc.Run) {
	maxLen := 4
	if r.Thorough {
		maxLen = 6
	}
	type anyS struct{ Value interface{} }
	var defs []*markers.Definition
	mk := func(v interface{}) {
		d, err := markers.MakeDefinition("t:m", markers.DescribesType, v)
		if err != nil {
			panic(err)
		}
		defs = append(defs, d)
	}
	for _, t := range types {
		if !t.any {
			mk(reflect.Zero(t.rt).Interface())
		}
	}
	mk((*int)(nil))
	mk((*string)(nil))
	mk(struct{}{})
	mk(markers.RawArguments(nil))
	mk(struct {
		A   string
		T   int `marker:",optional"`
		Any interface{}
	}{})
	mk(struct{ A interface{} }{})
	mk(struct{ A map[string]interface{} }{})
	mk(struct{ A []interface{} }{})
	if d, err := markers.MakeAnyTypeDefinition("t:m", markers.DescribesType, anyS{}); err == nil {
		defs = append(defs, d)
	}
	// all strings, for every argument shape; cases are grouped by the string's
	// first three characters so that the bookkeeping stays small
	anyDefs := defs[len(defs)-4:]
	run := func(defs []*markers.Definition, what string, maxLen int) {
		head := 2
		allStrings(alphabet, head, func(prefix string) bool {
			if r.Expired() {
				return false
			}
			if !r.Mine() {
				return true
			}
			rest := maxLen - head
			if len([]rune(prefix)) < head {
				rest = 0
			}
			key := what + " strings starting with " + strconv.Quote(prefix)
			r.Case(key, key, true, func() string {
				bad := ""
				allStrings(alphabet, rest, func(s string) bool {
					for _, d := range defs {
						for _, form := range []string{"+t:m=", "+t:m:"} {
							raw := form + prefix + s
							r.Transition(1)
							// what is being parsed shows up in a crash report
							if m := total(d, raw); m != "" {
								bad = m
								return false
							}
						}
					}
					r.State(what + prefix + s)
					return true
				})
				return bad
			})
			return true
		})
	}
	run(defs, "shapes", maxLen)
	run(anyDefs, "guessing", maxLen+1)
	// every registered marker, with short arguments and with each of its own
	// argument names; also as a name only
	reg := realRegistry()
	all := reg.AllDefinitions()
	sort.Slice(all, func(i, j int) bool {
		return all[i].Name+all[i].Target.String() < all[j].Name+all[j].Target.String()
	})
	regLen := 3
	if r.Thorough {
		regLen = 4
	}
	for _, d := range all {
		d := d
		var argNames []string
		for n := range d.Fields {
			argNames = append(argNames, n)
		}
		sort.Strings(argNames)
		for _, arg := range append([]string{"="}, argNames...) {
			if r.Expired() {
				return
			}
			if !r.Mine() {
				continue
			}
			head := "+" + d.Name + "="
			if arg != "=" && arg != "" {
				head = "+" + d.Name + ":" + arg + "="
			}
			r.Sample(head + "<every string up to length " + strconv.Itoa(regLen) + ">")
			r.Case(head+" for "+d.Target.String(), head, true, func() string {
				bad := ""
				if m := total(d, "+"+d.Name); m != "" {
					return m
				}
				allStrings(alphabet, regLen, func(s string) bool {
					raw := head + s
					r.Transition(1)
					r.State(d.Target.String() + raw)
					// looking the marker up never fails either, and is stable
					f1 := reg.Lookup(raw, d.Target)
					if f1 != reg.Lookup(raw, d.Target) {
						bad = raw + ": two lookups differ"
						return false
					}
					if f1 != nil {
						bad = total(f1, raw)
					}
					if bad == "" {
						bad = total(d, raw)
					}
					return bad == ""
				})
				return bad
			})
		}
	}
	// names: every string up to length 5 over the name alphabet is looked up
	for _, first := range "k:=+a{ \"" {
		if !r.Mine() {
			continue
		}
		r.Case("lookup "+string(first), string(first), true, func() string {
			bad := ""
			allStrings("k:=+a{ \"", 4, func(s string) bool {
				raw := "+" + string(first) + s
				r.Transition(1)
				for _, t := range []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField} {
					if d := reg.Lookup(raw, t); d != nil {
						bad = total(d, raw)
					}
				}
				return bad == ""
			})
			return bad
		})
	}
	// pumped texts: termination and memory on long input
	pump := 300
	if r.Thorough {
		pump = 3000
	}
	for _, d := range append(append([]*markers.Definition(nil), anyDefs...), defs[0], defs[7], defs[13]) {
		d := d
		allStrings(alphabet, 2, func(unit string) bool {
			if unit == "" {
				return true
			}
			if r.Expired() {
				return false
			}
			if !r.Mine() {
				return true
			}
			raw := "+t:m:a=" + strings.Repeat(unit, pump)
			raw2 := "+t:m=" + strings.Repeat(unit, pump) + "x"
			raw3 := "+t:m:a=" + strings.Repeat("{a:"+unit, pump)
			r.State("pump" + unit + d.Output.String())
			r.Case("pumped "+strconv.Quote(unit)+" for "+d.Output.String(), unit, true, func() string {
				for _, s := range []string{raw, raw2, raw3} {
					if m := total(d, s); m != "" {
						return m[:min(len(m), 300)]
					}
					r.Transition(1)
				}
				return ""
			})
			return true
		})
	}
	// determinism: a sample of every accepted form parsed twice
	for _, t := range types {
		if t.any {
			continue
		}
		d, _ := markers.MakeDefinition("t:m", markers.DescribesType, reflect.Zero(t.rt).Interface())
		for _, v := range values(t, 2, false) {
			if !r.Mine() {
				continue
			}
			for _, tx := range render(v, t, true, false) {
				r.Case("twice "+t.name+tx.s, tx.s, false, func() string {
					a, e1 := d.Parse("+t:m=" + tx.s)
					b, e2 := d.Parse("+t:m=" + tx.s)
					if (e1 == nil) != (e2 == nil) || !reflect.DeepEqual(a, b) {
						return fmt.Sprintf("+t:m=%s parsed twice gives %#v (%v) and %#v (%v)", tx.s, a, e1, b, e2)
					}
					return ""
				})
			}
		}
	}
}

func main() {
	prop := os.Args[1]
	switch prop {
	case "C03":
		mc.Main(mc.Spec{Property: prop, Body: c03, HangS: 60,
			Rule:        "value trees per argument type up to depth 3, each written in every documented way and placed alone, first, last and between other arguments; plus all texts of the error classes and all argument subsets; non-trivial: strings, lists and maps, and every rejected text",
			Assumptions: []string{"bare strings are those the documentation allows: no separators, quotes or surrounding space, and for untyped arguments not starting like a number or boolean"}})
	case "C04":
		mc.Main(mc.Spec{Property: prop, Body: c04, HangS: 120,
			Rule:        "all strings up to the length bound over the alphabet " + strconv.Quote(alphabet) + " for every argument shape and every registered marker, short strings pumped to long ones; non-trivial: every group of strings",
			Assumptions: []string{"characters outside the alphabet behave like the letters in it"}})
	}
}
