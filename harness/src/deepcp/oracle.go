package main

// oracle is the program that runs the generated code.
const oracle = `package main

import (
	"bufio"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"ex.com/dep"
	"ex.com/p"
)

const maxValues = 24

// valueReceivers are the types of which a nil pointer in a map is a known
// finding.
var valueReceivers = map[string]bool{"MV": true, "MVI": true, "ML": true, "MM": true, "MLI": true, "MBs": true}

var allowNil bool

// values lists values of the type up to a depth.
func values(t reflect.Type, depth int) []reflect.Value {
	zero := reflect.New(t).Elem()
	out := []reflect.Value{zero}
	add := func(v reflect.Value) {
		if len(out) < maxValues {
			out = append(out, v)
		}
	}
	if t == reflect.TypeOf((*p.IC)(nil)).Elem() {
		n := 5
		add(reflect.ValueOf(p.NewIC(&n)).Convert(t))
		return out
	}
	switch t.Kind() {
	case reflect.String:
		v := reflect.New(t).Elem()
		v.SetString("x")
		add(v)
	case reflect.Bool:
		v := reflect.New(t).Elem()
		v.SetBool(true)
		add(v)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v := reflect.New(t).Elem()
		v.SetInt(7)
		add(v)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v := reflect.New(t).Elem()
		v.SetUint(7)
		add(v)
	case reflect.Float32, reflect.Float64:
		v := reflect.New(t).Elem()
		v.SetFloat(1.5)
		add(v)
	case reflect.Complex64, reflect.Complex128:
		v := reflect.New(t).Elem()
		v.SetComplex(2i)
		add(v)
	case reflect.Pointer:
		if depth <= 0 {
			break
		}
		for _, e := range values(t.Elem(), depth-1) {
			v := reflect.New(t.Elem())
			v.Elem().Set(e)
			add(v.Convert(t))
		}
	case reflect.Slice:
		add(reflect.MakeSlice(t, 0, 0))
		if depth <= 0 {
			break
		}
		es := values(t.Elem(), depth-1)
		for _, e := range es {
			v := reflect.MakeSlice(t, 1, 3)
			v.Index(0).Set(e)
			add(v)
		}
		v := reflect.MakeSlice(t, len(es), len(es))
		for i, e := range es {
			v.Index(i).Set(e)
		}
		add(v)
	case reflect.Array:
		es := values(t.Elem(), depth)
		for _, e := range es {
			v := reflect.New(t).Elem()
			for i := 0; i < t.Len(); i++ {
				v.Index(i).Set(e)
			}
			add(v)
		}
	case reflect.Map:
		add(reflect.MakeMap(t))
		if depth <= 0 {
			break
		}
		ks := values(t.Key(), depth-1)
		es := values(t.Elem(), depth-1)
		if t.Elem().Kind() == reflect.Pointer && valueReceivers[t.Elem().Elem().Name()] && !allowNil {
			es = es[1:]
		}
		for _, e := range es {
			v := reflect.MakeMap(t)
			v.SetMapIndex(ks[len(ks)-1], e)
			add(v)
		}
		v := reflect.MakeMap(t)
		for i, k := range ks {
			v.SetMapIndex(k, es[(i+1)%len(es)])
		}
		add(v)
	case reflect.Struct:
		full := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			fv := values(t.Field(i).Type, depth-1+min(1, t.NumField()%2))
			if depth <= 0 {
				fv = fv[:1]
			}
			for _, e := range fv[1:] {
				v := reflect.New(t).Elem()
				set(v.Field(i), e)
				add(v)
			}
			set(full.Field(i), fv[len(fv)-1])
		}
		add(full)
	}
	return out
}

func set(f, v reflect.Value) {
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(v)
}

// walk visits everything reachable: mem is called for mutable memory, manual
// for values with a hand-written method.
func walk(v reflect.Value, mem func(addr uintptr, what string), manual func(), path string) {
	name := v.Type().Name()
	isManual := false
	switch name {
	case "MV", "MP", "MI", "MB", "MVI", "MLP":
		isManual = true
	case "ML", "MM", "MLI":
		isManual = !v.IsNil()
	case "impl":
		isManual = true
	}
	if isManual {
		manual()
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Type().Elem().Size() > 0 {
			mem(v.Pointer(), path+"*")
		}
		walk(v.Elem(), mem, manual, path+"*")
	case reflect.Interface:
		if !v.IsNil() {
			walk(v.Elem(), mem, manual, path)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			mem(v.Pointer(), path+"[]")
		}
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), mem, manual, fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), mem, manual, fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		mem(v.Pointer(), path+"{}")
		for _, k := range v.MapKeys() {
			walk(k, mem, func() {}, path+"{key}")
			walk(v.MapIndex(k), mem, manual, fmt.Sprintf("%s{%v}", path, k))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "_" {
				continue
			}
			walk(v.Field(i), mem, manual, path+"."+v.Type().Field(i).Name)
		}
	}
}

func show(v reflect.Value) string {
	var b strings.Builder
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString("&")
			rec(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			rec(v.Elem())
		case reflect.Slice:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			fallthrough
		case reflect.Array:
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.Map:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString("{")
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			for _, k := range ks {
				fmt.Fprintf(&b, "%v:", k)
				rec(v.MapIndex(k))
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
				b.WriteString(" ")
			}
			b.WriteString("}")
		default:
			fmt.Fprintf(&b, "%v", v)
		}
	}
	rec(v)
	return b.String()
}

// call calls a method, with panics as text.
func call(m reflect.Value, args ...reflect.Value) (out []reflect.Value, msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	return m.Call(args), ""
}

func compare(in, out reflect.Value, before string, how string) string {
	if got := show(in); got != before {
		return fmt.Sprintf("%s changes the original %s to %s", how, before, got)
	}
	if !reflect.DeepEqual(in.Interface(), out.Interface()) {
		return fmt.Sprintf("%s makes %s of %s", how, show(out), before)
	}
	mem := map[uintptr]string{}
	walk(in, func(a uintptr, what string) { mem[a] = what }, func() {}, "")
	msg := ""
	walk(out, func(a uintptr, what string) {
		if w, ok := mem[a]; ok && msg == "" {
			msg = fmt.Sprintf("%s of %s shares %s with the original's %s", how, before, what, w)
		}
	}, func() {}, "")
	return msg
}

func calls() int { return dep.Calls + p.Calls }

func check(mk func() any, counted bool, depth int) (string, int) {
	t := reflect.TypeOf(mk()).Elem()
	n := 0
	vals := values(t, depth)
	for i, v := range vals {
		n++
		in := reflect.New(t)
		in.Elem().Set(v)
		before := show(v)
		manual := 0
		walk(v, func(uintptr, string) {}, func() { manual++ }, "")
		nilRoot := (t.Kind() == reflect.Slice || t.Kind() == reflect.Map) && v.IsNil()
		m := in.MethodByName("DeepCopy")
		if !m.IsValid() {
			return "no method DeepCopy", n
		}
		at := calls()
		res, msg := call(m)
		if msg != "" {
			return "DeepCopy of " + before + ": " + msg, n
		}
		if counted && calls()-at != manual {
			return fmt.Sprintf("DeepCopy of %s calls hand-written methods %d times instead of %d", before, calls()-at, manual), n
		}
		out := res[0]
		if out.Kind() == reflect.Pointer && out.Type() == reflect.PointerTo(t) {
			if out.IsNil() {
				return "DeepCopy of " + before + " is nil", n
			}
			if out.Pointer() == in.Pointer() && t.Size() > 0 {
				return "DeepCopy is the original", n
			}
			out = out.Elem()
		}
		if msg := compare(v, out, before, "DeepCopy"); msg != "" {
			return msg, n
		}
		if mo := in.MethodByName("DeepCopyObject"); mo.IsValid() {
			res, msg := call(mo)
			if msg != "" {
				return "DeepCopyObject of " + before + ": " + msg, n
			}
			out := res[0].Elem()
			if out.Kind() == reflect.Pointer {
				out = out.Elem()
			}
			if out.Type() != t {
				return "DeepCopyObject makes a " + out.Type().String(), n
			}
			if msg := compare(v, out, before, "DeepCopyObject"); msg != "" {
				return msg, n
			}
		}
		mi := in.MethodByName("DeepCopyInto")
		if !mi.IsValid() {
			return "no method DeepCopyInto", n
		}
		if nilRoot {
			continue // must be non-nil
		}
		// into something that is not empty
		for _, j := range []int{0, len(vals) - 1, (i + 1) % len(vals)} {
			dst := reflect.New(t)
			dst.Elem().Set(values(t, depth)[j])
			if _, msg := call(mi, dst); msg != "" {
				return "DeepCopyInto of " + before + ": " + msg, n
			}
			if msg := compare(v, dst.Elem(), before, "DeepCopyInto"); msg != "" {
				return msg, n
			}
		}
	}
	// nothing
	if m := reflect.Zero(reflect.PointerTo(t)).MethodByName("DeepCopy"); t.Kind() != reflect.Slice && t.Kind() != reflect.Map {
		if mt, ok := reflect.PointerTo(t).MethodByName("DeepCopy"); ok && mt.Type.Out(0) == reflect.PointerTo(t) {
			res, msg := call(m)
			if msg != "" {
				return "DeepCopy of nil: " + msg, n
			}
			if !res[0].IsNil() {
				return "DeepCopy of nil is not nil", n
			}
		}
	}
	return "", n
}

func main() {
	depth := 3
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for _, e := range p.Entries {
		allowNil = e.Nil
		msg, n := check(e.New, e.Counted, depth)
		fmt.Fprintf(w, "%d %d %q\n", e.Index, n, msg)
	}
}
`
