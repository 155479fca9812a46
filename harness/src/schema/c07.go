package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	corev1 "k8s.io/api/core/v1"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/util/intstr"

	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/verifmc/mc"
	"sigs.k8s.io/controller-tools/verifmc/world"
)

type S = apiext.JSONSchemaProps

// base is a type without constructors.
type base struct {
	src   string
	exp   *S           // nil: cannot be expressed, an error is due
	rt    reflect.Type // nil: no executable counterpart
	float bool         // needs allowDangerousTypes
}

func sch(typ, format string) *S { return &S{Type: typ, Format: format} }
func arr(items *S) *S {
	return &S{Type: "array", Items: &apiext.JSONSchemaPropsOrArray{Schema: items}}
}
func obj(vals *S) *S {
	return &S{Type: "object", AdditionalProperties: &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: vals}}
}
func strct(required []string, props map[string]*S) *S {
	s := &S{Type: "object", Required: required}
	for k, p := range props {
		if s.Properties == nil {
			s.Properties = map[string]S{}
		}
		s.Properties[k] = *p
	}
	return s
}

// The Go counterparts of the declared types.
type (
	NStr    string
	NInt32  int32
	NByte   byte
	NFloat  float64
	NStruct struct {
		X int    `json:"x"`
		Y string `json:"y,omitempty"`
	}
	NDeep struct {
		A NStruct            `json:"a"`
		B []NStruct          `json:"b,omitempty"`
		C map[string]NStruct `json:"c"`
		P *NStruct           `json:"p,omitempty"`
	}
	NEmb struct {
		NStruct `json:",inline"`
		Z       bool `json:"z"`
	}
	TextM struct{ v string }
	TextP struct{ v string }
	JSONM struct{ v string }
	JSONU string
)

func (t TextM) MarshalText() ([]byte, error)  { return []byte("t"), nil }
func (t *TextP) MarshalText() ([]byte, error) { return []byte("t"), nil }
func (t JSONM) MarshalJSON() ([]byte, error)  { return []byte(`"j"`), nil }

const localDecls = `
type NStr string
type NInt32 int32
type NByte byte
type NUint8 uint8
type NFloat float64
type NBool bool
type NBytes []byte
type NBytes2 []NByte
type NSlice []string
type NMap map[string]int
type NPtr *int
type NArr [2]int
type NNamed NStr
type NNStruct NStruct
type NSliceS []NStruct
type NIface interface{ M() }
type NFunc func()
type NAnonS []struct{ A int }
type NAnonM map[string]struct{ A int }
type NAnonP *struct{ A int }
type NAnonE []struct{}
type NFuncs []func()
type NAnyM map[string]interface{}
type NAnyS []any
type NKeys map[int]string
type NChanP *chan int
type NFloats map[string]complex64
type NStruct struct {
	X int    ` + "`json:\"x\"`" + `
	Y string ` + "`json:\"y,omitempty\"`" + `
}
type NDeep struct {
	A NStruct            ` + "`json:\"a\"`" + `
	B []NStruct          ` + "`json:\"b,omitempty\"`" + `
	C map[string]NStruct ` + "`json:\"c\"`" + `
	P *NStruct           ` + "`json:\"p,omitempty\"`" + `
}
type NEmb struct {
	NStruct ` + "`json:\",inline\"`" + `
	Z bool ` + "`json:\"z\"`" + `
}
type AStr = string
type AInt = int64
type ANStr = NStr
type AStruct = NStruct
type AAStruct = AStruct
type ASlice = []string
type AMap = map[string]bool
type APtr = *NStruct
type AExt = ext.S
type Gen[T any] struct{ V T }
type TextM struct{ v string }
func (t TextM) MarshalText() ([]byte, error) { return nil, nil }
type TextP struct{ v string }
func (t *TextP) MarshalText() ([]byte, error) { return nil, nil }
// +kubebuilder:validation:Type=string
type JSONM struct{ v string }
func (t JSONM) MarshalJSON() ([]byte, error) { return nil, nil }
type JSONU string
func (t JSONU) MarshalJSON() ([]byte, error) { return nil, nil }
`

const extSrc = `package ext

import "example.com/deep"

type S struct {
	E  string ` + "`json:\"e\"`" + `
	D  deep.D ` + "`json:\"d,omitempty\"`" + `
}
type Str string
type AliasS = S
type AliasStr = string
type AliasDeep = deep.D
type L []S
`
const deepSrc = `package deep

type D struct {
	Q int64 ` + "`json:\"q\"`" + `
}
`

type deepD struct {
	Q int64 `json:"q"`
}
type extS struct {
	E string `json:"e"`
	D deepD  `json:"d,omitempty"`
}

const hdr = `package p

import (
	"fmt"
	"time"
	"encoding/json"

	corev1 "k8s.io/api/core/v1"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	oldext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/util/intstr"
	"example.com/ext"
)

var (
	_ fmt.Stringer
	_ time.Duration
	_ json.Number
	_ corev1.Protocol
	_ apiext.JSON
	_ oldext.JSON
	_ unstructured.Unstructured
	_ resource.Quantity
	_ metav1.Time
	_ runtime.Object
	_ intstr.IntOrString
	_ ext.S
)
`

func rt(v interface{}) reflect.Type { return reflect.TypeOf(v) }

func bases() []base {
	nstruct := func() *S {
		return strct([]string{"x"}, map[string]*S{"x": sch("integer", ""), "y": sch("string", "")})
	}
	extSch := func() *S {
		return strct([]string{"e"}, map[string]*S{"e": sch("string", ""), "d": strct([]string{"q"}, map[string]*S{"q": sch("integer", "int64")})})
	}
	ios := func() *S {
		return &S{XIntOrString: true, AnyOf: []S{{Type: "integer"}, {Type: "string"}}}
	}
	q := ios()
	q.Pattern = "^(\\+|-)?(([0-9]+(\\.[0-9]*)?)|(\\.[0-9]+))(([KMGTPE]i)|[numkMGTPE]|([eE](\\+|-)?(([0-9]+(\\.[0-9]*)?)|(\\.[0-9]+))))?$"
	yes := true
	return []base{
		{src: "bool", exp: sch("boolean", ""), rt: rt(true)},
		{src: "string", exp: sch("string", ""), rt: rt("")},
		{src: "int", exp: sch("integer", ""), rt: rt(0)},
		{src: "int8", exp: sch("integer", ""), rt: rt(int8(0))},
		{src: "int16", exp: sch("integer", ""), rt: rt(int16(0))},
		{src: "int32", exp: sch("integer", "int32"), rt: rt(int32(0))},
		{src: "rune", exp: sch("integer", "int32"), rt: rt(rune(0))},
		{src: "int64", exp: sch("integer", "int64"), rt: rt(int64(0))},
		{src: "uint", exp: sch("integer", ""), rt: rt(uint(0))},
		{src: "uint8", exp: sch("integer", ""), rt: rt(uint8(0))},
		{src: "byte", exp: sch("integer", ""), rt: rt(byte(0))},
		{src: "uint16", exp: sch("integer", ""), rt: rt(uint16(0))},
		{src: "uint32", exp: sch("integer", "int32"), rt: rt(uint32(0))},
		{src: "uint64", exp: sch("integer", "int64"), rt: rt(uint64(0))},
		{src: "float32", exp: sch("number", ""), rt: rt(float32(0)), float: true},
		{src: "float64", exp: sch("number", ""), rt: rt(float64(0)), float: true},
		{src: "complex64"}, {src: "chan int"}, {src: "func()"}, {src: "interface{}"}, {src: "any"}, {src: "error"}, {src: "fmt.Stringer"},
		{src: "struct{ A int `json:\"a\"` }"}, {src: "Undefined"}, {src: "ext.Undefined"}, {src: "NIface"}, {src: "NFunc"}, {src: "Gen[int]"},
		{src: "NAnonS"}, {src: "NAnonM"}, {src: "NAnonP"}, {src: "NAnonE"}, {src: "NFuncs"}, {src: "NAnyM"}, {src: "NAnyS"}, {src: "NKeys"}, {src: "NChanP"}, {src: "NFloats"}, {src: "time.Time"},
		{src: "NStr", exp: sch("string", ""), rt: rt(NStr(""))},
		{src: "NInt32", exp: sch("integer", "int32"), rt: rt(NInt32(0))},
		{src: "NByte", exp: sch("integer", ""), rt: rt(NByte(0))},
		{src: "NUint8", exp: sch("integer", ""), rt: rt(NByte(0))},
		{src: "NFloat", exp: sch("number", ""), rt: rt(NFloat(0)), float: true},
		{src: "NBool", exp: sch("boolean", ""), rt: rt(true)},
		{src: "NBytes", exp: sch("string", "byte"), rt: rt([]byte{})},
		{src: "NBytes2", exp: sch("string", "byte"), rt: rt([]NByte{})},
		{src: "NSlice", exp: arr(sch("string", "")), rt: rt([]string{})},
		{src: "NMap", exp: obj(sch("integer", "")), rt: rt(map[string]int{})},
		{src: "NPtr", exp: sch("integer", ""), rt: rt(new(int))},
		{src: "NArr", exp: arr(sch("integer", "")), rt: rt([2]int{})},
		{src: "NNamed", exp: sch("string", ""), rt: rt("")},
		{src: "NNStruct", exp: nstruct(), rt: rt(NStruct{})},
		{src: "NSliceS", exp: arr(nstruct()), rt: rt([]NStruct{})},
		{src: "NStruct", exp: nstruct(), rt: rt(NStruct{})},
		{src: "NDeep", exp: strct([]string{"a", "c"}, map[string]*S{"a": nstruct(), "b": arr(nstruct()), "c": obj(nstruct()), "p": nstruct()}), rt: rt(NDeep{})},
		{src: "NEmb", exp: strct([]string{"x", "z"}, map[string]*S{"x": sch("integer", ""), "y": sch("string", ""), "z": sch("boolean", "")}), rt: rt(NEmb{})},
		{src: "AStr", exp: sch("string", ""), rt: rt("")},
		{src: "AInt", exp: sch("integer", "int64"), rt: rt(int64(0))},
		{src: "ANStr", exp: sch("string", ""), rt: rt("")},
		{src: "AStruct", exp: nstruct(), rt: rt(NStruct{})},
		{src: "AAStruct", exp: nstruct(), rt: rt(NStruct{})},
		{src: "ASlice", exp: arr(sch("string", "")), rt: rt([]string{})},
		{src: "AMap", exp: obj(sch("boolean", "")), rt: rt(map[string]bool{})},
		{src: "APtr", exp: nstruct(), rt: rt(&NStruct{})},
		{src: "AExt", exp: extSch(), rt: rt(extS{})},
		{src: "TextM", exp: sch("string", ""), rt: rt(TextM{})},
		{src: "TextP", exp: sch("string", ""), rt: rt(&TextP{})},
		{src: "JSONM", exp: sch("string", ""), rt: rt(JSONM{})},
		{src: "JSONU", exp: sch("string", "")},
		{src: "ext.S", exp: extSch(), rt: rt(extS{})},
		{src: "ext.Str", exp: sch("string", ""), rt: rt("")},
		{src: "ext.AliasS", exp: extSch(), rt: rt(extS{})},
		{src: "ext.AliasStr", exp: sch("string", ""), rt: rt("")},
		{src: "ext.AliasDeep", exp: strct([]string{"q"}, map[string]*S{"q": sch("integer", "int64")}), rt: rt(deepD{})},
		{src: "ext.L", exp: arr(extSch()), rt: rt([]extS{})},
		{src: "metav1.Time", exp: sch("string", "date-time"), rt: rt(metav1.Time{})},
		{src: "metav1.MicroTime", exp: sch("string", "date-time"), rt: rt(metav1.MicroTime{})},
		{src: "metav1.Duration", exp: sch("string", ""), rt: rt(metav1.Duration{})},
		{src: "metav1.ObjectMeta", exp: sch("object", "")},
		{src: "metav1.TypeMeta", exp: strct(nil, map[string]*S{"kind": sch("string", ""), "apiVersion": sch("string", "")}), rt: rt(metav1.TypeMeta{})},
		{src: "time.Duration", exp: sch("integer", "int64"), rt: rt(time.Duration(0))},
		{src: "resource.Quantity", exp: q, rt: rt(resource.Quantity{})},
		{src: "intstr.IntOrString", exp: ios(), rt: rt(intstr.IntOrString{})},
		{src: "runtime.RawExtension", exp: &S{Type: "object", XPreserveUnknownFields: &yes}, rt: rt(runtime.RawExtension{})},
		{src: "apiext.JSON", exp: &S{XPreserveUnknownFields: &yes}, rt: rt(apiext.JSON{})},
		{src: "oldext.JSON", exp: &S{XPreserveUnknownFields: &yes}},
		{src: "unstructured.Unstructured", exp: sch("object", "")},
		{src: "corev1.Protocol", exp: sch("string", ""), rt: rt(corev1.Protocol(""))},
	}
}

// constructor builds a type from a type.
type constructor struct {
	src string // with %s
	exp func(*S) *S
	rt  func(reflect.Type) reflect.Type
	// structOK: whether struct literals may stand inside (map values may not)
	fail bool
}

func ctors() []constructor {
	id := func(s *S) *S { return s }
	slice := func(t reflect.Type) reflect.Type { return reflect.SliceOf(t) }
	ptr := func(t reflect.Type) reflect.Type { return reflect.PointerTo(t) }
	mp := func(t reflect.Type) reflect.Type { return reflect.MapOf(rt(""), t) }
	return []constructor{
		{src: "%s", exp: id, rt: func(t reflect.Type) reflect.Type { return t }},
		{src: "*%s", exp: id, rt: ptr},
		{src: "**%s", exp: id, rt: func(t reflect.Type) reflect.Type { return ptr(ptr(t)) }},
		{src: "[]%s", exp: arr, rt: slice},
		{src: "[]*%s", exp: arr, rt: func(t reflect.Type) reflect.Type { return slice(ptr(t)) }},
		{src: "*[]%s", exp: arr, rt: func(t reflect.Type) reflect.Type { return ptr(slice(t)) }},
		{src: "[2]%s", exp: func(s *S) *S { return arr(s) }, rt: func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }},
		{src: "[][]%s", exp: func(s *S) *S { return arr(arr(s)) }, rt: func(t reflect.Type) reflect.Type { return slice(slice(t)) }},
		{src: "map[string]%s", exp: obj, rt: mp},
		{src: "map[NStr]%s", exp: obj, rt: mp},
		{src: "map[AStr]%s", exp: obj, rt: mp},
		{src: "map[ext.Str]%s", exp: obj, rt: mp},
		{src: "map[corev1.Protocol]%s", exp: obj, rt: mp},
		{src: "map[string]*%s", exp: obj, rt: func(t reflect.Type) reflect.Type { return mp(ptr(t)) }},
		{src: "map[string][]%s", exp: func(s *S) *S { return obj(arr(s)) }, rt: func(t reflect.Type) reflect.Type { return mp(slice(t)) }},
		{src: "map[string]map[string]%s", exp: func(s *S) *S { return obj(obj(s)) }, rt: func(t reflect.Type) reflect.Type { return mp(mp(t)) }},
		{src: "[]map[string]%s", exp: func(s *S) *S { return arr(obj(s)) }, rt: func(t reflect.Type) reflect.Type { return slice(mp(t)) }},
		{src: "map[int]%s", fail: true},
		{src: "map[bool]%s", fail: true},
		{src: "map[NInt32]%s", fail: true},
		{src: "map[AInt]%s", fail: true},
		{src: "map[NStruct]%s", fail: true},
	}
}

// isByteElem: encoding/json writes slices of these as base64 text.
func isByteElem(src string) bool {
	switch src {
	case "byte", "uint8", "NByte", "NUint8":
		return true
	}
	return false
}

var extPkg, deepPkg *loader.Package

func setupC07() {
	setup(append([]string{
		"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured",
		"k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1",
	}, world.DefaultImports...)...)
	var err error
	deepPkg, err = w.Pkg("example.com/deep", "deep", deepSrc)
	if err != nil {
		panic(err)
	}
	w.Importable(deepPkg)
	extPkg, err = w.Pkg("example.com/ext", "ext", extSrc)
	if err != nil {
		panic(err)
	}
	world.Link(extPkg, deepPkg)
	w.Importable(extPkg)
}

func c07pkg(body string) (*loader.Package, error) {
	extPkg.Errors, deepPkg.Errors = nil, nil
	pkg, err := w.Pkg("example.com/p", "p", hdr+localDecls+body)
	if err != nil {
		return nil, err
	}
	for path, p := range pkg.Imports() {
		if g := w.Package(path); g != nil && g != p {
			world.Link(pkg, g)
		}
	}
	world.Link(pkg, extPkg)
	return pkg, nil
}

func dangerous(p *crd.Parser)  { p.AllowDangerousTypes = true }
func ignoreUnex(p *crd.Parser) { p.IgnoreUnexportedFields = true }

// fill makes a value in which everything that can be there is there.
func fill(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch v.Interface().(type) {
	case metav1.Time:
		v.Set(reflect.ValueOf(metav1.Unix(1, 0)))
		return v
	case metav1.MicroTime:
		v.Set(reflect.ValueOf(metav1.NowMicro()))
		return v
	case resource.Quantity:
		v.Set(reflect.ValueOf(resource.MustParse("1Gi")))
		return v
	case intstr.IntOrString:
		v.Set(reflect.ValueOf(intstr.FromInt32(3)))
		return v
	case runtime.RawExtension:
		v.Set(reflect.ValueOf(runtime.RawExtension{Raw: []byte(`{"k":1}`)}))
		return v
	case apiext.JSON:
		v.Set(reflect.ValueOf(apiext.JSON{Raw: []byte(`[1]`)}))
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		v.SetString("v")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		p.Elem().Set(fill(t.Elem()))
		v.Set(p)
	case reflect.Slice:
		v.Set(reflect.Append(v, fill(t.Elem())))
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(fill(t.Elem()))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(fill(t.Key()).Convert(t.Key()), fill(t.Elem()))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				v.Field(i).Set(fill(t.Field(i).Type))
			}
		}
	}
	return v
}

// conforms checks a JSON document against a schema, strictly: every key must
// be a property and (all of them being filled in) every property must be there.
func conforms(s *S, doc interface{}, path string) string {
	if s.XPreserveUnknownFields != nil && *s.XPreserveUnknownFields && s.Type == "" {
		return ""
	}
	if s.XIntOrString {
		switch doc.(type) {
		case json.Number, string:
			return ""
		}
		return fmt.Sprintf("%s: %v is neither a number nor a string", path, doc)
	}
	switch s.Type {
	case "boolean":
		if _, ok := doc.(bool); ok {
			return ""
		}
	case "string":
		if _, ok := doc.(string); ok {
			return ""
		}
	case "integer":
		if n, ok := doc.(json.Number); ok && !strings.ContainsAny(string(n), ".eE") {
			return ""
		}
	case "number":
		if _, ok := doc.(json.Number); ok {
			return ""
		}
	case "array":
		if l, ok := doc.([]interface{}); ok {
			if s.Items == nil || s.Items.Schema == nil {
				return path + ": array schema without items"
			}
			for i, e := range l {
				if m := conforms(s.Items.Schema, e, fmt.Sprintf("%s[%d]", path, i)); m != "" {
					return m
				}
			}
			return ""
		}
	case "object":
		m, ok := doc.(map[string]interface{})
		if !ok {
			break
		}
		if s.XPreserveUnknownFields != nil {
			return ""
		}
		for k, e := range m {
			if s.AdditionalProperties != nil && s.AdditionalProperties.Schema != nil {
				if msg := conforms(s.AdditionalProperties.Schema, e, path+"."+k); msg != "" {
					return msg
				}
				continue
			}
			p, ok := s.Properties[k]
			if !ok {
				return fmt.Sprintf("%s: the type encodes to a key %q that has no property", path, k)
			}
			if msg := conforms(&p, e, path+"."+k); msg != "" {
				return msg
			}
		}
		for k := range s.Properties {
			if _, ok := m[k]; !ok {
				return fmt.Sprintf("%s: property %q is no key the type encodes to", path, k)
			}
		}
		return ""
	}
	return fmt.Sprintf("%s: %v (%T) does not fit type %q", path, doc, doc, s.Type)
}

func encodes(s *S, t reflect.Type) string {
	b, err := json.Marshal(fill(t).Addr().Interface())
	if err != nil {
		return "" // no JSON form; nothing to compare
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	var doc interface{}
	if err := dec.Decode(&doc); err != nil {
		return "HARNESS: " + err.Error()
	}
	if m := conforms(s, doc, "$"); m != "" {
		return fmt.Sprintf("%s; JSON form is %s", m, b)
	}
	return ""
}

func c07types(r *mc.Run) {
	cs := ctors()
	for _, b := range bases() {
		for _, c := range cs {
			ks := []constructor{c}
			if r.Thorough {
				for _, c2 := range cs {
					if c2.src != "%s" {
						c, c2 := c, c2
						k := constructor{src: strings.Replace(c.src, "%s", c2.src, 1), fail: c.fail || c2.fail}
						if !k.fail {
							k.exp = func(s *S) *S { return c.exp(c2.exp(s)) }
							k.rt = func(t reflect.Type) reflect.Type { return c.rt(c2.rt(t)) }
						}
						ks = append(ks, k)
					}
				}
			}
			for _, k := range ks {
				for _, danger := range []bool{false, true} {
					if danger && !b.float {
						continue
					}
					c07type(r, b, k, danger)
				}
				if r.Expired() {
					return
				}
			}
		}
	}
}

func c07type(r *mc.Run, b base, c constructor, danger bool) {
	if !r.Mine() {
		return
	}
	typ := fmt.Sprintf(c.src, b.src)
	key := fmt.Sprintf("type:%s:%v", typ, danger)
	body := "type Root struct {\n\tF " + typ + " `json:\"f\"`\n}\n"
	fails := c.fail || b.exp == nil || (b.float && !danger)
	var exp *S
	if !fails {
		exp = expectType(typ, b, c)
	}
	r.State(key)
	r.Transition(strings.Count(typ, "[") + strings.Count(typ, "*") + 1)
	r.Case(key, body, !fails, func() string {
		pkg, err := c07pkg(body)
		if err != nil {
			return "HARNESS: " + err.Error()
		}
		var opts []func(*crd.Parser)
		if danger {
			opts = append(opts, dangerous)
		}
		got, errs := schemaOf(newParser(opts...), pkg, "Root")
		errs = append(errs, world.Errors(extPkg)...)
		for _, p := range pkg.Imports() {
			if fails {
				errs = append(errs, world.Errors(p)...)
			}
			p.Errors = nil
		}
		if fails {
			if len(errs) == 0 {
				return fmt.Sprintf("%s cannot be expressed, but no error is reported; schema %s", typ, canon(got, false))
			}
			return ""
		}
		if len(errs) > 0 {
			return fmt.Sprintf("errors for a supported type: %v", errs)
		}
		r.Outcome(canon(got, false))
		want := strct([]string{"f"}, map[string]*S{"f": exp})
		if g, w := canon(got, false), canon(want, false); g != w {
			return fmt.Sprintf("schema %s\nexpected %s", g, w)
		}
		if b.rt != nil {
			f := got.Properties["f"]
			return encodes(&f, c.rt(b.rt))
		}
		return ""
	})
	if !fails {
		r.Sample(body)
	}
}

// expectType applies the constructors from the inside out; a slice of bytes
// is text.
func expectType(typ string, b base, c constructor) *S {
	if isByteElem(b.src) {
		if i := strings.LastIndex(c.src, "[]%s"); i >= 0 {
			// the innermost constructor is a slice of bytes
			outer := c.src[:i] + "%s"
			for _, k := range allCtors(2) {
				if k.src == outer && !k.fail {
					return k.exp(sch("string", "byte"))
				}
			}
			panic("no constructor " + outer)
		}
	}
	return c.exp(b.exp)
}

var ctorMemo []constructor

func allCtors(depth int) []constructor {
	if ctorMemo != nil {
		return ctorMemo
	}
	cs := ctors()
	out := append([]constructor{}, cs...)
	for d := 1; d < depth+1; d++ {
		for _, a := range append([]constructor{}, out...) {
			for _, c := range cs {
				if a.fail || c.fail {
					continue
				}
				a, c := a, c
				out = append(out, constructor{src: strings.Replace(a.src, "%s", c.src, 1), exp: func(s *S) *S { return a.exp(c.exp(s)) }})
			}
		}
	}
	ctorMemo = out
	return out
}

// ---- tags, optionality, embedding ------------------------------------------

// fieldForm is a way of declaring a field.
type fieldForm struct {
	decl     string // without tag
	name     string // Go name ("" unnamed)
	embedded *S     // schema of the embedded struct, when it can be inlined
	exp      *S
	rf       reflect.StructField
}

func fieldForms() []fieldForm {
	nstruct := strct([]string{"x"}, map[string]*S{"x": sch("integer", ""), "y": sch("string", "")})
	exts := strct([]string{"e"}, map[string]*S{"e": sch("string", ""), "d": strct([]string{"q"}, map[string]*S{"q": sch("integer", "int64")})})
	nemb := strct([]string{"x", "z"}, map[string]*S{"x": sch("integer", ""), "y": sch("string", ""), "z": sch("boolean", "")})
	return []fieldForm{
		{decl: "F int", name: "F", exp: sch("integer", ""), rf: reflect.StructField{Name: "F", Type: rt(0)}},
		{decl: "F *NStr", name: "F", exp: sch("string", ""), rf: reflect.StructField{Name: "F", Type: rt(new(NStr))}},
		{decl: "F *NBool", name: "F", exp: sch("boolean", ""), rf: reflect.StructField{Name: "F", Type: rt(new(bool))}},
		{decl: "F []string", name: "F", exp: arr(sch("string", "")), rf: reflect.StructField{Name: "F", Type: rt([]string{})}},
		{decl: "F NStruct", name: "F", exp: nstruct, rf: reflect.StructField{Name: "F", Type: rt(NStruct{})}},
		{decl: "f int", name: "f", exp: sch("integer", "")},
		{decl: "NStruct", embedded: nstruct, exp: nstruct, rf: reflect.StructField{Name: "NStruct", Type: rt(NStruct{}), Anonymous: true}},
		{decl: "*NStruct", embedded: nstruct, exp: nstruct, rf: reflect.StructField{Name: "NStruct", Type: rt(&NStruct{}), Anonymous: true}},
		{decl: "ext.S", embedded: exts, exp: exts, rf: reflect.StructField{Name: "S", Type: rt(extS{}), Anonymous: true}},
		{decl: "NEmb", embedded: nemb, exp: nemb, rf: reflect.StructField{Name: "NEmb", Type: rt(NEmb{}), Anonymous: true}},
		{decl: "AStruct", embedded: nstruct, exp: nstruct, rf: reflect.StructField{Name: "AStruct", Type: rt(NStruct{}), Anonymous: true}},
	}
}

// tagForm is a struct tag with what it means.
type tagForm struct {
	tag    string
	has    bool
	skip   bool
	name   string // key; "" means none given
	omit   bool
	inline bool
	quoted bool
}

var tagForms = []tagForm{
	{tag: `json:"a"`, has: true, name: "a"},
	{tag: `json:"a,omitempty"`, has: true, name: "a", omit: true},
	{tag: `json:"a,omitzero"`, has: true, name: "a", omit: true},
	{tag: `json:"a,omitempty" yaml:"zz" protobuf:"bytes,1,opt"`, has: true, name: "a", omit: true},
	{tag: `yaml:"q,omitempty" json:"aB-c_d.e"`, has: true, name: "aB-c_d.e"},
	{tag: `json:"a,string"`, has: true, name: "a", quoted: true},
	{tag: `json:"a,omitempty,string"`, has: true, name: "a", omit: true, quoted: true},
	{tag: `json:"-"`, has: true, skip: true},
	{tag: `json:"-,"`, has: true, name: "-"},
	{tag: `json:",omitempty"`, has: true, omit: true},
	{tag: `json:",inline"`, has: true, inline: true},
	{tag: `json:",inline,omitempty"`, has: true, inline: true, omit: true},
	{tag: `json:""`, has: true},
	{tag: ``},
	{tag: `yaml:"q"`},
}

// optMarkers are the optionality markers, strongest first.
var optMarkers = []struct {
	text string
	req  bool
}{
	{"+kubebuilder:validation:Optional", false},
	{"+kubebuilder:validation:Required", true},
	{"+optional", false},
	{"+required", true},
}

func c07fields(r *mc.Run) {
	for _, ff := range fieldForms() {
		for _, tf := range tagForms {
			if ff.name != "" && tf.inline {
				continue // inlining a named field is not something encoding/json does
			}
			for mask := 0; mask < 1<<len(optMarkers); mask++ {
				for def := 0; def < 3; def++ {
					for _, ign := range []bool{false, true} {
						c07field(r, ff, tf, mask, def, ign)
					}
				}
			}
			if r.Expired() {
				return
			}
		}
	}
}

func c07field(r *mc.Run, ff fieldForm, tf tagForm, mask, def int, ign bool) {
	if !r.Mine() {
		return
	}
	key := fmt.Sprintf("field:%s:%s:%d:%d:%v", ff.decl, tf.tag, mask, def, ign)
	var sb strings.Builder
	switch def {
	case 1:
		sb.WriteString("// +kubebuilder:validation:Optional\n\n")
	case 2:
		sb.WriteString("// +kubebuilder:validation:Required\n\n")
	}
	sb.WriteString("type pkgMarkersAbove int\n\n")
	sb.WriteString("type Root struct {\n")
	for i, m := range optMarkers {
		if mask>>uint(i)&1 == 1 {
			sb.WriteString("\t// " + m.text + "\n")
		}
	}
	sb.WriteString("\t" + ff.decl)
	if tf.tag != "" {
		sb.WriteString(" `" + tf.tag + "`")
	}
	sb.WriteString("\n\tOther bool `json:\"other,omitempty\"`\n}\n")
	body := sb.String()

	want := strct(nil, map[string]*S{"other": sch("boolean", "")})
	wantErr := false
	ignored := ign && ff.name == "f"
	switch {
	case ignored:
	case !tf.has:
		wantErr = true
	case tf.skip:
	case tf.name == "" && ff.embedded != nil:
		for k, p := range ff.embedded.Properties {
			want.Properties[k] = p
		}
		if def != 1 {
			want.Required = append(want.Required, ff.embedded.Required...)
		} else if strings.Contains(ff.decl, "ext.") {
			// the default is the one of the declaring package
			want.Required = append(want.Required, ff.embedded.Required...)
		}
	default:
		name := tf.name
		if name == "" {
			name = ff.name
		}
		exp := *ff.exp
		if tf.quoted && (exp.Type == "integer" || exp.Type == "boolean") {
			exp = S{Type: "string"}
		}
		if def == 1 && exp.Required != nil && !strings.Contains(ff.decl, "ext.") {
			exp.Required = nil
		}
		want.Properties[name] = exp
		required := !tf.omit && def != 1
		for i := len(optMarkers) - 1; i >= 0; i-- {
			if mask>>uint(i)&1 == 1 {
				required = optMarkers[i].req
			}
		}
		if required {
			want.Required = append(want.Required, name)
		}
	}
	r.State(key)
	r.Transition(1)
	r.Case(key, body, !wantErr, func() string {
		pkg, err := c07pkg(body)
		if err != nil {
			return "HARNESS: " + err.Error()
		}
		var opts []func(*crd.Parser)
		if ign {
			opts = append(opts, ignoreUnex)
		}
		got, errs := schemaOf(newParser(opts...), pkg, "Root")
		if wantErr {
			if len(errs) == 0 {
				return "no error for a field without a JSON tag"
			}
			return ""
		}
		if len(errs) > 0 {
			return fmt.Sprintf("errors: %v", errs)
		}
		if g, w := canon(got, false), canon(want, false); g != w {
			return fmt.Sprintf("schema %s\nexpected %s", g, w)
		}
		r.Outcome(canon(got, false))
		if ff.rf.Type != nil {
			f := ff.rf
			f.Tag = reflect.StructTag(tf.tag)
			return encodes(got, reflect.StructOf([]reflect.StructField{f, {Name: "Other", Type: rt(true), Tag: `json:"other,omitempty"`}}))
		}
		return ""
	})
}

// ---- several embedded structs ------------------------------------------------

func c07embeds(r *mc.Run) {
	// structs with overlapping keys, embedded in all pairs, with own fields
	parts := []struct {
		name  string
		props map[string]string
		req   []string
	}{
		{"E1", map[string]string{"a": "int", "b": "string"}, []string{"a"}},
		{"E2", map[string]string{"c": "bool", "d": "[]string"}, []string{"c", "d"}},
		{"E3", map[string]string{"a": "int", "e": "NStruct"}, []string{"a"}},
		{"E4", map[string]string{"a": "string"}, nil},
		{"E5", map[string]string{"f": "map[string]int"}, nil},
	}
	decls := ""
	sc := map[string]*S{"int": sch("integer", ""), "string": sch("string", ""), "bool": sch("boolean", ""), "[]string": arr(sch("string", "")),
		"map[string]int": obj(sch("integer", "")), "NStruct": strct([]string{"x"}, map[string]*S{"x": sch("integer", ""), "y": sch("string", "")})}
	for _, p := range parts {
		decls += "type " + p.name + " struct {\n"
		var ks []string
		for k := range p.props {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			opt := ",omitempty"
			for _, q := range p.req {
				if q == k {
					opt = ""
				}
			}
			decls += fmt.Sprintf("\t%s %s `json:\"%s%s\"`\n", strings.ToUpper(k), p.props[k], k, opt)
		}
		decls += "}\n"
	}
	n := len(parts)
	for mask := 1; mask < 1<<uint(n); mask++ {
		for wrap := 0; wrap < 3; wrap++ {
			for own := 0; own < 2; own++ {
				if !r.Mine() {
					continue
				}
				key := fmt.Sprintf("embeds:%d:%d:%d", mask, wrap, own)
				want := strct(nil, nil)
				want.Properties = map[string]S{}
				types := map[string]string{}
				clash, same := false, false
				var sb strings.Builder
				sb.WriteString(decls)
				in := ""
				for i, p := range parts {
					if mask>>uint(i)&1 == 0 {
						continue
					}
					in += "\t" + []string{"", "*"}[wrap%2] + p.name + " `json:\",inline\"`\n"
					for k, t := range p.props {
						if o, ok := types[k]; ok {
							if o != t {
								clash = true
							} else {
								same = true
							}
						}
						types[k] = t
						want.Properties[k] = *sc[t]
					}
					want.Required = append(want.Required, p.req...)
				}
				if wrap == 2 { // embedded two levels deep
					sb.WriteString("type Mid struct {\n" + in + "}\n")
					in = "\tMid `json:\",inline\"`\n"
				}
				if own == 1 {
					in += "\tOwn int `json:\"own\"`\n"
					want.Properties["own"] = *sc["int"]
					want.Required = append(want.Required, "own")
				}
				sb.WriteString("type Root struct {\n" + in + "}\n")
				body := sb.String()
				seen := map[string]bool{}
				var req []string
				for _, q := range want.Required {
					if !seen[q] {
						seen[q] = true
						req = append(req, q)
					}
				}
				want.Required = req
				r.State(key)
				r.Transition(n)
				r.Case(key, body, !clash, func() string {
					pkg, err := c07pkg(body)
					if err != nil {
						return "HARNESS: " + err.Error()
					}
					got, errs := schemaOf(newParser(), pkg, "Root")
					if clash {
						if len(errs) == 0 {
							return "keys with different types are embedded, but no error is reported: " + canon(got, false)
						}
						return ""
					}
					if len(errs) > 0 {
						return fmt.Sprintf("errors: %v", errs)
					}
					_ = same
					if g, w := canon(got, false), canon(want, false); g != w {
						return fmt.Sprintf("schema %s\nexpected %s", g, w)
					}
					return ""
				})
			}
		}
	}
}

func c07(r *mc.Run) {
	setupC07()
	c07types(r)
	c07fields(r)
	c07embeds(r)
	c07schemaless(r)
}

// c07schemaless: fields and embedded structs without a schema of their own.
func c07schemaless(r *mc.Run) {
	const mark = "\t// +kubebuilder:validation:Schemaless\n"
	two := func() map[string]*S {
		return map[string]*S{"x": sch("integer", ""), "y": sch("string", "")}
	}
	for e := 0; e < 4; e++ { // embedded: no, without the marker, with the marker, as a pointer with the marker
		for f := 0; f < 4; f++ { // the type of a field with the marker
			for place := 0; place < 3; place++ {
				for also := 0; also < 2; also++ {
					if !r.Mine() || r.Expired() {
						continue
					}
					props, req := map[string]*S{"own": sch("boolean", "")}, []string{"own"}
					emb := ""
					switch e {
					case 1:
						emb = "\tNStruct `json:\",inline\"`\n"
						for k, v := range two() {
							props[k] = v
						}
						req = append(req, "x")
					case 2:
						emb = mark + "\tNStruct `json:\",inline\"`\n"
					case 3:
						emb = mark + "\t*NStruct `json:\",inline\"`\n"
					}
					field := []string{"", mark + "\tF NStruct `json:\"f\"`\n", mark + "\tF []map[string]NStruct `json:\"f,omitempty\"`\n", mark + "\tF any `json:\"f\"`\n"}[f]
					if also == 1 {
						if f == 0 {
							continue
						}
						// other markers keep their effect
						field = "\t// +kubebuilder:validation:Type=object\n\t// +kubebuilder:pruning:PreserveUnknownFields\n" + field
					}
					if f > 0 {
						props["f"] = &S{}
						if also == 1 {
							yes := true
							props["f"] = &S{Type: "object", XPreserveUnknownFields: &yes}
						}
						if f != 2 {
							req = append(req, "f")
						}
					}
					own := "\tOwn bool `json:\"own\"`\n"
					parts := []string{emb + field + own, own + emb + field, field + own + emb}[place]
					body := "type Root struct {\n" + parts + "}\n"
					key := fmt.Sprintf("schemaless:%d:%d:%d:%d", e, f, place, also)
					r.State(key)
					r.Transition(1)
					r.Case(key, body, e > 1 || f > 0, func() string {
						pkg, err := c07pkg(body)
						if err != nil {
							return "HARNESS: " + err.Error()
						}
						got, errs := schemaOf(newParser(), pkg, "Root")
						if len(errs) > 0 {
							return fmt.Sprintf("errors: %v", errs)
						}
						if g, w := canon(got, false), canon(strct(req, props), false); g != w {
							return fmt.Sprintf("schema %s\nexpected %s", g, w)
						}
						return ""
					})
				}
			}
		}
	}
}
