package main

// runtimeSrc stands in for the package of runtime.Object.
const runtimeSrc = `package runtime

type Object interface {
	DeepCopyObject() Object
}
`

// depSrc is another package, and libSrc what cases find in their own.
const depSrc = `// +kubebuilder:object:generate=true
package dep

var Calls int

type B int
type AS = string
type S0 struct {
	A string
	N int
}
type S1 struct {
	A *int
	L []string
}
type L []string
type M map[string]int
type LS []S1
type A1 = S1
type E struct{}

type MV struct{ P *int }

func (in MV) DeepCopy() MV {
	Calls++
	if in.P != nil {
		p := *in.P
		in.P = &p
	}
	return in
}

type MP struct{ P *int }

func (in *MP) DeepCopy() *MP {
	if in == nil {
		return nil
	}
	Calls++
	out := *in
	if in.P != nil {
		p := *in.P
		out.P = &p
	}
	return &out
}

type MI struct{ P *int }

func (in *MI) DeepCopyInto(out *MI) {
	Calls++
	*out = *in
	if in.P != nil {
		p := *in.P
		out.P = &p
	}
}

type MB struct{ P *int }

func (in *MB) DeepCopyInto(out *MB) {
	Calls++
	*out = *in
	if in.P != nil {
		p := *in.P
		out.P = &p
	}
}

func (in *MB) DeepCopy() *MB {
	if in == nil {
		return nil
	}
	out := new(MB)
	in.DeepCopyInto(out)
	return out
}

type MVI struct{ P *int }

func (in MVI) DeepCopyInto(out *MVI) {
	Calls++
	*out = in
	if in.P != nil {
		p := *in.P
		out.P = &p
	}
}

func (in MVI) DeepCopy() MVI {
	var out MVI
	in.DeepCopyInto(&out)
	return out
}

type ML []string

func (in ML) DeepCopy() ML {
	if in == nil {
		return nil
	}
	Calls++
	return append(ML{}, in...)
}

type MM map[string]string

func (in MM) DeepCopy() MM {
	if in == nil {
		return nil
	}
	Calls++
	out := MM{}
	for k, v := range in {
		out[k] = v
	}
	return out
}

type MLI []string

func (in MLI) DeepCopyInto(out *MLI) {
	if in == nil {
		*out = nil
		return
	}
	Calls++
	*out = append(MLI{}, in...)
}

type MLP []string

func (in *MLP) DeepCopy() *MLP {
	if in == nil {
		return nil
	}
	Calls++
	if *in == nil {
		return new(MLP)
	}
	out := append(MLP{}, *in...)
	return &out
}

type MBs string

func (in MBs) DeepCopy() MBs {
	return in
}
`

const libExtra = `
type Rec struct {
	Next   *Rec
	Kids   []Rec
	ByName map[string]Rec
	Ptrs   map[string]*Rec
}
type AL = []string
type AP = *S1
type AM = map[string]AS
type LP []*S1
type LL []L
type MS map[string]S1
type ML2 map[string]L
type P *S1
type PL *[]string

type inner struct{ A string }
type innerList []string

// +kubebuilder:object:generate=false
type IC interface{ DeepCopy() IC }

type impl struct{ P *int }

func (in *impl) DeepCopy() IC {
	Calls++
	out := *in
	if in.P != nil {
		p := *in.P
		out.P = &p
	}
	return &out
}

func NewIC(p *int) IC { return &impl{p} }
`

// element is a type that others are made of.
type element struct {
	text     string
	ok       bool // must be supported
	key      bool // may be the key of a map
	embed    bool // may be embedded
	pembed   bool // a pointer to it may be embedded
	thorough bool
}

var elements = []element{
	{text: "string", ok: true, key: true},
	{text: "int", ok: true, key: true, thorough: true},
	{text: "bool", ok: true, key: true, thorough: true},
	{text: "float64", ok: true, key: true, thorough: true},
	{text: "complex64", ok: true, key: true, thorough: true},
	{text: "uintptr", ok: true, key: true, thorough: true},
	{text: "byte", ok: true, key: true},
	{text: "B", ok: true, key: true, embed: true, pembed: true},
	{text: "AS", ok: true, key: true},
	{text: "S0", ok: true, key: true, embed: true, pembed: true},
	{text: "S1", ok: true, embed: true, pembed: true},
	{text: "E", ok: true, key: true, embed: true, pembed: true},
	{text: "L", ok: true, embed: true, pembed: true},
	{text: "M", ok: true, embed: true},
	{text: "LS", ok: true},
	{text: "LP", ok: true},
	{text: "LL", ok: true},
	{text: "MS", ok: true},
	{text: "ML2", ok: true},
	{text: "A1", ok: true, embed: true, pembed: true},
	{text: "AL", ok: true},
	{text: "AM", ok: true},
	{text: "AP", ok: true, embed: true},
	{text: "P", ok: true},
	{text: "PL", ok: true},
	{text: "Rec", ok: true, embed: true, pembed: true},
	{text: "inner", ok: true, key: true, embed: true, pembed: true},
	{text: "innerList", ok: true, embed: true},
	{text: "MV", ok: true, embed: true, pembed: true},
	{text: "MP", ok: true, embed: true, pembed: true},
	{text: "MI", ok: true, embed: true, pembed: true},
	{text: "MB", ok: true, embed: true, pembed: true},
	{text: "MVI", ok: true, embed: true, pembed: true},
	{text: "ML", ok: true, embed: true},
	{text: "MM", ok: true, embed: true},
	{text: "MLI", ok: true},
	{text: "MLP", ok: true},
	{text: "MBs", ok: true, key: true},
	{text: "dep.B", ok: true, key: true, thorough: true},
	{text: "dep.AS", ok: true, key: true},
	{text: "dep.S0", ok: true, key: true, embed: true, pembed: true},
	{text: "dep.S1", ok: true, embed: true, pembed: true},
	{text: "dep.L", ok: true, embed: true},
	{text: "dep.M", ok: true, thorough: true},
	{text: "dep.LS", ok: true},
	{text: "dep.A1", ok: true, thorough: true},
	{text: "dep.MV", ok: true, embed: true, pembed: true},
	{text: "dep.MP", ok: true, embed: true},
	{text: "dep.MI", ok: true, thorough: true},
	{text: "dep.MB", ok: true},
	{text: "dep.ML", ok: true, thorough: true},
	{text: "dep.MM", ok: true},
	{text: "dep.MLI", ok: true, thorough: true},
	{text: "IC", embed: true},
	{text: "any"},
	{text: "error", thorough: true},
	{text: "func()"},
	{text: "chan int"},
	{text: "[2]string", key: true},
	{text: "[2]*int", key: true},
	{text: "[2]S1", thorough: true},
	{text: "struct{ A string }", key: true},
	{text: "struct{ A []string }"},
	{text: "struct{ A S1 }", thorough: true},
}

// wrap is a type constructor.
type wrap struct {
	name string
	f    func(string) string
	key  bool // needs a key
	bad  bool // need not be supported
}

var wraps = []wrap{
	{"pointer", func(x string) string { return "*" + x }, false, false},
	{"slice", func(x string) string { return "[]" + x }, false, false},
	{"map", func(x string) string { return "map[string]" + x }, false, false},
	{"key", func(x string) string { return "map[" + x + "]string" }, true, false},
	{"key and slice", func(x string) string { return "map[" + x + "][]B" }, true, false},
	{"array", func(x string) string { return "[2]" + x }, false, true},
}
