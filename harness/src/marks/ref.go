package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/verifmc/mc"
)

// The documented grammar of arguments, as a reference parser that is
// independent of the code: every text is either a written value, or an error,
// or one that the documentation does not speak about.

type verdict int

const (
	vReject verdict = iota
	vOpen           // not documented: no claim
	vAccept         // is that value, and must be accepted
	vIfAny          // not clearly documented, but if accepted it is that value
)

func (v verdict) String() string { return [...]string{"reject", "open", "accept", "accept?"}[v] }

func worst(a, b verdict) verdict {
	for _, v := range []verdict{vReject, vOpen, vIfAny} {
		if a == v || b == v {
			return v
		}
	}
	return vAccept
}

var (
	reInt   = regexp.MustCompile(`^-?[1-9][0-9]*$|^0$`)
	reIntWs = regexp.MustCompile(`^-?\s*[1-9][0-9]*$`)
	reNum   = regexp.MustCompile(`^-?([1-9][0-9]*|0)\.[0-9]+$`)
	reNumWs = regexp.MustCompile(`^-?\s*([1-9][0-9]*|0)\.[0-9]+$`)
	reDigit = regexp.MustCompile(`^-?\s*[0-9.]`)
)

// split cuts a text at the given separator where that is outside quotes and
// braces; ok says that quotes and braces match.
func split(s string, sep byte) (parts []string, ok bool) {
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '`':
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				return nil, false
			}
			i += j + 1
		case c == '{':
			depth++
		case c == '}':
			depth--
			if depth < 0 {
				return nil, false
			}
		case c == sep && depth == 0:
			parts = append(parts, s[start:i])
			start = i + 1
		}
	}
	return append(parts, s[start:]), depth == 0
}

// strange says that a text has a brace or a quote inside of a bare string,
// which the documentation allows ("any sequence of unquoted characters")
// without saying what it means for what follows.
func strange(s string) bool {
	atStart := true
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == ' ':
		case c == '"' || c == '`':
			if !atStart {
				return true
			}
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				return false // never closed: an error wherever it starts a value
			}
			i += j + 1
			atStart = false
		case c == '{':
			if !atStart {
				return true
			}
		case c == ',' || c == ';' || c == ':':
			atStart = true
		default:
			atStart = false
		}
	}
	return false
}

// braceString says that a bare string starts with a brace, or with a colon,
// which are "unquoted characters" too.
func braceString(t *typ, s string) bool {
	depth, maps := 0, false
	for e := t; ; e = e.elem {
		maps = maps || e.k == kMap && !e.any
		if e.any {
			depth = 1 << 20
			break
		}
		if e.k != kList && e.k != kMap {
			if e.k != kStr && !maps {
				return false
			}
			break
		}
		depth++
	}
	last := byte(0)
	for i, d := 0, 0; i < len(s); i++ {
		c := s[i]
		switch c {
		case ' ':
			continue
		case '"', '`':
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				return false
			}
			i += j + 1
		case '{':
			if d >= depth || last == ';' || depth == 1<<20 && last == ',' && strings.Count(s, "{") != strings.Count(s, "}") || maps && last == '{' {
				return true
			}
			d++
		case '}':
			d--
		case ':':
			if last == 0 || last == ',' || last == ';' || last == ':' || last == '{' {
				return true
			}
		}
		last = c
	}
	return false
}

func refStr(s string) (val, verdict) {
	t := strings.Trim(s, " ")
	if t == "" {
		return val{k: kStr}, vIfAny
	}
	if t[0] == '"' || t[0] == '`' {
		u, err := strconv.Unquote(t)
		if err != nil {
			return val{}, vReject
		}
		return val{k: kStr, s: u}, vAccept
	}
	if t[0] == '{' || t[0] == ':' {
		return val{}, vOpen
	}
	if strings.ContainsAny(t, ",;:}") {
		return val{}, vReject
	}
	if strings.ContainsAny(t, "\"`{") {
		return val{}, vOpen
	}
	return val{k: kStr, s: t}, vAccept
}

// refBraces gives the elements of `{a, b}`.
func refBraces(s string, f func(elem string, n int) verdict) verdict {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return vReject
	}
	// the last character closes the first
	if whole, ok := split(s, 0); !ok || len(whole) != 1 {
		return vReject
	}
	depth := 0
	for i := 0; i < len(s)-1; i++ {
		switch s[i] {
		case '"', '`':
			i += strings.IndexByte(s[i+1:], s[i]) + 1
		case '{':
			depth++
		case '}':
			depth--
		}
		if depth == 0 {
			return vReject
		}
	}
	inner := s[1 : len(s)-1]
	if strings.Trim(inner, " ") == "" {
		return vAccept
	}
	parts, ok := split(inner, ',')
	if !ok {
		return vReject
	}
	res := vAccept
	if len(parts) > 1 && strings.Trim(parts[len(parts)-1], " ") == "" {
		res = vOpen // trailing comma
		parts = parts[:len(parts)-1]
	}
	for i, p := range parts {
		res = worst(res, f(p, i))
	}
	return res
}

func ref(t *typ, s string, inList bool) (val, verdict) {
	tr := strings.Trim(s, " ")
	switch {
	case t.any:
		return refAny(tr, inList)
	case t.k == kStr:
		return refStr(s)
	case t.k == kBool:
		if tr == "true" || tr == "false" {
			return val{k: kBool, b: tr == "true"}, vAccept
		}
		return val{}, vReject
	case t.k == kInt, t.k == kNum:
		v := vAccept
		if t.k == kNum && (reNum.MatchString(tr) || reNumWs.MatchString(tr)) {
			if !reNum.MatchString(tr) {
				v = vIfAny
			}
			f, err := strconv.ParseFloat(strings.ReplaceAll(tr, " ", ""), 64)
			if err != nil {
				return val{}, vReject
			}
			return val{k: kNum, f: f}, v
		}
		if !reIntWs.MatchString(tr) && !reInt.MatchString(tr) {
			return val{}, vReject
		}
		if !reInt.MatchString(tr) {
			v = vIfAny
		}
		i, err := strconv.Atoi(strings.ReplaceAll(tr, " ", ""))
		if err != nil {
			return val{}, vReject
		}
		if t.k == kNum {
			return val{k: kNum, f: float64(i)}, v
		}
		return val{k: kInt, i: i}, v
	case t.k == kList:
		out := val{k: kList}
		if strings.HasPrefix(tr, "{") {
			v := refBraces(tr, func(e string, _ int) verdict {
				if t.elem.k == kList && !t.elem.any && !strings.HasPrefix(strings.Trim(e, " "), "{") {
					// the semicolon form "will not properly parse nested slices"
					if x, v := ref(&typ{k: kList, elem: t.elem.elem}, e, true); v == vReject {
						return vReject
					} else {
						out.elems = append(out.elems, x)
						return vOpen
					}
				}
				x, v := ref(t.elem, e, true)
				out.elems = append(out.elems, x)
				return v
			})
			return out, v
		}
		if tr == "" {
			return out, vOpen
		}
		parts, ok := split(tr, ';')
		if !ok {
			return out, vReject
		}
		res := vAccept
		if t.elem.k == kList || t.elem.k == kMap {
			res = vOpen
		}
		if len(parts) > 1 && strings.Trim(parts[len(parts)-1], " ") == "" {
			res = worst(res, vOpen)
			parts = parts[:len(parts)-1]
		}
		for _, p := range parts {
			x, v := ref(t.elem, p, true)
			out.elems = append(out.elems, x)
			res = worst(res, v)
		}
		return out, res
	case t.k == kMap:
		return refMap(tr, t.elem)
	}
	panic("type " + t.name)
}

func refMap(tr string, elem *typ) (val, verdict) {
	out := val{k: kMap}
	seen := map[string]bool{}
	v := refBraces(tr, func(e string, _ int) verdict {
		kv, ok := split(e, ':')
		if !ok || len(kv) < 2 {
			return vReject
		}
		k, kverd := refStr(kv[0])
		if g, _ := guess(kv[0]); kverd == vAccept && (g == nil || g.k != kStr) {
			kverd = vIfAny // a key that looks like another value
		}
		x, v := ref(elem, e[len(kv[0])+1:], false)
		if seen[k.s] {
			v = worst(v, vOpen)
		}
		seen[k.s] = true
		out.keys, out.elems = append(out.keys, k.s), append(out.elems, x)
		return worst(kverd, v)
	})
	return out, v
}

// refAny: the kind of the value is that of how it is written; lists are of
// the kind of their first element.
func refAny(tr string, inList bool) (val, verdict) {
	if tr == "" {
		return val{}, vOpen
	}
	if tr[0] == '{' {
		inner := strings.Trim(strings.TrimSuffix(tr[1:], "}"), " ")
		if inner == "" && strings.HasSuffix(tr, "}") {
			return val{k: kMap}, vAccept
		}
		if c := inner; c == "" || c[0] == ',' || c[0] == ';' || c[0] == ':' || c[0] == '}' {
			return val{}, vOpen
		}
		if whole, ok := split(tr, ';'); ok && len(whole) > 1 {
			// a list of lists or maps with semicolons
			if inList {
				return val{}, vReject
			}
			return val{}, vOpen
		}
		first, ok := split(inner, ',')
		if !ok {
			return val{}, vReject
		}
		// lists with semicolons in ones with braces, at any depth
		if legacy, ok := split(strings.Trim(inner, "{} "), ';'); !inList && ok && len(legacy) > 1 {
			return val{}, vOpen
		}
		if kv, ok := split(first[0], ':'); ok && len(kv) > 1 {
			return refMap(tr, tAny())
		}
		t, v := guess(first[0])
		if v != vAccept {
			return val{}, v
		}
		return ref(tList(t), tr, true)
	}
	if parts, ok := split(tr, ';'); ok && len(parts) > 1 {
		if inList {
			return val{}, vReject
		}
		t, v := guess(parts[0])
		if v != vAccept {
			return val{}, v
		}
		return ref(tList(t), tr, false)
	}
	t, v := guess(tr)
	if v != vAccept {
		return val{}, v
	}
	return ref(t, tr, inList)
}

// guess is the type that a value not given one has by how it is written.
func guess(s string) (*typ, verdict) {
	s = strings.Trim(s, " ")
	switch {
	case s == "":
		return nil, vOpen
	case s[0] == '{':
		v, verd := refAny(s, true)
		if verd != vAccept {
			return nil, worst(verd, vOpen)
		}
		if v.k == kMap {
			return tMap(tAny()), vAccept
		}
		t, verd := guessVal(v)
		return t, verd
	case s == "true" || s == "false":
		return tBool(), vAccept
	case reIntWs.MatchString(s):
		return tInt(), vAccept
	case reNumWs.MatchString(s):
		return tNum(), vAccept
	case reDigit.MatchString(s), regexp.MustCompile(`^(true|false)\b`).MatchString(s):
		// starts like a number or boolean, but isn't one
		return nil, vOpen
	}
	return tStr(), vAccept
}

func guessVal(v val) (*typ, verdict) {
	switch v.k {
	case kInt:
		return tInt(), vAccept
	case kNum:
		return tNum(), vAccept
	case kStr:
		return tStr(), vAccept
	case kBool:
		return tBool(), vAccept
	case kMap:
		return tMap(tAny()), vAccept
	}
	if len(v.elems) == 0 {
		return nil, vOpen
	}
	t, verd := guessVal(v.elems[0])
	if t == nil {
		return nil, verd
	}
	return tList(t), verd
}

// decide gives the reference's verdict on the whole text of an argument.
func decide(t *typ, s string) (val, verdict) {
	tr := strings.Trim(s, " ")
	if tr == "" || strange(s) || braceString(t, s) {
		return val{}, vOpen
	}
	v, verd := ref(t, s, false)
	return v, verd
}

// the first 8 are the structural ones
var tokens = []string{"t", "1", `"s"`, "{", "}", ",", ";", ":", "-", "true", " ", "0.5", "+"}

func deep(idx []int) bool {
	for _, i := range idx {
		if i > 7 {
			return true
		}
	}
	return false
}

// grammar enumerates all sequences of tokens up to a length and holds the
// parser to the reference.
func grammar(r *mc.Run) {
	max := 4
	if r.Thorough {
		max = 5
	}
	type arg struct {
		t           *typ
		named, anon *markers.Definition
	}
	var args []arg
	for _, t := range types {
		st := structOf(reflect.StructField{Name: "Value", Type: t.rt}, reflect.StructField{Name: "Other", Type: reflect.TypeOf(0), Tag: `marker:",optional"`})
		d, err := markers.MakeDefinition("t:named", markers.DescribesType, reflect.Zero(st).Interface())
		if err != nil {
			panic(err)
		}
		a := arg{t: t, named: d}
		if !t.any {
			a.anon, _ = markers.MakeDefinition("t:anon", markers.DescribesType, reflect.Zero(t.rt).Interface())
		}
		args = append(args, a)
	}
	seen := map[string]bool{}
	var accepted, rejected, open int
	idx := make([]int, 0, max)
	var visit func(prefix string) bool
	one := func(text string) {
		if !r.Mine() {
			return
		}
		r.State("grammar " + text)
		r.Case("grammar "+text, "the argument text "+strconv.Quote(text), true, func() string {
			for _, a := range args {
				v, verd := decide(a.t, text)
				switch verd {
				case vReject:
					rejected++
				case vAccept, vIfAny:
					accepted++
				default:
					open++
				}
				check := func(raw string, field bool, d *markers.Definition) string {
					out, err := d.Parse(raw)
					r.Transition(1)
					if verd == vOpen {
						return ""
					}
					if err != nil {
						if verd == vAccept {
							return fmt.Sprintf("%s (%s) is rejected: %v; it is %s", raw, a.t.name, err, show(expected(v, a.t.rt)))
						}
						return ""
					}
					got := reflect.ValueOf(out)
					if verd == vReject {
						return fmt.Sprintf("%s (%s) is accepted as %#v; it is no such value", raw, a.t.name, out)
					}
					if field {
						got = got.Field(0)
					}
					if want := expected(v, a.t.rt); !same(got, want) {
						return fmt.Sprintf("%s (%s) gives %s, written was %s", raw, a.t.name, show(got), show(want))
					}
					return ""
				}
				if m := check("+t:named:value="+text, true, a.named); m != "" {
					return m
				}
				if !strings.Contains(text, ",") {
					if m := check("+t:named:value="+text+",other=4", true, a.named); m != "" && verd != vReject {
						return m
					}
					if m := check("+t:named:other=4,value="+text, true, a.named); m != "" {
						return m
					}
				}
				if a.anon != nil {
					if m := check("+t:anon="+text, false, a.anon); m != "" {
						return m
					}
				}
			}
			return ""
		})
	}
	visit = func(prefix string) bool {
		if r.Expired() {
			return false
		}
		if prefix != "" && !seen[prefix] && strings.Trim(prefix, " ") == prefix {
			seen[prefix] = true
			one(prefix)
		}
		// structural tokens one deeper than all tokens
		if len(idx) == max+1 {
			return true
		}
		for i, tok := range tokens {
			if n := max - len(idx); n < 0 || n == 0 && (i > 7 || deep(idx)) {
				continue
			}
			idx = append(idx, i)
			if !visit(prefix + tok) {
				return false
			}
			idx = idx[:len(idx)-1]
		}
		return true
	}
	visit("")
	r.Count("grammar accepted", accepted)
	r.Count("grammar rejected", rejected)
	r.Count("grammar open", open)
}
