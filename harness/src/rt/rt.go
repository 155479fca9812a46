// Package rt owns the iteration order of Go maps.
//
// The instrumented build wraps the operand of every `for range <map>` of the
// code under test in rt.Map.  Outside of an exploration a map is iterated in
// one canonical order (so that a run is a deterministic function of its
// input); inside one, the explorer chooses the order.
package rt

import (
	"fmt"
	"iter"
	"os"
	"reflect"
	"runtime"
	"sort"
)

// Chooser picks one of n alternatives (0 is the default, canonical choice).
type Chooser interface {
	Choose(n int, site string) int
}

// Current is the active chooser (nil: canonical order).
var Current Chooser

// Reverse, when set (and no chooser is active), iterates every map in reverse
// canonical order.
var Reverse = os.Getenv("VERIF_MAP_ORDER") == "reverse"

// Ranges counts map iterations over maps with at least two entries.
var Ranges int

// keyString renders a key for canonical ordering.
func keyString(v reflect.Value, depth int) string {
	if depth > 6 {
		return "…"
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + ":" + keyString(v.Elem(), depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		// AST-like nodes: order by position.  loader.Package: by ID/PkgPath.
		if m := v.MethodByName("Pos"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
			var s string
			func() {
				defer func() { _ = recover() }()
				s = fmt.Sprintf("pos%020d", m.Call(nil)[0].Int())
			}()
			if s != "" {
				return s
			}
		}
		e := v.Elem()
		if e.Kind() == reflect.Struct {
			for _, n := range []string{"ID", "PkgPath", "Name"} {
				var f reflect.Value
				func() {
					defer func() { _ = recover() }()
					f = e.FieldByName(n)
				}()
				if f.IsValid() && f.Kind() == reflect.String {
					return "p:" + f.String()
				}
			}
		}
		return "ptr"
	case reflect.Struct:
		out := ""
		for i := 0; i < v.NumField(); i++ {
			out += keyString(v.Field(i), depth+1) + "\x00"
		}
		return out
	case reflect.Array:
		out := ""
		for i := 0; i < v.Len(); i++ {
			out += keyString(v.Index(i), depth+1) + "\x00"
		}
		return out
	default:
		return fmt.Sprint(v)
	}
}

func orderedKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	if sk, ok := any(keys).([]string); ok {
		sort.Strings(sk)
	} else {
		names := make([]string, len(keys))
		for i := range keys {
			names[i] = keyString(reflect.ValueOf(&keys[i]).Elem(), 0)
		}
		idx := make([]int, len(keys))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		keys = out
	}
	countRange()
	if Current != nil {
		_, file, line, _ := runtime.Caller(3)
		site := fmt.Sprintf("%s:%d", shortFile(file), line)
		// choose a permutation by choosing the next key among the remaining
		// ones; taking the first one is the default.
		rest := keys
		out := make([]K, 0, len(keys))
		for len(rest) > 1 {
			i := Current.Choose(len(rest), site)
			out = append(out, rest[i])
			n := make([]K, 0, len(rest)-1)
			n = append(n, rest[:i]...)
			n = append(n, rest[i+1:]...)
			rest = n
		}
		return append(out, rest...)
	}
	if Reverse {
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

func shortFile(f string) string {
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			return f[i+1:]
		}
	}
	return f
}

// Map iterates m in the order owned by the explorer.  It keeps the semantics
// of ranging over a map: entries removed during the iteration and not reached
// yet are not produced; entries added during it are not produced (which the
// language permits).
func Map[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range orderedKeys(map[K]V(m)) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// All is maps.All in the order that is being explored.
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return Map(m) }

// Keys and Values replace maps.Keys and maps.Values.
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range orderedKeys(map[K]V(m)) {
			if _, ok := m[k]; ok && !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range orderedKeys(map[K]V(m)) {
			if v, ok := m[k]; ok && !yield(v) {
				return
			}
		}
	}
}

// Choices is a deviation-bounded chooser: it replays Prefix and takes choice 0
// afterwards, recording the arity of every choice point.
type Choices struct {
	Prefix []int
	Arity  []int
	Taken  []int
	Sites  []string
	Bad    string // set when a prefix could not be replayed
}

func (c *Choices) Choose(n int, site string) int {
	i := len(c.Taken)
	ch := 0
	if i < len(c.Prefix) {
		ch = c.Prefix[i]
		if ch >= n {
			c.Bad = fmt.Sprintf("divergence while replaying choice %d at %s: %d of %d", i, site, ch, n)
			ch = 0
		}
	}
	c.Taken = append(c.Taken, ch)
	c.Arity = append(c.Arity, n)
	c.Sites = append(c.Sites, site)
	return ch
}

// ExploreResult summarises an exploration.
type ExploreResult struct {
	Executions int
	Points     int
	Complete   bool // every order within the bound was executed
	Diverged   string
}

// Explore runs body under every combination of choices with at most bound
// deviations from the default, in order of increasing deviations, up to
// maxExec executions.  body returns false to stop.
func Explore(bound, maxExec int, body func(c *Choices) bool) ExploreResult {
	return ExplorePart(bound, maxExec, 0, 1, body)
}

// ExplorePart is Explore for one part of n: the first deviations are dealt out
// over the parts (the default order runs in every part).
func ExplorePart(bound, maxExec, part, n int, body func(c *Choices) bool) ExploreResult {
	first := 0
	res := ExploreResult{Complete: true}
	type item struct {
		prefix []int
		devs   int
	}
	queue := []item{{nil, 0}}
	for len(queue) > 0 {
		it := queue[0]
		queue = queue[1:]
		if res.Executions >= maxExec {
			res.Complete = false
			return res
		}
		c := &Choices{Prefix: it.prefix}
		prev := Current
		Current = c
		cont := func() bool {
			defer func() { Current = prev }()
			return body(c)
		}()
		res.Executions++
		res.Points += len(c.Taken)
		if c.Bad != "" || len(c.Taken) < len(it.prefix) {
			res.Diverged = c.Bad
			if res.Diverged == "" {
				res.Diverged = "replay ended before the recorded prefix"
			}
			res.Complete = false
		}
		if !cont {
			res.Complete = false
			return res
		}
		if it.devs < bound {
			for i := len(it.prefix); i < len(c.Taken); i++ {
				for alt := 1; alt < c.Arity[i]; alt++ {
					if it.devs == 0 {
						first++
						if (first-1)%n != part {
							continue
						}
					}
					p := append(append([]int{}, c.Taken[:i]...), alt)
					queue = append(queue, item{p, it.devs + 1})
				}
			}
		}
	}
	return res
}

// countRange is not instrumented in the race build, unlike the generic
// functions that call it.
//
//go:noinline
func countRange() { Ranges++ }
