//go:build kinds || all

package coll

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// shape is an abstract value: what a container holds, without its history.
type shape struct {
	v    int // leaf key, error number, or variant
	tag  int // leaf identity that Eq must ignore
	kids []*shape
}

func (s *shape) copy() *shape {
	r := &shape{v: s.v, tag: s.tag}
	for _, k := range s.kids {
		r.kids = append(r.kids, k.copy())
	}
	return r
}

func shapeEq(a, b *shape) bool {
	if a.v != b.v || len(a.kids) != len(b.kids) {
		return false
	}
	for i := range a.kids {
		if !shapeEq(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

// kind ties a gost type X to shapes: mk builds a value of the shape by a
// generated history, text matches the front of a Display text against it.
type kind[X any] struct {
	name  string
	gen   func(t *pbt.T, n int) *shape
	tweak func(t *pbt.T, s *shape) *shape
	mk    func(t *pbt.T, s *shape) X
	text  func(s *shape, in string) (rest string, ok bool)
	hash  bool // the elements are shown in any order, which takes long to check
}

func (k kind[X]) most() int {
	if k.hash {
		return 3000
	}
	return 12000
}

func eat(in, lit string) (string, bool) {
	if strings.HasPrefix(in, lit) {
		return in[len(lit):], true
	}
	return in, false
}

const leafN = 60

// leafSpan is how many different leaves there are in this case.
var leafSpan = leafN

func leaf[X any](name string, f func(s *shape) X, text func(s *shape) string) kind[X] {
	span := func() int {
		if name == "U8" {
			return leafN
		}
		return leafSpan
	}
	return kind[X]{
		name: name,
		gen:  func(t *pbt.T, n int) *shape { return &shape{v: t.Intn(span()), tag: t.Intn(3)} },
		tweak: func(t *pbt.T, s *shape) *shape {
			r := s.copy()
			switch t.Intn(3) {
			case 0:
				r.tag = t.Intn(3)
			case 1:
				r.v = (r.v + 1) % span()
			default:
				r.v = t.Intn(span())
			}
			return r
		},
		mk:   func(t *pbt.T, s *shape) X { return f(s) },
		text: func(s *shape, in string) (string, bool) { return eat(in, text(s)) },
	}
}

var kI32 = leaf("I32", func(s *shape) g.I32 { return g.I32(s.v - leafN/2) }, func(s *shape) string { return strconv.Itoa(s.v - leafN/2) })
var kU8 = leaf("U8", func(s *shape) g.U8 { return g.U8(s.v) }, func(s *shape) string { return strconv.Itoa(s.v) })
var kStr = leaf("String", func(s *shape) g.String { return g.String(plain(s)) }, plain)
var kStr2 = leaf("String", func(s *shape) g.String { return g.String(tricky(s)) }, tricky)
var kItem = leaf("Item", func(s *shape) Item { return Item{s.v, s.tag} }, func(s *shape) string { return fmt.Sprintf("<%d.%d>", s.v, s.tag) })

// Mark has few texts for its many values, one of them empty.
type Mark struct{ K int }

func (a Mark) Cmp(b Mark) g.Ordering { return Item{K: a.K}.Cmp(Item{K: b.K}) }
func (a Mark) Eq(b Mark) g.Bool      { return a.K == b.K }
func (a Mark) Clone() Mark           { return a }
func (a Mark) Display() g.String     { return g.String(mark(a.K)) }
func (a Mark) Debug() g.String       { return a.Display() }
func (a Mark) ToString() g.String    { return a.Display() }

func mark(k int) string { return []string{"", "m", "m", "{}"}[k%4] }

var kMark = leaf("Mark", func(s *shape) Mark { return Mark{s.v} }, func(s *shape) string { return mark(s.v) })

func plain(s *shape) string {
	if s.v == 0 {
		return ""
	}
	return fmt.Sprintf("k%05dé", s.v)
}

// tricky texts look like punctuation and placeholders; ascending in v.
func tricky(s *shape) string {
	return fmt.Sprintf("%05d", s.v) + []string{"", "{}", ", ", "]", "%d", ": {", "\x00", "世界"}[s.v%8]
}

// seqKind covers Vec, VecDeque and LinkedList.
func seqKind[E any, X any](pre, post, name string, e kind[E], build func(t *pbt.T, xs []E) X) kind[X] {
	return kind[X]{
		name: name + "[" + e.name + "]",
		gen: func(t *pbt.T, n int) *shape {
			s := &shape{}
			for i, k := 0, shapeN(t, n); i < k; i++ {
				s.kids = append(s.kids, e.gen(t, min(3, n)))
			}
			return s
		},
		tweak: func(t *pbt.T, s *shape) *shape {
			r := s.copy()
			n := len(r.kids)
			switch t.Intn(5) {
			case 0:
				if n > 0 {
					i := t.Intn(n)
					r.kids = append(r.kids[:i], r.kids[i+1:]...)
				}
			case 1:
				r.kids = append(r.kids, e.gen(t, 2))
			case 2:
				if n > 1 {
					i, j := t.Intn(n), t.Intn(n)
					r.kids[i], r.kids[j] = r.kids[j], r.kids[i]
				}
			default:
				if n > 0 {
					i := t.Intn(n)
					if t.Bool() {
						i = n - 1
					}
					r.kids[i] = e.tweak(t, r.kids[i])
				}
			}
			return r
		},
		mk: func(t *pbt.T, s *shape) X {
			xs := make([]E, len(s.kids))
			for i, k := range s.kids {
				xs[i] = e.mk(t, k)
			}
			return build(t, xs)
		},
		text: func(s *shape, in string) (string, bool) {
			in, ok := eat(in, pre)
			for i, k := range s.kids {
				if i > 0 && ok {
					in, ok = eat(in, ", ")
				}
				if ok {
					in, ok = e.text(k, in)
				}
			}
			if !ok {
				return in, false
			}
			return eat(in, post)
		},
	}
}

// other is an element to hold for a while.
func other[E any](xs []E) E {
	var z E
	if len(xs) > 1 {
		return xs[0]
	}
	return z
}

func vecOf[E any](e kind[E]) kind[g.Vec[E]] {
	return seqKind("Vec[", "]", "Vec", e, func(t *pbt.T, xs []E) g.Vec[E] {
		var v g.Vec[E]
		switch t.Intn(4) {
		case 0:
			v = g.VecNew[E]()
		case 1:
			v = g.VecWithCapacity[E](g.USize(len(xs) + t.Intn(9)))
		case 2:
			v = g.VecWithLen[E](g.USize(len(xs)))
			for i, x := range xs {
				v.SetUnchecked(g.USize(i), x)
			}
			detourVec(t, &v, other(xs))
			return v
		}
		// insert in a generated order of positions
		if t.Bool() {
			for i := len(xs) - 1; i >= 0; i-- {
				v.Insert(0, xs[i])
			}
			detourVec(t, &v, other(xs))
			return v
		}
		for _, x := range xs {
			v.Push(x)
			if t.OneIn(4) {
				v.Push(x)
				v.Pop()
			}
		}
		detourVec(t, &v, other(xs))
		return v
	})
}

func dequeOf[E any](e kind[E]) kind[g.VecDeque[E]] {
	return seqKind("VecDeque[", "]", "VecDeque", e, func(t *pbt.T, xs []E) g.VecDeque[E] {
		v := g.VecDequeNew[E]()
		if t.Bool() {
			v = g.VecDequeWithCapacity[E](g.USize(t.Intn(len(xs) + 12)))
		}
		var z E
		for i, k := 0, t.Intn(12); i < k; i++ {
			v.PushBack(z)
			v.PopFront()
		}
		c := t.Intn(len(xs) + 1)
		for i, j := c, c; i > 0 || j < len(xs); {
			if i > 0 && (j >= len(xs) || t.Bool()) {
				i--
				v.PushFront(xs[i])
			} else {
				v.PushBack(xs[j])
				j++
			}
		}
		detourDeque(t, &v, other(xs))
		return v
	})
}

func listKind[E any](e kind[E]) kind[g.LinkedList[E]] {
	return seqKind("LinkedList[", "]", "LinkedList", e, func(t *pbt.T, xs []E) g.LinkedList[E] {
		l := mkList(t, xs)
		detourList(t, l, other(xs))
		return *l
	})
}

func optOf[E any](e kind[E]) kind[g.Option[E]] {
	return kind[g.Option[E]]{
		name: "Option[" + e.name + "]",
		gen: func(t *pbt.T, n int) *shape {
			s := &shape{}
			if t.Intn(4) > 0 {
				s.kids = append(s.kids, e.gen(t, n))
			}
			return s
		},
		tweak: func(t *pbt.T, s *shape) *shape {
			r := s.copy()
			if len(r.kids) == 0 {
				r.kids = append(r.kids, e.gen(t, 2))
			} else if t.OneIn(3) {
				r.kids = nil
			} else {
				r.kids[0] = e.tweak(t, r.kids[0])
			}
			return r
		},
		mk: func(t *pbt.T, s *shape) g.Option[E] {
			if len(s.kids) == 0 {
				o := g.None[E]()
				if t.Bool() {
					var z E
					o = g.Some(z)
					o.Take()
				}
				return o
			}
			x := e.mk(t, s.kids[0])
			if t.Bool() {
				o := g.None[E]()
				if t.Bool() {
					var z E
					o = g.Some(z)
					peek(t, &o)
				}
				o.Insert(x)
				return o
			}
			return g.Some(x)
		},
		text: func(s *shape, in string) (string, bool) {
			if len(s.kids) == 0 {
				return eat(in, "None")
			}
			in, ok := eat(in, "Some(")
			if ok {
				in, ok = e.text(s.kids[0], in)
			}
			if !ok {
				return in, false
			}
			return eat(in, ")")
		},
	}
}

var someErrs = []error{errors.New("broken pipe"), errors.New("{}, 1"), errors.New("")}

func resOf[E any](e kind[E]) kind[g.Result[E]] {
	return kind[g.Result[E]]{
		name: "Result[" + e.name + "]",
		gen: func(t *pbt.T, n int) *shape {
			if t.OneIn(3) {
				return &shape{v: t.Intn(len(someErrs))}
			}
			return &shape{v: -1, kids: []*shape{e.gen(t, n)}}
		},
		tweak: func(t *pbt.T, s *shape) *shape {
			if len(s.kids) == 0 || t.OneIn(4) {
				return &shape{v: t.Intn(len(someErrs))}
			}
			return &shape{v: -1, kids: []*shape{e.tweak(t, s.kids[0])}}
		},
		mk: func(t *pbt.T, s *shape) g.Result[E] {
			if len(s.kids) == 0 {
				return g.Err[E](someErrs[s.v])
			}
			return g.Ok(e.mk(t, s.kids[0]))
		},
		text: func(s *shape, in string) (string, bool) {
			if len(s.kids) == 0 {
				// the error's text, with or without the variant's name
				if rest, ok := eat(in, "Err("+someErrs[s.v].Error()+")"); ok {
					return rest, true
				}
				return eat(in, someErrs[s.v].Error())
			}
			in, ok := eat(in, "Ok(")
			if ok {
				in, ok = e.text(s.kids[0], in)
			}
			if !ok {
				return in, false
			}
			return eat(in, ")")
		},
	}
}

func pairOf[A, B any](a kind[A], b kind[B]) kind[g.Pair[A, B]] {
	return kind[g.Pair[A, B]]{
		name: "Pair[" + a.name + "," + b.name + "]",
		gen: func(t *pbt.T, n int) *shape {
			return &shape{kids: []*shape{a.gen(t, n), b.gen(t, n)}}
		},
		tweak: func(t *pbt.T, s *shape) *shape {
			r := s.copy()
			if t.Bool() {
				r.kids[0] = a.tweak(t, r.kids[0])
			} else {
				r.kids[1] = b.tweak(t, r.kids[1])
			}
			return r
		},
		mk: func(t *pbt.T, s *shape) g.Pair[A, B] {
			return g.Pair[A, B]{Key: a.mk(t, s.kids[0]), Value: b.mk(t, s.kids[1])}
		},
		text: func(s *shape, in string) (string, bool) {
			in, ok := eat(in, "Pair[")
			if ok {
				in, ok = a.text(s.kids[0], in)
			}
			if ok {
				in, ok = eat(in, ", ")
			}
			if ok {
				in, ok = b.text(s.kids[1], in)
			}
			if !ok {
				return in, false
			}
			return eat(in, "]")
		},
	}
}

// entryText matches the entries in order, or in any order.
func entriesText(kids []*shape, in string, ordered bool, entry func(*shape, string) (string, bool)) (string, bool) {
	used := make([]bool, len(kids))
	ok := true
	for i := range kids {
		if i > 0 {
			if in, ok = eat(in, ", "); !ok {
				return in, false
			}
		}
		if ordered {
			if in, ok = entry(kids[i], in); !ok {
				return in, false
			}
			continue
		}
		hit := false
		for j, k := range kids {
			if used[j] {
				continue
			}
			rest, ok := entry(k, in)
			if ok && (strings.HasPrefix(rest, ", ") == (i < len(kids)-1)) && (strings.HasPrefix(rest, "}") == (i == len(kids)-1)) {
				used[j], in, hit = true, rest, true
				break
			}
		}
		if !hit {
			return in, false
		}
	}
	return in, true
}

func setKind[K any, X any](name string, k kind[K], ordered bool, build func(t *pbt.T, ks []K, junk []K) X) kind[X] {
	norm := func(s *shape) *shape {
		seen := map[int]bool{}
		var r []*shape
		for _, x := range s.kids {
			if !seen[x.v] {
				seen[x.v] = true
				r = append(r, x)
			}
		}
		sort.Slice(r, func(i, j int) bool { return r[i].v < r[j].v })
		return &shape{kids: r}
	}
	return kind[X]{
		hash: !ordered,
		name: name + "[" + k.name + "]",
		gen: func(t *pbt.T, n int) *shape {
			s := &shape{}
			for i, c := 0, shapeN(t, n); i < c; i++ {
				s.kids = append(s.kids, k.gen(t, 0))
			}
			return norm(s)
		},
		tweak: func(t *pbt.T, s *shape) *shape {
			r := s.copy()
			if n := len(r.kids); n > 0 && t.Bool() {
				i := t.Intn(n)
				r.kids = append(r.kids[:i], r.kids[i+1:]...)
			}
			if t.Bool() {
				r.kids = append(r.kids, k.gen(t, 0))
			}
			return norm(r)
		},
		mk: func(t *pbt.T, s *shape) X {
			have := map[int]bool{}
			var ks, junk []K
			for _, x := range s.kids {
				have[x.v] = true
				ks = append(ks, k.mk(t, x))
			}
			for i, c := 0, t.Intn(12); i < c; i++ {
				if x := k.gen(t, 0); !have[x.v] {
					junk = append(junk, k.mk(t, x))
				}
			}
			for i := len(ks) - 1; i > 0; i-- {
				j := t.Intn(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
			return build(t, ks, junk)
		},
		text: func(s *shape, in string) (string, bool) {
			in, ok := eat(in, name+"{")
			if !ok {
				return in, false
			}
			if in, ok = entriesText(s.kids, in, ordered, k.text); !ok {
				return in, false
			}
			return eat(in, "}")
		},
	}
}

func mapKind[K, V any, X any](name string, k kind[K], v kind[V], ordered bool, build func(t *pbt.T, ks []K, vs []V, junk []K) X) kind[X] {
	norm := func(s *shape) *shape {
		seen := map[int]bool{}
		var r []*shape
		for _, x := range s.kids {
			if !seen[x.kids[0].v] {
				seen[x.kids[0].v] = true
				r = append(r, x)
			}
		}
		sort.Slice(r, func(i, j int) bool { return r[i].kids[0].v < r[j].kids[0].v })
		return &shape{kids: r}
	}
	return kind[X]{
		hash: !ordered,
		name: name + "[" + k.name + "," + v.name + "]",
		gen: func(t *pbt.T, n int) *shape {
			s := &shape{}
			for i, c := 0, shapeN(t, n); i < c; i++ {
				s.kids = append(s.kids, &shape{kids: []*shape{k.gen(t, 0), v.gen(t, min(3, n))}})
			}
			return norm(s)
		},
		tweak: func(t *pbt.T, s *shape) *shape {
			r := s.copy()
			n := len(r.kids)
			switch t.Intn(4) {
			case 0:
				if n > 0 {
					i := t.Intn(n)
					r.kids = append(r.kids[:i], r.kids[i+1:]...)
				}
			case 1:
				r.kids = append(r.kids, &shape{kids: []*shape{k.gen(t, 0), v.gen(t, 2)}})
			case 2: // the same value under another key
				if n > 0 {
					r.kids[t.Intn(n)].kids[0] = k.gen(t, 0)
				}
			default:
				if n > 0 {
					e := r.kids[t.Intn(n)]
					e.kids[1] = v.tweak(t, e.kids[1])
				}
			}
			return norm(r)
		},
		mk: func(t *pbt.T, s *shape) X {
			have := map[int]bool{}
			var ks, junk []K
			var vs []V
			for _, x := range s.kids {
				have[x.kids[0].v] = true
				ks = append(ks, k.mk(t, x.kids[0]))
				vs = append(vs, v.mk(t, x.kids[1]))
			}
			for i, c := 0, t.Intn(12); i < c; i++ {
				if x := k.gen(t, 0); !have[x.v] {
					junk = append(junk, k.mk(t, x))
				}
			}
			for i := len(ks) - 1; i > 0; i-- {
				j := t.Intn(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
				vs[i], vs[j] = vs[j], vs[i]
			}
			return build(t, ks, vs, junk)
		},
		text: func(s *shape, in string) (string, bool) {
			in, ok := eat(in, name+"{")
			if !ok {
				return in, false
			}
			in, ok = entriesText(s.kids, in, ordered, func(e *shape, in string) (string, bool) {
				in, ok := k.text(e.kids[0], in)
				if ok {
					in, ok = eat(in, ": ")
				}
				if !ok {
					return in, false
				}
				return v.text(e.kids[1], in)
			})
			if !ok {
				return in, false
			}
			return eat(in, "}")
		},
	}
}

func hashSetOf[K comparable](k kind[K]) kind[g.HashSet[K]] {
	return setKind("HashSet", k, false, func(t *pbt.T, ks, junk []K) g.HashSet[K] {
		s := g.HashSetNew[K]()
		if t.Bool() {
			s = g.HashSetWithCapacity[K](g.USize(t.Intn(40)))
		}
		for _, x := range junk {
			s.Insert(x)
		}
		for _, x := range ks {
			s.Insert(x)
		}
		for _, x := range junk {
			s.Remove(x)
		}
		detourSet(t, &s, ks, junk, func(x K) { s.Insert(x) }, func(x K) { s.Remove(x) })
		return s
	})
}

func treeSetOf[K g.Ord[K]](k kind[K]) kind[g.BTreeSet[K]] {
	return setKind("BTreeSet", k, true, func(t *pbt.T, ks, junk []K) g.BTreeSet[K] {
		s := g.BTreeSetNew[K]()
		for _, x := range junk {
			s.Insert(x)
		}
		for _, x := range ks {
			s.Insert(x)
		}
		for _, x := range junk {
			s.Remove(x)
		}
		detourSet(t, &s, ks, junk, func(x K) { s.Insert(x) }, func(x K) { s.Remove(x) })
		return s
	})
}

func pick[V any](t *pbt.T, vs []V, z V) V {
	if len(vs) == 0 || t.Bool() {
		return z
	}
	return vs[t.Intn(len(vs))]
}

func hashMapOf[K comparable, V any](k kind[K], v kind[V]) kind[g.HashMap[K, V]] {
	return mapKind("HashMap", k, v, false, func(t *pbt.T, ks []K, vs []V, junk []K) g.HashMap[K, V] {
		m := g.HashMapNew[K, V]()
		var z V
		for _, x := range junk {
			m.Insert(x, z)
		}
		for i, x := range ks {
			if t.OneIn(4) {
				m.Insert(x, z)
			}
			m.Insert(x, vs[i])
		}
		for _, x := range junk {
			m.Remove(x)
		}
		detourMap(t, &m, ks, func(i int) V { return vs[i] }, pick(t, vs, z), junk, func(k K, v V) { m.Insert(k, v) }, func(k K) { m.Remove(k) })
		return m
	})
}

func treeMapOf[K g.Ord[K], V any](k kind[K], v kind[V]) kind[g.BTreeMap[K, V]] {
	return mapKind("BTreeMap", k, v, true, func(t *pbt.T, ks []K, vs []V, junk []K) g.BTreeMap[K, V] {
		m := g.BTreeMapNew[K, V]()
		var z V
		for _, x := range junk {
			m.Insert(x, z)
		}
		for i, x := range ks {
			if t.OneIn(4) {
				m.Insert(x, z)
			}
			m.Insert(x, vs[i])
		}
		for _, x := range junk {
			m.Remove(x)
		}
		detourMap(t, &m, ks, func(i int) V { return vs[i] }, pick(t, vs, z), junk, func(k K, v V) { m.Insert(k, v) }, func(k K) { m.Remove(k) })
		return m
	})
}

// kindCase is a property body for one kind.
type kindCase struct {
	name string
	eq   func(t *pbt.T)
	disp func(t *pbt.T)
}

func kc[X any](k kind[X]) kindCase {
	return kindCase{k.name, func(t *pbt.T) { runEq(t, k) }, func(t *pbt.T) { runDisplay(t, k) }}
}

var kinds = []kindCase{
	kc(vecOf(kI32)), kc(vecOf(kStr2)), kc(vecOf(kItem)),
	kc(dequeOf(kI32)), kc(dequeOf(kStr2)), kc(dequeOf(kItem)),
	kc(listKind(kI32)), kc(listKind(kStr2)), kc(listKind(kItem)),
	kc(hashSetOf(kI32)), kc(hashSetOf(kStr)), kc(hashSetOf(kU8)),
	kc(treeSetOf(kI32)), kc(treeSetOf(kStr2)), kc(treeSetOf(kItem)),
	kc(hashMapOf(kI32, kItem)), kc(hashMapOf(kStr, kI32)),
	kc(treeMapOf(kI32, kItem)), kc(treeMapOf(kStr2, kStr2)), kc(treeMapOf(kItem, kU8)),
	kc(optOf(kI32)), kc(optOf(kStr2)), kc(optOf(kItem)),
	kc(resOf(kI32)), kc(resOf(kStr2)), kc(resOf(kItem)),
	kc(pairOf(kI32, kItem)), kc(pairOf(kStr2, kU8)),
	// nested
	kc(vecOf(vecOf(kItem))), kc(vecOf(optOf(kStr2))), kc(vecOf(pairOf(kI32, kStr2))), kc(vecOf(resOf(kI32))),
	kc(dequeOf(listKind(kStr2))), kc(dequeOf(hashSetOf(kI32))), kc(listKind(dequeOf(kItem))), kc(listKind(treeSetOf(kItem))),
	kc(optOf(vecOf(kStr2))), kc(resOf(hashMapOf(kI32, kItem))), kc(optOf(optOf(kI32))),
	kc(hashMapOf(kStr, vecOf(kItem))), kc(treeMapOf(kStr2, hashMapOf(kI32, kItem))), kc(treeMapOf(kI32, treeMapOf(kI32, kI32))),
	kc(hashMapOf(kU8, optOf(kI32))), kc(pairOf(vecOf(kI32), optOf(kItem))), kc(pairOf(pairOf(kI32, kStr2), dequeOf(kI32))),
	kc(treeMapOf(kI32, pairOf(kI32, kItem))),
	// texts with braces, brackets, commas and placeholders inside hash collections
	kc(hashSetOf(kStr2)), kc(hashMapOf(kStr2, kStr2)),
	// different elements with equal or empty texts
	kc(vecOf(kMark)), kc(dequeOf(kMark)), kc(listKind(kMark)), kc(hashSetOf(kMark)), kc(treeSetOf(kMark)), kc(hashMapOf(kMark, kMark)),
	kc(treeMapOf(kMark, kMark)), kc(optOf(kMark)), kc(resOf(kMark)), kc(pairOf(kMark, kMark)),
	kc(hashMapOf(kStr, hashSetOf(kI32))), kc(hashMapOf(kI32, treeMapOf(kI32, kStr2))),
}

// shapeN is how many elements a container of at most n gets.
func shapeN(t *pbt.T, n int) int {
	if leafSpan > leafN && n > leafN && !t.OneIn(4) {
		return n
	}
	return kidsN(t, n)
}

func kindSize(t *pbt.T, hi int) int {
	leafSpan = leafN
	if n, ok := t.DictLen(60); ok {
		return n
	}
	n, ok := t.Huge(100, hi)
	if !ok && t.OneIn(3000) {
		n, ok = hi-t.Intn(hi/8), true
	}
	if ok {
		leafSpan = 30000
		return n
	}
	if t.Thorough {
		return pbt.Pick(t, 3, 10, 30, 200)
	}
	return pbt.Pick(t, 3, 10, 30, 60)
}

// ---- C24 ----

var C24 = &pbt.Prop{
	ID:    "C24",
	Rule:  "one of 60 container types (Vec, VecDeque, LinkedList, sets, maps, Option, Result, Pair and nestings) with two abstract contents, the second equal to, a one-step tweak of, or independent of the first, each built twice by different generated histories; Eq must equal equality of contents, in both directions; non-trivial = non-empty contents",
	Quick: 400000, Thorough: 16000000,
	EnumN: len(kinds) * 20,
	Enum:  func(i int) []uint64 { return []uint64{uint64(i % len(kinds))} },
	Run: func(t *pbt.T) {
		k := kinds[t.Intn(len(kinds))]
		t.Label(k.name)
		k.eq(t)
	},
	Assumptions: []string{"element Eq is an equivalence; map and set keys are lawful", "errors inside Result are compared by identity or differ in text"},
}

func runEq[X any](t *pbt.T, k kind[X]) {
	a := k.gen(t, kindSize(t, k.most()))
	var b *shape
	switch t.Weighted(3, 5, 1) {
	case 0:
		b = a.copy()
	case 1:
		b = k.tweak(t, a)
	default:
		b = k.gen(t, 4)
	}
	if len(a.kids) > 0 {
		t.Nontrivial()
	}
	want := shapeEq(a, b)
	t.LabelIf(want, "equal")
	t.LabelIf(!want, "different")
	t.NoPanic("Eq of "+k.name, func() {
		x, x2, y := k.mk(t, a), k.mk(t, a), k.mk(t, b)
		if t.Tracing() {
			t.Logf("%s: %v vs %v, equal %v", k.name, x, y, want)
		}
		eq := func(x, y X) bool {
			e, ok := any(x).(g.Eq[X])
			if !ok {
				t.Failf("%s does not satisfy Eq", k.name)
			}
			return bool(e.Eq(y))
		}
		if got := eq(x, y); got != want {
			t.Failf("%s: (%v).Eq(%v) = %v, want %v", k.name, show(x), show(y), got, want)
		}
		if got := eq(y, x); got != want {
			t.Failf("%s: (%v).Eq(%v) = %v, want %v", k.name, show(y), show(x), got, want)
		}
		if !eq(x, x) {
			t.Failf("%s: (%v) is not Eq to itself", k.name, show(x))
		}
		if !eq(x, x2) || !eq(x2, x) {
			t.Failf("%s: (%v) and (%v) hold the same contents and are not Eq", k.name, show(x), show(x2))
		}
	})
}

func show(x any) string {
	if d, ok := x.(interface{ Display() g.String }); ok {
		s := ""
		if p, _ := pbt.Catch(func() { s = string(d.Display()) }); !p {
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			return s
		}
	}
	return fmt.Sprintf("%v", x)
}

// ---- C25 ----

var C25 = &pbt.Prop{
	ID:    "C25",
	Rule:  "one of 60 container types with generated contents (string elements that look like separators and placeholders included) built by two generated histories; Display is parsed against the contents, entries of hash collections in any order; non-trivial = non-empty contents",
	Quick: 300000, Thorough: 12000000,
	EnumN: len(kinds) * 20,
	Enum:  func(i int) []uint64 { return []uint64{uint64(i % len(kinds))} },
	Run: func(t *pbt.T) {
		k := kinds[t.Intn(len(kinds))]
		t.Label(k.name)
		k.disp(t)
	},
	Assumptions: []string{"elements implement Display", "the Display of an Err is the error's text, with or without Err(...) around it"},
}

func runDisplay[X any](t *pbt.T, k kind[X]) {
	a := k.gen(t, kindSize(t, k.most()))
	if len(a.kids) > 0 {
		t.Nontrivial()
	}
	t.NoPanic("Display of "+k.name, func() {
		for i := 0; i < 2; i++ {
			x := k.mk(t, a)
			d, ok := any(x).(g.Display[X])
			if !ok {
				t.Failf("%s does not satisfy Display", k.name)
			}
			text := string(d.Display())
			t.Logf("%s -> %q", k.name, text)
			rest, ok := k.text(a, text)
			if !ok || rest != "" {
				t.Failf("Display of %s with contents %s is %.2000q (mismatch at %.200q)", k.name, describe(a), text, rest)
			}
			if len(a.kids) > 2000 { // appending piece by piece takes long
				return
			}
			// it depends on the contents only and does not change them
			if again := string(d.Display()); again != text {
				if rest, ok := k.text(a, again); !ok || rest != "" {
					t.Failf("the second Display of %s is %q, the first %q", k.name, again, text)
				}
			}
			if f := string(g.Format("{}", x)); f != text {
				if rest, ok := k.text(a, f); !ok || rest != "" {
					t.Failf("Format(\"{}\") of %s gives %q, Display %q", k.name, f, text)
				}
			}
			switch dbg := any(x).(type) {
			case interface{ Debug() g.String }:
				dbg.Debug()
			case interface{ Debug() string }:
				dbg.Debug()
			default:
				t.Failf("%s has no Debug", k.name)
			}
		}
	})
}

func describe(s *shape) string {
	if len(s.kids) == 0 {
		return fmt.Sprintf("%d.%d", s.v, s.tag)
	}
	var p []string
	for i, k := range s.kids {
		if i > 40 {
			p = append(p, "...")
			break
		}
		p = append(p, describe(k))
	}
	return "(" + strings.Join(p, " ") + ")"
}

func init() { register(C24, C25) }
