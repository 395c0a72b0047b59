//go:build iters || all

package coll

import (
	"fmt"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// source is a collection as the iterator properties see it.
type source[T comparable] struct {
	name    string
	ordered bool
	content []T // in iteration order when ordered, as a multiset otherwise
	iter    func() g.Iterator[T]
	look    func() []T // the collection's contents without using its iterators
	grow    func()     // adds to the collection
}

func (s source[T]) same(a, b []T) bool {
	if s.ordered {
		return same(a, b)
	}
	return sameBag(a, b)
}

// seqSource makes a Vec, VecDeque or LinkedList.
func seqSource[T El[T]](t *pbt.T, d Dom[T], n int) source[T] {
	m := d.Slice(t, n)
	switch t.Intn(3) {
	case 0:
		v := g.VecNew[T]()
		if t.Bool() {
			v = g.VecWithCapacity[T](g.USize(n + t.Intn(5)))
		}
		for _, x := range m {
			v.Push(x)
		}
		detourVec(t, &v, d.Gen(t))
		return source[T]{"Vec", true, m, v.IntoIter, func() []T { return v.AsSlice() }, func() { v.Push(d.Mk(0)) }}
	case 1:
		v := mkDeque(t, d, m)
		detourDeque(t, &v, d.Gen(t))
		return source[T]{"VecDeque", true, m, v.IntoIter, func() []T {
			var r []T
			for i := g.USize(0); i < v.Len(); i++ {
				r = append(r, v.GetUnchecked(i))
			}
			return r
		}, func() { v.PushBack(d.Mk(0)) }}
	default:
		l := mkList(t, m)
		detourList(t, l, d.Gen(t))
		return source[T]{"LinkedList", true, m, l.IntoIter, func() []T {
			// rotate once through the public ends
			var r []T
			for i, n := g.USize(0), l.Len(); i < n; i++ {
				x := l.PopFront().Unwrap()
				r = append(r, x)
				l.PushBack(x)
			}
			return r
		}, func() { l.PushBack(d.Mk(0)) }}
	}
}

// keyedSource makes a set, or the keys or values of a map.
func keyedSource[T El[T]](t *pbt.T, d Dom[T], n int) source[T] {
	ks := distinct(d, d.Slice(t, n))
	more := d.Mk(d.N + 3)
	tag := 0
	vals := map[T]T{}
	val := func(k T) T {
		if v, ok := vals[k]; ok {
			return v
		}
		tag++
		vals[k] = d.Mk((tag * 7) % d.N)
		return vals[k]
	}
	var vs []T
	for _, k := range ks {
		vs = append(vs, val(k))
	}
	hash := func() *g.HashMap[T, T] {
		m := g.HashMapNew[T, T]()
		if t.Bool() {
			m = g.HashMapWithCapacity[T, T](g.USize(t.Intn(2*n + 1)))
		}
		for _, k := range ks {
			m.Insert(k, val(k))
		}
		detourMap(t, &m, ks, func(i int) T { return val(ks[i]) }, more, []T{more}, func(k, v T) { m.Insert(k, v) }, func(k T) { m.Remove(k) })
		return &m
	}
	switch t.Intn(6) {
	case 0:
		m := hash()
		return source[T]{"HashMap.Keys", false, ks, m.Keys, func() []T {
			var r []T
			for k := range m.AsMap() {
				r = append(r, k)
			}
			return r
		}, func() { m.Insert(more, more) }}
	case 1:
		m := hash()
		return source[T]{"HashMap.Values", false, vs, m.Values, func() []T {
			var r []T
			for _, v := range m.AsMap() {
				r = append(r, v)
			}
			return r
		}, func() { m.Insert(more, more) }}
	case 2:
		s := g.HashSetFromSlice(ks)
		detourSet(t, &s, ks, []T{more}, func(k T) { s.Insert(k) }, func(k T) { s.Remove(k) })
		return source[T]{"HashSet", false, ks, s.IntoIter, func() []T { return s.AsSlice() }, func() { s.Insert(more) }}
	case 3:
		m := mkTree(t, d, ks, val)
		return source[T]{"BTreeMap.Keys", true, ks, m.Keys, func() []T {
			var r []T
			for _, k := range ks {
				if m.ContainsKey(k) {
					r = append(r, k)
				}
			}
			if m.Len() != g.USize(len(r)) {
				return nil
			}
			return r
		}, func() { m.Insert(more, more) }}
	case 4:
		m := mkTree(t, d, ks, val)
		return source[T]{"BTreeMap.Values", true, vs, m.Values, func() []T {
			var r []T
			for _, k := range ks {
				if v := m.Get(k); v.IsSome() {
					r = append(r, v.Unwrap())
				}
			}
			return r
		}, func() { m.Insert(more, more) }}
	default:
		s := g.BTreeSetNew[T]()
		if t.Bool() {
			ks2 := clone(ks)
			for i := len(ks2) - 1; i > 0; i-- {
				j := t.Intn(i + 1)
				ks2[i], ks2[j] = ks2[j], ks2[i]
			}
			for _, k := range ks2 {
				s.Insert(k)
			}
		} else {
			for _, k := range ks {
				s.Insert(k)
			}
		}
		detourSet(t, &s, ks, []T{more}, func(k T) { s.Insert(k) }, func(k T) { s.Remove(k) })
		return source[T]{"BTreeSet", true, ks, s.IntoIter, func() []T {
			var r []T
			for _, k := range ks {
				if s.Contains(k) {
					r = append(r, k)
				}
			}
			return r
		}, func() { s.Insert(more) }}
	}
}

// pairSource makes the entry iterators of the maps, and sequences of pairs.
func pairSource[T El[T]](t *pbt.T, d Dom[T], n int) source[g.Pair[T, T]] {
	type P = g.Pair[T, T]
	ks := distinct(d, d.Slice(t, n))
	more := d.Mk(d.N + 3)
	var ps []P
	vals := map[T]T{}
	val := func(k T) T {
		if v, ok := vals[k]; ok {
			return v
		}
		vals[k] = d.Mk((d.Key(k)*5 + 3) % d.N)
		return vals[k]
	}
	for _, k := range ks {
		ps = append(ps, P{Key: k, Value: val(k)})
	}
	switch t.Intn(3) {
	case 0:
		m := g.HashMapNew[T, T]()
		for _, p := range ps {
			m.Insert(p.Key, p.Value)
		}
		detourMap(t, &m, ks, func(i int) T { return val(ks[i]) }, more, []T{more}, func(k, v T) { m.Insert(k, v) }, func(k T) { m.Remove(k) })
		return source[P]{"HashMap", false, ps, m.IntoIter, func() []P {
			var r []P
			for k, v := range m.AsMap() {
				r = append(r, P{Key: k, Value: v})
			}
			return r
		}, func() { m.Insert(more, more) }}
	case 1:
		m := mkTree(t, d, ks, val)
		return source[P]{"BTreeMap", true, ps, m.IntoIter, func() []P {
			var r []P
			for _, k := range ks {
				if v := m.Get(k); v.IsSome() {
					r = append(r, P{Key: k, Value: v.Unwrap()})
				}
			}
			return r
		}, func() { m.Insert(more, more) }}
	default:
		v := g.VecNew[P]()
		for _, p := range ps {
			v.Push(p)
		}
		return source[P]{"Vec of Pair", true, ps, v.IntoIter, func() []P { return v.AsSlice() }, func() { v.Push(P{}) }}
	}
}

func iterLen(t *pbt.T, hi int) int {
	if n, ok := t.Huge(200, hi); ok {
		return n
	}
	if t.Thorough {
		return t.Len(pbt.Pick(t, 1500, 1500, 1500, 12000))
	}
	return t.Len(200)
}

// iterCase runs the test body over a generated source of a generated
// element type.
func iterCase(t *pbt.T, hi int,
	ints func(*pbt.T, Dom[g.I32], source[g.I32]),
	strs func(*pbt.T, Dom[g.String], source[g.String]),
	items func(*pbt.T, Dom[Item], source[Item]),
	pairs func(*pbt.T, Dom[g.Pair[g.I32, g.I32]], source[g.Pair[g.I32, g.I32]]),
) {
	n := universe(t)
	l := iterLen(t, hi)
	keyed := t.Bool()
	switch t.Intn(4) {
	case 0:
		d := i32Dom(n)
		if keyed {
			ints(t, d, keyedSource(t, d, l))
		} else {
			ints(t, d, seqSource(t, d, l))
		}
	case 1:
		d := strDom(n)
		if keyed {
			strs(t, d, keyedSource(t, d, l))
		} else {
			strs(t, d, seqSource(t, d, l))
		}
	case 2:
		d := itemDom(n)
		if keyed {
			items(t, d, keyedSource(t, d, l))
		} else {
			items(t, d, seqSource(t, d, l))
		}
	default:
		d := i32Dom(n)
		pairs(t, pairDom(d), pairSource(t, d, l))
	}
}

var C21 = &pbt.Prop{
	ID:    "C21",
	Rule:  "a collection of one of 11 iterable kinds with 0..200 elements (thorough 1500) of I32, String, Item or Pair, iterated by two interleaved iterators for generated numbers of Next calls, then drained, collected to Vec or collected to LinkedList; non-trivial = at least two elements and a partially consumed iterator",
	Quick: 900000, Thorough: 36000000,
	Run: func(t *pbt.T) {
		iterCase(t, 140000, runIter[g.I32], runIter[g.String], runIter[Item], runIter[g.Pair[g.I32, g.I32]])
	},
	Assumptions: []string{"the collection is not modified while it is being iterated"},
}

// sameAsNext compares the order of a collected result with what Next yields,
// when collecting did not use the iterator up.
func sameAsNext[T comparable](t *pbt.T, s source[T], it g.Iterator[T], how string, rest []T) {
	was, done := drain(it, len(rest))
	if done && len(was) == len(rest) && sameBag(was, rest) && !same(was, rest) {
		t.Failf("%s: %s gives %s, Next yields %s", s.name, how, pbt.Show(rest), pbt.Show(was))
	}
}

func runIter[T comparable](t *pbt.T, d Dom[T], s source[T]) {
	t.Label(s.name)
	n := len(s.content)
	if t.Tracing() {
		t.Logf("%s of %s", s.name, pbt.Show(s.content))
	}
	t.NoPanic("iterating a "+s.name, func() {
		var its [2]g.Iterator[T]
		var got [2][]T
		for i := range its {
			its[i] = s.iter()
		}
		steps := t.Intn(n + 3)
		if t.OneIn(4) {
			steps = 0
		}
		for k := 0; k < steps; k++ {
			i := 0
			if t.OneIn(3) {
				i = 1
			}
			o := its[i].Next()
			if len(got[i]) >= n {
				if o.IsSome() {
					t.Failf("%s: Next yields %v after all %d elements", s.name, o.Unwrap(), n)
				}
				continue
			}
			if o.IsNone() {
				t.Failf("%s: Next is None after %d of %d elements", s.name, len(got[i]), n)
			}
			got[i] = append(got[i], o.Unwrap())
		}
		for i := range its {
			if n >= 2 && len(got[i]) > 0 && len(got[i]) < n {
				t.Nontrivial()
			}
			left := n - len(got[i])
			how := "Next"
			switch t.Intn(3) {
			case 0:
				rest, done := drain(its[i], left)
				if !done {
					t.Failf("%s: Next yields more than its %d elements: %s", s.name, n, pbt.Show(append(got[i], rest...)))
				}
				got[i] = append(got[i], rest...)
				for k := 0; k < 4; k++ {
					if its[i].Next().IsSome() {
						t.Failf("%s: Next yields an element after None", s.name)
					}
				}
			case 1:
				how = "CollectToVec"
				v := its[i].CollectToVec()
				rest := clone(v.AsSlice())
				if v.Len() != g.USize(left) || len(rest) != left {
					t.Failf("%s: CollectToVec after %d of %d elements returns %d: %s", s.name, len(got[i]), n, v.Len(), pbt.Show(rest))
				}
				sameAsNext(t, s, its[i], how, rest)
				got[i] = append(got[i], rest...)
				// the collected Vec belongs to the caller
				for k := g.USize(0); k < v.Len(); k++ {
					v.SetUnchecked(k, d.MapF(rest[k]))
				}
				v.Clear()
				v.Push(d.Mk(0))
			default:
				how = "CollectToLinkedList"
				l := its[i].CollectToLinkedList()
				if l.Len() != g.USize(left) {
					t.Failf("%s: CollectToLinkedList after %d of %d elements has Len %d", s.name, len(got[i]), n, l.Len())
				}
				// the collected list belongs to the caller, ends first
				if f, b := l.Front(), l.Back(); left > 0 {
					if f.IsNone() || b.IsNone() {
						t.Failf("%s: the list collected from %d elements has no front or no back", s.name, left)
					}
					was := *f.Unwrap()
					*f.Unwrap() = d.MapF(was)
					if now, _ := drain(s.iter(), n); !s.same(now, s.content) {
						t.Failf("%s: changing the front of the collected list changed it to %s", s.name, pbt.Show(now))
					}
					*f.Unwrap() = was
					was = *b.Unwrap()
					*b.Unwrap() = d.MapF(was)
					if now, _ := drain(s.iter(), n); !s.same(now, s.content) {
						t.Failf("%s: changing the back of the collected list changed it to %s", s.name, pbt.Show(now))
					}
					*b.Unwrap() = was
				}
				if t.Bool() {
					l.PushBack(d.Mk(0))
					l.PopBack()
				}
				rest := listElems(l, left)
				sameAsNext(t, s, its[i], how, rest)
				got[i] = append(got[i], rest...)
				for l.Len() > 0 { // empty it
					if l.PopBack().IsNone() {
						break
					}
				}
				l.PushFront(d.Mk(0))
			}
			t.Label("finished by " + how)
			if !s.same(got[i], s.content) {
				t.Failf("%s: %d by Next and the rest by %s give %s, want %s", s.name, n-left, how, pbt.Show(got[i]), pbt.Show(s.content))
			}
		}
	})
	if now := s.look(); !s.same(now, s.content) {
		t.Failf("iterating changed the %s from %s to %s", s.name, pbt.Show(s.content), pbt.Show(now))
	}
	// and a fresh iterator still sees it all
	fresh, done := drain(s.iter(), n)
	if !done || !s.same(fresh, s.content) {
		t.Failf("a fresh iterator of the %s gives %s, want %s", s.name, pbt.Show(fresh), pbt.Show(s.content))
	}
	// None for ever, whatever becomes of the collection
	t.NoPanic("growing a "+s.name, func() {
		it := s.iter()
		drain(it, n)
		s.grow()
		if o := it.Next(); o.IsSome() {
			t.Failf("%s: an iterator that had returned None yields %v once the collection has grown", s.name, o.Unwrap())
		}
	})
}

var C22 = &pbt.Prop{
	ID:    "C22",
	Rule:  "a chain of 0..5 steps out of Next, Map, Filter and Rev, ended by Fold, CollectToVec, CollectToLinkedList or Next, over a collection of one of 11 iterable kinds with 0..200 elements (thorough 1500), compared with the same chain on a list; for hash collections as multisets; non-trivial = a chain of two or more steps over two or more elements",
	Quick: 300000, Thorough: 12000000,
	Run: func(t *pbt.T) {
		iterCase(t, 20000, runChain[g.I32], runChain[g.String], runChain[Item], runChain[g.Pair[g.I32, g.I32]])
	},
	Assumptions: []string{"the collection is not modified while it is being iterated", "only the newest iterator of a chain is used"},
}

func runChain[T comparable](t *pbt.T, d Dom[T], s source[T]) {
	t.Label(s.name)
	desc := s.name
	left := clone(s.content)
	steps := t.Range(1, 5)
	if t.OneIn(6) {
		steps = 0 // end right away
	}
	if len(left) >= 2 && steps >= 2 {
		t.Nontrivial()
	}
	type call struct {
		what string
		in   []T
		seen *[]T
	}
	var calls []call
	same := s.same
	t.NoPanic("an iterator chain over a "+s.name, func() {
		it := s.iter()
		for k := 0; k < steps; k++ {
			switch t.Weighted(4, 3, 3, 3) {
			case 0:
				n := t.Intn(len(left) + 2)
				if t.Bool() || !s.ordered && len(left) > 5000 {
					n = t.Intn(3)
				}
				desc += fmt.Sprintf(".Next*%d", n)
				for i := 0; i < n; i++ {
					o := it.Next()
					if len(left) == 0 {
						if o.IsSome() {
							t.Failf("%s: Next yields %v, want None", desc, o.Unwrap())
						}
						continue
					}
					if o.IsNone() {
						t.Failf("%s: Next is None with %d elements left", desc, len(left))
					}
					x := o.Unwrap()
					at := 0
					if !s.ordered {
						for at = 0; at < len(left) && left[at] != x; at++ {
						}
					}
					if at >= len(left) || left[at] != x {
						t.Failf("%s: Next yields %v; the elements left are %s", desc, x, pbt.Show(left))
					}
					if at == 0 {
						left = left[1:]
					} else {
						left = append(clone(left[:at]), left[at+1:]...)
					}
				}
			case 1:
				desc += ".Map"
				f := d.MapF
				if t.OneIn(4) {
					// not injective
					z := d.Mk(0)
					f = func(x T) T {
						if d.Key(x)%2 == 0 {
							return z
						}
						return x
					}
				}
				seen := &[]T{}
				calls = append(calls, call{desc, left, seen})
				it = it.Map(func(x T) T { *seen = append(*seen, x); return f(x) })
				r := make([]T, len(left))
				for i, x := range left {
					r[i] = f(x)
				}
				left = r
			case 2:
				mo, w := t.Range(1, 4), t.Intn(4)
				desc += fmt.Sprintf(".Filter(key%%%d!=%d)", mo, w)
				p := func(x T) bool { return absInt(d.Key(x))%mo != w }
				seen := &[]T{}
				calls = append(calls, call{desc, left, seen})
				it = it.Filter(func(x T) g.Bool { *seen = append(*seen, x); return g.Bool(p(x)) })
				left = filter(left, p)
			default:
				desc += ".Rev"
				old := it
				it = it.Rev()
				if !s.ordered && k == steps-1 {
					// hash collections: opposite to what Next on the old
					// iterator yields, if it still yields anything
					v := it.CollectToVec()
					got := clone(v.AsSlice())
					was, done := drain(old, len(left))
					if done && len(was) == len(left) && len(was) > 0 && sameBag(got, was) {
						t.Label("hash Rev order compared")
						for i := range got {
							if got[i] != was[len(was)-1-i] {
								t.Failf("%s yields %s, not the opposite of %s", desc, pbt.Show(got), pbt.Show(was))
							}
						}
					}
					if !sameBag(got, left) {
						t.Failf("%s.CollectToVec = %s, want %s in some order", desc, pbt.Show(got), pbt.Show(left))
					}
					it = v.IntoIter()
				}
				left = rev(left)
			}
		}
		switch t.Intn(4) {
		case 0:
			desc += ".Fold"
			init := d.Mk(0)
			acc, broken := init, ""
			var seen []T
			got := it.Fold(init, func(a, b T) T {
				if a != acc && broken == "" {
					broken = fmt.Sprintf("call %d got accumulator %v, want %v", len(seen), a, acc)
				}
				seen = append(seen, b)
				acc = d.Comb(a, b)
				return acc
			})
			if broken != "" {
				t.Failf("%s: %s", desc, broken)
			}
			if !same(seen, left) {
				t.Failf("%s folded %s, want %s", desc, pbt.Show(seen), pbt.Show(left))
			}
			if got != acc {
				t.Failf("%s = %v, want %v", desc, got, acc)
			}
		case 1:
			desc += ".CollectToVec"
			v := it.CollectToVec()
			if !same(v.AsSlice(), left) {
				t.Failf("%s = %s, want %s", desc, pbt.Show(v.AsSlice()), pbt.Show(left))
			}
		case 2:
			desc += ".CollectToLinkedList"
			l := it.CollectToLinkedList()
			if l.Len() != g.USize(len(left)) {
				t.Failf("%s has Len %d, want %d", desc, l.Len(), len(left))
			}
			if got := listElems(l, len(left)); !same(got, left) {
				t.Failf("%s = %s, want %s", desc, pbt.Show(got), pbt.Show(left))
			}
		default:
			desc += ".Next..."
			got, done := drain(it, len(left))
			if !done || !same(got, left) {
				t.Failf("%s yields %s (ended %v), want %s", desc, pbt.Show(got), done, pbt.Show(left))
			}
			if it.Next().IsSome() {
				t.Failf("%s yields an element after None", desc)
			}
		}
	})
	for _, c := range calls {
		if !same(*c.seen, c.in) && !sameBag(*c.seen, c.in) {
			t.Failf("%s: the callback of %s was applied to %s, want once to each of %s", desc, c.what, pbt.Show(*c.seen), pbt.Show(c.in))
		}
	}
	if now := s.look(); !s.same(now, s.content) {
		t.Failf("%s changed the %s from %s to %s", desc, s.name, pbt.Show(s.content), pbt.Show(now))
	}
	if t.Tracing() {
		t.Logf("%s over %s", desc, pbt.Show(s.content))
	}
}

func init() { register(C21, C22) }
