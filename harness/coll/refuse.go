//go:build refuse || all

package coll

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// The fuse: every method of Live and every function handed to gost counts it
// down, and the call that finds it at zero panics.

var (
	fuse  = -1
	blown bool
)

type boomT struct{}

func (boomT) String() string { return "boom" }

var boom any = boomT{}

func tick() {
	if fuse < 0 {
		return
	}
	if fuse == 0 {
		fuse, blown = -1, true
		panic(boom)
	}
	fuse--
}

// poisonK is the key no comparison survives.
const poisonK = -7

type Live struct{ K, Tag int }

func (a Live) poison(b Live) {
	if a.K == poisonK || b.K == poisonK {
		blown = true
		panic(boom)
	}
}

func (a Live) Cmp(b Live) g.Ordering {
	a.poison(b)
	tick()
	switch {
	case a.K < b.K:
		return g.OrderingLess
	case a.K > b.K:
		return g.OrderingGreater
	}
	return g.OrderingEqual
}

func (a Live) Eq(b Live) g.Bool   { a.poison(b); tick(); return a.K == b.K }
func (a Live) Clone() Live        { tick(); return a }
func (a Live) Display() g.String  { tick(); return g.String(fmt.Sprintf("<%d.%d>", a.K, a.Tag)) }
func (a Live) Debug() g.String    { return a.Display() }
func (a Live) ToString() g.String { return a.Display() }

// blast runs f with the fuse set to k and reports whether the fuse blew. A
// panic of the caller's own function must reach the caller, and there must be
// no other.
func blast(t *pbt.T, what string, k int, f func()) bool {
	fuse, blown = k, false
	p, v := pbt.Catch(f)
	fuse = -1
	switch {
	case blown && !p:
		t.Failf("%s: a panic of the caller's function (call %d) did not reach the caller", what, k)
	case p && !blown:
		t.Failf("%s panicked: %v", what, v)
	}
	t.Logf("%s with call %d of the caller's code panicking: interrupted %v", what, k, blown)
	t.LabelIf(blown, "interrupted "+what)
	if blown {
		t.Nontrivial()
	}
	return blown
}

func liveSlice(t *pbt.T, n, universe int) []Live {
	r := make([]Live, n)
	for i := range r {
		r[i] = Live{t.Intn(universe), i + 1}
	}
	return r
}

func liveLess(xs []Live) func(i, j int) bool {
	return func(i, j int) bool {
		if xs[i].K != xs[j].K {
			return xs[i].K < xs[j].K
		}
		return xs[i].Tag < xs[j].Tag
	}
}

func liveBag(xs []Live) []Live {
	r := clone(xs)
	sort.Slice(r, liveLess(r))
	return r
}

// only fails when xs holds an element that is not one of from.
func only(t *pbt.T, what string, xs []Live, from ...[]Live) {
	ok := map[Live]bool{}
	for _, f := range from {
		for _, x := range f {
			ok[x] = true
		}
	}
	for _, x := range xs {
		if !ok[x] {
			t.Failf("%s left %v, which was never there", what, x)
		}
	}
}

var C49 = &pbt.Prop{
	ID:    "C49",
	Rule:  "a collection, Option, Result or Pair of 0..60 elements whose methods, like every function handed to it, panic at a generated call, under every operation that calls them; ordered and hashed keys that cannot be compared; indices at and beyond the end up to 2^64-1 for Insert and Swap; capacities from 2^50 up; divisors of zero: each panics through, reading operations and refused requests change nothing, sorts keep every element, the rest keep only elements that were there, a tree its key count, and all are usable afterwards; non-trivial = the panic happened",
	Quick: 600000, Thorough: 24000000,
	Run: func(t *pbt.T) {
		fuse, blown = -1, false
		switch t.Weighted(4, 3, 4, 3, 3, 3, 2, 1, 2) {
		case 0:
			refuseReads(t)
		case 1:
			refuseAlgebra(t)
		case 2:
			refuseWrites(t)
		case 3:
			refuseKeys(t)
		case 4:
			refuseIndex(t)
		case 5:
			refuseEnums(t)
		case 6:
			refuseRoom(t)
		case 7:
			refuseZero(t)
		default:
			refuseTree(t)
		}
	},
}

func init() { register(C49) }

// held is a collection of Live as this property sees it.
type held struct {
	name  string
	look  func() []Live
	reads map[string]func()
}

func liveVec(m []Live) g.Vec[Live] {
	v := g.VecNew[Live]()
	for _, x := range m {
		v.Push(x)
	}
	return v
}

func liveDeque(t *pbt.T, m []Live) g.VecDeque[Live] {
	v := g.VecDequeWithCapacity[Live](g.USize(t.Intn(len(m) + 9)))
	for i, k := 0, t.Intn(12); i < k; i++ {
		v.PushBack(Live{-1, -1})
		v.PopFront()
	}
	c := t.Intn(len(m) + 1)
	for i, j := c, c; i > 0 || j < len(m); {
		if i > 0 && (j >= len(m) || t.Bool()) {
			i--
			v.PushFront(m[i])
		} else {
			v.PushBack(m[j])
			j++
		}
	}
	return v
}

func dequeElems[T any](v *g.VecDeque[T]) []T {
	r := []T{}
	for i := g.USize(0); i < v.Len(); i++ {
		r = append(r, v.GetUnchecked(i))
	}
	return r
}

// setOf returns the elements of m with distinct keys, the first of each.
func setOf(m []Live) []Live {
	seen := map[int]bool{}
	r := []Live{}
	for _, x := range m {
		if !seen[x.K] {
			seen[x.K] = true
			r = append(r, x)
		}
	}
	return r
}

func iterReads(reads map[string]func(), it func() g.Iterator[Live]) {
	reads["Map"] = func() { it().Map(func(x Live) Live { tick(); return x }).CollectToVec() }
	reads["Filter"] = func() { it().Filter(func(x Live) g.Bool { tick(); return x.K%2 == 0 }).CollectToVec() }
	reads["Fold"] = func() { it().Fold(Live{}, func(a, b Live) Live { tick(); return b }) }
}

// byKey orders by key and counts the fuse down.
func byKey(a, b Live) g.Ordering { tick(); return a.rank(b) }

func (a Live) rank(b Live) g.Ordering {
	switch {
	case a.K < b.K:
		return g.OrderingLess
	case a.K > b.K:
		return g.OrderingGreater
	}
	return g.OrderingEqual
}

// refuseReads: an operation that only reads, interrupted, changes nothing.
func refuseReads(t *pbt.T) {
	n := t.Len(60)
	m := liveSlice(t, n, pbt.Pick(t, 3, 10, 1000))
	probe := Live{t.Intn(1000), 0}
	if n > 0 && t.Bool() {
		probe = m[t.Intn(n)]
	}
	var h held
	h.reads = map[string]func(){}
	t.NoPanic("building", func() {
		switch t.Intn(7) {
		case 0:
			if t.Bool() {
				sort.Slice(m, liveLess(m))
			}
			v, w := liveVec(m), liveVec(m)
			h = held{"Vec", func() []Live { return append(clone(v.AsSlice()), w.AsSlice()...) }, map[string]func(){
				"Clone": func() { v.Clone() }, "Display": func() { v.Display() }, "Debug": func() { v.Debug() },
				"Eq": func() { v.Eq(w) }, "Contains": func() { v.Contains(probe) }, "BinarySearch": func() { v.BinarySearch(probe) },
				"BinarySearchBy": func() { v.BinarySearchBy(func(x Live) g.Ordering { return byKey(x, probe) }) },
			}}
			iterReads(h.reads, v.IntoIter)
		case 1:
			if t.Bool() {
				sort.Slice(m, liveLess(m))
			}
			v, w := liveDeque(t, m), liveDeque(t, m)
			h = held{"VecDeque", func() []Live { return append(dequeElems(&v), dequeElems(&w)...) }, map[string]func(){
				"Clone": func() { v.Clone() }, "Display": func() { v.Display() }, "Debug": func() { v.Debug() },
				"Eq": func() { v.Eq(w) }, "Contains": func() { v.Contains(probe) }, "BinarySearch": func() { v.BinarySearch(probe) },
				"BinarySearchBy": func() { v.BinarySearchBy(func(x Live) g.Ordering { return byKey(x, probe) }) },
			}}
			iterReads(h.reads, v.IntoIter)
		case 2:
			v, w := g.LinkedListNew[Live](), g.LinkedListNew[Live]()
			for _, x := range m {
				v.PushBack(x)
				w.PushBack(x)
			}
			h = held{"LinkedList", func() []Live { return append(listOf(v, n+5), listOf(w, n+5)...) }, map[string]func(){
				"Clone": func() { v.Clone() }, "Display": func() { v.Display() }, "Debug": func() { v.Debug() },
				"Eq": func() { v.Eq(w) },
			}}
			iterReads(h.reads, v.IntoIter)
		case 3:
			v, w := g.HashMapNew[Live, Live](), g.HashMapNew[Live, Live]()
			for _, x := range m {
				v.Insert(x, Live{x.K, -x.Tag})
				w.Insert(x, Live{x.K, -x.Tag})
			}
			h = held{"HashMap", func() []Live {
				var r []Live
				for _, q := range []g.HashMap[Live, Live]{v, w} {
					s := []Live{}
					for k, x := range q.AsMap() {
						s = append(s, k, x)
					}
					r = append(r, liveBag(s)...)
				}
				return r
			}, map[string]func(){
				"Clone": func() { v.Clone() }, "Display": func() { v.Display() }, "Debug": func() { v.Debug() },
				"Eq": func() { v.Eq(w) },
			}}
			iterReads(h.reads, v.Keys)
			h.reads["Values.Map"] = func() { v.Values().Map(func(x Live) Live { tick(); return x }).CollectToVec() }
		case 4:
			v, w := g.HashSetNew[Live](), g.HashSetNew[Live]()
			for _, x := range m {
				v.Insert(x)
				w.Insert(x)
			}
			h = held{"HashSet", func() []Live { return append(liveBag(v.AsSlice()), liveBag(w.AsSlice())...) }, map[string]func(){
				"Clone": func() { v.Clone() }, "Display": func() { v.Display() }, "Debug": func() { v.Debug() },
				"Eq": func() { v.Eq(w) },
			}}
			iterReads(h.reads, v.IntoIter)
		case 5:
			m = setOf(m)
			v, w := g.BTreeMapNew[Live, Live](), g.BTreeMapNew[Live, Live]()
			for _, x := range m {
				v.Insert(x, Live{x.K, -x.Tag})
				w.Insert(x, Live{x.K, -x.Tag})
			}
			h = held{"BTreeMap", func() []Live {
				var r []Live
				for _, q := range []*g.BTreeMap[Live, Live]{&v, &w} {
					it := q.IntoIter()
					for e := it.Next(); e.IsSome(); e = it.Next() {
						r = append(r, e.Unwrap().Key, e.Unwrap().Value)
					}
				}
				return r
			}, map[string]func(){
				"Display": func() { v.Display() }, "Debug": func() { v.Debug() },
				"Eq": func() { v.Eq(w) }, "Get": func() { v.Get(probe) }, "ContainsKey": func() { v.ContainsKey(probe) },
			}}
			iterReads(h.reads, v.Keys)
			h.reads["Values.Map"] = func() { v.Values().Map(func(x Live) Live { tick(); return x }).CollectToVec() }
		default:
			m = setOf(m)
			v, w := g.BTreeSetNew[Live](), g.BTreeSetNew[Live]()
			for _, x := range m {
				v.Insert(x)
				w.Insert(x)
			}
			h = held{"BTreeSet", func() []Live {
				a, _ := drain(v.IntoIter(), n+5)
				b, _ := drain(w.IntoIter(), n+5)
				return append(a, b...)
			}, map[string]func(){
				"Clone": func() { v.Clone() }, "Display": func() { v.Display() }, "Debug": func() { v.Debug() },
				"Eq": func() { v.Eq(w) }, "Contains": func() { v.Contains(probe) },
			}}
			iterReads(h.reads, v.IntoIter)
		}
	})
	names := make([]string, 0, len(h.reads))
	for s := range h.reads {
		names = append(names, s)
	}
	sort.Strings(names)
	before := fmt.Sprint(h.look())
	for i := 0; i < 3; i++ {
		s := pbt.Pick(t, names...)
		blast(t, h.name+"."+s, t.Intn(pbt.Pick(t, 3, 10, 2*n+3)), h.reads[s])
		after := ""
		t.NoPanic("reading "+h.name+" after an interrupted "+s, func() { after = fmt.Sprint(h.look()) })
		if after != before {
			t.Failf("%s.%s, interrupted by a panic of the caller's function, changed %s to %s", h.name, s, before, after)
		}
	}
}

// refuseAlgebra: set operations interrupted, operands untouched.
func refuseAlgebra(t *pbt.T) {
	n := t.Len(40)
	a := setOf(liveSlice(t, n, pbt.Pick(t, 10, 60)))
	b := setOf(liveSlice(t, t.Len(40), pbt.Pick(t, 10, 60)))
	v, w := g.BTreeSetNew[Live](), g.BTreeSetNew[Live]()
	t.NoPanic("building", func() {
		for _, x := range a {
			v.Insert(x)
		}
		for _, x := range b {
			w.Insert(x)
		}
	})
	look := func() string {
		x, _ := drain(v.IntoIter(), 99)
		y, _ := drain(w.IntoIter(), 99)
		return fmt.Sprint(x, y, v.Len(), w.Len())
	}
	ops := []func(){
		func() { v.Union(w) }, func() { v.Intersection(w) }, func() { v.SymmetricDifference(w) },
		func() { v.IsSubset(w) }, func() { v.IsSuperset(w) }, func() { v.IsDisjoint(w) },
	}
	names := []string{"Union", "Intersection", "SymmetricDifference", "IsSubset", "IsSuperset", "IsDisjoint"}
	before := look()
	for i := 0; i < 3; i++ {
		k := t.Intn(len(ops))
		blast(t, "BTreeSet."+names[k], t.Intn(pbt.Pick(t, 3, 20, 200)), ops[k])
		if now := look(); now != before {
			t.Failf("BTreeSet.%s, interrupted by a panicking comparison, changed its operands from %s to %s", names[k], before, now)
		}
	}
}

// refuseWrites: an interrupted change leaves a usable collection that holds
// nothing new; a sort keeps every element.
func refuseWrites(t *pbt.T) {
	n := t.Len(60)
	m := liveSlice(t, n, pbt.Pick(t, 3, 10, 1000))
	fill := Live{5000, 5000}
	sorts := false
	k := t.Intn(pbt.Pick(t, 2, 10, n+2, 3*n+3))
	keep := func(x Live) g.Bool { tick(); return x.K%3 != 0 }
	mk := func() Live { tick(); return fill }
	key := func(x Live) any { tick(); return x.K }
	if t.OneIn(4) {
		refuseHeap(t, m, k)
		return
	}
	what := ""
	deque := t.Bool()
	var look func() []Live
	var use func(x Live) // pushes x at the back and takes it out again
	t.NoPanic("building", func() {
		if deque {
			v := liveDeque(t, m)
			what, sorts = refuseDequeOp(t, &v, keep, mk, key, fill, k)
			look = func() []Live { return dequeElems(&v) }
			use = func(x Live) {
				l := v.Len()
				v.PushBack(x)
				if v.Len() != l+1 || v.Back().Unwrap() != x || v.PopBack().Unwrap() != x || v.Len() != l {
					t.Failf("after %s was interrupted, PushBack then PopBack misbehave", what)
				}
				v.PushFront(x)
				if v.Len() != l+1 || v.Front().Unwrap() != x || v.PopFront().Unwrap() != x || v.Len() != l {
					t.Failf("after %s was interrupted, PushFront then PopFront misbehave", what)
				}
			}
		} else {
			v := liveVec(m)
			what, sorts = refuseVecOp(t, &v, keep, mk, key, fill, k)
			look = func() []Live { return clone(v.AsSlice()) }
			use = func(x Live) {
				l := v.Len()
				v.Push(x)
				if v.Len() != l+1 || v.Pop().Unwrap() != x || v.Len() != l {
					t.Failf("after %s was interrupted, Push then Pop misbehave", what)
				}
			}
		}
	})
	var now []Live
	t.NoPanic("reading after an interrupted "+what, func() { now = look() })
	switch {
	case len(now) > n:
		t.Failf("%s, interrupted, made %d elements into %d", what, n, len(now))
	case sorts && blown && fmt.Sprint(liveBag(now)) != fmt.Sprint(liveBag(m)):
		t.Failf("%s, interrupted by a panicking comparison, lost or duplicated elements: %v became %v", what, m, now)
	case sorts && len(now) != n:
		t.Failf("%s made %d elements into %d", what, n, len(now))
	case strings.Contains(what, "Fill"):
		// filling changes elements, not how many there are
		if len(now) != n {
			t.Failf("%s, interrupted, made %d elements into %d", what, n, len(now))
		}
		for i, x := range now {
			if x != m[i] && x != fill {
				t.Failf("%s, interrupted, changed element %d from %v to %v", what, i, m[i], x)
			}
		}
	}
	only(t, what, now, m, []Live{fill})
	t.NoPanic("using the collection after an interrupted "+what, func() {
		for i := 0; i < 3; i++ {
			use(Live{9000 + i, 9000 + i})
		}
		if got := look(); fmt.Sprint(got) != fmt.Sprint(now) {
			t.Failf("after %s was interrupted, pushing and popping changed %v to %v", what, now, got)
		}
	})
}

func refuseVecOp(t *pbt.T, v *g.Vec[Live], keep func(Live) g.Bool, mk func() Live, key func(Live) any, fill Live, k int) (what string, sorts bool) {
	ops := []struct {
		name  string
		sorts bool
		f     func()
	}{
		{"Vec.Retain", false, func() { v.Retain(keep) }},
		{"Vec.Dedup", false, func() { v.Dedup() }},
		{"Vec.DedupByKey", false, func() { v.DedupByKey(key) }},
		{"Vec.Fill", false, func() { v.Fill(fill) }},
		{"Vec.FillWith", false, func() { v.FillWith(mk) }},
		{"Vec.Sort", true, func() { v.Sort() }},
		{"Vec.SortBy", true, func() { v.SortBy(byKey) }},
		{"Vec.SortUnstable", true, func() { v.SortUnstable() }},
		{"Vec.SortUnstableBy", true, func() { v.SortUnstableBy(byKey) }},
	}
	o := ops[t.Intn(len(ops))]
	blast(t, o.name, k, o.f)
	return o.name, o.sorts
}

func refuseDequeOp(t *pbt.T, v *g.VecDeque[Live], keep func(Live) g.Bool, mk func() Live, key func(Live) any, fill Live, k int) (what string, sorts bool) {
	ops := []struct {
		name  string
		sorts bool
		f     func()
	}{
		{"VecDeque.Retain", false, func() { v.Retain(keep) }},
		{"VecDeque.Dedup", false, func() { v.Dedup(key) }},
		{"VecDeque.Fill", false, func() { v.Fill(fill) }},
		{"VecDeque.FillWith", false, func() { v.FillWith(mk) }},
		{"VecDeque.Sort", true, func() { v.Sort() }},
		{"VecDeque.SortBy", true, func() { v.SortBy(byKey) }},
		{"VecDeque.SortUnstable", true, func() { v.SortUnstable() }},
		{"VecDeque.SortUnstableBy", true, func() { v.SortUnstableBy(byKey) }},
	}
	o := ops[t.Intn(len(ops))]
	blast(t, o.name, k, o.f)
	return o.name, o.sorts
}

func refuseHeap(t *pbt.T, m []Live, k int) {
	n := len(m)
	x := Live{t.Intn(1000), 7777}
	h := g.BinaryHeapNew[Live]()
	what := pbt.Pick(t, "BinaryHeap.Push", "BinaryHeap.Pop")
	push := what == "BinaryHeap.Push"
	t.NoPanic("building", func() {
		for _, y := range m {
			h.Push(y)
		}
	})
	blast(t, what, k%12, func() {
		if push {
			h.Push(x)
		} else {
			h.Pop()
		}
	})
	lo, hi := n, n+1
	if !push {
		lo, hi = n-1, n
		if n == 0 {
			lo = 0
		}
	}
	l := int(h.Len())
	if l < lo || l > hi {
		t.Failf("%s, interrupted, made %d elements into %d", what, n, l)
	}
	only(t, what, clone(h.AsSlice()), m, []Live{x})
	t.NoPanic("using the heap after an interrupted "+what, func() {
		for i := 0; i < l; i++ {
			if h.Pop().IsNone() {
				t.Failf("after %s was interrupted, a heap of Len %d gives only %d elements", what, l, i)
			}
		}
		if h.Pop().IsSome() || !h.IsEmpty() {
			t.Failf("after %s was interrupted, a heap of Len %d gives more elements", what, l)
		}
		h.Push(x)
		if h.Len() != 1 || h.Pop().Unwrap() != x {
			t.Failf("after %s was interrupted, an emptied heap does not work", what)
		}
	})
}

// refuseKeys: a key that cannot be compared or hashed is refused, and the map
// or set is as before.
func refuseKeys(t *pbt.T) {
	n := 1 + t.Len(120)
	m := setOf(liveSlice(t, n, pbt.Pick(t, 10, 60, 1000)))
	poison := Live{poisonK, 0}
	must := func(what string, f func(), look func() string) {
		before := look()
		blown = false
		p, v := pbt.Catch(f)
		if blown && !p {
			t.Failf("%s with a key whose comparison panics returns", what)
		}
		if p && !blown && !strings.Contains(fmt.Sprint(v), "unhashable") {
			t.Failf("%s panicked: %v", what, v)
		}
		if p {
			t.Nontrivial()
		}
		t.Logf("%s with such a key: panics %v", what, p)
		t.LabelIf(p, "refused key in "+what)
		after := ""
		t.NoPanic("reading after a refused "+what, func() { after = look() })
		if p && after != before {
			t.Failf("%s refused a key that cannot be compared, yet changed %s to %s", what, before, after)
		}
	}
	switch t.Intn(4) {
	case 0:
		v := g.BTreeMapNew[Live, int]()
		for _, x := range m {
			v.Insert(x, x.Tag)
		}
		look := func() string {
			s := []string{}
			it := v.IntoIter()
			for e := it.Next(); e.IsSome() && len(s) < n+9; e = it.Next() {
				p := e.Unwrap()
				o := v.Get(p.Key)
				if o.IsNone() || o.Unwrap() != p.Value {
					t.Failf("BTreeMap lost key %v after refusing another", p.Key)
				}
				s = append(s, fmt.Sprint(p.Key, p.Value))
			}
			return fmt.Sprint(v.Len(), s)
		}
		switch t.Intn(4) {
		case 0, 1:
			must("BTreeMap.Insert", func() { v.Insert(poison, 0) }, look)
		case 2:
			must("BTreeMap.Remove", func() { v.Remove(poison) }, look)
		default:
			must("BTreeMap.Get", func() { v.Get(poison); v.ContainsKey(poison) }, look)
		}
		t.NoPanic("using the map afterwards", func() {
			gone := m[t.Intn(len(m))]
			fresh := Live{2000, 1}
			if v.Remove(gone).IsNone() || v.ContainsKey(gone) || v.Insert(fresh, 3).IsSome() || v.Get(fresh).IsNone() || int(v.Len()) != len(m) {
				t.Failf("BTreeMap misbehaves after refusing a key")
			}
		})
	case 1:
		v := g.BTreeSetNew[Live]()
		for _, x := range m {
			v.Insert(x)
		}
		look := func() string {
			xs, _ := drain(v.IntoIter(), n+9)
			for _, x := range xs {
				if !v.Contains(x) {
					t.Failf("BTreeSet lost element %v after refusing another", x)
				}
			}
			return fmt.Sprint(v.Len(), xs)
		}
		switch t.Intn(3) {
		case 0:
			must("BTreeSet.Insert", func() { v.Insert(poison) }, look)
		case 1:
			must("BTreeSet.Remove", func() { v.Remove(poison) }, look)
		default:
			must("BTreeSet.Contains", func() { v.Contains(poison) }, look)
		}
	case 2:
		v := g.HashMapNew[any, int]()
		for _, x := range m {
			v.Insert(x, x.Tag)
		}
		look := func() string { return fmt.Sprint(v.Len(), v.AsMap()) }
		bad := pbt.Pick[any](t, []int{1}, map[int]int{}, func() {}, g.VecNew[g.I32]())
		switch t.Intn(3) {
		case 0:
			must("HashMap.Insert", func() { v.Insert(bad, 1) }, look)
		case 1:
			must("HashMap.Remove", func() { v.Remove(bad) }, look)
		default:
			must("HashMap.Get", func() { v.Get(bad); v.ContainsKey(bad) }, look)
		}
	default:
		v := g.HashSetNew[any]()
		for _, x := range m {
			v.Insert(x)
		}
		look := func() string {
			r := []string{}
			for _, x := range v.AsSlice() {
				r = append(r, fmt.Sprint(x))
			}
			sort.Strings(r)
			return fmt.Sprint(v.Len(), r)
		}
		bad := pbt.Pick[any](t, []int{1}, map[int]int{}, func() {}, g.VecNew[g.I32]())
		switch t.Intn(3) {
		case 0:
			must("HashSet.Insert", func() { v.Insert(bad) }, look)
		case 1:
			must("HashSet.Remove", func() { v.Remove(bad) }, look)
		default:
			must("HashSet.Get", func() { v.Get(bad); v.Contains(bad) }, look)
		}
	}
}

// refuseTree: a comparison that panics within an insertion into a tree, or a
// removal from one, leaves a tree that holds only what was there, counts what
// it holds, and goes on working.
func refuseTree(t *pbt.T) {
	n := t.Len(pbt.Pick(t, 20, 120, 400))
	m := setOf(liveSlice(t, n, pbt.Pick(t, 10, 60, 1000)))
	v := g.BTreeMapNew[Live, int]()
	ever := clone(m)
	t.NoPanic("building", func() {
		for _, x := range m {
			v.Insert(x, x.Tag)
		}
		for i := t.Intn(n + 1); i > 0; i-- {
			v.Remove(m[t.Intn(len(m))])
		}
	})
	pick := func() Live {
		if len(m) > 0 && t.Bool() {
			return m[t.Intn(len(m))]
		}
		return Live{t.Intn(1000), 8888}
	}
	what := ""
	for i := t.Range(1, 4); i > 0; i-- {
		x := pick()
		ever = append(ever, x)
		k := t.Intn(pbt.Pick(t, 4, 12, 40))
		if t.Bool() {
			what = "BTreeMap.Insert"
			blast(t, what, k, func() { v.Insert(x, x.Tag) })
		} else {
			what = "BTreeMap.Remove"
			blast(t, what, k, func() { v.Remove(x) })
		}
	}
	look := func(when string) {
		t.NoPanic("reading "+when, func() {
			xs, done := drain(v.Keys(), len(ever)+20)
			only(t, what, xs, ever)
			if !done || int(v.Len()) != len(xs) || bool(v.IsEmpty()) != (len(xs) == 0) {
				t.Failf("%s: the map has Len %d and %d keys", when, v.Len(), len(xs))
			}
		})
	}
	look("after an interrupted " + what)
	t.NoPanic("using the map after an interrupted "+what, func() {
		for i := 0; i < 40; i++ {
			x := pick()
			if t.Bool() {
				ever = append(ever, x)
				v.Insert(x, x.Tag)
				if v.Get(x).IsNone() {
					t.Failf("after an interrupted %s, a key that was inserted is not found", what)
				}
			} else {
				v.Remove(x)
			}
		}
	})
	look("some operations after an interrupted " + what)
	t.NoPanic("clearing", func() {
		v.Clear()
		v.Insert(Live{1, 1}, 1)
		if v.Len() != 1 || v.Get(Live{1, 1}).IsNone() {
			t.Failf("a cleared map does not work")
		}
	})
}

// refuseIndex: Insert and Swap beyond the end.
func refuseIndex(t *pbt.T) {
	n := t.Len(40)
	m := liveSlice(t, n, 1000)
	over := func(min int) g.USize {
		switch t.Intn(5) {
		case 0:
			return g.USize(min)
		case 1, 2:
			return g.USize(min + t.Intn(n+4))
		case 3:
			return g.USize(1)<<uint(8*(1+t.Intn(7))) + g.USize(n+t.Intn(n+3))
		}
		return ^g.USize(0) - g.USize(t.Intn(n+3))
	}
	refuse := func(what string, f func(), look func() []Live, cap func() g.USize, use func()) {
		c := cap()
		p, _ := pbt.Catch(f)
		t.Nontrivial()
		t.Logf("%s beyond the end of %v: panics %v", what, m, p)
		t.Label("refused " + what)
		var now []Live
		t.NoPanic("reading after a refused "+what, func() { now = look() })
		if !p {
			t.Failf("%s beyond the end of %v returns, leaving %v", what, m, now)
		}
		if !same(now, m) {
			t.Failf("%s beyond the end was refused, yet changed %v to %v", what, m, now)
		}
		t.Check(cap() >= c, "%s beyond the end was refused, yet lowered the capacity", what)
		t.NoPanic("using the collection after a refused "+what, use)
		if now = look(); !same(now, m) {
			t.Failf("after a refused %s, pushing and popping changed %v to %v", what, m, now)
		}
	}
	pair := func() (a, b g.USize) {
		a, b = over(n), over(n)
		if n > 0 && !t.OneIn(3) {
			a = g.USize(t.Intn(n))
		}
		if t.Bool() {
			a, b = b, a
		}
		return
	}
	z := Live{4000, 4000}
	if t.Bool() {
		var v g.Vec[Live]
		if t.Bool() {
			v = liveVec(m)
		} else {
			v = g.VecWithCapacity[Live](g.USize(n + t.Intn(2*n+9)))
			for _, x := range m {
				v.Push(x)
			}
		}
		look := func() []Live { return clone(v.AsSlice()) }
		use := func() {
			v.Push(z)
			if int(v.Len()) != n+1 || v.GetUnchecked(g.USize(n)) != z || v.Pop().Unwrap() != z {
				t.Failf("Push and Pop misbehave after a refused index")
			}
		}
		if t.Bool() {
			i := over(n + 1)
			refuse(fmt.Sprintf("Vec.Insert(%d)", i), func() { v.Insert(i, z) }, look, v.Capacity, use)
		} else {
			a, b := pair()
			refuse(fmt.Sprintf("Vec.Swap(%d,%d)", a, b), func() { v.Swap(a, b) }, look, v.Capacity, use)
		}
		return
	}
	v := liveDeque(t, m)
	look := func() []Live { return dequeElems(&v) }
	use := func() {
		v.PushBack(z)
		if int(v.Len()) != n+1 || v.PopBack().Unwrap() != z {
			t.Failf("PushBack and PopBack misbehave after a refused index")
		}
		v.PushFront(z)
		if int(v.Len()) != n+1 || v.PopFront().Unwrap() != z {
			t.Failf("PushFront and PopFront misbehave after a refused index")
		}
	}
	a, b := pair()
	if a == b { // documented to change nothing
		b = a ^ 1
	}
	refuse(fmt.Sprintf("VecDeque.Swap(%d,%d)", a, b), func() { v.Swap(a, b) }, look, v.Capacity, use)
}

// refuseEnums: Option, Result and Pair, whose functions panic.
func refuseEnums(t *pbt.T) {
	x, y := Live{t.Intn(9), 1}, Live{t.Intn(9), 2}
	k := t.Intn(2)
	val := func() Live { tick(); return y }
	id := func(a Live) Live { tick(); return a }
	yes := func(Live) g.Bool { tick(); return true }
	switch t.Intn(3) {
	case 0:
		o := g.None[Live]()
		if t.Bool() {
			o = g.Some(x)
		}
		p := g.Some(y)
		ops := []func(){
			func() { o.IsSomeAnd(yes) }, func() { o.UnwrapOrElse(val) }, func() { o.Map(id) }, func() { o.MapOr(y, id) },
			func() { o.MapOrElse(val, id) }, func() { o.AndThen(func(Live) g.Option[any] { tick(); return g.None[any]() }) },
			func() { o.Filter(yes) }, func() { o.OrElse(func() g.Option[Live] { tick(); return p }) },
			func() { o.GetOrInsertWith(val) }, func() { o.Clone() }, func() { o.Eq(p) }, func() { o.Display() }, func() { o.Debug() },
		}
		names := []string{"IsSomeAnd", "UnwrapOrElse", "Map", "MapOr", "MapOrElse", "AndThen", "Filter", "OrElse", "GetOrInsertWith", "Clone", "Eq", "Display", "Debug"}
		i := t.Intn(len(ops))
		before := o.Display() + p.Display()
		if blast(t, "Option."+names[i], k, ops[i]) {
			if now := o.Display() + p.Display(); now != before {
				t.Failf("Option.%s, interrupted by a panic of its function, changed %s to %s", names[i], before, now)
			}
		}
	case 1:
		r := g.Ok(x)
		if t.Bool() {
			r = g.Err[Live](fmt.Errorf("e"))
		}
		q := g.Ok(y)
		ops := []func(){
			func() { r.IsOkAnd(yes) }, func() { r.IsErrAnd(func(error) g.Bool { tick(); return true }) },
			func() { r.Map(id) }, func() { r.MapOr(y, id) }, func() { r.MapOrElse(val, id) },
			func() { r.MapErr(func(e error) error { tick(); return e }) },
			func() { r.AndThen(func(Live) g.Result[Live] { tick(); return q }) }, func() { r.OrElse(func(error) g.Result[Live] { tick(); return q }) },
			func() { r.UnwrapOrElse(val) }, func() { r.Eq(q) }, func() { r.Display() }, func() { r.Clone() },
		}
		names := []string{"IsOkAnd", "IsErrAnd", "Map", "MapOr", "MapOrElse", "MapErr", "AndThen", "OrElse", "UnwrapOrElse", "Eq", "Display", "Clone"}
		look := func() string {
			s := ""
			for _, z := range []g.Result[Live]{r, q} {
				if z.IsOk() {
					s += fmt.Sprint("Ok", z.Unwrap())
				} else {
					s += fmt.Sprint("Err", z.UnwrapErr())
				}
			}
			return s
		}
		i := t.Intn(len(ops))
		before := look()
		if blast(t, "Result."+names[i], k, ops[i]) {
			if now := look(); now != before {
				t.Failf("Result.%s, interrupted by a panic of its function, changed %s to %s", names[i], before, now)
			}
		}
	default:
		p, q := g.Pair[Live, Live]{Key: x, Value: y}, g.Pair[Live, Live]{Key: x, Value: Live{y.K, 3}}
		ops := []func(){func() { p.Eq(q) }, func() { p.Cmp(q) }, func() { p.Clone() }, func() { p.Display() }, func() { p.ToString() }}
		names := []string{"Eq", "Cmp", "Clone", "Display", "ToString"}
		i := t.Intn(len(ops))
		blast(t, "Pair."+names[i], k, ops[i])
		if p.Key != x || p.Value != y || q.Key != x || q.Value.Tag != 3 {
			t.Failf("Pair.%s, interrupted, changed its operands", names[i])
		}
	}
}

// refuseRoom: capacities no machine can provide.
func refuseRoom(t *pbt.T) {
	n := t.Len(20)
	m := liveSlice(t, n, 1000)
	ask := g.USize(1)<<uint(50+t.Intn(14)) + g.USize(t.Intn(100))
	if t.Bool() {
		ask = ^g.USize(0) - g.USize(t.Intn(2*n+20))
	}
	kind := pbt.Pick(t, "Vec", "VecDeque", "BinaryHeap")
	var look func() []Live
	var cap, length func() g.USize
	var reserve func(g.USize)
	var mk, mkLen func(g.USize)
	t.NoPanic("building", func() {
		switch kind {
		case "Vec":
			v := liveVec(m)
			look = func() []Live { return clone(v.AsSlice()) }
			cap, length, reserve = func() g.USize { return v.Capacity() }, func() g.USize { return v.Len() }, v.Reserve
			mk, mkLen = func(k g.USize) { g.VecWithCapacity[Live](k) }, func(k g.USize) { g.VecWithLen[Live](k) }
		case "VecDeque":
			v := liveDeque(t, m)
			look = func() []Live { return dequeElems(&v) }
			cap, length, reserve = func() g.USize { return v.Capacity() }, func() g.USize { return v.Len() }, v.Reserve
			mk, mkLen = func(k g.USize) { g.VecDequeWithCapacity[Live](k) }, func(k g.USize) { g.VecDequeWithLen[Live](k) }
		default:
			v := g.BinaryHeapNew[Live]()
			for _, x := range m {
				v.Push(x)
			}
			look = func() []Live { return clone(v.AsSlice()) }
			cap, length, reserve = func() g.USize { return v.Capacity() }, func() g.USize { return v.Len() }, v.Reserve
			mk, mkLen = func(k g.USize) { g.BinaryHeapWithCapacity[Live](k) }, func(k g.USize) { g.BinaryHeapWithLen[Live](k) }
		}
	})
	t.Nontrivial()
	t.Logf("room for %d in a %s of %d", ask, kind, n)
	t.Label("impossible room in " + kind)
	switch t.Intn(4) {
	case 0:
		p, _ := pbt.Catch(func() { mk(ask) })
		t.Check(p, "%sWithCapacity(%d) returns", kind, ask)
	case 1:
		p, _ := pbt.Catch(func() { mkLen(ask) })
		t.Check(p, "%sWithLen(%d) returns", kind, ask)
	default:
		before := look()
		p, _ := pbt.Catch(func() { reserve(ask) })
		if !p {
			t.Failf("%s.Reserve(%d) of %d elements returns, with Capacity %d", kind, ask, n, cap())
		}
		if int(length()) != n || !same(look(), before) {
			t.Failf("%s.Reserve(%d) was refused, yet changed %v to %v", kind, ask, before, look())
		}
	}
}

type divides[T any] interface {
	comparable
	Div(T) T
	Rem(T) T
}

type divAssigns[T any] interface {
	*T
	DivAssign(T)
	RemAssign(T)
}

func divZero[T divides[T], P divAssigns[T]](t *pbt.T, name string, x T) {
	var zero T
	t.Nontrivial()
	t.Label("zero divisor of " + name)
	y := x
	ops := map[string]func(){
		"Div": func() { x.Div(zero) }, "Rem": func() { x.Rem(zero) },
		"DivAssign": func() { P(&y).DivAssign(zero) }, "RemAssign": func() { P(&y).RemAssign(zero) },
	}
	s := pbt.Pick(t, "Div", "Rem", "DivAssign", "RemAssign")
	p, _ := pbt.Catch(ops[s])
	t.Logf("%s(%v).%s(0): panics %v", name, x, s, p)
	t.Check(p, "%s(%v).%s(0) returns, leaving %v", name, x, s, y)
	t.Check(y == x, "%s(%v).%s(0) was refused, yet left %v", name, x, s, y)
}

// refuseZero: division by zero, at every width.
func refuseZero(t *pbt.T) {
	switch t.Intn(12) {
	case 0:
		divZero[g.I8](t, "I8", gen64[g.I8](t))
	case 1:
		divZero[g.I16](t, "I16", gen64[g.I16](t))
	case 2:
		divZero[g.I32](t, "I32", gen64[g.I32](t))
	case 3:
		divZero[g.I64](t, "I64", gen64[g.I64](t))
	case 4:
		divZero[g.ISize](t, "ISize", gen64[g.ISize](t))
	case 5:
		divZero[g.U8](t, "U8", gen64[g.U8](t))
	case 6:
		divZero[g.U16](t, "U16", gen64[g.U16](t))
	case 7:
		divZero[g.U32](t, "U32", gen64[g.U32](t))
	case 8:
		divZero[g.U64](t, "U64", gen64[g.U64](t))
	case 9:
		divZero[g.USize](t, "USize", gen64[g.USize](t))
	case 10:
		divZero[g.I128](t, "I128", genI128(t))
	default:
		divZero[g.U128](t, "U128", genU128(t))
	}
}
