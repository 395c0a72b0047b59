//go:build bare || all

package coll

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// Element types that implement no trait at all.

type bareRec struct {
	A int
	B string
}

type bareList []int

type bareDom[T any] struct {
	name string // as a panic message must show it; "" for an interface type
	mk   func(k int) T
	key  func(T) int
}

func bareDoms() (i bareDom[int], r bareDom[bareRec], p bareDom[*bareRec], l bareDom[bareList], a bareDom[any], e bareDom[error]) {
	i = bareDom[int]{"int", func(k int) int { return k }, func(x int) int { return x }}
	r = bareDom[bareRec]{"bareRec", func(k int) bareRec { return bareRec{k, fmt.Sprint("r", k)} }, func(x bareRec) int { return x.A }}
	table := map[int]*bareRec{}
	p = bareDom[*bareRec]{"bareRec", func(k int) *bareRec {
		if k == 0 {
			return nil
		}
		if table[k] == nil {
			table[k] = &bareRec{k, "p"}
		}
		return table[k]
	}, func(x *bareRec) int {
		if x == nil {
			return 0
		}
		return x.A
	}}
	l = bareDom[bareList]{"bareList", func(k int) bareList { return bareList{k, k % 3} }, func(x bareList) int { return x[0] }}
	a = bareDom[any]{"", func(k int) any {
		switch {
		case k == 0:
			return nil
		case k%2 == 0:
			return k
		}
		return bareRec{k, "a"}
	}, func(x any) int {
		switch v := x.(type) {
		case int:
			return v
		case bareRec:
			return v.A
		}
		return 0
	}}
	errs := map[int]error{}
	e = bareDom[error]{"", func(k int) error {
		if k == 0 {
			return nil
		}
		if errs[k] == nil {
			errs[k] = fmt.Errorf("%d", k)
		}
		return errs[k]
	}, func(x error) int {
		if x == nil {
			return 0
		}
		var k int
		fmt.Sscan(x.Error(), &k)
		return k
	}}
	return
}

func (d bareDom[T]) cmp(a, b T) g.Ordering {
	switch x, y := d.key(a), d.key(b); {
	case x < y:
		return g.OrderingLess
	case x > y:
		return g.OrderingGreater
	}
	return g.OrderingEqual
}

func (d bareDom[T]) keys(xs []T) []int {
	r := make([]int, len(xs))
	for i, x := range xs {
		r[i] = d.key(x)
	}
	return r
}

// refused checks that f, which needs a trait the elements lack, panics, with a
// message that names the type and the trait if it must, and changes nothing.
func refused(t *pbt.T, what, typ, trait string, named bool, look func() string, f func()) {
	before := look()
	p, v := pbt.Catch(f)
	t.Check(p, "%s of elements without %s returns instead of panicking", what, trait)
	if named && typ != "" {
		s := fmt.Sprint(v)
		t.Check(strings.Contains(s, typ) && strings.Contains(s, "does not implement "+trait),
			"%s of elements without %s panics with %q, which does not name type %s and trait %s", what, trait, s, typ, trait)
	}
	if now := look(); now != before {
		t.Failf("%s of elements without %s was refused, yet changed %s to %s", what, trait, before, now)
	}
}

var C48 = &pbt.Prop{
	ID:    "C48",
	Rule:  "containers of 2..40 elements of a type that implements no trait (int, a struct, pointers, slices, interface values, nil included): a history of operations that need no trait against a model, then operations that need a trait, each of which must panic (naming type and trait where it says which is missing) and leave the container as it was; non-trivial = five elements or more",
	Quick: 600000, Thorough: 24000000,
	Run: func(t *pbt.T) {
		i, r, p, l, a, e := bareDoms()
		switch t.Intn(6) {
		case 0:
			bareAny(t, i)
			bareKeys(t, i)
		case 1:
			bareAny(t, r)
			bareKeys(t, r)
		case 2:
			bareAny(t, p)
			bareKeys(t, p)
		case 3:
			bareAny(t, l)
		case 4:
			bareAny(t, a)
		default:
			bareAny(t, e)
		}
	},
}

func bareAny[T any](t *pbt.T, d bareDom[T]) {
	t.Label(fmt.Sprintf("%T", d.mk(1)))
	n := 2 + t.Intn(pbt.Pick(t, 4, 39))
	if n >= 5 {
		t.Nontrivial()
	}
	ks := make([]int, n)
	m := make([]T, n)
	for i := range ks {
		ks[i] = t.Intn(pbt.Pick(t, 3, 20, 1000))
		m[i] = d.mk(ks[i])
	}
	t.Logf("%T elements %v", d.mk(1), ks)
	x := d.mk(t.Intn(20))
	has := false
	for _, y := range m {
		has = has || d.key(x) == d.key(y)
	}
	switch t.Intn(5) {
	case 0:
		bareVec(t, d, m, x, has)
	case 1:
		bareDeque(t, d, m, x)
	case 2:
		bareLinked(t, d, m)
	case 3:
		bareOption(t, d, m)
	default:
		bareMaps(t, d, m)
	}
}

func bareVec[T any](t *pbt.T, d bareDom[T], m []T, x T, has bool) {
	v := g.VecNew[T]()
	look := func() string { return fmt.Sprint(d.keys(v.AsSlice())) }
	same := func(what string, m []T) {
		if g, w := look(), fmt.Sprint(d.keys(m)); g != w {
			t.Failf("Vec after %s is %s, want %s", what, g, w)
		}
	}
	t.NoPanic("a Vec operation that needs no trait", func() {
		for i, y := range m {
			if t.OneIn(4) {
				v.Insert(0, y)
				m2 := append([]T{y}, m[:i]...)
				m = append(m2, m[i+1:]...)
			} else {
				v.Push(y)
			}
		}
		same("pushes", m)
		t.Check(bool(v.Contains(x)) == has, "Vec.Contains of key %d in %s = %v", d.key(x), look(), !has)
		for k := t.Intn(4); k > 0; k-- {
			switch t.Intn(6) {
			case 0:
				i, j := t.Intn(len(m)), t.Intn(len(m))
				v.Swap(g.USize(i), g.USize(j))
				m = append([]T(nil), m...)
				m[i], m[j] = m[j], m[i]
				same("Swap", m)
			case 1:
				v.Reverse()
				r := make([]T, len(m))
				for i := range m {
					r[len(m)-1-i] = m[i]
				}
				m = r
				same("Reverse", m)
			case 2:
				if t.Bool() {
					v.SortBy(d.cmp)
				} else {
					v.SortUnstableBy(d.cmp)
				}
				m = append([]T(nil), m...)
				sort.SliceStable(m, func(i, j int) bool { return d.key(m[i]) < d.key(m[j]) })
				same("SortBy", m)
				o := v.BinarySearchBy(func(y T) g.Ordering { return d.cmp(y, x) })
				has = false
				for _, y := range m {
					has = has || d.key(x) == d.key(y)
				}
				t.Check(bool(o.IsSome()) == has, "BinarySearchBy of key %d in %s: %v", d.key(x), look(), o.IsSome())
			case 3:
				v.Dedup()
				var r []T
				for i, y := range m {
					if i == 0 || d.key(y) != d.key(m[i-1]) {
						r = append(r, y)
					}
				}
				m = r
				same("Dedup", m)
				for len(m) < 2 {
					v.Push(x)
					m = append(m[:len(m):len(m)], x)
				}
			case 4:
				i := t.Intn(len(m))
				v.Set(g.USize(i), x)
				m = append([]T(nil), m...)
				m[i] = x
				same("Set", m)
			default:
				f := g.VecWithLen[T](g.USize(t.Intn(5)))
				f.Fill(x)
				for _, y := range f.AsSlice() {
					t.Check(d.key(y) == d.key(x), "Fill stores another value")
				}
			}
		}
		r := v.IntoIter().Rev().Map(func(y T) T { return y }).CollectToVec()
		for i, y := range r.AsSlice() {
			t.Check(d.key(y) == d.key(m[len(m)-1-i]), "a reversed iterator differs")
		}
	})
	other := g.VecNew[T]()
	for _, y := range m {
		other.Push(y)
	}
	switch t.Intn(7) {
	case 0:
		refused(t, "Vec.Display", d.name, "Display", true, look, func() { v.Display() })
	case 1:
		refused(t, "Vec.Clone", d.name, "Clone", false, look, func() { v.Clone() })
	case 2:
		refused(t, "Vec.Eq", d.name, "Eq", false, look, func() { v.Eq(other) })
	case 3:
		refused(t, "Vec.Sort", d.name, "Ord", false, look, func() { v.Sort() })
	case 4:
		refused(t, "Vec.SortUnstable", d.name, "Ord", false, look, func() { v.SortUnstable() })
	case 5:
		refused(t, "Vec.BinarySearch", d.name, "Ord", false, look, func() { v.BinarySearch(x) })
	default:
		refused(t, "Format of a Vec", d.name, "Display", true, look, func() { g.Format("{}", v) })
	}
	same("a refused operation", m)
}

func bareDeque[T any](t *pbt.T, d bareDom[T], m []T, x T) {
	v := g.VecDequeNew[T]()
	look := func() string { return fmt.Sprint(d.keys(v.AsSlice())) }
	var w []T
	t.NoPanic("a VecDeque operation that needs no trait", func() {
		for _, y := range m {
			if t.Bool() {
				v.PushFront(y)
				w = append([]T{y}, w...)
			} else {
				v.PushBack(y)
				w = append(w, y)
			}
		}
		if t.Bool() {
			v.SortBy(d.cmp)
			sort.SliceStable(w, func(i, j int) bool { return d.key(w[i]) < d.key(w[j]) })
		}
		for len(w) > 2 && t.OneIn(3) {
			o := v.PopFront()
			t.Check(bool(o.IsSome()) && d.key(o.Unwrap()) == d.key(w[0]), "PopFront gives another element")
			w = w[1:]
		}
		f := g.VecDequeWithLen[T](g.USize(t.Intn(5)))
		f.Fill(x)
		t.Check(look() == fmt.Sprint(d.keys(w)), "VecDeque is %s, want %v", look(), d.keys(w))
		k := v.IntoIter().Filter(func(y T) g.Bool { return d.key(y)%2 == 0 }).CollectToVec()
		want := 0
		for _, y := range w {
			if d.key(y)%2 == 0 {
				want++
			}
		}
		t.Check(int(k.Len()) == want, "Filter keeps %d of %d", k.Len(), want)
	})
	other := g.VecDequeNew[T]()
	for _, y := range w {
		other.PushBack(y)
	}
	switch t.Intn(7) {
	case 0:
		refused(t, "VecDeque.Display", d.name, "Display", true, look, func() { v.Display() })
	case 1:
		refused(t, "VecDeque.Clone", d.name, "Clone", false, look, func() { v.Clone() })
	case 2:
		refused(t, "VecDeque.Eq", d.name, "Eq", false, look, func() { v.Eq(other) })
	case 3:
		refused(t, "VecDeque.Sort", d.name, "Ord", true, look, func() { v.Sort() })
	case 4:
		refused(t, "VecDeque.SortUnstable", d.name, "Ord", true, look, func() { v.SortUnstable() })
	case 5:
		refused(t, "VecDeque.BinarySearch", d.name, "Ord", false, look, func() { v.BinarySearch(x) })
	default:
		refused(t, "VecDeque.Contains", d.name, "Eq", true, look, func() { v.Contains(x) })
	}
}

func bareLinked[T any](t *pbt.T, d bareDom[T], m []T) {
	v := g.LinkedListNew[T]()
	other := g.LinkedListNew[T]()
	look := func() string { return fmt.Sprint(d.keys(v.IntoIter().CollectToVec().AsSlice())) }
	t.NoPanic("a LinkedList operation that needs no trait", func() {
		for _, y := range m {
			v.PushBack(y)
			other.PushBack(y)
		}
		if t.Bool() {
			var a g.LinkedList[T] = g.LinkedListNew[T]()
			y := *v.Front().Unwrap()
			a.PushFront(y)
			v.Append(&a)
			other.PushBack(y)
			m = append(m[:len(m):len(m)], y)
		}
		t.Check(look() == fmt.Sprint(d.keys(m)), "LinkedList is %s, want %v", look(), d.keys(m))
		t.Check(d.key(*v.Back().Unwrap()) == d.key(m[len(m)-1]), "Back is another element")
	})
	switch t.Intn(3) {
	case 0:
		refused(t, "LinkedList.Display", d.name, "Display", true, look, func() { v.Display() })
	case 1:
		refused(t, "LinkedList.Clone", d.name, "Clone", true, look, func() { v.Clone() })
	default:
		refused(t, "LinkedList.Eq", d.name, "Eq", true, look, func() { v.Eq(other) })
	}
}

func bareOption[T any](t *pbt.T, d bareDom[T], m []T) {
	iface := reflect.TypeOf(&m).Elem().Elem().Kind() == reflect.Interface
	o, r := g.Some(m[0]), g.Ok(m[0])
	look := func() string { return fmt.Sprint(o.IsSome(), d.key(o.Unwrap()), r.IsOk(), d.key(r.Unwrap())) }
	t.NoPanic("an Option or Result operation that needs no trait", func() {
		o = o.Map(func(T) T { return m[1] })
		r = r.Map(func(T) T { return m[1] })
		t.Check(d.key(o.Unwrap()) == d.key(m[1]) && d.key(r.UnwrapOr(m[0])) == d.key(m[1]), "Map gives another value")
		b := g.Pair[T, int]{Key: m[0], Value: 3}
		t.Check(d.key(b.AsRef().Key) == d.key(m[0]), "AsRef of a Pair differs")
		mu := g.MutexNew(m[0])
		t.Check(d.key(*mu.Lock()) == d.key(m[0]), "Lock gives another value")
		mu.Unlock()
	})
	p := g.Pair[T, T]{Key: m[0], Value: m[1]}
	switch t.Intn(9) {
	case 0:
		refused(t, "Option.Clone", d.name, "Clone", false, look, func() { o.Clone() })
	case 1:
		refused(t, "Option.Eq", d.name, "Eq", false, look, func() { o.Eq(g.Some(m[1])) })
	case 2:
		refused(t, "Result.Clone", d.name, "Clone", false, look, func() { r.Clone() })
	case 3:
		refused(t, "Result.Eq", d.name, "Eq", false, look, func() { r.Eq(g.Ok(m[1])) })
	case 4:
		refused(t, "Pair.Clone", d.name, "Clone", false, look, func() { p.Clone() })
	case 5:
		refused(t, "Pair.Eq", d.name, "Eq", false, look, func() { p.Eq(p) })
	case 6:
		refused(t, "Pair.Cmp", d.name, "Ord", false, look, func() { p.Cmp(p) })
	case 7:
		if !iface && reflect.TypeOf(m[1]).Kind() != reflect.Pointer {
			refused(t, "Option.Display", d.name, "Display", true, look, func() { o.Display() })
		}
	default:
		if !iface && reflect.TypeOf(m[1]).Kind() != reflect.Pointer {
			refused(t, "Result.Display", d.name, "Display", true, look, func() { r.Display() })
		}
	}
}

func bareMaps[T any](t *pbt.T, d bareDom[T], m []T) {
	h, h2 := g.HashMapNew[g.I32, T](), g.HashMapNew[g.I32, T]()
	b, b2 := g.BTreeMapNew[g.I32, T](), g.BTreeMapNew[g.I32, T]()
	t.NoPanic("a map operation that needs no trait of its values", func() {
		for i, y := range m {
			h.Insert(g.I32(i), y)
			b.Insert(g.I32(i), y)
			h2.Insert(g.I32(i), y)
			b2.Insert(g.I32(i), y)
		}
	})
	look := func() string {
		s := fmt.Sprint(h.Len(), b.Len())
		for i := range m {
			x, y := h.Get(g.I32(i)), b.Get(g.I32(i))
			if x.IsNone() || y.IsNone() {
				return "a key is gone"
			}
			s += fmt.Sprint(" ", d.key(x.Unwrap()), d.key(y.Unwrap()))
		}
		return s
	}
	t.NoPanic("a map operation that needs no trait of its values", func() {
		for i, y := range b.Values().CollectToVec().AsSlice() {
			t.Check(d.key(y) == d.key(m[i]), "Values gives another value")
		}
		t.Check(int(h.Values().CollectToVec().Len()) == len(m), "Values of a HashMap")
	})
	switch t.Intn(5) {
	case 0:
		refused(t, "HashMap.Clone", d.name, "Clone", true, look, func() { h.Clone() })
	case 1:
		refused(t, "HashMap.Eq", d.name, "Eq", false, look, func() { h.Eq(h2) })
	case 2:
		refused(t, "HashMap.Display", d.name, "Display", false, look, func() { h.Display() })
	case 3:
		refused(t, "BTreeMap.Eq", d.name, "Eq", false, look, func() { b.Eq(b2) })
	default:
		refused(t, "BTreeMap.Display", d.name, "Display", false, look, func() { b.Display() })
	}
}

func bareKeys[T comparable](t *pbt.T, d bareDom[T]) {
	h, h2 := g.HashMapNew[T, g.I32](), g.HashMapNew[T, g.I32]()
	s := g.HashSetNew[T]()
	want := map[int]g.I32{}
	t.NoPanic("a hash collection operation that needs no trait of its keys", func() {
		for i := 2 + t.Intn(10); i > 0; i-- {
			k := t.Intn(12)
			x := d.mk(k)
			_, had := want[k]
			t.Check(bool(h.Insert(x, g.I32(i)).IsSome()) == had, "HashMap.Insert of key %d: had it: %v", k, had)
			t.Check(bool(s.Insert(x)) == !had, "HashSet.Insert of key %d: had it: %v", k, had)
			h2.Insert(x, g.I32(i))
			want[k] = g.I32(i)
			if t.OneIn(4) && len(want) > 1 {
				t.Check(bool(h.Remove(x).IsSome()) && bool(s.Remove(x)), "Remove of key %d finds nothing", k)
				h2.Remove(x)
				delete(want, k)
			}
		}
	})
	look := func() string {
		r := fmt.Sprint(h.Len(), s.Len())
		for k := 0; k < 12; k++ {
			o := h.Get(d.mk(k))
			r += fmt.Sprint(" ", o.IsSome(), s.Contains(d.mk(k)), o.UnwrapOr(-1))
		}
		return r
	}
	w := fmt.Sprint(len(want), len(want))
	for k := 0; k < 12; k++ {
		v, ok := want[k]
		if !ok {
			v = -1
		}
		w += fmt.Sprint(" ", ok, ok, v)
	}
	if l := look(); l != w {
		t.Failf("hash collections are %s, want %s", l, w)
	}
	t.NoPanic("HashMap.Eq needs no trait of its keys", func() {
		t.Check(bool(h.Eq(h2)), "equal HashMaps are not Eq")
	})
	switch t.Intn(4) {
	case 0:
		refused(t, "HashMap.Clone", d.name, "Clone", true, look, func() { h.Clone() })
	case 1:
		refused(t, "HashSet.Clone", d.name, "Clone", true, look, func() { s.Clone() })
	case 2:
		refused(t, "HashMap.Display", d.name, "Display", false, look, func() { h.Display() })
	default:
		refused(t, "HashSet.Display", d.name, "Display", false, look, func() { s.Display() })
	}
}

func init() { register(C48) }
