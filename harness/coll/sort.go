//go:build sorts || all

package coll

import (
	"fmt"
	"sort"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// comparator is an order over keys, used by SortBy and the reference sort.
type comparator struct {
	name string
	less func(a, b int) int
}

func genComparator(t *pbt.T) comparator {
	sign := func(x int) int {
		switch {
		case x < 0:
			return -1
		case x > 0:
			return 1
		}
		return 0
	}
	switch t.Intn(5) {
	case 0:
		return comparator{"ascending", func(a, b int) int { return sign(a - b) }}
	case 1:
		return comparator{"descending", func(a, b int) int { return sign(b - a) }}
	case 2:
		m := t.Range(2, 5)
		return comparator{fmt.Sprintf("mod %d", m), func(a, b int) int { return sign(a%m - b%m) }}
	case 3:
		m := t.Range(2, 20)
		return comparator{fmt.Sprintf("div %d descending", m), func(a, b int) int { return sign(b/m - a/m) }}
	default:
		return comparator{"even before odd, then ascending", func(a, b int) int {
			if a%2 != b%2 {
				return sign(a%2 - b%2)
			}
			return sign(a - b)
		}}
	}
}

var C19 = &pbt.Prop{
	ID:    "C19",
	Rule:  "Vec and VecDeque (generated ring position) of Item, I32 or String holding one of eight key patterns of length 0..600 (thorough 5000, rarely up to 60000), sorted by one of Sort, SortBy, SortUnstable, SortUnstableBy under the element order or a generated comparison; non-trivial = at least three elements not already in order",
	Quick: 700000, Thorough: 28000000,
	Run: func(t *pbt.T) {
		n := pbt.Pick(t, 2, 5, 30, 300, 100000)
		switch t.Intn(4) {
		case 0:
			runSort(t, i32Dom(n))
		case 1:
			runSort(t, strDom(n))
		default:
			runSort(t, itemDom(n))
		}
	},
	Assumptions: []string{"comparison functions are lawful total preorders"},
}

func runSort[T El[T]](t *pbt.T, d Dom[T]) {
	max := 600
	if t.Thorough {
		max = pbt.Pick(t, 5000, 5000, 5000, 40000)
	}
	n, ok := t.Huge(600, 140000)
	if !ok {
		n = t.Len(max)
	}
	m := make([]T, n)
	for i, k := range pattern(t, n, d.N) {
		m[i] = d.Mk(k)
	}
	op := t.Intn(4)
	cmp := comparator{"the element order", func(a, b int) int { return a - b }}
	if op == 1 || op == 3 {
		cmp = genComparator(t)
	}
	ford := func(a, b T) g.Ordering {
		c := cmp.less(d.Key(a), d.Key(b))
		if c < 0 {
			return g.OrderingLess
		} else if c > 0 {
			return g.OrderingGreater
		}
		return g.OrderingEqual
	}
	opName := []string{"Sort", "SortBy", "SortUnstable", "SortUnstableBy"}[op]
	t.Label(opName)
	t.LabelIf(n > 12, "longer than an insertion-sort block")
	want := clone(m)
	sort.SliceStable(want, func(i, j int) bool { return cmp.less(d.Key(want[i]), d.Key(want[j])) < 0 })
	if n >= 3 && !same(want, m) {
		t.Nontrivial()
	}
	deque := t.Bool()
	var got []T
	what := ""
	t.NoPanic(opName, func() {
		if deque {
			what = "VecDeque"
			v := mkDeque(t, d, m)
			switch op {
			case 0:
				v.Sort()
			case 1:
				v.SortBy(ford)
			case 2:
				v.SortUnstable()
			default:
				v.SortUnstableBy(ford)
			}
			if v.Len() != g.USize(n) {
				t.Failf("%s of a VecDeque of %d elements leaves Len %d", opName, n, v.Len())
			}
			for i := 0; i < n; i++ {
				got = append(got, v.GetUnchecked(g.USize(i)))
			}
			if !same(got, v.AsSlice()) {
				t.Failf("after %s: Get order %s differs from AsSlice %s", opName, pbt.Show(got), pbt.Show(v.AsSlice()))
			}
			// the ring must still work after sorting
			x, y := d.Gen(t), d.Gen(t)
			v.PushFront(x)
			v.PushBack(y)
			ext := append(append([]T{x}, got...), y)
			if !same(v.AsSlice(), ext) {
				t.Failf("after %s and a push at each end: %s, want %s", opName, pbt.Show(v.AsSlice()), pbt.Show(ext))
			}
		} else {
			what = "Vec"
			v := g.VecNew[T]()
			for _, x := range m {
				v.Push(x)
			}
			switch op {
			case 0:
				v.Sort()
			case 1:
				v.SortBy(ford)
			case 2:
				v.SortUnstable()
			default:
				v.SortUnstableBy(ford)
			}
			got = clone(v.AsSlice())
		}
	})
	if t.Tracing() {
		t.Logf("%s of %s %s by %s -> %s", opName, what, pbt.Show(m), cmp.name, pbt.Show(got))
	}
	if !sameBag(got, m) {
		t.Failf("%s.%s by %s of %s = %s is not a permutation", what, opName, cmp.name, pbt.Show(m), pbt.Show(got))
	}
	for i := 1; i < len(got); i++ {
		if cmp.less(d.Key(got[i-1]), d.Key(got[i])) > 0 {
			t.Failf("%s.%s by %s of %s = %s: out of order at %d", what, opName, cmp.name, pbt.Show(m), pbt.Show(got), i)
		}
	}
	if op < 2 && !same(got, want) {
		t.Failf("%s.%s by %s of %s = %s is not stable, want %s", what, opName, cmp.name, pbt.Show(m), pbt.Show(got), pbt.Show(want))
	}
}

// ---- C20 ----

var C20 = &pbt.Prop{
	ID:    "C20",
	Rule:  "sorted Vec and VecDeque (generated ring position) of length 0..150 (thorough 3000, rarely up to 120000) with duplicates, searched for every key in and around the content by BinarySearch and by BinarySearchBy with ascending, descending and range-valued comparators; non-trivial = at least two elements",
	Quick: 800000, Thorough: 32000000,
	Run: func(t *pbt.T) {
		n := pbt.Pick(t, 3, 9, 60, 1000, 1000, 100000)
		switch t.Intn(3) {
		case 0:
			runSearch(t, i32Dom(n))
		case 1:
			runSearch(t, strDom(n))
		default:
			runSearch(t, itemDom(n))
		}
	},
	Assumptions: []string{"the sequence is sorted consistently with the search"},
}

func runSearch[T El[T]](t *pbt.T, d Dom[T]) {
	max := 150
	if t.Thorough {
		max = pbt.Pick(t, 3000, 3000, 70000)
	}
	n, ok := t.Huge(200, 140000)
	if !ok {
		n = t.Len(max)
	}
	ks := make([]int, n)
	for i := range ks {
		ks[i] = t.Intn(d.N)
	}
	desc := t.OneIn(3)
	sort.Ints(ks)
	if desc {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	m := make([]T, n)
	present := map[int]bool{}
	for i, k := range ks {
		m[i] = d.Mk(k)
		present[k] = true
	}
	if n >= 2 {
		t.Nontrivial()
	}
	vec := g.VecNew[T]()
	var deq g.VecDeque[T]
	deque := t.Bool()
	if deque {
		t.Label("VecDeque")
		deq = mkDeque(t, d, m)
	} else {
		t.Label("Vec")
		for _, x := range m {
			vec.Push(x)
		}
	}
	t.LabelIf(desc, "descending")
	t.LabelIf(n == 0, "empty")
	var probes []int
	if d.N <= 60 {
		for k := 0; k < d.N; k++ {
			probes = append(probes, k)
		}
	} else {
		for i := 0; i < 12; i++ {
			probes = append(probes, t.Intn(d.N))
		}
		if n > 0 {
			probes = append(probes, ks[0], ks[n-1], ks[t.Intn(n)])
		}
	}
	check := func(what string, r g.Option[g.USize], match func(k int) bool) {
		exists := false
		for k := range present {
			if match(k) {
				exists = true
				break
			}
		}
		if !exists {
			if r.IsSome() {
				t.Failf("%s on %s = %s, want None", what, pbt.Show(m), opt(r))
			}
			return
		}
		if r.IsNone() {
			t.Failf("%s on %s = None although an element matches", what, pbt.Show(m))
		}
		i := uint64(r.Unwrap())
		if i >= uint64(n) || !match(ks[i]) {
			t.Failf("%s on %s = Some(%d), which is not a matching position", what, pbt.Show(m), i)
		}
	}
	for _, p := range probes {
		p := p
		if !desc {
			x := d.Mk(p)
			what := fmt.Sprintf("BinarySearch(%v)", x)
			t.NoPanic(what, func() {
				var r g.Option[g.USize]
				if deque {
					r = deq.BinarySearch(x)
				} else {
					r = vec.BinarySearch(x)
				}
				check(what, r, func(k int) bool { return k == p })
			})
		}
		// a comparator that matches a whole range of keys
		w := 0
		if t.OneIn(3) {
			w = t.Intn(5)
		}
		f := func(x T) g.Ordering {
			k := d.Key(x)
			lo := k < p
			hi := k > p+w
			if desc {
				lo, hi = hi, lo
			}
			if lo {
				return g.OrderingLess
			} else if hi {
				return g.OrderingGreater
			}
			return g.OrderingEqual
		}
		what := fmt.Sprintf("BinarySearchBy(key in %d..%d, descending %v)", p, p+w, desc)
		t.NoPanic(what, func() {
			var r g.Option[g.USize]
			if deque {
				r = deq.BinarySearchBy(f)
			} else {
				r = vec.BinarySearchBy(f)
			}
			check(what, r, func(k int) bool { return k >= p && k <= p+w })
		})
	}
	got := vec.AsSlice()
	if deque {
		got = deq.AsSlice()
	}
	if !same(got, m) {
		t.Failf("searching changed %s into %s", pbt.Show(m), pbt.Show(got))
	}
}

func init() { register(C19, C20) }
