//go:build costs || all

package coll

import (
	"fmt"
	"math"
	"time"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// tally is an element whose comparisons are counted.
type tally struct{ k int }

var calls int

func (a tally) Cmp(b tally) g.Ordering {
	calls++
	switch {
	case a.k < b.k:
		return g.OrderingLess
	case a.k > b.k:
		return g.OrderingGreater
	}
	return g.OrderingEqual
}
func (a tally) Eq(b tally) g.Bool { calls++; return a.k == b.k }

// antisort is M. D. McIlroy's adversary: a comparison function over 0..n-1 that
// decides the order while it is being asked, so as to cost a sort the most. It
// is consistent with the final values of val.
type antisort struct {
	val         []int
	solid, cand int
}

func newAntisort(n int) *antisort {
	a := &antisort{val: make([]int, n)}
	for i := range a.val {
		a.val[i] = n // gas
	}
	return a
}

func (a *antisort) cmp(x, y int) int {
	gas := len(a.val)
	if a.val[x] == gas && a.val[y] == gas && x != y {
		if x == a.cand {
			a.val[x] = a.solid
		} else {
			a.val[y] = a.solid
		}
		a.solid++
	}
	if a.val[x] == gas {
		a.cand = x
	} else if a.val[y] == gas {
		a.cand = y
	}
	return a.val[x] - a.val[y]
}

func log2(n int) float64 { return math.Log2(float64(n) + 2) }

var C44 = &pbt.Prop{
	ID:    "C44",
	Rule:  "one of: a sort of Vec or VecDeque of 0..4000 elements (thorough 60000) in one of eight orders, or against McIlroy's adversarial comparison function, with the comparisons counted; binary searches, BTreeMap/BTreeSet/BinaryHeap histories with the comparisons of every single operation counted; growth of Vec, VecDeque and BinaryHeap under up to 100000 pushes with the copied capacity summed; constant-time operations on containers of 2^20 elements, the fastest of 25..200 goes timed; operations on whole containers (set algebra, Clone, Eq, Retain, Dedup, Append, Fill, iteration) timed at 2048 and 16384 elements, the fastest of up to 40 goes; non-trivial = 64 elements or more",
	Quick: 20000, Thorough: 800000,
	Run: func(t *pbt.T) {
		switch t.Weighted(30, 12, 20, 12, 8, 1, 1) {
		case 0:
			costSort(t)
		case 1:
			costSearch(t)
		case 2:
			costTree(t)
		case 3:
			costHeap(t)
		case 4:
			costGrowth(t)
		case 5:
			costConst(t)
		default:
			costWhole(t)
		}
	},
	Assumptions: []string{
		"the constants allowed (8 n log2 n comparisons for a sort, 40 log2 n for a tree operation, 4 log2 n for a search, 6 log2 n for a heap operation, 16 copied slots per push) are several times what the present code needs",
		"an operation of constant time needs less than 60 us on one of 25..200 goes; one that walks 2^20 elements does not",
		"an operation of n log n steps on 32768 elements takes, on one of 40 goes, less than 10 ms or 36 times what it takes on 4096; a quadratic one takes 64 times as long",
	},
}

func costLen(t *pbt.T) int {
	max := 4000
	if t.Thorough {
		max = pbt.Pick(t, 4000, 4000, 60000)
	}
	if n, ok := t.DictLen(max); ok {
		return n
	}
	return t.Intn(pbt.Pick(t, 40, 600, max) + 1)
}

func costSort(t *pbt.T) {
	n := costLen(t)
	if n >= 64 {
		t.Nontrivial()
	}
	adverse := t.OneIn(3)
	op := t.Intn(4)
	if adverse {
		op = 1 + 2*t.Intn(2)
	}
	name := []string{"Sort", "SortBy", "SortUnstable", "SortUnstableBy"}[op]
	t.Label("sort")
	var ks []int
	if adverse {
		t.Label("adversarial comparisons")
		ks = make([]int, n)
		for i := range ks {
			ks[i] = i
		}
	} else {
		ks = pattern(t, n, pbt.Pick(t, 10, 1000, 1000000))
	}
	a := newAntisort(n)
	by := func(x, y tally) g.Ordering {
		if !adverse {
			return x.Cmp(y)
		}
		calls++
		if c := a.cmp(x.k, y.k); c < 0 {
			return g.OrderingLess
		} else if c > 0 {
			return g.OrderingGreater
		}
		return g.OrderingEqual
	}
	deque := t.Bool()
	what := "Vec"
	var out []tally
	calls = 0
	t.NoPanic(name, func() {
		if deque {
			what = "VecDeque"
			v := g.VecDequeWithCapacity[tally](g.USize(t.Intn(n + 2)))
			for i, r := 0, t.Intn(20); i < r; i++ {
				v.PushBack(tally{})
				v.PopFront()
			}
			for _, k := range ks {
				v.PushBack(tally{k})
			}
			calls = 0
			switch op {
			case 0:
				v.Sort()
			case 1:
				v.SortBy(by)
			case 2:
				v.SortUnstable()
			default:
				v.SortUnstableBy(by)
			}
			out = append(out, v.AsSlice()...)
		} else {
			v := g.VecNew[tally]()
			for _, k := range ks {
				v.Push(tally{k})
			}
			calls = 0
			switch op {
			case 0:
				v.Sort()
			case 1:
				v.SortBy(by)
			case 2:
				v.SortUnstable()
			default:
				v.SortUnstableBy(by)
			}
			out = append(out, v.AsSlice()...)
		}
	})
	used := calls
	t.Logf("%s.%s of %d elements, adversary=%v: %d comparisons", what, name, n, adverse, used)
	lim := 8*float64(n)*log2(n) + 200
	t.Stat("sort comparisons / (n log2 n)", float64(used)/(float64(n+1)*log2(n)))
	if float64(used) > lim {
		t.Failf("%s.%s of %d elements makes %d comparisons, more than 8 n log2 n", what, name, n, used)
	}
	if len(out) != n {
		t.Failf("%s.%s of %d elements leaves %d", what, name, n, len(out))
	}
	for i := 1; i < n; i++ {
		x, y := out[i-1].k, out[i].k
		if adverse {
			x, y = a.val[x], a.val[y]
		}
		if x > y {
			t.Failf("%s.%s: element %d is greater than element %d (adversary=%v)", what, name, i-1, i, adverse)
		}
	}
}

func costSearch(t *pbt.T) {
	n := costLen(t)
	if n >= 64 {
		t.Nontrivial()
	}
	t.Label("binary search")
	dup := pbt.Pick(t, 1, 1, 3, n+1)
	deque := t.Bool()
	vec, dq := g.VecNew[tally](), g.VecDequeNew[tally]()
	t.NoPanic("binary search", func() {
		for i, r := 0, t.Intn(n+1); i < r && deque; i++ {
			dq.PushBack(tally{})
			dq.PopFront()
		}
		for i := 0; i < n; i++ {
			if deque {
				dq.PushBack(tally{2 * (i / dup)})
			} else {
				vec.Push(tally{2 * (i / dup)})
			}
		}
		worst := 0
		for r := 0; r < 6; r++ {
			k := t.Intn(2*n/dup+4) - 1
			f := func(x tally) g.Ordering { return x.Cmp(tally{k}) }
			var o g.Option[g.USize]
			calls = 0
			how := "BinarySearch"
			switch by := t.Bool(); {
			case deque && by:
				how = "BinarySearchBy"
				o = dq.BinarySearchBy(f)
			case deque:
				o = dq.BinarySearch(tally{k})
			case by:
				how = "BinarySearchBy"
				o = vec.BinarySearchBy(f)
			default:
				o = vec.BinarySearch(tally{k})
			}
			if want := k >= 0 && k%2 == 0 && k/2*dup < n; bool(o.IsSome()) != want {
				t.Failf("%s for %d among %d elements: found=%v", how, k, n, o.IsSome())
			}
			if float64(calls) > 4*log2(n)+12 {
				t.Failf("%s (deque=%v) for %d makes %d comparisons in %d sorted elements", how, deque, k, calls, n)
			}
			worst = max(worst, calls)
		}
		t.Stat("search comparisons / log2 n", float64(worst)/log2(n))
		t.Logf("%d elements, runs of %d, deque=%v: at most %d comparisons", n, dup, deque, worst)
	})
}

func costTree(t *pbt.T) {
	n := costLen(t)
	if n >= 64 {
		t.Nontrivial()
	}
	t.Label("ordered map or set")
	m, s := g.BTreeMapNew[tally, int](), g.BTreeSetNew[tally]()
	set := t.Bool()
	live := map[int]bool{}
	worst := 0.0
	do := func(what string, k int, f func() bool, want bool) {
		calls = 0
		if got := f(); got != want {
			t.Failf("%s %d with %d keys: %v, want %v", what, k, len(live), got, want)
		}
		if float64(calls) > 40*log2(len(live))+40 {
			t.Failf("%s (set=%v) makes %d comparisons with %d keys", what, set, calls, len(live))
		}
		worst = math.Max(worst, float64(calls)/log2(len(live)))
	}
	insert := func(k int) {
		do("Insert", k, func() bool {
			if set {
				return bool(s.Insert(tally{k}))
			}
			return bool(m.Insert(tally{k}, k).IsNone())
		}, !live[k])
		live[k] = true
	}
	remove := func(k int) {
		do("Remove", k, func() bool {
			if set {
				return bool(s.Remove(tally{k}))
			}
			return bool(m.Remove(tally{k}).IsSome())
		}, live[k])
		delete(live, k)
	}
	look := func(k int) {
		do("lookup", k, func() bool {
			if set {
				return bool(s.Contains(tally{k}))
			}
			if t.Bool() {
				return bool(m.ContainsKey(tally{k}))
			}
			return bool(m.Get(tally{k}).IsSome())
		}, live[k])
	}
	t.NoPanic("tree operation", func() {
		ks := pattern(t, n, pbt.Pick(t, 1000000, 1000000, n+1))
		for i, k := range ks {
			insert(k)
			if i%16 == 0 {
				look(t.Intn(n + 1))
			}
		}
		for _, k := range ks[:t.Intn(len(ks)+1)] {
			remove(k)
		}
		for r := 0; r < 8; r++ {
			if n > 0 && t.Bool() {
				look(ks[t.Intn(n)])
			} else {
				look(t.Intn(1000000))
			}
			insert(t.Intn(2 * (n + 1)))
		}
	})
	t.Stat("tree comparisons / log2 n", worst)
	t.Logf("%d keys, set=%v: at most %.1f log2 n comparisons for one operation", n, set, worst)
}

func costHeap(t *pbt.T) {
	n := costLen(t)
	if n >= 64 {
		t.Nontrivial()
	}
	t.Label("heap")
	worst := 0.0
	t.NoPanic("heap operation", func() {
		h := g.BinaryHeapNew[tally]()
		do := func(what string, f func()) {
			size := int(h.Len())
			calls = 0
			f()
			if float64(calls) > 6*log2(size)+8 {
				t.Failf("%s makes %d comparisons in a heap of %d", what, calls, size)
			}
			worst = math.Max(worst, float64(calls)/log2(size))
		}
		for i, k := range pattern(t, n, pbt.Pick(t, 10, 1000000)) {
			do("Push", func() { h.Push(tally{k}) })
			if i%7 == 0 && t.OneIn(3) {
				do("Pop", func() { h.Pop() })
			}
		}
		if t.Bool() {
			size := int(h.Len())
			calls = 0
			v := h.IntoSortedVec()
			if float64(calls) > 8*float64(size)*log2(size)+200 {
				t.Failf("IntoSortedVec makes %d comparisons in a heap of %d", calls, size)
			}
			if int(v.Len()) != size {
				t.Failf("IntoSortedVec of %d elements has %d", size, v.Len())
			}
			return
		}
		for h.Len() > 0 {
			do("Pop", func() { h.Pop() })
		}
	})
	t.Stat("heap comparisons / log2 n", worst)
	t.Logf("%d elements: at most %.1f log2 n comparisons for one operation", n, worst)
}

// costGrowth sums the slots copied by growing: amortised constant means a
// constant number per push.
func costGrowth(t *pbt.T) {
	n := t.Intn(pbt.Pick(t, 1000, 20000, 100000) + 1)
	if v, ok := t.DictInt(); ok && v < 1<<20 {
		n = int(v)
	}
	if n >= 64 {
		t.Nontrivial()
	}
	t.Label("growth")
	start := 0
	if t.OneIn(3) {
		start = t.Intn(3000)
	}
	kind := t.Intn(5)
	name := []string{"Vec.Push", "VecDeque.PushBack", "VecDeque.PushFront", "BinaryHeap.Push", "VecDeque at both ends"}[kind]
	var push func(i int)
	var pop func()
	var capacity func() g.USize
	v, d, h := g.VecWithCapacity[g.I32](g.USize(start)), g.VecDequeWithCapacity[g.I32](g.USize(start)), g.BinaryHeapWithCapacity[g.I32](g.USize(start))
	switch kind {
	case 0:
		push, pop, capacity = func(i int) { v.Push(g.I32(i)) }, func() { v.Pop() }, func() g.USize { return v.Capacity() }
	case 1:
		push, pop, capacity = func(i int) { d.PushBack(g.I32(i)) }, func() { d.PopFront() }, func() g.USize { return d.Capacity() }
	case 2:
		push, pop, capacity = func(i int) { d.PushFront(g.I32(i)) }, func() { d.PopBack() }, func() g.USize { return d.Capacity() }
	case 3:
		push, pop, capacity = func(i int) { h.Push(g.I32(-i)) }, func() { h.Pop() }, func() g.USize { return h.Capacity() }
	default:
		push = func(i int) {
			if i&1 == 0 {
				d.PushFront(g.I32(i))
			} else {
				d.PushBack(g.I32(i))
			}
		}
		pop, capacity = func() { d.PopFront() }, func() g.USize { return d.Capacity() }
	}
	t.NoPanic(name, func() {
		copied, changes, last := 0.0, 0, capacity()
		see := func() {
			if c := capacity(); c != last {
				copied += float64(c)
				changes++
				last = c
			}
		}
		ops := 0
		for i := 0; i < n; i++ {
			push(i)
			see()
			ops++
		}
		// hover: pops and pushes around the present length
		for r := 0; r < 4; r++ {
			k := 1 + t.Intn(5)
			for i := 0; i < 60; i++ {
				for j := 0; j < k; j++ {
					pop()
					see()
				}
				for j := 0; j < k; j++ {
					push(j)
					see()
				}
				ops += k
			}
			push(0)
			see()
			ops++
		}
		t.Stat("slots copied per push", copied/float64(ops))
		t.Logf("%s: %d pushes onto capacity %d: %d capacity changes, %.0f slots", name, ops, start, changes, copied)
		if copied > 16*float64(ops)+8*float64(start)+2000 {
			t.Failf("%s: %d pushes onto capacity %d change the capacity %d times, for %.0f slots in all: not amortised", name, ops, start, changes, copied)
		}
	})
}

var sink any

// costConst times constant-time operations on a container of 2^20 elements.
func costConst(t *pbt.T) {
	const n = 1 << 20
	t.Nontrivial()
	t.Label("constant-time operations")
	type op struct {
		name string
		f    func()
	}
	var ops []op
	name := ""
	switch t.Intn(6) {
	case 0:
		name = "LinkedList"
		l := g.LinkedListNew[g.I64]()
		for i := 0; i < n; i++ {
			if i&3 == 0 {
				l.PushFront(g.I64(i))
			} else {
				l.PushBack(g.I64(i))
			}
		}
		ops = []op{
			{"Len", func() { sink = l.Len() }}, {"IsEmpty", func() { sink = l.IsEmpty() }},
			{"Front", func() { sink = l.Front() }}, {"Back", func() { sink = l.Back() }},
			{"PushBack", func() { l.PushBack(1) }}, {"PushFront", func() { l.PushFront(1) }},
			{"PopBack", func() { l.PopBack() }}, {"PopFront", func() { l.PopFront() }},
			{"Append of a short list", func() {
				o := g.LinkedListNew[g.I64]()
				o.PushBack(3)
				o.PushBack(4)
				l.Append(&o)
			}},
			{"Append to a short list", func() {
				o := g.LinkedListNew[g.I64]()
				o.PushBack(3)
				o.Append(&l)
				l.Append(&o)
			}},
			{"Append of an empty list", func() {
				o := g.LinkedListNew[g.I64]()
				l.Append(&o)
			}},
		}
	case 1:
		name = "Vec"
		v := g.VecWithLen[g.I64](n)
		v.Push(1)
		if t.Bool() {
			for left := g.USize(t.Intn(4)); v.Len()+left < v.Capacity(); {
				v.Push(1)
			}
		}
		ops = []op{
			{"Len", func() { sink = v.Len() }}, {"IsEmpty", func() { sink = v.IsEmpty() }}, {"Capacity", func() { sink = v.Capacity() }},
			{"Push", func() { v.Push(1) }}, {"Pop", func() { v.Pop() }}, {"Get", func() { sink = v.Get(n / 2) }},
			{"GetUnchecked", func() { sink = v.GetUnchecked(n / 2) }}, {"SetUnchecked", func() { v.SetUnchecked(n/2, 3) }},
			{"Set", func() { v.Set(n/2, 3) }}, {"Swap", func() { v.Swap(1, n/4*3) }},
		}
	case 2:
		name = "VecDeque"
		v := g.VecDequeNew[g.I64]()
		// the ring may begin at its first slot or elsewhere, be all but full or half full
		fronts := pbt.Pick(t, 0, 1, 3)
		for i := 0; i < n; i++ {
			if i&3 < fronts {
				v.PushFront(g.I64(i))
			} else {
				v.PushBack(g.I64(i))
			}
		}
		if t.Bool() {
			for left := g.USize(t.Intn(4)); v.Len()+left < v.Capacity(); {
				v.PushBack(1)
			}
		} else {
			v.PopFront()
			v.PopFront()
		}
		ops = []op{
			{"Len", func() { sink = v.Len() }}, {"IsEmpty", func() { sink = v.IsEmpty() }}, {"Capacity", func() { sink = v.Capacity() }},
			{"PushBack", func() { v.PushBack(1) }}, {"PopBack", func() { v.PopBack() }},
			{"PushFront", func() { v.PushFront(1) }}, {"PopFront", func() { v.PopFront() }},
			{"Get", func() { sink = v.Get(n / 2) }}, {"GetUnchecked", func() { sink = v.GetUnchecked(n / 2) }},
			{"Set", func() { v.Set(n/2, 3) }}, {"SetUnchecked", func() { v.SetUnchecked(n/2, 3) }},
			{"Swap", func() { v.Swap(1, n/4*3) }}, {"Front", func() { sink = v.Front() }}, {"Back", func() { sink = v.Back() }},
		}
	case 3:
		name = "HashSet"
		m := g.HashSetNew[g.I64]()
		for i := 0; i < n; i++ {
			m.Insert(g.I64(i))
		}
		k := g.I64(n)
		ops = []op{
			{"Len", func() { sink = m.Len() }}, {"IsEmpty", func() { sink = m.IsEmpty() }},
			{"Contains", func() { sink = m.Contains(n / 3) }}, {"Contains of an absent value", func() { sink = m.Contains(-1) }},
			{"Get", func() { sink = m.Get(n / 2) }}, {"Get of an absent value", func() { sink = m.Get(-1) }},
			{"Insert", func() { k++; m.Insert(k) }}, {"Insert of a present value", func() { m.Insert(5) }},
			{"Remove", func() { m.Remove(k); k-- }}, {"Remove of an absent value", func() { m.Remove(-1) }},
		}
	case 4:
		name = "BTreeMap, BTreeSet or BinaryHeap"
		m, b, h := g.BTreeMapNew[g.I64, g.I64](), g.BTreeSetNew[g.I64](), g.BinaryHeapNew[g.I64]()
		for i := 0; i < n/8; i++ {
			m.Insert(g.I64(i), 1)
			b.Insert(g.I64(i))
			h.Push(g.I64(i))
		}
		for i := 0; i < n; i++ {
			h.Push(0)
		}
		ops = []op{
			{"Len", func() { sink = m.Len() }}, {"IsEmpty", func() { sink = m.IsEmpty() }},
			{"Len", func() { sink = b.Len() }}, {"IsEmpty", func() { sink = b.IsEmpty() }},
			{"Len", func() { sink = h.Len() }}, {"IsEmpty", func() { sink = h.IsEmpty() }}, {"Capacity", func() { sink = h.Capacity() }},
			{"Push of a small element", func() { h.Push(-1) }},
		}
	default:
		name = "HashMap"
		m := g.HashMapNew[g.I64, g.I64]()
		for i := 0; i < n; i++ {
			m.Insert(g.I64(i), 1)
		}
		k := g.I64(n)
		ops = []op{
			{"Len", func() { sink = m.Len() }}, {"IsEmpty", func() { sink = m.IsEmpty() }},
			{"Get", func() { sink = m.Get(n / 2) }}, {"Get of an absent key", func() { sink = m.Get(-1) }},
			{"ContainsKey", func() { sink = m.ContainsKey(n / 3) }},
			{"Insert", func() { k++; m.Insert(k, 2) }}, {"Insert of a present key", func() { m.Insert(5, 2) }},
			{"Remove", func() { m.Remove(k); k-- }}, {"Remove of an absent key", func() { m.Remove(-1) }},
		}
	}
	t.Logf("%s of up to %d elements", name, n)
	for r := 0; r < 12; r++ {
		o := ops[t.Intn(len(ops))]
		t.NoPanic(name+"."+o.name, func() {
			best := time.Hour
			for try := 0; try < 200 && (try < 25 || best > 60*time.Microsecond); try++ {
				at := time.Now()
				o.f()
				if d := time.Since(at); d < best {
					best = d
				}
			}
			if best > 60*time.Microsecond {
				t.Failf("%s.%s with %d elements: at best %v, which is not constant time", name, o.name, n, best)
			}
		})
	}
	sink = nil
}

// costWhole times operations on whole containers at two sizes: the time of one
// that takes n log n steps grows some ninefold, that of a quadratic one 64-fold.
func costWhole(t *pbt.T) {
	const small, large = 4096, 8 * 4096
	t.Nontrivial()
	type op struct {
		name string
		mk   func(n int) func()
	}
	odd := func(x g.I64) g.Bool { return x%2 != 0 }
	hs := func(n, from int) g.HashSet[g.I64] {
		s := g.HashSetNew[g.I64]()
		for i := 0; i < n; i++ {
			s.Insert(g.I64(i + from))
		}
		return s
	}
	bs := func(n, from int) g.BTreeSet[g.I64] {
		s := g.BTreeSetNew[g.I64]()
		for i := 0; i < n; i++ {
			s.Insert(g.I64(i + from))
		}
		return s
	}
	hm := func(n int) g.HashMap[g.I64, g.I64] {
		s := g.HashMapNew[g.I64, g.I64]()
		for i := 0; i < n; i++ {
			s.Insert(g.I64(i), 1)
		}
		return s
	}
	bm := func(n int) g.BTreeMap[g.I64, g.I64] {
		s := g.BTreeMapNew[g.I64, g.I64]()
		for i := 0; i < n; i++ {
			s.Insert(g.I64(i), 1)
		}
		return s
	}
	vec := func(n int) g.Vec[g.I64] {
		v := g.VecNew[g.I64]()
		for i := 0; i < n; i++ {
			v.Push(g.I64(i))
		}
		return v
	}
	deque := func(n int) g.VecDeque[g.I64] {
		v := g.VecDequeNew[g.I64]()
		for i := 0; i < n; i++ {
			if i%3 == 0 {
				v.PushFront(g.I64(i))
			} else {
				v.PushBack(g.I64(i))
			}
		}
		return v
	}
	list := func(n int) g.LinkedList[g.I64] {
		v := g.LinkedListNew[g.I64]()
		for i := 0; i < n; i++ {
			v.PushBack(g.I64(i))
		}
		return v
	}
	heap := func(n int) g.BinaryHeap[g.I64] {
		v := g.BinaryHeapNew[g.I64]()
		for i := 0; i < n; i++ {
			v.Push(g.I64(i * 7919 % n))
		}
		return v
	}
	// walks goes through an iterator and its adaptors
	walks := func(mk func(n int) func() g.Iterator[g.I64]) func(n int) func() {
		how := t.Intn(6)
		return func(n int) func() {
			it := mk(n)
			return func() {
				switch how {
				case 0:
					i := it()
					for i.Next().IsSome() {
					}
				case 1:
					it().Map(func(x g.I64) g.I64 { return x + 1 })
				case 2:
					it().Filter(odd)
				case 3:
					it().Fold(0, func(a, b g.I64) g.I64 { return a + b })
				case 4:
					it().Rev()
				default:
					it().CollectToVec()
					it().CollectToLinkedList()
				}
			}
		}
	}
	ops := []op{
		{"HashSet.Union", func(n int) func() { a, b := hs(n, 0), hs(n, n/2); return func() { a.Union(b) } }},
		{"HashSet.Intersection", func(n int) func() { a, b := hs(n, 0), hs(n, n/2); return func() { a.Intersection(b) } }},
		{"HashSet.SymmetricDifference", func(n int) func() { a, b := hs(n, 0), hs(n, n/2); return func() { a.SymmetricDifference(b) } }},
		{"HashSet.IsSubset", func(n int) func() { a, b := hs(n, 0), hs(n, 0); return func() { a.IsSubset(b); a.IsSuperset(b) } }},
		{"HashSet.IsDisjoint", func(n int) func() { a, b := hs(n, 0), hs(n, n); return func() { a.IsDisjoint(b) } }},
		{"HashSet.Eq", func(n int) func() { a, b := hs(n, 0), hs(n, 0); return func() { a.Eq(b) } }},
		{"HashSet.Clone", func(n int) func() { a := hs(n, 0); return func() { a.Clone() } }},
		{"BTreeSet.Union", func(n int) func() { a, b := bs(n, 0), bs(n, n/2); return func() { a.Union(b) } }},
		{"BTreeSet.Intersection", func(n int) func() { a, b := bs(n, 0), bs(n, n/2); return func() { a.Intersection(b) } }},
		{"BTreeSet.SymmetricDifference", func(n int) func() { a, b := bs(n, 0), bs(n, n/2); return func() { a.SymmetricDifference(b) } }},
		{"BTreeSet.IsSubset", func(n int) func() { a, b := bs(n, 0), bs(n, 0); return func() { a.IsSubset(b); a.IsSuperset(b) } }},
		{"BTreeSet.IsDisjoint", func(n int) func() { a, b := bs(n, 0), bs(n, n); return func() { a.IsDisjoint(b) } }},
		{"BTreeSet.Eq", func(n int) func() { a, b := bs(n, 0), bs(n, 0); return func() { a.Eq(b) } }},
		{"BTreeSet.Clone", func(n int) func() { a := bs(n, 0); return func() { a.Clone() } }},
		{"HashMap.Eq", func(n int) func() { a, b := hm(n), hm(n); return func() { a.Eq(b) } }},
		{"HashMap.Clone", func(n int) func() { a := hm(n); return func() { a.Clone() } }},
		{"BTreeMap.Eq", func(n int) func() { a, b := bm(n), bm(n); return func() { a.Eq(b) } }},
		{"Vec.Eq", func(n int) func() { a, b := vec(n), vec(n); return func() { a.Eq(b) } }},
		{"Vec.Clone", func(n int) func() { a := vec(n); return func() { a.Clone() } }},
		{"Vec.Retain", func(n int) func() { a := vec(n); return func() { b := a.Clone(); b.Retain(odd) } }},
		{"Vec.Dedup", func(n int) func() { a := vec(n); return func() { b := a.Clone(); b.Dedup() } }},
		{"Vec.DedupByKey", func(n int) func() {
			a := vec(n)
			return func() { b := a.Clone(); b.DedupByKey(func(x g.I64) any { return x / 3 }) }
		}},
		{"Vec.Reverse", func(n int) func() { a := vec(n); return func() { a.Reverse() } }},
		{"Vec.Append", func(n int) func() { a := vec(n); return func() { b, c := a.Clone(), g.VecNew[g.I64](); c.Append(&b) } }},
		{"Vec.Fill", func(n int) func() { a := vec(n); return func() { a.Fill(1) } }},
		{"Vec.FillWith", func(n int) func() { a := vec(n); return func() { a.FillWith(func() g.I64 { return 1 }) } }},
		{"VecDeque.Eq", func(n int) func() { a, b := deque(n), deque(n); return func() { a.Eq(b) } }},
		{"VecDeque.Clone", func(n int) func() { a := deque(n); return func() { a.Clone() } }},
		{"VecDeque.Retain", func(n int) func() { a := deque(n); return func() { b := a.Clone(); b.Retain(odd) } }},
		{"VecDeque.Dedup", func(n int) func() {
			a := deque(n)
			return func() { b := a.Clone(); b.Dedup(func(x g.I64) any { return x / 3 }) }
		}},
		{"VecDeque.Append", func(n int) func() {
			a := deque(n)
			return func() { b, c := a.Clone(), g.VecDequeNew[g.I64](); c.Append(&b) }
		}},
		{"VecDeque.Fill", func(n int) func() { a := deque(n); return func() { a.Fill(1) } }},
		{"VecDeque.FillWith", func(n int) func() { a := deque(n); return func() { a.FillWith(func() g.I64 { return 1 }) } }},
		{"LinkedList.Eq", func(n int) func() { a, b := list(n), list(n); return func() { a.Eq(b) } }},
		{"LinkedList.Clone", func(n int) func() { a := list(n); return func() { a.Clone() } }},
		{"BinaryHeap.IntoSortedVec", func(n int) func() { a := heap(n); return func() { a.IntoSortedVec() } }},
		{"BinaryHeap.Append", func(n int) func() {
			a := heap(n)
			return func() { b, c := heap(n), heap(n); b.Append(&c); b = a; _ = b }
		}},
		{"walking a Vec", walks(func(n int) func() g.Iterator[g.I64] {
			a := vec(n)
			return func() g.Iterator[g.I64] { return a.IntoIter() }
		})},
		{"walking a VecDeque", walks(func(n int) func() g.Iterator[g.I64] {
			a := deque(n)
			return func() g.Iterator[g.I64] { return a.IntoIter() }
		})},
		{"walking a LinkedList", walks(func(n int) func() g.Iterator[g.I64] {
			a := list(n)
			return func() g.Iterator[g.I64] { return a.IntoIter() }
		})},
		{"walking a HashSet", walks(func(n int) func() g.Iterator[g.I64] {
			a := hs(n, 0)
			return func() g.Iterator[g.I64] { return a.IntoIter() }
		})},
		{"walking a BTreeSet", walks(func(n int) func() g.Iterator[g.I64] {
			a := bs(n, 0)
			return func() g.Iterator[g.I64] { return a.IntoIter() }
		})},
		{"walking the keys of a HashMap", walks(func(n int) func() g.Iterator[g.I64] { a := hm(n); return func() g.Iterator[g.I64] { return a.Keys() } })},
		{"walking the values of a HashMap", walks(func(n int) func() g.Iterator[g.I64] {
			a := hm(n)
			return func() g.Iterator[g.I64] { return a.Values() }
		})},
		{"walking the keys of a BTreeMap", walks(func(n int) func() g.Iterator[g.I64] { a := bm(n); return func() g.Iterator[g.I64] { return a.Keys() } })},
		{"walking the values of a BTreeMap", walks(func(n int) func() g.Iterator[g.I64] {
			a := bm(n)
			return func() g.Iterator[g.I64] { return a.Values() }
		})},
	}
	o := ops[t.Intn(len(ops))]
	t.Logf("%s with %d and with %d elements", o.name, small, large)
	t.Label("time of " + o.name)
	t.NoPanic(o.name, func() {
		few, many := o.mk(small), o.mk(large)
		a, b := time.Hour, time.Hour
		for try := 0; try < 40; try++ {
			at := time.Now()
			few()
			a = min(a, time.Since(at))
			at = time.Now()
			many()
			b = min(b, time.Since(at))
			if try >= 2 && (b < 10*time.Millisecond || b < 36*a) {
				t.Stat("longest of the operations on whole containers of 32768 elements, ms", float64(b)/1e6)
				if b >= 10*time.Millisecond {
					t.Stat("greatest growth of time with 8 times the elements, where it takes 10 ms", float64(b)/float64(a))
				}
				return
			}
		}
		t.Failf("%s takes %v with %d elements and %v with %d: more than n log n", o.name, a, small, b, large)
	})
}

func init() { register(C44) }

var _ = fmt.Sprint
