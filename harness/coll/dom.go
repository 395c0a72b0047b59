// Package coll checks the collections of gost against reference models.
package coll

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// Item is an ordered element with an identity: Cmp and Eq look at K only, so
// Tag tells apart elements the library must treat as equal.
type Item struct{ K, Tag int }

func (a Item) Cmp(b Item) g.Ordering {
	if a.K < b.K {
		return g.OrderingLess
	} else if a.K > b.K {
		return g.OrderingGreater
	}
	return g.OrderingEqual
}
func (a Item) Eq(b Item) g.Bool   { return a.K == b.K }
func (a Item) Clone() Item        { return a }
func (a Item) Display() g.String  { return g.String(fmt.Sprintf("<%d.%d>", a.K, a.Tag)) }
func (a Item) Debug() g.String    { return a.Display() }
func (a Item) ToString() g.String { return a.Display() }

// El is what the collections may ask of an element.
type El[T any] interface {
	comparable
	g.Ord[T]
	g.Eq[T]
	g.Clone[T]
	g.Display[T]
}

// Dom generates the elements of one case.
type Dom[T comparable] struct {
	Name string
	N    int           // size of the key universe
	Mk   func(k int) T // a value with key k; ascending in k
	Key  func(T) int
	Comb func(a, b T) T // non-commutative, for Fold
	MapF func(T) T
}

func (d Dom[T]) Gen(t *pbt.T) T { return d.Mk(t.Intn(d.N)) }

func (d Dom[T]) Slice(t *pbt.T, n int) []T {
	r := make([]T, n)
	for i := range r {
		r[i] = d.Gen(t)
	}
	return r
}

func (d Dom[T]) cmp(a, b T) int { return d.Key(a) - d.Key(b) }

func universe(t *pbt.T) int { return pbt.Pick(t, 4, 12, 60, 1000, 100000) }

func itemDom(n int) Dom[Item] {
	tag := 0
	return Dom[Item]{Name: "Item", N: n,
		Mk:   func(k int) Item { tag++; return Item{k, tag} },
		Key:  func(x Item) int { return x.K },
		Comb: func(a, b Item) Item { return Item{(a.K*31 + b.K) % 1000003, (a.Tag*7 + b.Tag) % 1000003} },
		MapF: func(x Item) Item { return Item{x.K*3 + 1, x.Tag + 500000} },
	}
}

func i32Dom(n int) Dom[g.I32] {
	return Dom[g.I32]{Name: "I32", N: n,
		Mk:   func(k int) g.I32 { return g.I32(k - n/2) },
		Key:  func(x g.I32) int { return int(x) + n/2 },
		Comb: func(a, b g.I32) g.I32 { return a*31 + b },
		MapF: func(x g.I32) g.I32 { return x*3 + 7 },
	}
}

func strDom(n int) Dom[g.String] {
	const pre = "é"
	return Dom[g.String]{Name: "String", N: n,
		// ordered bytewise by k; key 0 is the empty string
		Mk: func(k int) g.String {
			if k == 0 {
				return ""
			}
			return g.String(fmt.Sprintf("%s%06d", pre, k))
		},
		Key: func(x g.String) int {
			if x == "" {
				return 0
			}
			k, err := strconv.Atoi(strings.TrimPrefix(string(x), pre))
			if err != nil {
				return -1
			}
			return k
		},
		Comb: func(a, b g.String) g.String {
			s := string(a) + "|" + string(b)
			if len(s) > 40 {
				s = s[len(s)-40:]
			}
			return g.String(s)
		},
		MapF: func(x g.String) g.String { return x + "'" },
	}
}

func pairDom[T comparable](d Dom[T]) Dom[g.Pair[T, T]] {
	type P = g.Pair[T, T]
	return Dom[P]{Name: "Pair[" + d.Name + "]", N: d.N,
		Mk:   func(k int) P { return P{Key: d.Mk(k), Value: d.Mk(k)} },
		Key:  func(p P) int { return d.Key(p.Key) },
		Comb: func(a, b P) P { return P{Key: d.Comb(a.Key, b.Key), Value: d.Comb(b.Value, a.Value)} },
		MapF: func(p P) P { return P{Key: d.MapF(p.Key), Value: p.Value} },
	}
}

func same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameBag compares two slices as multisets.
func sameBag[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	c := map[T]int{}
	for _, x := range a {
		c[x]++
	}
	for _, x := range b {
		c[x]--
		if c[x] < 0 {
			return false
		}
	}
	return true
}

func clone[T any](a []T) []T { return append([]T(nil), a...) }

func rev[T any](a []T) []T {
	r := make([]T, len(a))
	for i, x := range a {
		r[len(a)-1-i] = x
	}
	return r
}

func opt[T any](o g.Option[T]) string {
	if o.IsNone() {
		return "None"
	}
	return fmt.Sprintf("Some(%v)", o.Unwrap())
}

// wantOpt checks an Option against a model value.
func wantOpt[T comparable](t *pbt.T, what string, got g.Option[T], some bool, v T) {
	if bool(got.IsSome()) != some || bool(got.IsNone()) == some || (some && got.Unwrap() != v) {
		w := "None"
		if some {
			w = fmt.Sprintf("Some(%v)", v)
		}
		t.Failf("%s = %s, want %s", what, opt(got), w)
	}
}

// drain takes at most limit elements with Next; done tells whether None came.
func drain[T any](it g.Iterator[T], limit int) (r []T, done bool) {
	for i := 0; i <= limit; i++ {
		o := it.Next()
		if o.IsNone() {
			return r, true
		}
		r = append(r, o.Unwrap())
	}
	return r, false
}

// listOf reads a LinkedList by its iterator.
func listOf[T any](l g.LinkedList[T], limit int) []T {
	r, _ := drain((&l).IntoIter(), limit)
	return r
}

func dedup[T any](m []T, same func(a, b T) bool) []T {
	var r []T
	for _, x := range m {
		if len(r) == 0 || !same(r[len(r)-1], x) {
			r = append(r, x)
		}
	}
	return r
}

func filter[T any](m []T, p func(T) bool) []T {
	r := []T{}
	for _, x := range m {
		if p(x) {
			r = append(r, x)
		}
	}
	return r
}

func insertAt[T any](m []T, i int, x T) []T {
	r := append(clone(m[:i]), x)
	return append(r, m[i:]...)
}

func histLen(t *pbt.T) int {
	if n, ok := t.DictLen(80); ok {
		return n + 1
	}
	switch t.Weighted(5, 6, 3) {
	case 0:
		return t.Range(1, 6)
	case 1:
		return t.Range(1, 25)
	}
	if t.Thorough {
		return t.Range(1, 200)
	}
	return t.Range(1, 80)
}

func burst(t *pbt.T) int { return burstTo(t, 20000) }

// burstTo draws how often an operation is repeated: mostly few times.
func burstTo(t *pbt.T, hi int) int {
	if n, ok := t.DictLen(250); ok {
		return n
	}
	if n, ok := t.Huge(300, hi); ok {
		return n
	}
	if t.Thorough && t.OneIn(20) {
		return t.Intn(pbt.Pick(t, 300, 1200, 1200, 5000))
	}
	return pbt.Pick(t, 1, 2, 3, 5, 8, 9, 16, 33, 70)
}

// mkDeque builds a deque holding exactly m from a generated constructor and
// ring position.
func mkDeque[T El[T]](t *pbt.T, d Dom[T], m []T) g.VecDeque[T] {
	var v g.VecDeque[T]
	if t.Bool() {
		v = g.VecDequeNew[T]()
	} else {
		v = g.VecDequeWithCapacity[T](g.USize(t.Intn(len(m) + 12)))
	}
	// rotate the ring
	for i, k := 0, t.Intn(24); i < k; i++ {
		v.PushBack(d.Mk(0))
		if t.Bool() {
			v.PopFront()
		} else {
			v.PopBack()
		}
	}
	for !v.IsEmpty() {
		v.PopFront()
	}
	// fill from a generated split point to both ends
	c := t.Intn(len(m) + 1)
	i, j := c, c
	mode := t.Intn(3)
	for i > 0 || j < len(m) {
		front := i > 0 && (j >= len(m) || mode == 0 || (mode == 2 && t.Bool()))
		if front {
			i--
			v.PushFront(m[i])
		} else {
			v.PushBack(m[j])
			j++
		}
	}
	return v
}

func takeOut[T comparable](m []T, x T) ([]T, bool) {
	for i, y := range m {
		if y == x {
			return append(clone(m[:i]), m[i+1:]...), true
		}
	}
	return m, false
}

func absInt(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// distinct returns the elements with distinct keys, ascending.
func distinct[T comparable](d Dom[T], xs []T) []T {
	seen := map[int]bool{}
	var r []T
	for _, x := range xs {
		if !seen[d.Key(x)] {
			seen[d.Key(x)] = true
			r = append(r, x)
		}
	}
	sort.Slice(r, func(i, j int) bool { return d.Key(r[i]) < d.Key(r[j]) })
	return r
}

// mkList builds a list holding m from a generated split point.
func mkList[T any](t *pbt.T, m []T) *g.LinkedList[T] {
	l := g.LinkedListNew[T]()
	c := t.Intn(len(m) + 1)
	for i, j := c, c; i > 0 || j < len(m); {
		if i > 0 && (j >= len(m) || t.Bool()) {
			i--
			l.PushFront(m[i])
		} else {
			l.PushBack(m[j])
			j++
		}
	}
	return &l
}

// mkTree builds a map holding the given pairs by a generated history: extra
// keys come and go, so that nodes split, borrow and merge.
func mkTree[K El[K], V any](t *pbt.T, d Dom[K], ks []K, val func(K) V) *g.BTreeMap[K, V] {
	m := g.BTreeMapNew[K, V]()
	keep := map[int]bool{}
	for _, k := range ks {
		keep[d.Key(k)] = true
	}
	order := clone(ks)
	switch t.Intn(3) {
	case 0: // ascending as given
	case 1:
		order = rev(order)
	default:
		for i := len(order) - 1; i > 0; i-- {
			j := t.Intn(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	extra := 0
	if t.Bool() {
		extra = t.Intn(2*len(ks) + 20)
	}
	var junk []K
	for i := 0; i < extra; i++ {
		x := d.Gen(t)
		if !keep[d.Key(x)] {
			junk = append(junk, x)
		}
	}
	for i := 0; i < len(order) || i < len(junk); i++ {
		if i < len(junk) {
			m.Insert(junk[i], val(junk[i]))
		}
		if i < len(order) {
			m.Insert(order[i], val(order[i]))
		}
	}
	for _, x := range junk {
		m.Remove(x)
	}
	detourMap(t, &m, ks, func(i int) V { return val(ks[i]) }, *new(V), junk, func(k K, v V) { m.Insert(k, v) }, func(k K) { m.Remove(k) })
	return &m
}

func listElems[T any](l g.LinkedList[T], max int) []T {
	var r []T
	for i := 0; i <= max; i++ {
		x := l.PopFront()
		if x.IsNone() {
			break
		}
		r = append(r, x.Unwrap())
	}
	return r
}

func kidsN(t *pbt.T, n int) int {
	if n <= 0 {
		return 0
	}
	if t.OneIn(6) {
		return n
	}
	return t.Intn(n + 1)
}

func cloneOf[X any](t *pbt.T, name string, x X) X {
	c, ok := any(x).(g.Clone[X])
	if !ok {
		t.Failf("%s does not satisfy Clone", name)
	}
	return c.Clone()
}

func gen64[X ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](t *pbt.T) X {
	return X(t.Bits(64))
}

func genI128(t *pbt.T) g.I128 {
	x := g.I128_FromI64(g.I64(t.Bits(64)))
	if t.Bool() {
		x = x.Mul(g.I128_FromU64(g.U64(t.Bits(64))))
	}
	return x
}

func genU128(t *pbt.T) g.U128 {
	x := g.U128_FromU64(g.U64(t.Bits(64)))
	if t.Bool() {
		x = x.Mul(g.U128_FromU64(g.U64(t.Bits(64))))
	}
	return x
}

func genFloat(t *pbt.T) float64 {
	switch t.Intn(4) {
	case 0:
		return float64(t.Intn(21)-10) / 4
	case 1:
		return pbt.Pick(t, 0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64)
	case 2:
		f := math.Float64frombits(t.Draw(0))
		if f != f {
			return 1.5
		}
		return f
	}
	return float64(int64(t.Bits(64)))
}

var props = map[string]*pbt.Prop{}

func register(ps ...*pbt.Prop) {
	for _, p := range ps {
		props[p.ID] = p
	}
}

// pattern draws a key sequence of length n with a recognisable order.
func pattern(t *pbt.T, n, universe int) []int {
	ks := make([]int, n)
	kind := t.Intn(9)
	mod := t.Range(1, 6)
	for i := range ks {
		switch kind {
		case 0, 1:
			ks[i] = t.Intn(universe)
		case 2: // ascending
			ks[i] = i % universe
		case 3: // descending
			ks[i] = (n - 1 - i) % universe
		case 4: // organ pipe
			ks[i] = min(i, n-1-i) % universe
		case 5: // few values
			ks[i] = t.Intn(min(mod, universe))
		case 6: // saw tooth
			ks[i] = (i % (mod + 2)) % universe
		case 7: // all equal
			ks[i] = 0
		default: // ascending with a few strays
			ks[i] = i % universe
			if t.OneIn(12) {
				ks[i] = t.Intn(universe)
			}
		}
	}
	t.Label([]string{"random", "random", "ascending", "descending", "organ pipe", "few values", "saw tooth", "all equal", "nearly sorted"}[kind])
	return ks
}

// peek reads the collection p points to in one of the ways that must not
// change it. What it reads may be anything: its elements can be zero values
// whose methods panic.
func peek(t *pbt.T, p any) {
	name := pbt.Pick(t, "Display", "Debug", "Clone", "IntoIter", "Eq", "Keys", "Values", "AsSlice", "AsMap", "Len", "Contains")
	v := reflect.ValueOf(p)
	pbt.Catch(func() {
		m := v.MethodByName(name)
		if !m.IsValid() {
			m = v.MethodByName("Display")
		}
		if !m.IsValid() {
			return
		}
		var in []reflect.Value
		switch name {
		case "Eq":
			in = []reflect.Value{v.Elem()}
		case "Contains":
			in = []reflect.Value{reflect.Zero(m.Type().In(0))}
		}
		out := m.Call(in)
		switch name {
		case "IntoIter", "Keys", "Values":
			if t.Bool() {
				out[0].MethodByName("CollectToVec").Call(nil)
				return
			}
			next := out[0].MethodByName("Next")
			for i, n := 0, t.Intn(40); i < n; i++ {
				next.Call(nil)
			}
		}
	})
}

// detour runs round a few times when the collection is small: round leads
// through a different state with contents of its own and back again.
func detour(t *pbt.T, n int, round func()) {
	if n == 0 || n > 300 || !t.OneIn(4) {
		return
	}
	for i, k := 0, t.Range(1, 2); i < k; i++ {
		round()
	}
}

// detourVec has another element in some place for a while.
func detourVec[E any](t *pbt.T, v *g.Vec[E], other E) {
	n := int(v.Len())
	detour(t, n, func() {
		i := g.USize(t.Intn(n))
		x := v.GetUnchecked(i)
		switch t.Intn(3) {
		case 0:
			v.Set(i, other)
			peek(t, v)
			v.Set(i, x)
		case 1:
			v.Swap(i, 0)
			peek(t, v)
			v.Swap(0, i)
		default:
			x = v.Pop().Unwrap()
			v.Push(other)
			peek(t, v)
			v.Pop()
			v.Push(x)
		}
	})
}

func detourDeque[E any](t *pbt.T, v *g.VecDeque[E], other E) {
	n := int(v.Len())
	detour(t, n, func() {
		i := g.USize(t.Intn(n))
		x := v.GetUnchecked(i)
		switch t.Intn(4) {
		case 0:
			v.Set(i, other)
			peek(t, v)
			v.Set(i, x)
		case 1:
			v.Swap(i, 0)
			peek(t, v)
			v.Swap(0, i)
		case 2:
			x = v.PopBack().Unwrap()
			v.PushFront(x)
			peek(t, v)
			v.PopFront()
			v.PushBack(x)
		default:
			x = v.PopFront().Unwrap()
			v.PushFront(other)
			peek(t, v)
			v.PopFront()
			v.PushFront(x)
		}
	})
}

func detourList[E any](t *pbt.T, v *g.LinkedList[E], other E) {
	n := int(v.Len())
	detour(t, n, func() {
		switch t.Intn(4) {
		case 0:
			p := v.Back().Unwrap()
			x := *p
			*p = other
			peek(t, v)
			*p = x
		case 1:
			x := v.PopBack().Unwrap()
			v.PushFront(x)
			peek(t, v)
			v.PopFront()
			v.PushBack(x)
		case 2:
			x := v.PopFront().Unwrap()
			v.PushBack(other)
			peek(t, v)
			v.PopBack()
			v.PushFront(x)
		default:
			x := v.PopBack().Unwrap()
			v.PushBack(other)
			peek(t, v)
			v.PopBack()
			v.PushBack(x)
		}
	})
}

// detourSet swaps a member for another element, which it does not hold.
func detourSet[E any](t *pbt.T, v any, ks []E, others []E, insert func(E), remove func(E)) {
	if len(others) == 0 {
		return
	}
	detour(t, len(ks), func() {
		x, y := ks[t.Intn(len(ks))], others[t.Intn(len(others))]
		remove(x)
		insert(y)
		peek(t, v)
		remove(y)
		insert(x)
	})
}

// detourMap does the same to keys, or overwrites a value.
func detourMap[K, V any](t *pbt.T, v any, ks []K, val func(i int) V, other V, others []K, insert func(K, V), remove func(K)) {
	detour(t, len(ks), func() {
		i := t.Intn(len(ks))
		if len(others) == 0 || t.Bool() {
			insert(ks[i], other)
			peek(t, v)
			insert(ks[i], val(i))
			return
		}
		y := others[t.Intn(len(others))]
		remove(ks[i])
		insert(y, val(i))
		peek(t, v)
		remove(y)
		insert(ks[i], val(i))
	})
}
