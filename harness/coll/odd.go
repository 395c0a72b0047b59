//go:build maps || all

package coll

import (
	"fmt"
	"math"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// Keys that are comparable, yet unlike the usual: numbers that differ from
// themselves, zeros of both signs, values of several types that print alike,
// and pointers to equal things.

var oddFloats = []g.F64{g.F64(math.NaN()), 0, g.F64(math.Copysign(0, -1)), 1, g.F64(math.Inf(1)), g.F64(math.NaN()), 5e-324}

var oddPlaces = [3]int{7, 7, 7}

var oddAny = []any{
	g.I32(1), g.I64(1), g.U8(1), 1, g.F64(1), g.String("1"), "1", g.F64(math.NaN()), g.Char('1'),
	Item{1, 0}, Item{0, 1}, nil, true, g.Bool(true), &oddPlaces[0], &oddPlaces[1],
	[2]int{1, 2}, g.Pair[g.I32, g.I32]{Key: 1, Value: 2}, struct{}{}, g.I32(-1), g.U8(255), "", g.String(""),
}

type oddEntry[K comparable] struct {
	k K
	v int
}

type oddModel[K comparable] []oddEntry[K]

func (m oddModel[K]) find(k K) int {
	for i, e := range m {
		if e.k == k {
			return i
		}
	}
	return -1
}

func alike[K comparable](a, b K) bool { return a == b || a != a && b != b }

// sameEntries compares bags of entries; values are those of the keys.
func sameEntries[A, B any](a []A, b []B, eq func(A, B) bool) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for _, x := range a {
		for i, y := range b {
			if !used[i] && eq(x, y) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

func runOddMap[K comparable](t *pbt.T, name string, pool []K) {
	t.Label("keys " + name)
	h := g.HashMapNew[K, int]()
	if t.Bool() {
		h = g.HashMapWithCapacity[K, int](g.USize(t.Intn(20)))
	}
	var m oddModel[K]
	for s, n := 0, t.Range(1, 40); s < n; s++ {
		var what string
		t.NoPanic("operation", func() {
			k := pool[t.Intn(len(pool))]
			switch t.Weighted(8, 5, 1) {
			case 0:
				what = fmt.Sprintf("Insert(%T %v, %d)", k, k, s)
				i := m.find(k)
				old := 0
				if i >= 0 {
					t.Nontrivial()
					old, m[i].v = m[i].v, s
				} else {
					m = append(m, oddEntry[K]{k, s})
				}
				wantOpt(t, what, h.Insert(k, s), i >= 0, old)
			case 1:
				what = fmt.Sprintf("Remove(%T %v)", k, k)
				i := m.find(k)
				old := 0
				if i >= 0 {
					t.Nontrivial()
					old = m[i].v
					m = append(m[:i:i], m[i+1:]...)
				}
				wantOpt(t, what, h.Remove(k), i >= 0, old)
			default:
				what = "Clear"
				h.Clear()
				m = nil
			}
			t.Logf("%s -> %d", what, len(m))
			if h.Len() != g.USize(len(m)) || bool(h.IsEmpty()) != (len(m) == 0) {
				t.Failf("after %s: Len %d IsEmpty %v, want %d", what, h.Len(), h.IsEmpty(), len(m))
			}
			for _, k := range pool {
				i, v := m.find(k), 0
				if i >= 0 {
					v = m[i].v
				}
				wantOpt(t, fmt.Sprintf("after %s: Get(%T %v)", what, k, k), h.Get(k), i >= 0, v)
				if bool(h.ContainsKey(k)) != (i >= 0) {
					t.Failf("after %s: ContainsKey(%T %v) = %v", what, k, k, i < 0)
				}
			}
		})
	}
	limit := len(m) + 2
	pairs, _ := drain(h.IntoIter(), limit)
	if !sameEntries(pairs, m, func(p g.Pair[K, int], e oddEntry[K]) bool { return alike(p.Key, e.k) && p.Value == e.v }) {
		t.Failf("IntoIter gives %v, want (of) %v", pairs, m)
	}
	keys, _ := drain(h.Keys(), limit)
	if !sameEntries(keys, m, func(k K, e oddEntry[K]) bool { return alike(k, e.k) }) {
		t.Failf("Keys gives %v, want those of %v", keys, m)
	}
	vals, _ := drain(h.Values(), limit)
	if !sameEntries(vals, m, func(v int, e oddEntry[K]) bool { return v == e.v }) {
		t.Failf("Values gives %v, want those of %v", vals, m)
	}
}

func runOddSet[K comparable](t *pbt.T, name string, pool []K) {
	t.Label("elements " + name)
	h := g.HashSetNew[K]()
	var m oddModel[K]
	for s, n := 0, t.Range(1, 40); s < n; s++ {
		var what string
		t.NoPanic("operation", func() {
			k := pool[t.Intn(len(pool))]
			i := m.find(k)
			switch t.Weighted(8, 5, 1) {
			case 0:
				what = fmt.Sprintf("Insert(%T %v)", k, k)
				if i < 0 {
					m = append(m, oddEntry[K]{k, s})
				} else {
					t.Nontrivial()
				}
				if bool(h.Insert(k)) != (i < 0) {
					t.Failf("%s = %v", what, i >= 0)
				}
			case 1:
				what = fmt.Sprintf("Remove(%T %v)", k, k)
				if i >= 0 {
					t.Nontrivial()
					m = append(m[:i:i], m[i+1:]...)
				}
				if bool(h.Remove(k)) != (i >= 0) {
					t.Failf("%s = %v", what, i < 0)
				}
			default:
				what = "Clear"
				h.Clear()
				m = nil
			}
			t.Logf("%s -> %d", what, len(m))
			if h.Len() != g.USize(len(m)) || bool(h.IsEmpty()) != (len(m) == 0) {
				t.Failf("after %s: Len %d IsEmpty %v, want %d", what, h.Len(), h.IsEmpty(), len(m))
			}
			for _, k := range pool {
				i := m.find(k)
				wantOpt(t, fmt.Sprintf("after %s: Get(%T %v)", what, k, k), h.Get(k), i >= 0, k)
				if bool(h.Contains(k)) != (i >= 0) {
					t.Failf("after %s: Contains(%T %v) = %v", what, k, k, i < 0)
				}
			}
		})
	}
	got, _ := drain(h.IntoIter(), len(m)+2)
	if !sameEntries(got, m, func(k K, e oddEntry[K]) bool { return alike(k, e.k) }) {
		t.Failf("IntoIter gives %v, want those of %v", got, m)
	}
	if got := h.AsSlice(); !sameEntries(got, m, func(k K, e oddEntry[K]) bool { return alike(k, e.k) }) {
		t.Failf("AsSlice gives %v, want those of %v", got, m)
	}
}
