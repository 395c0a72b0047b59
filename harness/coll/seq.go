//go:build seqs || all

package coll

import (
	"fmt"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// ---- C10 ----

var C10 = &pbt.Prop{
	ID:    "C10",
	Rule:  "histories of Vec operations (1..80, thorough 1..200) on two Vecs of Item (Eq ignores the identity tag), I32 or String over small to large key universes, compared after every step with a slice; non-trivial = at least one removing or reordering operation on a Vec of two or more elements",
	Quick: 400000, Thorough: 16000000,
	Run: func(t *pbt.T) {
		n := universe(t)
		switch t.Intn(3) {
		case 0:
			runVec(t, itemDom(n))
		case 1:
			runVec(t, i32Dom(n))
		default:
			runVec(t, strDom(n))
		}
	},
	Assumptions: []string{"element Eq/Cmp/Clone are lawful", "Insert is called with index <= Len, Swap/GetUnchecked/SetUnchecked with valid indices", "keys returned to DedupByKey are comparable Go values"},
}

func obsVec[T El[T]](t *pbt.T, d Dom[T], what string, v *g.Vec[T], m []T) {
	if got := v.AsSlice(); !same(got, m) {
		t.Failf("after %s: AsSlice = %s, want %s", what, pbt.Show(got), pbt.Show(m))
	}
	if v.Len() != g.USize(len(m)) || bool(v.IsEmpty()) != (len(m) == 0) {
		t.Failf("after %s: Len %d IsEmpty %v, want %d", what, v.Len(), v.IsEmpty(), len(m))
	}
	step := 1
	if len(m) > 64 {
		step = 7
	}
	for i := 0; i < len(m); i += step {
		if o := v.Get(g.USize(i)); bool(o.IsNone()) || o.Unwrap() != m[i] {
			wantOpt(t, fmt.Sprintf("after %s: Get(%d)", what, i), o, true, m[i])
		}
		if v.GetUnchecked(g.USize(i)) != m[i] {
			t.Failf("after %s: GetUnchecked(%d) = %v, want %v", what, i, v.GetUnchecked(g.USize(i)), m[i])
		}
	}
	var z T
	wantOpt(t, fmt.Sprintf("after %s: Get(Len)", what), v.Get(g.USize(len(m))), false, z)
	wantOpt(t, fmt.Sprintf("after %s: Get(max)", what), v.Get(^g.USize(0)), false, z)
}

func runVec[T El[T]](t *pbt.T, d Dom[T]) {
	t.Label("elements " + d.Name)
	var v [2]g.Vec[T]
	var m [2][]T
	for i := range v {
		switch t.Intn(3) {
		case 0:
			v[i] = g.VecNew[T]()
		case 1:
			c := t.Intn(20)
			v[i] = g.VecWithCapacity[T](g.USize(c))
		default:
			l := t.Intn(6)
			v[i] = g.VecWithLen[T](g.USize(l))
			m[i] = make([]T, l)
		}
		obsVec(t, d, "construction", &v[i], m[i])
	}
	eq := func(a, b T) bool { return bool(a.Eq(b)) }
	steps := histLen(t)
	for s := 0; s < steps; s++ {
		x := 0
		if t.OneIn(5) {
			x = 1
		}
		vec, mod := &v[x], m[x]
		var what string
		op := t.Weighted(6, 5, 5, 4, 4, 2, 3, 3, 3, 4, 4, 2, 1, 1, 1, 2, 3)
		if len(mod) >= 2 && op != 0 && op != 1 && op != 12 && op != 16 {
			t.Nontrivial()
		}
		t.NoPanic("operation", func() {
			switch op {
			case 0:
				e := d.Gen(t)
				what = fmt.Sprintf("v%d.Push(%v)", x, e)
				vec.Push(e)
				mod = append(clone(mod), e)
			case 1:
				k := burstTo(t, 140000)
				es := d.Slice(t, k)
				what = fmt.Sprintf("v%d push %d elements", x, k)
				mod = append(clone(mod), es...)
				for _, e := range es {
					vec.Push(e)
				}
			case 2:
				what = fmt.Sprintf("v%d.Pop()", x)
				got := vec.Pop()
				if len(mod) == 0 {
					var z T
					wantOpt(t, what, got, false, z)
				} else {
					wantOpt(t, what, got, true, mod[len(mod)-1])
					mod = clone(mod[:len(mod)-1])
				}
			case 3:
				i, e := t.Intn(len(mod)+1), d.Gen(t)
				what = fmt.Sprintf("v%d.Insert(%d, %v)", x, i, e)
				vec.Insert(g.USize(i), e)
				mod = insertAt(mod, i, e)
			case 4:
				e := d.Gen(t)
				i := t.Intn(len(mod) + 3)
				if i < len(mod) && t.OneIn(3) {
					what = fmt.Sprintf("v%d.SetUnchecked(%d, %v)", x, i, e)
					vec.SetUnchecked(g.USize(i), e)
					mod = clone(mod)
					mod[i] = e
					break
				}
				what = fmt.Sprintf("v%d.Set(%d, %v)", x, i, e)
				got := vec.Set(g.USize(i), e)
				if i < len(mod) {
					var z T
					wantOpt(t, what, got, false, z)
					mod = clone(mod)
					mod[i] = e
				} else {
					wantOpt(t, what, got, true, e)
				}
			case 5:
				if len(mod) == 0 {
					return
				}
				i, j := t.Intn(len(mod)), t.Intn(len(mod))
				what = fmt.Sprintf("v%d.Swap(%d, %d)", x, i, j)
				vec.Swap(g.USize(i), g.USize(j))
				mod = clone(mod)
				mod[i], mod[j] = mod[j], mod[i]
			case 6:
				o := 1 - x
				what = fmt.Sprintf("v%d.Append(v%d)", x, o)
				vec.Append(&v[o])
				mod = append(clone(mod), m[o]...)
				m[o] = nil
				obsVec(t, d, what+" (other)", &v[o], m[o])
			case 7:
				mo, r := t.Range(1, 5), t.Intn(5)
				what = fmt.Sprintf("v%d.Retain(key%%%d != %d)", x, mo, r)
				p := func(e T) bool { return d.Key(e)%mo != r }
				vec.Retain(func(e T) g.Bool { return g.Bool(p(e)) })
				mod = filter(mod, p)
			case 8:
				what = fmt.Sprintf("v%d.Dedup()", x)
				vec.Dedup()
				mod = dedup(mod, eq)
			case 9:
				mo := t.Range(1, 6)
				form := t.Intn(4)
				what = fmt.Sprintf("v%d.DedupByKey(key/%d, form %d)", x, mo, form)
				k := func(e T) any { return anyKey(d.Key(e)/mo, form) }
				vec.DedupByKey(k)
				mod = dedup(mod, func(a, b T) bool { return k(a) == k(b) })
			case 10:
				what = fmt.Sprintf("v%d.Reverse()", x)
				vec.Reverse()
				mod = rev(mod)
			case 11:
				e := d.Gen(t)
				what = fmt.Sprintf("v%d.Fill(%v)", x, e)
				vec.Fill(e)
				mod = clone(mod)
				for i := range mod {
					mod[i] = e
				}
			case 12:
				base := t.Intn(d.N)
				what = fmt.Sprintf("v%d.FillWith(counter from %d)", x, base)
				var out []T
				c := 0
				vec.FillWith(func() T {
					e := d.Mk((base + c) % d.N)
					c++
					out = append(out, e)
					return e
				})
				if len(out) != len(mod) {
					t.Failf("%s called the closure %d times for %d elements", what, len(out), len(mod))
				}
				mod = out
			case 13:
				what = fmt.Sprintf("v%d.Clear()", x)
				vec.Clear()
				mod = nil
			case 14:
				k := t.Intn(200)
				what = fmt.Sprintf("v%d.Reserve(%d)", x, k)
				vec.Reserve(g.USize(k))
			case 15:
				k := t.Intn(len(mod) + 2)
				what = fmt.Sprintf("v%d pop %d elements", x, k)
				for i := 0; i < k; i++ {
					got := vec.Pop()
					if len(mod) == 0 {
						var z T
						wantOpt(t, what, got, false, z)
					} else {
						wantOpt(t, what, got, true, mod[len(mod)-1])
						mod = mod[:len(mod)-1]
					}
				}
			case 16:
				e := d.Gen(t)
				if len(mod) > 0 && t.Bool() {
					e = d.Mk(d.Key(mod[t.Intn(len(mod))]))
				}
				what = fmt.Sprintf("v%d.Contains(%v)", x, e)
				want := false
				for _, y := range mod {
					want = want || eq(y, e)
				}
				if got := bool(vec.Contains(e)); got != want {
					t.Failf("%s = %v, want %v on %s", what, got, want, pbt.Show(mod))
				}
			}
		})
		t.Logf("%s -> len %d", what, len(mod))
		m[x] = mod
		obsVec(t, d, what, vec, mod)
		t.LabelIf(len(mod) > 64, "more than 64 elements")
	}
	for i := range v {
		obsVec(t, d, "the history", &v[i], m[i])
	}
}

// ---- C11 ----

var C11 = &pbt.Prop{
	ID:    "C11",
	Rule:  "histories of VecDeque operations on two deques from every constructor with capacities 0..20, pushing and popping at both ends so that the ring wraps, grows while wrapped and is shrunk by Retain/Dedup, compared after every step with a slice; 1 case in 24 works on a ring of up to 1500 slots of distinct elements that is filled, turned to a chosen head position (0, 1, the middle, one off the middle, the last slot, anywhere) and then grown or shrunk by every way there is; non-trivial = both ends were used and the deque grew past its first capacity or lost elements at its front",
	Quick: 300000, Thorough: 12000000,
	Run: func(t *pbt.T) {
		if t.OneIn(24) {
			runRing(t)
			return
		}
		n := universe(t)
		switch t.Intn(3) {
		case 0:
			runDeque(t, itemDom(n))
		case 1:
			runDeque(t, i32Dom(n))
		default:
			runDeque(t, strDom(n))
		}
	},
	Assumptions: []string{"Swap, GetUnchecked and SetUnchecked are called with valid indices", "Dedup's key function returns comparable Go values and elements with equal keys are Eq (the element's own Eq and the key agree)"},
}

func obsDeque[T El[T]](t *pbt.T, d Dom[T], what string, v *g.VecDeque[T], m []T) {
	if v.Len() != g.USize(len(m)) || bool(v.IsEmpty()) != (len(m) == 0) {
		t.Failf("after %s: Len %d IsEmpty %v, want %d", what, v.Len(), v.IsEmpty(), len(m))
	}
	step := 1
	if len(m) > 64 {
		step = 5
	}
	for i := 0; i < len(m); i += step {
		if o := v.Get(g.USize(i)); bool(o.IsNone()) || o.Unwrap() != m[i] {
			wantOpt(t, fmt.Sprintf("after %s: Get(%d)", what, i), o, true, m[i])
		}
		if v.GetUnchecked(g.USize(i)) != m[i] {
			t.Failf("after %s: GetUnchecked(%d) = %v, want %v", what, i, v.GetUnchecked(g.USize(i)), m[i])
		}
	}
	var z T
	wantOpt(t, fmt.Sprintf("after %s: Get(Len)", what), v.Get(g.USize(len(m))), false, z)
	wantOpt(t, fmt.Sprintf("after %s: Get(max)", what), v.Get(^g.USize(0)), false, z)
	f, b := z, z
	if len(m) > 0 {
		f, b = m[0], m[len(m)-1]
	}
	wantOpt(t, "after "+what+": Front()", v.Front(), len(m) > 0, f)
	wantOpt(t, "after "+what+": Back()", v.Back(), len(m) > 0, b)
	if got := v.AsSlice(); !same(got, m) {
		t.Failf("after %s: AsSlice = %s, want %s", what, pbt.Show(got), pbt.Show(m))
	}
}

// runRing: a large ring of distinct elements, filled to a chosen size, with
// its head at a chosen slot, and then grown or shrunk, compared with a slice.
func runRing(t *pbt.T) {
	t.Label("large ring")
	c := pbt.Pick(t, 1, 2, 3, 5, 7, 14, 16, 28, 31, 56, 64, 100, 112, 128, 200, 224, 256, 448, 500, 512, 896, 1000, 1024)
	if t.OneIn(3) {
		c = t.Range(1, 1500)
	}
	next := g.I64(0)
	fresh := func() g.I64 { next++; return next }
	v := g.VecDequeNew[g.I64]()
	if t.OneIn(3) {
		t.Logf("ring grown by itself, aiming at %d slots", c)
	} else {
		v = g.VecDequeWithCapacity[g.I64](g.USize(c))
		t.Logf("ring with capacity %d", c)
	}
	var m []g.I64
	d := Dom[g.I64]{Name: "distinct I64"}
	push := func(k int, front bool) {
		for i := 0; i < k; i++ {
			e := fresh()
			if front {
				v.PushFront(e)
				m = append([]g.I64{e}, m...)
			} else {
				v.PushBack(e)
				m = append(m, e)
			}
		}
	}
	// turn moves the head k slots on without changing the number of elements.
	turn := func(k int) {
		for i := 0; i < k && len(m) > 0; i++ {
			e := fresh()
			if got := v.PopFront(); got.IsNone() || got.Unwrap() != m[0] {
				t.Failf("turning a ring of %d: PopFront did not return the front %v", len(m), m[0])
			}
			v.PushBack(e)
			m = append(m[1:], e)
		}
	}
	rounds := t.Range(1, 4)
	for r := 0; r < rounds; r++ {
		var what string
		t.NoPanic("operation", func() {
			slots := int(v.Capacity())
			if slots == 0 {
				slots = c
			}
			if slots > 6000 {
				return
			}
			// how full the ring is before it is turned
			full := pbt.Pick(t, slots, slots, slots, slots-1, slots/2, slots/2+1, slots/3, t.Intn(slots+1))
			byFront := t.OneIn(3)
			for len(m) > full {
				if byFront {
					v.PopFront()
					m = m[1:]
				} else {
					v.PopBack()
					m = m[:len(m)-1]
				}
			}
			push(full-len(m), byFront)
			h := pbt.Pick(t, 0, 1, 2, slots/2, slots/2+1, slots/2-1, slots/3, slots-1, slots-2, t.Intn(slots+1))
			turn(h)
			// and back again by the other end
			if t.OneIn(3) {
				k := pbt.Pick(t, 1, 2, 3, slots/2)
				for i := 0; i < k && len(m) > 0; i++ {
					v.PopBack()
					e := fresh()
					v.PushFront(e)
					m = append([]g.I64{e}, m[:len(m)-1]...)
				}
			}
			what = fmt.Sprintf("ring of %d slots holding %d, turned by %d", slots, full, h)
			obsDeque(t, d, what, &v, m)
			k := pbt.Pick(t, 1, 2, 3, slots/2, slots, slots+1, 2*slots, t.Intn(slots+2))
			switch t.Intn(8) {
			case 0, 1:
				what += fmt.Sprintf(", then %d pushed at the back", k)
				push(k, false)
			case 2:
				what += fmt.Sprintf(", then %d pushed at the front", k)
				push(k, true)
			case 3, 4:
				what += fmt.Sprintf(", then Reserve(%d)", k)
				v.Reserve(g.USize(k))
			case 5:
				what += fmt.Sprintf(", then Append of a turned ring of %d", k)
				o := g.VecDequeWithCapacity[g.I64](g.USize(k))
				var om []g.I64
				for i := 0; i < k; i++ {
					e := fresh()
					if i%3 == 1 {
						o.PushFront(e)
						om = append([]g.I64{e}, om...)
					} else {
						o.PushBack(e)
						om = append(om, e)
					}
				}
				v.Append(&o)
				m = append(clone(m), om...)
				obsDeque(t, d, what+" (the other)", &o, nil)
			case 6:
				mo := g.I64(t.Range(2, 5))
				what += fmt.Sprintf(", then Retain(not a multiple of %d)", mo)
				v.Retain(func(e g.I64) g.Bool { return e%mo != 0 })
				m = filter(m, func(e g.I64) bool { return e%mo != 0 })
			default:
				mo := g.I64(t.Range(2, 5))
				what += fmt.Sprintf(", then Dedup(e/%d)", mo)
				v.Dedup(func(e g.I64) any { return e / mo })
				m = dedup(m, func(a, b g.I64) bool { return a/mo == b/mo })
			}
		})
		if what == "" {
			break
		}
		t.Logf("%s -> len %d", what, len(m))
		obsDeque(t, d, what, &v, m)
		t.Nontrivial()
	}
	got, done := drain(v.IntoIter(), len(m)+3)
	if !done || !same(got, m) {
		t.Failf("iteration of the ring gives %s, want %s", pbt.Show(got), pbt.Show(m))
	}
}

func runDeque[T El[T]](t *pbt.T, d Dom[T]) {
	t.Label("elements " + d.Name)
	var v [2]g.VecDeque[T]
	var m [2][]T
	for i := range v {
		switch t.Intn(3) {
		case 0:
			v[i] = g.VecDequeNew[T]()
		case 1:
			c := t.Intn(21)
			v[i] = g.VecDequeWithCapacity[T](g.USize(c))
			t.Logf("d%d = WithCapacity(%d)", i, c)
		default:
			l := t.Intn(9)
			v[i] = g.VecDequeWithLen[T](g.USize(l))
			m[i] = make([]T, l)
			t.Logf("d%d = WithLen(%d)", i, l)
		}
		obsDeque(t, d, "construction", &v[i], m[i])
	}
	eq := func(a, b T) bool { return bool(a.Eq(b)) }
	front, backs, lost := false, false, false
	steps := histLen(t)
	for s := 0; s < steps; s++ {
		x := 0
		if t.OneIn(5) {
			x = 1
		}
		vec, mod := &v[x], m[x]
		var what string
		op := t.Weighted(6, 6, 4, 4, 3, 3, 2, 3, 3, 2, 2, 1, 1, 1, 2, 3, 3, 4)
		t.NoPanic("operation", func() {
			switch op {
			case 0:
				e := d.Gen(t)
				what = fmt.Sprintf("d%d.PushBack(%v)", x, e)
				vec.PushBack(e)
				mod = append(clone(mod), e)
				backs = true
			case 1:
				e := d.Gen(t)
				what = fmt.Sprintf("d%d.PushFront(%v)", x, e)
				vec.PushFront(e)
				mod = insertAt(mod, 0, e)
				front = true
			case 2:
				what = fmt.Sprintf("d%d.PopFront()", x)
				got := vec.PopFront()
				if len(mod) == 0 {
					var z T
					wantOpt(t, what, got, false, z)
				} else {
					wantOpt(t, what, got, true, mod[0])
					mod = clone(mod[1:])
					lost = true
				}
			case 3:
				what = fmt.Sprintf("d%d.PopBack()", x)
				got := vec.PopBack()
				if len(mod) == 0 {
					var z T
					wantOpt(t, what, got, false, z)
				} else {
					wantOpt(t, what, got, true, mod[len(mod)-1])
					mod = clone(mod[:len(mod)-1])
				}
			case 4:
				k := burstTo(t, 140000)
				what = fmt.Sprintf("d%d push back %d elements", x, k)
				es := d.Slice(t, k)
				mod = append(clone(mod), es...)
				for _, e := range es {
					vec.PushBack(e)
				}
				backs = true
			case 5:
				k := burstTo(t, 140000)
				what = fmt.Sprintf("d%d push front %d elements", x, k)
				es := d.Slice(t, k)
				mod = append(rev(es), mod...)
				for _, e := range es {
					vec.PushFront(e)
				}
				front = true
			case 6:
				o := 1 - x
				what = fmt.Sprintf("d%d.Append(d%d)", x, o)
				vec.Append(&v[o])
				mod = append(clone(mod), m[o]...)
				m[o] = nil
				obsDeque(t, d, what+" (other)", &v[o], m[o])
			case 7:
				mo, r := t.Range(1, 5), t.Intn(5)
				what = fmt.Sprintf("d%d.Retain(key%%%d != %d)", x, mo, r)
				p := func(e T) bool { return d.Key(e)%mo != r }
				vec.Retain(func(e T) g.Bool { return g.Bool(p(e)) })
				mod = filter(mod, p)
			case 8:
				mo := pbt.Pick(t, 1, 1, 2, 3, 7)
				form := t.Intn(4)
				what = fmt.Sprintf("d%d.Dedup(key/%d, form %d)", x, mo, form)
				k := func(e T) any { return anyKey(d.Key(e)/mo, form) }
				vec.Dedup(k)
				mod = dedup(mod, func(a, b T) bool { return k(a) == k(b) })
			case 9:
				if len(mod) == 0 {
					return
				}
				i, j := t.Intn(len(mod)), t.Intn(len(mod))
				what = fmt.Sprintf("d%d.Swap(%d, %d)", x, i, j)
				vec.Swap(g.USize(i), g.USize(j))
				mod = clone(mod)
				mod[i], mod[j] = mod[j], mod[i]
			case 10:
				e := d.Gen(t)
				i := t.Intn(len(mod) + 3)
				if i < len(mod) && t.OneIn(3) {
					what = fmt.Sprintf("d%d.SetUnchecked(%d, %v)", x, i, e)
					vec.SetUnchecked(g.USize(i), e)
					mod = clone(mod)
					mod[i] = e
					break
				}
				what = fmt.Sprintf("d%d.Set(%d, %v)", x, i, e)
				got := vec.Set(g.USize(i), e)
				if i < len(mod) {
					var z T
					wantOpt(t, what, got, false, z)
					mod = clone(mod)
					mod[i] = e
				} else {
					wantOpt(t, what, got, true, e)
				}
			case 11:
				e := d.Gen(t)
				what = fmt.Sprintf("d%d.Fill(%v)", x, e)
				vec.Fill(e)
				mod = clone(mod)
				for i := range mod {
					mod[i] = e
				}
			case 12:
				base := t.Intn(d.N)
				what = fmt.Sprintf("d%d.FillWith(counter from %d)", x, base)
				var out []T
				c := 0
				vec.FillWith(func() T {
					e := d.Mk((base + c) % d.N)
					c++
					out = append(out, e)
					return e
				})
				if len(out) != len(mod) {
					t.Failf("%s called the closure %d times for %d elements", what, len(out), len(mod))
				}
				mod = out
			case 13:
				what = fmt.Sprintf("d%d.Clear()", x)
				vec.Clear()
				mod = nil
			case 14:
				k := pbt.Pick(t, 0, 1, 2, 3, 5, 9, 40)
				what = fmt.Sprintf("d%d.Reserve(%d)", x, k)
				vec.Reserve(g.USize(k))
			case 15:
				e := d.Gen(t)
				if len(mod) > 0 && t.Bool() {
					e = d.Mk(d.Key(mod[t.Intn(len(mod))]))
				}
				what = fmt.Sprintf("d%d.Contains(%v)", x, e)
				want := false
				for _, y := range mod {
					want = want || eq(y, e)
				}
				if got := bool(vec.Contains(e)); got != want {
					t.Failf("%s = %v, want %v on %s", what, got, want, pbt.Show(mod))
				}
			case 16: // rotate
				k := t.Range(1, 12)
				what = fmt.Sprintf("d%d rotate %d", x, k)
				for i := 0; i < k && len(mod) > 0; i++ {
					e := vec.PopFront()
					wantOpt(t, what+": PopFront", e, true, mod[0])
					vec.PushBack(mod[0])
					mod = append(clone(mod[1:]), mod[0])
					lost, backs = true, true
				}
			case 17:
				k := t.Intn(len(mod) + 2)
				what = fmt.Sprintf("d%d pop front %d elements", x, k)
				for i := 0; i < k; i++ {
					got := vec.PopFront()
					if len(mod) == 0 {
						var z T
						wantOpt(t, what, got, false, z)
					} else {
						wantOpt(t, what, got, true, mod[0])
						mod = mod[1:]
						lost = true
					}
				}
			}
		})
		t.Logf("%s -> len %d", what, len(mod))
		m[x] = mod
		obsDeque(t, d, what, vec, mod)
		if (front && backs && len(mod) > 7) || (lost && backs && len(mod) > 1) {
			t.Nontrivial()
		}
		t.LabelIf(front && backs, "both ends")
		t.LabelIf(len(mod) > 14, "grew twice")
	}
	for i := range v {
		obsDeque(t, d, "the history", &v[i], m[i])
		got, done := drain(v[i].IntoIter(), len(m[i])+3)
		if !done || !same(got, m[i]) {
			t.Failf("iteration of d%d gives %s, want %s", i, pbt.Show(got), pbt.Show(m[i]))
		}
	}
}

// ---- C12 ----

var C12 = &pbt.Prop{
	ID:    "C12",
	Rule:  "histories of LinkedList operations on three lists (pushes and pops at both ends, Append in any direction, Clear, writes through Front/Back pointers), compared after every step with slices, forwards and by popping from the back; non-trivial = an Append of or to a non-empty list, or pops from both ends",
	Quick: 400000, Thorough: 16000000,
	Run: func(t *pbt.T) {
		n := universe(t)
		switch t.Intn(2) {
		case 0:
			runList(t, itemDom(n))
		default:
			runList(t, strDom(n))
		}
	},
	Assumptions: []string{"a list is never appended to itself"},
}

func obsList[T El[T]](t *pbt.T, what string, l *g.LinkedList[T], m []T) {
	if l.Len() != g.USize(len(m)) || bool(l.IsEmpty()) != (len(m) == 0) {
		t.Failf("after %s: Len %d IsEmpty %v, want %d", what, l.Len(), l.IsEmpty(), len(m))
	}
	got, done := drain(l.IntoIter(), len(m)+3)
	if !done || !same(got, m) {
		t.Failf("after %s: the list is %s, want %s", what, pbt.Show(got), pbt.Show(m))
	}
	ptr := func(name string, o g.Option[*T], i int) {
		if len(m) == 0 {
			if o.IsSome() {
				t.Failf("after %s: %s of an empty list = Some(%v)", what, name, *o.Unwrap())
			}
			return
		}
		if o.IsNone() || *o.Unwrap() != m[i] {
			t.Failf("after %s: %s is not %v", what, name, m[i])
		}
	}
	ptr("Front()", l.Front(), 0)
	ptr("Back()", l.Back(), len(m)-1)
}

func runList[T El[T]](t *pbt.T, d Dom[T]) {
	t.Label("elements " + d.Name)
	var l [3]g.LinkedList[T]
	var m [3][]T
	for i := range l {
		l[i] = g.LinkedListNew[T]()
	}
	pf, pb := false, false
	steps := histLen(t)
	for s := 0; s < steps; s++ {
		x := t.Weighted(4, 2, 1)
		li, mod := &l[x], m[x]
		var what string
		t.NoPanic("operation", func() {
			switch t.Weighted(6, 6, 4, 4, 4, 1, 2, 2, 2) {
			case 0:
				e := d.Gen(t)
				what = fmt.Sprintf("l%d.PushBack(%v)", x, e)
				li.PushBack(e)
				mod = append(clone(mod), e)
			case 1:
				e := d.Gen(t)
				what = fmt.Sprintf("l%d.PushFront(%v)", x, e)
				li.PushFront(e)
				mod = insertAt(mod, 0, e)
			case 2:
				what = fmt.Sprintf("l%d.PopBack()", x)
				got := li.PopBack()
				if len(mod) == 0 {
					var z T
					wantOpt(t, what, got, false, z)
				} else {
					wantOpt(t, what, got, true, mod[len(mod)-1])
					mod = clone(mod[:len(mod)-1])
					pb = true
				}
			case 3:
				what = fmt.Sprintf("l%d.PopFront()", x)
				got := li.PopFront()
				if len(mod) == 0 {
					var z T
					wantOpt(t, what, got, false, z)
				} else {
					wantOpt(t, what, got, true, mod[0])
					mod = clone(mod[1:])
					pf = true
				}
			case 4:
				o := (x + 1 + t.Intn(2)) % 3
				what = fmt.Sprintf("l%d.Append(l%d)", x, o)
				if len(mod) > 0 || len(m[o]) > 0 {
					t.Nontrivial()
					t.Label("append")
				}
				li.Append(&l[o])
				mod = append(clone(mod), m[o]...)
				m[o] = nil
				obsList(t, what+" (other)", &l[o], m[o])
			case 5:
				what = fmt.Sprintf("l%d.Clear()", x)
				li.Clear()
				mod = nil
			case 6:
				if len(mod) == 0 {
					return
				}
				e := d.Gen(t)
				mod = clone(mod)
				if t.Bool() {
					what = fmt.Sprintf("*l%d.Front() = %v", x, e)
					*li.Front().Unwrap() = e
					mod[0] = e
				} else {
					what = fmt.Sprintf("*l%d.Back() = %v", x, e)
					*li.Back().Unwrap() = e
					mod[len(mod)-1] = e
				}
			case 7: // pop everything from the back: checks the prev links
				what = fmt.Sprintf("pop all of l%d from the back", x)
				for len(mod) > 0 {
					wantOpt(t, what, li.PopBack(), true, mod[len(mod)-1])
					mod = mod[:len(mod)-1]
				}
				mod = nil
			case 8:
				k := burstTo(t, 140000)
				what = fmt.Sprintf("l%d push %d", x, k)
				mod = clone(mod)
				for _, e := range d.Slice(t, k) {
					li.PushBack(e)
					mod = append(mod, e)
				}
			}
		})
		if pf && pb {
			t.Nontrivial()
		}
		t.Logf("%s -> len %d", what, len(mod))
		m[x] = mod
		obsList(t, what, li, mod)
	}
	for i := range l {
		obsList(t, "the history", &l[i], m[i])
		for j := len(m[i]) - 1; j >= 0; j-- {
			wantOpt(t, fmt.Sprintf("final PopBack of l%d", i), l[i].PopBack(), true, m[i][j])
		}
	}
}

// ---- C13 ----

var C13 = &pbt.Prop{
	ID:    "C13",
	Rule:  "histories of BinaryHeap operations on two heaps with many equal keys (elements carry identity tags), compared with a multiset; ends by emptying both; non-trivial = a Pop from a heap of three or more elements",
	Quick: 400000, Thorough: 16000000,
	Run: func(t *pbt.T) {
		n := universe(t)
		switch t.Intn(3) {
		case 0, 1:
			runHeap(t, itemDom(n))
		default:
			runHeap(t, i32Dom(n))
		}
	},
	Assumptions: []string{"the heap is not used after IntoVec or IntoSortedVec consumed it"},
}

func heapPop[T El[T]](t *pbt.T, d Dom[T], what string, h *g.BinaryHeap[T], m []T) []T {
	got := h.Pop()
	if len(m) == 0 {
		var z T
		wantOpt(t, what, got, false, z)
		return m
	}
	if got.IsNone() {
		t.Failf("%s = None on %s", what, pbt.Show(m))
	}
	x := got.Unwrap()
	for _, y := range m {
		if d.cmp(x, y) < 0 {
			t.Failf("%s = %v but %v is greater", what, x, y)
		}
	}
	m2, ok := takeOut(m, x)
	if !ok {
		t.Failf("%s = %v, which is not in the heap %s", what, x, pbt.Show(m))
	}
	return m2
}

func runHeap[T El[T]](t *pbt.T, d Dom[T]) {
	t.Label("elements " + d.Name)
	var h [2]g.BinaryHeap[T]
	var m [2][]T
	for i := range h {
		switch t.Intn(3) {
		case 0:
			h[i] = g.BinaryHeapNew[T]()
		case 1:
			h[i] = g.BinaryHeapWithCapacity[T](g.USize(t.Intn(20)))
		default:
			l := t.Intn(5)
			h[i] = g.BinaryHeapWithLen[T](g.USize(l))
			m[i] = make([]T, l)
		}
	}
	obs := func(what string, x int) {
		if h[x].Len() != g.USize(len(m[x])) || bool(h[x].IsEmpty()) != (len(m[x]) == 0) {
			t.Failf("after %s: Len %d IsEmpty %v, want %d", what, h[x].Len(), h[x].IsEmpty(), len(m[x]))
		}
		if len(m[x]) > 20000 && !t.OneIn(8) {
			return
		}
		if got := h[x].AsSlice(); !sameBag(got, m[x]) {
			t.Failf("after %s: AsSlice = %s, want the elements of %s", what, pbt.Show(got), pbt.Show(m[x]))
		}
	}
	steps := histLen(t)
	for s := 0; s < steps; s++ {
		x := 0
		if t.OneIn(4) {
			x = 1
		}
		var what string
		t.NoPanic("operation", func() {
			switch t.Weighted(7, 6, 2, 2, 1, 1, 3) {
			case 0:
				e := d.Gen(t)
				what = fmt.Sprintf("h%d.Push(%v)", x, e)
				h[x].Push(e)
				m[x] = append(clone(m[x]), e)
			case 1:
				what = fmt.Sprintf("h%d.Pop()", x)
				if len(m[x]) >= 3 {
					t.Nontrivial()
				}
				m[x] = heapPop(t, d, what, &h[x], m[x])
			case 2:
				what = fmt.Sprintf("h%d.Append(h%d)", x, 1-x)
				t.LabelIf(len(m[1-x]) > 0, "append of a non-empty heap")
				h[x].Append(&h[1-x])
				m[x] = append(clone(m[x]), m[1-x]...)
				m[1-x] = nil
				obs(what+" (other)", 1-x)
			case 3:
				k := t.Intn(30)
				what = fmt.Sprintf("h%d.Reserve(%d)", x, k)
				h[x].Reserve(g.USize(k))
			case 4:
				what = fmt.Sprintf("h%d.Clear()", x)
				h[x].Clear()
				m[x] = nil
			case 5:
				k := burstTo(t, 140000)
				what = fmt.Sprintf("h%d push %d", x, k)
				m[x] = clone(m[x])
				for _, e := range d.Slice(t, k) {
					h[x].Push(e)
					m[x] = append(m[x], e)
				}
			case 6:
				k := t.Intn(8)
				what = fmt.Sprintf("h%d pop %d times", x, k)
				for i := 0; i < k; i++ {
					if len(m[x]) >= 3 {
						t.Nontrivial()
					}
					m[x] = heapPop(t, d, what, &h[x], m[x])
				}
			}
		})
		t.Logf("%s -> len %d", what, len(m[x]))
		obs(what, x)
	}
	t.NoPanic("consuming the heap", func() {
		for x := range h {
			switch t.Intn(3) {
			case 0:
				if len(m[x]) > 2000 {
					var got []T
					for o := h[x].Pop(); bool(o.IsSome()) && len(got) <= len(m[x]); o = h[x].Pop() {
						got = append(got, o.Unwrap())
						if n := len(got); n > 1 && d.cmp(got[n-2], got[n-1]) < 0 {
							t.Failf("h%d: Pop %d of %d = %v, the one before %v", x, n, len(m[x]), got[n-1], got[n-2])
						}
					}
					if !sameBag(got, m[x]) {
						t.Failf("h%d emptied by Pop gives %s, want the elements of %s", x, pbt.Show(got), pbt.Show(m[x]))
					}
					continue
				}
				for i := len(m[x]); i >= 0; i-- {
					m[x] = heapPop(t, d, fmt.Sprintf("final h%d.Pop()", x), &h[x], m[x])
				}
			case 1:
				v := h[x].IntoVec()
				if got := v.AsSlice(); !sameBag(got, m[x]) {
					t.Failf("h%d.IntoVec() = %s, want the elements of %s", x, pbt.Show(got), pbt.Show(m[x]))
				}
			default:
				v := h[x].IntoSortedVec()
				got := v.AsSlice()
				if !sameBag(got, m[x]) {
					t.Failf("h%d.IntoSortedVec() = %s, want the elements of %s", x, pbt.Show(got), pbt.Show(m[x]))
				}
				for i := 1; i < len(got); i++ {
					if d.cmp(got[i-1], got[i]) > 0 {
						t.Failf("h%d.IntoSortedVec() = %s is not ascending", x, pbt.Show(got))
					}
				}
			}
		}
	})
}

func init() { register(C10, C11, C12, C13) }

// anyKey makes distinct keys of distinct numbers: plain ones, ones that print
// alike but differ in type, and ones that print alike but differ in a field.
func anyKey(n, form int) any {
	switch form {
	case 1:
		switch k := n / 7; n % 7 {
		case 0:
			return k
		case 1:
			return g.I64(k)
		case 2:
			return g.String(fmt.Sprint(k))
		case 3:
			return fmt.Sprint(k)
		case 4:
			return [1]int{k}
		case 5:
			return float64(k)
		default:
			return struct{ A any }{k}
		}
	case 2:
		k := n / 3
		return [][2]string{{fmt.Sprint(k) + " ", ""}, {fmt.Sprint(k), " "}, {"", fmt.Sprint(k) + " "}}[n%3]
	case 3:
		if n == 0 {
			return nil
		}
		if n == 1 {
			return "<nil>"
		}
		return g.Some(g.I32(n)).Unwrap()
	}
	return n
}
