//go:build sorts || all

package coll

import (
	"fmt"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// capped is a collection with a capacity, as C41 sees it.
type capped[T any] struct {
	name     string
	len      func() g.USize
	cap      func() g.USize
	reserve  func(n g.USize)
	push     func(x T)
	pushHead func(x T) bool
	pop      func() (T, bool)
	popHead  func() (T, bool)
	look     func() []T // in order; multiset for the heap
	bag      bool
}

func capSize(t *pbt.T) int {
	if n, ok := t.DictLen(600); ok {
		return n
	}
	if n, ok := t.Huge(300, 20000); ok {
		return n
	}
	switch t.Intn(4) {
	case 0:
		return t.Intn(3)
	case 1:
		return t.Intn(20)
	case 2:
		return pbt.Pick(t, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64)
	}
	if t.Thorough {
		return t.Intn(5000)
	}
	return t.Intn(300)
}

// capAsk is a capacity to ask for: capSize, and sometimes far more, since
// room that is never filled costs no more than its memory.
func capAsk(t *pbt.T) int {
	if v, ok := t.DictInt(); ok && v <= 1<<21 {
		return int(v)
	}
	if t.OneIn(50) {
		k := 9 + t.Intn(9)
		if t.OneIn(8) {
			k = 20
		}
		return 1<<k + t.Intn(3) - 1 + t.Intn(2)*t.Intn(1<<k)
	}
	return capSize(t)
}

var C41 = &pbt.Prop{
	ID:    "C41",
	Rule:  "Vec, VecDeque or BinaryHeap of I32, String or Item made by New, WithCapacity(n) or WithLen(n) (n in 0..300, thorough 0..5000, sometimes up to 2^21 where only room is asked for), then 1..30 operations out of Reserve(n), bursts of pushes and pops at either end, with capacity, length and contents compared after each; non-trivial = a Reserve on a non-empty collection",
	Quick: 100000, Thorough: 4000000,
	Run: func(t *pbt.T) {
		n := pbt.Pick(t, 5, 1000)
		switch t.Intn(3) {
		case 0:
			runCap(t, i32Dom(n))
		case 1:
			runCap(t, strDom(n))
		default:
			runCap(t, itemDom(n))
		}
	},
	Assumptions: []string{"requested capacities are far below the address space"},
}

func runCap[T El[T]](t *pbt.T, d Dom[T]) {
	how := t.Intn(3)
	n := capSize(t)
	if how == 1 {
		n = capAsk(t)
	}
	c := capped[T]{}
	none := func(o g.Option[T]) (x T, ok bool) {
		if o.IsNone() {
			return x, false
		}
		return o.Unwrap(), true
	}
	desc := []string{"New()", fmt.Sprintf("WithCapacity(%d)", n), fmt.Sprintf("WithLen(%d)", n)}[how]
	t.NoPanic("capacity operations", func() {
		switch t.Intn(3) {
		case 0:
			v := g.VecNew[T]()
			if how == 1 {
				v = g.VecWithCapacity[T](g.USize(n))
			} else if how == 2 {
				v = g.VecWithLen[T](g.USize(n))
			}
			c = capped[T]{name: "Vec", len: func() g.USize { return v.Len() }, cap: func() g.USize { return v.Capacity() },
				reserve: v.Reserve, push: v.Push,
				pushHead: func(x T) bool { v.Insert(0, x); return true },
				pop:      func() (T, bool) { return none(v.Pop()) },
				look:     func() []T { return clone(v.AsSlice()) }}
		case 1:
			v := g.VecDequeNew[T]()
			if how == 1 {
				v = g.VecDequeWithCapacity[T](g.USize(n))
			} else if how == 2 {
				v = g.VecDequeWithLen[T](g.USize(n))
			}
			c = capped[T]{name: "VecDeque", len: func() g.USize { return v.Len() }, cap: func() g.USize { return v.Capacity() },
				reserve: v.Reserve, push: v.PushBack,
				pushHead: func(x T) bool { v.PushFront(x); return true },
				pop:      func() (T, bool) { return none(v.PopBack()) },
				popHead:  func() (T, bool) { return none(v.PopFront()) },
				look: func() []T {
					r := []T{}
					for i := g.USize(0); i < v.Len(); i++ {
						r = append(r, v.GetUnchecked(i))
					}
					return r
				}}
		default:
			v := g.BinaryHeapNew[T]()
			if how == 1 {
				v = g.BinaryHeapWithCapacity[T](g.USize(n))
			} else if how == 2 {
				v = g.BinaryHeapWithLen[T](g.USize(n))
			}
			c = capped[T]{name: "BinaryHeap", bag: true, len: func() g.USize { return v.Len() }, cap: func() g.USize { return v.Capacity() },
				reserve: v.Reserve, push: v.Push,
				pop:  func() (T, bool) { return none(v.Pop()) },
				look: func() []T { return clone(v.AsSlice()) }}
		}
		t.Label(c.name)
		var m []T
		if how == 2 {
			m = make([]T, n)
		}
		check := func() {
			if c.len() != g.USize(len(m)) {
				t.Failf("%s %s: Len %d, want %d", c.name, desc, c.len(), len(m))
			}
			if c.cap() < c.len() {
				t.Failf("%s %s: Capacity %d below Len %d", c.name, desc, c.cap(), c.len())
			}
			got := c.look()
			if c.bag && !sameBag(got, m) || !c.bag && !same(got, m) {
				t.Failf("%s %s: contents %s, want %s", c.name, desc, pbt.Show(got), pbt.Show(m))
			}
		}
		check()
		if how == 1 && c.cap() < g.USize(n) {
			t.Failf("%s %s: Capacity %d", c.name, desc, c.cap())
		}
		promised := uint64(0) // capacity asked for and not yet outgrown
		if how == 1 {
			promised = uint64(n)
		}
		for s, k := 0, t.Range(1, 30); s < k; s++ {
			switch t.Weighted(3, 4, 2, 2, 2) {
			case 0:
				r := capAsk(t)
				if len(m) > 0 {
					t.Nontrivial()
				}
				desc += fmt.Sprintf(".Reserve(%d)", r)
				c.reserve(g.USize(r))
				if c.cap() < g.USize(len(m)+r) {
					t.Failf("%s %s: Capacity %d with Len %d, want at least %d", c.name, desc, c.cap(), len(m), len(m)+r)
				}
				promised = uint64(len(m) + r)
			case 1:
				b := burst(t)
				desc += fmt.Sprintf(".push*%d", b)
				for i := 0; i < b; i++ {
					before := c.cap()
					x := d.Gen(t)
					c.push(x)
					m = append(m, x)
					if c.cap() < before {
						t.Failf("%s %s: a push lowered the capacity from %d to %d", c.name, desc, before, c.cap())
					}
					if uint64(len(m)) <= promised && uint64(c.cap()) < promised {
						t.Failf("%s %s: Capacity %d after pushing to %d elements within the %d reserved", c.name, desc, c.cap(), len(m), promised)
					}
				}
			case 2:
				if c.pushHead == nil {
					continue
				}
				x := d.Gen(t)
				desc += ".pushFront"
				before := c.cap()
				c.pushHead(x)
				m = append([]T{x}, m...)
				if c.cap() < before {
					t.Failf("%s %s: lowered the capacity from %d to %d", c.name, desc, before, c.cap())
				}
			case 3:
				b := burst(t)
				desc += fmt.Sprintf(".pop*%d", b)
				for i := 0; i < b && len(m) > 0; i++ {
					x, ok := c.pop()
					if !ok {
						t.Failf("%s %s: pop is None with %d elements", c.name, desc, len(m))
					}
					if c.bag {
						if m, ok = takeOut(m, x); !ok {
							t.Failf("%s %s: pop gives %v, which is not there", c.name, desc, x)
						}
					} else {
						if x != m[len(m)-1] {
							t.Failf("%s %s: pop gives %v, want %v", c.name, desc, x, m[len(m)-1])
						}
						m = m[:len(m)-1]
					}
				}
				promised = 0
			default:
				if c.popHead == nil {
					continue
				}
				b := burst(t)
				desc += fmt.Sprintf(".popFront*%d", b)
				for i := 0; i < b && len(m) > 0; i++ {
					x, ok := c.popHead()
					if !ok || x != m[0] {
						t.Failf("%s %s: gives %v (%v), want %v", c.name, desc, x, ok, m[0])
					}
					m = clone(m[1:])
				}
				promised = 0
			}
			check()
		}
		t.Logf("%s %s -> Len %d Capacity %d", c.name, desc, c.len(), c.cap())
	})
}

func init() { register(C41) }
