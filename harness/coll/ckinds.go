//go:build clones || traits || all

package coll

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// Cell is an element with state behind a pointer: its Clone copies the state,
// so sharing a Cell between a value and its clone shows.
type Cell struct{ p *int }

func cell(v int) Cell { return Cell{&v} }

func (a Cell) get() int {
	if a.p == nil {
		return -1
	}
	return *a.p
}
func (a Cell) Clone() Cell        { return cell(a.get()) }
func (a Cell) Eq(b Cell) g.Bool   { return a.get() == b.get() }
func (a Cell) Display() g.String  { return g.String(fmt.Sprintf("c%d", a.get())) }
func (a Cell) Debug() g.String    { return a.Display() }
func (a Cell) ToString() g.String { return a.Display() }
func (a Cell) Cmp(b Cell) g.Ordering {
	switch {
	case a.get() < b.get():
		return g.OrderingLess
	case a.get() > b.get():
		return g.OrderingGreater
	}
	return g.OrderingEqual
}

// ckind says how to make, read and change a value of a type that clones.
type ckind[X any] struct {
	name string
	mk   func(t *pbt.T, n int) X
	look func(x *X) string // the whole contents, in order, without Display or Eq
	mut  func(t *pbt.T, x *X)
}

var cCell = ckind[Cell]{"Cell",
	func(t *pbt.T, n int) Cell { return cell(t.Intn(100)) },
	func(x *Cell) string { return fmt.Sprint(x.get()) },
	func(t *pbt.T, x *Cell) {
		if x.p == nil {
			*x = cell(7)
			return
		}
		*x.p += 1000
	},
}

var cI32 = ckind[g.I32]{"I32",
	func(t *pbt.T, n int) g.I32 { return g.I32(t.Bits(32)) },
	func(x *g.I32) string { return fmt.Sprint(int32(*x)) },
	func(t *pbt.T, x *g.I32) { *x++ },
}

var cStr = ckind[g.String]{"String",
	func(t *pbt.T, n int) g.String { return g.String(fmt.Sprintf("s%d", t.Intn(50))) },
	func(x *g.String) string { return fmt.Sprintf("%q", string(*x)) },
	func(t *pbt.T, x *g.String) { *x += "!" },
}

func join(xs []string) string { return "[" + strings.Join(xs, " ") + "]" }

func cVec[E any](e ckind[E]) ckind[g.Vec[E]] {
	return ckind[g.Vec[E]]{"Vec[" + e.name + "]",
		func(t *pbt.T, n int) g.Vec[E] {
			v := g.VecNew[E]()
			if t.Bool() {
				v = g.VecWithCapacity[E](g.USize(n + 8))
			}
			for i, k := 0, kidsN(t, n); i < k; i++ {
				v.Push(e.mk(t, min(n, 3)))
			}
			return v
		},
		func(x *g.Vec[E]) string {
			var r []string
			s := x.AsSlice()
			for i := range s {
				r = append(r, e.look(&s[i]))
			}
			return "V" + join(r)
		},
		func(t *pbt.T, x *g.Vec[E]) {
			n := int(x.Len())
			switch op := t.Intn(6); {
			case op == 0 || n == 0:
				x.Push(e.mk(t, 2))
			case op == 1:
				x.Pop()
			case op == 2:
				x.Insert(0, e.mk(t, 2))
			case op == 3:
				x.Reverse()
				x.SetUnchecked(g.USize(t.Intn(n)), e.mk(t, 2))
			default:
				e.mut(t, &x.AsSlice()[t.Intn(n)])
			}
		},
	}
}

func cDeque[E any](e ckind[E]) ckind[g.VecDeque[E]] {
	return ckind[g.VecDeque[E]]{"VecDeque[" + e.name + "]",
		func(t *pbt.T, n int) g.VecDeque[E] {
			v := g.VecDequeNew[E]()
			if t.Bool() {
				v = g.VecDequeWithCapacity[E](g.USize(t.Intn(n + 8)))
			}
			for i, k := 0, t.Intn(12); i < k; i++ {
				v.PushBack(e.mk(t, 1))
				v.PopFront()
			}
			for i, k := 0, kidsN(t, n); i < k; i++ {
				if t.Bool() {
					v.PushBack(e.mk(t, min(n, 3)))
				} else {
					v.PushFront(e.mk(t, min(n, 3)))
				}
			}
			return v
		},
		func(x *g.VecDeque[E]) string {
			var r []string
			for i := g.USize(0); i < x.Len(); i++ {
				y := x.GetUnchecked(i)
				r = append(r, e.look(&y))
			}
			return "D" + join(r)
		},
		func(t *pbt.T, x *g.VecDeque[E]) {
			n := int(x.Len())
			switch op := t.Intn(7); {
			case op == 0 || n == 0:
				x.PushBack(e.mk(t, 2))
			case op == 1:
				x.PopFront()
			case op == 2:
				x.PushFront(e.mk(t, 2))
			case op == 3:
				x.PopBack()
			default:
				i := g.USize(t.Intn(n))
				y := x.GetUnchecked(i)
				e.mut(t, &y)
				x.SetUnchecked(i, y)
			}
		},
	}
}

func cList[E any](e ckind[E]) ckind[g.LinkedList[E]] {
	return ckind[g.LinkedList[E]]{"LinkedList[" + e.name + "]",
		func(t *pbt.T, n int) g.LinkedList[E] {
			var xs []E
			for i, k := 0, kidsN(t, n); i < k; i++ {
				xs = append(xs, e.mk(t, min(n, 3)))
			}
			return *mkList(t, xs)
		},
		func(x *g.LinkedList[E]) string {
			var r []string
			it := x.IntoIter()
			for i := g.USize(0); i <= x.Len(); i++ {
				o := it.Next()
				if o.IsNone() {
					break
				}
				y := o.Unwrap()
				r = append(r, e.look(&y))
			}
			return "L" + join(r)
		},
		func(t *pbt.T, x *g.LinkedList[E]) {
			switch op := t.Intn(7); {
			case op == 0 || x.Len() == 0:
				x.PushBack(e.mk(t, 2))
			case op == 1:
				x.PopFront()
			case op == 2:
				x.PushFront(e.mk(t, 2))
			case op == 3:
				x.PopBack()
			case op == 4:
				if p := x.Front(); p.IsSome() {
					e.mut(t, p.Unwrap())
				}
			default:
				if p := x.Back(); p.IsSome() {
					e.mut(t, p.Unwrap())
				}
			}
		},
	}
}

func cHashMap[K comparable, V any](k ckind[K], v ckind[V]) ckind[g.HashMap[K, V]] {
	return ckind[g.HashMap[K, V]]{"HashMap[" + k.name + "," + v.name + "]",
		func(t *pbt.T, n int) g.HashMap[K, V] {
			m := g.HashMapNew[K, V]()
			for i, c := 0, kidsN(t, n); i < c; i++ {
				m.Insert(k.mk(t, 2), v.mk(t, min(n, 3)))
			}
			return m
		},
		func(x *g.HashMap[K, V]) string {
			var r []string
			for a, b := range x.AsMap() {
				r = append(r, k.look(&a)+":"+v.look(&b))
			}
			sort.Strings(r)
			return fmt.Sprintf("H%d", x.Len()) + join(r)
		},
		func(t *pbt.T, x *g.HashMap[K, V]) {
			var ks []K
			for a := range x.AsMap() {
				ks = append(ks, a)
			}
			sort.Slice(ks, func(i, j int) bool { return k.look(&ks[i]) < k.look(&ks[j]) })
			switch op := t.Intn(5); {
			case op == 0 || len(ks) == 0:
				x.Insert(k.mk(t, 2), v.mk(t, 2))
			case op == 1:
				x.Remove(ks[t.Intn(len(ks))])
			default:
				a := ks[t.Intn(len(ks))]
				y := x.Get(a).Unwrap()
				v.mut(t, &y)
				x.Insert(a, y)
			}
		},
	}
}

func cHashSet[K comparable](k ckind[K]) ckind[g.HashSet[K]] {
	return ckind[g.HashSet[K]]{"HashSet[" + k.name + "]",
		func(t *pbt.T, n int) g.HashSet[K] {
			s := g.HashSetNew[K]()
			for i, c := 0, kidsN(t, n); i < c; i++ {
				s.Insert(k.mk(t, 2))
			}
			return s
		},
		func(x *g.HashSet[K]) string {
			var r []string
			for _, a := range x.AsSlice() {
				r = append(r, k.look(&a))
			}
			sort.Strings(r)
			return fmt.Sprintf("S%d", x.Len()) + join(r)
		},
		func(t *pbt.T, x *g.HashSet[K]) {
			if s := x.AsSlice(); len(s) > 0 && t.Bool() {
				sort.Slice(s, func(i, j int) bool { return k.look(&s[i]) < k.look(&s[j]) })
				x.Remove(s[t.Intn(len(s))])
				return
			}
			x.Insert(k.mk(t, 2))
		},
	}
}

func cTreeSet[K g.Ord[K]](k ckind[K]) ckind[g.BTreeSet[K]] {
	elems := func(x *g.BTreeSet[K]) []K {
		var r []K
		it := x.IntoIter()
		for i := g.USize(0); i <= x.Len()+2; i++ {
			o := it.Next()
			if o.IsNone() {
				break
			}
			r = append(r, o.Unwrap())
		}
		return r
	}
	return ckind[g.BTreeSet[K]]{"BTreeSet[" + k.name + "]",
		func(t *pbt.T, n int) g.BTreeSet[K] {
			s := g.BTreeSetNew[K]()
			for i, c := 0, kidsN(t, n); i < c; i++ {
				s.Insert(k.mk(t, 2))
			}
			return s
		},
		func(x *g.BTreeSet[K]) string {
			var r []string
			for _, a := range elems(x) {
				r = append(r, k.look(&a))
			}
			return fmt.Sprintf("T%d", x.Len()) + join(r)
		},
		func(t *pbt.T, x *g.BTreeSet[K]) {
			if s := elems(x); len(s) > 0 && t.Bool() {
				x.Remove(s[t.Intn(len(s))])
				return
			}
			x.Insert(k.mk(t, 2))
		},
	}
}

func cOpt[E any](e ckind[E]) ckind[g.Option[E]] {
	return ckind[g.Option[E]]{"Option[" + e.name + "]",
		func(t *pbt.T, n int) g.Option[E] {
			if t.OneIn(5) {
				return g.None[E]()
			}
			return g.Some(e.mk(t, n))
		},
		func(x *g.Option[E]) string {
			if x.IsNone() {
				return "None"
			}
			y := x.Unwrap()
			return "Some(" + e.look(&y) + ")"
		},
		func(t *pbt.T, x *g.Option[E]) {
			switch op := t.Intn(5); {
			case bool(x.IsNone()):
				x.Insert(e.mk(t, 2))
			case op == 0:
				x.Take()
			case op == 1:
				x.Replace(e.mk(t, 2))
			default:
				e.mut(t, x.GetOrInsertWith(func() E { return e.mk(t, 2) }))
			}
		},
	}
}

var cloneErr = errors.New("clone me")

func cRes[E any](e ckind[E]) ckind[g.Result[E]] {
	return ckind[g.Result[E]]{"Result[" + e.name + "]",
		func(t *pbt.T, n int) g.Result[E] {
			if t.OneIn(4) {
				return g.Err[E](cloneErr)
			}
			return g.Ok(e.mk(t, n))
		},
		func(x *g.Result[E]) string {
			if x.IsErr() {
				if x.UnwrapErr() != cloneErr {
					return "Err(another error)"
				}
				return "Err"
			}
			y := x.Unwrap()
			return "Ok(" + e.look(&y) + ")"
		},
		func(t *pbt.T, x *g.Result[E]) {
			if x.IsErr() {
				return
			}
			y := x.Unwrap()
			e.mut(t, &y)
			*x = g.Ok(y)
		},
	}
}

func cPair[A, B any](a ckind[A], b ckind[B]) ckind[g.Pair[A, B]] {
	return ckind[g.Pair[A, B]]{"Pair[" + a.name + "," + b.name + "]",
		func(t *pbt.T, n int) g.Pair[A, B] {
			return g.Pair[A, B]{Key: a.mk(t, n), Value: b.mk(t, n)}
		},
		func(x *g.Pair[A, B]) string { return "P(" + a.look(&x.Key) + "," + b.look(&x.Value) + ")" },
		func(t *pbt.T, x *g.Pair[A, B]) {
			if t.Bool() {
				a.mut(t, &x.Key)
			} else {
				b.mut(t, &x.Value)
			}
		},
	}
}
