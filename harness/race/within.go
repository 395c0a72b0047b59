package race

import (
	"fmt"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// cb is called by every function and method that a program hands to gost, so
// that other programs can be run inside gost's operations.
func (p *program) cb() {
	if p.inner != nil {
		p.inner()
	}
}

// own is an element type of the program's: every use of a trait runs cb.
type own struct {
	p *program
	k int
}

func (a own) Cmp(b own) g.Ordering {
	a.p.cb()
	switch {
	case a.k < b.k:
		return g.OrderingLess
	case a.k > b.k:
		return g.OrderingGreater
	}
	return g.OrderingEqual
}

func (a own) Eq(b own) g.Bool { a.p.cb(); return a.k == b.k }
func (a own) Clone() own      { a.p.cb(); return a }

func (a own) Display() g.String {
	v := g.VecNew[g.I32]()
	v.Push(g.I32(a.k))
	a.p.cb()
	return g.Format("o{}{{}}", v)
}

func (a own) Debug() g.String { return a.Display() }

func (p *program) own() own { return own{p, p.n(40)} }

func keys(v []own) []int {
	r := make([]int, len(v))
	for i, a := range v {
		r[i] = a.k
	}
	return r
}

func opt(o g.Option[own]) string {
	if o.IsNone() {
		return "none"
	}
	return fmt.Sprint(o.Unwrap().k)
}

// callbacks makes an operation that calls back into the program.
func (p *program) callbacks() {
	v := g.VecNew[own]()
	for i := p.n(14); i >= 0; i-- {
		v.Push(p.own())
	}
	x := p.own()
	m := p.n(4) + 1
	is := func(a own) g.Bool { p.cb(); return a.k%m != 0 }
	step := func(a own) own { p.cb(); return own{p, a.k*3 + 1} }
	cmp := func(a, b own) g.Ordering { p.cb(); return g.I32(a.k % 7).Cmp(g.I32(b.k % 7)) }
	mk := func() own { p.cb(); return p.own() }
	d := g.VecDequeNew[own]()
	for i, a := range v.AsSlice() {
		if i%3 == 0 {
			d.PushFront(a)
		} else {
			d.PushBack(a)
		}
	}
	l := g.LinkedListNew[own]()
	for _, a := range v.AsSlice() {
		l.PushBack(a)
	}
	deque := func() []int { return keys(elems(d.IntoIter().CollectToVec())) }
	switch p.n(26) {
	case 0:
		v.SortBy(cmp)
		p.show(keys(v.AsSlice()))
	case 1:
		v.Sort()
		p.show(keys(v.AsSlice()))
		p.show(v.BinarySearchBy(func(a own) g.Ordering { p.cb(); return a.Cmp(x) }).IsSome())
	case 2:
		v.SortUnstable()
		p.show(keys(v.AsSlice()), v.BinarySearch(x).IsSome())
	case 3:
		v.Retain(is)
		p.show(keys(v.AsSlice()))
	case 4:
		v.DedupByKey(func(a own) any { p.cb(); return a.k % m })
		p.show(keys(v.AsSlice()))
	case 5:
		v.FillWith(mk)
		p.show(keys(v.AsSlice()))
	case 6:
		p.keep(v.Display())
	case 7:
		c := v.Clone()
		p.show(keys(c.AsSlice()), c.Eq(v), v.Contains(x))
	case 8:
		d.SortBy(cmp)
		p.show(deque())
	case 9:
		d.Sort()
		p.show(deque(), d.BinarySearch(x).IsSome())
	case 10:
		d.Retain(is)
		p.show(deque())
	case 11:
		d.Dedup(func(a own) any { p.cb(); return a.k % m })
		p.show(deque())
	case 12:
		d.FillWith(mk)
		p.show(deque())
	case 13:
		p.keep(d.Display())
		c := d.Clone()
		p.show(c.Eq(d), d.Contains(x))
	case 14:
		p.keep(l.Display())
		c := l.Clone()
		p.show(c.Eq(l))
	case 15:
		h := g.BinaryHeapNew[own]()
		for _, a := range v.AsSlice() {
			h.Push(a)
		}
		p.show(opt(h.Pop()), opt(h.Pop()))
		s := h.IntoSortedVec()
		p.show(keys(s.AsSlice()))
	case 16, 17:
		t := g.BTreeMapNew[own, own]()
		for _, a := range v.AsSlice() {
			t.Insert(a, own{p, a.k + 1})
		}
		for _, a := range v.AsSlice()[:m%int(v.Len()+1)] {
			p.show(opt(t.Remove(a)))
		}
		p.show(opt(t.Get(x)), t.Len())
		p.keep(t.Display())
		p.show(t.Eq(t), keys(elems(t.Values().CollectToVec())))
	case 18:
		a, b := g.BTreeSetNew[own](), g.BTreeSetNew[own]()
		for i, e := range v.AsSlice() {
			if i%2 == 0 {
				a.Insert(e)
			} else {
				b.Insert(e)
			}
		}
		u, s := a.Union(b), a.SymmetricDifference(b)
		p.keep(u.Display())
		p.show(keys(elems(s.IntoIter().CollectToVec())), a.Intersection(b).Len(), a.IsDisjoint(b), a.IsSubset(u))
	case 19:
		p.show(keys(elems(v.IntoIter().Map(step).Filter(is).Rev().CollectToVec())))
		p.show(v.IntoIter().Fold(x, func(a, b own) own { p.cb(); return own{p, (a.k*31 + b.k) % 1000} }).k)
	case 20:
		p.show(keys(elems(d.IntoIter().Map(step).Filter(is).CollectToVec())))
		r := l.IntoIter().Filter(is).Map(step).CollectToLinkedList()
		p.show(r.Len())
		p.keep(r.Display())
	case 21:
		o := g.Some(x)
		if m == 1 {
			o = g.None[own]()
		}
		o = o.Map(step)
		p.show(opt(o), opt(o.OrElse(func() g.Option[own] { p.cb(); return g.Some(p.own()) })), o.IsSomeAnd(is))
		p.show(o.UnwrapOrElse(mk).k, o.MapOrElse(mk, step).k, o.GetOrInsertWith(mk).k)
		p.keep(o.Display())
		p.show(opt(o.Clone()))
	case 22:
		r := g.Ok(x)
		if m == 1 {
			r = g.Err[own](fmt.Errorf("error %d", x.k))
		}
		r = r.Map(step)
		p.show(r.IsOkAnd(is), r.UnwrapOrElse(mk).k, r.MapOrElse(mk, step).k)
		r = r.MapErr(func(e error) error { p.cb(); return fmt.Errorf("%w.", e) }).AndThen(func(a own) g.Result[own] { p.cb(); return g.Ok(step(a)) })
		p.show(r.IsOk())
		p.keep(r.Display())
	case 23:
		p.show(g.If(x.k < 10, mk).ElseIf(x.k < 20, mk).Else(mk).k)
	case 24:
		h := g.HashMapNew[own, own]()
		s := g.HashSetNew[own]()
		for _, a := range v.AsSlice() {
			h.Insert(a, step(a))
			s.Insert(a)
		}
		c := h.Clone()
		p.show(c.Eq(h), s.Clone().Eq(s), len(h.Display()), len(s.Display()), h.ContainsKey(x))
	default:
		e := g.Pair[own, own]{Key: x, Value: p.own()}
		p.keep(g.Format("{} {}", x, v))
		p.keep(e.Display())
		p.show(e.Clone().Eq(e), int(e.Cmp(g.Pair[own, own]{Key: x, Value: x})))
		_, msg := pbt.Catch(func() { g.AssertEq(x, own{p, x.k + 1}, g.String("{}!"), x) })
		p.show(msg)
	}
}

func elems(v g.Vec[own]) []own { return v.AsSlice() }

// within runs the programs on one goroutine, each step of a program either on
// its own or inside an operation of another, called from a function or method
// that one passed to gost.
func within(t *pbt.T, seeds []uint64, steps []int, mk func(uint64) *program) []*program {
	ps := make([]*program, len(seeds))
	left := append([]int(nil), steps...)
	busy := make([]bool, len(seeds))
	depth, nested := 0, 0
	often := 1 + t.Intn(12)
	one := func() bool {
		var ready []int
		for i := range ps {
			if left[i] > 0 && !busy[i] {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			return false
		}
		i := ready[t.Intn(len(ready))]
		left[i]--
		busy[i] = true
		depth++
		ps[i].step()
		depth--
		busy[i] = false
		return true
	}
	for i := range ps {
		ps[i] = mk(seeds[i])
		ps[i].inner = func() {
			if depth > 0 && depth < 4 && nested < 400 && t.OneIn(often) {
				nested++
				one()
			}
		}
	}
	for one() {
	}
	t.LabelIf(nested > 0, "one inside another")
	return ps
}
