// Package mem checks that what was let go of is released: removed elements,
// ended threads and futures, and whatever an operation needed on the way.
package mem

import (
	"fmt"
	"runtime"
	"time"
	"weak"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// item is an element whose release can be seen.
type item struct {
	id  int
	key int
	pad [4]int
}

func (a *item) Cmp(b *item) g.Ordering {
	switch {
	case a.key < b.key:
		return g.OrderingLess
	case a.key > b.key:
		return g.OrderingGreater
	}
	return g.OrderingEqual
}
func (a *item) Eq(b *item) g.Bool { return a.key == b.key }
func (a *item) Clone() *item      { return a }
func (a *item) Display() g.String { return g.String(fmt.Sprint(a.key)) }

// rng is a stream of its own, so that a case draws little.
type rng uint64

func (r *rng) n(n int) int {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z ^ (z >> 31)) >> 1 % uint64(n))
}

// watch makes items and remembers them weakly.
type watch struct {
	rng
	all      []weak.Pointer[item]
	universe int
}

func (w *watch) item() *item {
	x := &item{id: len(w.all), key: w.n(w.universe)}
	w.all = append(w.all, weak.Make(x))
	return x
}

func (w *watch) alive() int {
	n := 0
	for _, p := range w.all {
		if p.Value() != nil {
			n++
		}
	}
	return n
}

// collect runs the collector until it has nothing left to do. Pools give up
// what they hold in the second run.
func collect() {
	runtime.GC()
	runtime.GC()
	runtime.GC()
}

var C50 = &pbt.Prop{
	ID:    "C50",
	Rule:  "(a) 200..1500 operations on one collection or Option of elements watched by weak pointers, as a queue, a stack or at random, within a size of 1..24: after a collection of garbage no more removed elements are alive than the largest size allows, and none once the collection itself is dropped; (b) 3 rounds of up to 4000 repetitions of one operation out of 60 on fresh values (texts, numbers, collections, options, conditions, failing assertions, missing traits, mutexes, threads and futures joined or forgotten, file calls): the heap, the goroutines and the descriptors do not grow round after round; non-trivial = twice as many elements removed as may be kept, or 500 repetitions",
	Quick: 4000, Thorough: 240000,
	Run: func(t *pbt.T) {
		if t.Weighted(5, 1) == 0 {
			churn(t)
		} else {
			repeat(t)
		}
	},
	Assumptions: []string{"the Go collector frees what is unreachable within three runs"},
}

// pot is a collection under churn.
type pot struct {
	name  string
	add   []func() // each adds one element
	del   []func() // each removes one element (or some, or all), if there is one
	other []func() // neither, or both
	size  func() int
	each  int // elements held per unit of size
}

func churn(t *pbt.T) {
	w := &watch{rng: rng(t.Draw(1 << 40)), universe: pbt.Pick(t, 3, 40, 1000000)}
	kind := pbt.Pick(t, "Vec", "VecDeque", "LinkedList", "BinaryHeap", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "Option")
	steps := t.Range(200, 1500)
	window := t.Range(1, 24)
	mode := t.Intn(4)
	ia, id := t.Intn(64), t.Intn(64)
	t.Logf("%s: %d steps of stream, at most %d elements, mode %d %d %d", kind, steps, window, mode, ia, id)
	t.Label("churn " + kind)
	keep := make(chan struct{}) // closed when the collection may be dropped
	ready := make(chan [3]int)  // elements in the collection, largest size, removed
	gone := make(chan struct{}) // the collection has been dropped
	var failure any
	// The collection lives on a goroutine of its own, so that nothing of it
	// stays behind on this stack.
	go func() {
		defer close(gone)
		live, peak, removed := 0, 0, 0
		var p pot
		failed, v := pbt.Catch(func() { p = mkPot(kind, w); live, peak, removed = p.play(w, steps, window, mode, ia, id) })
		if failed {
			failure = v
		}
		ready <- [3]int{live, peak, removed}
		<-keep
		runtime.KeepAlive(p)
	}()
	r := <-ready
	if failure != nil {
		close(keep)
		<-gone
		t.Failf("%s under churn panicked: %v", kind, failure)
	}
	live, peak, removed := r[0], r[1], r[2]
	limit := 4*peak + 64
	if removed > 2*limit {
		t.Nontrivial()
	}
	collect()
	held := w.alive() - live
	close(keep)
	<-gone
	collect()
	left := w.alive()
	t.Logf("%d made, %d removed, %d in it, %d more alive, %d alive once it is dropped", len(w.all), removed, live, held, left)
	t.Stat("removed elements kept by "+kind, float64(held))
	t.Check(held <= limit, "%s of at most %d elements keeps %d of %d removed elements alive", kind, peak, held, removed)
	t.Check(left <= 8, "%d of %d elements are alive after the %s that held them was dropped", left, len(w.all), kind)
}

// play runs the operations and returns the number of elements in the
// collection, the largest there was, and the number made but not in it.
//
//go:noinline
func (p *pot) play(w *watch, steps, window, mode, ia, id int) (live, peak, removed int) {
	for i := 0; i < steps; i++ {
		n := p.size()
		peak = max(peak, n)
		pick := func(fs []func(), k int) {
			if mode < 2 { // a queue or a stack, or so: one way in, one way out
				fs[k%len(fs)]()
			} else {
				fs[w.n(len(fs))]()
			}
		}
		switch {
		case n < window && (n == 0 || w.n(2) == 0):
			pick(p.add, ia)
		case mode == 3 && len(p.other) > 0 && w.n(4) == 0:
			p.other[w.n(len(p.other))]()
		default:
			pick(p.del, id)
		}
	}
	peak = max(peak, p.size())
	live = p.size() * p.each
	return live, peak * p.each, len(w.all) - live
}

//go:noinline
func mkPot(kind string, w *watch) pot {
	by := func(a, b *item) g.Ordering { return a.Cmp(b) }
	coin := func(*item) g.Bool { return w.n(8) != 0 }
	switch kind {
	case "Vec":
		v := g.VecNew[*item]()
		some := func() int { return w.n(int(v.Len())) }
		return pot{kind, []func(){
			func() { v.Push(w.item()) },
			func() { v.Insert(g.USize(w.n(int(v.Len())+1)), w.item()) },
			func() { v.Insert(0, w.item()) },
			func() { o := g.VecNew[*item](); o.Push(w.item()); v.Append(&o) },
		}, []func(){
			func() { v.Pop() },
			func() { x := v.GetUnchecked(0); v.Retain(func(y *item) g.Bool { return y != x }) },
			func() { v.Retain(coin) },
			func() { v.Sort(); v.Dedup(); v.Pop() },
			func() { v.Sort(); v.DedupByKey(func(x *item) any { return x.key }); v.Pop() },
			func() { v.Clear() },
		}, []func(){
			func() { v.SetUnchecked(g.USize(some()), w.item()) },
			func() { v.Set(g.USize(some()), w.item()) },
			func() { v.SortBy(by) },
			func() { v.Reverse() },
			func() { v = v.Clone() },
			func() { v.FillWith(w.item) },
			func() { v.Fill(w.item()); v.FillWith(w.item) },
			func() { it := v.IntoIter(); it.Next(); v = it.CollectToVec() },
			func() { v = v.IntoIter().Rev().CollectToVec() },
			func() { v.Reserve(3) },
		}, func() int { return int(v.Len()) }, 1}
	case "VecDeque":
		v := g.VecDequeNew[*item]()
		some := func() int { return w.n(int(v.Len())) }
		return pot{kind, []func(){
			func() { v.PushBack(w.item()) },
			func() { v.PushFront(w.item()) },
			func() { o := g.VecDequeNew[*item](); o.PushBack(w.item()); v.Append(&o) },
		}, []func(){
			func() { v.PopFront() },
			func() { v.PopBack() },
			func() { v.Retain(coin) },
			func() { v.Sort(); v.Dedup(func(x *item) any { return x.key }); v.PopFront() },
			func() { v.Clear() },
		}, []func(){
			func() { v.SetUnchecked(g.USize(some()), w.item()) },
			func() { v.Set(g.USize(some()), w.item()) },
			func() { v.SortBy(by) },
			func() { v = v.Clone() },
			func() { v.FillWith(w.item) },
			func() { v.PushBack(w.item()); v.PopFront() },
		}, func() int { return int(v.Len()) }, 1}
	case "LinkedList":
		v := g.LinkedListNew[*item]()
		return pot{kind, []func(){
			func() { v.PushBack(w.item()) },
			func() { v.PushFront(w.item()) },
			func() { o := g.LinkedListNew[*item](); o.PushBack(w.item()); v.Append(&o) },
			func() { o := g.LinkedListNew[*item](); o.PushBack(w.item()); o.Append(&v); v = o },
		}, []func(){
			func() { v.PopFront() },
			func() { v.PopBack() },
			func() { o := g.LinkedListNew[*item](); o.Append(&v); v = o; v.PopFront() },
			func() { v.Clear() },
		}, []func(){
			func() { *v.Front().Unwrap() = w.item() },
			func() { *v.Back().Unwrap() = w.item() },
			func() { v = v.Clone() },
			func() { v = v.IntoIter().Rev().CollectToLinkedList() },
			func() { v.PushBack(w.item()); v.PopFront() },
			func() { v.PushFront(w.item()); v.PopBack() },
		}, func() int { return int(v.Len()) }, 1}
	case "BinaryHeap":
		v := g.BinaryHeapNew[*item]()
		return pot{kind, []func(){
			func() { v.Push(w.item()) },
			func() { o := g.BinaryHeapNew[*item](); o.Push(w.item()); v.Append(&o) },
		}, []func(){
			func() { v.Pop() },
			func() { v.Pop() },
			func() { v.Clear() },
		}, []func(){
			func() { v.Push(w.item()); v.Pop() },
			func() { v.Reserve(3) },
			func() {
				s := v.IntoSortedVec()
				v = g.BinaryHeapNew[*item]()
				for _, x := range s.AsSlice() {
					v.Push(x)
				}
			},
		}, func() int { return int(v.Len()) }, 1}
	case "HashMap":
		v := g.HashMapNew[*item, *item]()
		first := func() *item {
			for k := range v.AsMap() {
				return k
			}
			return nil
		}
		return pot{kind, []func(){
			func() { v.Insert(w.item(), w.item()) },
		}, []func(){
			func() { v.Remove(first()) },
			func() { v.Remove(first()) },
			func() { v.Clear() },
		}, []func(){
			func() { v.Insert(first(), w.item()) },
			func() { v = v.Clone() },
			func() { v.Insert(w.item(), w.item()); v.Remove(first()) },
		}, func() int { return int(v.Len()) }, 2}
	case "HashSet":
		v := g.HashSetNew[*item]()
		first := func() *item {
			o := v.IntoIter().Next()
			if o.IsNone() {
				return nil
			}
			return o.Unwrap()
		}
		return pot{kind, []func(){
			func() { v.Insert(w.item()) },
			func() { o := g.HashSetNew[*item](); o.Insert(w.item()); v = v.Union(o) },
		}, []func(){
			func() { v.Remove(first()) },
			func() {
				o := g.HashSetNew[*item]()
				o.Insert(first())
				v = v.SymmetricDifference(o)
			},
			func() { v.Clear() },
		}, []func(){
			func() { v = v.Clone() },
			func() { v.Insert(w.item()); v.Remove(first()) },
			func() { v = v.Intersection(v.Clone()) },
		}, func() int { return int(v.Len()) }, 1}
	case "BTreeMap":
		v := g.BTreeMapNew[*item, *item]()
		w.universe = 1 << 40
		some := func(k int) *item {
			it := v.Keys()
			var x *item
			for i := 0; i <= k; i++ {
				x = it.Next().Unwrap()
			}
			return x
		}
		return pot{kind, []func(){
			func() { v.Insert(w.item(), w.item()) },
			func() { k := w.item(); k.key = -k.id; v.Insert(k, w.item()) },
			func() { k := w.item(); k.key = 1<<41 + k.id; v.Insert(k, w.item()) },
		}, []func(){
			func() { v.Remove(some(0)) },
			func() { v.Remove(some(int(v.Len()) - 1)) },
			func() { v.Remove(some(w.n(int(v.Len())))) },
			func() { v.Clear() },
		}, []func(){
			func() { v.Insert(some(w.n(int(v.Len()))), w.item()) },
			func() { v.Insert(w.item(), w.item()); v.Remove(some(0)) },
		}, func() int { return int(v.Len()) }, 2}
	case "BTreeSet":
		v := g.BTreeSetNew[*item]()
		w.universe = 1 << 40
		some := func(k int) *item {
			it := v.IntoIter()
			var x *item
			for i := 0; i <= k; i++ {
				x = it.Next().Unwrap()
			}
			return x
		}
		return pot{kind, []func(){
			func() { v.Insert(w.item()) },
			func() { k := w.item(); k.key = -k.id; v.Insert(k) },
			func() { o := g.BTreeSetNew[*item](); o.Insert(w.item()); v = v.Union(o) },
		}, []func(){
			func() { v.Remove(some(0)) },
			func() { v.Remove(some(int(v.Len()) - 1)) },
			func() { v.Remove(some(w.n(int(v.Len())))) },
			func() { v.Clear() },
		}, []func(){
			func() { v = v.Clone() },
			func() { v = v.Intersection(v.Clone()) },
			func() { v.Insert(w.item()); v.Remove(some(0)) },
		}, func() int { return int(v.Len()) }, 1}
	}
	o := g.None[*item]()
	return pot{kind, []func(){
		func() { o = g.Some(w.item()) },
		func() { o.Insert(w.item()) },
		func() { o.GetOrInsert(w.item()) },
		func() { o.GetOrInsertWith(w.item) },
		func() { o.Replace(w.item()) },
		func() { o = o.Or(g.Some(w.item())) },
		func() { o = o.OrElse(func() g.Option[*item] { return g.Some(w.item()) }) },
	}, []func(){
		func() { o.Take() },
		func() { o = o.Filter(func(*item) g.Bool { return false }) },
		func() { o = o.Xor(g.Some(w.item())) },
	}, []func(){
		func() { o.Replace(w.item()) },
		func() { o.Insert(w.item()) },
		func() { *o.GetOrInsert(nil) = w.item() },
		func() { o = o.Map(func(*item) *item { return w.item() }) },
	}, func() int {
		if o.IsSome() {
			return 1
		}
		return 0
	}, 1}
}

// settle waits until no more goroutines than n are left.
func settle(n int, within time.Duration) int {
	for end := time.Now().Add(within); ; {
		k := runtime.NumGoroutine()
		if k <= n || time.Now().After(end) {
			return k
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func heap() int {
	collect()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}
