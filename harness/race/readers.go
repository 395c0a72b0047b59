package race

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// A shared value: read(op, k) performs the op'th reading operation with
// argument k and says what it gave.
type shared struct {
	name string
	ops  int
	read func(op, k int) string
}

var C51 = &pbt.Prop{
	ID:    "C51",
	Rule:  "one value of each of 18 kinds (the eight collections, nested ones, String, Option, Result, Pair, numbers), built by a random history, is read by 2..6 goroutines at once, each making 1..40 random reading operations; half of the values have not been read before; every result is compared with that of a twin built by the same history and read by one goroutine, and afterwards the value once more; under the race detector; non-trivial = two goroutines or more read a value of 4 elements or more",
	Quick: 4000, Thorough: 240000, NoShrink: true,
	Run: runReaders,
	Assumptions: []string{
		"the race detector reports no false races; it misses races that the schedules explored do not execute",
		"what a hash map or set gives in an arbitrary order is compared after sorting",
	},
}

func runReaders(t *pbt.T) {
	k := t.Intn(len(sharedKinds))
	n := pbt.Pick(t, t.Intn(8), t.Intn(80), t.Intn(600))
	seed := t.Draw(1 << 40)
	mk := func() *shared { return sharedKinds[k](&program{state: seed}, n) }
	var val, twin *shared
	t.NoPanic("building the values", func() { val, twin = mk(), mk() })
	workers := 2 + t.Intn(5)
	type call struct{ op, k int }
	plans := make([][]call, workers)
	few := t.OneIn(3) // all do the same few operations
	a, b := t.Intn(val.ops), t.Intn(val.ops)
	for i := range plans {
		for m := 1 + t.Intn(40); m > 0; m-- {
			c := call{t.Intn(val.ops), t.Intn(2*n + 4)}
			if few {
				c.op = pbt.Pick(t, a, b)
			}
			plans[i] = append(plans[i], c)
		}
	}
	t.Label(val.name)
	t.LabelIf(n >= 100, "a hundred elements or more")
	if n >= 4 {
		t.Nontrivial()
	}
	t.Logf("%s of %d insertions (stream %d), %d goroutines", val.name, n, seed, workers)
	want := make([][]string, workers)
	alone := func() {
		for i, p := range plans {
			for _, c := range p {
				want[i] = append(want[i], twin.read(c.op, c.k))
			}
		}
	}
	got := make([][]string, workers)
	msgs := make([]string, workers)
	if t.Bool() { // read before by one goroutine
		t.NoPanic("reading", func() {
			for op := 0; op < val.ops; op++ {
				x, y := val.read(op, n), twin.read(op, n)
				t.Check(x == y, "%s: operation %d gives %s, on a twin %s", val.name, op, x, y)
			}
		})
	} else {
		t.Label("not read before")
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			_, m := pbt.Catch(func() {
				for _, c := range plans[i] {
					got[i] = append(got[i], val.read(c.op, c.k))
					if c.k%5 == 0 {
						runtime.Gosched()
					}
				}
			})
			msgs[i] = fmt.Sprint(m)
		}()
	}
	close(gate)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	wait(t, "reading", done)
	t.NoPanic("reading alone", alone)
	for i, p := range plans {
		for j, c := range p {
			if j >= len(got[i]) {
				t.Failf("%s read by %d goroutines: operation %d with %d panics: %s", val.name, workers, c.op, c.k, msgs[i])
			}
			if got[i][j] != want[i][j] {
				t.Failf("%s read by %d goroutines: operation %d with %d gives %s; read by one, %s", val.name, workers, c.op, c.k, got[i][j], want[i][j])
			}
		}
	}
	fresh := mk()
	for op := 0; op < val.ops; op++ {
		for _, c := range []int{0, n / 2, n} {
			x, y := val.read(op, c), fresh.read(op, c)
			t.Check(x == y, "%s after having been read: operation %d with %d gives %s, of one never read %s", val.name, op, c, x, y)
		}
	}
}

// sorted makes the rendering of something without an order comparable.
func sorted(s g.String) string {
	x := strings.Split(string(s), ", ")
	for i := range x {
		x[i] = strings.Trim(x[i], "[]{}HashMapSet")
	}
	sort.Strings(x)
	return strings.Join(x, ", ")
}

// walk reads a collection through iterators of its own.
func walk[T any](mk func() g.Iterator[T], how int, even func(T) bool, show func(T) string, ordered bool) string {
	var out []string
	add := func(it g.Iterator[T]) {
		for x := it.Next(); x.IsSome(); x = it.Next() {
			out = append(out, show(x.Unwrap()))
		}
	}
	switch how % 6 {
	case 0:
		add(mk())
	case 1:
		add(mk().Map(func(x T) T { return x }))
	case 2:
		add(mk().Filter(func(x T) g.Bool { return g.Bool(even(x)) }))
	case 3:
		n := 0
		var zero T
		mk().Fold(zero, func(a, b T) T { n++; return b })
		out = append(out, fmt.Sprint(n))
	case 4:
		add(mk().Rev())
	default:
		v := mk().CollectToVec()
		add(v.IntoIter())
		l := mk().CollectToLinkedList()
		add(l.IntoIter())
	}
	if !ordered {
		sort.Strings(out)
	}
	return strings.Join(out, " ")
}

func showOpt[T any](o g.Option[T]) string {
	if o.IsNone() {
		return "None"
	}
	return fmt.Sprint("Some ", o.Unwrap())
}

func evenI(x g.I32) bool    { return x%2 == 0 }
func showI(x g.I32) string  { return fmt.Sprint(int(x)) }
func evenS(x g.String) bool { return len(x)%2 == 0 }
func showS(x g.String) string {
	return fmt.Sprintf("%q", string(x))
}

var sharedKinds = []func(p *program, n int) *shared{
	func(p *program, n int) *shared { // Vec
		v := g.VecNew[g.I32]()
		for i := 0; i < n; i++ {
			v.Push(g.I32(p.n(n)))
		}
		if p.n(2) == 0 {
			v.Sort()
		}
		w := v.Clone()
		if n > 0 && p.n(2) == 0 {
			w.Set(g.USize(p.n(n)), -1)
		}
		return &shared{"Vec", 14, func(op, k int) string {
			switch op {
			case 0:
				return fmt.Sprint(v.Len(), v.IsEmpty(), v.Capacity() >= v.Len())
			case 1:
				return showOpt(v.Get(g.USize(k)))
			case 2:
				return fmt.Sprint(v.Contains(g.I32(k)))
			case 3:
				return fmt.Sprint(v.AsSlice())
			case 4:
				return string(v.Display())
			case 5:
				return string(v.Debug())
			case 6:
				c := v.Clone()
				c.Push(g.I32(k))
				c.Reverse()
				return string(c.Display())
			case 7:
				return fmt.Sprint(v.Eq(w), w.Eq(v), v.Eq(v))
			case 8:
				return showOpt(v.BinarySearch(g.I32(k)))
			case 9:
				return showOpt(v.BinarySearchBy(func(x g.I32) g.Ordering { return x.Cmp(g.I32(k)) }))
			case 10:
				return string(v.AsRef().Display())
			case 11:
				return string(g.Format("{}|{}", v, g.I32(k)))
			case 12:
				if v.Len() == 0 {
					return "empty"
				}
				return fmt.Sprint(v.GetUnchecked(g.USize(k) % v.Len()))
			default:
				return walk(func() g.Iterator[g.I32] { return v.IntoIter() }, k, evenI, showI, true)
			}
		}}
	},
	func(p *program, n int) *shared { // VecDeque
		v := g.VecDequeNew[g.I32]()
		for i := 0; i < n; i++ {
			switch p.n(5) {
			case 0, 1:
				v.PushFront(g.I32(p.n(n)))
			case 2:
				v.PopBack()
			case 3:
				v.PopFront()
				v.PushBack(g.I32(p.n(n)))
			default:
				v.PushBack(g.I32(p.n(n)))
			}
		}
		w := v.Clone()
		if p.n(2) == 0 {
			w.Set(0, -1)
		}
		return &shared{"VecDeque", 15, func(op, k int) string {
			switch op {
			case 0:
				return fmt.Sprint(v.Len(), v.IsEmpty(), v.Capacity() >= v.Len())
			case 1:
				return showOpt(v.Get(g.USize(k)))
			case 2:
				return fmt.Sprint(v.Contains(g.I32(k)))
			case 3:
				return fmt.Sprint(v.AsSlice())
			case 4:
				return string(v.Display())
			case 5:
				return string(v.Debug())
			case 6:
				c := v.Clone()
				c.PushFront(g.I32(k))
				c.Sort()
				return string(c.Display())
			case 7:
				return fmt.Sprint(v.Eq(w), w.Eq(v), v.Eq(v))
			case 8:
				return showOpt(v.BinarySearch(g.I32(k)))
			case 9:
				return showOpt(v.BinarySearchBy(func(x g.I32) g.Ordering { return x.Cmp(g.I32(k)) }))
			case 10:
				return string(v.AsRef().Display())
			case 11:
				return string(g.Format("{}|{}", v, g.I32(k)))
			case 12:
				if v.Len() == 0 {
					return "empty"
				}
				return fmt.Sprint(v.GetUnchecked(g.USize(k) % v.Len()))
			case 13:
				return showOpt(v.Front()) + showOpt(v.Back())
			default:
				return walk(func() g.Iterator[g.I32] { return v.IntoIter() }, k, evenI, showI, true)
			}
		}}
	},
	func(p *program, n int) *shared { // LinkedList
		v := g.LinkedListNew[g.I32]()
		for i := 0; i < n; i++ {
			switch p.n(5) {
			case 0, 1:
				v.PushFront(g.I32(p.n(n)))
			case 2:
				v.PopBack()
			case 3:
				v.PopFront()
				v.PushBack(g.I32(p.n(n)))
			default:
				v.PushBack(g.I32(p.n(n)))
			}
		}
		w := v.Clone()
		if p.n(2) == 0 {
			w.PopBack()
			w.PushBack(-1)
		}
		ref := func(o g.Option[*g.I32]) string {
			if o.IsNone() {
				return "None"
			}
			return fmt.Sprint(*o.Unwrap())
		}
		return &shared{"LinkedList", 8, func(op, k int) string {
			switch op {
			case 0:
				return fmt.Sprint(v.Len(), v.IsEmpty())
			case 1:
				return ref(v.Front()) + ref(v.Back())
			case 2:
				return string(v.Display()) + string(v.Debug())
			case 3:
				c := v.Clone()
				c.PushFront(g.I32(k))
				d := v.Clone()
				c.Append(&d)
				return string(c.Display())
			case 4:
				return fmt.Sprint(v.Eq(w), w.Eq(v), v.Eq(v))
			case 5:
				return string(v.AsRef().Display())
			case 6:
				return string(g.Format("{}|{}", v, g.I32(k)))
			default:
				return walk(func() g.Iterator[g.I32] { return v.IntoIter() }, k, evenI, showI, true)
			}
		}}
	},
	func(p *program, n int) *shared { // BinaryHeap
		v := g.BinaryHeapNew[g.I32]()
		for i := 0; i < n; i++ {
			v.Push(g.I32(p.n(n)))
			if p.n(5) == 0 {
				v.Pop()
			}
		}
		return &shared{"BinaryHeap", 2, func(op, k int) string {
			if op == 0 {
				return fmt.Sprint(v.Len(), v.IsEmpty(), v.Capacity() >= v.Len())
			}
			x := append([]g.I32(nil), v.AsSlice()...)
			sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
			return fmt.Sprint(x)
		}}
	},
	func(p *program, n int) *shared { // HashMap
		v := g.HashMapNew[g.I32, g.String]()
		for i := 0; i < n; i++ {
			v.Insert(g.I32(p.n(n)), p.word())
			if p.n(5) == 0 {
				v.Remove(g.I32(p.n(n)))
			}
		}
		w := v.Clone()
		if p.n(2) == 0 {
			w.Insert(-1, "x")
		}
		return &shared{"HashMap", 10, func(op, k int) string {
			switch op {
			case 0:
				return fmt.Sprint(v.Len(), v.IsEmpty())
			case 1:
				return showOpt(v.Get(g.I32(k / 2)))
			case 2:
				return fmt.Sprint(v.ContainsKey(g.I32(k / 2)))
			case 3:
				return sorted(v.Display())
			case 4:
				c := v.Clone()
				c.Insert(g.I32(k), "new")
				return fmt.Sprint(c.Len(), showOpt(c.Get(g.I32(k))), showOpt(c.Get(g.I32(k/2))))
			case 5:
				return fmt.Sprint(v.Eq(w), w.Eq(v), v.Eq(v))
			case 6:
				return walk(func() g.Iterator[g.I32] { return v.Keys() }, k, evenI, showI, false)
			case 7:
				return walk(func() g.Iterator[g.String] { return v.Values() }, k, evenS, showS, false)
			case 8:
				return fmt.Sprint(v.AsMap())
			default:
				return walk(func() g.Iterator[g.Pair[g.I32, g.String]] { return v.IntoIter() }, k,
					func(e g.Pair[g.I32, g.String]) bool { return e.Key%2 == 0 },
					func(e g.Pair[g.I32, g.String]) string { return fmt.Sprint(e.Key, ":", e.Value) }, false)
			}
		}}
	},
	func(p *program, n int) *shared { // HashSet
		v, w := g.HashSetNew[g.String](), g.HashSetNew[g.String]()
		for i := 0; i < n; i++ {
			v.Insert(p.word())
			w.Insert(p.word())
			if p.n(5) == 0 {
				v.Remove(p.word())
			}
		}
		words := []g.String{"", "a", "bé", "{}", "cc c", "Ǆ", "x,y", " d "}
		word := func(k int) g.String { return words[k%8] + g.String(fmt.Sprint(k/8%20)) }
		return &shared{"HashSet", 9, func(op, k int) string {
			switch op {
			case 0:
				return fmt.Sprint(v.Len(), v.IsEmpty())
			case 1:
				return showOpt(v.Get(word(k)))
			case 2:
				return fmt.Sprint(v.Contains(word(k)))
			case 3:
				return sorted(v.Display())
			case 4:
				c := v.Clone()
				c.Insert(word(k))
				return fmt.Sprint(c.Len())
			case 5:
				return fmt.Sprint(v.Eq(w), v.Eq(v), v.IsSubset(w), v.IsSuperset(w), v.IsDisjoint(w))
			case 6:
				return sorted(v.Union(w).Display()) + sorted(v.Intersection(w).Display()) + sorted(v.SymmetricDifference(w).Display())
			case 7:
				x := v.AsSlice()
				s := make([]string, len(x))
				for i := range x {
					s[i] = string(x[i])
				}
				sort.Strings(s)
				return fmt.Sprint(s)
			default:
				return walk(func() g.Iterator[g.String] { return v.IntoIter() }, k, evenS, showS, false)
			}
		}}
	},
	func(p *program, n int) *shared { // BTreeMap
		v, w := g.BTreeMapNew[g.I32, g.String](), g.BTreeMapNew[g.I32, g.String]()
		for i := 0; i < n; i++ {
			k, x := g.I32(p.n(n)), p.word()
			v.Insert(k, x)
			w.Insert(k, x)
			if p.n(5) == 0 {
				k = g.I32(p.n(n))
				v.Remove(k)
				w.Remove(k)
			}
		}
		if p.n(2) == 0 {
			w.Insert(-1, "x")
		}
		return &shared{"BTreeMap", 8, func(op, k int) string {
			switch op {
			case 0:
				return fmt.Sprint(v.Len(), v.IsEmpty())
			case 1:
				return showOpt(v.Get(g.I32(k / 2)))
			case 2:
				return fmt.Sprint(v.ContainsKey(g.I32(k / 2)))
			case 3:
				return string(v.Display()) + string(v.Debug())
			case 4:
				return fmt.Sprint(v.Eq(w), w.Eq(v), v.Eq(v))
			case 5:
				return walk(func() g.Iterator[g.I32] { return v.Keys() }, k, evenI, showI, true)
			case 6:
				return walk(func() g.Iterator[g.String] { return v.Values() }, k, evenS, showS, true)
			default:
				return walk(func() g.Iterator[g.Pair[g.I32, g.String]] { return v.IntoIter() }, k,
					func(e g.Pair[g.I32, g.String]) bool { return e.Key%2 == 0 },
					func(e g.Pair[g.I32, g.String]) string { return fmt.Sprint(e.Key, ":", e.Value) }, true)
			}
		}}
	},
	func(p *program, n int) *shared { // BTreeSet
		v, w := g.BTreeSetNew[g.I32](), g.BTreeSetNew[g.I32]()
		for i := 0; i < n; i++ {
			v.Insert(g.I32(p.n(n)))
			w.Insert(g.I32(p.n(n)))
			if p.n(5) == 0 {
				v.Remove(g.I32(p.n(n)))
			}
		}
		return &shared{"BTreeSet", 7, func(op, k int) string {
			switch op {
			case 0:
				return fmt.Sprint(v.Len(), v.IsEmpty())
			case 1:
				return fmt.Sprint(v.Contains(g.I32(k / 2)))
			case 2:
				return string(v.Display()) + string(v.Debug())
			case 3:
				c := v.Clone()
				c.Insert(g.I32(k))
				return string(c.Display())
			case 4:
				return fmt.Sprint(v.Eq(w), v.Eq(v), v.IsSubset(w), v.IsSuperset(w), v.IsDisjoint(w))
			case 5:
				return string(v.Union(w).Display() + v.Intersection(w).Display() + v.SymmetricDifference(w).Display())
			default:
				return walk(func() g.Iterator[g.I32] { return v.IntoIter() }, k, evenI, showI, true)
			}
		}}
	},
	func(p *program, n int) *shared { // String
		s := g.String("")
		for i := 0; i < n/8; i++ {
			s.AddAssign(p.word())
		}
		return &shared{"String", 11, func(op, k int) string {
			x := g.String([]string{"a", "é", ",", "c c", ""}[k%5])
			switch op {
			case 0:
				return fmt.Sprint(s.Len(), s.IsEmpty())
			case 1:
				return fmt.Sprint(s.Chars().AsSlice())
			case 2:
				return fmt.Sprint(s.Contains(x), showOpt(s.Find(x)))
			case 3:
				return fmt.Sprintf("%q", s.Split(x).AsSlice())
			case 4:
				return string(s.Trim() + s.Replace(x, "<>"))
			case 5:
				return string(s.ToLowercase() + s.ToUppercase())
			case 6:
				b := s.IntoBytes()
				b.Reverse()
				return fmt.Sprint(b.AsSlice())
			case 7:
				return string(s.Add(x) + s.Repeat(g.USize(k%3)))
			case 8:
				return string(s.Display()+s.Debug()) + string(s.Clone())
			case 9:
				return fmt.Sprint(s.Eq(x), s.Cmp(x), s.ParseI64().IsOk(), s.ParseF64().IsOk())
			default:
				return string(g.Format("{}{}", s, x))
			}
		}}
	},
	func(p *program, n int) *shared { // Option
		o, q := g.Some(g.I32(p.n(9))), g.Some(g.I32(p.n(9)))
		if n%3 == 0 {
			o = g.None[g.I32]()
		}
		return &shared{"Option", 8, func(op, k int) string {
			add := func(x g.I32) g.I32 { return x + g.I32(k) }
			switch op {
			case 0:
				return fmt.Sprint(o.IsSome(), o.IsNone(), o.IsSomeAnd(func(x g.I32) g.Bool { return x > 3 }))
			case 1:
				return fmt.Sprint(o.UnwrapOr(g.I32(k)), o.UnwrapOrElse(func() g.I32 { return g.I32(k) }))
			case 2:
				return showOpt(o.Map(add)) + fmt.Sprint(o.MapOr(3, add), o.MapOrElse(func() g.I32 { return 4 }, add))
			case 3:
				return showOpt(o.Or(q)) + showOpt(o.Xor(q)) + showOpt(o.Filter(func(x g.I32) g.Bool { return x%2 == 0 }))
			case 4:
				return string(o.Display() + o.Debug())
			case 5:
				c := o.Clone()
				c.Replace(g.I32(k))
				return showOpt(c) + showOpt(o)
			case 6:
				return fmt.Sprint(o.Eq(q), q.Eq(o), o.Eq(o))
			default:
				return string(o.AsRef().Display())
			}
		}}
	},
	func(p *program, n int) *shared { // Result
		o, q := g.Ok(g.I32(p.n(9))), g.Ok(g.I32(p.n(9)))
		if n%3 == 0 {
			o = g.Err[g.I32](fmt.Errorf("bad %d", p.n(9)))
		}
		return &shared{"Result", 6, func(op, k int) string {
			add := func(x g.I32) g.I32 { return x + g.I32(k) }
			show := func(r g.Result[g.I32]) string {
				if r.IsErr() {
					return r.UnwrapErr().Error()
				}
				return fmt.Sprint(r.Unwrap())
			}
			switch op {
			case 0:
				return fmt.Sprint(o.IsOk(), o.IsErr())
			case 1:
				return fmt.Sprint(o.UnwrapOr(g.I32(k)))
			case 2:
				return show(o.Map(add)) + show(o.MapErr(func(e error) error { return fmt.Errorf("%w!", e) }))
			case 3:
				return show(o.Or(q)) + show(o.And(q)) + show(o.AndThen(func(x g.I32) g.Result[g.I32] { return g.Ok(x + 1) }))
			case 4:
				return showOpt(o.Ok()) + showOpt(o.Err())
			default:
				return fmt.Sprint(o.IsOkAnd(func(x g.I32) g.Bool { return x > 3 }), o.MapOr(1, add))
			}
		}}
	},
	func(p *program, n int) *shared { // 128-bit numbers and others
		a := g.I128_FromU64(g.U64(p.n(1 << 60))).Mul(g.I128_FromU64(g.U64(p.n(1 << 50)))).Neg()
		b := g.U128_FromU64(g.U64(p.n(1 << 60))).Mul(g.U128_FromU64(g.U64(p.n(1 << 50))))
		f := g.F64(p.n(1<<40)) / 64
		d := g.DurationNew(g.U64(p.n(1<<40)), g.U32(p.n(1<<30)))
		return &shared{"numbers", 5, func(op, k int) string {
			switch op {
			case 0:
				return string(a.ToString() + a.Display() + a.Add(g.I128_FromU64(g.U64(k))).ToString())
			case 1:
				return string(b.ToString() + b.Div(b.Add(g.U128_FromU64(g.U64(k+1)))).Display() + b.Mul(b).ToString())
			case 2:
				return string(f.ToString()+f.Display()) + fmt.Sprint(f.Round(), f.Floor())
			case 3:
				return string(d.AsNanos().ToString()) + fmt.Sprint(d.AsSecs(), d.SubsecMillis())
			default:
				return fmt.Sprint(a.Cmp(a), b.Eq(b), g.I64(k).CheckedMul(g.I64(k)).IsSome(), string(g.I64(k).ToString()))
			}
		}}
	},
	func(p *program, n int) *shared { // Vec of Vec
		v := g.VecNew[g.Vec[g.I32]]()
		for i := 0; i < n/8; i++ {
			w := g.VecNew[g.I32]()
			for k := p.n(6); k > 0; k-- {
				w.Push(g.I32(p.n(50)))
			}
			v.Push(w)
		}
		return nested("Vec of Vec", func() g.String { return v.Display() }, func() (g.String, bool) {
			c := v.Clone()
			e := bool(c.Eq(v))
			for i := g.USize(0); i < c.Len(); i++ {
				w := c.GetUnchecked(i)
				w.Fill(1)
			}
			return c.Display(), e
		}, func(k int) string {
			w := g.VecNew[g.I32]()
			w.Push(g.I32(k))
			return fmt.Sprint(v.Contains(w), v.Len())
		})
	},
	func(p *program, n int) *shared { // LinkedList of Option
		v := g.LinkedListNew[g.Option[g.String]]()
		for i := 0; i < n/8; i++ {
			if p.n(3) == 0 {
				v.PushBack(g.None[g.String]())
			} else {
				v.PushBack(g.Some(p.word()))
			}
		}
		return nested("LinkedList of Option", func() g.String { return v.Display() }, func() (g.String, bool) {
			c := v.Clone()
			e := bool(c.Eq(v))
			c.PopFront()
			return c.Display(), e
		}, func(k int) string {
			it, x := v.IntoIter(), ""
			for ; k > 0; k-- {
				if o := it.Next(); o.IsSome() {
					y := o.Unwrap()
					x += string(y.Display())
				}
			}
			return x
		})
	},
	func(p *program, n int) *shared { // BTreeMap of VecDeque
		v, w := g.BTreeMapNew[g.I32, g.VecDeque[g.I32]](), g.BTreeMapNew[g.I32, g.VecDeque[g.I32]]()
		for i := 0; i < n/8; i++ {
			d := g.VecDequeNew[g.I32]()
			for k := p.n(12); k > 0; k-- {
				d.PushFront(g.I32(p.n(50)))
				d.PushBack(g.I32(p.n(50)))
			}
			k := g.I32(p.n(n))
			v.Insert(k, d)
			w.Insert(k, d.Clone())
		}
		return nested("BTreeMap of VecDeque", func() g.String { return v.Display() }, func() (g.String, bool) {
			return w.Display(), bool(v.Eq(w))
		}, func(k int) string {
			if o := v.Get(g.I32(k)); o.IsSome() {
				d := o.Unwrap()
				return string(d.Display()) + fmt.Sprint(d.AsSlice())
			}
			return "None"
		})
	},
	func(p *program, n int) *shared { // Pair
		v := g.Pair[g.I32, g.Vec[g.String]]{Key: g.I32(n), Value: g.VecNew[g.String]()}
		for i := 0; i < n/8; i++ {
			v.Value.Push(p.word())
		}
		return nested("Pair", func() g.String { return v.Display() }, func() (g.String, bool) {
			c := v.Value.Clone()
			c.Reverse()
			return v.Debug() + c.Display(), bool(c.Eq(v.Value))
		}, func(k int) string { return showOpt(v.Value.Get(g.USize(k))) })
	},
	func(p *program, n int) *shared { // HashMap of BTreeSet
		v := g.HashMapNew[g.String, g.BTreeSet[g.I32]]()
		for i := 0; i < n/8; i++ {
			s := g.BTreeSetNew[g.I32]()
			for k := p.n(12); k > 0; k-- {
				s.Insert(g.I32(p.n(50)))
			}
			v.Insert(p.word(), s)
		}
		return nested("HashMap of BTreeSet", func() g.String { return g.String(sorted(v.Display())) }, func() (g.String, bool) {
			c := v.Clone()
			return g.String(sorted(c.Display())), bool(c.Eq(v))
		}, func(k int) string {
			if o := v.Get(g.String(fmt.Sprint("a", k))); o.IsSome() {
				s := o.Unwrap()
				return string(s.Display()) + fmt.Sprint(s.Contains(g.I32(k)))
			}
			return "None"
		})
	},
	func(p *program, n int) *shared { // Option of LinkedList
		l := g.LinkedListNew[g.I32]()
		for i := 0; i < n/8; i++ {
			l.PushFront(g.I32(p.n(50)))
		}
		v := g.Some(l)
		return nested("Option of LinkedList", func() g.String { return v.Display() }, func() (g.String, bool) {
			c := v.Clone()
			e := bool(c.Eq(v))
			d := c.Unwrap()
			d.PushBack(3)
			return d.Display(), e
		}, func(k int) string { return fmt.Sprint(v.IsSome()) })
	},
}

func nested(name string, display func() g.String, clone func() (g.String, bool), get func(k int) string) *shared {
	return &shared{name, 3, func(op, k int) string {
		switch op {
		case 0:
			return string(display())
		case 1:
			s, e := clone()
			return fmt.Sprint(s, e)
		default:
			return get(k)
		}
	}}
}
