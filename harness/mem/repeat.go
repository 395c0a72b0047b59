package mem

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verif/harness/fsutil"
	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

// op is an operation to be repeated. What do does may depend on r, and nothing
// of it may be held on to by the caller.
type op struct {
	name string
	reps int
	do   func(r *rng)
}

// ground is what an operation on files works on.
type ground struct {
	dir  string
	next int
}

func (d *ground) name() g.String {
	d.next++
	return g.String(fmt.Sprintf("%s/file %d", d.dir, d.next))
}

func (r *rng) text(n int) g.String {
	var b strings.Builder
	for b.Len() < n {
		fmt.Fprintf(&b, "%d é{{x}} ", r.n(1<<30))
	}
	return g.String(b.String())
}

func (r *rng) bytes(n int) []g.Byte { return []g.Byte(r.text(n)) }

type bare struct{ x, y int }

func opsOf(d *ground) []op {
	mu := g.MutexNew(0)
	over := g.Spawn(func() {})
	deque := g.VecDequeNew[g.I64]()
	list := g.LinkedListNew[g.I64]()
	vec := g.VecNew[g.I64]()
	heap := g.BinaryHeapNew[g.I64]()
	bm := g.BTreeMapNew[g.I64, g.I64]()
	hm := g.HashMapNew[g.I64, g.I64]()
	bs := g.BTreeSetNew[g.I64]()
	hs := g.HashSetNew[g.I64]()
	s := g.String("")
	opt := g.None[g.String]()
	fill := func(r *rng) g.Vec[g.String] {
		v := g.VecNew[g.String]()
		for i := 0; i < 10; i++ {
			v.Push(r.text(20))
		}
		return v
	}
	fails := func(f func()) { pbt.Catch(f) }
	return []op{
		{"Format", 1500, func(r *rng) { g.Format(r.text(300)+"{}", r.text(100)) }},
		{"Format of fresh templates", 4000, func(r *rng) { g.Format(r.text(10)+"{} {}", g.I32(r.n(1e9)), g.U8(1)) }},
		{"Display of numbers", 4000, func(r *rng) {
			g.I64(r.n(1 << 60)).Display()
			g.U32(r.n(1 << 30)).ToString()
			g.F64(r.n(1 << 60)).Debug()
		}},
		{"128-bit arithmetic", 2000, func(r *rng) {
			x := g.U128_FromU64(g.U64(r.n(1 << 62))).Mul(g.U128_FromU64(g.U64(r.n(1 << 62))))
			x.Div(g.U128_FromU64(g.U64(r.n(1<<60) + 1))).ToString()
			g.I128_FromI64(g.I64(r.n(1 << 62))).Neg().Mul(g.I128_FromI64(3)).Display()
		}},
		{"integer arithmetic", 4000, func(r *rng) {
			a := g.I32(r.n(1 << 31))
			a.WrappingMul(a)
			a.CheckedAdd(a)
			a.SaturatingMul(a)
			a.Pow(3)
			g.U64(r.n(1 << 62)).WrappingAdd(7)
		}},
		{"float functions", 4000, func(r *rng) {
			f := g.F64(r.n(1<<50)) / 7
			f.Sqrt()
			f.Ln()
			f.Powi(3)
			f.Log(3)
			f.Round()
		}},
		{"String functions", 800, func(r *rng) {
			x := r.text(200)
			x.Replace("x", "yy")
			x.Split("x")
			x.ToUppercase()
			x.ToLowercase()
			x.Trim()
			x.Chars()
			x.Find("9")
			x.Contains("77")
		}},
		{"bytes and texts", 1000, func(r *rng) {
			b := r.text(200).IntoBytes()
			g.StringFromUTF8(b)
			u := g.VecNew[g.U16]()
			for i := 0; i < 50; i++ {
				u.Push(g.U16(r.n(0x10000)))
			}
			g.StringFromUTF16(u)
		}},
		{"one growing and shrinking String", 2000, func(r *rng) {
			s = s.Push(g.Char('a' + r.n(20)))
			s.AddAssign(r.text(10))
			s.Pop()
			if len(s) > 500 {
				s = ""
			}
		}},
		{"parsing", 3000, func(r *rng) {
			n := g.String(fmt.Sprint(r.n(1 << 60)))
			n.ParseI64()
			n.ParseU64()
			n.ParseF64()
			(n + "x").ParseI64()
			(n + n + n).ParseU64()
			(n + "e").ParseF64()
		}},
		{"Vec Display, Clone, Eq and Sort", 600, func(r *rng) {
			v := fill(r)
			v.Display()
			v.Debug()
			c := v.Clone()
			c.Sort()
			v.Eq(c)
			v.Contains(r.text(3))
			c.BinarySearch("x")
		}},
		{"iterators", 600, func(r *rng) {
			v := fill(r)
			v.IntoIter().Map(func(x g.String) g.String { return x + "!" }).Filter(func(x g.String) g.Bool { return len(x)%2 == 0 }).CollectToLinkedList()
			v.IntoIter().Rev().Fold("", func(a, b g.String) g.String { return a + b })
			v.IntoIter().Next()
		}},
		{"one Vec", 4000, func(r *rng) {
			vec.Push(1)
			if vec.Len() > 10 {
				vec.Pop()
				vec.Pop()
			}
		}},
		{"one VecDeque as a queue", 4000, func(r *rng) {
			deque.PushBack(1)
			if deque.Len() > 10 {
				deque.PopFront()
			}
		}},
		{"one VecDeque as a queue, reversed", 4000, func(r *rng) {
			deque.PushFront(1)
			if deque.Len() > 10 {
				deque.PopBack()
			}
		}},
		{"one LinkedList as a queue", 4000, func(r *rng) {
			list.PushBack(1)
			if list.Len() > 10 {
				list.PopFront()
			}
		}},
		{"one LinkedList as a stack", 4000, func(r *rng) {
			list.PushFront(1)
			if list.Len() > 10 {
				list.PopFront()
			}
		}},
		{"one BinaryHeap", 4000, func(r *rng) {
			heap.Push(g.I64(r.n(1000)))
			if heap.Len() > 10 {
				heap.Pop()
			}
		}},
		{"one BTreeMap, sliding", 1500, func(r *rng) {
			k := g.I64(0)
			if it := bm.Keys().Rev().Next(); it.IsSome() {
				k = it.Unwrap() + 1
			}
			bm.Insert(k, k)
			bm.Insert(k, k+1)
			bm.Remove(k - 12)
		}},
		{"one BTreeMap, random", 3000, func(r *rng) {
			bm.Insert(g.I64(r.n(40)), 1)
			bm.Remove(g.I64(r.n(40)))
			bm.Get(g.I64(r.n(40)))
		}},
		{"one HashMap", 3000, func(r *rng) {
			k := g.I64(r.n(1 << 40))
			hm.Insert(k, k)
			hm.Get(k)
			hm.Remove(k)
		}},
		{"one BTreeSet", 3000, func(r *rng) {
			bs.Insert(g.I64(r.n(40)))
			bs.Remove(g.I64(r.n(40)))
		}},
		{"one HashSet", 3000, func(r *rng) {
			k := g.I64(r.n(1 << 40))
			hs.Insert(k)
			hs.Remove(k)
		}},
		{"set algebra", 400, func(r *rng) {
			a, b := g.HashSetNew[g.I64](), g.BTreeSetNew[g.I64]()
			for i := 0; i < 12; i++ {
				a.Insert(g.I64(r.n(30)))
				b.Insert(g.I64(r.n(30)))
			}
			a.Union(a.Clone()).SymmetricDifference(a).Intersection(a).IsSubset(a)
			b.Union(b.Clone()).SymmetricDifference(b).Intersection(b).IsSubset(b)
			b.Display()
			a.Display()
		}},
		{"maps, made and dropped", 400, func(r *rng) {
			a, b := g.HashMapNew[g.String, g.String](), g.BTreeMapNew[g.String, g.String]()
			for i := 0; i < 12; i++ {
				a.Insert(r.text(20), "x")
				b.Insert(r.text(20), "x")
			}
			a.Display()
			b.Display()
			a.Clone()
			b.Eq(b)
		}},
		{"lists, made and dropped", 800, func(r *rng) {
			a, b := g.LinkedListNew[g.String](), g.VecDequeNew[g.String]()
			for i := 0; i < 12; i++ {
				a.PushBack(r.text(10))
				b.PushFront(r.text(10))
			}
			a.Clone()
			b.Clone()
			a.Display()
			b.Display()
			c := g.LinkedListNew[g.String]()
			c.Append(&a)
		}},
		{"one Option", 3000, func(r *rng) {
			opt.Insert(r.text(50))
			opt.Replace(r.text(50))
			opt.Display()
			opt.Take()
		}},
		{"Options and Results", 3000, func(r *rng) {
			o := g.Some(g.I64(r.n(1 << 40)))
			o.Map(func(x g.I64) g.I64 { return x + 1 })
			o.AndThen(func(x g.I64) g.Option[any] { return g.Some[any](x) })
			o.Display()
			g.Err[g.I64](fmt.Errorf("%d", r.n(1<<40))).UnwrapOr(1)
			g.Ok(r.text(40)).Map(func(x g.String) g.String { return x + "." })
		}},
		{"failing Expect and Unwrap", 1500, func(r *rng) {
			fails(func() { g.None[g.I8]().Expect(string(r.text(200))) })
			fails(func() { g.None[g.I8]().Unwrap() })
			fails(func() { g.Err[g.I8](fmt.Errorf("%s", r.text(200))).Unwrap() })
		}},
		{"failing assertions", 1000, func(r *rng) {
			fails(func() { g.AssertEq(r.text(100), "", r.text(100)) })
			fails(func() { g.Assert(false, r.text(100)) })
			fails(func() { g.Panic(r.text(100)) })
			fails(func() { g.Todo(r.text(100)) })
		}},
		{"holding assertions", 4000, func(r *rng) {
			g.AssertEq(g.I32(1), 1, "same")
			g.AssertNe(g.I32(1), 2)
			g.Assert(true)
		}},
		{"missing traits", 1000, func(r *rng) {
			v := g.VecNew[bare]()
			v.Push(bare{r.n(100), 1})
			fails(func() { v.Display() })
			fails(func() { o := g.Some(bare{}); o.Display() })
			fails(func() { v.Push(bare{}); v.Sort() })
		}},
		{"conditions", 4000, func(r *rng) {
			g.If(g.Bool(r.n(2) == 0), func() int { return 1 }).ElseIf(g.Bool(r.n(2) == 0), func() int { return 2 }).Else(func() int { return 3 })
		}},
		{"Durations", 4000, func(r *rng) {
			x := g.DurationNew(g.U64(r.n(1<<40)), g.U32(r.n(1<<30)))
			x.AsNanos()
			x.AsSecs()
			x.SubsecMillis()
		}},
		{"Sleep", 500, func(r *rng) { g.Sleep(g.DurationFromNanos(g.U64(r.n(3)))) }},
		{"fresh mutexes", 4000, func(r *rng) {
			m := g.MutexNew(r.text(20))
			m.Lock()
			m.TryLock()
			m.Unlock()
			m.TryLock()
			m.Unlock()
		}},
		{"one mutex", 4000, func(r *rng) {
			*mu.Lock()++
			mu.TryLock()
			mu.Unlock()
		}},
		{"mutexes left locked", 4000, func(r *rng) {
			m := g.MutexNew(r.text(20))
			m.Lock()
		}},
		{"threads joined", 1000, func(r *rng) {
			x := r.text(50)
			h := g.Spawn(func() { _ = len(x) })
			h.Join()
			h.IsFinished()
		}},
		{"threads forgotten", 1000, func(r *rng) {
			x := r.text(50)
			g.Spawn(func() { _ = len(x) })
		}},
		{"one thread's handle", 4000, func(r *rng) {
			over.IsFinished()
			over.Join()
		}},
		{"futures awaited", 1000, func(r *rng) {
			x := r.text(50)
			gokio.Spawn(func() g.String { return x }).Await()
		}},
		{"futures forgotten", 1000, func(r *rng) {
			x := r.text(50)
			gokio.Spawn(func() g.String { return x })
		}},
		{"Write and RemoveFile", 300, func(r *rng) {
			n := d.name()
			g.Write(n, r.bytes(200))
			g.RemoveFile(n)
		}},
		{"Write of one file", 300, func(r *rng) { g.Write(g.String(d.dir+"/one"), r.bytes(500)) }},
		{"Read", 400, func(r *rng) { g.Read(g.String(d.dir + "/some")) }},
		{"ReadToString", 600, func(r *rng) { g.ReadToString(g.String(d.dir + "/some")) }},
		{"Copy, Rename and RemoveFile", 200, func(r *rng) {
			n := d.name()
			g.Copy(g.String(d.dir+"/some"), n)
			g.Rename(n, n+"'")
			g.RemoveFile(n + "'")
		}},
		{"directories", 300, func(r *rng) {
			n := d.name()
			g.CreateDir(n)
			g.ReadDir(n)
			g.RemoveDir(n)
		}},
		{"ReadDir", 500, func(r *rng) { g.ReadDir(g.String(d.dir)) }},
		{"failing file calls", 500, func(r *rng) {
			n := d.name() + "/" + r.text(20)
			g.Read(n)
			g.ReadToString(n)
			g.Write(n, nil)
			g.Copy(n, n+"'")
			g.Copy(g.String(d.dir+"/some"), n)
			g.Rename(n, n+"'")
			g.RemoveFile(n)
			g.RemoveDir(n)
			g.ReadDir(n)
			g.CreateDir(n)
			g.Read(g.String(d.dir))
		}},
		{"gokio file calls awaited", 200, func(r *rng) {
			n := d.name()
			gokio.Write(n, r.bytes(200)).Await()
			gokio.Read(n).Await()
			gokio.ReadToString(n).Await()
			gokio.Copy(n, n+"'").Await()
			gokio.RemoveFile(n + "'").Await()
			gokio.RemoveFile(n).Await()
			gokio.ReadDir(g.String(d.dir)).Await()
		}},
		{"gokio file calls forgotten", 400, func(r *rng) {
			gokio.Read(g.String(d.dir + "/some"))
			gokio.ReadDir(g.String(d.dir))
			gokio.Read(g.String(d.dir + "/none"))
			gokio.Write(g.String(d.dir+"/one"), r.bytes(100))
		}},
	}
}

// repeat: an operation repeated leaves nothing behind.
func repeat(t *pbt.T) {
	d := &ground{}
	ops := opsOf(d)
	o := ops[t.Intn(len(ops))]
	n := o.reps/2 + t.Intn(o.reps/2)
	r := rng(t.Draw(1 << 40))
	t.Logf("%s: rounds of %d", o.name, n)
	t.Label("repeated " + o.name)
	if n >= 500 {
		t.Nontrivial()
	}
	d.dir = fsutil.Scratch()
	defer fsutil.Remove(d.dir)
	if os.WriteFile(d.dir+"/some", make([]byte, 3000), 0o644) != nil {
		return
	}
	base := runtime.NumGoroutine()
	// The repetitions run on a goroutine of their own, so that a panic or a
	// stack that grew leaves nothing here.
	round := func(k int) {
		done := make(chan any)
		go func() {
			var v any
			defer func() { done <- v }()
			_, v = pbt.Catch(func() {
				for i := 0; i < k; i++ {
					o.do(&r)
					if i%64 == 63 {
						if settle(base+65, 3*time.Second) > base+65 {
							return
						}
					}
				}
			})
		}()
		select {
		case v := <-done:
			if v != nil {
				t.Failf("%s panicked: %v", o.name, v)
			}
		case <-time.After(60 * time.Second):
			t.Failf("%s, repeated %d times, does not end", o.name, k)
		}
		if left := settle(base, 5*time.Second); left > base {
			t.Failf("%s, repeated %d times, leaves %d goroutines behind", o.name, k, left-base)
		}
	}
	round(32)
	heap() // lets finalizers close what the above may have left open
	fds := fsutil.FDs()
	// open files are not the garbage collector's to close
	old := debug.SetGCPercent(-1)
	round(64)
	now := fsutil.FDs()
	debug.SetGCPercent(old)
	if fds >= 0 && now >= fds+8 {
		t.Failf("%s, repeated 64 times, leaves %d descriptors open until a garbage collection", o.name, now-fds)
	}
	last := heap()
	least := 1 << 60
	limit := 8000 + 4*n
	grew := []int{}
	// one round without growth is enough; more than three are needed by noise only
	for k := 0; k < 10 && (k < 3 || least > limit); k++ {
		round(n)
		now := heap()
		grew = append(grew, now-last)
		least = min(least, now-last)
		last = now
	}
	runtime.KeepAlive(ops)
	t.Logf("the heap grew by %d", grew)
	t.Stat("heap growth, bytes a round", float64(least))
	t.Check(least <= limit, "%s: the heap grows by %v bytes in rounds of %d repetitions, which hold on to nothing", o.name, grew, n)
	if now := fsutil.FDs(); fds >= 0 && now > fds {
		t.Failf("%s, repeated %d times, leaves %d descriptors open", o.name, len(grew)*n, now-fds)
	}
}
