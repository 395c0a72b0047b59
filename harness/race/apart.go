// Package race checks gost under the Go race detector: that values which have
// nothing to do with each other do not interfere, and that the synchronisation
// operations order memory. It is built with -race; a data race ends the
// process, which counts as a failure of the case that was running.
package race

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"unicode/utf16"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

// program is an independent history over its own values. It draws from its own
// stream, so it is the same history wherever its steps are run.
type program struct {
	seed  uint64
	state uint64
	out   []string // what each step showed, copied
	kept  []g.String
	held  []func() string // further results held on to: "" if as they were returned

	vec  g.Vec[g.I32]
	dq   g.VecDeque[g.String]
	list g.LinkedList[g.I64]
	heap g.BinaryHeap[g.I32]
	hm   g.HashMap[g.I32, g.String]
	bm   g.BTreeMap[g.I32, g.String]
	hs   g.HashSet[g.String]
	bs   g.BTreeSet[g.I32]
	s    g.String
	i128 g.I128
	u128 g.U128
	i64  g.I64
	f    g.F64
	opt  g.Option[g.I32]
	res  g.Result[g.String]
	dur  g.Duration
	it   g.Iterator[g.I32]
	mu   *g.Mutex[int]
	tmp  string // its own directory
	han  []g.JoinHandle

	inner func() // called from the program's own functions
}

func newProgram(seed uint64) *program {
	p := &program{seed: seed, state: seed}
	p.vec, p.dq, p.list, p.heap = g.VecNew[g.I32](), g.VecDequeNew[g.String](), g.LinkedListNew[g.I64](), g.BinaryHeapNew[g.I32]()
	p.hm, p.bm, p.hs, p.bs = g.HashMapNew[g.I32, g.String](), g.BTreeMapNew[g.I32, g.String](), g.HashSetNew[g.String](), g.BTreeSetNew[g.I32]()
	p.i128, p.u128, p.i64, p.f = g.I128_FromU64(g.U64(seed)), g.U128_FromU64(g.U64(seed)), g.I64(seed), 1.5
	p.opt, p.res, p.dur = g.None[g.I32](), g.Ok(g.String("")), g.DurationFromMillis(g.U64(seed%100000))
	return p
}

func (p *program) n(n int) int {
	p.state += 0x9e3779b97f4a7c15
	z := p.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z ^ (z >> 31)) >> 1 % uint64(n))
}

func (p *program) word() g.String {
	return g.String([]string{"", "a", "bé", "{}", "cc c", "Ǆ", "x,y", " d "}[p.n(8)] + fmt.Sprint(p.n(20)))
}

// show records what a step returned.
func (p *program) show(xs ...any) {
	for _, x := range xs {
		p.out = append(p.out, fmt.Sprint(x))
	}
}

// keep records a String and holds on to it, so that a later change to its
// memory shows.
func (p *program) keep(s g.String) {
	p.out = append(p.out, strings.Clone(string(s)))
	p.kept = append(p.kept, s)
}

// hold keeps a vector that was returned, to see whether it is altered later.
func hold[T comparable](p *program, v g.Vec[T]) {
	was := append([]T(nil), v.AsSlice()...)
	p.held = append(p.held, func() string {
		now := v.AsSlice()
		if len(now) != len(was) {
			return fmt.Sprintf("a Vec returned earlier, %v, has become %v", was, now)
		}
		for i := range now {
			if now[i] != was[i] {
				return fmt.Sprintf("a Vec returned earlier, %v, has become %v", was, now)
			}
		}
		return ""
	})
}

// popular texts are used by all programs alike.
var popular = []g.String{
	"", ",", "a,b,c", "a b,c d", "one,two,three,four,five,six,seven,eight,nine,ten,eleven,twelve",
	"é, 語, 😀, x", "-42", "3.25", g.String(strings.Repeat("ab,", 30)), g.String(strings.Repeat("word ", 60)),
}

// spoil shows a vector it was given and then alters it all over.
func spoil[T any](p *program, v g.Vec[T], x T) {
	p.show(v.AsSlice())
	v.Reverse()
	for i := g.USize(0); i < v.Len(); i++ {
		v.Set(i, x)
	}
	v.Push(x)
}

// rare uses what depends on an element type, on a type seldom used otherwise.
func rare[T any](mk func(k int) T) func(p *program) {
	return func(p *program) {
		a, b := mk(p.n(50)), mk(p.n(50))
		switch p.n(6) {
		case 0:
			p.keep(g.Format("{} {}", a, b))
		case 1:
			v := g.VecNew[T]()
			v.Push(a)
			v.Push(b)
			c := v.Clone()
			p.keep(c.Display())
			p.show(v.Eq(c), v.Contains(b))
		case 2:
			d := g.VecDequeNew[T]()
			d.PushFront(a)
			d.PushBack(b)
			p.keep(d.Clone().Display())
			p.show(d.Contains(a))
		case 3:
			l := g.LinkedListNew[T]()
			l.PushFront(a)
			l.PushBack(b)
			p.keep(l.Clone().Display())
		case 4:
			o := g.Some(a)
			p.keep(o.Display())
			p.keep(g.None[T]().Display())
		default:
			m := g.HashMapNew[g.I32, T]()
			m.Insert(1, a)
			p.keep(m.Display())
			v := g.VecWithLen[T](3)
			v.Fill(b)
			p.keep(v.Display())
			p.show(v.Eq(v.Clone()))
		}
	}
}

var rares = []func(p *program){
	rare(func(k int) g.I8 { return g.I8(k) }),
	rare(func(k int) g.I16 { return g.I16(k) }),
	rare(func(k int) g.U8 { return g.U8(k) }),
	rare(func(k int) g.U16 { return g.U16(k) }),
	rare(func(k int) g.U32 { return g.U32(k) }),
	rare(func(k int) g.U64 { return g.U64(k) }),
	rare(func(k int) g.ISize { return g.ISize(k) }),
	rare(func(k int) g.USize { return g.USize(k) }),
	rare(func(k int) g.I128 { return g.I128_FromU64(g.U64(k)).Neg() }),
	rare(func(k int) g.U128 { return g.U128_FromU64(g.U64(k)) }),
	rare(func(k int) g.F32 { return g.F32(k) / 4 }),
	rare(func(k int) g.F64 { return g.F64(k) / 4 }),
	rare(func(k int) g.Byte { return g.Byte(k) }),
	rare(func(k int) g.Char { return g.Char(k + 'a') }),
	rare(func(k int) g.Bool { return k%2 == 0 }),
	rare(func(k int) g.String { return g.String(fmt.Sprint(k, "é")) }),
	rare(func(k int) g.Option[g.U8] { return g.Some(g.U8(k)) }),
	rare(func(k int) g.Vec[g.U16] { return g.VecWithLen[g.U16](g.USize(k % 4)) }),
	rare(func(k int) g.LinkedList[g.Bool] {
		l := g.LinkedListNew[g.Bool]()
		l.PushBack(k%2 == 0)
		return l
	}),
	rare(func(k int) g.VecDeque[g.I8] {
		l := g.VecDequeNew[g.I8]()
		l.PushFront(g.I8(k))
		return l
	}),
}

// noTraits uses what needs a trait on a type of the program's own that has none.
func noTraits[T any](mk func(k int) T) func(p *program) {
	return func(p *program) {
		a, b := mk(p.n(50)), mk(p.n(50))
		v, d, l := g.VecNew[T](), g.VecDequeNew[T](), g.LinkedListNew[T]()
		v.Push(a)
		d.PushFront(b)
		l.PushBack(a)
		h := g.HashMapNew[g.I32, T]()
		h.Insert(g.I32(p.n(9)), a)
		m := g.BTreeMapNew[g.I32, T]()
		m.Insert(g.I32(p.n(9)), a)
		_, msg := pbt.Catch(func() {
			switch p.n(14) {
			case 0:
				p.keep(v.Display())
			case 1:
				v.Push(b)
				v.Sort()
			case 2:
				v.Clone()
			case 3:
				p.show(v.Eq(v))
			case 4:
				p.keep(d.Display())
			case 5:
				d.Clone()
			case 6:
				p.show(d.Eq(d))
			case 7:
				p.keep(l.Display())
			case 8:
				l.Clone()
			case 9:
				h.Clone()
			case 10:
				p.keep(m.Display())
			case 11:
				o := g.Some(a)
				p.keep(o.Display())
			case 12:
				p.keep(g.Format("{} {}", a, b))
			default:
				o := g.Some(a)
				o.Clone()
			}
		})
		p.show(msg)
	}
}

type (
	bareA struct{ x, y int }
	bareB struct{ s string }
	bareC int
	bareD [3]uint8
	bareE float32
	bareF map[string]int
)

var bares = []func(p *program){
	noTraits(func(k int) bareA { return bareA{k, 1} }),
	noTraits(func(k int) bareB { return bareB{fmt.Sprint(k)} }),
	noTraits(func(k int) bareC { return bareC(k) }),
	noTraits(func(k int) bareD { return bareD{uint8(k)} }),
	noTraits(func(k int) bareE { return bareE(k) }),
	noTraits(func(k int) bareF { return bareF{"k": k} }),
	noTraits(func(k int) int { return k }),
	noTraits(func(k int) uint16 { return uint16(k) }),
	noTraits(func(k int) string { return fmt.Sprint(k) }),
	noTraits(func(k int) []g.I32 { return make([]g.I32, k%3) }),
	noTraits(func(k int) struct{} { return struct{}{} }),
	noTraits(func(k int) func() { return nil }),
	noTraits(func(k int) chan int { return nil }),
	noTraits(func(k int) g.Vec[bareC] { v := g.VecNew[bareC](); v.Push(bareC(k)); return v }),
}

// files works in the program's own directory.
func (p *program) files() {
	if p.tmp == "" {
		d, err := os.MkdirTemp(os.Getenv("PBT_WORK"), "apart")
		if err != nil {
			panic(err)
		}
		p.tmp = d
	}
	name := func() g.String { return g.String(fmt.Sprintf("%s/f%d", p.tmp, p.n(4))) }
	data := func() []g.Byte { return []g.Byte(strings.Repeat(string(p.word()), p.n(400))) }
	io := p.n(2) == 0
	switch p.n(7) {
	case 0, 1:
		if io {
			p.show(gokio.Write(name(), data()).Await().IsOk())
		} else {
			p.show(g.Write(name(), data()).IsOk())
		}
	case 2:
		r := g.Ok([]g.Byte(nil))
		if io {
			r = gokio.Read(name()).Await()
		} else {
			r = g.Read(name())
		}
		p.show(r.IsOk())
		if r.IsOk() {
			v := r.Unwrap()
			p.keep(g.String(v))
			w := g.VecNew[g.Byte]()
			for _, b := range v {
				w.Push(b)
			}
			hold(p, w)
		}
	case 3:
		r := g.ReadToString(name())
		p.show(r.IsOk())
		if r.IsOk() {
			p.keep(r.Unwrap())
		}
	case 4:
		p.show(g.Copy(name(), name()).IsOk())
	case 5:
		p.show(g.Rename(name(), name()).IsOk(), g.RemoveFile(name()).IsOk())
		p.show(g.CreateDir(g.String(p.tmp+"/d")).IsOk(), g.RemoveDir(g.String(p.tmp+"/d")).IsOk())
	default:
		r := g.ReadDir(g.String(p.tmp))
		p.show(r.IsOk())
		if r.IsOk() {
			v := r.Unwrap()
			var es []string
			for _, e := range v.AsSlice() {
				es = append(es, fmt.Sprint(e.FileName, e.FileType.IsFile(), e.FileType.IsDir(), g.String(p.tmp)+"/"+e.FileName == e.Path))
			}
			sort.Strings(es)
			p.show(es)
		}
	}
}

const nSteps = 49

func (p *program) step() {
	k := p.n(nSteps)
	p.out = append(p.out, fmt.Sprintf("#%d", k))
	switch k {
	case 0:
		for i := p.n(20); i >= 0; i-- {
			p.vec.Push(g.I32(p.n(1000)))
		}
		p.show(p.vec.Len())
	case 1:
		p.vec.Sort()
		p.show(p.vec.AsSlice())
		if i := p.vec.BinarySearch(g.I32(p.n(1000))); i.IsSome() {
			p.show(p.vec.GetUnchecked(i.Unwrap()))
		}
	case 2:
		m := g.I32(p.n(5) + 1)
		p.vec.Retain(func(x g.I32) g.Bool { p.cb(); return x%(m+1) != 0 })
		p.vec.Dedup()
		p.show(p.vec.AsSlice())
	case 3:
		c := p.vec.Clone()
		c.Push(-1)
		hold(p, c)
		p.show(c.Eq(p.vec), c.AsSlice())
	case 4:
		p.keep(p.vec.Display())
	case 5:
		for i := p.n(9); i >= 0; i-- {
			if p.n(2) == 0 {
				p.dq.PushFront(p.word())
			} else {
				p.dq.PushBack(p.word())
			}
		}
		if o := p.dq.PopFront(); o.IsSome() {
			p.keep(o.Unwrap())
		}
		p.show(p.dq.Len())
	case 6:
		p.keep(p.dq.Display())
		p.dq.SortBy(func(a, b g.String) g.Ordering { p.cb(); return a.Cmp(b) })
		p.keep(p.dq.Display())
	case 7:
		for i := p.n(9); i >= 0; i-- {
			if p.n(2) == 0 {
				p.list.PushFront(g.I64(p.n(1000)))
			} else {
				p.list.PushBack(g.I64(p.n(1000)))
			}
		}
		if o := p.list.PopBack(); o.IsSome() {
			p.show(o.Unwrap())
		}
		p.keep(p.list.Display())
	case 8:
		for i := p.n(9); i >= 0; i-- {
			p.heap.Push(g.I32(p.n(1000)))
		}
		if o := p.heap.Pop(); o.IsSome() {
			p.show(o.Unwrap())
		}
	case 9:
		for i := p.n(9); i >= 0; i-- {
			p.hm.Insert(g.I32(p.n(30)), p.word())
		}
		if o := p.hm.Remove(g.I32(p.n(30))); o.IsSome() {
			p.keep(o.Unwrap())
		}
		p.show(p.hm.Len())
	case 10:
		var r []string
		for it := p.hm.IntoIter(); ; {
			o := it.Next()
			if o.IsNone() {
				break
			}
			e := o.Unwrap()
			r = append(r, fmt.Sprint(e.Key, e.Value))
		}
		sort.Strings(r)
		p.show(r)
	case 11:
		for i := p.n(30); i >= 0; i-- {
			p.bm.Insert(g.I32(p.n(80)), p.word())
		}
		p.show(p.bm.Len())
	case 12:
		for i := p.n(20); i >= 0; i-- {
			if o := p.bm.Remove(g.I32(p.n(80))); o.IsSome() {
				p.keep(o.Unwrap())
			}
		}
		p.show(p.bm.Len())
	case 13:
		p.keep(p.bm.Display())
	case 14:
		for i := p.n(9); i >= 0; i-- {
			p.hs.Insert(p.word())
		}
		p.show(p.hs.Len(), p.hs.Contains(p.word()))
	case 15:
		o := g.BTreeSetNew[g.I32]()
		for i := p.n(20); i >= 0; i-- {
			p.bs.Insert(g.I32(p.n(60)))
			o.Insert(g.I32(p.n(60)))
		}
		u := p.bs.Union(o)
		p.keep(u.Display())
		p.show(p.bs.IsSubset(u), p.bs.IsDisjoint(o))
		p.bs = p.bs.SymmetricDifference(o)
	case 16:
		p.keep(g.Format("{}: {} {{{}}} é", g.I32(p.n(100)), p.word(), g.F64(p.n(1000))/8))
	case 17:
		p.keep(g.Format("<{}|{}>", p.vec, p.opt))
	case 18:
		p.s = p.s.Push(g.Char([]rune{'a', 'é', '語', 0x1F600}[p.n(4)]))
		p.s.AddAssign(p.word())
		p.keep(p.s)
	case 19:
		if o := p.s.Pop(); o.IsSome() {
			p.show(rune(o.Unwrap()))
		}
		p.keep(p.s.ToUppercase())
		p.keep(p.s.Trim())
		v := p.s.Chars()
		p.show(v.Len())
	case 20:
		p.keep(p.s.Replace("c", p.word()))
		w := p.s.Split("c")
		for _, x := range w.AsSlice() {
			p.keep(x)
		}
		p.show(p.s.Find("é").IsSome())
	case 21:
		b := p.s.IntoBytes()
		p.keep(g.StringFromUTF8(b))
		hold(p, b)
		hold(p, p.s.Chars())
		hold(p, g.String(p.word()).Split("c"))
		if len(p.s) > 200 {
			p.s = ""
		}
	case 22:
		p.i128 = p.i128.Mul(g.I128_FromU64(g.U64(p.n(1 << 30)))).Sub(g.I128_FromU64(7))
		p.keep(p.i128.ToString())
	case 23:
		p.u128 = p.u128.Mul(g.U128_FromU64(g.U64(p.n(1 << 30)))).Add(g.U128_FromU64(3))
		p.keep(p.u128.Display())
		p.keep(p.u128.Div(g.U128_FromU64(g.U64(p.n(1000) + 1))).ToString())
	case 24:
		p.i64 = p.i64.WrappingMul(g.I64(p.n(1000) - 500)).WrappingAdd(1)
		p.show(p.i64, p.i64.CheckedAdd(g.I64(p.n(1<<40))).IsSome(), p.i64.Shl(g.I64(p.n(70))))
		p.keep(p.i64.ToString())
		p.keep(p.i64.Debug())
	case 25:
		p.f = p.f.Add(g.F64(p.n(1000)) / 16).Sqrt()
		p.show(p.f, p.f.Floor(), p.f.Exp(), p.f.Powi(p.n(7)-3))
		p.keep(p.f.ToString())
	case 26:
		switch p.n(4) {
		case 0:
			*p.opt.Insert(g.I32(p.n(50)))++
		case 1:
			o := p.opt.Take()
			p.show(o.IsSome())
		case 2:
			*p.opt.GetOrInsert(5) += 2
		default:
			p.opt = p.opt.Map(func(x g.I32) g.I32 { p.cb(); return x * 3 })
		}
		p.keep(p.opt.Display())
	case 27:
		if p.n(3) == 0 {
			p.res = g.Err[g.String](fmt.Errorf("error %d", p.n(50)))
		} else {
			p.res = g.Ok(p.word())
		}
		p.res = p.res.Map(func(x g.String) g.String { p.cb(); return x + "!" })
		p.keep(p.res.UnwrapOr("no"))
	case 28:
		c := g.Bool(p.n(3) == 0)
		a := p.n(100)
		p.show(g.If(c, func() int { p.cb(); return a }).ElseIf(!c && a > 50, func() int { p.cb(); return -a }).Else(func() int { p.cb(); return 0 }))
	case 29:
		d := g.DurationNew(g.U64(p.n(1<<40)), g.U32(p.n(1<<32)))
		p.keep(d.AsNanos().ToString())
		p.show(d.AsSecs(), d.SubsecMicros(), p.dur.SubsecMillis())
	case 30: // an iterator kept across steps
		if p.it == nil {
			p.it = p.vec.IntoIter()
		}
		for i := p.n(4); i >= 0; i-- {
			o := p.it.Next()
			if o.IsNone() {
				p.it = nil
				break
			}
			p.show(o.Unwrap())
		}
	case 31:
		add := g.I32(p.n(9))
		v := p.vec.IntoIter().Map(func(x g.I32) g.I32 { p.cb(); return x + add }).Filter(func(x g.I32) g.Bool { p.cb(); return x%3 != 0 }).Rev().CollectToVec()
		hold(p, v)
		p.show(v.AsSlice(), p.vec.IntoIter().Fold(0, func(a, b g.I32) g.I32 { p.cb(); return a*31 + b }))
	case 37, 38:
		bares[p.n(len(bares))](p)
	case 39: // its own mutex
		if p.mu == nil {
			mu := g.MutexNew(p.n(100))
			p.mu = &mu
		}
		*p.mu.Lock() += p.n(10)
		p.show(p.mu.TryLock().IsErr())
		p.mu.Unlock()
		r := p.mu.TryLock()
		p.show(r.IsOk())
		if r.IsOk() {
			p.show(*r.Unwrap())
			p.mu.Unlock()
		}
	case 40: // its own threads
		x, add := p.n(100), p.n(100)
		h := g.Spawn(func() { x += add })
		p.show(h.Join().IsOk(), x)
		p.han = append(p.han, h)
		for _, h := range p.han {
			p.show(h.IsFinished(), h.Join().IsOk())
		}
	case 41: // its own futures
		x, w := p.n(1000), p.word()
		f := gokio.Spawn(func() g.I32 { return g.I32(x) })
		e := gokio.Spawn(func() g.String { return w + "." })
		p.keep(e.Await())
		p.show(f.Await())
	case 42:
		p.files()
	case 44: // what it got is its own to alter, even if others ask for the same
		text := popular[p.n(len(popular))]
		switch p.n(7) {
		case 0:
			spoil(p, text.Split(g.String([]string{",", " ", ""}[p.n(3)])), "?")
		case 1:
			spoil(p, text.Chars(), '?')
		case 2:
			spoil(p, text.IntoBytes(), '?')
		case 3:
			u := g.VecNew[g.U16]()
			for _, c := range utf16.Encode([]rune(string(text))) {
				u.Push(g.U16(c))
			}
			p.keep(g.StringFromUTF16(u).Unwrap())
			spoil(p, u, '?')
		case 4:
			b := text.IntoBytes()
			s := g.StringFromUTF8(b)
			spoil(p, b, '?')
			p.keep(s)
			s.Push('x')
			p.keep(s)
		case 5:
			p.keep(text.ToUppercase())
			p.keep(text.Repeat(3))
			p.keep(text.Replace(",", "<,>"))
			o := text.ParseI64()
			p.show(o.IsOk(), text.Find(",").IsSome(), text.ParseF64().IsOk())
		default:
			a := g.VecNew[g.String]()
			for _, x := range strings.Split(string(text), ",") {
				a.Push(g.String(x))
			}
			l, d, h := a.IntoIter().CollectToLinkedList(), g.VecDequeNew[g.String](), g.HashSetNew[g.String]()
			spoil(p, a.IntoIter().CollectToVec(), "!")
			spoil(p, a.Clone(), "!")
			spoil(p, l.IntoIter().CollectToVec(), "!")
			for i := g.USize(0); i < a.Len(); i++ {
				d.PushBack(a.GetUnchecked(i))
				h.Insert(a.GetUnchecked(i))
			}
			spoil(p, d.IntoIter().CollectToVec(), "!")
			spoil(p, a.IntoIter().Rev().CollectToVec(), "!")
			p.show(a.Len(), h.Len())
			p.keep(a.Display())
			p.keep(d.Display())
			p.keep(l.Display())
		}
	case 43:
		c := p.bm.IntoIter().Filter(func(e g.Pair[g.I32, g.String]) g.Bool { p.cb(); return e.Key%2 == 0 }).CollectToVec()
		for _, e := range c.AsSlice() {
			p.show(e.Key)
			p.keep(e.Value)
		}
		p.show(p.bm.Eq(p.bm))
		h := p.hs.Clone()
		h.Insert(p.word())
		p.show(h.IsSuperset(p.hs), p.hs.IsSubset(h), h.Len(), p.hs.Union(h).Len(), p.hs.Intersection(h).Len(), h.SymmetricDifference(p.hs).Len())
		b := p.bs.Clone()
		b.Insert(g.I32(p.n(100)))
		p.keep(b.Display())
		p.show(b.Eq(p.bs))
		_, msg := pbt.Catch(func() { g.Panic("{} of {}", p.word(), g.I32(p.n(100))) })
		p.show(msg)
		d := p.dq.Clone()
		d.Sort()
		d.Dedup(func(s g.String) any { p.cb(); return s })
		hold(p, g.VecDeque[g.String](d).IntoIter().CollectToVec())
		p.show(d.Contains(p.word()))
	case 33, 34:
		rares[p.n(len(rares))](p)
	case 35: // collections turned into others
		ks, vs := p.bm.Keys().CollectToVec(), p.bm.Values().CollectToVec()
		hold(p, ks)
		hold(p, vs)
		p.keep(ks.Display())
		l := p.list.IntoIter().Rev().CollectToLinkedList()
		p.keep(l.Display())
		hold(p, p.dq.IntoIter().CollectToVec())
	case 36:
		h := p.heap.IntoSortedVec()
		p.show(h.AsSlice())
		hold(p, h)
		p.heap = g.BinaryHeapNew[g.I32]()
		p.heap.Push(g.I32(p.n(100)))
	case 32:
		a := p.word()
		_, msg := pbt.Catch(func() { g.AssertEq(a, a+"?", g.String("msg {}"), g.I32(p.n(9))) })
		p.show(msg)
		r := g.String(fmt.Sprint(p.n(1 << 40))).ParseI64()
		p.show(r.IsOk(), r.UnwrapOr(0))
	case 45, 46, 47, 48:
		p.callbacks()
	default:
		u := g.VecNew[g.U16]()
		for i := p.n(5); i >= 0; i-- {
			u.Push(g.U16('a' + p.n(20)))
			if p.n(4) == 0 {
				u.Push(0xD83D)
				u.Push(0xDE00)
			}
		}
		if o := g.StringFromUTF16(u); o.IsOk() {
			p.keep(o.Unwrap())
		}
	}
	if p.vec.Len() > 300 {
		p.vec.Clear()
	}
}

// check compares what the program showed with what it showed when run alone.
func (p *program) check(t *pbt.T, how string, i int, want []string) {
	for k := range p.out {
		if k >= len(want) || p.out[k] != want[k] {
			from := max(0, k-6)
			w := "nothing"
			if k < len(want) {
				w = want[k]
			}
			t.Failf("program %d (stream %d) run %s shows %q after %q; alone it shows %q", i, p.seed, how, p.out[k], p.out[from:k], w)
		}
	}
	if len(p.out) != len(want) {
		t.Failf("program %d (stream %d) run %s shows %d things; alone %d", i, p.seed, how, len(p.out), len(want))
	}
	p.whole(t, how, i)
}

// whole checks that the texts and vectors returned earlier are still what they were.
func (p *program) whole(t *pbt.T, how string, i int) {
	k := 0
	for _, s := range p.out {
		if k < len(p.kept) && s == string(p.kept[k]) {
			k++
		}
	}
	if k != len(p.kept) {
		t.Failf("program %d (stream %d) run %s: a String returned earlier has become %q", i, p.seed, how, p.kept[k])
	}
	for _, f := range p.held {
		if m := f(); m != "" {
			t.Failf("program %d (stream %d) run %s: %s", i, p.seed, how, m)
		}
	}
}

func (p *program) run(steps int) {
	for i := 0; i < steps; i++ {
		p.step()
	}
}

var C45 = &pbt.Prop{
	ID:    "C45",
	Rule:  "2..5 independent programs, each of 1..40 random operations out of 46 kinds over its own collections, texts, numbers, options, results, durations, iterators, mutex, threads, futures, files, seldom used element types, elements whose methods call back, and element types without traits, run alone in both orders, interleaved step by step on one goroutine in a random order, one inside the operations of another (from the functions and element methods it passes), and at the same time on one goroutine each (before or after), under the race detector; every program must show the same each time; non-trivial = 10 steps or more in each",
	Quick: 4000, Thorough: 160000,
	Run: func(t *pbt.T) {
		n := 2 + t.Intn(4)
		steps := make([]int, n)
		seeds := make([]uint64, n)
		small := false
		for i := range steps {
			steps[i] = 1 + t.Intn(40)
			seeds[i] = t.Draw(1 << 40)
			if i > 0 && t.OneIn(4) {
				seeds[i] = seeds[i-1] // the same history twice
			}
			small = small || steps[i] < 10
			t.Logf("program %d: %d steps of stream %d", i, steps[i], seeds[i])
		}
		if !small {
			t.Nontrivial()
		}
		var all []*program
		newProgram := func(seed uint64) *program {
			all = append(all, newProgram(seed))
			return all[len(all)-1]
		}
		defer func() {
			for _, p := range all {
				if p.tmp != "" {
					os.RemoveAll(p.tmp)
				}
			}
		}()
		cold := t.Bool()
		t.LabelIf(cold, "first at the same time, then alone")
		t.NoPanic("an independent program", func() {
			// at the same time
			beside := func() []*program {
				ps := make([]*program, n)
				var wg sync.WaitGroup
				start := make(chan struct{})
				panics := make([]any, n)
				for i := range ps {
					ps[i] = newProgram(seeds[i])
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() { panics[i] = recover() }()
						<-start
						for k := 0; k < steps[i]; k++ {
							ps[i].step()
							if k%4 == 3 {
								runtime.Gosched()
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				for i := range ps {
					if panics[i] != nil {
						t.Failf("program %d (stream %d) run beside the others panics: %v", i, seeds[i], panics[i])
					}
				}
				return ps
			}
			var first []*program
			if cold { // before anything of this has been run alone
				first = beside()
			}
			want := make([][]string, n)
			for i := range want {
				p := newProgram(seeds[i])
				p.run(steps[i])
				want[i] = p.out
				p.whole(t, "alone", i)
			}
			for i := n - 1; i >= 0; i-- {
				p := newProgram(seeds[i])
				p.run(steps[i])
				p.check(t, "alone again", i, want[i])
			}
			// interleaved
			ps := make([]*program, n)
			left := append([]int(nil), steps...)
			var ready []int
			for i := range ps {
				ps[i] = newProgram(seeds[i])
				ready = append(ready, i)
			}
			for len(ready) > 0 {
				at := t.Intn(len(ready))
				i := ready[at]
				ps[i].step()
				if left[i]--; left[i] == 0 {
					ready = append(ready[:at], ready[at+1:]...)
				}
			}
			for i, p := range ps {
				p.check(t, "interleaved with the others", i, want[i])
			}
			for i, p := range within(t, seeds, steps, newProgram) {
				p.check(t, "inside the operations of the others", i, want[i])
			}
			for i, p := range first {
				p.check(t, "beside the others", i, want[i])
			}
			for i, p := range beside() {
				p.check(t, "beside the others", i, want[i])
			}
		})
	},
	Assumptions: []string{"the race detector reports no false races", "values that share nothing: no collection, String, option or closure is reachable from two programs"},
}
