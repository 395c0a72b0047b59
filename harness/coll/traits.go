//go:build traits || all

package coll

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// The traits every type is documented to implement ("The basic traits ...
// defined for most types" in the README, and the "impl X for Y" comments).

type traitCase struct {
	name string
	run  func(t *pbt.T)
}

func hasDisplay[X any](t *pbt.T, name string, x X) g.String {
	d, ok := any(x).(g.Display[X])
	if !ok {
		t.Failf("%s does not satisfy Display", name)
	}
	dd, ok := any(x).(g.Debug[X])
	if !ok {
		t.Failf("%s does not satisfy Debug", name)
	}
	dd.Debug()
	return d.Display()
}

func hasEq[X any](t *pbt.T, name string, x, y X) bool {
	e, ok := any(x).(g.Eq[X])
	if !ok {
		t.Failf("%s does not satisfy Eq", name)
	}
	return bool(e.Eq(y))
}

func hasAsRef[X any](t *pbt.T, name string, x X, eq func(a, b X) bool) {
	a, ok := any(x).(g.AsRef[X])
	if !ok {
		t.Failf("%s does not satisfy AsRef", name)
	}
	p := a.AsRef()
	if p == nil || !eq(*p, x) {
		t.Failf("AsRef of %s(%v) does not point to an equal value", name, x)
	}
}

// basic checks the traits of the values themselves, and the values as
// elements of Vec, Option, Result and Pair.
func basic[X interface {
	comparable
	g.Ord[X]
}](t *pbt.T, name string, xs []X, less func(a, b X) bool) {
	vec := g.VecNew[X]()
	var texts []string
	for _, x := range xs {
		vec.Push(x)
		text := string(hasDisplay(t, name, x))
		texts = append(texts, text)
		if f := string(g.Format("{}", x)); f != text {
			t.Failf("Format of %s gives %q, Display %q", name, f, text)
		}
		if s, ok := any(x).(g.ToString[X]); !ok {
			t.Failf("%s does not satisfy ToString", name)
		} else if string(s.ToString()) != text {
			t.Failf("ToString of %s gives %q, Display %q", name, s.ToString(), text)
		}
		if c := cloneOf(t, name, x); c != x {
			t.Failf("Clone of %s(%v) is %v", name, x, c)
		}
		if !hasEq(t, name, x, x) {
			t.Failf("%s(%v) is not Eq to itself", name, x)
		}
		hasAsRef(t, name, x, func(a, b X) bool { return a == b })
		g.AssertEq(x, x)
		some, ok := g.Some(x), g.Ok(x)
		if !bool(some.Eq(some.Clone())) || string(some.Display()) != "Some("+text+")" {
			t.Failf("Some of %s: Display %q", name, some.Display())
		}
		if !bool(ok.Eq(ok.Clone())) || string(ok.Display()) != "Ok("+text+")" {
			t.Failf("Ok of %s: Display %q", name, ok.Display())
		}
		p := g.Pair[X, X]{Key: x, Value: xs[0]}
		if !bool(p.Eq(p.Clone())) {
			t.Failf("a Pair of %s is not Eq to its clone", name)
		}
		q := g.Pair[X, X]{Key: xs[0], Value: x}
		want := g.OrderingEqual
		if less(x, xs[0]) {
			want = g.OrderingLess
		} else if less(xs[0], x) {
			want = g.OrderingGreater
		}
		// (x, first) against (first, x): decided by the first field
		if got := p.Cmp(q); got != want {
			t.Failf("Cmp of Pair[%s] (%v,%v) and (%v,%v) = %d, want %d", name, x, xs[0], xs[0], x, got, want)
		}
	}
	if got, want := string(vec.Display()), "Vec["+strings.Join(texts, ", ")+"]"; got != want {
		t.Failf("Display of a Vec of %s is %q, want %q", name, got, want)
	}
	if !bool(vec.Eq(vec.Clone())) {
		t.Failf("a Vec of %s is not Eq to its clone", name)
	}
	for _, x := range xs {
		if !bool(vec.Contains(x)) {
			t.Failf("a Vec of %s does not find its element %v", name, x)
		}
	}
	want := sorted(xs, less)
	vec.Sort()
	if !same(vec.AsSlice(), want) {
		t.Failf("Sort of %s %s gives %s", name, pbt.Show(xs), pbt.Show(vec.AsSlice()))
	}
	if vec.BinarySearch(xs[len(xs)-1]).IsNone() {
		t.Failf("BinarySearch does not find a %s", name)
	}
}

func sorted[X any](xs []X, less func(a, b X) bool) []X {
	want := append([]X(nil), xs...)
	sort.SliceStable(want, func(i, j int) bool { return less(want[i], want[j]) })
	return want
}

// usable puts values of an ordered type everywhere else the library demands
// its traits.
func usable[X interface {
	comparable
	g.Ord[X]
}](t *pbt.T, name string, xs []X, less func(a, b X) bool) {
	n := len(xs)
	deq := g.VecDequeNew[X]()
	lst := g.LinkedListNew[X]()
	hset := g.HashSetNew[X]()
	tset := g.BTreeSetNew[X]()
	hmap := g.HashMapNew[X, X]()
	tmap := g.BTreeMapNew[X, X]()
	heap := g.BinaryHeapNew[X]()
	var texts []string
	for _, x := range xs {
		deq.PushBack(x)
		lst.PushBack(x)
		hset.Insert(x)
		tset.Insert(x)
		hmap.Insert(x, x)
		tmap.Insert(x, x)
		heap.Push(x)
		texts = append(texts, string(hasDisplay(t, name, x)))
	}
	body := strings.Join(texts, ", ")
	for _, c := range []struct{ got, want string }{
		{string(deq.Display()), "VecDeque[" + body + "]"},
		{string(lst.Display()), "LinkedList[" + body + "]"},
	} {
		if c.got != c.want {
			t.Failf("Display of a collection of %s is %q, want %q", name, c.got, c.want)
		}
	}
	if !bool(lst.Eq(lst.Clone())) || !bool(hset.Eq(hset.Clone())) || !bool(tset.Eq(tset.Clone())) || !bool(hmap.Eq(hmap.Clone())) {
		t.Failf("a collection of %s is not Eq to its clone", name)
	}
	if !hasEq(t, "BTreeMap["+name+"]", tmap, tmap) || !hasEq(t, "VecDeque["+name+"]", deq, cloneOf(t, "VecDeque["+name+"]", deq)) {
		t.Failf("a collection of %s is not Eq to itself", name)
	}
	hset.Display()
	tset.Display()
	hmap.Display()
	tmap.Display()
	for _, x := range xs {
		if !bool(deq.Contains(x)) || !bool(hset.Contains(x)) || !bool(tset.Contains(x)) ||
			bool(hmap.Get(x).IsNone()) || bool(tmap.Get(x).IsNone()) {
			t.Failf("a collection of %s does not find its element %v", name, x)
		}
	}
	want := sorted(xs, less)
	deq.Sort()
	if !same(deq.AsSlice(), want) {
		t.Failf("Sort of %s %s gives %s", name, pbt.Show(xs), pbt.Show(deq.AsSlice()))
	}
	if deq.BinarySearch(xs[0]).IsNone() {
		t.Failf("BinarySearch does not find a %s", name)
	}
	if top := heap.Pop(); top.IsNone() || top.Unwrap() != want[n-1] {
		t.Failf("BinaryHeap of %s %s pops %s", name, pbt.Show(xs), opt(top))
	}
	if tk, _ := drain(tset.IntoIter(), n); len(tk) == 0 || tk[0] != want[0] {
		t.Failf("BTreeSet of %s %s starts with %s", name, pbt.Show(xs), pbt.Show(tk))
	}
}

func ordCase[X interface {
	comparable
	g.Ord[X]
}](name string, gen func(t *pbt.T) X, less func(a, b X) bool, full func(*pbt.T, string, []X, func(a, b X) bool), more ...func(t *pbt.T, x X)) traitCase {
	return traitCase{name, func(t *pbt.T) {
		n := t.Range(1, 12)
		xs := make([]X, n)
		for i := range xs {
			xs[i] = gen(t)
			if i > 0 && t.OneIn(4) {
				xs[i] = xs[t.Intn(i)]
			}
		}
		t.Nontrivial()
		if t.Tracing() {
			t.Logf("%s: %s", name, pbt.Show(xs))
		}
		basic(t, name, xs, less)
		if full != nil {
			full(t, name, xs, less)
		}
		for _, f := range more {
			f(t, xs[0])
		}
	}}
}

// agree compares an operator with its assigning form, in the value or in the
// refusal.
func agree[X any](t *pbt.T, name, op string, x, y X, f func(X) X, assign func(*X, X)) {
	var r X
	z := x
	p1, _ := pbt.Catch(func() { r = f(y) })
	p2, _ := pbt.Catch(func() { assign(&z, y) })
	if p1 != p2 {
		t.Failf("%s: %v.%s(%v) panics: %v, %sAssign panics: %v", name, x, op, y, p1, op, p2)
	}
	if !p1 && fmt.Sprint(r) != fmt.Sprint(z) {
		t.Failf("%s: %v.%s(%v) is %v, %sAssign makes it %v", name, x, op, y, r, op, z)
	}
}

// arith demands the operator traits.
func arith[X any](name string, rem, neg, shift bool) func(t *pbt.T, x X) {
	return func(t *pbt.T, x X) {
		need := func(ok bool, trait string) {
			if !ok {
				t.Failf("%s does not satisfy %s", name, trait)
			}
		}
		_, ok := any(x).(g.Add[X])
		need(ok, "Add")
		_, ok = any(x).(g.Sub[X])
		need(ok, "Sub")
		_, ok = any(x).(g.Mul[X])
		need(ok, "Mul")
		_, ok = any(x).(g.Div[X])
		need(ok, "Div")
		_, ok = any(&x).(g.AddAssign[X])
		need(ok, "AddAssign")
		_, ok = any(&x).(g.SubAssign[X])
		need(ok, "SubAssign")
		_, ok = any(&x).(g.MulAssign[X])
		need(ok, "MulAssign")
		_, ok = any(&x).(g.DivAssign[X])
		need(ok, "DivAssign")
		if rem {
			_, ok = any(x).(g.Rem[X])
			need(ok, "Rem")
			_, ok = any(&x).(g.RemAssign[X])
			need(ok, "RemAssign")
		}
		y := x
		if t.Bool() {
			y = any(x).(g.Add[X]).Add(x)
		}
		agree(t, name, "Add", x, y, any(x).(g.Add[X]).Add, func(p *X, y X) { any(p).(g.AddAssign[X]).AddAssign(y) })
		agree(t, name, "Sub", x, y, any(x).(g.Sub[X]).Sub, func(p *X, y X) { any(p).(g.SubAssign[X]).SubAssign(y) })
		agree(t, name, "Mul", x, y, any(x).(g.Mul[X]).Mul, func(p *X, y X) { any(p).(g.MulAssign[X]).MulAssign(y) })
		agree(t, name, "Div", x, y, any(x).(g.Div[X]).Div, func(p *X, y X) { any(p).(g.DivAssign[X]).DivAssign(y) })
		if rem {
			agree(t, name, "Rem", x, y, any(x).(g.Rem[X]).Rem, func(p *X, y X) { any(p).(g.RemAssign[X]).RemAssign(y) })
		}
		if neg {
			_, ok = any(x).(g.Neg[X])
			need(ok, "Neg")
		}
		if shift {
			_, ok = any(x).(g.Shl[X])
			need(ok, "Shl")
			_, ok = any(x).(g.Shr[X])
			need(ok, "Shr")
		}
	}
}

func goLess[X ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64 | ~string | ~int](a, b X) bool {
	return a < b
}

func noNegZero(t *pbt.T) float64 {
	f := genFloat(t)
	if f == 0 {
		return 0
	}
	return f
}

// plainTraits is for types without an order: containers and complex numbers.
func plainTraits[X any](k ckind[X]) traitCase {
	return traitCase{k.name, func(t *pbt.T) {
		x := k.mk(t, 6)
		was := k.look(&x)
		if len(was) > 4 {
			t.Nontrivial()
		}
		t.Logf("%s: %s", k.name, was)
		hasDisplay(t, k.name, x)
		c := cloneOf(t, k.name, x)
		if !hasEq(t, k.name, x, c) {
			t.Failf("%s %s is not Eq to its clone", k.name, was)
		}
		hasAsRef(t, k.name, x, func(a, b X) bool { return k.look(&a) == was })
		if s := g.Format("{}", x); s == "" {
			t.Failf("Format of %s is empty", k.name)
		}
		// as an element
		v := g.VecNew[X]()
		v.Push(x)
		v.Push(c)
		if !bool(v.Eq(v.Clone())) {
			t.Failf("a Vec of %s is not Eq to its clone", k.name)
		}
		v.Display()
		o := g.Some(x)
		o.Display()
		if !bool(o.Eq(o.Clone())) {
			t.Failf("Some of %s is not Eq to its clone", k.name)
		}
	}}
}

func complexTraits[X comparable](name string, gen func(t *pbt.T) X) traitCase {
	return traitCase{name, func(t *pbt.T) {
		x := gen(t)
		t.Nontrivial()
		t.Logf("%s: %v", name, x)
		text := hasDisplay(t, name, x)
		if s, ok := any(x).(g.ToString[X]); !ok || s.ToString() != text {
			t.Failf("%s: ToString and Display %q disagree", name, text)
		}
		if cloneOf(t, name, x) != x {
			t.Failf("Clone of %s(%v) differs", name, x)
		}
		hasAsRef(t, name, x, func(a, b X) bool { return a == b })
		arith[X](name, false, false, false)(t, x)
		v := g.VecNew[X]()
		v.Push(x)
		if string(v.Display()) != "Vec["+string(text)+"]" || v.Clone().GetUnchecked(0) != x {
			t.Failf("a Vec of %s shows %q", name, v.Display())
		}
	}}
}

// btreeMapTraits: BTreeMap is the one container that does not offer Clone.
func btreeMapTraits(t *pbt.T) {
	m := g.BTreeMapNew[g.I32, g.String]()
	n := g.BTreeMapNew[g.I32, g.String]()
	for i, k := 0, t.Intn(30); i < k; i++ {
		a, b := g.I32(t.Intn(40)), g.String(fmt.Sprint(t.Intn(9)))
		m.Insert(a, b)
		n.Insert(a, b)
		t.Nontrivial()
	}
	text := hasDisplay(t, "BTreeMap", m)
	if !hasEq(t, "BTreeMap", m, n) {
		t.Failf("two equal BTreeMaps are not Eq: %s", text)
	}
	hasAsRef(t, "BTreeMap", m, func(a, b g.BTreeMap[g.I32, g.String]) bool { return a.Display() == text })
	v := g.VecNew[g.BTreeMap[g.I32, g.String]]()
	v.Push(m)
	w := g.VecNew[g.BTreeMap[g.I32, g.String]]()
	w.Push(n)
	if !bool(v.Eq(w)) || v.Display() != w.Display() {
		t.Failf("Vecs of equal BTreeMaps differ: %s", text)
	}
}

func pairGen(t *pbt.T) g.Pair[g.I32, g.String] {
	return g.Pair[g.I32, g.String]{Key: g.I32(t.Intn(6) - 3), Value: g.String(fmt.Sprint(t.Intn(20)))}
}

// A caller's own types: methods on a pointer, of which nil is the least
// value, and an interface held by values of several types.

type ownPtr struct{ k int }

func (a *ownPtr) key() int {
	if a == nil {
		return -1
	}
	return a.k
}
func (a *ownPtr) Cmp(b *ownPtr) g.Ordering { return Item{K: a.key()}.Cmp(Item{K: b.key()}) }
func (a *ownPtr) Eq(b *ownPtr) g.Bool      { return a.key() == b.key() }
func (a *ownPtr) Clone() *ownPtr           { return a }
func (a *ownPtr) Display() g.String        { return g.String(fmt.Sprint("*", a.key())) }
func (a *ownPtr) Debug() g.String          { return a.Display() }
func (a *ownPtr) ToString() g.String       { return a.Display() }
func (a *ownPtr) AsRef() **ownPtr          { return &a }

var ownPtrs = func() []*ownPtr {
	r := []*ownPtr{nil}
	for k := 0; k < 12; k++ {
		r = append(r, &ownPtr{k})
	}
	return r
}()

type ownFace interface {
	Cmp(ownFace) g.Ordering
	Eq(ownFace) g.Bool
	Clone() ownFace
	Display() g.String
	Debug() g.String
	ToString() g.String
	AsRef() *ownFace
	num() int
}

func (a ownInt) num() int                 { return int(a) }
func (a ownInt) Cmp(b ownFace) g.Ordering { return Item{K: a.num()}.Cmp(Item{K: b.num()}) }
func (a ownInt) Eq(b ownFace) g.Bool      { return a.num() == b.num() }
func (a ownInt) Clone() ownFace           { return a }
func (a ownInt) Display() g.String        { return g.String(fmt.Sprint("i", a.num())) }
func (a ownInt) Debug() g.String          { return a.Display() }
func (a ownInt) ToString() g.String       { return a.Display() }
func (a ownInt) AsRef() *ownFace          { f := ownFace(a); return &f }

func (a ownStr) num() int                 { return a.n }
func (a ownStr) Cmp(b ownFace) g.Ordering { return Item{K: a.num()}.Cmp(Item{K: b.num()}) }
func (a ownStr) Eq(b ownFace) g.Bool      { return a.num() == b.num() }
func (a ownStr) Clone() ownFace           { return a }
func (a ownStr) Display() g.String        { return g.String(a.s) }
func (a ownStr) Debug() g.String          { return a.Display() }
func (a ownStr) ToString() g.String       { return a.Display() }
func (a ownStr) AsRef() *ownFace          { f := ownFace(a); return &f }

type ownInt int

type ownStr struct {
	n int
	s string
}

// genFace yields values of two types, whose numbers differ.
func genFace(t *pbt.T) ownFace {
	k := t.Intn(9)
	if t.Bool() {
		return ownInt(2 * k)
	}
	return ownStr{2*k + 1, fmt.Sprint("s", k)}
}

var traitCases = []traitCase{
	ordCase("a pointer type", func(t *pbt.T) *ownPtr { return ownPtrs[t.Intn(len(ownPtrs))] }, func(a, b *ownPtr) bool { return a.key() < b.key() }, usable[*ownPtr]),
	ordCase("an interface type", genFace, func(a, b ownFace) bool { return a.num() < b.num() }, usable[ownFace]),
	ordCase("ISize", gen64[g.ISize], goLess[g.ISize], nil, arith[g.ISize]("ISize", true, true, true)),
	ordCase("I8", gen64[g.I8], goLess[g.I8], usable[g.I8], arith[g.I8]("I8", true, true, true)),
	ordCase("I16", gen64[g.I16], goLess[g.I16], nil, arith[g.I16]("I16", true, true, true)),
	ordCase("I32", gen64[g.I32], goLess[g.I32], nil, arith[g.I32]("I32", true, true, true)),
	ordCase("I64", gen64[g.I64], goLess[g.I64], nil, arith[g.I64]("I64", true, true, true)),
	ordCase("USize", gen64[g.USize], goLess[g.USize], nil, arith[g.USize]("USize", true, false, true)),
	ordCase("U8", gen64[g.U8], goLess[g.U8], nil, arith[g.U8]("U8", true, false, true)),
	ordCase("U16", gen64[g.U16], goLess[g.U16], nil, arith[g.U16]("U16", true, false, true)),
	ordCase("U32", gen64[g.U32], goLess[g.U32], nil, arith[g.U32]("U32", true, false, true)),
	ordCase("U64", gen64[g.U64], goLess[g.U64], usable[g.U64], arith[g.U64]("U64", true, false, true)),
	ordCase("Byte", gen64[g.Byte], goLess[g.Byte], nil, arith[g.Byte]("Byte", false, false, false)),
	ordCase("Char", gen64[g.Char], goLess[g.Char], usable[g.Char], arith[g.Char]("Char", false, false, false)),
	ordCase("I128", genI128, func(a, b g.I128) bool { return a.Cmp(b) == g.OrderingLess }, usable[g.I128], arith[g.I128]("I128", true, true, true)),
	ordCase("U128", genU128, func(a, b g.U128) bool { return a.Cmp(b) == g.OrderingLess }, nil, arith[g.U128]("U128", true, false, true)),
	ordCase("F32", func(t *pbt.T) g.F32 { return g.F32(noNegZero(t)) }, goLess[g.F32], nil, arith[g.F32]("F32", false, false, false)),
	ordCase("F64", func(t *pbt.T) g.F64 { return g.F64(noNegZero(t)) }, goLess[g.F64], usable[g.F64], arith[g.F64]("F64", false, false, false)),
	ordCase("Bool", func(t *pbt.T) g.Bool { return g.Bool(t.Bool()) }, func(a, b g.Bool) bool { return bool(!a && b) }, usable[g.Bool]),
	ordCase("String", func(t *pbt.T) g.String { return g.String(strings.Repeat("é{}", t.Intn(4)) + fmt.Sprint(t.Intn(5))) }, goLess[g.String], usable[g.String]),
	ordCase("Pair", pairGen, func(a, b g.Pair[g.I32, g.String]) bool {
		return a.Key < b.Key || a.Key == b.Key && a.Value < b.Value
	}, usable[g.Pair[g.I32, g.String]]),
	complexTraits("Complex64", func(t *pbt.T) g.Complex64 {
		return g.Complex64(complex(float32(genFloat(t)), float32(genFloat(t))))
	}),
	complexTraits("Complex128", func(t *pbt.T) g.Complex128 { return g.Complex128(complex(genFloat(t), genFloat(t))) }),
	plainTraits(cVec(cI32)), plainTraits(cDeque(cStr)), plainTraits(cList(cI32)), plainTraits(cHashMap(cI32, cStr)),
	plainTraits(cHashSet(cI32)), plainTraits(cTreeSet(cStr)), plainTraits(cOpt(cI32)), plainTraits(cRes(cStr)),
	plainTraits(cPair(cI32, cStr)), plainTraits(cVec(cVec(cI32))), plainTraits(cOpt(cVec(cStr))), plainTraits(cPair(cOpt(cI32), cVec(cStr))),
	{"BTreeMap", btreeMapTraits},
}

var C43 = &pbt.Prop{
	ID:    "C43",
	Rule:  "for each of 36 types (a pointer type with nil and an interface type of the caller among them), 1..12 generated values (boundary values, duplicates) checked by type assertion for every trait the type documents and then used as elements, keys and values of every collection, Option, Result and Pair that demands the trait; non-trivial = at least one value",
	Quick: 400000, Thorough: 16000000,
	EnumN: len(traitCases) * 20,
	Enum:  func(i int) []uint64 { return []uint64{uint64(i % len(traitCases))} },
	Run: func(t *pbt.T) {
		c := traitCases[t.Intn(len(traitCases))]
		t.Label(c.name)
		t.NoPanic("using "+c.name, func() { c.run(t) })
	},
	Assumptions: []string{"NaN and negative zero are not used as elements (Go equality and identity differ)"},
}

func init() { register(C43) }
