//go:build maps || all

package coll

import (
	"fmt"
	"sort"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// keyPlan draws keys for a history: random, ascending, descending, zigzag or
// around one spot, so that trees are built and taken apart in every order.
type keyPlan struct {
	mode, n, pos, step int
}

func newKeyPlan(t *pbt.T, n int) *keyPlan {
	p := &keyPlan{mode: t.Intn(5), n: n, step: 1}
	switch p.mode {
	case 1:
		p.pos = 0
	case 2:
		p.pos = n - 1
	case 3, 4:
		p.pos = n / 2
	}
	return p
}

func (p *keyPlan) next(t *pbt.T) int {
	switch p.mode {
	case 1:
		k := p.pos
		p.pos = (p.pos + 1) % p.n
		return k
	case 2:
		k := p.pos
		p.pos = (p.pos - 1 + p.n) % p.n
		return k
	case 3:
		k := p.pos
		p.pos = ((p.pos+p.step)%p.n + p.n) % p.n
		p.step = -p.step - p.step/absInt(p.step)
		return k
	case 4:
		k := p.pos + t.Intn(9) - 4
		if t.OneIn(10) {
			p.pos = t.Intn(p.n)
		}
		return ((k % p.n) + p.n) % p.n
	}
	return t.Intn(p.n)
}

func treeBurst(t *pbt.T) int {
	if n, ok := t.DictLen(400); ok {
		return n
	}
	if n, ok := t.Huge(400, 20000); ok {
		return n
	}
	if t.Thorough && t.OneIn(10) {
		return t.Intn(pbt.Pick(t, 600, 3000, 3000, 12000))
	}
	return pbt.Pick(t, 1, 3, 6, 12, 13, 25, 40, 80, 160)
}

type P2[K, V comparable] = g.Pair[K, V]

// pendingIter is an iterator taken before later mutations.
type pendingIter[K, V comparable] struct {
	what  string
	pairs g.Iterator[P2[K, V]]
	keys  g.Iterator[K]
	vals  g.Iterator[V]
	wantP []P2[K, V]
	gotP  []P2[K, V]
	gotK  []K
	gotV  []V
}

func (p *pendingIter[K, V]) advance(n int) bool {
	for i := 0; i < n; i++ {
		switch {
		case p.pairs != nil:
			o := p.pairs.Next()
			if o.IsNone() {
				return true
			}
			p.gotP = append(p.gotP, o.Unwrap())
		case p.keys != nil:
			o := p.keys.Next()
			if o.IsNone() {
				return true
			}
			p.gotK = append(p.gotK, o.Unwrap())
		default:
			o := p.vals.Next()
			if o.IsNone() {
				return true
			}
			p.gotV = append(p.gotV, o.Unwrap())
		}
		if len(p.gotP)+len(p.gotK)+len(p.gotV) > len(p.wantP)+2 {
			return false
		}
	}
	return false
}

func (p *pendingIter[K, V]) check(t *pbt.T, ordered bool) {
	p.advance(len(p.wantP) + 3)
	var wk []K
	var wv []V
	for _, x := range p.wantP {
		wk, wv = append(wk, x.Key), append(wv, x.Value)
	}
	ok := true
	cmpP, cmpK, cmpV := sameBag[P2[K, V]], sameBag[K], sameBag[V]
	if ordered {
		cmpP, cmpK, cmpV = same[P2[K, V]], same[K], same[V]
	}
	switch {
	case p.pairs != nil:
		ok = cmpP(p.gotP, p.wantP)
	case p.keys != nil:
		ok = cmpK(p.gotK, wk)
	default:
		ok = cmpV(p.gotV, wv)
	}
	if !ok {
		t.Failf("%s presented %s%s%s, want (of) %s", p.what, pbt.Show(p.gotP), pbt.Show(p.gotK), pbt.Show(p.gotV), pbt.Show(p.wantP))
	}
}

// ---- C14 ----

var C14 = &pbt.Prop{
	ID:    "C14",
	Rule:  "histories of HashMap operations with I32, String and struct keys over small to large key universes, and with NaN, zeros of both signs and keys of many types, compared after every step with a map; pair/key/value iterators taken midway are drained after later mutations; non-trivial = an overwrite or a removal of a present key, or an iterator outliving a mutation",
	Quick: 200000, Thorough: 8000000,
	Run: func(t *pbt.T) {
		if t.OneIn(8) {
			if t.Bool() {
				runOddMap(t, "odd floats", oddFloats)
			} else {
				runOddMap(t, "of many types", oddAny)
			}
			return
		}
		n := universe(t)
		switch t.Intn(3) {
		case 0:
			runHashMap(t, i32Dom(n))
		case 1:
			runHashMap(t, strDom(n))
		default:
			runHashMap(t, Dom[Item]{Name: "struct", N: n, Mk: func(k int) Item { return Item{k / 2, k % 2} }, Key: func(x Item) int { return x.K*2 + x.Tag }})
		}
	},
	Assumptions: []string{"the map returned by AsMap is not modified"},
}

func runHashMap[K El[K]](t *pbt.T, d Dom[K]) {
	t.Label("keys " + d.Name)
	vd := itemDom(6)
	m := map[K]Item{}
	var h g.HashMap[K, Item]
	if t.Bool() {
		h = g.HashMapNew[K, Item]()
	} else {
		h = g.HashMapWithCapacity[K, Item](g.USize(t.Intn(50)))
	}
	var hist []K // keys that were inserted at some time
	pick := func() K {
		if len(hist) > 0 && t.Intn(3) > 0 {
			return hist[t.Intn(len(hist))]
		}
		k := d.Gen(t)
		hist = append(hist, k)
		return k
	}
	var pend []*pendingIter[K, Item]
	steps := histLen(t)
	for s := 0; s < steps; s++ {
		var what string
		t.NoPanic("operation", func() {
			switch t.Weighted(8, 6, 1, 3, 3, 3) {
			case 0:
				k, v := pick(), vd.Gen(t)
				what = fmt.Sprintf("Insert(%v, %v)", k, v)
				old, had := m[k]
				if had {
					t.Nontrivial()
					t.Label("overwrite")
				}
				wantOpt(t, what, h.Insert(k, v), had, old)
				m[k] = v
			case 1:
				k := pick()
				what = fmt.Sprintf("Remove(%v)", k)
				old, had := m[k]
				if had {
					t.Nontrivial()
					t.Label("removal")
				}
				wantOpt(t, what, h.Remove(k), had, old)
				delete(m, k)
			case 2:
				what = "Clear()"
				h.Clear()
				m = map[K]Item{}
			case 3:
				n := burstTo(t, 140000)
				what = fmt.Sprintf("insert %d", n)
				for i := 0; i < n; i++ {
					k, v := d.Gen(t), vd.Gen(t)
					hist = append(hist, k)
					old, had := m[k]
					if o := h.Insert(k, v); bool(o.IsSome()) != had || had && o.Unwrap() != old {
						wantOpt(t, fmt.Sprintf("Insert(%v, %v)", k, v), o, had, old)
					}
					m[k] = v
				}
			case 4:
				p := &pendingIter[K, Item]{}
				for k, v := range m {
					p.wantP = append(p.wantP, P2[K, Item]{Key: k, Value: v})
				}
				switch t.Intn(3) {
				case 0:
					p.what, p.pairs = "IntoIter", h.IntoIter()
				case 1:
					p.what, p.keys = "Keys", h.Keys()
				default:
					p.what, p.vals = "Values", h.Values()
				}
				what = fmt.Sprintf("take %s at step %d", p.what, s)
				p.advance(t.Intn(4))
				pend = append(pend, p)
			case 5:
				what = "advance iterators"
				for _, p := range pend {
					p.advance(t.Intn(3))
				}
			}
		})
		t.Logf("%s -> len %d", what, len(m))
		if len(pend) > 0 && what[0] != 't' {
			t.Nontrivial()
			t.Label("iterator outlives a mutation")
		}
		if h.Len() != g.USize(len(m)) || bool(h.IsEmpty()) != (len(m) == 0) {
			t.Failf("after %s: Len %d IsEmpty %v, want %d", what, h.Len(), h.IsEmpty(), len(m))
		}
		for i := 0; i < 3; i++ {
			k := pick()
			v, had := m[k]
			wantOpt(t, fmt.Sprintf("after %s: Get(%v)", what, k), h.Get(k), had, v)
			if bool(h.ContainsKey(k)) != had {
				t.Failf("after %s: ContainsKey(%v) = %v", what, k, !had)
			}
		}
		if len(m) <= 40 || s == steps-1 {
			am := h.AsMap()
			if len(am) != len(m) {
				t.Failf("after %s: AsMap has %d entries, want %d", what, len(am), len(m))
			}
			for k, v := range m {
				wantOpt(t, fmt.Sprintf("after %s: Get(%v)", what, k), h.Get(k), true, v)
				if av, ok := am[k]; !ok || av != v {
					t.Failf("after %s: AsMap[%v] = %v,%v want %v", what, k, av, ok, v)
				}
			}
		}
	}
	for _, f := range []string{"IntoIter", "Keys", "Values"} {
		p := &pendingIter[K, Item]{what: "final " + f}
		for k, v := range m {
			p.wantP = append(p.wantP, P2[K, Item]{Key: k, Value: v})
		}
		switch f {
		case "IntoIter":
			p.pairs = h.IntoIter()
		case "Keys":
			p.keys = h.Keys()
		default:
			p.vals = h.Values()
		}
		pend = append(pend, p)
	}
	for _, p := range pend {
		p.check(t, false)
	}
}

// ---- sorted model ----

type entry[K any] struct {
	k K
	v Item
}

type model[K comparable] struct {
	d Dom[K]
	e []entry[K]
}

func (m *model[K]) find(k K) (int, bool) {
	i := sort.Search(len(m.e), func(i int) bool { return m.d.cmp(m.e[i].k, k) >= 0 })
	return i, i < len(m.e) && m.d.cmp(m.e[i].k, k) == 0
}

func (m *model[K]) insert(k K, v Item) (Item, bool) {
	i, ok := m.find(k)
	if ok {
		old := m.e[i].v
		m.e[i].v = v
		return old, true
	}
	m.e = append(m.e, entry[K]{})
	copy(m.e[i+1:], m.e[i:])
	m.e[i] = entry[K]{k, v}
	return Item{}, false
}

func (m *model[K]) remove(k K) (Item, bool) {
	i, ok := m.find(k)
	if !ok {
		return Item{}, false
	}
	old := m.e[i].v
	m.e = append(m.e[:i], m.e[i+1:]...)
	return old, true
}

func (m *model[K]) keys() []K {
	r := make([]K, len(m.e))
	for i, e := range m.e {
		r[i] = e.k
	}
	return r
}

func (m *model[K]) pairs() []P2[K, Item] {
	r := make([]P2[K, Item], len(m.e))
	for i, e := range m.e {
		r[i] = P2[K, Item]{Key: e.k, Value: e.v}
	}
	return r
}

// ---- C15 ----

var treeRule = "histories of %s operations mixing single steps with bursts of 1..160 (thorough: up to 3000) insertions or removals in random, ascending, descending, zigzag or local key order, so that the tree gains and loses levels; compared with a sorted model after every step; non-trivial = a removal of a present key from a tree of 12 or more keys, or 60 or more keys"

var C15 = &pbt.Prop{
	ID:    "C15",
	Rule:  fmt.Sprintf(treeRule, "BTreeMap"),
	Quick: 30000, Thorough: 1200000,
	Run: func(t *pbt.T) {
		n := pbt.Pick(t, 4, 20, 100, 1000, 100000)
		switch t.Intn(3) {
		case 0:
			runBTreeMap(t, itemDom(n))
		case 1:
			runBTreeMap(t, i32Dom(n))
		default:
			runBTreeMap(t, strDom(n))
		}
	},
	Assumptions: []string{"Cmp of the keys is a total order (checked for the library's own types by C08)", "the map is not mutated while an iterator is being drained"},
}

func runBTreeMap[K El[K]](t *pbt.T, d Dom[K]) {
	t.Label("keys " + d.Name)
	vd := itemDom(6)
	m := &model[K]{d: d}
	b := g.BTreeMapNew[K, Item]()
	pick := func(plan *keyPlan) K {
		if len(m.e) > 0 && t.Intn(3) > 0 {
			return d.Mk(d.Key(m.e[t.Intn(len(m.e))].k))
		}
		return d.Mk(plan.next(t))
	}
	steps := t.Range(1, 14)
	if t.OneIn(3) {
		steps = t.Range(1, 60)
	}
	max := 0
	ins := func(k K) {
		v := vd.Gen(t)
		old, had := m.insert(k, v)
		wantOpt(t, fmt.Sprintf("Insert(%v, %v) with %d keys", k, v, len(m.e)), b.Insert(k, v), had, old)
	}
	rem := func(k K) {
		if len(m.e) >= 12 {
			if _, ok := m.find(k); ok {
				t.Nontrivial()
				t.Label("removal from 12 or more")
			}
		}
		old, had := m.remove(k)
		wantOpt(t, fmt.Sprintf("Remove(%v) leaving %d keys", k, len(m.e)), b.Remove(k), had, old)
	}
	size := func(what string) {
		if b.Len() != g.USize(len(m.e)) || bool(b.IsEmpty()) != (len(m.e) == 0) {
			t.Failf("after %s: Len %d IsEmpty %v, want %d", what, b.Len(), b.IsEmpty(), len(m.e))
		}
	}
	look := func(what string, k K) {
		i, had := m.find(k)
		var v Item
		if had {
			v = m.e[i].v
		}
		wantOpt(t, fmt.Sprintf("after %s: Get(%v)", what, k), b.Get(k), had, v)
		if bool(b.ContainsKey(k)) != had {
			t.Failf("after %s: ContainsKey(%v) = %v", what, k, !had)
		}
	}
	for s := 0; s < steps; s++ {
		var what string
		plan := newKeyPlan(t, d.N)
		t.NoPanic("operation", func() {
			switch t.Weighted(5, 5, 5, 4, 1) {
			case 0:
				k := pick(plan)
				what = fmt.Sprintf("Insert(%v)", k)
				ins(k)
			case 1:
				k := pick(plan)
				what = fmt.Sprintf("Remove(%v)", k)
				rem(k)
			case 2:
				n := treeBurst(t)
				what = fmt.Sprintf("insert %d in order %d", n, plan.mode)
				t.Logf("%s", what)
				for i := 0; i < n; i++ {
					ins(d.Mk(plan.next(t)))
					size(what)
				}
			case 3:
				n := treeBurst(t)
				mode := t.Intn(4)
				what = fmt.Sprintf("remove %d in order %d", n, mode)
				t.Logf("%s", what)
				for i := 0; i < n && len(m.e) > 0; i++ {
					var j int
					switch mode {
					case 0:
						j = 0
					case 1:
						j = len(m.e) - 1
					case 2:
						j = len(m.e) / 2
					default:
						j = t.Intn(len(m.e))
					}
					k := d.Mk(d.Key(m.e[j].k))
					rem(k)
					size(what)
					look(what, k)
				}
			case 4:
				if t.OneIn(2) {
					what = "Clear()"
					b.Clear()
					m.e = nil
				} else {
					what = "look"
				}
			}
			t.Logf("%s -> len %d", what, len(m.e))
			size(what)
			if len(m.e) > max {
				max = len(m.e)
			}
			for i := 0; i < 3; i++ {
				look(what, pick(plan))
			}
			if len(m.e) <= 150 || s == steps-1 {
				for _, e := range m.e {
					wantOpt(t, fmt.Sprintf("after %s: Get(%v)", what, e.k), b.Get(e.k), true, e.v)
				}
				p := &pendingIter[K, Item]{what: "after " + what + ": IntoIter", pairs: b.IntoIter(), wantP: m.pairs()}
				p.check(t, true)
				p = &pendingIter[K, Item]{what: "after " + what + ": Keys", keys: b.Keys(), wantP: m.pairs()}
				p.check(t, true)
				p = &pendingIter[K, Item]{what: "after " + what + ": Values", vals: b.Values(), wantP: m.pairs()}
				p.check(t, true)
			}
		})
	}
	if max >= 60 {
		t.Nontrivial()
		t.Label("60 or more keys")
	}
	t.LabelIf(max >= 150, "150 or more keys")
}

// ---- C17 ----

var C17 = &pbt.Prop{
	ID:    "C17",
	Rule:  fmt.Sprintf(treeRule, "BTreeSet"),
	Quick: 60000, Thorough: 2400000,
	Run: func(t *pbt.T) {
		n := pbt.Pick(t, 4, 20, 100, 1000, 100000)
		switch t.Intn(3) {
		case 0:
			runBTreeSet(t, itemDom(n))
		case 1:
			runBTreeSet(t, i32Dom(n))
		default:
			runBTreeSet(t, strDom(n))
		}
	},
	Assumptions: C15.Assumptions,
}

func runBTreeSet[K El[K]](t *pbt.T, d Dom[K]) {
	t.Label("keys " + d.Name)
	m := &model[K]{d: d}
	b := g.BTreeSetNew[K]()
	max := 0
	ins := func(k K) {
		_, had := m.find(k)
		if !had {
			m.insert(k, Item{})
		}
		if got := bool(b.Insert(k)); got != !had {
			t.Failf("Insert(%v) with %d keys = %v", k, len(m.e), got)
		}
	}
	rem := func(k K) {
		_, had := m.find(k)
		if had && len(m.e) >= 12 {
			t.Nontrivial()
			t.Label("removal from 12 or more")
		}
		m.remove(k)
		if got := bool(b.Remove(k)); got != had {
			t.Failf("Remove(%v) leaving %d keys = %v", k, len(m.e), got)
		}
	}
	size := func(what string) {
		if b.Len() != g.USize(len(m.e)) || bool(b.IsEmpty()) != (len(m.e) == 0) {
			t.Failf("after %s: Len %d IsEmpty %v, want %d", what, b.Len(), b.IsEmpty(), len(m.e))
		}
	}
	look := func(what string, k K) {
		_, had := m.find(k)
		if bool(b.Contains(k)) != had {
			t.Failf("after %s: Contains(%v) = %v", what, k, !had)
		}
	}
	steps := t.Range(1, 14)
	if t.OneIn(3) {
		steps = t.Range(1, 60)
	}
	for s := 0; s < steps; s++ {
		var what string
		plan := newKeyPlan(t, d.N)
		pick := func() K {
			if len(m.e) > 0 && t.Intn(3) > 0 {
				return d.Mk(d.Key(m.e[t.Intn(len(m.e))].k))
			}
			return d.Mk(plan.next(t))
		}
		t.NoPanic("operation", func() {
			switch t.Weighted(5, 5, 5, 4, 1) {
			case 0:
				k := pick()
				what = fmt.Sprintf("Insert(%v)", k)
				ins(k)
			case 1:
				k := pick()
				what = fmt.Sprintf("Remove(%v)", k)
				rem(k)
			case 2:
				n := treeBurst(t)
				what = fmt.Sprintf("insert %d in order %d", n, plan.mode)
				for i := 0; i < n; i++ {
					ins(d.Mk(plan.next(t)))
					size(what)
				}
			case 3:
				n := treeBurst(t)
				mode := t.Intn(4)
				what = fmt.Sprintf("remove %d in order %d", n, mode)
				for i := 0; i < n && len(m.e) > 0; i++ {
					j := t.Intn(len(m.e))
					switch mode {
					case 0:
						j = 0
					case 1:
						j = len(m.e) - 1
					case 2:
						j = len(m.e) / 2
					}
					k := d.Mk(d.Key(m.e[j].k))
					rem(k)
					size(what)
					look(what, k)
				}
			case 4:
				if t.OneIn(2) {
					what = "Clear()"
					b.Clear()
					m.e = nil
				} else {
					what = "look"
				}
			}
			t.Logf("%s -> len %d", what, len(m.e))
			size(what)
			if len(m.e) > max {
				max = len(m.e)
			}
			for i := 0; i < 3; i++ {
				look(what, pick())
			}
			if len(m.e) <= 150 || s == steps-1 {
				for _, e := range m.e {
					look(what, e.k)
				}
				got, done := drain(b.IntoIter(), len(m.e)+2)
				if !done || !same(got, m.keys()) {
					t.Failf("after %s: IntoIter gives %s, want %s", what, pbt.Show(got), pbt.Show(m.keys()))
				}
			}
		})
	}
	if max >= 60 {
		t.Nontrivial()
		t.Label("60 or more keys")
	}
	t.LabelIf(max >= 150, "150 or more keys")
}

// ---- C16 ----

var C16 = &pbt.Prop{
	ID:    "C16",
	Rule:  "histories of HashSet operations with I32, String and struct elements from every constructor, and with NaN, zeros of both signs and elements of many types, compared after every step with a set; non-trivial = an insertion of a present element or a removal of one",
	Quick: 200000, Thorough: 8000000,
	Run: func(t *pbt.T) {
		if t.OneIn(8) {
			if t.Bool() {
				runOddSet(t, "odd floats", oddFloats)
			} else {
				runOddSet(t, "of many types", oddAny)
			}
			return
		}
		n := universe(t)
		switch t.Intn(3) {
		case 0:
			runHashSet(t, i32Dom(n))
		case 1:
			runHashSet(t, strDom(n))
		default:
			runHashSet(t, Dom[Item]{Name: "struct", N: n, Mk: func(k int) Item { return Item{k / 2, k % 2} }, Key: func(x Item) int { return x.K*2 + x.Tag }})
		}
	},
}

func runHashSet[K El[K]](t *pbt.T, d Dom[K]) {
	t.Label("elements " + d.Name)
	m := map[K]bool{}
	var h g.HashSet[K]
	switch t.Intn(3) {
	case 0:
		h = g.HashSetNew[K]()
	case 1:
		h = g.HashSetWithCapacity[K](g.USize(t.Intn(40)))
	default:
		s := d.Slice(t, t.Intn(20))
		in := clone(s)
		h = g.HashSetFromSlice(s)
		t.Logf("HashSetFromSlice(%s)", pbt.Show(in))
		if !same(s, in) {
			t.Failf("HashSetFromSlice changed its argument to %s", pbt.Show(s))
		}
		for i := range s { // later changes to the slice must not show
			s[i] = d.Gen(t)
		}
		for _, x := range in {
			m[x] = true
		}
	}
	all := func() []K {
		ks := make([]K, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		return ks
	}
	var hist []K
	pick := func() K {
		if len(hist) > 0 && t.Intn(3) > 0 {
			return hist[t.Intn(len(hist))]
		}
		k := d.Gen(t)
		hist = append(hist, k)
		return k
	}
	steps := histLen(t)
	for s := 0; s < steps; s++ {
		var what string
		t.NoPanic("operation", func() {
			switch t.Weighted(6, 6, 1, 2) {
			case 0:
				k := pick()
				what = fmt.Sprintf("Insert(%v)", k)
				if m[k] {
					t.Nontrivial()
					t.Label("insertion of a present element")
				}
				if got := bool(h.Insert(k)); got == m[k] {
					t.Failf("%s = %v", what, got)
				}
				m[k] = true
			case 1:
				k := pick()
				what = fmt.Sprintf("Remove(%v)", k)
				if m[k] {
					t.Nontrivial()
					t.Label("removal of a present element")
				}
				if got := bool(h.Remove(k)); got != m[k] {
					t.Failf("%s = %v", what, got)
				}
				delete(m, k)
			case 2:
				what = "Clear()"
				h.Clear()
				m = map[K]bool{}
			case 3:
				n := burstTo(t, 140000)
				what = fmt.Sprintf("insert %d", n)
				for i := 0; i < n; i++ {
					k := d.Gen(t)
					hist = append(hist, k)
					if got := bool(h.Insert(k)); got == m[k] {
						t.Failf("Insert(%v) = %v", k, got)
					}
					m[k] = true
				}
			}
			t.Logf("%s -> len %d", what, len(m))
			if h.Len() != g.USize(len(m)) || bool(h.IsEmpty()) != (len(m) == 0) {
				t.Failf("after %s: Len %d IsEmpty %v, want %d", what, h.Len(), h.IsEmpty(), len(m))
			}
			for i := 0; i < 3; i++ {
				k := pick()
				if bool(h.Contains(k)) != m[k] {
					t.Failf("after %s: Contains(%v) = %v", what, k, !m[k])
				}
				wantOpt(t, fmt.Sprintf("after %s: Get(%v)", what, k), h.Get(k), m[k], k)
			}
			if len(m) <= 60 || s == steps-1 {
				want := all()
				if got := h.AsSlice(); !sameBag(got, want) {
					t.Failf("after %s: AsSlice = %s, want the elements of %s", what, pbt.Show(got), pbt.Show(want))
				}
				got, done := drain(h.IntoIter(), len(want)+2)
				if !done || !sameBag(got, want) {
					t.Failf("after %s: IntoIter gives %s, want the elements of %s", what, pbt.Show(got), pbt.Show(want))
				}
				for _, k := range want {
					if !bool(h.Contains(k)) {
						t.Failf("after %s: Contains(%v) = false", what, k)
					}
				}
			}
		})
	}
}

// ---- C18 ----

var C18 = &pbt.Prop{
	ID:    "C18",
	Rule:  "pairs of HashSets and BTreeSets built by histories (with removals) from related contents: equal, nested, disjoint, overlapping, interleaved in runs, adjoining, with one common element, empty, up to 160 elements (thorough 2000); every set operation against the mathematical one, on two sets, a set with itself and results of earlier operations, then operands and results are mutated to show independence; non-trivial = both sets non-empty",
	Quick: 200000, Thorough: 8000000,
	Run: func(t *pbt.T) {
		n := pbt.Pick(t, 5, 20, 200, 2000)
		switch t.Intn(3) {
		case 0:
			runAlgebra(t, i32Dom(n))
		case 1:
			runAlgebra(t, strDom(n))
		default:
			tags := Dom[Item]{Name: "struct", N: n, Mk: func(k int) Item { return Item{k, 0} }, Key: func(x Item) int { return x.K }}
			runAlgebra(t, tags)
		}
	},
}

type setOps[S any, K any] struct {
	name                   string
	mk                     func() S
	insert, remove         func(*S, K) g.Bool
	has                    func(*S, K) g.Bool
	list                   func(*S) []K
	length                 func(*S) int
	union, inter, symm     func(a, b *S) S
	subset, superset, disj func(a, b *S) g.Bool
}

func setContents(t *pbt.T, n int) (a, b map[int]bool) {
	max := 30
	if t.OneIn(4) {
		max = 160
		if t.Thorough && t.OneIn(5) {
			max = 2000
		}
	}
	huge, _ := t.Huge(200, 20000)
	draw := func() map[int]bool {
		m := map[int]bool{}
		k, ok := t.DictLen(max)
		if !ok {
			k, ok = huge, huge > 0
		}
		if !ok {
			k = t.Intn(max + 1)
		}
		for i := 0; i < k; i++ {
			m[t.Intn(n)] = true
		}
		return m
	}
	a = draw()
	b = map[int]bool{}
	keys := func(m map[int]bool) []int {
		r := []int{}
		for k := range m {
			r = append(r, k)
		}
		sort.Ints(r)
		return r
	}
	mode := t.Intn(9)
	switch mode {
	case 6:
		t.Label("ranges that meet")
		c := t.Intn(n)
		a = map[int]bool{}
		for k := range draw() {
			if k <= c {
				a[k] = true
			}
		}
		for k := range draw() {
			if k >= c {
				b[k] = true
			}
		}
		delete(a, c)
		delete(b, c)
		if x := t.Intn(4); x > 0 { // the meeting point is in one, the other or both
			a[c], b[c] = x != 1, x != 2
			if x == 1 {
				delete(a, c)
			} else if x == 2 {
				delete(b, c)
			}
		}
		if t.Bool() {
			a, b = b, a
		}
	case 7:
		t.Label("runs")
		a = map[int]bool{}
		for k, left := 0, 2*max; k < n && left > 0; {
			w := t.Intn(4)
			for l := 1 + t.Intn(1+max/8); l > 0 && k < n; l-- {
				if w == 1 || w == 3 {
					a[k] = true
				}
				if w == 2 || w == 3 {
					b[k] = true
				}
				k++
				left--
			}
		}
	case 8:
		t.Label("one common element")
		for k := range draw() {
			if !a[k] {
				b[k] = true
			}
		}
		if ka, kb := keys(a), keys(b); len(ka) > 0 && len(kb) > 0 {
			switch t.Intn(6) {
			case 0:
				b[ka[0]] = true
			case 1:
				b[ka[len(ka)-1]] = true
			case 2:
				a[kb[0]] = true
			case 3:
				a[kb[len(kb)-1]] = true
			case 4:
				a[kb[t.Intn(len(kb))]] = true
			default:
				b[ka[t.Intn(len(ka))]] = true
			}
		}
	case 0:
		t.Label("independent")
		b = draw()
	case 1:
		t.Label("equal")
		for k := range a {
			b[k] = true
		}
	case 2:
		t.Label("b inside a")
		for _, k := range keys(a) {
			if t.Bool() {
				b[k] = true
			}
		}
	case 3:
		t.Label("a inside b")
		for k := range a {
			b[k] = true
		}
		for i, k := 0, t.Range(1, 10); i < k; i++ {
			b[t.Intn(n)] = true
		}
	case 4:
		t.Label("disjoint")
		for k := range draw() {
			if !a[k] {
				b[k] = true
			}
		}
	default:
		t.Label("equal but for one element")
		for k := range a {
			b[k] = true
		}
		if ks := keys(a); len(ks) > 0 {
			delete(b, ks[t.Intn(len(ks))])
		}
		b[t.Intn(n)] = true
	}
	if t.OneIn(10) {
		a = map[int]bool{}
	}
	if t.OneIn(10) {
		b = map[int]bool{}
	}
	return
}

func runAlgebra[K El[K]](t *pbt.T, d Dom[K]) {
	t.Label("elements " + d.Name)
	a, b := setContents(t, d.N)
	if len(a) > 0 && len(b) > 0 {
		t.Nontrivial()
	}
	t.Logf("a=%v", keysOf(a))
	t.Logf("b=%v", keysOf(b))
	if t.Bool() {
		t.Label("HashSet")
		algebra(t, d, a, b, true, setOps[g.HashSet[K], K]{
			name: "HashSet", mk: g.HashSetNew[K],
			insert: (*g.HashSet[K]).Insert, remove: (*g.HashSet[K]).Remove,
			has:    func(s *g.HashSet[K], k K) g.Bool { return s.Contains(k) },
			list:   func(s *g.HashSet[K]) []K { return s.AsSlice() },
			length: func(s *g.HashSet[K]) int { return int(s.Len()) },
			union:  func(a, b *g.HashSet[K]) g.HashSet[K] { return a.Union(*b) },
			inter:  func(a, b *g.HashSet[K]) g.HashSet[K] { return a.Intersection(*b) },
			symm:   func(a, b *g.HashSet[K]) g.HashSet[K] { return a.SymmetricDifference(*b) },
			subset: func(a, b *g.HashSet[K]) g.Bool { return a.IsSubset(*b) }, superset: func(a, b *g.HashSet[K]) g.Bool { return a.IsSuperset(*b) },
			disj: func(a, b *g.HashSet[K]) g.Bool { return a.IsDisjoint(*b) },
		})
		return
	}
	t.Label("BTreeSet")
	algebra(t, d, a, b, false, setOps[g.BTreeSet[K], K]{
		name: "BTreeSet", mk: g.BTreeSetNew[K],
		insert: (*g.BTreeSet[K]).Insert, remove: (*g.BTreeSet[K]).Remove,
		has: func(s *g.BTreeSet[K], k K) g.Bool { return s.Contains(k) },
		list: func(s *g.BTreeSet[K]) []K {
			r, done := drain(s.IntoIter(), 500000)
			if !done {
				t.Failf("iteration of a BTreeSet does not end")
			}
			return r
		},
		length: func(s *g.BTreeSet[K]) int { return int(s.Len()) },
		union:  func(a, b *g.BTreeSet[K]) g.BTreeSet[K] { return a.Union(*b) },
		inter:  func(a, b *g.BTreeSet[K]) g.BTreeSet[K] { return a.Intersection(*b) },
		symm:   func(a, b *g.BTreeSet[K]) g.BTreeSet[K] { return a.SymmetricDifference(*b) },
		subset: func(a, b *g.BTreeSet[K]) g.Bool { return a.IsSubset(*b) }, superset: func(a, b *g.BTreeSet[K]) g.Bool { return a.IsSuperset(*b) },
		disj: func(a, b *g.BTreeSet[K]) g.Bool { return a.IsDisjoint(*b) },
	})
}

func keysOf(m map[int]bool) []int {
	r := []int{}
	for k, ok := range m {
		if ok {
			r = append(r, k)
		}
	}
	sort.Ints(r)
	return r
}

func algebra[S any, K El[K]](t *pbt.T, d Dom[K], a, b map[int]bool, unordered bool, o setOps[S, K]) {
	var sa, sb S
	build := func(m map[int]bool) S {
		s := o.mk()
		ks := keysOf(m)
		order := t.Intn(3)
		for i := len(ks) - 1; order == 2 && i > 0; i-- {
			j := t.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
		if order == 1 {
			ks = rev(ks)
		}
		var extra []int
		for i, n := 0, t.Intn(12); i < n; i++ {
			k := t.Intn(d.N)
			if !m[k] {
				extra = append(extra, k)
				o.insert(&s, d.Mk(k))
			}
		}
		for _, k := range ks {
			o.insert(&s, d.Mk(k))
		}
		for _, k := range extra {
			o.remove(&s, d.Mk(k))
		}
		return s
	}
	check := func(what string, s *S, m map[int]bool) {
		want := []K{}
		for _, k := range keysOf(m) {
			want = append(want, d.Mk(k))
		}
		got := o.list(s)
		if unordered && !sameBag(got, want) || !unordered && !same(got, want) {
			t.Failf("%s %s = %s, want %s", o.name, what, pbt.Show(got), pbt.Show(want))
		}
		if o.length(s) != len(want) {
			t.Failf("%s %s: Len %d, want %d", o.name, what, o.length(s), len(want))
		}
		for i := 0; i < 4; i++ {
			k := t.Intn(d.N)
			if bool(o.has(s, d.Mk(k))) != m[k] {
				t.Failf("%s %s: Contains(%v) = %v", o.name, what, d.Mk(k), !m[k])
			}
		}
	}
	t.NoPanic("set operation", func() {
		sa, sb = build(a), build(b)
		// operands and results so far; each may become an operand again
		sets := []*S{&sa, &sb}
		models := []map[int]bool{a, b}
		names := []string{"a", "b"}
		check("a", &sa, a)
		check("b", &sb, b)
		round := func(i, j int) {
			x, y, mx, my := sets[i], sets[j], models[i], models[j]
			nx, ny := names[i], names[j]
			wu, wi, ws := map[int]bool{}, map[int]bool{}, map[int]bool{}
			for k := range mx {
				wu[k] = true
				if my[k] {
					wi[k] = true
				} else {
					ws[k] = true
				}
			}
			for k := range my {
				wu[k] = true
				if !mx[k] {
					ws[k] = true
				}
			}
			u, in, sy := o.union(x, y), o.inter(x, y), o.symm(x, y)
			check(nx+".Union("+ny+")", &u, wu)
			check(nx+".Intersection("+ny+")", &in, wi)
			check(nx+".SymmetricDifference("+ny+")", &sy, ws)
			if got := bool(o.subset(x, y)); got != (len(wi) == len(mx)) {
				t.Failf("%s %s.IsSubset(%s) = %v", o.name, nx, ny, got)
			}
			if got := bool(o.superset(x, y)); got != (len(wi) == len(my)) {
				t.Failf("%s %s.IsSuperset(%s) = %v", o.name, nx, ny, got)
			}
			if got := bool(o.disj(x, y)); got != (len(wi) == 0) {
				t.Failf("%s %s.IsDisjoint(%s) = %v", o.name, nx, ny, got)
			}
			check(nx+" after the operations with "+ny, x, mx)
			check(ny+" after the operations with "+nx, y, my)
			sets = append(sets, &u, &in, &sy)
			models = append(models, wu, wi, ws)
			names = append(names, "("+nx+" | "+ny+")", "("+nx+" & "+ny+")", "("+nx+" ^ "+ny+")")
		}
		if t.OneIn(4) {
			t.Label("a set with itself")
			round(0, 0)
		} else {
			round(0, 1)
		}
		for t.OneIn(4) && len(sets) < 12 {
			t.Label("results as operands")
			i := t.Intn(len(sets))
			j := t.Intn(len(sets))
			if t.OneIn(4) {
				j = i
			}
			round(i, j)
		}
		// independence: mutate one side, look at all others
		mut := func(s *S, m map[int]bool) map[int]bool {
			r := map[int]bool{}
			for k, v := range m {
				r[k] = v
			}
			for i := 0; i < 5; i++ {
				k := t.Intn(d.N)
				if t.Bool() {
					if ks := keysOf(r); len(ks) > 0 && t.Bool() {
						k = ks[t.Intn(len(ks))]
					}
					o.remove(s, d.Mk(k))
					delete(r, k)
				} else {
					o.insert(s, d.Mk(k))
					r[k] = true
				}
			}
			return r
		}
		for r := 0; r < 3; r++ {
			i := t.Intn(len(sets))
			models[i] = mut(sets[i], models[i])
			for j := range sets {
				check(fmt.Sprintf("%s after changing %s", names[j], names[i]), sets[j], models[j])
			}
		}
	})
}

func init() { register(C14, C15, C17, C16, C18) }
