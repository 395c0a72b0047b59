package misc

import (
	"fmt"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

func runIf[T any](t *pbt.T, p payload[T]) {
	n := t.Intn(8) // ElseIf branches
	if t.OneIn(10) {
		n = t.Intn(60)
	}
	conds := make([]bool, n+1)
	vals := make([]T, n+2)
	count := make([]int, n+2)
	first := n + 1
	for i := range conds {
		conds[i] = t.OneIn(3)
		if conds[i] && first == n+1 {
			first = i
		}
	}
	same := t.OneIn(6)
	for i := range vals {
		vals[i] = p.gen(t)
		if same {
			vals[i] = vals[0]
		}
	}
	var order []int
	// a branch may run a chain of its own, or fail the first time
	inner, fails := t.OneIn(4), -1
	if t.OneIn(5) {
		fails = first
	}
	br := func(i int) func() T {
		return func() T {
			count[i]++
			order = append(order, i)
			if i == fails {
				fails = -1
				panic("branch")
			}
			if inner {
				k := 0
				in := g.If(g.Bool(i%2 == 0), func() T { k++; return vals[0] }).ElseIf(true, func() T { k += 10; return vals[i] }).Else(func() T { k += 100; return vals[0] })
				if w := []int{1, 10}[i%2]; k != w || i%2 == 1 && !p.eq(in, vals[i]) {
					t.Failf("a chain of three branches inside branch %d: calls %d (want %d), value %s", i, k, w, p.show(in))
				}
			}
			return vals[i]
		}
	}
	t.Logf("If/ElseIf conditions %v, Else; payload %s; first true: %d", conds, p.name, first)
	nTrue := 0
	for _, c := range conds {
		nTrue += b2i(c)
	}
	what := fmt.Sprintf("If chain with conditions %v", conds)
	check := func(got T) {
		for i := range count {
			w := b2i(i == first)
			t.Check(count[i] == w, "%s: branch %d was evaluated %d times, want %d (0 is If, the last is Else)", what, i, count[i], w)
		}
		t.Check(p.eq(got, vals[first]), "%s = %s, want branch %d's %s", what, p.show(got), first, p.show(vals[first]))
	}
	chain := func() T {
		c := g.If(g.Bool(conds[0]), br(0))
		for i := 1; i <= n; i++ {
			c = c.ElseIf(g.Bool(conds[i]), br(i))
		}
		return c.Else(br(n + 1))
	}
	if fails >= 0 {
		panicked, _ := pbt.Catch(func() { chain() })
		t.Check(panicked, "%s: the panic of branch %d is lost", what, first)
		for i := range count {
			t.Check(count[i] == b2i(i == first), "%s, whose branch %d panics: branch %d was evaluated %d times", what, first, i, count[i])
			count[i] = 0
		}
		t.Label("the branch panics first")
	}
	t.NoPanic(what, func() { check(chain()) })
	if t.OneIn(4) {
		// one beginning, two ends: two chains
		at := t.Intn(n + 1)
		var got [2]T
		a, b, e := p.gen(t), p.gen(t), p.gen(t)
		c1, c2 := t.Bool(), t.Bool()
		clear(count)
		t.NoPanic(what, func() {
			c := g.If(g.Bool(conds[0]), br(0))
			for i := 1; i <= at; i++ {
				c = c.ElseIf(g.Bool(conds[i]), br(i))
			}
			d := c.ElseIf(g.Bool(c1), func() T { return a })
			f := c.ElseIf(g.Bool(c2), func() T { return b })
			if t.Bool() {
				got[0] = d.Else(func() T { return e })
				got[1] = f.Else(func() T { return e })
			} else {
				got[1] = f.Else(func() T { return e })
				got[0] = d.Else(func() T { return e })
			}
		})
		for i := range count {
			w := b2i(i == first && first <= at)
			t.Check(count[i] == w, "%s cut after branch %d and ended in two ways: branch %d was evaluated %d times, want %d", what, at, i, count[i], w)
		}
		for k, w := range []T{a, b} {
			if first <= at {
				w = vals[first]
			} else if !([]bool{c1, c2})[k] {
				w = e
			}
			t.Check(p.eq(got[k], w), "%s cut after branch %d and ended in two ways, with ElseIf(%v) and ElseIf(%v): end %d gives %s, want %s", what, at, c1, c2, k, p.show(got[k]), p.show(w))
		}
		t.Label("one beginning with two ends")
	}
	t.Label("payload " + p.name)
	t.LabelIf(nTrue > 1, "several conditions hold")
	t.LabelIf(nTrue == 0, "Else taken")
	t.LabelIf(nTrue > 0 && first > 0, "ElseIf taken")
	if n > 0 {
		t.Nontrivial()
	}
}

var C39 = &pbt.Prop{ID: "C39",
	Rule: "A chain of If, 0-7 (at times 59) ElseIf and Else with random conditions and values of one payload type (I32, String, *int and any with nil, Vec), an evaluation counter per branch, chains inside branches, branches that panic, a beginning shared by two chains; all truth assignments of up to 8 conditions are reachable. Non-trivial: at least one ElseIf.",
	Run: func(t *pbt.T) {
		switch t.Intn(5) {
		case 0:
			runIf(t, i32P())
		case 1:
			runIf(t, strP())
		case 2:
			runIf(t, ptrP())
		case 3:
			runIf(t, anyP())
		default:
			runIf(t, vecP())
		}
	}, Quick: 4000000, Thorough: 160000000}
