//go:build clones || all

package coll

import (
	"strings"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

type cloneCase struct {
	name string
	run  func(t *pbt.T)
}

func cc[X any](k ckind[X]) cloneCase {
	return cloneCase{k.name, func(t *pbt.T) { runClone(t, k) }}
}

// cp is a primitive: Clone is the same value.
func cp[X comparable](name string, gen func(t *pbt.T) X) cloneCase {
	return cloneCase{name, func(t *pbt.T) {
		x := gen(t)
		t.Nontrivial()
		t.Logf("%s(%v)", name, x)
		if c := cloneOf(t, name, x); c != x && x == x {
			t.Failf("Clone of %s(%v) = %v", name, x, c)
		}
	}}
}

var cloneKinds = []cloneCase{
	cp("ISize", gen64[g.ISize]), cp("I8", gen64[g.I8]), cp("I16", gen64[g.I16]), cp("I32", gen64[g.I32]), cp("I64", gen64[g.I64]),
	cp("USize", gen64[g.USize]), cp("U8", gen64[g.U8]), cp("U16", gen64[g.U16]), cp("U32", gen64[g.U32]), cp("U64", gen64[g.U64]),
	cp("Byte", gen64[g.Byte]), cp("Char", gen64[g.Char]), cp("I128", genI128), cp("U128", genU128),
	cp("Bool", func(t *pbt.T) g.Bool { return g.Bool(t.Bool()) }),
	cp("F32", func(t *pbt.T) g.F32 { return g.F32(genFloat(t)) }), cp("F64", func(t *pbt.T) g.F64 { return g.F64(genFloat(t)) }),
	cp("Complex64", func(t *pbt.T) g.Complex64 { return g.Complex64(complex(float32(genFloat(t)), float32(genFloat(t)))) }),
	cp("Complex128", func(t *pbt.T) g.Complex128 { return g.Complex128(complex(genFloat(t), genFloat(t))) }),
	cp("String", func(t *pbt.T) g.String { return g.String(strings.Repeat("é\x00{", t.Intn(40))) }),

	cc(cVec(cCell)), cc(cDeque(cCell)), cc(cList(cCell)), cc(cHashMap(cI32, cCell)), cc(cHashMap(cStr, cCell)),
	cc(cOpt(cCell)), cc(cRes(cCell)), cc(cPair(cCell, cCell)), cc(cPair(cI32, cCell)),
	cc(cVec(cI32)), cc(cDeque(cStr)), cc(cList(cI32)),
	cc(cHashSet(cI32)), cc(cHashSet(cStr)), cc(cTreeSet(cI32)), cc(cTreeSet(cStr)), cc(cTreeSet(cCell)),
	cc(cVec(cVec(cCell))), cc(cVec(cOpt(cCell))), cc(cVec(cPair(cCell, cI32))), cc(cVec(cDeque(cCell))),
	cc(cDeque(cVec(cCell))), cc(cDeque(cList(cCell))), cc(cDeque(cDeque(cCell))),
	cc(cList(cDeque(cCell))), cc(cList(cHashSet(cI32))), cc(cList(cVec(cCell))),
	cc(cHashMap(cStr, cVec(cCell))), cc(cHashMap(cI32, cHashMap(cI32, cCell))), cc(cHashMap(cI32, cTreeSet(cCell))),
	cc(cOpt(cVec(cCell))), cc(cOpt(cOpt(cCell))), cc(cOpt(cHashMap(cI32, cCell))),
	cc(cRes(cVec(cCell))), cc(cRes(cList(cCell))),
	cc(cPair(cVec(cCell), cHashMap(cI32, cCell))), cc(cPair(cPair(cCell, cI32), cList(cCell))),
	cc(cVec(cVec(cVec(cCell)))),
}

var C23 = &pbt.Prop{
	ID:    "C23",
	Rule:  "one of 20 primitive and 36 container types (nestings up to depth 3) with generated contents whose elements hold state behind a pointer; the value, its clone and a clone of the clone are then changed at every depth in a generated order and each must be unaffected by the others; non-trivial = a container with at least one element",
	Quick: 300000, Thorough: 12000000,
	EnumN: len(cloneKinds) * 20,
	Enum:  func(i int) []uint64 { return []uint64{uint64(i % len(cloneKinds))} },
	Run: func(t *pbt.T) {
		k := cloneKinds[t.Intn(len(cloneKinds))]
		t.Label(k.name)
		t.NoPanic("cloning "+k.name, func() { k.run(t) })
	},
	Assumptions: []string{"element Clone is deep", "errors inside Result and map keys are immutable"},
}

func runClone[X any](t *pbt.T, k ckind[X]) {
	n := pbt.Pick(t, 3, 10, 40)
	if h, ok := t.Huge(60, 3000); ok {
		n = h
	}
	var v [3]X
	v[0] = k.mk(t, n)
	was := k.look(&v[0])
	if len(was) > 6 {
		t.Nontrivial()
	}
	v[1] = cloneOf(t, k.name, v[0])
	if now := k.look(&v[0]); now != was {
		t.Failf("Clone changed the %s %s into %s", k.name, was, now)
	}
	if got := k.look(&v[1]); got != was {
		t.Failf("Clone of the %s %s is %s", k.name, was, got)
	}
	v[2] = cloneOf(t, k.name, v[1])
	if got := k.look(&v[2]); got != was {
		t.Failf("Clone of the clone of the %s %s is %s", k.name, was, got)
	}
	if e, ok := any(v[0]).(g.Eq[X]); ok && !bool(e.Eq(v[1])) {
		t.Failf("the %s %s and its clone are not Eq", k.name, was)
	}
	cur := [3]string{was, was, was}
	for s, m := 0, t.Range(1, 10); s < m; s++ {
		i := t.Intn(3)
		k.mut(t, &v[i])
		cur[i] = k.look(&v[i])
		for j := range v {
			if got := k.look(&v[j]); got != cur[j] {
				t.Failf("%s %s: after changing copy %d into %s, copy %d reads %s, was %s", k.name, was, i, cur[i], j, got, cur[j])
			}
		}
	}
	t.Logf("%s %s cloned, then changed to %v", k.name, was, cur)
}

func init() { register(C23) }
