// Package misc checks Option, Result, String, Format, If, assertions and Stdin.
package misc

import (
	"fmt"
	"strings"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// payload is a kind of value carried by Option, Result and If.
type payload[T any] struct {
	name string
	gen  func(t *pbt.T) T
	eq   func(a, b T) bool
	// f is a non-identity function on T.
	f func(T) T
}

func (p payload[T]) show(v T) string { return fmt.Sprintf("%#v", v) }

func eqeq[T comparable](a, b T) bool { return a == b }

func i32P() payload[g.I32] {
	return payload[g.I32]{"I32", func(t *pbt.T) g.I32 { return g.I32(t.Bits(32)) }, eqeq[g.I32], func(x g.I32) g.I32 { return x*3 + 1 }}
}

func strP() payload[g.String] {
	return payload[g.String]{"String", func(t *pbt.T) g.String { return g.String(genStr(t, 6)) }, eqeq[g.String],
		func(x g.String) g.String { return x + "!" }}
}

var cells [8]int

// ptrP carries pointers, nil included: Some(nil) is Some.
func ptrP() payload[*int] {
	return payload[*int]{"*int", func(t *pbt.T) *int {
		k := t.Intn(len(cells) + 1)
		if k == 0 {
			return nil
		}
		return &cells[k-1]
	}, eqeq[*int], func(x *int) *int {
		for i := range cells {
			if x == &cells[i] {
				return &cells[(i+1)%len(cells)]
			}
		}
		return &cells[0]
	}}
}

// anyP carries interface values, nil included.
func anyP() payload[any] {
	return payload[any]{"any", func(t *pbt.T) any {
		switch t.Intn(5) {
		case 0:
			return nil
		case 1:
			return t.Intn(3)
		case 2:
			return "s"
		case 3:
			return (*int)(nil)
		}
		return g.I8(t.Intn(3))
	}, eqeq[any], func(x any) any { return fmt.Sprintf("f(%v)", x) }}
}

// vecP carries a container (not comparable with ==).
func vecP() payload[g.Vec[g.I32]] {
	eq := func(a, b g.Vec[g.I32]) bool {
		x, y := a.AsSlice(), b.AsSlice()
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	return payload[g.Vec[g.I32]]{"Vec", func(t *pbt.T) g.Vec[g.I32] {
		v := g.VecNew[g.I32]()
		for i := t.Intn(4); i > 0; i-- {
			v.Push(g.I32(t.Intn(5)))
		}
		return v
	}, eq, func(x g.Vec[g.I32]) g.Vec[g.I32] {
		v := g.VecNew[g.I32]()
		for _, e := range x.AsSlice() {
			v.Push(e + 1)
		}
		v.Push(77)
		return v
	}}
}

// mOpt is the model of an Option.
type mOpt[T any] struct {
	some bool
	v    T
}

func (p payload[T]) showOpt(m mOpt[T]) string {
	if !m.some {
		return "None"
	}
	return "Some(" + p.show(m.v) + ")"
}

func (p payload[T]) optEq(a, b mOpt[T]) bool {
	return a.some == b.some && (!a.some || p.eq(a.v, b.v))
}

// look reads an option: IsSome, IsNone and Unwrap must be consistent.
func (p payload[T]) look(t *pbt.T, what string, o g.Option[T]) (m mOpt[T]) {
	t.NoPanic(what, func() {
		t.Check(bool(o.IsSome()) != bool(o.IsNone()), "%s: IsSome = IsNone = %v", what, o.IsSome())
		if o.IsSome() {
			m.some, m.v = true, o.Unwrap()
		}
	})
	return
}

func (p payload[T]) expect(t *pbt.T, what string, got g.Option[T], want mOpt[T]) {
	m := p.look(t, what, got)
	t.Check(p.optEq(m, want), "%s = %s, want %s", what, p.showOpt(m), p.showOpt(want))
}

func (p payload[T]) expectV(t *pbt.T, what string, got, want T) {
	t.Check(p.eq(got, want), "%s = %s, want %s", what, p.show(got), p.show(want))
}

func (p payload[T]) genOpt(t *pbt.T) (g.Option[T], mOpt[T]) {
	if t.OneIn(3) {
		return g.None[T](), mOpt[T]{}
	}
	v := p.gen(t)
	return g.Some(v), mOpt[T]{true, v}
}

// calls counts the calls of a function argument.
type calls struct{ n int }

func (c *calls) want(t *pbt.T, what string, n int) {
	t.Check(c.n == n, "%s called its function %d times, want %d", what, c.n, n)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// mustPanic checks that f panics; if msg is not empty the panic must show it.
func mustPanic(t *pbt.T, what, msg string, f func()) string {
	p, v := pbt.Catch(f)
	t.Check(p, "%s did not panic", what)
	s := fmt.Sprint(v)
	t.Check(strings.Contains(s, msg), "%s panicked with %q, want the message %q", what, s, msg)
	return s
}

func runOption[T any](t *pbt.T, p payload[T]) {
	o, m := p.genOpt(t)
	t.Logf("o := %s  // Option[%s]", p.showOpt(m), p.name)
	type kept struct {
		o  g.Option[T]
		m  mOpt[T]
		by string
	}
	var keep []kept
	// through checks that q refers to the option's own value, and puts the
	// old value back (a copy of the option may share it).
	through := func(q *T, by string) {
		w := p.gen(t)
		*q = w
		p.expect(t, "the option after a write through the reference from "+by, o, mOpt[T]{true, w})
		*q = m.v
	}
	n := 1 + t.Intn(12)
	seenNone, seenSome, muts := false, false, 0
	for i := 0; i < n; i++ {
		seenNone, seenSome = seenNone || !m.some, seenSome || m.some
		before := m
		var c calls
		op := ""
		if t.OneIn(4) {
			keep = append(keep, kept{o, m, "a copy of the option"})
		}
		t.NoPanic("an option operation", func() {
			switch t.Intn(22) {
			case 0:
				op = "IsSome/IsNone"
				t.Check(bool(o.IsSome()) == m.some, "IsSome of %s = %v", p.showOpt(m), o.IsSome())
				t.Check(bool(o.IsNone()) == !m.some, "IsNone of %s = %v", p.showOpt(m), o.IsNone())
			case 1:
				op = "IsSomeAnd"
				r := t.Bool()
				got := o.IsSomeAnd(func(x T) g.Bool { c.n++; p.expectV(t, "IsSomeAnd's argument", x, m.v); return g.Bool(r) })
				t.Check(bool(got) == (m.some && r), "IsSomeAnd(-> %v) of %s = %v", r, p.showOpt(m), got)
				c.want(t, op, b2i(m.some))
			case 2:
				op = "Expect"
				msg := pbt.Pick(t, "", "boom", "no value {}", "é")
				if m.some {
					p.expectV(t, "Expect", o.Expect(msg), m.v)
				} else {
					s := mustPanic(t, "Expect of None", msg, func() { o.Expect(msg) })
					t.Check(s == msg, "Expect(%q) of None panicked with %q", msg, s)
				}
			case 3:
				op = "Unwrap"
				if m.some {
					p.expectV(t, "Unwrap", o.Unwrap(), m.v)
				} else {
					mustPanic(t, "Unwrap of None", "", func() { o.Unwrap() })
				}
			case 4:
				op = "UnwrapOr"
				d := p.gen(t)
				w := d
				if m.some {
					w = m.v
				}
				p.expectV(t, "UnwrapOr", o.UnwrapOr(d), w)
			case 5:
				op = "UnwrapOrElse"
				d := p.gen(t)
				w := d
				if m.some {
					w = m.v
				}
				p.expectV(t, "UnwrapOrElse", o.UnwrapOrElse(func() T { c.n++; return d }), w)
				c.want(t, op, b2i(!m.some))
			case 6:
				op = "Map"
				w := mOpt[T]{}
				if m.some {
					w = mOpt[T]{true, p.f(m.v)}
				}
				r := o.Map(func(x T) T { c.n++; p.expectV(t, "Map's argument", x, m.v); return p.f(x) })
				p.expect(t, "Map of "+p.showOpt(m), r, w)
				c.want(t, op, b2i(m.some))
			case 7:
				op = "MapOr"
				d := p.gen(t)
				w := d
				if m.some {
					w = p.f(m.v)
				}
				p.expectV(t, "MapOr", o.MapOr(d, func(x T) T { c.n++; return p.f(x) }), w)
				c.want(t, op, b2i(m.some))
			case 8:
				op = "MapOrElse"
				d := p.gen(t)
				w := d
				if m.some {
					w = p.f(m.v)
				}
				var c2 calls
				p.expectV(t, "MapOrElse", o.MapOrElse(func() T { c2.n++; return d }, func(x T) T { c.n++; return p.f(x) }), w)
				c.want(t, "MapOrElse (the mapping)", b2i(m.some))
				c2.want(t, "MapOrElse (the default)", b2i(!m.some))
			case 9, 10:
				ap := anyP()
				a, am := ap.genOpt(t)
				w := mOpt[any]{}
				if m.some {
					w = am
				}
				if t.Bool() {
					op = "And"
					ap.expect(t, "And("+ap.showOpt(am)+") of "+p.showOpt(m), o.And(a), w)
				} else {
					op = "AndThen"
					r := o.AndThen(func(x T) g.Option[any] { c.n++; p.expectV(t, "AndThen's argument", x, m.v); return a })
					ap.expect(t, "AndThen(-> "+ap.showOpt(am)+") of "+p.showOpt(m), r, w)
					c.want(t, op, b2i(m.some))
				}
			case 11:
				op = "Filter"
				r := t.Bool()
				w := mOpt[T]{}
				if m.some && r {
					w = m
				}
				f := o.Filter(func(x T) g.Bool { c.n++; p.expectV(t, "Filter's argument", x, m.v); return g.Bool(r) })
				p.expect(t, fmt.Sprintf("Filter(-> %v) of %s", r, p.showOpt(m)), f, w)
				c.want(t, op, b2i(m.some))
			case 12, 13, 14:
				a, am := p.genOpt(t)
				switch t.Intn(3) {
				case 0:
					op = "Or"
					w := m
					if !m.some {
						w = am
					}
					p.expect(t, p.showOpt(m)+".Or("+p.showOpt(am)+")", o.Or(a), w)
				case 1:
					op = "OrElse"
					w := m
					if !m.some {
						w = am
					}
					p.expect(t, p.showOpt(m)+".OrElse(-> "+p.showOpt(am)+")", o.OrElse(func() g.Option[T] { c.n++; return a }), w)
					c.want(t, op, b2i(!m.some))
				default:
					op = "Xor"
					w := mOpt[T]{}
					if m.some && !am.some {
						w = m
					} else if !m.some && am.some {
						w = am
					}
					p.expect(t, p.showOpt(m)+".Xor("+p.showOpt(am)+")", o.Xor(a), w)
				}
				p.expect(t, op+"'s argument afterwards", a, am)
			case 15:
				op = "Insert"
				v := p.gen(t)
				q := o.Insert(v)
				m = mOpt[T]{true, v}
				t.Check(q != nil, "Insert returned nil")
				p.expectV(t, "*Insert", *q, v)
				if t.Bool() {
					w := p.gen(t)
					*q = w
					m.v = w
					op = "Insert + write through"
				}
			case 16:
				op = "GetOrInsert"
				v := p.gen(t)
				fresh := !m.some
				if fresh {
					m = mOpt[T]{true, v}
				}
				q := o.GetOrInsert(v)
				t.Check(q != nil, "GetOrInsert returned nil")
				p.expectV(t, "*GetOrInsert", *q, m.v)
				if fresh && t.Bool() { // a fresh cell: no older copy shares it
					w := p.gen(t)
					*q = w
					m.v = w
					op = "GetOrInsert + write through"
				} else if !fresh {
					through(q, "GetOrInsert")
				}
			case 17:
				op = "GetOrInsertWith"
				v := p.gen(t)
				fresh := !m.some
				if fresh {
					m = mOpt[T]{true, v}
				}
				q := o.GetOrInsertWith(func() T { c.n++; return v })
				t.Check(q != nil, "GetOrInsertWith returned nil")
				p.expectV(t, "*GetOrInsertWith", *q, m.v)
				c.want(t, op, b2i(fresh))
				if fresh && t.Bool() {
					w := p.gen(t)
					*q = w
					m.v = w
					op = "GetOrInsertWith + write through"
				} else if !fresh {
					through(q, "GetOrInsertWith")
				}
			case 18, 19:
				op = "Take"
				r := o.Take()
				p.expect(t, "Take of "+p.showOpt(m), r, m)
				keep = append(keep, kept{r, m, "the option returned by Take"})
				m = mOpt[T]{}
			case 20, 21:
				op = "Replace"
				v := p.gen(t)
				r := o.Replace(v)
				p.expect(t, "Replace of "+p.showOpt(m), r, m)
				keep = append(keep, kept{r, m, "the option returned by Replace"})
				m = mOpt[T]{true, v}
			}
		})
		t.Logf("%s  // now %s", op, p.showOpt(m))
		if before.some != m.some || (m.some && !p.eq(before.v, m.v)) {
			muts++
		}
		p.expect(t, "the option after "+op, o, m)
		for _, k := range keep {
			p.expect(t, k.by+", after a later "+op, k.o, k.m)
		}
		t.Label("payload " + p.name)
		t.Label("op " + strings.TrimSuffix(op, " + write through"))
	}
	if n > 1 && (muts > 0 || seenNone && seenSome) {
		t.Nontrivial()
	}
}

var C27 = &pbt.Prop{ID: "C27",
	Rule: "A random history of 1-12 option operations on one receiver, payload I32, String, *int (nil included), any (nil included) or Vec; model (present, value) with call counters for every function argument, and copies and returned options watched across later operations. Non-trivial: more than one operation and the receiver's state changed or both None and Some were seen.",
	Run: func(t *pbt.T) {
		switch t.Intn(5) {
		case 0:
			runOption(t, i32P())
		case 1:
			runOption(t, strP())
		case 2:
			runOption(t, ptrP())
		case 3:
			runOption(t, anyP())
		default:
			runOption(t, vecP())
		}
	}, Quick: 1000000, Thorough: 40000000}
