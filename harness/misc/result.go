package misc

import (
	"errors"
	"fmt"
	"io/fs"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// myErr is an error that is neither a pointer nor from package errors.
type myErr struct{ K int }

func (e myErr) Error() string { return fmt.Sprintf("myErr %d", e.K) }

type ptrErr struct{ K int }

func (e *ptrErr) Error() string { return fmt.Sprintf("ptrErr %d", e.K) }

var errPool = []error{errors.New("error"), errors.New("error"), errors.New(""), myErr{1}, myErr{2}, &ptrErr{1}, &ptrErr{1},
	fs.ErrNotExist, fmt.Errorf("wrapped: %w", fs.ErrExist)}

func genErr(t *pbt.T) error { return errPool[t.Intn(len(errPool))] }

type mRes[T any] struct {
	ok  bool
	v   T
	err error
}

func (p payload[T]) showRes(m mRes[T]) string {
	if m.ok {
		return "Ok(" + p.show(m.v) + ")"
	}
	return fmt.Sprintf("Err(%T %q)", m.err, m.err.Error())
}

func (p payload[T]) genRes(t *pbt.T) (g.Result[T], mRes[T]) {
	if t.Bool() {
		e := genErr(t)
		return g.Err[T](e), mRes[T]{err: e}
	}
	v := p.gen(t)
	return g.Ok(v), mRes[T]{ok: true, v: v}
}

func (p payload[T]) expectRes(t *pbt.T, what string, r g.Result[T], want mRes[T]) {
	t.NoPanic(what, func() {
		ok, isErr := bool(r.IsOk()), bool(r.IsErr())
		t.Check(ok != isErr, "%s: IsOk = %v and IsErr = %v", what, ok, isErr)
		got := mRes[T]{ok: ok}
		if ok {
			got.v = r.Unwrap()
		} else {
			got.err = r.UnwrapErr()
			t.Check(got.err != nil, "%s is Err(nil)", what)
		}
		same := got.ok == want.ok
		if same && ok {
			same = p.eq(got.v, want.v)
		} else if same {
			same = got.err == want.err
		}
		t.Check(same, "%s = %s, want %s", what, p.showRes(got), p.showRes(want))
	})
}

func runResult[T any](t *pbt.T, p payload[T]) {
	r, m := p.genRes(t)
	t.Logf("r := %s  // Result[%s]", p.showRes(m), p.name)
	n := 1 + t.Intn(10)
	for i := 0; i < n; i++ {
		var c calls
		op := ""
		// Map and the like also replace the receiver: a chain.
		next, nm := r, m
		argV := func(x T) { c.n++; p.expectV(t, op+"'s argument", x, m.v) }
		argE := func(e error) { c.n++; t.Check(e == m.err, "%s's argument = %v, want %v", op, e, m.err) }
		what := func(s string) string { return s + " of " + p.showRes(m) }
		t.NoPanic("a result operation", func() {
			switch t.Intn(20) {
			case 0:
				op = "IsOk/IsErr"
				t.Check(bool(r.IsOk()) == m.ok && bool(r.IsErr()) == !m.ok, "%s: IsOk = %v, IsErr = %v", p.showRes(m), r.IsOk(), r.IsErr())
			case 1:
				op = "IsOkAnd"
				b := t.Bool()
				got := r.IsOkAnd(func(x T) g.Bool { argV(x); return g.Bool(b) })
				t.Check(bool(got) == (m.ok && b), "%s(-> %v) = %v", what(op), b, got)
				c.want(t, op, b2i(m.ok))
			case 2:
				op = "IsErrAnd"
				b := t.Bool()
				got := r.IsErrAnd(func(e error) g.Bool { argE(e); return g.Bool(b) })
				t.Check(bool(got) == (!m.ok && b), "%s(-> %v) = %v", what(op), b, got)
				c.want(t, op, b2i(!m.ok))
			case 3:
				op = "Ok"
				p.expect(t, what(op), r.Ok(), mOpt[T]{m.ok, m.v})
			case 4:
				op = "Err"
				e := r.Err()
				t.Check(bool(e.IsSome()) == !m.ok, "%s: IsSome = %v", what(op), e.IsSome())
				if !m.ok {
					t.Check(e.Unwrap() == m.err, "%s = Some(%v)", what(op), e.Unwrap())
				}
			case 5:
				op = "Map"
				if m.ok {
					nm = mRes[T]{ok: true, v: p.f(m.v)}
				}
				next = r.Map(func(x T) T { argV(x); return p.f(x) })
				p.expectRes(t, what(op), next, nm)
				c.want(t, op, b2i(m.ok))
			case 6:
				op = "MapOr"
				d := p.gen(t)
				w := d
				if m.ok {
					w = p.f(m.v)
				}
				p.expectV(t, what(op), r.MapOr(d, func(x T) T { argV(x); return p.f(x) }), w)
				c.want(t, op, b2i(m.ok))
			case 7:
				op = "MapOrElse"
				d := p.gen(t)
				w := d
				if m.ok {
					w = p.f(m.v)
				}
				var c2 calls
				p.expectV(t, what(op), r.MapOrElse(func() T { c2.n++; return d }, func(x T) T { argV(x); return p.f(x) }), w)
				c.want(t, "MapOrElse (the mapping)", b2i(m.ok))
				c2.want(t, "MapOrElse (the default)", b2i(!m.ok))
			case 8:
				op = "MapErr"
				e := genErr(t)
				if !m.ok {
					nm = mRes[T]{err: e}
				}
				next = r.MapErr(func(x error) error { argE(x); return e })
				p.expectRes(t, what(op), next, nm)
				c.want(t, op, b2i(!m.ok))
			case 9, 10:
				msg := pbt.Pick(t, "boom", "", "no {} value", "é")
				if t.Bool() {
					op = "Expect"
					if m.ok {
						p.expectV(t, what(op), r.Expect(msg), m.v)
					} else {
						mustPanic(t, what(op), msg, func() { r.Expect(msg) })
					}
				} else {
					op = "ExpectErr"
					if m.ok {
						mustPanic(t, what(op), msg, func() { r.ExpectErr(msg) })
					} else {
						t.Check(r.ExpectErr(msg) == m.err, "%s = %v", what(op), r.ExpectErr(msg))
					}
				}
			case 11:
				op = "Unwrap"
				if m.ok {
					p.expectV(t, what(op), r.Unwrap(), m.v)
				} else {
					mustPanic(t, what(op), "", func() { r.Unwrap() })
				}
			case 12:
				op = "UnwrapErr"
				if m.ok {
					mustPanic(t, what(op), "", func() { r.UnwrapErr() })
				} else {
					t.Check(r.UnwrapErr() == m.err, "%s = %v", what(op), r.UnwrapErr())
				}
			case 13:
				op = "And"
				a, am := p.genRes(t)
				if m.ok {
					nm = am
				}
				next = r.And(a)
				p.expectRes(t, what("And("+p.showRes(am)+")"), next, nm)
			case 14:
				op = "AndThen"
				a, am := p.genRes(t)
				if m.ok {
					nm = am
				}
				next = r.AndThen(func(x T) g.Result[T] { argV(x); return a })
				p.expectRes(t, what("AndThen(-> "+p.showRes(am)+")"), next, nm)
				c.want(t, op, b2i(m.ok))
			case 15:
				op = "Or"
				a, am := p.genRes(t)
				if !m.ok {
					nm = am
				}
				next = r.Or(a)
				p.expectRes(t, what("Or("+p.showRes(am)+")"), next, nm)
			case 16:
				op = "OrElse"
				a, am := p.genRes(t)
				if !m.ok {
					nm = am
				}
				next = r.OrElse(func(e error) g.Result[T] { argE(e); return a })
				p.expectRes(t, what("OrElse(-> "+p.showRes(am)+")"), next, nm)
				c.want(t, op, b2i(!m.ok))
			case 17:
				op = "UnwrapOr"
				d := p.gen(t)
				w := d
				if m.ok {
					w = m.v
				}
				p.expectV(t, what(op), r.UnwrapOr(d), w)
			case 18:
				op = "UnwrapOrElse"
				d := p.gen(t)
				w := d
				if m.ok {
					w = m.v
				}
				p.expectV(t, what(op), r.UnwrapOrElse(func() T { c.n++; return d }), w)
				c.want(t, op, b2i(!m.ok))
			case 19:
				op = "fresh"
				next, nm = p.genRes(t)
			}
		})
		p.expectRes(t, "the receiver after "+op, r, m)
		if t.Bool() {
			r, m = next, nm
		}
		t.Logf("%s  // now %s", op, p.showRes(m))
		t.Label("op " + op)
		t.Label("payload " + p.name)
		t.LabelIf(!m.ok, "Err receiver")
	}
	if n > 1 {
		t.Nontrivial()
	}
}

var C28 = &pbt.Prop{ID: "C28",
	Rule: "A random chain of 1-10 result operations from an Ok or Err receiver, payload I32, String, *int (nil included), any (nil included) or Vec, errors told apart by identity; model (ok, value, error) with call counters and argument checks. Non-trivial: at least two operations.",
	Run: func(t *pbt.T) {
		switch t.Intn(5) {
		case 0:
			runResult(t, i32P())
		case 1:
			runResult(t, strP())
		case 2:
			runResult(t, ptrP())
		case 3:
			runResult(t, anyP())
		default:
			runResult(t, vecP())
		}
	}, Quick: 2000000, Thorough: 80000000,
	Assumptions: []string{"Err(nil) is outside the domain: the library tells Err from Ok by a non-nil error."}}
