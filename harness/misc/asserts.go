package misc

import (
	"fmt"
	"strings"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// loose is a type whose Eq is not ==.
type loose struct{ K, Tag int }

func (a loose) Eq(b loose) g.Bool { return a.K == b.K }
func (a loose) Display() g.String { return g.String(fmt.Sprintf("<loose %d.%d>", a.K, a.Tag)) }

// mute cannot be shown.
type mute struct{ K int }

func (a mute) Eq(b mute) g.Bool { return a.K == b.K }

// bad draws arguments that make no message: a template with too few values,
// values that cannot be shown, a first argument that is no text.
func bad(t *pbt.T) []any {
	switch t.Intn(4) {
	case 0:
		return []any{g.String("{} {}"), g.I32(1)}
	case 1:
		return []any{"{}", mute{}}
	case 2:
		return []any{mute{}, nil}
	default:
		return []any{"{}"}
	}
}

type disp interface{ Display() g.String }

// message draws the extra arguments of an assertion and the text they make.
func message(t *pbt.T) (args []any, want string) {
	if t.OneIn(3) {
		return nil, ""
	}
	tpl, a, w := genTemplate(t, 5)
	if t.Bool() {
		args = append(args, g.String(tpl))
		t.Label("String message")
	} else {
		args = append(args, tpl)
		t.Label("string message")
	}
	t.LabelIf(len(a) > 0, "message with placeholders")
	return append(args, a...), w
}

func quiet(t *pbt.T, what string, f func()) {
	p, v := pbt.Catch(f)
	t.Check(!p, "%s panicked with %v although the assertion holds", what, v)
}

type eqDisp[T any] interface {
	g.Eq[T]
	disp
}

func runAssertEq[T eqDisp[T]](t *pbt.T, name string, gen func() (T, T)) {
	a, b := gen()
	eq := bool(a.Eq(b))
	args, msg := message(t)
	neg := t.Bool()
	what := "AssertEq"
	if neg {
		what = "AssertNe"
	}
	what = fmt.Sprintf("%s[%s](%s, %s, %d extra)", what, name, a.Display(), b.Display(), len(args))
	f := func() {
		if neg {
			g.AssertNe(a, b, args...)
		} else {
			g.AssertEq(a, b, args...)
		}
	}
	t.Logf("%s  // message %q", what, msg)
	t.Label(what[:8] + " " + name)
	if eq != neg {
		if t.OneIn(8) {
			// what it would have said does not matter
			args = bad(t)
			t.Label("a message that cannot be made")
		}
		quiet(t, what, f)
		return
	}
	t.Label("fails")
	p, v := pbt.Catch(f)
	t.Check(p, "%s did not panic", what)
	s := fmt.Sprint(v)
	i := strings.Index(s, string(a.Display()))
	t.Check(i >= 0, "%s panicked with %q, which does not show the left operand", what, s)
	rest := s[i+len(a.Display()):]
	j := strings.Index(rest, string(b.Display()))
	t.Check(j >= 0, "%s panicked with %q, which does not show both operands in order", what, s)
	rest = rest[j+len(b.Display()):]
	t.Check(strings.Contains(rest, msg), "%s panicked with %q, want the message %q", what, s, msg)
}

func runAsserts(t *pbt.T) {
	t.Nontrivial()
	switch t.Intn(14) {
	case 0, 1:
		c := t.Bool()
		args, msg := message(t)
		what := fmt.Sprintf("Assert(%v, %d extra)", c, len(args))
		t.Logf("%s  // message %q", what, msg)
		t.Label("Assert")
		f := func() { g.Assert(g.Bool(c), args...) }
		if c {
			if t.OneIn(8) {
				args = bad(t)
				t.Label("a message that cannot be made")
			}
			quiet(t, what, f)
		} else {
			mustPanic(t, what, msg, f)
			t.Label("fails")
		}
	case 2:
		tpl, args, w := genTemplate(t, 6)
		t.Logf("Panic(%q, %d args)", tpl, len(args))
		t.Label("Panic")
		s := mustPanic(t, "Panic", w, func() { g.Panic(g.String(tpl), args...) })
		t.Check(s == w, "Panic(%q, %d args) panicked with %q, want %q", tpl, len(args), s, w)
	case 3, 4:
		k := t.Intn(3)
		name := []string{"Todo", "Unreachable", "Unimplemented"}[k]
		fn := []func(...g.String){g.Todo, g.Unreachable, g.Unimplemented}[k]
		def := []string{"todo", "unreachable", "not implemented"}[k]
		t.Label(name)
		if t.Bool() {
			t.Logf("%s()", name)
			s := mustPanic(t, name, "", func() { fn() })
			t.Check(s == def, "%s() panicked with %q, want %q", name, s, def)
		} else {
			m := genText(t, 5)
			t.Logf("%s(%q)", name, m)
			mustPanic(t, name, m, func() { fn(g.String(m)) })
		}
	case 5:
		if t.OneIn(6) {
			a, b := mute{t.Intn(3)}, mute{t.Intn(3)}
			t.Logf("AssertEq or AssertNe of %v and %v, which have no Display", a, b)
			t.Label("operands without Display")
			if a == b {
				quiet(t, "AssertEq of equal values without Display", func() { g.AssertEq(a, b) })
			} else {
				quiet(t, "AssertNe of different values without Display", func() { g.AssertNe(a, b) })
			}
			return
		}
		runAssertEq(t, "I32", func() (g.I32, g.I32) {
			a := g.I32(t.Bits(32))
			return a, pbt.Pick(t, a, a+1, g.I32(t.Bits(32)))
		})
	case 6:
		runAssertEq(t, "String", func() (g.String, g.String) {
			a := g.String(genText(t, 4))
			return a, pbt.Pick(t, a, a+"x", g.String(genText(t, 4)))
		})
	case 7:
		runAssertEq(t, "loose", func() (loose, loose) {
			a := loose{t.Intn(3), t.Intn(100)}
			return a, pbt.Pick(t, a, loose{a.K, a.Tag + 1}, loose{a.K + 1, a.Tag})
		})
	case 8:
		runAssertEq(t, "Vec", func() (g.Vec[g.I32], g.Vec[g.I32]) {
			p := vecP()
			a := p.gen(t)
			if t.Bool() {
				return a, a.Clone()
			}
			return a, p.gen(t)
		})
	case 9:
		runAssertEq(t, "Option", func() (g.Option[g.String], g.Option[g.String]) {
			p := strP()
			a, m := p.genOpt(t)
			if t.Bool() {
				if m.some {
					return a, g.Some(m.v)
				}
				return a, g.None[g.String]()
			}
			b, _ := p.genOpt(t)
			return a, b
		})
	case 10:
		runAssertEq(t, "F64", func() (g.F64, g.F64) {
			a := g.F64(t.Intn(64)-32) / 4
			return a, pbt.Pick(t, a, a+0.25, -a)
		})
	case 11:
		runAssertEq(t, "U128", func() (g.U128, g.U128) {
			mk := func(k int) g.U128 {
				x := g.U128_FromU64(g.U64(k))
				return x.Mul(x)
			}
			k := t.Intn(5)
			return mk(k), mk(pbt.Pick(t, k, k+1))
		})
	case 12:
		runAssertEq(t, "Bool", func() (g.Bool, g.Bool) { return g.Bool(t.Bool()), g.Bool(t.Bool()) })
	default:
		runAssertEq(t, "U64", func() (g.U64, g.U64) {
			a := g.U64(t.Bits(64))
			return a, pbt.Pick(t, a, ^a, g.U64(t.Bits(64)))
		})
	}
}

var C40 = &pbt.Prop{ID: "C40",
	Rule: "One assertion call per case: Assert, AssertEq/AssertNe over ten operand types (a user type whose Eq is not == among them, equal, near-equal and unequal pairs), Panic, Todo, Unreachable, Unimplemented, with no message or a String/string message with placeholders and arguments; the panic payload's text is compared with the independently built message. Every case is non-trivial.",
	Run:  runAsserts, Quick: 4000000, Thorough: 160000000,
	Assumptions: []string{"A message of another type than String/string is outside the domain; where in the panic text the message appears is only fixed to be after the operands."}}
