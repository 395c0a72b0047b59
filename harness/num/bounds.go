package num

import (
	"math/big"

	g "github.com/myyrakle/gost"
	"verif/harness/pbt"
)

// bound is the view of one integer type's MIN and MAX constants.
type bound struct {
	name     string
	bits     int
	signed   bool
	min, max string // as text
	// check compares the constants with the value of the given bits, x
	check func(t *pbt.T, r raw128, x *big.Int)
}

type edged[T any] interface {
	integer
	Cmp(T) g.Ordering
	Eq(T) g.Bool
	ToString() g.String
	WrappingAdd(T) T
	WrappingSub(T) T
	CheckedAdd(T) g.Option[T]
	CheckedSub(T) g.Option[T]
	SaturatingAdd(T) T
	SaturatingSub(T) T
}

func mkBound[T edged[T]](name string, bits int, lo, hi T) bound {
	var zero T
	b := bound{name: name, bits: bits, signed: zero-1 < 0, min: string(lo.ToString()), max: string(hi.ToString())}
	b.check = func(t *pbt.T, r raw128, x *big.Int) {
		v := T(r.lo)
		t.Logf("%s %v", name, v)
		t.Check(lo.Cmp(v) != g.OrderingGreater, "%s_MIN is greater than %v", name, v)
		t.Check(hi.Cmp(v) != g.OrderingLess, "%s_MAX is less than %v", name, v)
		t.Check(bool(lo.Eq(v)) == (string(v.ToString()) == b.min), "%s_MIN.Eq(%v) = %v", name, v, lo.Eq(v))
		t.Check(bool(hi.Eq(v)) == (string(v.ToString()) == b.max), "%s_MAX.Eq(%v) = %v", name, v, hi.Eq(v))
		t.Check(hi.WrappingAdd(1) == lo && lo.WrappingSub(1) == hi, "%s_MAX + 1 is not %s_MIN", name, name)
		if v > 0 {
			t.Check(bool(hi.CheckedAdd(v).IsNone()), "%s_MAX.CheckedAdd(%v) is Some", name, v)
			t.Check(bool(lo.CheckedSub(v).IsNone()), "%s_MIN.CheckedSub(%v) is Some", name, v)
			t.Check(hi.SaturatingAdd(v) == hi, "%s_MAX.SaturatingAdd(%v) = %v", name, v, hi.SaturatingAdd(v))
			t.Check(lo.SaturatingSub(v) == lo, "%s_MIN.SaturatingSub(%v) = %v", name, v, lo.SaturatingSub(v))
		}
		o := hi.CheckedSub(v)
		t.Check(bool(o.IsSome()) == (v >= 0) && (v < 0 || o.Unwrap() == T(hi-v)), "%s_MAX.CheckedSub(%v) is wrong", name, v)
	}
	return b
}

func mkBound128[T any](name string, signed bool, lo, hi, one T, mk func(raw128) T,
	cmp func(a, b T) g.Ordering, eq func(a, b T) g.Bool, add, sub func(a, b T) T, str func(T) string, again func() (T, T)) bound {
	b := bound{name: name, bits: 128, signed: signed, min: str(lo), max: str(hi)}
	b.check = func(t *pbt.T, r raw128, x *big.Int) {
		if !built128(t, signed, r) {
			return
		}
		v := mk(r)
		t.Logf("%s %v", name, x)
		t.Check(cmp(lo, v) != g.OrderingGreater, "%s_MIN is greater than %v", name, x)
		t.Check(cmp(hi, v) != g.OrderingLess, "%s_MAX is less than %v", name, x)
		t.Check(bool(eq(lo, v)) == (x.String() == b.min), "%s_MIN.Eq(%v) = %v", name, x, eq(lo, v))
		t.Check(bool(eq(hi, v)) == (x.String() == b.max), "%s_MAX.Eq(%v) = %v", name, x, eq(hi, v))
		t.Check(bool(eq(add(hi, one), lo)) && bool(eq(sub(lo, one), hi)), "%s_MAX + 1 is not %s_MIN", name, name)
		// MAX - (MAX - x) = x, and MIN + (x - MIN) = x
		t.Check(str(sub(hi, sub(hi, v))) == x.String(), "%s_MAX - (%s_MAX - %v) = %s", name, name, x, str(sub(hi, sub(hi, v))))
		t.Check(str(add(lo, sub(v, lo))) == x.String(), "%s_MIN + (%v - %s_MIN) = %s", name, x, name, str(add(lo, sub(v, lo))))
		// arithmetic on the variables leaves them alone
		l, h := again()
		t.Check(str(l) == b.min && str(h) == b.max, "%s_MIN, %s_MAX are now %s, %s", name, name, str(l), str(h))
	}
	return b
}

var bounds = []bound{
	mkBound("I8", 8, g.I8_MIN, g.I8_MAX), mkBound("I16", 16, g.I16_MIN, g.I16_MAX),
	mkBound("I32", 32, g.I32_MIN, g.I32_MAX), mkBound("I64", 64, g.I64_MIN, g.I64_MAX), mkBound("ISize", 64, g.ISize_MIN, g.ISize_MAX),
	mkBound("U8", 8, g.U8_MIN, g.U8_MAX), mkBound("U16", 16, g.U16_MIN, g.U16_MAX),
	mkBound("U32", 32, g.U32_MIN, g.U32_MAX), mkBound("U64", 64, g.U64_MIN, g.U64_MAX), mkBound("USize", 64, g.USize_MIN, g.USize_MAX),
	mkBound128("I128", true, g.I128_MIN, g.I128_MAX, g.I128_FromU64(1), mkI128,
		g.I128.Cmp, g.I128.Eq, g.I128.Add, g.I128.Sub, func(x g.I128) string { return string(x.ToString()) },
		func() (g.I128, g.I128) {
			l, h := g.I128_MIN, g.I128_MAX
			l.SubAssign(g.I128_FromU64(3))
			h.AddAssign(g.I128_FromU64(3))
			return g.I128_MIN, g.I128_MAX
		}),
	mkBound128("U128", false, g.U128_MIN, g.U128_MAX, g.U128_FromU64(1), mkU128,
		g.U128.Cmp, g.U128.Eq, g.U128.Add, g.U128.Sub, func(x g.U128) string { return string(x.ToString()) },
		func() (g.U128, g.U128) {
			l, h := g.U128_MIN, g.U128_MAX
			l.SubAssign(g.U128_FromU64(3))
			h.AddAssign(g.U128_FromU64(3))
			return g.U128_MIN, g.U128_MAX
		}),
}

var C46 = &pbt.Prop{
	ID:    "C46",
	Rule:  "a value of one of the twelve integer types with MIN and MAX constants, boundary-biased, compared with both by Cmp and Eq, and used in arithmetic at both ends; the constants' text compared with the exact powers of two; every case is non-trivial",
	Quick: 2000000, Thorough: 80000000,
	Run: func(t *pbt.T) {
		b := bounds[t.Intn(len(bounds))]
		t.Label(b.name)
		t.Nontrivial()
		lo, hi := new(big.Int), new(big.Int).Lsh(one, uint(b.bits))
		if b.signed {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		hi.Sub(hi, one)
		t.Check(b.min == lo.String(), "%s_MIN renders as %s, want %s", b.name, b.min, lo)
		t.Check(b.max == hi.String(), "%s_MAX renders as %s, want %s", b.name, b.max, hi)
		r := draw128(t)
		if b.bits < 128 {
			r = raw128{0, t.Bits(b.bits)}
		}
		t.NoPanic("comparing with the bounds of "+b.name, func() { b.check(t, r, wrapBig(r.big(false), b.bits, b.signed)) })
	},
}
