package num

import (
	"math/big"

	g "github.com/myyrakle/gost"
	"verif/harness/pbt"
)

// raw128 is a 128-bit pattern.
type raw128 struct{ hi, lo uint64 }

func (r raw128) big(signed bool) *big.Int {
	x := new(big.Int).SetUint64(r.hi)
	x.Lsh(x, 64)
	x.Or(x, new(big.Int).SetUint64(r.lo))
	return wrapBig(x, 128, signed)
}

func half(t *pbt.T) uint64 {
	switch t.Weighted(3, 2, 2, 2, 4) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 1
	case 3:
		return 1 << 63
	default:
		return t.Bits(64)
	}
}

func draw128(t *pbt.T) raw128 { return raw128{half(t), half(t)} }

func bigRaw(x *big.Int) raw128 {
	m := wrapBig(x, 128, false)
	lo := new(big.Int).And(m, new(big.Int).SetUint64(^uint64(0))).Uint64()
	hi := new(big.Int).Rsh(m, 64).Uint64()
	return raw128{hi, lo}
}

func draw128Related(t *pbt.T, a raw128) raw128 {
	off := func(x *big.Int) raw128 {
		return bigRaw(new(big.Int).Add(x, big.NewInt(int64(t.Draw(5))-2)))
	}
	switch t.Weighted(6, 1, 1, 1, 1, 1) {
	case 1:
		return off(a.big(false))
	case 2:
		return off(new(big.Int).Neg(a.big(false)))
	case 3:
		return off(new(big.Int).Rsh(a.big(false), uint(t.Draw(128))))
	case 4:
		return raw128{0, half(t)}
	case 5:
		if a.big(false).Sign() == 0 {
			return draw128(t)
		}
		return off(new(big.Int).Quo(new(big.Int).Lsh(one, 128), a.big(false)))
	default:
		return draw128(t)
	}
}

// mkU128 builds the value through the public API only.
func mkU128(r raw128) g.U128 {
	v := g.U128_FromU64(g.U64(r.hi))
	if r.hi != 0 {
		for i := 0; i < 64; i++ {
			v = v.Add(v)
		}
		v = v.Add(g.U128_FromU64(g.U64(r.lo)))
		return v
	}
	return g.U128_FromU64(g.U64(r.lo))
}

func mkI128(r raw128) g.I128 {
	v := g.I128_FromU64(g.U64(r.hi))
	if r.hi != 0 {
		for i := 0; i < 64; i++ {
			v = v.Add(v)
		}
		v = v.Add(g.I128_FromU64(g.U64(r.lo)))
		return v
	}
	return g.I128_FromU64(g.U64(r.lo))
}

func parse(t *pbt.T, what string, s g.String) *big.Int {
	x, ok := new(big.Int).SetString(string(s), 10)
	if !ok {
		t.Failf("%s rendered as %q, not a decimal integer", what, s)
	}
	return x
}

// built128 checks the construction itself, so that a failure later on is about
// the operation under test.
func built128(t *pbt.T, signed bool, r raw128) bool {
	var s g.String
	if signed {
		s = mkI128(r).ToString()
	} else {
		s = mkU128(r).ToString()
	}
	return string(s) == r.big(signed).String()
}

var notable128 = func() (r []raw128) {
	h := []uint64{0, 1, 2, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1, ^uint64(0), 0x123456789abcdef1}
	for _, x := range h {
		for _, y := range h {
			r = append(r, raw128{x, y})
		}
	}
	return
}()

var C04 = &pbt.Prop{
	ID:    "C04",
	Rule:  "all pairs of the 100 patterns with notable halves, signed and unsigned, enumerated; then pairs of 128-bit patterns from biased 64-bit halves, often related (neighbours, negations, shifted, reciprocal), signed or unsigned; non-trivial = at least one operand needs more than 64 bits or is negative",
	EnumN: 2 * len(notable128) * len(notable128),
	Enum: func(i int) []uint64 {
		n := len(notable128)
		return []uint64{uint64(i % 2), 0, uint64(i / 2 / n), uint64(i / 2 % n)}
	},
	Quick: 200000, Thorough: 8000000,
	Assumptions: []string{"values are built with FromU64, Add and read back with ToString and Cmp", "I128.Rem is only specified here for positive divisors: for negative divisors the repository's own test pins 5 % -10 = -5 (known finding F1)"},
	Run: func(t *pbt.T) {
		signed := t.Bool()
		var ra, rb raw128
		if t.Draw(2) == 0 {
			ra, rb = notable128[t.Intn(len(notable128))], notable128[t.Intn(len(notable128))]
		} else {
			ra = draw128(t)
			rb = draw128Related(t, ra)
		}
		x, y := ra.big(signed), rb.big(signed)
		t.Logf("signed=%v a=%v b=%v", signed, x, y)
		if x.BitLen() > 64 || y.BitLen() > 64 || x.Sign() < 0 || y.Sign() < 0 {
			t.Nontrivial()
		}
		t.LabelIf(signed && x.Sign() < 0 && y.Sign() < 0, "both negative")
		t.LabelIf(x.BitLen() > 64 && y.BitLen() > 64, "both wide")
		t.LabelIf(y.Sign() == 0, "zero divisor skipped")
		if signed {
			wide(t, "I128", true, x, y, mkI128(ra), mkI128(rb))
			// conversions
			v := int64(rb.lo)
			if s := string(g.I128_FromI64(g.I64(v)).ToString()); s != big.NewInt(v).String() {
				t.Failf("I128_FromI64(%d) is %s", v, s)
			}
			if s := string(g.I128_FromU64(g.U64(rb.lo)).ToString()); s != new(big.Int).SetUint64(rb.lo).String() {
				t.Failf("I128_FromU64(%d) is %s", rb.lo, s)
			}
			a := mkI128(ra)
			if got, w := parse(t, "I128", a.Neg().ToString()), wrapBig(new(big.Int).Neg(x), 128, true); got.Cmp(w) != 0 {
				t.Failf("I128(%v).Neg() = %v, want %v", x, got, w)
			}
			if got, w := parse(t, "I128", a.Abs().ToString()), wrapBig(new(big.Int).Abs(x), 128, true); got.Cmp(w) != 0 {
				t.Failf("I128(%v).Abs() = %v, want %v", x, got, w)
			}
			if s := string(a.ToString()); s != x.String() {
				t.Failf("I128 operand changed to %s, was %v", s, x)
			}
		} else {
			wide(t, "U128", false, x, y, mkU128(ra), mkU128(rb))
			if s := string(g.U128_FromU64(g.U64(rb.lo)).ToString()); s != new(big.Int).SetUint64(rb.lo).String() {
				t.Failf("U128_FromU64(%d) is %s", rb.lo, s)
			}
		}
	},
}

type wideT[T any] interface {
	Add(T) T
	Sub(T) T
	Mul(T) T
	Div(T) T
	Rem(T) T
	Cmp(T) g.Ordering
	Eq(T) g.Bool
	ToString() g.String
}

type wideA[T any] interface {
	*T
	AddAssign(T)
	SubAssign(T)
	MulAssign(T)
	DivAssign(T)
	RemAssign(T)
}

func wide[T wideT[T], P wideA[T]](t *pbt.T, name string, signed bool, x, y *big.Int, a, b T) {
	if s := string(a.ToString()); s != x.String() {
		t.Failf("%s built from halves of %v reads back as %s", name, x, s)
	}
	if s := string(b.ToString()); s != y.String() {
		t.Failf("%s built from halves of %v reads back as %s", name, y, s)
	}
	for _, op := range []string{"Add", "Sub", "Mul", "Div", "Rem"} {
		e := exact(op, x, y)
		if e == nil {
			continue
		}
		var r T
		asg := a
		p := P(&asg)
		t.NoPanic(name+"."+op, func() {
			switch op {
			case "Add":
				r = a.Add(b)
				p.AddAssign(b)
			case "Sub":
				r = a.Sub(b)
				p.SubAssign(b)
			case "Mul":
				r = a.Mul(b)
				p.MulAssign(b)
			case "Div":
				r = a.Div(b)
				p.DivAssign(b)
			case "Rem":
				r = a.Rem(b)
				p.RemAssign(b)
			}
		})
		w := wrapBig(e, 128, signed)
		got := parse(t, name, r.ToString())
		if !asg.Eq(r) {
			t.Failf("%s(%v).%sAssign(%v) left %v but %s returned %v", name, x, op, y, asg.ToString(), op, got)
		}
		if op == "Rem" && signed && y.Sign() < 0 {
			// Known finding F1: the remainder takes the sign of the product
			// of the operands' signs; its magnitude is right.
			if got.Cmp(w) != 0 {
				if got.Cmp(new(big.Int).Neg(w)) == 0 {
					t.Known("F1", "%s(%v).Rem(%v) = %v, want %v", name, x, y, got, w)
				} else {
					t.Failf("%s(%v).Rem(%v) = %v, want %v (not even the pinned %v)", name, x, y, got, w, new(big.Int).Neg(w))
				}
			}
			continue
		}
		if got.Cmp(w) != 0 {
			t.Failf("%s(%v).%s(%v) = %v, want %v", name, x, op, y, got, w)
		}
	}
	if s := string(a.ToString()); s != x.String() {
		t.Failf("%s operand changed to %s, was %v", name, s, x)
	}
}
