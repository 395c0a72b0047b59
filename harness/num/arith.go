package num

import (
	"math/big"

	"verif/harness/pbt"
)

// exact returns the mathematical result of op; nil for a zero divisor.
func exact(op string, x, y *big.Int) *big.Int {
	switch op {
	case "Add", "WrappingAdd":
		return new(big.Int).Add(x, y)
	case "Sub", "WrappingSub":
		return new(big.Int).Sub(x, y)
	case "Mul", "WrappingMul":
		return new(big.Int).Mul(x, y)
	case "Div", "WrappingDiv":
		if y.Sign() == 0 {
			return nil
		}
		return new(big.Int).Quo(x, y)
	case "Rem":
		if y.Sign() == 0 {
			return nil
		}
		return new(big.Int).Rem(x, y)
	}
	panic(op)
}

var plainOps = []string{"Add", "Sub", "Mul", "Div", "Rem", "WrappingAdd", "WrappingSub", "WrappingMul", "WrappingDiv"}
var satOps = []string{"Add", "Sub", "Mul", "Div"}
var chkOps = []string{"Add", "Sub", "Mul", "Div", "Rem"}

func classify(t *pbt.T, d *iv, x, y *big.Int) {
	t.Label("type " + d.name)
	for _, op := range satOps {
		e := exact(op, x, y)
		if e != nil && !d.fits(e) {
			t.Label(op + " out of range")
			t.Nontrivial()
		}
	}
	if y.Sign() == 0 {
		t.Label("zero divisor")
		t.Nontrivial()
	}
	if x.BitLen()*2 > d.bits && y.BitLen() > 1 {
		t.Nontrivial()
	}
}

var C01 = &pbt.Prop{
	ID:    "C01",
	Rule:  "operand pairs of a random integer type: all 3x65,536 pairs of I8/U8/Byte and all pairs of about 45 notable values of every type enumerated, then boundary-biased and related pairs of every width plus a Pow exponent; non-trivial = some operation overflows the type, the divisor is zero, or an operand uses more than half the width",
	EnumN: enumAllN, Enum: enumAllF, Quick: 2000000, Thorough: 80000000,
	Assumptions: []string{"division by zero is outside this property (Go run-time panic)"},
	Run: func(t *pbt.T) {
		d, a, b := pair(t, allTypes)
		x, y := sp(d, a, b)
		t.Logf("%s a=%v b=%v", d.name, x, y)
		classify(t, d, x, y)
		for _, op := range plainOps {
			f := d.bin[op]
			e := exact(op, x, y)
			if f == nil || e == nil {
				continue
			}
			var got *big.Int
			t.NoPanic(d.name+"."+op, func() { got = d.big(f(a, b)) })
			if w := d.wrap(e); got.Cmp(w) != 0 {
				t.Failf("%s(%v).%s(%v) = %v, want %v", d.name, x, op, y, got, w)
			}
			if af := d.asg[op]; af != nil {
				t.NoPanic(d.name+"."+op+"Assign", func() { got = d.big(af(a, b)) })
				if w := d.wrap(e); got.Cmp(w) != 0 {
					t.Failf("%s(%v).%sAssign(%v) left %v, want %v", d.name, x, op, y, got, w)
				}
			}
		}
		if d.pow != nil {
			var e uint32
			switch t.Weighted(4, 2, 2) {
			case 0:
				e = uint32(t.Draw(20))
			case 1:
				e = uint32(t.Draw(300))
			default:
				e = uint32(t.Bits(32))
			}
			m := new(big.Int).Lsh(one, uint(d.bits))
			w := d.wrap(new(big.Int).Exp(new(big.Int).Mod(x, m), new(big.Int).SetUint64(uint64(e)), m))
			var got *big.Int
			t.NoPanic(d.name+".Pow", func() { got = d.big(d.pow(a, e)) })
			if got.Cmp(w) != 0 {
				t.Failf("%s(%v).Pow(%d) = %v, want %v", d.name, x, e, got, w)
			}
		}
	},
}

var C02 = &pbt.Prop{
	ID:    "C02",
	Rule:  "operand pairs as C01 (all pairs of I8 and U8 and of notable values of every type enumerated), zero divisors included; non-trivial = some operation is out of range, the divisor is zero, or an operand uses more than half the width",
	EnumN: enumFullN, Enum: enumFullF, Quick: 4000000, Thorough: 160000000,
	Run: func(t *pbt.T) {
		d, a, b := pair(t, fullTypes)
		x, y := sp(d, a, b)
		t.Logf("%s a=%v b=%v", d.name, x, y)
		classify(t, d, x, y)
		for _, op := range chkOps {
			e := exact(op, x, y)
			want := e != nil && d.fits(e)
			if op == "Rem" && e != nil {
				want = d.fits(exact("Div", x, y))
			}
			var some bool
			var raw uint64
			t.NoPanic(d.name+".Checked"+op, func() { some, raw = d.chk[op](a, b) })
			if some != want {
				t.Failf("%s(%v).Checked%s(%v): Some=%v, want Some=%v (exact result %v)", d.name, x, op, y, some, want, e)
			}
			if some && d.big(raw).Cmp(e) != 0 {
				t.Failf("%s(%v).Checked%s(%v) = Some(%v), want Some(%v)", d.name, x, op, y, d.big(raw), e)
			}
		}
	},
}

var C03 = &pbt.Prop{
	ID:    "C03",
	Rule:  "operand pairs as C01 (all pairs of I8 and U8 and of notable values of every type enumerated), non-zero divisors; non-trivial = some operation saturates or an operand uses more than half the width",
	EnumN: enumFullN, Enum: enumFullF, Quick: 4000000, Thorough: 160000000,
	Assumptions: []string{"SaturatingDiv by zero is outside the property"},
	Run: func(t *pbt.T) {
		d, a, b := pair(t, fullTypes)
		x, y := sp(d, a, b)
		t.Logf("%s a=%v b=%v", d.name, x, y)
		classify(t, d, x, y)
		for _, op := range satOps {
			e := exact(op, x, y)
			if e == nil {
				continue
			}
			if e.Cmp(d.max()) > 0 {
				e = d.max()
			} else if e.Cmp(d.min()) < 0 {
				e = d.min()
			}
			var got *big.Int
			t.NoPanic(d.name+".Saturating"+op, func() { got = d.big(d.sat[op](a, b)) })
			if got.Cmp(e) != 0 {
				t.Failf("%s(%v).Saturating%s(%v) = %v, want %v", d.name, x, op, y, got, e)
			}
		}
	},
}
