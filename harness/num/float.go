package num

import (
	"fmt"
	"math"
	"math/big"
	"strconv"

	g "github.com/myyrakle/gost"
	"verif/harness/pbt"
)

// drawF64 draws a finite float, boundary-biased, sometimes an infinity.
func drawF64(t *pbt.T) float64 {
	var f float64
	switch t.Weighted(4, 4, 3, 2, 2, 1) {
	case 0: // small integers and halves, quarters
		f = float64(int64(t.Draw(41))-20) / pbt.Pick(t, 1.0, 2, 4, 10)
	case 1: // integer or half +- 1 ulp at a random magnitude
		m := math.Ldexp(1, int(t.Draw(56)))
		f = math.Floor(m) + float64(t.Draw(5)) + pbt.Pick(t, 0, 0.5)
		switch t.Intn(3) {
		case 1:
			f = math.Nextafter(f, math.Inf(1))
		case 2:
			f = math.Nextafter(f, math.Inf(-1))
		}
	case 2: // any bits
		f = math.Float64frombits(t.Draw(0))
	case 3: // special magnitudes
		f = pbt.Pick(t, 0, math.SmallestNonzeroFloat64, math.MaxFloat64, 2.2250738585072014e-308, 1, 1<<52, 1<<53, 1<<62, 1e22, 0.49999999999999994)
	case 4: // random in a moderate range
		f = (float64(t.Draw(0)>>11)/(1<<53) - 0.5) * pbt.Pick(t, 2.0, 20, 2000, 1e6)
	case 5:
		f = math.Inf(1)
	}
	if t.OneIn(3) {
		f = -f
	}
	if f != f {
		f = 1.5
	}
	return f
}

func drawF32(t *pbt.T) float32 {
	var f float32
	switch t.Weighted(4, 4, 3, 2, 2) {
	case 0:
		f = float32(int64(t.Draw(41))-20) / pbt.Pick(t, float32(1), 2, 4, 10)
	case 1:
		f = float32(math.Ldexp(1, int(t.Draw(26)))) + float32(t.Draw(5)) + pbt.Pick(t, float32(0), 0.5)
		switch t.Intn(3) {
		case 1:
			f = math.Nextafter32(f, float32(math.Inf(1)))
		case 2:
			f = math.Nextafter32(f, float32(math.Inf(-1)))
		}
	case 2:
		f = math.Float32frombits(uint32(t.Draw(1 << 32)))
	case 3:
		f = pbt.Pick(t, float32(0), math.SmallestNonzeroFloat32, math.MaxFloat32, 1, 1<<23, 1<<24, 0.49999997)
	case 4:
		f = (float32(t.Draw(1<<24))/(1<<24) - 0.5) * pbt.Pick(t, float32(2), 20, 2000)
	}
	if t.OneIn(3) {
		f = -f
	}
	if f != f {
		f = 1.5
	}
	return f
}

// refRound computes floor/ceil/trunc/round(half away) of a finite float with
// exact arithmetic, independently of package math's rounding functions.
func refRound(mode string, f float64) float64 {
	if math.IsInf(f, 0) || f == 0 || f != f {
		return f
	}
	x := new(big.Float).SetPrec(2200).SetFloat64(f)
	i, acc := x.Int(nil) // truncates toward zero
	exactInt := acc == big.Exact
	if !exactInt {
		switch mode {
		case "Floor":
			if f < 0 {
				i.Sub(i, one)
			}
		case "Ceil":
			if f > 0 {
				i.Add(i, one)
			}
		case "Round":
			fr := new(big.Float).SetPrec(2200).Sub(x, new(big.Float).SetPrec(2200).SetInt(i))
			if fr.Abs(fr).Cmp(big.NewFloat(0.5)) >= 0 {
				if f > 0 {
					i.Add(i, one)
				} else {
					i.Sub(i, one)
				}
			}
		}
	}
	r, _ := new(big.Float).SetPrec(2200).SetInt(i).Float64()
	return math.Copysign(r, f)
}

func sameF(a, b float64) bool {
	if a != a || b != b {
		return a != a && b != b
	}
	return math.Float64bits(a) == math.Float64bits(b)
}

// eqF ignores the sign of zero.
func eqF(a, b float64) bool { return sameF(a, b) || a == b }

// near reports whether got is within n units in the last place (of a float with
// the given number of mantissa bits and minimum exponent) of the reference.
func near(got, want float64, mant int, minExp int, n float64) bool {
	if eqF(got, want) {
		return true
	}
	if got != got || want != want {
		return false
	}
	maxv := math.MaxFloat64
	if mant == 24 {
		maxv = math.MaxFloat32
	}
	if math.IsInf(want, 0) || math.IsInf(got, 0) {
		// at the overflow threshold either is acceptable
		return math.Signbit(got) == math.Signbit(want) && math.Min(math.Abs(got), math.Abs(want)) >= maxv*0.99999
	}
	_, e := math.Frexp(want)
	ulp := math.Ldexp(1, max(e-mant, minExp))
	return math.Abs(got-want) <= n*ulp
}

var C09 = &pbt.Prop{
	ID:    "C09",
	Rule:  "one or two biased floats (halves, integers +-1 ulp, subnormals, extremes, arbitrary bits) through every function of F32 and F64, complex pairs; non-trivial = the value is not an integer, or is negative, or has magnitude above 2^24",
	Quick: 3000000, Thorough: 120000000,
	Assumptions: []string{"transcendental functions are compared with package math within a tolerance of a few ulp (growing with the exponent for Powi/Powf); the other operations are exact", "Frac of an infinity and the sign of a zero result are not asserted, except for rounding, Sqrt, arithmetic and powers of zero and infinity"},
	Run: func(t *pbt.T) {
		a, b := drawF64(t), drawF64(t)
		switch t.Intn(4) {
		case 0:
			b = a
		case 1:
			b = float64(int64(t.Draw(21)) - 10)
		}
		c, d := drawF32(t), drawF32(t)
		if t.OneIn(16) { // where functions have special values
			special := func() float64 {
				return pbt.Pick(t, 0.5, -0.5, 0, math.Copysign(0, -1), 1, -1, 2, -2, 3, -3, math.Inf(1), math.Inf(-1), math.NaN(), 1.0/3, 0.25, -0.25, 1.5, -1.5)
			}
			a, b, c, d = special(), special(), float32(special()), float32(special())
			t.Label("special values")
		}
		n := int(t.Draw(41)) - 20
		t.Logf("F64 a=%v b=%v F32 c=%v d=%v n=%d", a, b, c, d, n)
		if a != math.Trunc(a) || a < 0 || math.Abs(a) > 1<<24 {
			t.Nontrivial()
		}
		t.LabelIf(math.IsInf(a, 0), "infinite")
		t.LabelIf(a != math.Trunc(a), "fractional")
		t.LabelIf(math.Abs(a-math.Trunc(a)) == 0.5, "exact half")
		t.LabelIf(n < 0, "negative integer exponent")

		// exact arithmetic
		bin := func(name string, got, want float64) {
			if !sameF(got, want) {
				t.Failf("%s(a=%v b=%v c=%v d=%v) = %v, want %v", name, a, b, c, d, got, want)
			}
		}
		A, B, C, D := g.F64(a), g.F64(b), g.F32(c), g.F32(d)
		for _, op := range []string{"Add", "Sub", "Mul", "Div"} {
			x, y := A, C
			switch op {
			case "Add":
				bin("F64.Add", float64(A.Add(B)), a+b)
				bin("F32.Add", float64(C.Add(D)), float64(c+d))
				x.AddAssign(B)
				y.AddAssign(D)
				bin("F64.AddAssign", float64(x), a+b)
				bin("F32.AddAssign", float64(y), float64(c+d))
			case "Sub":
				bin("F64.Sub", float64(A.Sub(B)), a-b)
				bin("F32.Sub", float64(C.Sub(D)), float64(c-d))
				x.SubAssign(B)
				y.SubAssign(D)
				bin("F64.SubAssign", float64(x), a-b)
				bin("F32.SubAssign", float64(y), float64(c-d))
			case "Mul":
				bin("F64.Mul", float64(A.Mul(B)), a*b)
				bin("F32.Mul", float64(C.Mul(D)), float64(c*d))
				x.MulAssign(B)
				y.MulAssign(D)
				bin("F64.MulAssign", float64(x), a*b)
				bin("F32.MulAssign", float64(y), float64(c*d))
			case "Div":
				bin("F64.Div", float64(A.Div(B)), a/b)
				bin("F32.Div", float64(C.Div(D)), float64(c/d))
				x.DivAssign(B)
				y.DivAssign(D)
				bin("F64.DivAssign", float64(x), a/b)
				bin("F32.DivAssign", float64(y), float64(c/d))
			}
		}
		// rounding
		rnd := func(mode string, got64 g.F64, got32 g.F32) {
			if w := refRound(mode, a); !sameF(float64(got64), w) {
				t.Failf("F64(%v).%s() = %v, want %v", a, mode, got64, w)
			}
			if w := float64(float32(refRound(mode, float64(c)))); !sameF(float64(got32), w) {
				t.Failf("F32(%v).%s() = %v, want %v", c, mode, got32, w)
			}
		}
		rnd("Floor", A.Floor(), C.Floor())
		rnd("Ceil", A.Ceil(), C.Ceil())
		rnd("Trunc", A.Trunc(), C.Trunc())
		rnd("Round", A.Round(), C.Round())
		if a != a {
			bin("F64.Frac", float64(A.Frac()), a)
		} else if !math.IsInf(a, 0) {
			if fr := float64(A.Frac()); math.Abs(fr) >= 1 || (fr != 0 && math.Signbit(fr) != math.Signbit(a)) || refRound("Trunc", a)+fr != a {
				t.Failf("F64(%v).Frac() = %v", a, fr)
			}
		}
		if c != c {
			bin("F32.Frac", float64(C.Frac()), float64(c))
		} else if !math.IsInf(float64(c), 0) {
			if fr := float32(C.Frac()); math.Abs(float64(fr)) >= 1 || (fr != 0 && math.Signbit(float64(fr)) != math.Signbit(float64(c))) || float32(refRound("Trunc", float64(c)))+fr != c {
				t.Failf("F32(%v).Frac() = %v", c, fr)
			}
		}
		// square root
		if s := float64(A.Sqrt()); !sameF(s, refSqrt(a)) {
			t.Failf("F64(%v).Sqrt() = %v, want %v", a, s, refSqrt(a))
		}
		if s := float64(C.Sqrt()); !sameF(s, float64(float32(math.Sqrt(float64(c))))) {
			t.Failf("F32(%v).Sqrt() = %v", c, s)
		}
		// transcendental
		tr := func(name string, got64 g.F64, w64 float64, got32 g.F32, w32 float64, tol float64) {
			if !near(float64(got64), w64, 53, -1074, tol) {
				t.Failf("F64 %s(a=%v b=%v n=%d) = %v, want %v", name, a, b, n, got64, w64)
			}
			// the reference itself rounded to float32
			if !near(float64(got32), float64(float32(w32)), 24, -149, tol) {
				t.Failf("F32 %s(c=%v d=%v n=%d) = %v, want %v", name, c, d, n, got32, float32(w32))
			}
		}
		f64 := float64(c)
		tr("Exp", A.Exp(), math.Exp(a), C.Exp(), math.Exp(f64), 4)
		tr("Exp2", A.Exp2(), math.Exp2(a), C.Exp2(), math.Exp2(f64), 4)
		tr("Ln", A.Ln(), math.Log(a), C.Ln(), math.Log(f64), 4)
		tr("Log2", A.Log2(), math.Log2(a), C.Log2(), math.Log2(f64), 4)
		tr("Log10", A.Log10(), math.Log10(a), C.Log10(), math.Log10(f64), 4)
		if b > 0 && b != 1 && math.Abs(b-1) > 1e-3 && d > 0 && math.Abs(float64(d)-1) > 1e-3 {
			tr("Log", A.Log(B), math.Log(a)/math.Log(b), C.Log(D), math.Log(f64)/math.Log(float64(d)), 8)
			t.Label("Log checked")
		}
		tr("Powi", A.Powi(n), math.Pow(a, float64(n)), C.Powi(n), math.Pow(f64, float64(n)), 40)
		// a power of zero or of an infinity is a zero or an infinity of a definite sign
		exact := func(x float64) bool { return x == 0 || math.IsInf(x, 0) }
		if exact(a) {
			bin("F64.Powf", float64(A.Powf(B)), math.Pow(a, b))
			bin("F64.Powi by "+strconv.Itoa(n), float64(A.Powi(n)), math.Pow(a, float64(n)))
		}
		if exact(f64) {
			bin("F32.Powf", float64(C.Powf(D)), float64(float32(math.Pow(f64, float64(d)))))
			bin("F32.Powi by "+strconv.Itoa(n), float64(C.Powi(n)), float64(float32(math.Pow(f64, float64(n)))))
		}
		tr("Powf", A.Powf(B), math.Pow(a, b), C.Powf(D), math.Pow(f64, float64(d)), 8)

		// complex
		z, w := complex(a, b), complex(drawF64(t), drawF64(t))
		zz, ww := complex(c, d), complex(drawF32(t), drawF32(t))
		cplx(t, z, w)
		cplx32(t, zz, ww)
	},
}

func refSqrt(x float64) float64 { return math.Sqrt(x) }

func sameC(a, b complex128) bool { return sameF(real(a), real(b)) && sameF(imag(a), imag(b)) }

func cplx(t *pbt.T, z, w complex128) {
	Z, W := g.Complex128(z), g.Complex128(w)
	chk := func(op string, got g.Complex128, want complex128) {
		if !sameC(complex128(got), want) {
			t.Failf("Complex128(%v).%s(%v) = %v, want %v", z, op, w, got, want)
		}
	}
	chk("Add", Z.Add(W), z+w)
	chk("Sub", Z.Sub(W), z-w)
	chk("Mul", Z.Mul(W), z*w)
	chk("Div", Z.Div(W), z/w)
	x := Z
	x.AddAssign(W)
	chk("AddAssign", x, z+w)
	x = Z
	x.SubAssign(W)
	chk("SubAssign", x, z-w)
	x = Z
	x.MulAssign(W)
	chk("MulAssign", x, z*w)
	x = Z
	x.DivAssign(W)
	chk("DivAssign", x, z/w)
}

func cplx32(t *pbt.T, z, w complex64) {
	Z, W := g.Complex64(z), g.Complex64(w)
	chk := func(op string, got g.Complex64, want complex64) {
		if !sameC(complex128(got), complex128(want)) {
			t.Failf("Complex64(%v).%s(%v) = %v, want %v", z, op, w, got, want)
		}
	}
	chk("Add", Z.Add(W), z+w)
	chk("Sub", Z.Sub(W), z-w)
	chk("Mul", Z.Mul(W), z*w)
	chk("Div", Z.Div(W), z/w)
	x := Z
	x.AddAssign(W)
	chk("AddAssign", x, z+w)
	x = Z
	x.SubAssign(W)
	chk("SubAssign", x, z-w)
	x = Z
	x.MulAssign(W)
	chk("MulAssign", x, z*w)
	x = Z
	x.DivAssign(W)
	chk("DivAssign", x, z/w)
}

var C37 = &pbt.Prop{
	ID:    "C37",
	Rule:  "boundary-biased seconds/nanoseconds and unit counts through every constructor and accessor; non-trivial = the count is not a whole number of seconds or nanoseconds carry over",
	Quick: 2000000, Thorough: 80000000,
	Run: func(t *pbt.T) {
		var d g.Duration
		var want *big.Int // nanoseconds
		kind := t.Intn(5)
		a := t.Bits(64)
		var nanos uint32
		units := []uint64{1, 1000, 1000000, 1000000000}
		switch t.Intn(4) {
		case 0: // near multiples of the units
			u := units[t.Intn(4)]
			a = t.Draw(1<<20)*u + t.Draw(5) - 2
		case 1: // near the end of the range, around unit multiples
			u := units[t.Intn(4)]
			a = (^uint64(0)/u)*u + t.Draw(5) - 2
		}
		name := ""
		overflow := false
		e9 := big.NewInt(1000000000)
		A := new(big.Int).SetUint64(a)
		mk := func(f func()) {
			p, v := pbt.Catch(f)
			if p != overflow {
				t.Failf("%s: panicked=%v (%v), want panic=%v", name, p, v, overflow)
			}
		}
		switch kind {
		case 0:
			nanos = uint32(t.Bits(32))
			switch t.Intn(3) {
			case 0:
				nanos = uint32(1000000000*t.Draw(5) + t.Draw(5) - 2)
			case 1:
				nanos = uint32(t.Draw(1000000000))
			}
			name = fmt.Sprintf("DurationNew(%d, %d)", a, nanos)
			want = new(big.Int).Mul(A, e9)
			want.Add(want, big.NewInt(int64(nanos)))
			overflow = !inRange(new(big.Int).Quo(want, e9), 64, false)
			mk(func() { d = g.DurationNew(g.U64(a), g.U32(nanos)) })
			t.LabelIf(nanos >= 1000000000, "nanoseconds carry")
			t.LabelIf(overflow, "seconds overflow")
		case 1:
			name = fmt.Sprintf("DurationFromSecs(%d)", a)
			want = new(big.Int).Mul(A, e9)
			mk(func() { d = g.DurationFromSecs(g.U64(a)) })
		case 2:
			name = fmt.Sprintf("DurationFromMillis(%d)", a)
			want = new(big.Int).Mul(A, big.NewInt(1000000))
			mk(func() { d = g.DurationFromMillis(g.U64(a)) })
		case 3:
			name = fmt.Sprintf("DurationFromMicros(%d)", a)
			want = new(big.Int).Mul(A, big.NewInt(1000))
			mk(func() { d = g.DurationFromMicros(g.U64(a)) })
		case 4:
			name = fmt.Sprintf("DurationFromNanos(%d)", a)
			want = A
			mk(func() { d = g.DurationFromNanos(g.U64(a)) })
		}
		t.Logf("%s = %v ns", name, want)
		t.Label(name[:indexByte(name, '(')])
		if new(big.Int).Rem(want, e9).Sign() != 0 || nanos >= 1000000000 {
			t.Nontrivial()
		}
		if overflow {
			return
		}
		q := func(div int64) *big.Int { return new(big.Int).Quo(want, big.NewInt(div)) }
		sub := new(big.Int).Rem(want, e9).Int64()
		chk := func(what string, got, w any) {
			if fmt.Sprint(got) != fmt.Sprint(w) {
				t.Failf("%s.%s = %v, want %v", name, what, got, w)
			}
		}
		chk("AsSecs()", uint64(d.AsSecs()), q(1000000000))
		chk("AsMillis()", d.AsMillis().ToString(), q(1000000))
		chk("AsMicros()", d.AsMicros().ToString(), q(1000))
		chk("AsNanos()", d.AsNanos().ToString(), want)
		chk("SubsecNanos()", uint32(d.SubsecNanos()), sub)
		chk("SubsecMicros()", uint32(d.SubsecMicros()), sub/1000)
		chk("SubsecMillis()", uint32(d.SubsecMillis()), sub/1000000)
		chk("IsZero()", bool(d.IsZero()), want.Sign() == 0)
	},
}

func indexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return len(s)
}
