package num

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	g "github.com/myyrakle/gost"
	"verif/harness/pbt"
)

var C05 = &pbt.Prop{
	ID:    "C05",
	Rule:  "value pairs as C02 (same enumeration) plus 128-bit values and floats; non-trivial = a negative value, or a difference beyond the signed range, or a value beyond 64 bits",
	EnumN: enumFullN, Enum: func(i int) []uint64 { return append([]uint64{0}, enumFullF(i)...) }, Quick: 3000000, Thorough: 120000000,
	Run: func(t *pbt.T) {
		switch t.Weighted(8, 3, 1) {
		case 1:
			r := draw128(t)
			x := r.big(true)
			t.Logf("I128 %v", x)
			t.Label("type I128")
			if x.Sign() < 0 || x.BitLen() > 64 {
				t.Nontrivial()
			}
			if !built128(t, true, r) {
				t.Label("not constructible (see C04)")
				return
			}
			a := mkI128(r)
			if got := bool(a.IsPositive()); got != (x.Sign() > 0) {
				t.Failf("I128(%v).IsPositive() = %v", x, got)
			}
			if got := bool(a.IsNegative()); got != (x.Sign() < 0) {
				t.Failf("I128(%v).IsNegative() = %v", x, got)
			}
			if got, w := string(a.Neg().ToString()), wrapBig(new(big.Int).Neg(x), 128, true).String(); got != w {
				t.Failf("I128(%v).Neg() = %v, want %v", x, got, w)
			}
			if inRange(new(big.Int).Neg(x), 128, true) {
				if got, w := string(a.Abs().ToString()), new(big.Int).Abs(x).String(); got != w {
					t.Failf("I128(%v).Abs() = %v, want %v", x, got, w)
				}
			}
			return
		case 2:
			f := drawF64(t)
			f32 := drawF32(t)
			t.Logf("F64 %v F32 %v", f, f32)
			t.Label("type float")
			if f < 0 {
				t.Nontrivial()
			}
			if t.OneIn(50) {
				if got, got32 := g.F64(math.NaN()).Abs(), g.F32(math.NaN()).Abs(); got == got || got32 == got32 {
					t.Failf("the absolute value of NaN is %v, %v", got, got32)
				}
			}
			if got := float64(g.F64(f).Abs()); math.Float64bits(got) != math.Float64bits(math.Abs(f)) && f == f {
				t.Failf("F64(%v).Abs() = %v", f, got)
			}
			if got := float32(g.F32(f32).Abs()); math.Float32bits(got) != math.Float32bits(f32)&^(1<<31) && f32 == f32 {
				t.Failf("F32(%v).Abs() = %v", f32, got)
			}
			return
		}
		d, a, b := pair(t, fullTypes)
		x, y := sp(d, a, b)
		t.Logf("%s a=%v b=%v", d.name, x, y)
		t.Label("type " + d.name)
		diff := new(big.Int).Sub(x, y)
		diff.Abs(diff)
		if x.Sign() < 0 || diff.BitLen() >= d.bits {
			t.Nontrivial()
		}
		var got *big.Int
		t.NoPanic("AbsDiff", func() { got = d.absdiff(a, b) })
		if got.Cmp(diff) != 0 {
			t.Failf("%s(%v).AbsDiff(%v) = %v, want %v", d.name, x, y, got, diff)
		}
		t.NoPanic("AbsDiff", func() { got = d.absdiff(b, a) })
		if got.Cmp(diff) != 0 {
			t.Failf("%s(%v).AbsDiff(%v) = %v, want %v", d.name, y, x, got, diff)
		}
		if p, ok := d.pos(a); ok {
			if p != (x.Sign() > 0) {
				t.Failf("%s(%v).IsPositive() = %v", d.name, x, p)
			}
		} else if d.signed {
			t.Failf("%s has no IsPositive", d.name)
		}
		if n, ok := d.ngv(a); ok {
			if n != (x.Sign() < 0) {
				t.Failf("%s(%v).IsNegative() = %v", d.name, x, n)
			}
		} else if d.signed {
			t.Failf("%s has no IsNegative", d.name)
		}
		if n, ok := d.neg(a); ok {
			if w := d.wrap(new(big.Int).Neg(x)); d.big(n).Cmp(w) != 0 {
				t.Failf("%s(%v).Neg() = %v, want %v", d.name, x, d.big(n), w)
			}
		} else if d.signed {
			t.Failf("%s does not implement Neg", d.name)
		}
		if n, ok := d.abs(a); ok {
			if w := new(big.Int).Abs(x); d.fits(w) && d.big(n).Cmp(w) != 0 {
				t.Failf("%s(%v).Abs() = %v, want %v", d.name, x, d.big(n), w)
			}
		} else if d.signed {
			t.Failf("%s has no Abs", d.name)
		}
	},
}

var C06 = &pbt.Prop{
	ID:    "C06",
	Rule:  "(type, value, amount >= 0): all 2x256x256 8-bit cases with a representable amount enumerated, then boundary-biased values of every width up to 128 bits, one amount in five at or above the width; non-trivial = amount > 0 and bits are shifted out or cross the middle, or the value is negative",
	EnumN: 256*128 + 256*256, Enum: func(i int) []uint64 {
		if i < 256*128 { // I8, amounts 0..127
			return []uint64{0, 0, 0, uint64(i >> 7), 1, uint64(i & 127)}
		}
		i -= 256 * 128
		return []uint64{0, 0, 1, uint64(i >> 8), 1, uint64(i & 255)}
	},
	Quick: 2000000, Thorough: 80000000,
	Run: func(t *pbt.T) {
		var x *big.Int
		var name string
		var n uint64
		var shl, shr *big.Int
		var bits int
		signed := true
		if t.Weighted(2, 1) == 0 {
			var d *iv
			var a uint64
			if t.Draw(2) == 0 {
				d = fullTypes[t.Intn(2)]
				a = t.Draw(256)
			} else {
				d = fullTypes[t.Intn(len(fullTypes))]
				a = t.Bits(d.bits)
			}
			amounts := uint64(1) << (d.bits - 1) // the non-negative values of the type
			if !d.signed {
				amounts *= 2
			}
			switch {
			case !t.OneIn(5):
				n = uint64(t.Intn(d.bits))
			default:
				n = t.Draw(amounts)
				if n > 255 && t.Bool() {
					n = pbt.Pick(t, uint64(d.bits), uint64(d.bits)+1, 64, 65, 127, 128, amounts-1, 1<<32) % (amounts - 1)
				}
			}
			x = d.big(a)
			name, bits, signed = d.name, d.bits, d.signed
			t.NoPanic(name+".Shl/Shr", func() {
				shl = d.big(d.shl(a, n))
				shr = d.big(d.shr(a, n))
			})
		} else {
			signed = t.Bool()
			r := draw128(t)
			n = uint64(t.Intn(128))
			if t.OneIn(5) {
				n = pbt.Pick(t, uint64(0), 1, 63, 64, 65, 127)
			}
			if t.OneIn(8) {
				n = pbt.Pick(t, uint64(128), 129, 191, 192, 255, 256, 1<<31, 1<<63, 1<<64-1, t.Bits(64))
			}
			x, bits = r.big(signed), 128
			if !built128(t, signed, r) {
				t.Label("not constructible (see C04)")
				return
			}
			if signed {
				name = "I128"
				shl = parse(t, name, mkI128(r).Shl(g.I128_FromU64(g.U64(n))).ToString())
				shr = parse(t, name, mkI128(r).Shr(g.I128_FromU64(g.U64(n))).ToString())
			} else {
				name = "U128"
				shl = parse(t, name, mkU128(r).Shl(g.U128_FromU64(g.U64(n))).ToString())
				shr = parse(t, name, mkU128(r).Shr(g.U128_FromU64(g.U64(n))).ToString())
			}
		}
		t.Logf("%s value=%v amount=%d", name, x, n)
		t.Label("type " + name)
		t.LabelIf(n >= 64 && n < uint64(bits), "amount 64..127")
		t.LabelIf(n >= uint64(bits), "amount >= width")
		if n > 0 && (x.Sign() < 0 || n > uint64(bits) || x.BitLen()+int(n) > bits || x.BitLen() > 1) {
			t.Nontrivial()
		}
		k := uint(min(n, 256)) // beyond that nothing changes
		if w := wrapBig(new(big.Int).Lsh(x, k), bits, signed); shl.Cmp(w) != 0 {
			t.Failf("%s(%v).Shl(%d) = %v, want %v", name, x, n, shl, w)
		}
		if w := new(big.Int).Rsh(x, k); shr.Cmp(w) != 0 {
			t.Failf("%s(%v).Shr(%d) = %v, want %v", name, x, n, shr, w)
		}
	},
}

// numText draws a text near the decimal integers: mostly well formed.
func numText(t *pbt.T) string {
	switch t.Weighted(6, 4, 3, 2, 2) {
	case 0: // any integer up to 70 bits either side, sometimes with '+' or zeros
		x := new(big.Int).SetUint64(t.Bits(64))
		if t.OneIn(3) {
			x.Lsh(x, uint(t.Draw(8)))
		}
		if t.Bool() {
			x.Neg(x)
		}
		s := x.String()
		if t.OneIn(5) && x.Sign() >= 0 {
			s = "+" + s
		}
		if t.OneIn(6) {
			neg := strings.HasPrefix(s, "-")
			s = strings.TrimPrefix(s, "-")
			if !strings.HasPrefix(s, "+") {
				s = strings.Repeat("0", t.Intn(25)) + s
			}
			if neg {
				s = "-" + s
			}
		}
		return s
	case 1: // around the limits of I64/U64
		base := pbt.Pick(t, "9223372036854775807", "-9223372036854775808", "18446744073709551615", "0")
		x, _ := new(big.Int).SetString(base, 10)
		x.Add(x, big.NewInt(int64(t.Draw(7))-3))
		return x.String()
	case 2: // one defect
		s := strconv.FormatInt(int64(t.Bits(64)), 10)
		i := t.Intn(len(s) + 1)
		return s[:i] + pbt.Pick(t, " ", "_", "-", "+", ".", "x", "e", "\u0663", "\n", "0x", ",", "\x00") + s[i:]
	case 3:
		return pbt.Pick(t, "", "-", "+", "--1", "+-1", "0x10", "1e3", "1_000", " 1", "1 ", "NaN", "abc", "-0", "+0", "007", "0b1", "１")
	default:
		n := t.Intn(30)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteByte("0123456789+-. "[t.Intn(14)])
		}
		return sb.String()
	}
}

// decimal is an independent reader of optionally signed decimal integers.
func decimal(s string) (*big.Int, bool) {
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return nil, false
	}
	x := new(big.Int)
	ten := big.NewInt(10)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
		x.Mul(x, ten)
		x.Add(x, big.NewInt(int64(s[i]-'0')))
	}
	if neg {
		x.Neg(x)
	}
	return x, true
}

func checkParsers(t *pbt.T, s string) {
	x, ok := decimal(s)
	var ri g.Result[g.I64]
	var ru g.Result[g.U64]
	t.NoPanic("ParseI64", func() { ri = g.String(s).ParseI64() })
	t.NoPanic("ParseU64", func() { ru = g.String(s).ParseU64() })
	wantI := ok && inRange(x, 64, true)
	wantU := ok && inRange(x, 64, false)
	if ok && x.Sign() == 0 && strings.HasPrefix(s, "-") {
		// "-0" as an unsigned number: either answer is acceptable, but not a wrong number
		if bool(ru.IsOk()) && ru.Unwrap() != 0 {
			t.Failf("ParseU64(%q) = %v", s, ru.Unwrap())
		}
	} else if bool(ru.IsOk()) != wantU {
		t.Failf("ParseU64(%q): Ok=%v, want Ok=%v", s, ru.IsOk(), wantU)
	} else if wantU && uint64(ru.Unwrap()) != x.Uint64() {
		t.Failf("ParseU64(%q) = %v, want %v", s, ru.Unwrap(), x)
	}
	if bool(ri.IsOk()) != wantI {
		t.Failf("ParseI64(%q): Ok=%v, want Ok=%v", s, ri.IsOk(), wantI)
	} else if wantI && int64(ri.Unwrap()) != x.Int64() {
		t.Failf("ParseI64(%q) = %v, want %v", s, ri.Unwrap(), x)
	}
	if bool(ri.IsOk()) == bool(ri.IsErr()) || bool(ru.IsOk()) == bool(ru.IsErr()) {
		t.Failf("parse of %q is neither or both Ok and Err", s)
	}
}

var C07 = &pbt.Prop{
	ID:    "C07",
	Rule:  "values of every numeric type (all 8-bit values and all I16/U16 values enumerated) rendered and parsed back, plus generated number-like texts; non-trivial = more than one digit, or a text that must be rejected",
	EnumN: 3*256 + 2*65536, Enum: func(i int) []uint64 {
		if i < 768 {
			return []uint64{0, uint64(i / 256), uint64(i % 256)}
		}
		i -= 768
		return []uint64{0, 3 + uint64(i/65536), uint64(i % 65536)}
	},
	Quick: 2000000, Thorough: 80000000,
	Run: func(t *pbt.T) {
		switch t.Weighted(3, 4, 3, 3, 4, 1) {
		case 0: // enumerated small types
			d := []*iv{byName("I8"), byName("U8"), byName("Byte"), byName("I16"), byName("U16")}[t.Intn(5)]
			a := t.Draw(1 << 16)
			intText(t, d, a)
		case 1:
			d := allTypes[t.Intn(len(allTypes))]
			intText(t, d, t.Bits(d.bits))
		case 2:
			signed := t.Bool()
			r := draw128(t)
			x := r.big(signed)
			t.Logf("128-bit signed=%v %v", signed, x)
			t.Label("128-bit")
			if x.BitLen() > 4 {
				t.Nontrivial()
			}
			// the value is pinned independently of ToString by Cmp against its neighbours
			var s, dsp, dbg, nm string
			if signed {
				v := mkI128(r)
				s, dsp, dbg, nm = string(v.ToString()), string(v.Display()), string(v.Debug()), "I128"
			} else {
				v := mkU128(r)
				s, dsp, dbg, nm = string(v.ToString()), string(v.Display()), string(v.Debug()), "U128"
			}
			if s != x.String() || dsp != s || dbg != nm+"("+s+")" {
				t.Failf("%s value %v renders as ToString %q, Display %q, Debug %q", nm, x, s, dsp, dbg)
			}
		case 3:
			f := drawF64(t)
			f32 := drawF32(t)
			t.Logf("F64 %v F32 %v", f, f32)
			t.Label("float")
			t.Nontrivial()
			if t.OneIn(50) {
				s, s32 := string(g.F64(math.NaN()).ToString()), string(g.F32(math.NaN()).ToString())
				p, err := strconv.ParseFloat(s, 64)
				p32, err32 := strconv.ParseFloat(s32, 32)
				if err != nil || err32 != nil || p == p || p32 == p32 {
					t.Failf("NaN renders as %q, %q", s, s32)
				}
				if r := g.String(s).ParseF64(); !bool(r.IsOk()) || r.Unwrap() == r.Unwrap() {
					t.Failf("ParseF64(%q) does not give back NaN", s)
				}
			}
			s := string(g.F64(f).ToString())
			p, err := strconv.ParseFloat(s, 64)
			if err != nil || math.Float64bits(p) != math.Float64bits(f) {
				t.Failf("F64 %v (bits %x) renders as %q which reads back as %v", f, math.Float64bits(f), s, p)
			}
			if r := g.String(s).ParseF64(); !bool(r.IsOk()) || math.Float64bits(float64(r.Unwrap())) != math.Float64bits(f) {
				t.Failf("ParseF64(%q) does not give back %v", s, f)
			}
			if d := string(g.F64(f).Display()); d != s {
				t.Failf("F64 Display %q differs from ToString %q", d, s)
			}
			if d := string(g.F64(f).Debug()); d != "F64("+s+")" {
				t.Failf("F64 Debug %q", d)
			}
			s = string(g.F32(f32).ToString())
			p, err = strconv.ParseFloat(s, 32)
			if err != nil || math.Float32bits(float32(p)) != math.Float32bits(f32) {
				t.Failf("F32 %v renders as %q which reads back as %v", f32, s, p)
			}
			if d := string(g.F32(f32).Display()); d != s {
				t.Failf("F32 Display %q differs from ToString %q", d, s)
			}
			if d := string(g.F32(f32).Debug()); d != "F32("+s+")" {
				t.Failf("F32 Debug %q", d)
			}
		case 4:
			s := numText(t)
			t.Logf("text %q", s)
			x, ok := decimal(s)
			t.LabelIf(!ok, "text malformed")
			t.LabelIf(ok && !inRange(x, 64, true) && !inRange(x, 64, false), "text out of range")
			t.LabelIf(ok && x.Sign() < 0, "text negative")
			if len(s) > 1 || !ok {
				t.Nontrivial()
			}
			checkParsers(t, s)
			if fs := string(g.String(s)); true {
				_, err := strconv.ParseFloat(fs, 64)
				r := g.String(s).ParseF64()
				if ok && !bool(r.IsOk()) && err == nil {
					t.Failf("ParseF64(%q) is Err for a decimal integer", s)
				}
				if bool(r.IsOk()) {
					if err != nil {
						t.Failf("ParseF64(%q) = Ok(%v) but the text is not a number (%v)", s, r.Unwrap(), err)
					}
				}
			}
		case 5:
			b := t.Bool()
			re, im := drawF64(t), drawF64(t)
			t.Label("bool/complex")
			w := fmt.Sprint(b)
			v := g.Bool(b)
			if string(v.ToString()) != w || string(v.Display()) != w || string(v.Debug()) != "Bool("+w+")" {
				t.Failf("Bool %v renders as %q %q %q", b, v.ToString(), v.Display(), v.Debug())
			}
			c := g.Complex128(complex(re, im))
			p, err := strconv.ParseComplex(string(c.ToString()), 128)
			if err != nil || real(p) != re || imag(p) != im {
				t.Failf("Complex128 %v renders as %q", c, c.ToString())
			}
			if c.Display() != c.ToString() || string(c.Debug()) != "Complex128("+string(c.ToString())+")" {
				t.Failf("Complex128 Display/Debug %q %q", c.Display(), c.Debug())
			}
			c64 := g.Complex64(complex(drawF32(t), drawF32(t)))
			p, err = strconv.ParseComplex(string(c64.ToString()), 64)
			if err != nil || complex64(p) != complex64(c64) {
				t.Failf("Complex64 %v renders as %q", c64, c64.ToString())
			}
			if c64.Display() != c64.ToString() || string(c64.Debug()) != "Complex64("+string(c64.ToString())+")" {
				t.Failf("Complex64 Display/Debug %q %q", c64.Display(), c64.Debug())
			}
		}
	},
}

func byName(n string) *iv {
	for _, d := range allTypes {
		if d.name == n {
			return d
		}
	}
	panic(n)
}

func intText(t *pbt.T, d *iv, a uint64) {
	x := d.big(a)
	t.Logf("%s %v", d.name, x)
	t.Label("type " + d.name)
	w := x.String()
	if len(w) > 1 {
		t.Nontrivial()
	}
	if s := d.str(a); s != w {
		t.Failf("%s value %v: ToString %q", d.name, w, s)
	}
	if s := d.disp(a); s != w {
		t.Failf("%s value %v: Display %q", d.name, w, s)
	}
	if s := d.dbg(a); s != d.name+"("+w+")" {
		t.Failf("%s value %v: Debug %q", d.name, w, s)
	}
	checkParsers(t, d.str(a))
}

func ordOf(c int) int {
	switch {
	case c < 0:
		return -1
	case c > 0:
		return 1
	}
	return 0
}

type ordered[T any] interface {
	Cmp(T) g.Ordering
	Eq(T) g.Bool
}

// triple checks Cmp and Eq over all pairs of three values against cmp.
func triple[T ordered[T]](t *pbt.T, name string, v [3]T, cmp func(i, j int) int, show func(i int) string) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			w := ordOf(cmp(i, j))
			got := int(v[i].Cmp(v[j]))
			if got != w {
				t.Failf("%s: %s.Cmp(%s) = %d, want %d", name, show(i), show(j), got, w)
			}
			if e := bool(v[i].Eq(v[j])); e != (w == 0) {
				t.Failf("%s: %s.Eq(%s) = %v", name, show(i), show(j), e)
			}
		}
	}
}

func drawStr(t *pbt.T) string {
	n := t.Intn(6)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(pbt.Pick(t, "a", "b", "aa", "B", "é", "\u0100", "😀", "\x00", "~", "z"))
	}
	return sb.String()
}

var C08 = &pbt.Prop{
	ID:    "C08",
	Rule:  "triples of values of one comparable type, near-equal favoured, all 9 ordered pairs compared; non-trivial = the three values are not all equal",
	Quick: 3000000, Thorough: 120000000,
	Assumptions: []string{"NaN is outside the property"},
	Run: func(t *pbt.T) {
		switch t.Weighted(6, 3, 3, 2, 2, 3) {
		case 0:
			d := allTypes[t.Intn(len(allTypes))]
			var r [3]uint64
			var x [3]*big.Int
			r[0] = t.Bits(d.bits)
			r[1], r[2] = related(t, r[0], d), related(t, r[0], d)
			if t.OneIn(4) {
				for i := range r {
					r[i] = pbt.Pick(t, d.specials()...)
				}
			}
			for i := range r {
				x[i] = d.big(r[i])
			}
			t.Logf("%s %v", d.name, x)
			t.Label("type " + d.name)
			if x[0].Cmp(x[1]) != 0 || x[0].Cmp(x[2]) != 0 {
				t.Nontrivial()
			}
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					w := x[i].Cmp(x[j])
					if got := d.cmp(r[i], r[j]); got != w {
						t.Failf("%s(%v).Cmp(%v) = %d, want %d", d.name, x[i], x[j], got, w)
					}
					if got := d.eq(r[i], r[j]); got != (w == 0) {
						t.Failf("%s(%v).Eq(%v) = %v", d.name, x[i], x[j], got)
					}
				}
			}
		case 1:
			signed := t.Bool()
			var r [3]raw128
			r[0] = draw128(t)
			for i := 1; i < 3; i++ {
				switch t.Intn(4) {
				case 0:
					r[i] = draw128Related(t, r[0])
				case 1:
					r[i] = raw128{r[0].hi, half(t)}
				case 2:
					r[i] = raw128{half(t), r[0].lo}
				default:
					r[i] = raw128{r[0].lo, r[0].hi}
				}
			}
			var x [3]*big.Int
			for i := range r {
				x[i] = r[i].big(signed)
				if !built128(t, signed, r[i]) {
					t.Label("not constructible (see C04)")
					return
				}
			}
			t.Logf("128-bit signed=%v %v", signed, x)
			t.Label("128-bit")
			t.Nontrivial()
			cmp := func(i, j int) int { return x[i].Cmp(x[j]) }
			show := func(i int) string { return x[i].String() }
			if signed {
				triple(t, "I128", [3]g.I128{mkI128(r[0]), mkI128(r[1]), mkI128(r[2])}, cmp, show)
			} else {
				triple(t, "U128", [3]g.U128{mkU128(r[0]), mkU128(r[1]), mkU128(r[2])}, cmp, show)
			}
		case 2:
			var f [3]float64
			var h [3]float32
			f[0] = drawF64(t)
			h[0] = drawF32(t)
			for i := 1; i < 3; i++ {
				switch t.Intn(4) {
				case 0:
					f[i], h[i] = f[0], h[0]
				case 1:
					f[i], h[i] = math.Nextafter(f[0], math.Inf(1)), math.Nextafter32(h[0], float32(math.Inf(-1)))
				case 2:
					f[i], h[i] = -f[0], -h[0]
				default:
					f[i], h[i] = drawF64(t), drawF32(t)
				}
			}
			t.Logf("F64 %v F32 %v", f, h)
			t.Label("float")
			t.Nontrivial()
			// the order of floats through their exact values
			ex := func(x, y float64) int {
				switch {
				case math.IsInf(x, 0) || math.IsInf(y, 0):
					if x == y {
						return 0
					}
					if math.IsInf(x, -1) || math.IsInf(y, 1) {
						return -1
					}
					return 1
				}
				return new(big.Float).SetFloat64(x).Cmp(new(big.Float).SetFloat64(y))
			}
			triple(t, "F64", [3]g.F64{g.F64(f[0]), g.F64(f[1]), g.F64(f[2])}, func(i, j int) int { return ex(f[i], f[j]) }, func(i int) string { return fmt.Sprint(f[i]) })
			triple(t, "F32", [3]g.F32{g.F32(h[0]), g.F32(h[1]), g.F32(h[2])}, func(i, j int) int { return ex(float64(h[i]), float64(h[j])) }, func(i int) string { return fmt.Sprint(h[i]) })
		case 3:
			var s [3]string
			s[0] = drawStr(t)
			for i := 1; i < 3; i++ {
				switch t.Intn(3) {
				case 0:
					s[i] = drawStr(t)
				case 1:
					s[i] = s[0] + drawStr(t)
				default:
					s[i] = s[0][:t.Intn(len(s[0])+1)]
				}
			}
			t.Logf("String %q", s)
			t.Label("String")
			t.Nontrivial()
			lex := func(i, j int) int { // bytewise lexicographic
				a, b := s[i], s[j]
				for k := 0; k < len(a) && k < len(b); k++ {
					if a[k] != b[k] {
						return int(a[k]) - int(b[k])
					}
				}
				return len(a) - len(b)
			}
			triple(t, "String", [3]g.String{g.String(s[0]), g.String(s[1]), g.String(s[2])}, lex, func(i int) string { return fmt.Sprintf("%q", s[i]) })
		case 4:
			var b [3]bool
			var n [3]int
			for i := range b {
				b[i] = t.Bool()
				if b[i] {
					n[i] = 1
				}
			}
			t.Logf("Bool %v", b)
			t.Label("Bool")
			if n[0] != n[1] || n[1] != n[2] {
				t.Nontrivial()
			}
			triple(t, "Bool", [3]g.Bool{g.Bool(b[0]), g.Bool(b[1]), g.Bool(b[2])}, func(i, j int) int { return n[i] - n[j] }, func(i int) string { return fmt.Sprint(b[i]) })
		case 5:
			var k [3]int
			var s [3]string
			var v [3]g.Pair[g.I32, g.String]
			for i := range k {
				k[i] = t.Intn(3)
				s[i] = drawStr(t)
				if i > 0 && t.Bool() {
					s[i] = s[0]
				}
				v[i] = g.Pair[g.I32, g.String]{Key: g.I32(k[i]), Value: g.String(s[i])}
			}
			t.Logf("Pair keys %v values %q", k, s)
			t.Label("Pair")
			t.Nontrivial()
			triple(t, "Pair", v, func(i, j int) int {
				if k[i] != k[j] {
					return k[i] - k[j]
				}
				return strings.Compare(s[i], s[j])
			}, func(i int) string { return fmt.Sprintf("(%d,%q)", k[i], s[i]) })
		}
	},
}
