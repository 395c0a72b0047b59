package num

import (
	"math/big"

	g "github.com/myyrakle/gost"
	"verif/harness/pbt"
)

type integer interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint
}

// iv is the type-erased view of one integer type: values travel as raw bits.
type iv struct {
	name   string
	bits   int
	signed bool
	spec   []uint64
	narrow bool // Byte/Char: plain arithmetic only

	big func(raw uint64) *big.Int
	bin map[string]func(a, b uint64) uint64         // two's complement results
	asg map[string]func(a, b uint64) uint64         // *Assign: receiver afterwards
	chk map[string]func(a, b uint64) (bool, uint64) // Checked*
	sat map[string]func(a, b uint64) uint64

	pow      func(a uint64, e uint32) uint64
	neg      func(a uint64) (uint64, bool)
	abs      func(a uint64) (uint64, bool)
	absdiff  func(a, b uint64) *big.Int
	pos, ngv func(a uint64) (bool, bool) // result, implemented
	shl, shr func(a, n uint64) uint64
	cmp      func(a, b uint64) int
	eq       func(a, b uint64) bool
	str      func(a uint64) string
	disp     func(a uint64) string
	dbg      func(a uint64) string
}

type basic[T any] interface {
	integer
	Add(T) T
	Sub(T) T
	Mul(T) T
	Div(T) T
	Cmp(T) g.Ordering
	Eq(T) g.Bool
	ToString() g.String
	Display() g.String
	Debug() g.String
}

type full[T any] interface {
	basic[T]
	Rem(T) T
	Pow(g.U32) T
	WrappingAdd(T) T
	WrappingSub(T) T
	WrappingMul(T) T
	WrappingDiv(T) T
	CheckedAdd(T) g.Option[T]
	CheckedSub(T) g.Option[T]
	CheckedMul(T) g.Option[T]
	CheckedDiv(T) g.Option[T]
	CheckedRem(T) g.Option[T]
	SaturatingAdd(T) T
	SaturatingSub(T) T
	SaturatingMul(T) T
	SaturatingDiv(T) T
	Shl(T) T
	Shr(T) T
}

type assigns[T any] interface {
	*T
	AddAssign(T)
	SubAssign(T)
	MulAssign(T)
	DivAssign(T)
}

type fullAssigns[T any] interface {
	assigns[T]
	RemAssign(T)
}

func toBig[T integer](v T) *big.Int {
	if v < 0 {
		return big.NewInt(int64(v))
	}
	return new(big.Int).SetUint64(uint64(v))
}

func mkBasic[T basic[T], P assigns[T]](name string, bits int) *iv {
	var zero T
	d := &iv{name: name, bits: bits, signed: zero-1 < 0, narrow: true}
	d.big = func(r uint64) *big.Int { return toBig(T(r)) }
	d.bin = map[string]func(a, b uint64) uint64{
		"Add": func(a, b uint64) uint64 { return uint64(T(a).Add(T(b))) },
		"Sub": func(a, b uint64) uint64 { return uint64(T(a).Sub(T(b))) },
		"Mul": func(a, b uint64) uint64 { return uint64(T(a).Mul(T(b))) },
		"Div": func(a, b uint64) uint64 { return uint64(T(a).Div(T(b))) },
	}
	as := func(f func(p P, b T)) func(a, b uint64) uint64 {
		return func(a, b uint64) uint64 {
			x := T(a)
			f(P(&x), T(b))
			return uint64(x)
		}
	}
	d.asg = map[string]func(a, b uint64) uint64{
		"Add": as(func(p P, b T) { p.AddAssign(b) }),
		"Sub": as(func(p P, b T) { p.SubAssign(b) }),
		"Mul": as(func(p P, b T) { p.MulAssign(b) }),
		"Div": as(func(p P, b T) { p.DivAssign(b) }),
	}
	d.cmp = func(a, b uint64) int { return int(T(a).Cmp(T(b))) }
	d.eq = func(a, b uint64) bool { return bool(T(a).Eq(T(b))) }
	d.str = func(a uint64) string { return string(T(a).ToString()) }
	d.disp = func(a uint64) string { return string(T(a).Display()) }
	d.dbg = func(a uint64) string { return string(T(a).Debug()) }
	return d
}

func mkFull[T full[T], P fullAssigns[T]](name string, bits int, absdiff func(a, b T) *big.Int) *iv {
	d := mkBasic[T, P](name, bits)
	d.narrow = false
	d.bin["Rem"] = func(a, b uint64) uint64 { return uint64(T(a).Rem(T(b))) }
	d.bin["WrappingAdd"] = func(a, b uint64) uint64 { return uint64(T(a).WrappingAdd(T(b))) }
	d.bin["WrappingSub"] = func(a, b uint64) uint64 { return uint64(T(a).WrappingSub(T(b))) }
	d.bin["WrappingMul"] = func(a, b uint64) uint64 { return uint64(T(a).WrappingMul(T(b))) }
	d.bin["WrappingDiv"] = func(a, b uint64) uint64 { return uint64(T(a).WrappingDiv(T(b))) }
	d.asg["Rem"] = func(a, b uint64) uint64 { x := T(a); P(&x).RemAssign(T(b)); return uint64(x) }
	ck := func(f func(a, b T) g.Option[T]) func(a, b uint64) (bool, uint64) {
		return func(a, b uint64) (bool, uint64) {
			o := f(T(a), T(b))
			if o.IsNone() {
				return false, 0
			}
			return true, uint64(o.Unwrap())
		}
	}
	d.chk = map[string]func(a, b uint64) (bool, uint64){
		"Add": ck(func(a, b T) g.Option[T] { return a.CheckedAdd(b) }),
		"Sub": ck(func(a, b T) g.Option[T] { return a.CheckedSub(b) }),
		"Mul": ck(func(a, b T) g.Option[T] { return a.CheckedMul(b) }),
		"Div": ck(func(a, b T) g.Option[T] { return a.CheckedDiv(b) }),
		"Rem": ck(func(a, b T) g.Option[T] { return a.CheckedRem(b) }),
	}
	d.sat = map[string]func(a, b uint64) uint64{
		"Add": func(a, b uint64) uint64 { return uint64(T(a).SaturatingAdd(T(b))) },
		"Sub": func(a, b uint64) uint64 { return uint64(T(a).SaturatingSub(T(b))) },
		"Mul": func(a, b uint64) uint64 { return uint64(T(a).SaturatingMul(T(b))) },
		"Div": func(a, b uint64) uint64 { return uint64(T(a).SaturatingDiv(T(b))) },
	}
	d.pow = func(a uint64, e uint32) uint64 { return uint64(T(a).Pow(g.U32(e))) }
	d.neg = func(a uint64) (uint64, bool) {
		if n, ok := any(T(a)).(interface{ Neg() T }); ok {
			return uint64(n.Neg()), true
		}
		return 0, false
	}
	d.abs = func(a uint64) (uint64, bool) {
		if n, ok := any(T(a)).(interface{ Abs() T }); ok {
			return uint64(n.Abs()), true
		}
		return 0, false
	}
	d.pos = func(a uint64) (bool, bool) {
		if n, ok := any(T(a)).(interface{ IsPositive() g.Bool }); ok {
			return bool(n.IsPositive()), true
		}
		return false, false
	}
	d.ngv = func(a uint64) (bool, bool) {
		if n, ok := any(T(a)).(interface{ IsNegative() g.Bool }); ok {
			return bool(n.IsNegative()), true
		}
		return false, false
	}
	d.absdiff = func(a, b uint64) *big.Int { return absdiff(T(a), T(b)) }
	d.shl = func(a, n uint64) uint64 { return uint64(T(a).Shl(T(n))) }
	d.shr = func(a, n uint64) uint64 { return uint64(T(a).Shr(T(n))) }
	return d
}

var fullTypes = []*iv{
	mkFull[g.I8]("I8", 8, func(a, b g.I8) *big.Int { return toBig(a.AbsDiff(b)) }),
	mkFull[g.U8]("U8", 8, func(a, b g.U8) *big.Int { return toBig(a.AbsDiff(b)) }),
	mkFull[g.I16]("I16", 16, func(a, b g.I16) *big.Int { return toBig(a.AbsDiff(b)) }),
	mkFull[g.U16]("U16", 16, func(a, b g.U16) *big.Int { return toBig(a.AbsDiff(b)) }),
	mkFull[g.I32]("I32", 32, func(a, b g.I32) *big.Int { return toBig(a.AbsDiff(b)) }),
	mkFull[g.U32]("U32", 32, func(a, b g.U32) *big.Int { return toBig(a.AbsDiff(b)) }),
	mkFull[g.I64]("I64", 64, func(a, b g.I64) *big.Int { return toBig(a.AbsDiff(b)) }),
	mkFull[g.U64]("U64", 64, func(a, b g.U64) *big.Int { return toBig(a.AbsDiff(b)) }),
	mkFull[g.ISize]("ISize", 64, func(a, b g.ISize) *big.Int { return toBig(a.AbsDiff(b)) }),
	mkFull[g.USize]("USize", 64, func(a, b g.USize) *big.Int { return toBig(a.AbsDiff(b)) }),
}

var allTypes = append(append([]*iv{}, fullTypes...),
	mkBasic[g.Byte]("Byte", 8), mkBasic[g.Char]("Char", 32))

var one = big.NewInt(1)

func (d *iv) min() *big.Int {
	if !d.signed {
		return new(big.Int)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(one, uint(d.bits-1)))
}

func (d *iv) max() *big.Int {
	b := d.bits
	if d.signed {
		b--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(one, uint(b)), one)
}

func (d *iv) fits(x *big.Int) bool { return inRange(x, d.bits, d.signed) }

func inRange(x *big.Int, bits int, signed bool) bool {
	if !signed {
		return x.Sign() >= 0 && x.BitLen() <= bits
	}
	if x.Sign() >= 0 {
		return x.BitLen() <= bits-1
	}
	return new(big.Int).Not(x).BitLen() <= bits-1
}

// wrapBig reduces x modulo 2^bits into the type's range.
func wrapBig(x *big.Int, bits int, signed bool) *big.Int {
	m := new(big.Int).Lsh(one, uint(bits))
	r := new(big.Int).Mod(x, m)
	if signed && r.Bit(bits-1) == 1 {
		r.Sub(r, m)
	}
	return r
}

func (d *iv) wrap(x *big.Int) *big.Int { return wrapBig(x, d.bits, d.signed) }

// pair draws a type and two operands: exhaustively enumerable for 8-bit types
// (first choice 0), boundary-biased and often related otherwise.
func pair(t *pbt.T, types []*iv) (d *iv, a, b uint64) {
	switch t.Draw(3) {
	case 0:
		var small []*iv
		for _, x := range types {
			if x.bits == 8 {
				small = append(small, x)
			}
		}
		d = small[t.Intn(len(small))]
		a, b = t.Draw(256), t.Draw(256)
	case 1: // all pairs of notable values
		d = types[t.Intn(len(types))]
		sp := d.specials()
		a, b = sp[t.Intn(len(sp))], sp[t.Intn(len(sp))]
	default:
		d = types[t.Intn(len(types))]
		a = t.Bits(d.bits)
		b = related(t, a, d)
	}
	return
}

func related(t *pbt.T, a uint64, d *iv) uint64 {
	switch t.Weighted(6, 1, 1, 1, 2) {
	case 1:
		return a + t.Draw(5) - 2 // near a
	case 2:
		return -a + t.Draw(5) - 2 // near -a
	case 3:
		return ^a + t.Draw(5) - 2 // near MAX-a
	case 4: // near the multiplication / division limit: MAX/a or MIN/a
		x := d.big(a)
		if x.Sign() == 0 {
			return t.Bits(d.bits)
		}
		lim := d.max()
		if d.signed && t.Bool() {
			lim = d.min()
		}
		q := new(big.Int).Quo(lim, x)
		q.Add(q, big.NewInt(int64(t.Draw(5))-2))
		return new(big.Int).And(wrapBig(q, 64, false), new(big.Int).SetUint64(^uint64(0))).Uint64()
	default:
		return t.Bits(d.bits)
	}
}

// specials are the values at which an integer operation may change its case.
func (d *iv) specials() []uint64 {
	if d.spec != nil {
		return d.spec
	}
	seen := map[uint64]bool{}
	mask := ^uint64(0) >> (64 - d.bits)
	add := func(v uint64) {
		if v &= mask; !seen[v] {
			seen[v] = true
			d.spec = append(d.spec, v)
		}
	}
	for i := uint64(0); i < 4; i++ {
		add(i)
		add(-i)
		add(uint64(1)<<(d.bits-1) + i)
		add(uint64(1)<<(d.bits-1) - i)
	}
	for _, k := range []int{d.bits - 2, d.bits / 2, d.bits/2 - 1} {
		for i := uint64(0); i < 3; i++ {
			add(uint64(1)<<k + i - 1)
			add(-(uint64(1)<<k + i - 1))
		}
	}
	// the square roots of the limits
	for _, m := range []*big.Int{d.max(), new(big.Int).SetUint64(mask)} {
		r := new(big.Int).Sqrt(m).Uint64()
		add(r)
		add(r + 1)
		add(-r)
		add(-r - 1)
	}
	add(10)
	add(^uint64(9))
	add(mask / 3)
	add(mask / 2 / 3)
	return d.spec
}

// enumAll lists all 8-bit pairs of the first small types of types, then all
// pairs of notable values of every type.
func enumAll(types []*iv) (n int, f func(i int) []uint64) {
	small := 0
	n = 0
	for _, d := range types {
		if d.bits == 8 {
			small++
		}
		n += len(d.specials()) * len(d.specials())
	}
	small *= 65536
	return small + n, func(i int) []uint64 {
		if i < small {
			return enumPairs(i)
		}
		i -= small
		for k, d := range types {
			m := len(d.specials())
			if i < m*m {
				return []uint64{1, uint64(k), uint64(i / m), uint64(i % m)}
			}
			i -= m * m
		}
		panic("enumAll")
	}
}

// enumPairs gives the choice prefix of the i-th 8-bit pair of n small types.
func enumPairs(i int) []uint64 {
	return []uint64{0, uint64(i >> 16), uint64(i>>8) & 255, uint64(i) & 255}
}

var enumAllN, enumAllF = enumAll(allTypes)
var enumFullN, enumFullF = enumAll(fullTypes)

func sp(d *iv, a, b uint64) (x, y *big.Int) { return d.big(a), d.big(b) }
