package misc

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

var spaces = []rune{'\t', '\n', '\v', '\f', '\r', ' ', 0x85, 0xA0, 0x1680, 0x2000, 0x2003, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000}

func isSpace(r rune) bool {
	for _, s := range spaces {
		if r == s {
			return true
		}
	}
	return r >= 0x2000 && r <= 0x200A
}

// genRune draws a valid code point (no surrogate).
func genRune(t *pbt.T) rune {
	if v, ok := t.DictInt(); ok && v < 0x110000 && utf8.ValidRune(rune(v)) {
		return rune(v)
	}
	switch t.Weighted(8, 3, 3, 2, 2, 2, 1) {
	case 0:
		return pbt.Pick(t, 'a', 'b', 'c', 'A', 'B', '1')
	case 1:
		return pbt.Pick(t, spaces...)
	case 2:
		return pbt.Pick(t, 'é', 'É', 'ß', 'ñ', 'ÿ', 'Ÿ', 'İ', 'ı', 'Σ', 'ς', '한', '語', 'Ж', 'ж', '́', 'ǅ')
	case 3:
		return pbt.Pick(t, rune(0x10000), 0x10FFFF, 0x1F600, 0x1D400, 0x20000, 0x10400, 0x10428, 0xFFFF, 0xFFFD, 0xE000, 0xD7FF)
	case 4: // zero width and near-space characters that are not White_Space
		return pbt.Pick(t, rune(0), 0x7F, 0x80, 0x200B, 0xFEFF, 0x180E, 0x2060, 0x1F, 0x84, 0x86)
	case 5:
		return rune(t.Intn(0x800))
	}
	r := rune(t.Intn(0x110000 - 0x800))
	if r >= 0xD800 {
		r += 0x800
	}
	return r
}

// genStr draws a valid UTF-8 string.
func genStr(t *pbt.T, max int) string {
	if s, ok := t.DictStr(); ok && utf8.ValidString(s) {
		return s + pbt.Pick(t, "", "a", "é", s)
	}
	n, ok := t.DictLen(max)
	if !ok {
		n = t.Intn(max + 1)
	}
	rs := make([]rune, n)
	if t.OneIn(3) { // few letters: repeats and overlaps
		a := []rune{pbt.Pick(t, 'a', 'é', '한', 0x1F600), pbt.Pick(t, 'b', ' ', 'É', 0x10000)}
		for i := range rs {
			rs[i] = a[t.Intn(2)]
		}
	} else {
		for i := range rs {
			rs[i] = genRune(t)
		}
	}
	return enc(rs)
}

// enc is the harness's own UTF-8 encoder.
func enc(rs []rune) string {
	b := []byte{}
	for _, r := range rs {
		switch {
		case r < 0x80:
			b = append(b, byte(r))
		case r < 0x800:
			b = append(b, 0xC0|byte(r>>6), 0x80|byte(r&0x3F))
		case r < 0x10000:
			b = append(b, 0xE0|byte(r>>12), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
		default:
			b = append(b, 0xF0|byte(r>>18), 0x80|byte(r>>12&0x3F), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
		}
	}
	return string(b)
}

// dec is the harness's own decoder of valid UTF-8.
func dec(s string) (rs []rune, at []int) {
	for i := 0; i < len(s); {
		c := s[i]
		n, r := 1, rune(c)
		switch {
		case c >= 0xF0:
			n, r = 4, rune(c&0x07)
		case c >= 0xE0:
			n, r = 3, rune(c&0x0F)
		case c >= 0xC0:
			n, r = 2, rune(c&0x1F)
		}
		for k := 1; k < n; k++ {
			r = r<<6 | rune(s[i+k]&0x3F)
		}
		rs, at = append(rs, r), append(at, i)
		i += n
	}
	return
}

func find(s, p string, from int) int {
	for i := from; i+len(p) <= len(s); i++ {
		if s[i:i+len(p)] == p {
			return i
		}
	}
	return -1
}

func split(s, sep string) []string {
	var out []string
	from := 0
	for {
		i := find(s, sep, from)
		if i < 0 {
			return append(out, s[from:])
		}
		out = append(out, s[from:i])
		from = i + len(sep)
	}
}

func join(xs []string, sep string) string {
	var r strings.Builder
	for i, x := range xs {
		if i > 0 {
			r.WriteString(sep)
		}
		r.WriteString(x)
	}
	return r.String()
}

func replace(s, old, nu string) string {
	if old == "" { // at every code point boundary
		rs, at := dec(s)
		var r strings.Builder
		r.WriteString(nu)
		for i := range rs {
			end := len(s)
			if i+1 < len(at) {
				end = at[i+1]
			}
			r.WriteString(s[at[i]:end] + nu)
		}
		return r.String()
	}
	return join(split(s, old), nu)
}

// bigStr draws a valid UTF-8 string of about n characters: a few pieces over
// and over, in an order drawn by one number.
func bigStr(t *pbt.T, n int) string {
	var ps []string
	for i := 1 + t.Intn(5); i > 0; i-- {
		ps = append(ps, genStr(t, pbt.Pick(t, 1, 3, 12)))
	}
	ps = append(ps, pbt.Pick(t, "a", "é", ",", " ", "한", "😀"))
	seed := t.Draw(1 << 20)
	var b strings.Builder
	for b.Len() < n {
		seed = seed*6364136223846793005 + 1442695040888963407
		b.WriteString(ps[int(seed>>40)%len(ps)])
	}
	b.WriteString(genStr(t, 3))
	return b.String()
}

// genPattern draws a pattern related to s: a piece of it, a near miss, or anything.
func genPattern(t *pbt.T, s string) string {
	rs, _ := dec(s)
	if len(rs) > 0 && !t.OneIn(4) {
		i := t.Intn(len(rs))
		j := i + t.Intn(len(rs)-i+1)
		if j-i > 4 && t.Bool() {
			j = i + 1 + t.Intn(3)
		}
		q := append([]rune(nil), rs[i:j]...)
		if t.OneIn(6) {
			q = append(q, genRune(t))
		}
		return enc(q)
	}
	return genStr(t, 3)
}

func runString(t *pbt.T) {
	if t.OneIn(16) {
		runBytes(t)
		return
	}
	raw := genStr(t, pbt.Pick(t, 4, 12, 12, 40))
	if k, ok := t.Huge(300, 150000); ok {
		raw = bigStr(t, k)
	}
	s := g.String(strings.Clone(raw)) // no memory in common with the model
	n := 1 + t.Intn(8)
	t.Logf("s := %q", raw)
	multi := false
	for i := 0; i < n; i++ {
		rs, _ := dec(raw)
		multi = multi || len(rs) < len(raw)
		before := raw
		op := ""
		eqS := func(what string, got g.String, want string) {
			t.Check(string(got) == want, "%s of %q = %q, want %q", what, before, string(got), want)
		}
		t.NoPanic("a string operation", func() {
			switch t.Intn(18) {
			case 0, 1:
				op = "Push"
				r := genRune(t)
				raw += enc([]rune{r})
				eqS(fmt.Sprintf("Push(%q)", r), s.Push(g.Char(r)), raw)
			case 2, 3:
				op = "Pop"
				o := s.Pop()
				if len(rs) == 0 {
					t.Check(bool(o.IsNone()), "Pop of the empty string is Some")
				} else {
					t.Check(bool(o.IsSome()) && rune(o.Unwrap()) == rs[len(rs)-1], "Pop of %q is not %q", raw, rs[len(rs)-1])
					raw = enc(rs[:len(rs)-1])
				}
			case 4:
				op = "AddAssign"
				x := genStr(t, 4)
				s.AddAssign(g.String(x))
				raw += x
			case 5:
				op = "Add"
				x := genStr(t, 4)
				eqS(fmt.Sprintf("Add(%q)", x), s.Add(g.String(x)), raw+x)
			case 6:
				op = "Len/IsEmpty"
				t.Check(int(s.Len()) == len(raw), "Len of %q = %d", raw, s.Len())
				t.Check(bool(s.IsEmpty()) == (len(raw) == 0), "IsEmpty of %q = %v", raw, s.IsEmpty())
			case 7:
				op = "Chars"
				v := s.Chars()
				var got []rune
				for _, c := range v.AsSlice() {
					got = append(got, rune(c))
				}
				t.Check(fmt.Sprint(got) == fmt.Sprint(rs), "Chars of %q = %q", raw, got)
			case 8, 9:
				op = "Find/Contains"
				p := genPattern(t, raw)
				w := find(raw, p, 0)
				t.Check(bool(s.Contains(g.String(p))) == (w >= 0), "%q.Contains(%q) = %v", raw, p, w < 0)
				o := s.Find(g.String(p))
				t.Check(bool(o.IsSome()) == (w >= 0), "%q.Find(%q): IsSome = %v", raw, p, o.IsSome())
				if w >= 0 {
					t.Check(int(o.Unwrap()) == w, "%q.Find(%q) = %d, want %d", raw, p, o.Unwrap(), w)
				}
				t.LabelIf(w > 0, "match inside")
				t.LabelIf(w < 0, "no match")
			case 10, 11:
				op = "Split"
				p := genPattern(t, raw)
				v := s.Split(g.String(p))
				var got []string
				for _, x := range v.AsSlice() {
					got = append(got, string(x))
				}
				t.Check(join(got, p) == raw, "%q.Split(%q) = %q does not join to the original", raw, p, got)
				if p != "" {
					w := split(raw, p)
					t.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", w), "%q.Split(%q) = %q, want %q", raw, p, got, w)
					t.LabelIf(len(w) > 2, "several pieces")
				}
			case 12, 13:
				op = "Replace"
				p, q := genPattern(t, raw), genStr(t, 3)
				if t.OneIn(3) {
					q = p + p
				}
				eqS(fmt.Sprintf("Replace(%q, %q)", p, q), s.Replace(g.String(p), g.String(q)), replace(raw, p, q))
			case 14:
				op = "Trim"
				a, b := 0, len(rs)
				for a < b && isSpace(rs[a]) {
					a++
				}
				for b > a && isSpace(rs[b-1]) {
					b--
				}
				eqS("Trim", s.Trim(), enc(rs[a:b]))
				t.LabelIf(a > 0 || b < len(rs), "trimmed something")
			case 15:
				op = "ToLowercase/ToUppercase"
				lo, up := make([]rune, len(rs)), make([]rune, len(rs))
				for i, r := range rs {
					lo[i], up[i] = unicode.ToLower(r), unicode.ToUpper(r)
				}
				eqS("ToLowercase", s.ToLowercase(), enc(lo))
				eqS("ToUppercase", s.ToUppercase(), enc(up))
			case 16:
				op = "Repeat"
				k := t.Intn(6)
				if len(raw) < 20 {
					if n, ok := t.Huge(20, 20000); ok {
						k = n
					}
				}
				w := ""
				if k < 6 {
					for i := 0; i < k; i++ {
						w += raw
					}
				} else {
					b := []byte{}
					for i := 0; i < k; i++ {
						b = append(b, raw...)
					}
					w = string(b)
				}
				eqS(fmt.Sprintf("Repeat(%d)", k), s.Repeat(g.USize(k)), w)
			case 17:
				op = "IntoBytes"
				v := s.IntoBytes()
				got := v.AsSlice()
				t.Check(len(got) == len(raw), "IntoBytes of %q has %d bytes", raw, len(got))
				for i := range got {
					t.Check(byte(got[i]) == raw[i], "IntoBytes of %q: byte %d = %d", raw, i, got[i])
				}
				back := g.StringFromUTF8(v)
				eqS("StringFromUTF8(IntoBytes)", back, raw)
				for k := range got { // the vector is the caller's
					got[k] ^= 0x15
				}
				eqS("after changing IntoBytes' vector, the receiver", s, raw)
				eqS("after changing its vector, StringFromUTF8", back, raw)
			}
		})
		t.Check(string(s) == raw, "the receiver after %s of %q is %q, want %q", op, before, string(s), raw)
		t.Logf("%s  // now %q", op, raw)
		t.Label("op " + op)
	}
	t.LabelIf(multi, "multi-byte")
	if len(raw) > 0 {
		t.Nontrivial()
	}
}

// runBytes: the operations that are defined on bytes, on any bytes.
func runBytes(t *pbt.T) {
	t.Label("bytes that are not UTF-8")
	mk := func(max int) string {
		b := []byte{}
		for n := t.Intn(max + 1); n > 0; n-- {
			b = append(b, pbt.Pick(t, "\xff", "\x80", "a", "\xc3", "\xa9", "\xed\xa0\x80", "é", "\xf0\x9f", string([]byte{byte(t.Draw(256))}))...)
		}
		return string(b)
	}
	raw := mk(30)
	if len(raw) > 0 {
		t.Nontrivial()
	}
	s := g.String(strings.Clone(raw))
	p := mk(3)
	if raw != "" && t.OneIn(2) {
		i := t.Intn(len(raw))
		p = raw[i : i+1+t.Intn(min(3, len(raw)-i))]
	}
	q := mk(3)
	k := t.Intn(4)
	t.Logf("s := %q; p := %q; q := %q", raw, p, q)
	t.NoPanic("a string operation", func() {
		same := func(what string, got g.String, want string) {
			t.Check(string(got) == want, "%s of %q = %q, want %q", what, raw, string(got), want)
		}
		t.Check(int(s.Len()) == len(raw), "Len of %q = %d", raw, s.Len())
		t.Check(bool(s.IsEmpty()) == (raw == ""), "IsEmpty of %q = %v", raw, s.IsEmpty())
		same("Add("+p+")", s.Add(g.String(p)), raw+p)
		u := s
		u.AddAssign(g.String(p))
		same("AddAssign("+p+")", u, raw+p)
		same(fmt.Sprintf("Repeat(%d)", k), s.Repeat(g.USize(k)), strings.Repeat(raw, k))
		if p != "" {
			w := find(raw, p, 0)
			o := s.Find(g.String(p))
			t.Check(bool(o.IsSome()) == (w >= 0) && (w < 0 || int(o.Unwrap()) == w), "%q.Find(%q) = %v, want %d", raw, p, o, w)
			t.Check(bool(s.Contains(g.String(p))) == (w >= 0), "%q.Contains(%q) = %v", raw, p, w < 0)
			v := s.Split(g.String(p))
			var got []string
			for _, x := range v.AsSlice() {
				got = append(got, string(x))
			}
			want := split(raw, p)
			t.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "%q.Split(%q) = %q, want %q", raw, p, got, want)
			same(fmt.Sprintf("Replace(%q, %q)", p, q), s.Replace(g.String(p), g.String(q)), replace(raw, p, q))
		}
		same("the receiver", s, raw)
	})
}

var C29 = &pbt.Prop{ID: "C29",
	Rule: "A random valid UTF-8 string (multi-byte, White_Space and look-alike characters, two-letter repetitive strings) and 1-8 operations; patterns are mostly pieces of the string; one case in 16 has any bytes and the operations on bytes only. Oracle: the harness's own UTF-8 codec, naive search, split, replace and White_Space list; case mapping per code point from package unicode. Non-trivial: the final string is not empty.",
	Run:  runString, Quick: 2000000, Thorough: 80000000,
	Assumptions: []string{"Case mapping is the simple per-code-point mapping of the Unicode tables in package unicode; splitting by the empty string is only required to join back to the original."}}

func runUTF(t *pbt.T) {
	if t.OneIn(3) { // UTF-8
		raw := genStr(t, 12)
		if k, ok := t.Huge(300, 100000); ok {
			raw = bigStr(t, k)
		}
		if t.OneIn(3) { // any bytes: truncated, overlong, surrogate and stray sequences
			b := []byte(raw)
			for n := 1 + t.Intn(4); n > 0; n-- {
				i := t.Intn(len(b) + 1)
				ins := []byte{byte(t.Draw(256))}
				if t.Bool() {
					ins = []byte(pbt.Pick(t, "\xed\xa0\x80", "\xc0\x80", "\xf0\x9f", "\xff", "\x80", "\xf4\x90\x80\x80", "\xef\xbf\xbd"))
				}
				b = append(b[:i], append(ins, b[i:]...)...)
			}
			raw = string(b)
			t.LabelIf(!utf8.ValidString(raw), "not valid UTF-8")
		}
		v := g.VecNew[g.U8]()
		for i := 0; i < len(raw); i++ {
			v.Push(g.U8(raw[i]))
		}
		t.Label("UTF-8")
		t.Logf("StringFromUTF8(% x)", raw)
		t.NoPanic("StringFromUTF8", func() {
			s := g.StringFromUTF8(v)
			t.Check(string(s) == raw, "StringFromUTF8 of the bytes of %q = %q", raw, string(s))
			t.Check(int(v.Len()) == len(raw), "StringFromUTF8 changed its vector's length")
			for i := range v.AsSlice() {
				t.Check(byte(v.AsSlice()[i]) == raw[i], "StringFromUTF8 changed its vector")
			}
			// independence, both ways
			for i := 0; i < 3 && len(raw) > 0; i++ {
				v.Set(g.USize(t.Intn(len(raw))), g.U8(t.Intn(128)))
			}
			v.Push('x')
			t.Check(string(s) == raw, "changing the vector changed the string to %q", string(s))
			snap := append([]g.U8(nil), v.AsSlice()...)
			b := s.IntoBytes()
			t.Check(int(b.Len()) == len(raw), "IntoBytes of %q has %d bytes", raw, b.Len())
			for i := range b.AsSlice() {
				t.Check(byte(b.AsSlice()[i]) == raw[i], "IntoBytes of %q: byte %d = %#x", raw, i, b.AsSlice()[i])
			}
			s.Push('y')
			b = s.IntoBytes()
			if b.Len() > 0 {
				b.Set(0, 'z')
			}
			t.Check(string(s) == raw+"y", "changing IntoBytes' vector changed the string")
			for i := range snap {
				t.Check(v.AsSlice()[i] == snap[i], "changing the string changed the vector")
			}
		})
		if len(raw) > 0 {
			t.Nontrivial()
		}
		return
	}
	// code units
	var us []uint16
	if t.Bool() {
		s := genStr(t, 12)
		if k, ok := t.Huge(300, 100000); ok {
			s = bigStr(t, k)
		}
		rs, _ := dec(s)
		us = utf16.Encode(rs)
		t.Label("UTF-16 from text")
	}
	if t.OneIn(2) {
		for n := t.Intn(8); n > 0; n-- {
			var u uint16
			switch t.Intn(4) {
			case 0:
				u = 'a' + uint16(t.Intn(3))
			case 1:
				u = pbt.Pick(t, uint16(0xD800), 0xDBFF, 0xD83D, 0xD801)
			case 2:
				u = pbt.Pick(t, uint16(0xDC00), 0xDFFF, 0xDE00, 0xDC37)
			default:
				u = pbt.Pick(t, uint16(t.Draw(1<<16)), 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0xFEFF, 0, 0x7F, 0x80, 0x7FF, 0x800)
			}
			i := t.Intn(len(us) + 1)
			us = append(us[:i], append([]uint16{u}, us[i:]...)...)
		}
		t.Label("UTF-16 with arbitrary units")
	}
	// the harness's own decoder
	var rs []rune
	valid, pairs := true, 0
	for i := 0; i < len(us); i++ {
		u := us[i]
		switch {
		case u >= 0xD800 && u <= 0xDBFF:
			if i+1 < len(us) && us[i+1] >= 0xDC00 && us[i+1] <= 0xDFFF {
				rs = append(rs, 0x10000+(rune(u)-0xD800)<<10+rune(us[i+1])-0xDC00)
				i++
				pairs++
			} else {
				valid = false
			}
		case u >= 0xDC00 && u <= 0xDFFF:
			valid = false
		default:
			rs = append(rs, rune(u))
		}
	}
	v := g.VecNew[g.U16]()
	for _, u := range us {
		v.Push(g.U16(u))
	}
	t.Logf("StringFromUTF16(%04x)  // valid: %v", us, valid)
	t.LabelIf(!valid, "unpaired surrogate")
	t.LabelIf(valid && pairs > 0, "valid with pairs")
	t.LabelIf(len(us)%2 == 1, "odd length")
	t.NoPanic("StringFromUTF16", func() {
		r := g.StringFromUTF16(v)
		t.Check(bool(r.IsOk()) == valid && bool(r.IsErr()) == !valid, "StringFromUTF16(%04x): IsOk = %v, want %v", us, r.IsOk(), valid)
		if valid {
			t.Check(string(r.Unwrap()) == enc(rs), "StringFromUTF16(%04x) = %q, want %q", us, string(r.Unwrap()), enc(rs))
		}
		t.Check(int(v.Len()) == len(us), "StringFromUTF16 changed its vector's length")
		for i, u := range v.AsSlice() {
			t.Check(uint16(u) == us[i], "StringFromUTF16 changed its vector")
		}
	})
	if len(us) > 0 {
		t.Nontrivial()
	}
}

var C30 = &pbt.Prop{ID: "C30",
	Rule: "Either the bytes of a random UTF-8 string, one in three made invalid (then both sides mutated) or a UTF-16 code-unit sequence: the encoding of a random string and/or surrogate-heavy arbitrary units inserted anywhere. Oracle: the harness's own UTF-8 encoder and UTF-16 decoder. Non-trivial: non-empty input.",
	Run:  runUTF, Quick: 6000000, Thorough: 240000000}
