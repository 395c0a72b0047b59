// Package pbt is the property-based testing engine of this framework: a
// choice-sequence generator with integrated shrinking, classification and
// replay. Every random decision of a property is drawn through T, so a case
// is a pure function of (code, seed, property, case index) or of a recorded
// choice sequence.
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Prop is one executable property.
type Prop struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	Run  func(t *T)
	// Enumerated cases run first: case i starts with the choices Enum(i).
	EnumN int
	Enum  func(i int) []uint64
	// Numbers of random cases per tier.
	Quick, Thorough int
	Assumptions     []string
	NoShrink        bool
	MaxWorkers      int // 0: no limit
}

// T is the handle of one case.
type T struct {
	prop  *Prop
	state uint64
	rec   []uint64
	fixed []uint64
	only  bool // replay: after fixed is used up, draw zeros
	pos   int

	tracing bool
	log     []string

	labels  map[string]struct{}
	stats   map[string]float64
	nontriv bool
	known   map[string]string

	Thorough bool
	Index    int
}

// Failure is the payload of an oracle failure.
type Failure struct{ Msg string }

func (t *T) next() uint64 {
	t.state += 0x9e3779b97f4a7c15
	z := t.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Draw returns a value in [0,n); n = 0 means the full 64-bit range. Smaller
// values are simpler, which is what the shrinker assumes.
func (t *T) Draw(n uint64) uint64 {
	var v uint64
	switch {
	case t.pos < len(t.fixed):
		v = t.fixed[t.pos]
		if n != 0 {
			v %= n
		}
	case t.only:
		v = 0
	default:
		v = t.next()
		if n != 0 {
			v %= n
		}
	}
	t.pos++
	t.rec = append(t.rec, v)
	return v
}

// Intn returns an int in [0,n).
func (t *T) Intn(n int) int {
	if n <= 0 {
		panic("pbt: Intn of non-positive bound")
	}
	return int(t.Draw(uint64(n)))
}

// Range returns an int in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Bool returns a fair boolean.
func (t *T) Bool() bool { return t.Draw(2) == 1 }

// OneIn is true with probability 1/n.
func (t *T) OneIn(n int) bool { return t.Draw(uint64(n)) == uint64(n-1) && n > 0 }

// Pick returns one of the given values.
func Pick[A any](t *T, xs ...A) A { return xs[t.Intn(len(xs))] }

// Weighted returns an index with probability proportional to its weight.
func (t *T) Weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	v := t.Intn(sum)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Bits returns a boundary-biased bit pattern of the given width (<= 64).
func (t *T) Bits(bits int) uint64 {
	mask := ^uint64(0)
	if bits < 64 {
		mask = 1<<uint(bits) - 1
	}
	if v, ok := t.DictInt(); ok {
		return v & mask
	}
	switch t.Weighted(3, 3, 3, 2, 2, 3) {
	case 0: // small
		return t.Draw(17) & mask
	case 1: // a power of two and its neighbours, either sign
		k := t.Draw(uint64(bits))
		v := (uint64(1)<<k + t.Draw(5) - 2)
		if t.Bool() {
			v = -v
		}
		return v & mask
	case 2: // uniform
		return t.Draw(0) & mask
	case 3: // around the extremes of the signed and unsigned ranges
		base := Pick(t, uint64(0), mask, uint64(1)<<uint(bits-1), uint64(1)<<uint(bits-1)-1)
		return (base + t.Draw(9) - 4) & mask
	case 4: // small negative
		return -t.Draw(17) & mask
	default: // uniform below a random power of two (any magnitude)
		k := t.Draw(uint64(bits)) + 1
		if k >= 64 {
			return t.Draw(0) & mask
		}
		v := t.Draw(uint64(1) << k)
		if t.Bool() {
			v = -v
		}
		return v & mask
	}
}

// Dict is the fuzzing dictionary: literals of the code under test that the
// tree this harness was written for does not have. Values next to them are
// worth trying whatever they mean there. Empty on that tree.
type Dict struct {
	Ints []int64  `json:"ints"`
	Strs []string `json:"strs"`
}

var dict Dict

// DictInt sometimes returns a value at or next to a dictionary entry.
func (t *T) DictInt() (uint64, bool) {
	if len(dict.Ints) == 0 || !t.OneIn(6) {
		return 0, false
	}
	v := uint64(Pick(t, dict.Ints...))
	switch t.Intn(8) {
	case 1:
		v++
	case 2:
		v--
	case 3:
		v = -v
	case 4:
		v *= 2
	case 5:
		v = v/2 + t.Draw(2)
	case 6:
		v *= t.Draw(9) + 1
	case 7:
		v = -v - 1
	}
	return v, true
}

// DictLen sometimes returns a count at or next to a dictionary entry, at most
// 8*max or 300 (8000 in a deep case), whichever is larger, and never beyond
// the larger of max and 8000.
func (t *T) DictLen(max int) (int, bool) {
	lim := max * 8
	if lim < 300 {
		lim = 300
	}
	if lim > 300 && lim < 8000 && t.Thorough {
		lim = 8000
	}
	if lim > 8000 { // what a case does with its elements may be quadratic
		lim = 8000
		if lim < max {
			lim = max
		}
	}
	var c []int
	for _, v := range dict.Ints {
		if v > 0 && v <= int64(lim) {
			c = append(c, int(v))
		}
	}
	if len(c) == 0 || !t.OneIn(8) {
		return 0, false
	}
	n := Pick(t, c...)
	switch t.Intn(5) {
	case 1:
		n++
	case 2:
		n--
	case 3:
		n += t.Intn(n + 1)
	}
	if n > lim {
		n = lim
	}
	return n, true
}

// Huge returns, rarely, a count in [lo,hi] that is far beyond what a case
// usually has: next to a dictionary entry, or of any magnitude.
func (t *T) Huge(lo, hi int) (int, bool) {
	var c []int
	for _, v := range dict.Ints {
		if v > int64(lo)/2 && v <= int64(hi) {
			c = append(c, int(v))
		}
	}
	n := 0
	switch {
	case len(c) > 0 && t.OneIn(300):
		n = Pick(t, c...)
		switch t.Intn(5) {
		case 1:
			n++
		case 2:
			n--
		case 3:
			n += t.Intn(n + 1)
		case 4:
			n = 2*n + 1
		}
	case t.OneIn(4000):
		k := 0
		for lo<<(k+1) <= hi {
			k++
		}
		n = lo << t.Intn(k+1)
		n += t.Intn(n + 1)
	default:
		return 0, false
	}
	if n > hi {
		n = hi
	}
	if n < lo {
		n = lo
	}
	t.Label("huge")
	return n, true
}

// DictStr sometimes returns a dictionary text.
func (t *T) DictStr() (string, bool) {
	if len(dict.Strs) == 0 || !t.OneIn(8) {
		return "", false
	}
	return Pick(t, dict.Strs...), true
}

// Len draws a length: mostly small, sometimes crossing larger thresholds.
func (t *T) Len(max int) int {
	if n, ok := t.DictLen(max); ok {
		return n
	}
	lim := []int{4, 16, 40, 150, 600, max}
	w := t.Weighted(6, 8, 5, 3, 1, 1)
	m := lim[w]
	if m > max {
		m = max
	}
	return t.Intn(m + 1)
}

// Label classifies the case.
func (t *T) Label(s string) { t.labels[s] = struct{}{} }

// Stat records a measurement; the evidence reports the greatest of all cases.
func (t *T) Stat(name string, v float64) {
	if t.stats == nil {
		t.stats = map[string]float64{}
	}
	if v > t.stats[name] {
		t.stats[name] = v
	}
}

// LabelIf classifies the case when cond holds.
func (t *T) LabelIf(cond bool, s string) {
	if cond {
		t.labels[s] = struct{}{}
	}
}

// Nontrivial marks the case as non-trivial by the property's rule.
func (t *T) Nontrivial() { t.nontriv = true }

// Tracing tells whether Logf keeps its text.
func (t *T) Tracing() bool { return t.tracing }

// Logf records a line of the case's description when tracing.
func (t *T) Logf(f string, a ...any) {
	if t.tracing && len(t.log) < 400 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.log = append(t.log, s)
	}
}

// Failf reports a violation.
func (t *T) Failf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 6000 {
		s = s[:3000] + " ... " + s[len(s)-3000:]
	}
	panic(&Failure{s})
}

// Check fails unless cond holds.
func (t *T) Check(cond bool, f string, a ...any) {
	if !cond {
		t.Failf(f, a...)
	}
}

var knownIDs = map[string]bool{}

// Known reports that the known finding id was hit. It fails when the finding
// is not listed in the known-findings file.
func (t *T) Known(id, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if !knownIDs[id] {
		t.Failf("%s", msg)
	}
	if t.known == nil {
		t.known = map[string]string{}
	}
	if _, ok := t.known[id]; !ok {
		t.known[id] = msg
	}
}

// Catch runs f and reports the value it panicked with, if it did. Failures of
// the harness itself pass through.
func Catch(f func()) (panicked bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(*Failure); ok {
				panic(fl)
			}
			panicked, val = true, r
		}
	}()
	f()
	return
}

// NoPanic runs f, turning a panic into a violation that names what was done.
func (t *T) NoPanic(what string, f func()) {
	if p, v := Catch(f); p {
		t.Failf("%s panicked: %v", what, v)
	}
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func hashChoices(c []uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, v := range c {
		for i := 0; i < 8; i++ {
			h ^= v & 0xff
			h *= 1099511628211
			v >>= 8
		}
	}
	return h
}

func newT(p *Prop, thorough bool) *T {
	return &T{prop: p, labels: map[string]struct{}{}, Thorough: thorough}
}

func caseT(p *Prop, seed uint64, thorough bool, idx int) *T {
	t := newT(p, thorough)
	t.Index = idx
	t.state = hash64(p.ID, strconv.FormatUint(seed, 10), strconv.Itoa(idx))
	if idx < p.EnumN {
		t.fixed = p.Enum(idx)
	} else if (idx-p.EnumN)%deepEvery == deepEvery-1 {
		t.Thorough = true
	}
	return t
}

// deepEvery: one in so many cases of the quick tier has the sizes of the
// thorough tier.
const deepEvery = 32

func replayT(p *Prop, thorough bool, choices []uint64) *T {
	t := newT(p, thorough)
	t.fixed = choices
	t.only = true
	return t
}

// run executes the case; a non-empty result is the violation.
func run(p *Prop, t *T) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(*Failure); ok {
				msg = fl.Msg
				return
			}
			msg = fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	p.Run(t)
	return ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "gost") && !strings.Contains(l, "/pbt/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) >= 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// ---- shrinking ----

func shrink(p *Prop, thorough bool, choices []uint64, msg string, budget time.Duration) ([]uint64, string) {
	deadline := time.Now().Add(budget)
	best := append([]uint64(nil), choices...)
	tries := 0
	attempt := func(c []uint64) bool {
		if tries > 6000 || time.Now().After(deadline) {
			return false
		}
		tries++
		t := replayT(p, thorough, c)
		m := run(p, t)
		if m == "" {
			return false
		}
		// keep what was really consumed; reject if not simpler
		rec := append([]uint64(nil), t.rec...)
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		if len(rec) > len(best) || (len(rec) == len(best) && !lessSeq(rec, best)) {
			return false
		}
		best, msg = rec, m
		return true
	}
	attempt(best)
	for progress := true; progress && time.Now().Before(deadline) && tries <= 6000; {
		progress = false
		for _, sz := range []int{256, 64, 32, 16, 8, 5, 4, 3, 2, 1} {
			for i := len(best) - sz; i >= 0; {
				c := append(append([]uint64(nil), best[:i]...), best[i+sz:]...)
				if attempt(c) {
					progress = true
					if i > len(best)-sz {
						i = len(best) - sz
					}
				} else {
					i -= 1 + sz/4
				}
				if time.Now().After(deadline) || tries > 6000 {
					return best, msg
				}
			}
		}
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			c := append([]uint64(nil), best...)
			c[i] = 0
			if attempt(c) {
				progress = true
				continue
			}
			lo, hi := uint64(0), best[i]
			for lo+1 < hi && i < len(best) {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				c[i] = mid
				if attempt(c) {
					progress = true
					hi = mid
				} else {
					lo = mid
				}
			}
			// deleting one element while lowering a preceding count
			if i < len(best) && best[i] > 0 && i+1 < len(best) {
				for j := i + 1; j < len(best) && j < i+12; j++ {
					c := append([]uint64(nil), best[:j]...)
					c = append(c, best[j+1:]...)
					c[i]--
					if attempt(c) {
						progress = true
						break
					}
				}
			}
		}
	}
	return best, msg
}

func lessSeq(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// ---- worker protocol ----

type failureOut struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Thorough bool     `json:"thorough"`
	Index    int      `json:"index"`
	Mode     string   `json:"mode"` // "choices" or "seed"
	Choices  []uint64 `json:"choices"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Dict     Dict     `json:"dict"`
	Shrunk   bool     `json:"shrunk"`
}

type result struct {
	Cases      int                `json:"cases"`
	Nontrivial int                `json:"nontrivial"`
	Labels     map[string]int     `json:"labels"`
	Stats      map[string]float64 `json:"stats"`
	Samples    [][]string         `json:"samples"`
	Known      map[string]string  `json:"known"`
	Failed     bool               `json:"failed"`
	Truncated  bool               `json:"truncated"`
	Draws      int                `json:"draws"`
	Rule       string             `json:"rule"`
	Assume     []string           `json:"assumptions"`
	EnumN      int                `json:"enumerated"`
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func envInt(name string, def int) int {
	v, err := strconv.Atoi(env(name, ""))
	if err != nil {
		return def
	}
	return v
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, path); err != nil {
		panic(err)
	}
}

// Main runs one property as told by the environment. It returns the process
// exit code: 0 done (see the result file), 1 replay failed.
func Main(props map[string]*Prop) int {
	debug.SetMaxStack(96 << 20)
	id := env("PBT_PROP", "")
	p := props[id]
	if p == nil {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("properties:", ids)
		return 2
	}
	seed, _ := strconv.ParseUint(env("PBT_SEED", "1"), 10, 64)
	thorough := env("PBT_TIER", "quick") == "thorough"
	for _, k := range strings.Split(env("PBT_KNOWN", ""), ",") {
		if k != "" {
			knownIDs[k] = true
		}
	}
	if dp := env("PBT_DICT", ""); dp != "" {
		b, err := os.ReadFile(dp)
		if err == nil {
			err = json.Unmarshal(b, &dict)
		}
		if err != nil {
			fmt.Println(err)
			return 2
		}
	}
	if rp := env("PBT_REPLAY", ""); rp != "" {
		return replay(p, rp)
	}
	out := env("PBT_OUT", ".")
	worker, workers := envInt("PBT_WORKER", 0), envInt("PBT_WORKERS", 1)
	start := envInt("PBT_START", 0)
	total := p.Quick
	if thorough {
		total = p.Thorough
	}
	total = envInt("PBT_CASES", total)
	total += p.EnumN
	budget := time.Duration(envInt("PBT_BUDGET", 60)) * time.Second
	tag := fmt.Sprintf("%s/w%d", out, worker)

	beat, err := os.OpenFile(tag+".beat", os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		panic(err)
	}
	res := result{Labels: map[string]int{}, Stats: map[string]float64{}, Known: map[string]string{}, Rule: p.Rule, Assume: p.Assumptions, EnumN: p.EnumN}
	seen := map[uint64]struct{}{}
	begin := time.Now()
	var buf [8]byte
	first := worker
	for first < start {
		first += workers
	}
	var sampleIdx []int
	for i := first; i < total; i += workers {
		binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
		beat.WriteAt(buf[:], 0)
		if time.Since(begin) > budget {
			res.Truncated = true
			break
		}
		t := caseT(p, seed, thorough, i)
		msg := run(p, t)
		res.Cases++
		res.Draws += len(t.rec)
		for l := range t.labels {
			res.Labels[l]++
		}
		for k, v := range t.stats {
			if v > res.Stats[k] {
				res.Stats[k] = v
			}
		}
		for k, v := range t.known {
			if _, ok := res.Known[k]; !ok {
				res.Known[k] = v
			}
		}
		if t.nontriv {
			res.Nontrivial++
			if len(seen) < 1<<20 { // beyond that the count is a lower bound
				seen[hashChoices(t.rec)] = struct{}{}
			}
			if i >= p.EnumN && len(sampleIdx) < 2 && len(t.rec) < 400 {
				sampleIdx = append(sampleIdx, i)
			}
		}
		if msg != "" {
			res.Failed = true
			fo := failureOut{Property: id, Seed: seed, Thorough: t.Thorough, Index: i, Mode: "choices", Dict: dict,
				Choices: append([]uint64(nil), t.rec...), Message: msg}
			writeJSON(tag+".fail", fo)
			if !p.NoShrink {
				c, m := shrink(p, t.Thorough, fo.Choices, msg, time.Duration(envInt("PBT_SHRINK", 12))*time.Second)
				fo.Choices, fo.Message, fo.Shrunk = c, m, true
			}
			rt := replayT(p, t.Thorough, fo.Choices)
			rt.tracing = true
			if m := run(p, rt); m != "" {
				fo.Message = m
			}
			fo.Trace = rt.log
			writeJSON(tag+".fail", fo)
			break
		}
		if i%512 == 0 && runtime.NumGoroutine() > 20000 {
			res.Truncated = true
			break
		}
	}
	if !res.Failed {
		for _, i := range sampleIdx {
			t := caseT(p, seed, thorough, i)
			t.tracing = true
			run(p, t)
			if len(t.log) > 24 {
				t.log = append(t.log[:24], "...")
			}
			res.Samples = append(res.Samples, t.log)
		}
	}
	hb := make([]byte, 0, 8*len(seen))
	for h := range seen {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(tag+".hash", hb, 0o644)
	writeJSON(tag+".result", res)
	return 0
}

func replay(p *Prop, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var fo failureOut
	if err := json.Unmarshal(b, &fo); err != nil {
		fmt.Println(err)
		return 2
	}
	dict = fo.Dict
	var t *T
	if fo.Mode == "seed" {
		t = caseT(p, fo.Seed, fo.Thorough, fo.Index)
	} else {
		t = replayT(p, fo.Thorough, fo.Choices)
	}
	t.tracing = true
	msg := run(p, t)
	for _, l := range t.log {
		fmt.Println("  ", l)
	}
	if msg != "" {
		fmt.Println("FAIL:", msg)
		return 1
	}
	fmt.Println("replay passes")
	return 0
}
