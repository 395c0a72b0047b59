package conc

import (
	"fmt"
	"math/big"
	"runtime"
	"sync"
	"testing/synctest"
	"time"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

type thread struct {
	gate    chan struct{}
	open    bool
	started counter // times the function was entered
	ended   counter // times the function reached its end
	handle  g.JoinHandle
	joins   []*join
}

type join struct {
	done atomicBool
	ok   atomicBool
	seen atomicBool // the function had ended when Join returned
}

type atomicBool struct{ counter }

func (b *atomicBool) set(v bool) {
	if v {
		b.inc()
	}
}
func (b *atomicBool) get() bool { return b.n.Load() > 0 }

func runSpawn(t *pbt.T) {
	var ths []*thread
	defer func() { // let everything end
		for _, th := range ths {
			if !th.open {
				th.open = true
				close(th.gate)
			}
		}
	}()
	n := 2 + t.Intn(14)
	if t.Thorough && t.OneIn(3) {
		n = 20 + t.Intn(150)
	}
	joinsBefore, polls, again := 0, 0, 0
	for i := 0; i < n; i++ {
		if len(ths) == 0 || len(ths) < 6 && t.OneIn(4) {
			th := &thread{gate: make(chan struct{})}
			instant := t.OneIn(3)
			if instant {
				th.open = true
				close(th.gate)
			}
			exit := t.OneIn(5)
			t.Logf("h%d := Spawn (may end: %v, by runtime.Goexit: %v)", len(ths), instant, exit)
			t.LabelIf(exit, "ends by runtime.Goexit")
			bounded(t, "Spawn", func() {
				th.handle = g.Spawn(func() {
					th.started.inc()
					<-th.gate
					th.ended.inc()
					if exit {
						runtime.Goexit()
					}
				})
			})
			ths = append(ths, th)
			settle(t)
			continue
		}
		k := t.Intn(len(ths))
		th := ths[k]
		switch t.Weighted(3, 4, 3, 2, 2) {
		case 0: // let the function end
			if !th.open {
				t.Logf("h%d's function may end", k)
				th.open = true
				close(th.gate)
				if t.Bool() {
					eventually(t, fmt.Sprintf("the end of h%d's function", k), func() bool { return th.ended.get() > 0 })
				}
			}
		case 1:
			polls++
			if !th.open {
				t.Logf("h%d.IsFinished()  // running", k)
				bounded(t, "IsFinished", func() {
					t.Check(!th.handle.IsFinished(), "IsFinished is true while the function runs")
				})
			} else {
				t.Logf("h%d.IsFinished() until true", k)
				eventually(t, fmt.Sprintf("IsFinished of h%d becoming true after its function returned", k), func() bool {
					f := th.handle.IsFinished()
					t.Check(!f || th.ended.get() > 0, "IsFinished is true before the function has returned")
					return f
				})
				for r := t.Intn(4); r > 0; r-- {
					again++
					t.Check(th.handle.IsFinished(), "IsFinished of h%d is true, then false", k)
				}
			}
		case 2: // Join from another goroutine
			j := &join{}
			th.joins = append(th.joins, j)
			t.Logf("go h%d.Join()", k)
			if !th.open {
				joinsBefore++
			}
			h := th.handle
			go func() {
				r := h.Join()
				j.seen.set(th.ended.get() > 0)
				j.ok.set(bool(r.IsOk()))
				j.done.inc()
			}()
		case 3: // Join from here
			if th.open {
				t.Logf("h%d.Join()", k)
				for r := t.Intn(3); r >= 0; r-- {
					bounded(t, fmt.Sprintf("Join of h%d, whose function may end,", k), func() {
						r := th.handle.Join()
						t.Check(th.ended.get() > 0, "Join of h%d returned before its function did", k)
						t.Check(bool(r.IsOk()), "Join of h%d = Err", k)
					})
					again++
				}
			}
		default:
			settle(t)
		}
		for k, th := range ths {
			if !th.open {
				for _, j := range th.joins {
					t.Check(!j.done.get(), "a Join of h%d returned while its function runs", k)
				}
			}
			t.Check(th.started.get() <= 1, "h%d's function was run %d times", k, th.started.get())
		}
	}
	if t.OneIn(100) { // many at once
		crowd := 20 + t.Intn(1500)
		t.Logf("%d more threads, all running at once", crowd)
		t.Label("a crowd")
		gate := make(chan struct{})
		var in, out counter
		hs := make([]g.JoinHandle, crowd)
		func() {
			defer close(gate)
			bounded(t, fmt.Sprintf("Spawn number %d", crowd), func() {
				for i := range hs {
					hs[i] = g.Spawn(func() { in.inc(); <-gate; out.inc() })
				}
			})
			eventually(t, fmt.Sprintf("the start of all %d functions", crowd), func() bool { return in.get() == crowd })
		}()
		for i := range hs {
			bounded(t, fmt.Sprintf("Join %d of %d", i, crowd), func() { hs[i].Join() })
		}
		t.Check(out.get() == crowd, "all %d threads joined, %d functions have ended", crowd, out.get())
	}
	// every function runs, also those whose gate is closed, at the same time
	for k, th := range ths {
		eventually(t, fmt.Sprintf("h%d's function being started", k), func() bool { return th.started.get() > 0 })
	}
	order := make([]int, len(ths))
	for i := range order {
		order[i] = i
	}
	for i := len(order) - 1; i > 0; i-- {
		j := t.Intn(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	for _, k := range order {
		th := ths[k]
		if !th.open {
			bounded(t, "IsFinished", func() {
				t.Check(!th.handle.IsFinished(), "IsFinished of h%d is true while its function runs", k)
			})
			th.open = true
			close(th.gate)
		}
		for i, j := range th.joins {
			eventually(t, fmt.Sprintf("the return of Join %d of %d on h%d after its function returned", i+1, len(th.joins), k), j.done.get)
			t.Check(j.seen.get(), "a Join of h%d returned before its function did", k)
			t.Check(j.ok.get(), "a Join of h%d = Err", k)
		}
		eventually(t, fmt.Sprintf("IsFinished of h%d", k), func() bool { return th.handle.IsFinished() })
		bounded(t, fmt.Sprintf("a last Join of h%d", k), func() {
			t.Check(bool(th.handle.Join().IsOk()), "a last Join of h%d = Err", k)
		})
		t.Check(bool(th.handle.IsFinished()), "IsFinished of h%d is false after Join", k)
		t.Check(th.started.get() == 1 && th.ended.get() == 1, "h%d's function was started %d times and ended %d times", k, th.started.get(), th.ended.get())
		t.LabelIf(len(th.joins) > 1, "several joins of one handle")
	}
	t.LabelIf(joinsBefore > 0, "join before the end")
	t.LabelIf(polls > 0, "IsFinished")
	t.LabelIf(again > 0, "repeated calls on one handle")
	t.LabelIf(len(ths) > 1, "several threads")
	if joinsBefore+polls+again > 1 {
		t.Nontrivial()
	}
}

var C36 = &pbt.Prop{ID: "C36",
	Rule: "A random history over 1-6 handles: Spawn, letting a function end, IsFinished (repeated), Join from the main goroutine (repeated) and from other goroutines before and after the end; functions stop at gates the history opens, so what must not have happened yet is certain. Every handle is joined and polled again at the end; some histories hold up to 1500 unfinished threads at once. Or threads of known durations up to years under the virtual clock of testing/synctest, with Join and IsFinished at generated times. Non-trivial: at least two IsFinished/Join calls.",
	Run: func(t *pbt.T) {
		if t.OneIn(3) {
			runSpawnClock(t)
		} else {
			runSpawn(t)
		}
	}, Quick: 80000, Thorough: 3200000,
	Assumptions: []string{"Something that must happen counts as missing after 30 s."}}

// genHours is a span of virtual time from nothing to years.
func genHours(t *pbt.T) time.Duration {
	switch t.Intn(5) {
	case 0:
		return time.Duration(t.Intn(3)) * time.Nanosecond
	case 1:
		return time.Duration(t.Bits(30))
	case 2:
		return time.Duration(1+t.Intn(100)) * time.Second
	case 3:
		return time.Duration(1+t.Intn(1000)) * time.Minute
	default:
		return time.Duration(1+t.Intn(50000)) * time.Hour
	}
}

// runSpawnClock spawns functions of known durations under the virtual clock,
// where no time limit inside the code under test is too long to be reached.
func runSpawnClock(t *pbt.T) {
	type jn struct {
		at       time.Duration // Join starts
		by       time.Duration // and returned
		done, ok bool
	}
	type pl struct {
		at  time.Duration
		fin bool
	}
	type th struct {
		dur   time.Duration
		runs  int
		end   time.Duration
		joins []*jn
		polls []*pl
	}
	var ths []*th
	for n := 1 + t.Intn(4); n > 0; n-- {
		x := &th{dur: genHours(t)}
		near := func() time.Duration {
			switch t.Intn(4) {
			case 0:
				return genHours(t)
			case 1:
				return x.dur + time.Duration(1+t.Intn(3))
			case 2:
				return x.dur - time.Duration(t.Draw(uint64(x.dur)+1))
			default:
				return 0
			}
		}
		for k := t.Intn(4); k > 0; k-- {
			x.joins = append(x.joins, &jn{at: near()})
		}
		for k := t.Intn(4); k > 0; k-- {
			x.polls = append(x.polls, &pl{at: near()})
		}
		t.Logf("Spawn: runs for %v; %d Join, %d IsFinished", x.dur, len(x.joins), len(x.polls))
		for _, j := range x.joins {
			t.Logf("  Join at %v", j.at)
		}
		ths = append(ths, x)
	}
	bubble(t, func() {
		var wg sync.WaitGroup
		defer wg.Wait()
		start := time.Now()
		for _, x := range ths {
			wg.Add(1)
			h := g.Spawn(func() {
				defer wg.Done()
				x.runs++
				time.Sleep(x.dur)
				x.end = time.Since(start)
			})
			for _, j := range x.joins {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(j.at)
					r := h.Join()
					j.by, j.done, j.ok = time.Since(start), true, bool(r.IsOk())
				}()
			}
			for _, p := range x.polls {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(p.at)
					p.fin = h.IsFinished()
				}()
			}
		}
	})
	calls := 0
	for i, x := range ths {
		t.Check(x.runs == 1, "function %d ran %d times", i, x.runs)
		for _, j := range x.joins {
			calls++
			t.Check(j.done && j.ok, "Join of function %d started at %v: returned %v, Ok %v", i, j.at, j.done, j.ok)
			t.Check(j.by >= x.dur, "Join of function %d returned at %v, the function at %v", i, j.by, x.end)
			t.LabelIf(j.at < x.dur, "Join before the end (clock)")
		}
		for _, p := range x.polls {
			calls++
			if p.at < x.dur {
				t.Check(!p.fin, "IsFinished at %v of a function that runs for %v is true", p.at, x.dur)
			} else if p.at > x.dur {
				t.Check(p.fin, "IsFinished at %v of a function that ran for %v is false", p.at, x.dur)
			}
		}
		t.LabelIf(x.dur > time.Hour, "runs for hours")
	}
	t.Label("virtual clock")
	if calls > 1 {
		t.Nontrivial()
	}
}

// ---- Sleep ----

func genDuration(t *pbt.T) (g.Duration, *big.Int) {
	var ns *big.Int
	var d g.Duration
	switch t.Intn(5) {
	case 0:
		s, n := uint64(t.Intn(4)), uint32(t.Bits(32))
		if t.OneIn(3) {
			s = t.Draw(2_000_000_000) // some 63 years
		}
		d = g.DurationNew(g.U64(s), g.U32(n))
		ns = new(big.Int).Mul(new(big.Int).SetUint64(s), big.NewInt(1e9))
		ns.Add(ns, big.NewInt(int64(n)))
	case 1:
		s := t.Draw(2_000_000_000)
		if t.Bool() {
			s = t.Draw(100)
		}
		d = g.DurationFromSecs(g.U64(s))
		ns = new(big.Int).Mul(new(big.Int).SetUint64(s), big.NewInt(1e9))
	case 2:
		m := t.Bits(36)
		d = g.DurationFromMillis(g.U64(m))
		ns = new(big.Int).Mul(new(big.Int).SetUint64(m), big.NewInt(1e6))
	case 3:
		m := t.Bits(48)
		d = g.DurationFromMicros(g.U64(m))
		ns = new(big.Int).Mul(new(big.Int).SetUint64(m), big.NewInt(1e3))
	default:
		m := t.Bits(60)
		d = g.DurationFromNanos(g.U64(m))
		ns = new(big.Int).SetUint64(m)
	}
	return d, ns
}

// bubble runs f under a virtual clock.
func bubble(t *pbt.T, f func()) {
	var fail any
	pan, val := pbt.Catch(func() {
		synctest.Test(theT, func(tt *testingT) {
			defer func() { fail = recover() }()
			f()
		})
	})
	if fail != nil {
		if fl, ok := fail.(*pbt.Failure); ok {
			panic(fl)
		}
		t.Failf("panic: %v", fail)
	}
	if pan {
		t.Failf("%v", val)
	}
}

// runOverlong sleeps longer than any timer can. It may be refused, or last,
// but not return.
func runOverlong(t *pbt.T) {
	secs := []uint64{9223372037, 9223372036 + 9300000, 18446744073, 18446744074, 18446744079, 1 << 40, 1<<63 + 5, 1<<64 - 1}[t.Intn(8)]
	if t.Bool() {
		secs = 9223372037 + t.Bits(63)
	}
	nanos := uint32(pbt.Pick(t, 0, 1, 999999999, 500000000))
	t.Logf("Sleep of %d s and %d ns", secs, nanos)
	t.Label("longer than any timer")
	t.Nontrivial()
	d := g.DurationNew(g.U64(secs), g.U32(nanos))
	ended := make(chan bool, 1)
	go func() {
		defer func() {
			if recover() != nil {
				ended <- false
			}
		}()
		g.Sleep(d)
		ended <- true
	}()
	select {
	case back := <-ended:
		t.Check(!back, "Sleep of %d s and %d ns returned at once", secs, nanos)
	case <-time.After(20 * time.Millisecond):
		t.Label("still asleep")
	}
}

func runSleep(t *pbt.T) {
	if t.OneIn(50000) {
		runOverlong(t)
		return
	}
	type sl struct {
		d      g.Duration
		ns     time.Duration
		took   time.Duration
		panicv any
	}
	groups := 1 + t.Intn(3) // sleepers in parallel
	var gs [][]*sl
	total := 0
	for i := 0; i < groups; i++ {
		var xs []*sl
		left := new(big.Int).SetInt64(5_000_000_000_000_000_000) // 158 years
		for k := 1 + t.Intn(3); k > 0; k-- {
			d, ns := genDuration(t)
			if ns.Cmp(left) > 0 {
				continue
			}
			left.Sub(left, ns)
			xs = append(xs, &sl{d: d, ns: time.Duration(ns.Int64())})
			t.Logf("sleeper %d: Sleep(%v ns)", i, ns)
			total++
			t.LabelIf(ns.Sign() == 0, "zero")
			t.LabelIf(ns.Cmp(big.NewInt(1e9)) >= 0, "a second or more")
			t.LabelIf(ns.Cmp(big.NewInt(1e9)) < 0, "below a second")
			t.LabelIf(ns.Cmp(big.NewInt(3e16)) > 0, "over a year")
			t.LabelIf(new(big.Int).Mod(ns, big.NewInt(1e9)).Sign() != 0, "sub-second part")
		}
		gs = append(gs, xs)
	}
	t.LabelIf(groups > 1, "parallel sleepers")
	if total > 0 {
		t.Nontrivial()
	}
	bubble(t, func() {
		var wg sync.WaitGroup
		defer wg.Wait() // the bubble ends when every sleeper has
		for _, xs := range gs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, x := range xs {
					start := time.Now()
					func() {
						defer func() { x.panicv = recover() }()
						g.Sleep(x.d)
					}()
					x.took = time.Since(start)
				}
			}()
		}
	})
	for _, xs := range gs {
		for _, x := range xs {
			t.Check(x.panicv == nil, "Sleep(%v) panicked: %v", x.ns, x.panicv)
			t.Check(x.took >= x.ns, "Sleep(%d ns) returned after %d ns", x.ns, x.took)
			t.Check(x.took-x.ns <= time.Millisecond, "Sleep(%d ns) returned only after %d ns", x.ns, x.took)
			t.Check(x.ns > 0 || x.took == 0, "Sleep(0) took %v", x.took)
		}
	}
}

var C38 = &pbt.Prop{ID: "C38",
	Rule: "One to three parallel sleepers, each sleeping one to three durations built by any constructor (zero, single nanoseconds, sub-second parts, up to decades), under the virtual clock of testing/synctest; oracle: requested <= elapsed <= requested + 1 ms; one case in 50000 asks for more than 292 years and must be refused or not return. Non-trivial: at least one Sleep.",
	Run:  runSleep, Quick: 1000000, Thorough: 40000000,
	Assumptions: []string{"Sleep waits through package time, so the virtual clock governs it.", "A duration beyond Go's timer range (292 years) may be refused by a panic."}}
