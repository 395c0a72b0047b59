package conc

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

type state struct {
	A, B  int
	Trail [4]int
}

// runMutexHistory drives workers one command at a time against a model.
func runMutexHistory(t *pbt.T) {
	init := state{A: t.Intn(1000), B: t.Intn(5)}
	mu := g.MutexNew(init)
	cur := init // the model's value
	nw := 1 + t.Intn(5)
	type worker struct {
		cmd     chan int // 0: Lock, 1: Unlock, 2: stop
		waiting bool     // asked for the lock
		got     atomic.Pointer[state]
		holds   bool
		unl     counter
		p       *state
	}
	var inside, overlap atomic.Int32
	ws := make([]*worker, nw)
	for i := range ws {
		w := &worker{cmd: make(chan int, 1)}
		ws[i] = w
		go func() {
			for c := range w.cmd {
				switch c {
				case 0:
					p := mu.Lock()
					if inside.Add(1) != 1 {
						overlap.Add(1)
					}
					w.got.Store(p)
				case 1:
					inside.Add(-1)
					mu.Unlock()
					w.unl.inc()
				}
			}
		}()
	}
	holder := -1 // -1: free; nw: the main goroutine
	defer func() {
		// release what is held so that blocked workers end
		for k := 0; k <= nw; k++ {
			if holder >= 0 && holder < nw {
				ws[holder].cmd <- 1
			} else if holder == nw {
				mu.Unlock()
			}
			holder = -1
			for j := 0; j < 2000 && holder < 0; j++ {
				nwait := 0
				for i, w := range ws {
					if w.waiting {
						nwait++
						if w.got.Load() != nil {
							w.waiting, holder = false, i
							w.got.Store(nil)
							break
						}
					}
				}
				if nwait == 0 {
					break
				}
				if j < 200 {
					runtime.Gosched()
				} else {
					time.Sleep(10 * time.Microsecond)
				}
			}
			if holder < 0 {
				break
			}
		}
		for _, w := range ws {
			close(w.cmd)
		}
	}()
	var mainP *state
	look := func(who string, p *state) {
		t.Check(p != nil, "%s got a nil pointer", who)
		t.Check(*p == cur, "%s sees %+v, the last value written under the lock is %+v", who, *p, cur)
	}
	write := func(p *state) {
		switch t.Intn(4) {
		case 0:
			p.A++
			cur.A++
		case 1:
			v := t.Intn(100)
			p.Trail[v%4], p.B = v, p.B+v
			cur.Trail[v%4], cur.B = v, cur.B+v
		case 2:
			*p = state{A: 1 + t.Intn(50)}
			cur = *p
		}
	}
	// settleWaiters: a free mutex with waiters is taken by one of them.
	settleWaiters := func() {
		nwait := 0
		for _, w := range ws {
			if w.waiting {
				nwait++
			}
		}
		if holder >= 0 || nwait == 0 {
			return
		}
		eventually(t, "one of the waiting Lock calls returning after Unlock", func() bool {
			for i, w := range ws {
				if w.waiting && w.got.Load() != nil {
					holder = i
					return true
				}
			}
			return false
		})
		w := ws[holder]
		w.waiting, w.holds = false, true
		w.p = w.got.Load()
		w.got.Store(nil)
		t.Logf("goroutine %d has the lock", holder)
		look(fmt.Sprintf("goroutine %d", holder), w.p)
	}
	noOther := func() {
		for i, w := range ws {
			t.Check(!(w.waiting && w.got.Load() != nil), "Lock of goroutine %d returned while another holds the mutex", i)
		}
		t.Check(overlap.Load() == 0, "two goroutines held the mutex at the same time")
	}
	n := 3 + t.Intn(22)
	if t.Thorough && t.OneIn(3) {
		n = 30 + t.Intn(300)
	}
	acq, tries, contended := 0, 0, 0
	for s := 0; s < n; s++ {
		switch t.Weighted(4, 3, 4, 4) {
		case 0: // a worker asks for the lock
			i := t.Intn(nw)
			w := ws[i]
			if w.waiting || holder == i {
				continue
			}
			t.Logf("goroutine %d: Lock()", i)
			w.waiting = true
			w.cmd <- 0
			acq++
			if holder >= 0 {
				contended++
				settle(t)
			} else {
				settleWaiters()
			}
		case 1: // the main goroutine locks a free mutex
			if holder >= 0 {
				continue
			}
			t.Logf("main: Lock()")
			bounded(t, "Lock of a free mutex", func() { mainP = mu.Lock() })
			holder = nw
			acq++
			look("main", mainP)
		case 2: // TryLock from the main goroutine
			tries++
			var r g.Result[*state]
			held := holder >= 0
			t.Logf("main: TryLock()  // held: %v", held)
			bounded(t, "TryLock", func() { r = mu.TryLock() })
			if held {
				t.Check(bool(r.IsErr()) && !bool(r.IsOk()), "TryLock of a held mutex = Ok")
				t.Check(r.UnwrapErr() != nil && r.UnwrapErr().Error() != "", "TryLock's error has no text")
			} else {
				t.Check(bool(r.IsOk()), "TryLock of a free mutex = Err")
				mainP = r.Unwrap()
				holder = nw
				acq++
				look("main", mainP)
			}
		default: // whoever holds it works and maybe unlocks
			if holder < 0 {
				continue
			}
			p := mainP
			if holder < nw {
				p = ws[holder].p
			}
			look("the holder", p)
			write(p)
			noOther()
			if t.OneIn(3) {
				continue
			}
			if holder == nw {
				t.Logf("main: Unlock()")
				bounded(t, "Unlock", func() { mu.Unlock() })
			} else {
				w := ws[holder]
				t.Logf("goroutine %d: Unlock()", holder)
				u := w.unl.get()
				w.cmd <- 1
				w.holds = false
				eventually(t, "Unlock returning", func() bool { return w.unl.get() > u })
			}
			holder = -1
			settleWaiters()
		}
		if holder >= 0 {
			noOther()
		}
	}
	t.LabelIf(contended > 0, "blocked Lock")
	t.LabelIf(tries > 0, "TryLock")
	t.Label("history")
	if acq >= 2 {
		t.Nontrivial()
	}
}

// runMutexStress counts under real contention.
func runMutexStress(t *pbt.T) {
	init := t.Intn(1000)
	mu := g.MutexNew([2]int{init, -init})
	nw := 2 + t.Intn(7)
	per := 1 + t.Intn(60)
	style := make([]int, nw)
	yield := make([]int, nw)
	for i := range style {
		style[i] = t.Intn(3) // Lock, TryLock until Ok, mixed
		yield[i] = t.Intn(4)
	}
	procs := runtime.GOMAXPROCS(pbt.Pick(t, 1, 2, 4, 8))
	defer runtime.GOMAXPROCS(procs)
	t.Logf("%d goroutines, %d acquisitions each, styles %v, yields %v", nw, per, style, yield)
	t.Label("stress")
	t.Nontrivial()
	var inside, overlap, refused, torn atomic.Int32
	var wg sync.WaitGroup
	begin := make(chan struct{})
	work := func(p *[2]int, y int) {
		if inside.Add(1) != 1 {
			overlap.Add(1)
		}
		a, b := p[0], p[1]
		if a != -b {
			torn.Add(1)
		}
		for k := 0; k < y; k++ {
			runtime.Gosched()
		}
		p[0] = a + 1
		if y > 2 {
			runtime.Gosched()
		}
		p[1] = b - 1
		inside.Add(-1)
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for k := 0; k < per; k++ {
				if style[i] == 0 || style[i] == 2 && k%2 == 0 {
					work(mu.Lock(), yield[i])
					mu.Unlock()
					continue
				}
				for {
					r := mu.TryLock()
					if r.IsOk() {
						work(r.Unwrap(), yield[i])
						mu.Unlock()
						break
					}
					refused.Add(1)
					runtime.Gosched()
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	close(begin)
	eventually(t, "the end of all critical sections", func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	})
	t.Check(overlap.Load() == 0, "two goroutines were inside the critical section %d times", overlap.Load())
	t.Check(torn.Load() == 0, "a goroutine saw another's half-made update %d times", torn.Load())
	want := init + nw*per
	var p *[2]int
	bounded(t, "Lock after all were done", func() { p = mu.Lock() })
	t.Check(*p == [2]int{want, -want}, "after %d increments of %d the value is %v", nw*per, init, *p)
	mu.Unlock()
	r := mu.TryLock()
	t.Check(bool(r.IsOk()), "TryLock of the idle mutex = Err")
	mu.Unlock()
	t.LabelIf(refused.Load() > 0, "TryLock refused under contention")
}

var C35 = &pbt.Prop{ID: "C35",
	Rule: "Either a random history of Lock (by 1-5 goroutines, blocking while held), Lock/TryLock of the main goroutine, writes and Unlock, stepped one command at a time against a model (holder, value); or a stress run of 2-8 goroutines doing 1-60 read-yield-write updates each under Lock and/or TryLock with GOMAXPROCS 1-8, an overlap detector and the final sum. Non-trivial: at least two acquisitions.",
	Run: func(t *pbt.T) {
		if t.OneIn(4) {
			runMutexStress(t)
		} else {
			runMutexHistory(t)
		}
	}, Quick: 90000, Thorough: 3600000,
	Assumptions: []string{"Something that must happen counts as missing after 30 s.", "Unlock of a free mutex is outside the domain."}}
