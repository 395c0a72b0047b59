package conc

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/fsutil"
	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

type fut struct {
	gate    chan struct{}
	open    bool
	started counter
	ended   counter
	want    int
	f       g.Future[g.Result[*int]]
	awaited bool
	back    chan g.Result[*int] // awaited by another goroutine
	early   counter             // Await returned before the function did
}

func runFutures(t *pbt.T) {
	vals := make([]int, 64)
	var fs []*fut
	defer func() {
		for _, x := range fs {
			if !x.open {
				x.open = true
				close(x.gate)
			}
			if !x.awaited { // let a future nobody awaited end
				go x.f.Await()
			}
		}
	}()
	check := func(k int, r g.Result[*int]) {
		x := fs[k]
		if x.want < 0 {
			t.Check(bool(r.IsErr()), "future %d delivered Ok, its function returned Err", k)
			t.Check(r.UnwrapErr() == errOf(k), "future %d delivered the error %v", k, r.UnwrapErr())
			return
		}
		t.Check(bool(r.IsOk()) && r.Unwrap() == &vals[x.want], "future %d delivered another value than its function returned", k)
	}
	n := 2 + t.Intn(16)
	late, early := 0, 0
	for i := 0; i < n; i++ {
		if len(fs) == 0 || len(fs) < 8 && t.OneIn(3) {
			x := &fut{gate: make(chan struct{}), want: t.Intn(9) - 1}
			if t.OneIn(3) {
				x.open = true
				close(x.gate)
			}
			k := len(fs)
			t.Logf("f%d := gokio.Spawn (may end: %v)", k, x.open)
			bounded(t, "gokio.Spawn", func() {
				x.f = gokio.Spawn(func() g.Result[*int] {
					x.started.inc()
					<-x.gate
					r := g.Err[*int](errOf(k))
					if x.want >= 0 {
						r = g.Ok(&vals[x.want])
					}
					x.ended.inc()
					return r
				})
			})
			fs = append(fs, x)
			settle(t)
			continue
		}
		k := t.Intn(len(fs))
		x := fs[k]
		switch t.Weighted(3, 3, 3, 1) {
		case 0:
			if !x.open {
				t.Logf("f%d's function may end", k)
				x.open = true
				close(x.gate)
				if t.Bool() { // it runs to its end whether or not it is awaited
					eventually(t, fmt.Sprintf("the end of f%d's function", k), func() bool { return x.ended.get() > 0 })
				}
			}
		case 1:
			if x.open && !x.awaited {
				x.awaited = true
				late++
				t.Logf("f%d.Await()", k)
				var r g.Result[*int]
				bounded(t, fmt.Sprintf("Await of future %d", k), func() {
					r = x.f.Await()
					t.Check(x.ended.get() > 0, "Await of future %d returned before its function did", k)
				})
				check(k, r)
			}
		case 2:
			if !x.awaited {
				x.awaited = true
				if !x.open {
					early++
				}
				t.Logf("go f%d.Await()", k)
				x.back = make(chan g.Result[*int], 1)
				go func() {
					r := x.f.Await()
					if x.ended.get() == 0 {
						x.early.inc()
					}
					x.back <- r
				}()
			}
		default:
			settle(t)
		}
		for k, x := range fs {
			if !x.open && x.back != nil {
				t.Check(len(x.back) == 0, "Await of future %d returned while its function runs", k)
			}
		}
	}
	order := make([]int, len(fs))
	for i := range order {
		order[i] = i
	}
	for i := len(order) - 1; i > 0; i-- {
		j := t.Intn(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	if t.OneIn(100) { // many at once
		crowd := 20 + t.Intn(1500)
		t.Logf("%d more futures, all running at once", crowd)
		t.Label("a crowd")
		gate := make(chan struct{})
		var in counter
		cs := make([]g.Future[int], crowd)
		func() {
			defer close(gate)
			bounded(t, fmt.Sprintf("gokio.Spawn number %d", crowd), func() {
				for i := range cs {
					cs[i] = gokio.Spawn(func() int { in.inc(); <-gate; return i })
				}
			})
			eventually(t, fmt.Sprintf("the start of all %d functions", crowd), func() bool { return in.get() == crowd })
		}()
		for i := range cs {
			bounded(t, fmt.Sprintf("Await %d of %d", i, crowd), func() {
				v := cs[i].Await()
				t.Check(v == i, "future %d of %d delivered %d", i, crowd, v)
			})
		}
	}
	for k, x := range fs {
		eventually(t, fmt.Sprintf("f%d's function being started", k), func() bool { return x.started.get() > 0 })
		if !x.open {
			x.open = true
			close(x.gate)
		}
	}
	for k, x := range fs {
		eventually(t, fmt.Sprintf("the end of f%d's function", k), func() bool { return x.ended.get() > 0 })
	}
	for _, k := range order {
		x := fs[k]
		if x.back != nil {
			var r g.Result[*int]
			eventually(t, fmt.Sprintf("the return of Await of future %d", k), func() bool {
				select {
				case r = <-x.back:
					return true
				default:
					return false
				}
			})
			t.Check(x.early.get() == 0, "Await of future %d returned before its function did", k)
			check(k, r)
		} else if !x.awaited {
			if t.OneIn(4) {
				continue // never awaited
			}
			x.awaited = true
			late++
			var r g.Result[*int]
			bounded(t, fmt.Sprintf("Await of future %d", k), func() { r = x.f.Await() })
			check(k, r)
		}
	}
	for k, x := range fs {
		t.Check(x.started.get() == 1 && x.ended.get() == 1, "f%d's function was started %d times and ended %d times", k, x.started.get(), x.ended.get())
	}
	t.Label("futures")
	t.LabelIf(early > 0, "awaited before the end")
	t.LabelIf(len(fs) > 1, "several futures")
	if len(fs) > 1 || early+late > 0 {
		t.Nontrivial()
	}
}

// runFuturesClock awaits futures of known durations under the virtual clock,
// where no time limit inside the code under test is too long to be reached.
func runFuturesClock(t *pbt.T) {
	type fu struct {
		dur, at, by, end time.Duration
		runs, got        int
		skip             bool
	}
	var fs []*fu
	for n := 1 + t.Intn(6); n > 0; n-- {
		x := &fu{dur: genHours(t), skip: t.OneIn(8), got: -1}
		if t.Bool() {
			x.at = genHours(t)
		}
		t.Logf("Spawn: runs for %v; awaited at %v (never: %v)", x.dur, x.at, x.skip)
		t.LabelIf(x.dur > time.Hour, "runs for hours")
		fs = append(fs, x)
	}
	bubble(t, func() {
		var wg sync.WaitGroup
		defer wg.Wait()
		start := time.Now()
		for i, x := range fs {
			wg.Add(1)
			f := gokio.Spawn(func() int {
				if !x.skip { // nobody awaits: Spawn's goroutine may stay behind
					defer wg.Done()
				}
				x.runs++
				time.Sleep(x.dur)
				x.end = time.Since(start)
				return 100 + i
			})
			if x.skip {
				go func() { // collect it at last, so that nothing is left in the bubble
					defer wg.Done()
					time.Sleep(x.dur + time.Second)
					if x.end == 0 && x.dur > 0 {
						x.runs = -1
					}
					f.Await()
				}()
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(x.at)
				x.got = f.Await()
				x.by = time.Since(start)
			}()
		}
	})
	for i, x := range fs {
		t.Check(x.runs != -1, "the function of future %d, which nobody awaited for %v, has not run for its %v", i, x.dur+time.Second, x.dur)
		t.Check(x.runs == 1, "the function of future %d ran %d times", i, x.runs)
		if x.skip {
			continue
		}
		t.Check(x.got == 100+i, "Await of future %d at %v = %d, want %d", i, x.at, x.got, 100+i)
		t.Check(x.by >= x.dur, "Await of future %d returned at %v, its function at %v", i, x.by, x.end)
	}
	t.Label("virtual clock")
	t.Nontrivial()
}

type kerr int

func (e kerr) Error() string { return fmt.Sprintf("error %d", int(e)) }
func errOf(k int) error      { return kerr(k) }

// runFileFutures runs one history through gokio in one tree and through gost
// in another.
func runFileFutures(t *pbt.T) {
	top := fsutil.Scratch()
	defer fsutil.Remove(top)
	da, db := filepath.Join(top, "x"), filepath.Join(top, "y") // names of equal length
	if fsutil.Sync(fsutil.Op{Name: "CreateDir", A: da}).Ok != fsutil.Async(fsutil.Op{Name: "CreateDir", A: db})().Ok {
		t.Failf("CreateDir differs")
	}
	names := []string{"a", "b", "d", "d/a", "d/b", "d/e", "d/e/a", "missing/x", strings.Repeat("n", 300)}
	path := func() string { return names[t.Weighted(5, 5, 5, 4, 3, 2, 2, 1, 1)] }
	n := 2 + t.Intn(14)
	if t.Thorough && t.OneIn(3) {
		n = 20 + t.Intn(100)
	}
	oks, errs := 0, 0
	type pending struct {
		op    fsutil.Op
		await func() fsutil.Outcome
		sync  fsutil.Outcome
	}
	compare := func(op fsutil.Op, a, b fsutil.Outcome) {
		t.Check(a.Ok == b.Ok, "%s: gokio %s, gost %s", op, a, b)
		if !a.Ok {
			x := strings.ReplaceAll(a.Err.Error(), da, "@")
			y := strings.ReplaceAll(b.Err.Error(), db, "@")
			t.Check(x == y, "%s: gokio's error is %q, gost's is %q", op, x, y)
			errs++
			return
		}
		oks++
		t.Check(string(a.Data) == string(b.Data), "%s: gokio returned %d bytes, gost %d", op, len(a.Data), len(b.Data))
		t.Check(len(a.Entries) == len(b.Entries), "%s: gokio lists %d entries, gost %d", op, len(a.Entries), len(b.Entries))
		for i := range a.Entries {
			p, q := a.Entries[i], b.Entries[i]
			same := p.FileName == q.FileName && p.FileType == q.FileType &&
				strings.ReplaceAll(string(p.Path), da, "@") == strings.ReplaceAll(string(q.Path), db, "@")
			t.Check(same, "%s: entry %d: gokio %+v, gost %+v", op, i, p, q)
		}
		t.Label("gokio." + op.Name + " Ok")
	}
	for i := 0; i < n; i++ {
		// reads may be in flight together; changes are awaited one by one
		batch := 1
		reads := t.OneIn(3)
		if reads {
			batch = 1 + t.Intn(4)
		}
		var ps []pending
		for k := 0; k < batch; k++ {
			var op fsutil.Op
			if reads {
				op.Name = pbt.Pick(t, "Read", "ReadToString", "ReadDir")
			} else {
				op.Name = []string{"Write", "CreateDir", "Copy", "Rename", "RemoveFile", "RemoveDir"}[t.Weighted(5, 4, 3, 3, 2, 2)]
			}
			p, q := path(), path()
			if op.Name == "ReadDir" && t.Bool() {
				p = pbt.Pick(t, "d", ".", "d/e")
			}
			if op.Name == "Write" {
				op.Data = []byte(genBytes(t))
			}
			oa, ob := op, op
			oa.A, ob.A = filepath.Join(da, p), filepath.Join(db, p)
			if op.Name == "Copy" || op.Name == "Rename" {
				oa.B, ob.B = filepath.Join(da, q), filepath.Join(db, q)
			}
			t.Logf("%s %q %q", op.Name, p, oa.B)
			x := pending{op: oa, await: fsutil.Async(oa)}
			x.sync = fsutil.Sync(ob)
			ps = append(ps, x)
		}
		if t.Bool() {
			for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
				ps[i], ps[j] = ps[j], ps[i]
			}
		}
		settle(t)
		if !reads && t.OneIn(5) { // not awaited now: it takes effect all the same
			t.Logf("  (awaited only after its effect is seen)")
			t.Label("a change seen before Await")
			eventually(t, "the effect of "+ps[0].op.String()+", which nobody has awaited yet,", func() bool {
				return fsutil.Diff(fsutil.Snapshot(da), fsutil.Snapshot(db), true) == ""
			})
		}
		for _, x := range ps {
			var r fsutil.Outcome
			bounded(t, "Await of gokio."+x.op.Name, func() { r = x.await() })
			compare(x.op, r, x.sync)
		}
		if d := fsutil.Diff(fsutil.Snapshot(da), fsutil.Snapshot(db), true); d != "" {
			t.Failf("the tree changed through gokio differs from the one changed through gost: %s", d)
		}
	}
	t.Label("files")
	t.LabelIf(errs > 0, "a failing call")
	if oks > 1 {
		t.Nontrivial()
	}
}

func genBytes(t *pbt.T) string {
	n := t.Intn(40)
	if t.OneIn(5) {
		n = t.Intn(70000)
	}
	c := pbt.Pick(t, "ab", "\xff\x00", "é")
	return strings.Repeat(c, n/2) + "end"[:t.Intn(4)]
}

var C34 = &pbt.Prop{ID: "C34",
	Rule: "Either a random schedule of 1-8 futures (spawning, letting a function end, awaiting from the main or another goroutine before or after the end, never awaiting), with gates so that what must not have happened yet is certain, sometimes with up to 1500 unfinished futures at once; or futures of known durations up to years under the virtual clock of testing/synctest; or a random history of file calls made through gokio in one tree and through gost in a twin tree (reads also in flight together), comparing results, error texts and the whole trees after every step. Non-trivial: several futures or an await; at least two successful file calls.",
	Run: func(t *pbt.T) {
		switch t.Intn(6) {
		case 0, 1:
			runFutures(t)
		case 2:
			runFuturesClock(t)
		default:
			runFileFutures(t)
		}
	}, Quick: 30000, Thorough: 1200000,
	Assumptions: []string{"Something that must happen counts as missing after 30 s.", "A second Await of one future is outside the domain."}}
