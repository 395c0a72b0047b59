package race

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

// box is plain memory: touching it from two goroutines without an order
// between them is a data race, which the detector reports.
type box struct {
	n     int
	trail []int
	m     map[int]int
}

func (b *box) touch(k int) {
	b.n++
	b.trail = append(b.trail, k)
	if b.m == nil {
		b.m = map[int]int{}
	}
	b.m[k]++
}

// wait polls for something that must come.
func wait(t *pbt.T, what string, done chan struct{}) {
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Failf("%s does not end", what)
	}
}

func lag(k int) {
	switch k % 4 {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(k%50) * time.Microsecond)
	}
}

var C47 = &pbt.Prop{
	ID:    "C47",
	Rule:  "2..6 goroutines that touch plain memory handed over by one of: Mutex Lock/Unlock and successful TryLock, Spawn and Join or IsFinished, gokio.Spawn and Await, gokio file calls, or a chain of these, under the race detector; every hand-over must order the accesses, and no update may be lost; non-trivial = two or more hand-overs",
	Quick: 10000, Thorough: 400000, NoShrink: true,
	Run: func(t *pbt.T) {
		switch t.Weighted(4, 4, 3, 2, 1) {
		case 0:
			overMutex(t)
		case 1:
			overThreads(t)
		case 2:
			overFutures(t)
		case 3:
			overChain(t)
		default:
			overFiles(t)
		}
	},
	Assumptions: []string{"the race detector reports no false races; it misses races that the schedules explored do not execute"},
}

func overMutex(t *pbt.T) {
	t.Label("Mutex")
	mu := g.MutexNew(box{n: 100})
	side := &box{} // guarded by mu as well
	n := 2 + t.Intn(5)
	turns := make([][]int, n)
	for i := range turns {
		for k := 1 + t.Intn(20); k > 0; k-- {
			turns[i] = append(turns[i], t.Intn(1000))
		}
	}
	t.Nontrivial()
	t.Logf("%d goroutines, turns %v", n, turns)
	done := make(chan struct{})
	total := make([]int, n)
	var wg sync.WaitGroup
	for i := range turns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, k := range turns[i] {
				var b *box
				if k%3 == 0 {
					r := mu.TryLock()
					if r.IsErr() {
						lag(k)
						continue
					}
					b = r.Unwrap()
				} else {
					b = mu.Lock()
				}
				b.touch(i)
				side.touch(i)
				lag(k)
				total[i]++
				mu.Unlock()
				lag(k / 7)
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	wait(t, "a mutex history", done)
	b := mu.Lock()
	sum := 0
	for i, k := range total {
		sum += k
		t.Check(b.m[i] == k && side.m[i] == k, "goroutine %d made %d updates, the value has %d, the guarded memory %d", i, k, b.m[i], side.m[i])
	}
	t.Check(b.n == 100+sum && side.n == sum && len(b.trail) == sum, "%d updates; the value counts %d", sum, b.n-100)
	mu.Unlock()
}

func overThreads(t *pbt.T) {
	t.Label("Spawn, Join and IsFinished")
	n := 1 + t.Intn(5)
	t.Nontrivial()
	t.Logf("%d threads", n)
	type thread struct {
		in, out *box
		h       g.JoinHandle
	}
	ths := make([]*thread, n)
	for i := range ths {
		th := &thread{in: &box{}, out: &box{}}
		ths[i] = th
		th.in.touch(i) // before Spawn: visible to the function
		k := t.Intn(1000)
		t.NoPanic("Spawn", func() {
			th.h = g.Spawn(func() {
				th.in.touch(i + 1)
				lag(k)
				for j := 0; j < k%20; j++ {
					th.out.touch(j)
				}
				th.out.n = 7 * i
			})
		})
	}
	// readers: after Join or once IsFinished, what the function wrote is visible
	done := make(chan struct{})
	var wg sync.WaitGroup
	errs := make(chan string, 100)
	for r := 1 + t.Intn(3); r > 0; r-- {
		order := t.Intn(n)
		poll := t.Bool()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ths {
				th := ths[(i+order)%n]
				if poll {
					for end := time.Now().Add(25 * time.Second); !th.h.IsFinished(); {
						if time.Now().After(end) {
							errs <- "IsFinished stays false"
							return
						}
						runtime.Gosched()
					}
				} else if res := th.h.Join(); res.IsErr() {
					errs <- "Join returns Err"
					return
				}
				if th.out.n != 7*((i+order)%n) || th.in.n != 2 {
					errs <- fmt.Sprintf("after Join (or IsFinished) of thread %d its results are not there", (i+order)%n)
					return
				}
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	wait(t, "joining", done)
	select {
	case e := <-errs:
		t.Failf("%s", e)
	default:
	}
}

func overFutures(t *pbt.T) {
	t.Label("gokio.Spawn and Await")
	n := 1 + t.Intn(6)
	t.Nontrivial()
	t.Logf("%d futures", n)
	fs := make([]g.Future[*box], n)
	ins := make([]*box, n)
	for i := range fs {
		ins[i] = &box{}
		ins[i].touch(i)
		k := t.Intn(1000)
		t.NoPanic("gokio.Spawn", func() {
			fs[i] = gokio.Spawn(func() *box {
				ins[i].touch(i + 1)
				lag(k)
				b := &box{n: i}
				for j := 0; j < k%20; j++ {
					b.touch(j)
				}
				return b
			})
		})
	}
	off := t.Intn(n)
	done := make(chan struct{})
	bad := ""
	get := func() {
		defer close(done)
		for i := range fs {
			at := (i + off) % n
			b := fs[at].Await()
			if b == nil {
				bad = fmt.Sprintf("Await of future %d gives nil", at)
				return
			}
			if b.n != at+len(b.trail) || ins[at].n != 2 {
				bad = fmt.Sprintf("Await of future %d gives %d, %d", at, b.n, len(b.trail))
				return
			}
			b.touch(-1)
			ins[at].touch(-2)
		}
	}
	go get()
	wait(t, "awaiting", done)
	t.Check(bad == "", "%s", bad)
}

// overChain passes one piece of memory along threads, futures and the mutex.
func overChain(t *pbt.T) {
	t.Label("chain")
	b := &box{}
	k := 2 + t.Intn(8)
	t.Nontrivial()
	how := make([]int, k)
	for i := range how {
		how[i] = t.Intn(4)
	}
	t.Logf("hand-overs %v", how)
	mu := g.MutexNew(0)
	done := make(chan struct{})
	var next func(i int)
	next = func(i int) {
		b.touch(i)
		if i+1 >= k {
			return
		}
		switch how[i] {
		case 0:
			h := g.Spawn(func() { next(i + 1) })
			h.Join()
		case 1:
			f := gokio.Spawn(func() int { next(i + 1); return i })
			if f.Await() != i {
				panic("Await returns another value")
			}
		case 2:
			h := g.Spawn(func() { next(i + 1) })
			for !h.IsFinished() {
				runtime.Gosched()
			}
		default: // hand over by the mutex alone
			h := make(chan bool)
			*mu.Lock() = 0
			go func() {
				h <- true
				mu.Lock()
				mu.Unlock()
				b.touch(100)
				p := mu.Lock()
				*p = 1
				mu.Unlock()
			}()
			b.touch(200)
			<-h
			b.touch(300)
			mu.Unlock()
			for {
				p := mu.Lock()
				v := *p
				mu.Unlock()
				if v == 1 {
					break
				}
				runtime.Gosched()
			}
			b.touch(400)
			next(i + 1)
		}
		b.touch(-i)
	}
	var caught any
	go func() {
		defer close(done)
		defer func() { caught = recover() }()
		next(0)
	}()
	wait(t, "a chain of hand-overs", done)
	t.Check(caught == nil, "a chain of hand-overs panicked: %v", caught)
	want := 2*k - 1
	for _, h := range how[:k-1] {
		if h == 3 {
			want += 4
		}
	}
	t.Check(b.n == want && len(b.trail) == want, "%d updates made, %d counted", want, b.n)
}

func overFiles(t *pbt.T) {
	t.Label("gokio file calls")
	t.Nontrivial()
	n := 1 + t.Intn(4)
	done := make(chan struct{})
	bad := ""
	t.Logf("%d files", n)
	// several processes share the working directory
	dir := fmt.Sprintf("race-%d", os.Getpid())
	os.RemoveAll(dir)
	if os.MkdirAll(dir, 0o755) != nil {
		return
	}
	name := func(i int) g.String { return g.String(fmt.Sprintf("%s/f%d", dir, i)) }
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = t.Intn(pbt.Pick(t, 10, 5000))
	}
	go func() {
		defer close(done)
		datas := make([][]g.Byte, n)
		var ws []g.Future[g.Result[any]]
		for i, size := range sizes {
			datas[i] = make([]g.Byte, size)
			for j := range datas[i] {
				datas[i][j] = g.Byte(i + j)
			}
			ws = append(ws, gokio.Write(name(i), datas[i]))
		}
		for i, w := range ws {
			if r := w.Await(); r.IsErr() {
				bad = fmt.Sprintf("Write %d: %v", i, r.UnwrapErr())
				return
			}
			for j := range datas[i] { // the write is over: the data are ours again
				datas[i][j]++
			}
		}
		var rs []g.Future[g.Result[[]g.Byte]]
		for i := range sizes {
			rs = append(rs, gokio.Read(name(i)))
		}
		for i, f := range rs {
			r := f.Await()
			if r.IsErr() {
				bad = fmt.Sprintf("Read %d: %v", i, r.UnwrapErr())
				return
			}
			x := r.Unwrap()
			if len(x) != sizes[i] {
				bad = fmt.Sprintf("Read %d: %d bytes of %d", i, len(x), sizes[i])
				return
			}
			for j := range x {
				if x[j] != g.Byte(i+j) {
					bad = fmt.Sprintf("Read %d: byte %d is %d", i, j, x[j])
					return
				}
				x[j] = 0
			}
		}
		d := gokio.ReadDir(g.String(dir)).Await()
		if d.IsErr() {
			bad = "ReadDir fails"
			return
		}
		v := d.Unwrap()
		if int(v.Len()) != n {
			bad = fmt.Sprintf("ReadDir gives %d entries of %d", v.Len(), n)
			return
		}
		for i := g.USize(0); i < v.Len(); i++ {
			e := v.GetUnchecked(i)
			e.FileName += "?"
			v.SetUnchecked(i, e)
		}
		for i := range sizes {
			if r := gokio.RemoveFile(name(i)).Await(); r.IsErr() {
				bad = fmt.Sprintf("RemoveFile %d: %v", i, r.UnwrapErr())
				return
			}
		}
	}()
	wait(t, "gokio calls", done)
	t.Check(bad == "", "%s", bad)
}
