package misc

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// genLine draws a line without line terminators.
func genLine(t *pbt.T) string {
	var s string
	switch t.Weighted(2, 4, 3, 2, 1) {
	case 0:
	case 1:
		s = genText(t, 6)
	case 2: // words and blanks
		for i := t.Intn(6); i >= 0; i-- {
			s += pbt.Pick(t, "a", "bc", " ", "  ", "\t", "end")
		}
	case 3:
		s = genStr(t, 8)
	default:
		k := t.Intn(pbt.Pick(t, 100, 3000, 5000))
		if t.Thorough && t.OneIn(3) { // past every usual buffer size
			k = t.Intn(70000)
		}
		s = strings.Repeat(pbt.Pick(t, "x", "long line ", "é", "한 "), k)
	}
	return strings.NewReplacer("\n", "", "\r", "").Replace(s)
}

func runReadLine(t *pbt.T) {
	nl := t.Intn(7)
	if t.Thorough && t.OneIn(3) {
		nl = t.Intn(60)
	}
	if k, ok := t.Huge(20, 300); ok {
		nl = k
	}
	lines := make([]string, nl)
	input := ""
	crlf := t.OneIn(4)
	lastOpen := false
	for i := range lines {
		lines[i] = genLine(t)
		input += lines[i]
		if i == nl-1 && t.OneIn(3) && lines[i] != "" {
			lastOpen = true
		} else if crlf && t.Bool() {
			input += "\r\n"
		} else {
			input += "\n"
		}
	}
	t.Logf("input %s", pbt.Show(strings.Split(input, "")))
	t.Logf("lines %q, last one unterminated: %v", lines, lastOpen)
	// the pieces the writer sends
	var pieces []string
	rest := input
	for len(rest) > 0 && len(pieces) < 40 {
		n := 1 + t.Intn(len(rest))
		if t.Bool() && n > 7 {
			n = 1 + t.Intn(7)
		}
		pieces = append(pieces, rest[:n])
		rest = rest[n:]
	}
	if rest != "" {
		pieces = append(pieces, rest)
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdin
	os.Stdin = r
	done := make(chan struct{})
	go func() {
		defer close(done)
		for _, p := range pieces {
			if _, err := io.WriteString(w, p); err != nil {
				break
			}
		}
		w.Close()
	}()
	defer func() {
		os.Stdin = old
		r.Close()
		<-done
	}()
	words := false
	for _, l := range lines {
		words = words || strings.ContainsAny(l, " \t")
	}
	t.LabelIf(crlf, "CRLF")
	t.LabelIf(words, "blanks inside a line")
	t.LabelIf(lastOpen, "unterminated last line")
	if nl > 0 {
		t.Nontrivial()
	}
	if t.OneIn(6) && nl > 1 { // concurrent callers of one handle
		t.Label("concurrent")
		var in g.Stdin
		got := make([]g.String, nl)
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := ""
		for i := 0; i < nl; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if p, v := pbt.Catch(func() { in.ReadLine(&got[i]) }); p {
					mu.Lock()
					bad = fmt.Sprint(v)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		t.Check(bad == "", "ReadLine panicked: %s", bad)
		var a, b []string
		for i := range got {
			a, b = append(a, string(got[i])), append(b, lines[i])
		}
		sort.Strings(a)
		sort.Strings(b)
		t.Check(strings.Join(a, "\n") == strings.Join(b, "\n"), "%d concurrent ReadLine calls read %.300q, the lines are %.300q", nl, a, b)
		return
	}
	handles := make([]g.Stdin, 1+b2i(t.OneIn(4)))
	t.LabelIf(len(handles) > 1, "two handles")
	var buf g.String
	fresh := t.Bool()
	want := ""
	for i := 0; i < nl+2; i++ {
		if fresh || t.OneIn(4) {
			s := pbt.Pick(t, "", "pre", "é ")
			buf, want = g.String(s), s
		}
		if i < nl {
			want += lines[i]
		} else {
			t.Label("read at end of input")
		}
		h := t.Intn(len(handles))
		t.NoPanic("ReadLine", func() { handles[h].ReadLine(&buf) })
		t.Check(string(buf) == want, "buffer after ReadLine %d of %d lines = %.300q, want %.300q", i+1, nl, string(buf), want)
	}
}

var C42 = &pbt.Prop{ID: "C42",
	Rule: "0-6 lines (empty, words with blanks, multi-byte, up to tens of kB) with LF or CRLF terminators and an optional unterminated last line, fed through a pipe in random pieces as os.Stdin; read by one handle, two alternating handles (fresh or accumulating buffers, two reads past the end) or by concurrent goroutines on one handle. Oracle: the generated lines. Non-trivial: at least one line.",
	Run:  runReadLine, Quick: 20000, Thorough: 800000,
	Assumptions: []string{"CR LF counts as one line terminator; a lone CR inside a line is outside the domain."}}
