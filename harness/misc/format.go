package misc

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/pbt"

	g "github.com/myyrakle/gost"
)

// shown is a displayable type defined outside the library.
type shown struct{ s string }

func (x shown) Display() g.String { return g.String(x.s) }

type shownPtr struct{ s string }

func (x *shownPtr) Display() g.String { return g.String("*" + x.s) }

// genArg draws a displayable value and its display text. The text of numbers
// and strings is made independently; that of containers is decided by C25.
func genArg(t *pbt.T) (any, string) {
	switch t.Intn(27) {
	case 0, 1:
		s := genText(t, 5)
		return g.String(s), s
	case 2:
		v := int8(t.Bits(8))
		return g.I8(v), fmt.Sprint(v)
	case 3:
		v := int16(t.Bits(16))
		return g.I16(v), fmt.Sprint(v)
	case 4:
		v := int32(t.Bits(32))
		return g.I32(v), fmt.Sprint(v)
	case 5:
		v := int64(t.Bits(64))
		return g.I64(v), fmt.Sprint(v)
	case 6:
		v := int(t.Bits(64))
		return g.ISize(v), fmt.Sprint(v)
	case 7:
		v := uint8(t.Bits(8))
		return g.U8(v), fmt.Sprint(v)
	case 8:
		v := uint16(t.Bits(16))
		return g.U16(v), fmt.Sprint(v)
	case 9:
		v := uint32(t.Bits(32))
		return g.U32(v), fmt.Sprint(v)
	case 10:
		v := t.Bits(64)
		return g.U64(v), fmt.Sprint(v)
	case 11:
		v := uint(t.Bits(64))
		return g.USize(v), fmt.Sprint(v)
	case 12:
		b := t.Bool()
		return g.Bool(b), fmt.Sprint(b)
	case 13:
		c := g.Char(genRune(t))
		return c, string(c.Display())
	case 14:
		c := g.Byte(t.Intn(256))
		return c, string(c.Display())
	case 15:
		f := g.F64(t.Intn(2000)-1000) / 8
		return f, string(f.Display())
	case 16:
		f := g.F32(t.Intn(2000)-1000) / 8
		return f, string(f.Display())
	case 17:
		v := g.VecNew[g.String]()
		for i := t.Intn(3); i > 0; i-- {
			v.Push(g.String(genText(t, 3)))
		}
		return v, string(v.Display())
	case 18:
		v := g.LinkedListNew[g.I32]()
		for i := t.Intn(3); i > 0; i-- {
			v.PushBack(g.I32(i))
		}
		return v, string(v.Display())
	case 19:
		o := g.None[g.String]()
		if t.Bool() {
			o = g.Some(g.String(genText(t, 3)))
		}
		return o, string(o.Display())
	case 20:
		r := g.Err[g.I32](errors.New(genText(t, 3)))
		if t.Bool() {
			r = g.Ok(g.I32(t.Intn(9)))
		}
		return r, string(r.Display())
	case 21:
		v := g.BTreeMapNew[g.I32, g.String]()
		for i := t.Intn(3); i > 0; i-- {
			v.Insert(g.I32(i), g.String(genText(t, 2)))
		}
		return v, string(v.Display())
	case 22:
		v := g.HashSetNew[g.I32]()
		if t.Bool() {
			v.Insert(g.I32(t.Intn(9)))
		}
		return v, string(v.Display())
	case 23:
		s := genText(t, 4)
		return shown{s}, s
	case 24:
		s := genText(t, 4)
		return &shownPtr{s}, "*" + s
	case 25:
		z := g.Complex128(complex(float64(t.Intn(9)), float64(t.Intn(9))))
		return z, string(z.Display())
	}
	d := g.VecDequeNew[g.I32]()
	d.PushFront(g.I32(t.Intn(9)))
	return d, string(d.Display())
}

// genText draws text in which braces, percent signs and backslashes are common.
func genText(t *pbt.T, max int) string {
	n := t.Intn(max + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch t.Weighted(4, 3, 2, 1, 1) {
		case 0:
			b.WriteString(pbt.Pick(t, "a", "b", " ", "0", ":"))
		case 1:
			b.WriteString(pbt.Pick(t, "{", "}", "{}", "{{", "}}", "}{"))
		case 2:
			b.WriteString(enc([]rune{genRune(t)}))
		case 3:
			b.WriteString(pbt.Pick(t, "%", "%d", "%s", "%%", "%!"))
		default:
			b.WriteString(pbt.Pick(t, "\n", "\\", "\\n", "\"", "\x00", "\t"))
		}
	}
	return b.String()
}

// genTemplate draws a well-formed template with its arguments and its text.
func genTemplate(t *pbt.T, max int) (tpl string, args []any, want string) {
	n := t.Intn(max + 1)
	for i := 0; i < n; i++ {
		switch t.Weighted(4, 4, 2, 2) {
		case 0:
			a, s := genArg(t)
			tpl += "{}"
			args = append(args, a)
			want += s
		case 1:
			s := strings.NewReplacer("{", "", "}", "").Replace(genText(t, 4))
			tpl += s
			want += s
		case 2:
			tpl += "{{"
			want += "{"
		default:
			tpl += "}}"
			want += "}"
		}
	}
	return
}

var outFile *os.File

// captureStdout runs f with os.Stdout replaced by a scratch file.
func captureStdout(t *pbt.T, f func()) string {
	if outFile == nil {
		w := os.Getenv("PBT_WORK")
		if w == "" {
			w = os.TempDir()
		}
		var err error
		outFile, err = os.OpenFile(filepath.Join(w, fmt.Sprintf("stdout-%d", os.Getpid())), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
		if err != nil {
			panic(err)
		}
	}
	if err := outFile.Truncate(0); err != nil {
		panic(err)
	}
	if _, err := outFile.Seek(0, io.SeekStart); err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = outFile
	defer func() { os.Stdout = old }()
	f()
	os.Stdout = old
	fi, err := outFile.Stat()
	if err != nil {
		panic(err)
	}
	b := make([]byte, fi.Size())
	if _, err := outFile.ReadAt(b, 0); err != nil && err != io.EOF {
		panic(err)
	}
	return string(b)
}

// throughPipe is captureStdout by a pipe, which costs less for much output.
func throughPipe(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	defer r.Close()
	got := make(chan []byte)
	go func() {
		b, _ := io.ReadAll(r)
		got <- b
	}()
	old := os.Stdout
	os.Stdout = w
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	return string(<-got)
}

// printTogether: what several goroutines print at once comes out whole.
func printTogether(t *pbt.T) {
	type text struct {
		ln        bool
		tpl, want string
		arg       g.I32
	}
	n := t.Range(2, 5)
	all := make([][]text, n)
	for i := range all {
		for k := t.Range(1, 10); k > 0; k-- {
			fill := strings.Repeat(pbt.Pick(t, "a", "é ", "-{{}}"), pbt.Pick(t, 0, 1, 5, 40, 200))
			x := text{ln: t.Intn(4) != 0, tpl: fmt.Sprintf("<%d.%d:%s{}>", i, len(all[i]), fill), arg: g.I32(t.Intn(100))}
			x.want = strings.NewReplacer("{{", "{", "}}", "}", "{}", fmt.Sprint(x.arg)).Replace(x.tpl)
			if x.ln {
				x.want += "\n"
			}
			all[i] = append(all[i], x)
		}
		t.Logf("goroutine %d prints %d texts", i, len(all[i]))
	}
	t.Nontrivial()
	t.Label("printed by several goroutines")
	for round := 0; round < 25; round++ {
		panics := make([]any, n)
		got := throughPipe(func() {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range all {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() { panics[i] = recover() }()
					<-start
					for _, x := range all[i] {
						if x.ln {
							g.Println(g.String(x.tpl), x.arg)
						} else {
							g.Print(g.String(x.tpl), x.arg)
						}
					}
				}()
			}
			close(start)
			wg.Wait()
		})
		for i := range panics {
			t.Check(panics[i] == nil, "Print beside others panicked: %v", panics[i])
		}
		next := make([]int, n)
		rest := got
	texts:
		for rest != "" {
			for i := range all {
				if next[i] < len(all[i]) && strings.HasPrefix(rest, all[i][next[i]].want) {
					rest = rest[len(all[i][next[i]].want):]
					next[i]++
					continue texts
				}
			}
			t.Failf("%d goroutines printed at once; their texts are mixed or out of order at %.60q of the output", n, rest)
		}
		for i := range all {
			t.Check(next[i] == len(all[i]), "%d of %d texts printed by one of %d goroutines came out", next[i], len(all[i]), n)
		}
	}
}

func runFormat(t *pbt.T) {
	if t.OneIn(1000) {
		printTogether(t)
		return
	}
	max := pbt.Pick(t, 4, 10, 10, 30)
	if t.Thorough && t.OneIn(4) {
		max = 300
	}
	if k, ok := t.Huge(100, 2500); ok {
		max = k
	}
	tpl, args, want := genTemplate(t, max)
	t.Logf("Format(%q, %d args)  // %q", tpl, len(args), want)
	t.NoPanic(fmt.Sprintf("Format(%q) with %d arguments", tpl, len(args)), func() {
		got := g.Format(g.String(tpl), args...)
		t.Check(string(got) == want, "Format(%q, %d args) = %q, want %q", tpl, len(args), string(got), want)
	})
	t.LabelIf(strings.Contains(tpl, "{{{}") || strings.Contains(tpl, "{}}}"), "escape next to placeholder")
	t.LabelIf(len(args) > 1, "several arguments")
	t.LabelIf(len(args) == 0, "no argument")
	if len(args) > 0 || len(want) > 0 {
		t.Nontrivial()
	}
	if t.OneIn(3) {
		type call struct {
			ln   bool
			tpl  string
			args []any
		}
		cs := []call{{t.Bool(), tpl, args}}
		all := want
		nl := func(c call) string {
			if c.ln {
				return "\n"
			}
			return ""
		}
		all += nl(cs[0])
		for i := t.Intn(3); i > 0; i-- {
			p, a, w := genTemplate(t, 4)
			c := call{t.Bool(), p, a}
			cs = append(cs, c)
			all += w + nl(c)
		}
		t.Label("printed")
		for _, c := range cs {
			t.Logf("Print (newline: %v) %q, %d args", c.ln, c.tpl, len(c.args))
		}
		t.NoPanic("Print/Println", func() {
			got := captureStdout(t, func() {
				for _, c := range cs {
					if c.ln {
						g.Println(g.String(c.tpl), c.args...)
					} else {
						g.Print(g.String(c.tpl), c.args...)
					}
				}
			})
			t.Check(got == all, "Print/Println wrote %q, want %q", got, all)
		})
	}
}

var C26 = &pbt.Prop{ID: "C26",
	Rule: "A well-formed template built from literal segments (multi-byte, %, backslash, control characters), {} placeholders and {{ / }} escapes in any adjacency, with one displayable argument per placeholder (all scalar types, strings holding braces, containers, Option, Result, user types); the expected text is built alongside. A third of the cases also print one to four templates through Print/Println into a captured standard output; some cases print from 2 to 5 goroutines at once, 25 times. Non-trivial: an argument or a non-empty result.",
	Run:  runFormat, Quick: 1000000, Thorough: 40000000,
	Assumptions: []string{"Malformed templates (a lone brace, fewer arguments than placeholders) are outside the domain."}}
