// Package fsutil holds what the file-system checks share: a scratch root, a
// snapshot of a directory tree taken with system calls only, and the gost and
// gokio file functions behind one interface.
package fsutil

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	g "github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

// Unpriv tells whether the process runs as an unprivileged user, so that
// permission faults have an effect.
func Unpriv() bool { return os.Geteuid() != 0 }

var seq int

// Scratch makes a fresh directory inside the check's work directory.
func Scratch() string {
	syscall.Umask(0o022)
	w := os.Getenv("PBT_WORK")
	if w == "" {
		w = os.TempDir()
	}
	for {
		seq++
		d := filepath.Join(w, fmt.Sprintf("c%d-%06d", os.Getpid(), seq))
		if err := os.Mkdir(d, 0o755); err == nil {
			return d
		} else if !os.IsExist(err) {
			panic(err)
		}
	}
}

// Remove deletes a scratch directory, whatever the permissions inside it.
func Remove(dir string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.IsDir() && fi.Mode().Perm()&0o700 != 0o700 {
			os.Chmod(p, 0o700)
		}
		return nil
	})
	// directories that were closed during the walk are open now
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.IsDir() && fi.Mode().Perm()&0o700 != 0o700 {
			os.Chmod(p, 0o700)
		}
		return nil
	})
	if err := os.RemoveAll(dir); err != nil {
		panic(err)
	}
}

// Entry is one node of a snapshot.
type Entry struct {
	Kind byte // 'd', 'f', 'l', 'p' or '?'
	Perm uint32
	Data string // contents or link target; a digest when long
	Ino  uint64
}

func (e Entry) String() string {
	d := e.Data
	if len(d) > 40 {
		d = d[:40] + "..."
	}
	return fmt.Sprintf("%c %04o %q", e.Kind, e.Perm, d)
}

// Digest shortens contents.
func Digest(b []byte) string {
	if len(b) <= 64 {
		return string(b)
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("#%d:%016x", len(b), h.Sum64())
}

// Snapshot reads the whole tree below root (root itself is ""). It opens what
// the permissions close and restores them.
func Snapshot(root string) map[string]Entry {
	out := map[string]Entry{}
	var walk func(p, rel string)
	walk = func(p, rel string) {
		var st syscall.Stat_t
		if err := syscall.Lstat(p, &st); err != nil {
			out[rel] = Entry{Kind: '?', Data: err.Error()}
			return
		}
		e := Entry{Perm: st.Mode & 0o7777, Ino: st.Ino}
		switch st.Mode & syscall.S_IFMT {
		case syscall.S_IFDIR:
			e.Kind = 'd'
			closed := e.Perm&0o500 != 0o500
			if closed {
				syscall.Chmod(p, e.Perm|0o700)
			}
			f, err := os.Open(p)
			if err != nil {
				e.Data = err.Error()
			} else {
				names, err := f.Readdirnames(-1)
				f.Close()
				if err != nil {
					e.Data = err.Error()
				}
				for _, n := range names {
					r := n
					if rel != "" {
						r = rel + "/" + n
					}
					walk(p+"/"+n, r)
				}
			}
			if closed {
				syscall.Chmod(p, e.Perm)
			}
		case syscall.S_IFLNK:
			e.Kind, e.Perm = 'l', 0
			e.Data, _ = os.Readlink(p)
		case syscall.S_IFREG:
			e.Kind = 'f'
			closed := e.Perm&0o400 == 0
			if closed {
				syscall.Chmod(p, e.Perm|0o400)
			}
			b, err := os.ReadFile(p)
			if err != nil {
				e.Data = err.Error()
			} else {
				e.Data = Digest(b)
			}
			if closed {
				syscall.Chmod(p, e.Perm)
			}
		case syscall.S_IFIFO:
			e.Kind = 'p'
		default:
			e.Kind = '?'
		}
		out[rel] = e
	}
	walk(root, "")
	return out
}

// Diff names the first difference of two snapshots; perms and inodes count
// only if asked.
func Diff(got, want map[string]Entry, perm bool) string {
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		a, aok := got[k]
		b, bok := want[k]
		switch {
		case !bok:
			return fmt.Sprintf("%q is there (%s) and should not be", k, a)
		case !aok:
			return fmt.Sprintf("%q (%s) is missing", k, b)
		case a.Kind != b.Kind || a.Data != b.Data:
			return fmt.Sprintf("%q is %s, want %s", k, a, b)
		case perm && a.Perm != b.Perm:
			return fmt.Sprintf("%q has permissions %04o, want %04o", k, a.Perm, b.Perm)
		}
	}
	return ""
}

// Outcome is the result of one file function.
type Outcome struct {
	Ok      bool
	Err     error
	Data    []byte
	Entries []g.DirEntry
}

func (o Outcome) String() string {
	if !o.Ok {
		return fmt.Sprintf("Err(%v)", o.Err)
	}
	return "Ok"
}

// Op is one call.
type Op struct {
	Name string
	A, B string // paths
	Data []byte
}

func (o Op) String() string {
	switch o.Name {
	case "Write":
		return fmt.Sprintf("Write(%s, %d bytes)", short(o.A), len(o.Data))
	case "Copy", "Rename":
		return fmt.Sprintf("%s(%s, %s)", o.Name, short(o.A), short(o.B))
	}
	return fmt.Sprintf("%s(%s)", o.Name, short(o.A))
}

func short(s string) string {
	if i := strings.Index(s, "/work/"); i >= 0 {
		s = "..." + s[i+5:]
	}
	if len(s) > 80 {
		s = s[:80] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return fmt.Sprintf("%q", s)
}

func bytesOf(b []byte) []g.Byte {
	r := make([]g.Byte, len(b))
	for i := range b {
		r[i] = g.Byte(b[i])
	}
	return r
}

func unit(r g.Result[any]) Outcome {
	if r.IsOk() {
		return Outcome{Ok: true}
	}
	return Outcome{Err: r.UnwrapErr()}
}

func read(r g.Result[[]g.Byte]) Outcome {
	if r.IsErr() {
		return Outcome{Err: r.UnwrapErr()}
	}
	v := r.Unwrap()
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return Outcome{Ok: true, Data: b}
}

func str(r g.Result[g.String]) Outcome {
	if r.IsErr() {
		return Outcome{Err: r.UnwrapErr()}
	}
	return Outcome{Ok: true, Data: []byte(string(r.Unwrap()))}
}

func dir(r g.Result[g.Vec[g.DirEntry]]) Outcome {
	if r.IsErr() {
		return Outcome{Err: r.UnwrapErr()}
	}
	v := r.Unwrap()
	return Outcome{Ok: true, Entries: v.AsSlice()}
}

// FDs counts the open file descriptors of this process (-1: cannot tell).
func FDs() int {
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return -1
	}
	defer d.Close()
	names, err := d.Readdirnames(-1)
	if err != nil {
		return -1
	}
	return len(names)
}

// Closed runs the call and tells how many descriptors it left open.
func Closed(call func() Outcome) (Outcome, int) {
	FDs() // the first file opened makes the runtime open descriptors of its own
	before := FDs()
	r := call()
	after := FDs()
	if before < 0 || after <= before {
		return r, 0
	}
	return r, after - before
}

// Sync runs the call through package gost.
func Sync(o Op) Outcome {
	a, b := g.String(o.A), g.String(o.B)
	switch o.Name {
	case "Write":
		buf := bytesOf(o.Data)
		r := unit(g.Write(a, buf))
		for i := range buf {
			if byte(buf[i]) != o.Data[i] {
				return Outcome{Err: fmt.Errorf("Write changed its input slice")}
			}
		}
		return r
	case "Read":
		return read(g.Read(a))
	case "ReadToString":
		return str(g.ReadToString(a))
	case "ReadDir":
		return dir(g.ReadDir(a))
	case "Copy":
		return unit(g.Copy(a, b))
	case "Rename":
		return unit(g.Rename(a, b))
	case "RemoveFile":
		return unit(g.RemoveFile(a))
	case "RemoveDir":
		return unit(g.RemoveDir(a))
	case "CreateDir":
		return unit(g.CreateDir(a))
	}
	panic("fsutil: " + o.Name)
}

// Async starts the call through package gokio; the result awaits it.
func Async(o Op) func() Outcome {
	a, b := g.String(o.A), g.String(o.B)
	switch o.Name {
	case "Write":
		f := gokio.Write(a, bytesOf(o.Data))
		return func() Outcome { return unit(f.Await()) }
	case "Read":
		f := gokio.Read(a)
		return func() Outcome { return read(f.Await()) }
	case "ReadToString":
		f := gokio.ReadToString(a)
		return func() Outcome { return str(f.Await()) }
	case "ReadDir":
		f := gokio.ReadDir(a)
		return func() Outcome { return dir(f.Await()) }
	case "Copy":
		f := gokio.Copy(a, b)
		return func() Outcome { return unit(f.Await()) }
	case "Rename":
		f := gokio.Rename(a, b)
		return func() Outcome { return unit(f.Await()) }
	case "RemoveFile":
		f := gokio.RemoveFile(a)
		return func() Outcome { return unit(f.Await()) }
	case "RemoveDir":
		f := gokio.RemoveDir(a)
		return func() Outcome { return unit(f.Await()) }
	case "CreateDir":
		f := gokio.CreateDir(a)
		return func() Outcome { return unit(f.Await()) }
	}
	panic("fsutil: " + o.Name)
}
