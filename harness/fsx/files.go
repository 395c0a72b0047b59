package fsx

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"errors"

	"verif/harness/fsutil"
	"verif/harness/pbt"
)

func genData(t *pbt.T) []byte {
	var n int
	switch t.Weighted(2, 8, 4, 2) {
	case 1:
		n = 1 + t.Intn(20)
	case 2:
		n = t.Intn(pbt.Pick(t, 600, 5000))
	case 3:
		n = pbt.Pick(t, 4095, 4096, 4097, 8192, 32768, 65536, 65537)
		if t.OneIn(6) {
			n = pbt.Pick(t, 131072, 131073, 1<<20, 1<<20+1, 3<<20)
		}
	}
	if v, ok := t.DictInt(); ok && v < 4<<20 {
		n = int(v)
	}
	b := make([]byte, n)
	kind := t.Intn(3)
	seed := t.Draw(1 << 16)
	for i := range b {
		seed = seed*6364136223846793005 + 1442695040888963407
		switch kind {
		case 0:
			b[i] = 'a' + byte(seed>>40)%26
		case 1:
			b[i] = byte(seed >> 40)
		default:
			b[i] = byte(i)
		}
	}
	if n > 0 && t.OneIn(4) { // what text files and others begin and end with
		copy(b, pbt.Pick(t, "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "#!/bin/sh\n", "\x1f\x8b\x08", "\x00", "\n", "\r\n", " ", "\xc3", "\x7fELF", "%PDF"))
		if e := pbt.Pick(t, "", "\n", "\r\n", "\x00", "\x1a", " ", "\xc3", "\n\n", "\xef\xbb\xbf"); len(e) <= n {
			copy(b[n-len(e):], e)
		}
	}
	return b
}

// alter gives contents that are much like old: the same, of another length, or
// changed in one place.
func alter(t *pbt.T, old []byte) []byte {
	b := append([]byte{}, old...)
	at := 0
	if len(b) > 0 {
		at = pbt.Pick(t, 0, len(b)-1, len(b)/2, t.Intn(len(b)))
	}
	switch t.Intn(6) {
	case 0:
		return append(b, byte('x'))
	case 1:
		return b[:at]
	case 2:
		return append(b, b...)
	case 3:
		if len(b) > 0 {
			return b[1:]
		}
	case 4:
		return b
	}
	if len(b) > 0 {
		b[at] ^= 1 << t.Intn(8)
	}
	return b
}

func newWorld() *world {
	return &world{root: newDir(nil), dir: fsutil.Scratch(), unpriv: fsutil.Unpriv()}
}

// real is the path of a model path for the harness's own calls.
func (w *world) real(rel string) string {
	if rel == "" {
		return w.dir
	}
	return w.dir + "/" + rel
}

// check compares the real tree with the model.
func (w *world) check(t *pbt.T, when string) {
	got := fsutil.Snapshot(w.dir)
	if d := fsutil.Diff(got, w.snapshot(), true); d != "" {
		t.Failf("after %s: %s", when, d)
	}
}

// adopt takes over the permission bits the system gave to nodes the call
// created: they are not part of the property.
func (w *world) adopt(rel string) {
	l := w.lookup(w.root, rel, true)
	if l.n == nil || l.n.kind == 'l' {
		return
	}
	var st syscall.Stat_t
	if err := syscall.Stat(w.real(rel), &st); err == nil {
		l.n.perm = st.Mode & 0o7777
	}
}

// exec runs one call and checks its answer and its effect against the model.
func (w *world) exec(t *pbt.T, op fsutil.Op, a, b string) (ok bool) {
	w.outside = false
	v, cause, apply, data := w.step(op, a, b)
	if w.outside { // through a link that leads out of the tree
		return false
	}
	creates := false
	if v == mustOk && (op.Name == "CreateDir" || op.Name == "Write" && w.lookup(w.root, a, true).n == nil) {
		creates = true
	}
	var r fsutil.Outcome
	left := 0
	t.NoPanic(op.String(), func() {
		r, left = fsutil.Closed(func() fsutil.Outcome { return fsutil.Sync(op) })
	})
	t.Logf("%s = %s", op, r)
	t.Check(left == 0, "%s left %d file descriptors open", op, left)
	switch v {
	case mustOk:
		t.Check(r.Ok, "%s = %s, want Ok", op, r)
	case mustErr:
		t.Check(!r.Ok, "%s = Ok, want Err (%v)", op, cause)
	}
	if !r.Ok {
		t.Check(r.Err != nil && r.Err.Error() != "", "%s failed without an error value", op)
		t.Label(op.Name + " Err")
		return false
	}
	t.Label(op.Name + " Ok")
	if data != nil || op.Name == "Read" || op.Name == "ReadToString" {
		t.Check(bytes.Equal(r.Data, data), "%s returned %d bytes %.60q, want the %d bytes %.60q", op, len(r.Data), r.Data, len(data), data)
	}
	apply()
	if creates {
		w.adopt(a)
	}
	return true
}

var opNames = []string{"Write", "Read", "ReadToString", "Copy", "Rename", "RemoveFile", "RemoveDir", "CreateDir"}

func (w *world) genOp(t *pbt.T, recent []string) (op fsutil.Op, a, b string) {
	op.Name = opNames[t.Weighted(6, 3, 2, 5, 4, 2, 2, 3)]
	a = w.genPath(t)
	if len(recent) > 0 && t.OneIn(3) {
		a = recent[t.Intn(len(recent))]
	}
	if op.Name != "CreateDir" && t.Bool() { // something of the right kind
		ps, ns := w.all()
		i := t.Intn(len(ps))
		for k := 0; k < len(ps) && (i == 0 || (ns[i].kind == 'd') != (op.Name == "RemoveDir") && op.Name != "Rename"); k++ {
			i = (i + 1) % len(ps)
		}
		if i > 0 {
			a = ps[i]
		}
	}
	op.A = w.spell(t, a)
	switch op.Name {
	case "Write":
		op.Data = genData(t)
		if t.OneIn(3) { // over a file, something much like it
			ps, ns := w.all()
			for i, p := range ps {
				if p == a && ns[i].kind == 'f' && len(ns[i].data) < 4<<20 {
					op.Data = alter(t, ns[i].data)
					t.Label("rewritten with similar contents")
				}
			}
		}
	case "Copy", "Rename":
		b = w.genPath(t)
		if len(recent) > 0 && t.OneIn(6) {
			b = recent[t.Intn(len(recent))]
		}
		op.B = w.spell(t, b)
	}
	return
}

// external makes a change from outside the library: a link or permissions.
func (w *world) external(t *pbt.T) {
	ps, ns := w.all()
	i := t.Intn(len(ps))
	if t.Bool() { // a symbolic link
		for k := 0; k < len(ps) && ns[i].kind != 'd'; k++ {
			i = (i + 1) % len(ps)
		}
		n := genName(t)
		if ns[i].kids[n] != nil || !w.may(ns[i], 3) {
			return
		}
		target := genName(t)
		if t.OneIn(4) && ns[i].parent != nil {
			target = "../" + target
		} else if t.OneIn(4) {
			target += "/" + genName(t)
		} else if t.OneIn(6) {
			target = "."
		}
		rel := joinRel(ps[i], n)
		if err := os.Symlink(target, w.real(rel)); err != nil {
			return // closed by permissions above: not a case of interest
		}
		ns[i].kids[n] = &node{kind: 'l', target: target, parent: ns[i]}
		t.Logf("(outside) symlink %q -> %q", rel, target)
		t.Label("symlink present")
		return
	}
	if i == 0 || ns[i].kind == 'l' {
		return
	}
	perm := pbt.Pick(t, uint32(0o644), 0o600, 0o444, 0o755, 0o700, 0o555, 0o640, 0o400, 0o666, 0o751)
	if ns[i].kind == 'd' {
		perm = pbt.Pick(t, uint32(0o755), 0o700, 0o555, 0o500, 0o711, 0o777)
		if t.OneIn(3) {
			perm = pbt.Pick(t, uint32(0o300), 0o400, 0o000, 0o600)
		}
	} else if t.OneIn(4) {
		perm = pbt.Pick(t, uint32(0o000), 0o200)
	}
	if err := os.Chmod(w.real(ps[i]), os.FileMode(perm)); err != nil {
		return
	}
	ns[i].perm = perm
	t.Logf("(outside) chmod %04o %q", perm, ps[i])
	t.LabelIf(perm&0o400 == 0 || perm&0o200 == 0, "restricted permissions")
}

// pipe checks that a read of something without a size in advance is complete.
func readUnsized(t *pbt.T) {
	name := pbt.Pick(t, "Read", "ReadToString")
	if t.Bool() {
		p := pbt.Pick(t, "/proc/version", "/proc/filesystems", "/proc/devices")
		want, err := os.ReadFile(p)
		if err != nil {
			return
		}
		t.Label("pseudo-file")
		var r fsutil.Outcome
		t.NoPanic(name, func() { r = fsutil.Sync(fsutil.Op{Name: name, A: p}) })
		t.Check(r.Ok && bytes.Equal(r.Data, want), "%s(%q) = %s with %d bytes, the file has %d", name, p, r, len(r.Data), len(want))
		return
	}
	dir := fsutil.Scratch()
	defer fsutil.Remove(dir)
	p := filepath.Join(dir, "pipe")
	if err := syscall.Mkfifo(p, 0o600); err != nil {
		return
	}
	data := genData(t)
	t.Label("pipe")
	t.Logf("%s of a pipe carrying %d bytes", name, len(data))
	done := make(chan struct{})
	go func() {
		defer close(done)
		f, err := os.OpenFile(p, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		f.Write(data)
		f.Close()
	}()
	var r fsutil.Outcome
	pan, val := pbt.Catch(func() { r = fsutil.Sync(fsutil.Op{Name: name, A: p}) })
	// let the writer go if the read did not take everything
	if f, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
		buf := make([]byte, 65536)
		for waiting := true; waiting; {
			select {
			case <-done:
				waiting = false
			default:
				f.Read(buf)
			}
		}
		f.Close()
	}
	t.Check(!pan, "%s of a pipe panicked: %v", name, val)
	t.Check(r.Ok && bytes.Equal(r.Data, data), "%s of a pipe = %s with %d bytes, %d were written to it", name, r, len(r.Data), len(data))
}

func runModel(t *pbt.T) {
	if t.OneIn(40) {
		t.Nontrivial()
		readUnsized(t)
		return
	}
	w := newWorld()
	defer fsutil.Remove(w.dir)
	n := 1 + t.Intn(pbt.Pick(t, 8, 16, 30))
	okMut := 0
	var recent []string
	for i := 0; i < n; i++ {
		if t.OneIn(6) {
			w.external(t)
			continue
		}
		op, a, b := w.genOp(t, recent)
		before := ""
		if op.Name == "Copy" || op.Name == "Rename" {
			before = fmt.Sprintf("%s -> %s", a, b)
		}
		if w.exec(t, op, a, b) {
			if op.Name != "Read" && op.Name != "ReadToString" {
				okMut++
			}
			if before != "" {
				recent = append(recent, a, b)
			}
		}
		w.check(t, op.String())
	}
	if okMut >= 2 {
		t.Nontrivial()
	}
}

var C31 = &pbt.Prop{ID: "C31",
	Rule: "A random history of 1-30 Write/Read/ReadToString/Copy/Rename/RemoveFile/RemoveDir/CreateDir calls over a small tree of colliding names, with symbolic links and permission changes made from outside in between, contents of 0 bytes to 3 MB, each path spelled absolute, relative, with doubled slashes or dots; after every call the whole real tree (kinds, contents, link targets, permissions) is compared with a model file system. One case in 40 instead reads a named pipe or a pseudo-file. Non-trivial: at least two calls changed the tree.",
	Run:  runModel, Quick: 20000, Thorough: 800000,
	Assumptions: []string{
		"Linux semantics for path lookup and permissions; run as an unprivileged user who owns the tree.",
		"Renaming a directory onto an empty directory, or anything onto itself, may succeed or be refused.",
		"Permission bits of newly created files and directories (umask) are not part of the property.",
	}}

// ---- faults ----

type fault struct {
	name   string
	cause  error // the class the error must belong to; nil: any
	inject func() bool
	undo   func()
}

// faults lists what can be made wrong about the call; each entry makes exactly
// this one thing wrong and can be undone.
func (w *world) faults(t *pbt.T, op *fsutil.Op, a, b string) []fault {
	var fs_ []fault
	chmod := func(rel string, perm uint32) fault {
		l := w.lookup(w.root, rel, false)
		old := l.n.perm
		return fault{inject: func() bool { l.n.perm = perm; return syscall.Chmod(w.real(rel), perm) == nil },
			undo: func() { l.n.perm = old; syscall.Chmod(w.real(rel), old) }}
	}
	parentOf := func(rel string) string {
		if i := strings.LastIndex(rel, "/"); i >= 0 {
			return rel[:i]
		}
		return ""
	}
	moveAway := func(rel string) fault {
		l := w.lookup(w.root, rel, false)
		aside := "aside-" + fmt.Sprint(t.Intn(1000))
		return fault{inject: func() bool {
			if syscall.Rename(w.real(rel), w.real(aside)) != nil {
				return false
			}
			delete(l.parent.kids, l.name)
			w.root.kids[aside] = l.n
			return true
		}, undo: func() {
			syscall.Rename(w.real(aside), w.real(rel))
			delete(w.root.kids, aside)
			l.parent.kids[l.name] = l.n
		}}
	}
	// swap replaces what is (or is not) at rel by another kind of node.
	swap := func(rel string, kind byte) fault {
		l := w.lookup(w.root, rel, false)
		old := l.n
		aside := "aside-" + fmt.Sprint(t.Intn(1000))
		var nu *node
		return fault{inject: func() bool {
			if old != nil {
				if syscall.Rename(w.real(rel), w.real(aside)) != nil {
					return false
				}
				w.root.kids[aside] = old
			}
			var err error
			switch kind {
			case 'd':
				nu = newDir(l.parent)
				err = syscall.Mkdir(w.real(rel), 0o755)
			case 'D': // not empty
				nu = newDir(l.parent)
				nu.kids["x"] = &node{kind: 'f', perm: 0o644, data: []byte("in the way"), parent: nu}
				err = syscall.Mkdir(w.real(rel), 0o755)
				if err == nil {
					err = os.WriteFile(w.real(rel)+"/x", []byte("in the way"), 0o644)
				}
			case 'f':
				nu = &node{kind: 'f', perm: 0o644, data: []byte("in the way"), parent: l.parent}
				err = os.WriteFile(w.real(rel), nu.data, 0o644)
			case 'l':
				nu = &node{kind: 'l', target: "no-such-target", parent: l.parent}
				err = syscall.Symlink(nu.target, w.real(rel))
			case 'L': // a loop
				nu = &node{kind: 'l', target: filepath.Base(rel), parent: l.parent}
				err = syscall.Symlink(nu.target, w.real(rel))
			}
			l.parent.kids[l.name] = nu
			return err == nil
		}, undo: func() {
			if nu == nil { // stopped at the first step
				return
			}
			if kind == 'D' {
				syscall.Unlink(w.real(rel) + "/x")
			}
			if nu.kind == 'd' {
				syscall.Rmdir(w.real(rel))
			} else {
				syscall.Unlink(w.real(rel))
			}
			delete(l.parent.kids, l.name)
			if old != nil {
				syscall.Rename(w.real(aside), w.real(rel))
				delete(w.root.kids, aside)
				l.parent.kids[l.name] = old
			}
		}}
	}
	add := func(name string, cause error, f fault) {
		f.name, f.cause = name, cause
		fs_ = append(fs_, f)
	}
	src := w.lookup(w.root, a, false)
	plainSrc := src.n != nil && src.name != "" && src.n.kind != 'l'
	pa := parentOf(a)
	paNode := w.lookup(w.root, pa, false)
	if pa == "" {
		paNode = where{n: w.root}
	}
	plainPa := paNode.n != nil && paNode.n.kind == 'd'
	unlinks := op.Name == "RemoveFile" || op.Name == "RemoveDir" || op.Name == "Rename"
	reads := op.Name == "Read" || op.Name == "ReadToString" || op.Name == "Copy"
	if reads || unlinks {
		if plainSrc {
			add("the path is missing", fs.ErrNotExist, moveAway(a))
		}
	}
	if reads && src.n != nil && src.name != "" {
		add("a directory instead of a file", nil, swap(a, 'd'))
		add("a dangling link instead of a file", fs.ErrNotExist, swap(a, 'l'))
		add("a link loop instead of a file", nil, swap(a, 'L'))
		if plainSrc {
			add("the file is not readable", fs.ErrPermission, chmod(a, 0o200))
		}
	}
	if op.Name == "ReadDir" && src.n != nil && src.name != "" {
		add("the path is missing", fs.ErrNotExist, moveAway(a))
		add("a file instead of a directory", nil, swap(a, 'f'))
		add("a dangling link instead of a directory", fs.ErrNotExist, swap(a, 'l'))
		if plainSrc {
			add("the directory is not readable", fs.ErrPermission, chmod(a, 0o300))
		}
	}
	if op.Name == "Write" {
		add("a directory instead of a file", nil, swap(a, 'd'))
		add("a link loop instead of a file", nil, swap(a, 'L'))
		if plainSrc {
			add("the file is not writable", fs.ErrPermission, chmod(a, 0o444))
		}
	}
	if op.Name == "CreateDir" {
		add("a file exists there", fs.ErrExist, swap(a, 'f'))
		add("a directory exists there", fs.ErrExist, swap(a, 'd'))
		add("a non-empty directory exists there", fs.ErrExist, swap(a, 'D'))
		add("a dangling link exists there", fs.ErrExist, swap(a, 'l'))
	}
	if op.Name == "RemoveFile" && src.n != nil {
		add("an empty directory instead of a file", nil, swap(a, 'd'))
		add("a non-empty directory instead of a file", nil, swap(a, 'D'))
	}
	if op.Name == "RemoveDir" && src.n != nil {
		add("a file instead of a directory", nil, swap(a, 'f'))
		add("a link instead of a directory", nil, swap(a, 'l'))
		add("the directory is not empty", nil, swap(a, 'D'))
	}
	if op.Name == "Rename" || op.Name == "Copy" {
		pb := parentOf(b)
		dst := w.lookup(w.root, b, false)
		if op.Name == "Copy" || (src.n != nil && src.n.kind != 'd') {
			add("the target is a directory", nil, swap(b, 'd'))
			add("the target is a non-empty directory", nil, swap(b, 'D'))
		} else {
			add("the target is a file", nil, swap(b, 'f'))
			add("the target is a non-empty directory", nil, swap(b, 'D'))
		}
		if op.Name == "Copy" {
			add("the target is a link loop", nil, swap(b, 'L'))
			if dst.n != nil && dst.n.kind == 'f' && dst.n != src.n {
				add("the target is not writable", fs.ErrPermission, chmod(b, 0o444))
			}
		}
		if pb != "" {
			if l := w.lookup(w.root, pb, false); l.n != nil && l.n.kind == 'd' && l.name != "" && !strings.HasPrefix(a+"/", pb+"/") {
				add("the target's parent is missing", fs.ErrNotExist, moveAway(pb))
				add("the target's parent is a file", nil, swap(pb, 'f'))
				if op.Name == "Rename" || dst.n == nil {
					add("the target's parent is not writable", fs.ErrPermission, chmod(pb, 0o555))
				}
				add("the target's parent is not searchable", fs.ErrPermission, chmod(pb, 0o600))
			}
		}
	}
	if pa != "" && plainPa {
		if op.Name != "Rename" && op.Name != "Copy" || !strings.HasPrefix(b+"/", pa+"/") {
			add("the parent is missing", fs.ErrNotExist, moveAway(pa))
			add("the parent is a file", nil, swap(pa, 'f'))
		}
		if unlinks || op.Name == "CreateDir" || op.Name == "Write" && src.n == nil {
			add("the parent is not writable", fs.ErrPermission, chmod(pa, 0o555))
		}
		add("the parent is not searchable", fs.ErrPermission, chmod(pa, 0o600))
	}
	// an over-long name
	if reads || op.Name == "Write" || op.Name == "ReadDir" {
		var old syscall.Rlimit
		fs_ = append(fs_, fault{name: noFDs, cause: syscall.EMFILE,
			inject: func() bool {
				if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old) != nil {
					return false
				}
				return syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 3, Max: old.Max}) == nil
			},
			undo: func() { syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old) }})
	}
	long := w.dir + "/" + joinRel(pa, strings.Repeat("x", 256+t.Intn(3000)))
	oldA, oldB := op.A, op.B
	add("the name is too long", syscall.ENAMETOOLONG, fault{inject: func() bool { op.A = long; return true }, undo: func() { op.A = oldA }})
	add("the path is empty", nil, fault{inject: func() bool { op.A = ""; return true }, undo: func() { op.A = oldA }})
	add("the path holds a NUL byte", nil, fault{inject: func() bool { op.A = oldA + "\x00"; return true }, undo: func() { op.A = oldA }})
	if op.B != "" {
		add("the target's name is too long", syscall.ENAMETOOLONG, fault{inject: func() bool { op.B = long; return true }, undo: func() { op.B = oldB }})
		add("the target path is empty", nil, fault{inject: func() bool { op.B = ""; return true }, undo: func() { op.B = oldB }})
		add("the target path holds a NUL byte", nil, fault{inject: func() bool { op.B = oldB + "\x00"; return true }, undo: func() { op.B = oldB }})
	}
	return fs_
}

const noFDs = "no file descriptor is left"

func permFault(name string) bool {
	return strings.Contains(name, "able") // readable, writable, searchable
}

func runFaults(t *pbt.T) {
	if t.OneIn(12) {
		runForeign(t)
		return
	}
	w := newWorld()
	defer fsutil.Remove(w.dir)
	// a starting tree
	n := 2 + t.Intn(10)
	for i := 0; i < n; i++ {
		var op fsutil.Op
		a := w.genPath(t)
		op.Name = pbt.Pick(t, "Write", "CreateDir", "Write")
		op.A = w.spell(t, a)
		if op.Name == "Write" {
			op.Data = genData(t)
			if len(op.Data) > 5000 {
				op.Data = op.Data[:5000]
			}
		}
		w.exec(t, op, a, "")
		if t.OneIn(5) {
			w.external(t)
		}
	}
	w.check(t, "the set-up")
	rounds := 1 + t.Intn(4)
	done := 0
	for r := 0; r < rounds; r++ {
		// a call that the model says must succeed
		var op fsutil.Op
		var a, b string
		found := false
		for k := 0; k < 12 && !found; k++ {
			if t.OneIn(8) {
				a = w.genPath(t)
				op = fsutil.Op{Name: "ReadDir", A: w.spell(t, a)}
			} else {
				op, a, b = w.genOp(t, nil)
			}
			w.outside = false
			v, _, _, _ := w.step(op, a, b)
			found = v == mustOk && !w.outside
		}
		if !found {
			continue
		}
		if op.Name == "ReadDir" && t.Bool() && w.unpriv {
			// /dev/full: the write itself fails
			full := fsutil.Op{Name: "Write", A: "/dev/full", Data: []byte("xyz")}
			if _, err := os.Stat("/dev/full"); err == nil {
				var r fsutil.Outcome
				t.NoPanic("Write to a full device", func() { r = fsutil.Sync(full) })
				t.Check(!r.Ok && errors.Is(r.Err, syscall.ENOSPC), "Write of 3 bytes to a full device = %s", r)
				t.Label("fault: device full")
			}
		}
		fs_ := w.faults(t, &op, a, b)
		if len(fs_) == 0 {
			continue
		}
		f := fs_[t.Intn(len(fs_))]
		if permFault(f.name) && !w.unpriv {
			continue
		}
		sound := op
		ok := f.name == noFDs || f.inject()
		if !ok {
			f.undo()
			if d := fsutil.Diff(fsutil.Snapshot(w.dir), w.snapshot(), true); d != "" {
				return // the set-up itself was refused half way: not a case
			}
			continue
		}
		w.check(t, "injecting a fault (harness)")
		t.Logf("fault: %s; call %s", f.name, op)
		t.Label("fault: " + f.name)
		t.Label("faulty " + op.Name)
		// The model must agree that the call cannot succeed now.
		if op.A == sound.A && op.B == sound.B && f.name != noFDs {
			w.outside = false
			if v, _, _, _ := w.step(op, a, b); v != mustErr || w.outside {
				f.undo()
				t.Label("fault without effect on this call")
				continue
			}
		}
		done++
		before := fsutil.Snapshot(w.dir)
		var res fsutil.Outcome
		left := 0
		t.NoPanic(op.String()+" when "+f.name, func() {
			res, left = fsutil.Closed(func() fsutil.Outcome {
				if f.name == noFDs { // for the call alone
					if !f.inject() {
						return fsutil.Outcome{Err: syscall.EMFILE}
					}
					defer f.undo()
				}
				return fsutil.Sync(op)
			})
		})
		t.Check(left == 0, "%s when %s left %d file descriptors open", op, f.name, left)
		t.Check(!res.Ok, "%s = Ok although %s", op, f.name)
		t.Check(res.Err != nil && res.Err.Error() != "", "%s when %s: Err without a cause", op, f.name)
		if f.cause != nil {
			t.Check(errors.Is(res.Err, f.cause), "%s when %s: the error %q (%T) does not say %q", op, f.name, res.Err, res.Err, f.cause)
		}
		after := fsutil.Snapshot(w.dir)
		if d := fsutil.Diff(after, before, true); d != "" {
			t.Failf("the failed %s (%s) changed the tree: %s", op, f.name, d)
		}
		if f.name != noFDs {
			f.undo()
		}
		op.A, op.B = sound.A, sound.B
		w.check(t, "removing the fault (harness)")
		w.exec(t, op, a, b)
		w.check(t, "the repeated "+op.String())
	}
	if done > 0 {
		t.Nontrivial()
	}
}

var C32 = &pbt.Prop{ID: "C32",
	Rule: "A random tree, then 1-4 rounds: a call of any of the nine file functions that the model says must succeed, one injected fault (about 30 classes: missing path or parent, wrong kind at the path, its target or a parent, non-empty or existing directory, dangling link, link loop, unreadable/unwritable/unsearchable, over-long, empty or NUL path, full device, no descriptor left), the call, and the same call after the fault is undone. Oracle: Err with the fault's error class, the whole tree byte-identical across the failed call, then Ok with the model's effect. One case in 12 instead works on files and directories of another user (readable, writable or neither, in a directory that is sticky or closed). Non-trivial: at least one fault took effect.",
	Run:  runFaults, Quick: 12000, Thorough: 500000,
	Assumptions: []string{"Linux semantics; run as an unprivileged user who owns the tree.", "A write that fails after truncating (device full) may leave the target empty."}}

// ---- listings ----

// joins tells whether p is dir joined with name: cleaned (if that cannot lead
// elsewhere) or with one separator in between.
func joins(p, dir, name string) bool {
	if p == strings.TrimRight(dir, "/")+"/"+name || strings.HasSuffix(dir, "/") && p == dir+name {
		return true
	}
	return p == filepath.Join(dir, name)
}

func runReadDir(t *pbt.T) {
	dir := fsutil.Scratch()
	defer fsutil.Remove(dir)
	base := filepath.Join(dir, pbt.Pick(t, "d", "d e", "é", ".x"))
	if err := os.Mkdir(base, 0o755); err != nil {
		panic(err)
	}
	n := t.Intn(pbt.Pick(t, 4, 12, 40))
	if t.OneIn(30) {
		n = 100 + t.Intn(200)
	}
	if k, ok := t.Huge(300, 6000); ok {
		n = k
	}
	want := map[string]byte{}
	mk := func() {
		name := genName(t)
		switch t.Intn(5) {
		case 0:
			name = fmt.Sprintf("f%d", t.Intn(300+2*n))
		case 1:
			name = pbt.Pick(t, "..a", "...", " ", "\n", "a b\tc", "\xff\xfe", "한글", "a\\b", "A", "B", "Z", "_", "~", "0", "é", "\u007f") + pbt.Pick(t, "", "1", "2")
		case 2:
			name = name + fmt.Sprint(t.Intn(30))
		}
		if len(name) > 255 {
			name = name[:255]
		}
		if want[name] != 0 {
			return
		}
		p := base + "/" + name
		var err error
		kind := byte('f')
		switch t.Weighted(5, 3, 4, 1) {
		case 0:
			err = os.WriteFile(p, genData(t)[:0], os.FileMode(pbt.Pick(t, 0o644, 0o755, 0o400, 0o000, 0o777)))
		case 1:
			kind = 'd'
			err = os.Mkdir(p, os.FileMode(pbt.Pick(t, 0o755, 0o700, 0o000)))
			if err == nil && t.Bool() {
				os.WriteFile(p+"/inner", nil, 0o644)
			}
		case 2:
			kind = 'l'
			err = os.Symlink(pbt.Pick(t, "a", "nowhere", ".", "..", name, "../"+filepath.Base(base), "/", "b/c"), p)
		default:
			kind = 'p'
			err = syscall.Mkfifo(p, 0o600)
		}
		if err != nil {
			panic(err)
		}
		want[name] = kind
	}
	for i := 0; i < n; i++ {
		mk()
	}
	via := base
	switch t.Intn(8) {
	case 0:
		via = filepath.Join(dir, "link")
		if err := os.Symlink(filepath.Base(base), via); err != nil {
			panic(err)
		}
		t.Label("through a link")
	case 1:
		via = base + "/"
	case 2:
		via = dir + "//" + filepath.Base(base)
	case 3:
		if workdir != "" {
			if r, err := filepath.Rel(workdir, base); err == nil {
				via = r
				t.Label("relative path")
			}
		}
	case 4:
		via = dir + "/./" + filepath.Base(base)
	case 5:
		via = base + "/../" + filepath.Base(base)
	case 6: // back from where a link led to: not the directory of the link
		if want["sub"] == 0 && os.Mkdir(base+"/sub", 0o755) == nil {
			want["sub"] = 'd'
			via = dir + "/into/.."
			if err := os.Symlink(filepath.Base(base)+"/sub", dir+"/into"); err != nil {
				panic(err)
			}
			t.Label("back from a link")
		}
	}
	subKept := strings.HasSuffix(via, "/into/..")
	calls := 1 + t.Intn(3)
	for c := 0; c < calls; c++ {
		var names []string
		for k := range want {
			names = append(names, k)
		}
		sortStrings(names)
		t.Logf("ReadDir(%q) of %d entries %.200q", filepath.Base(via), len(names), names)
		before := fsutil.Snapshot(base)
		var r fsutil.Outcome
		left := 0
		t.NoPanic("ReadDir", func() {
			r, left = fsutil.Closed(func() fsutil.Outcome { return fsutil.Sync(fsutil.Op{Name: "ReadDir", A: via}) })
		})
		t.Check(left == 0, "ReadDir left %d file descriptors open", left)
		t.Check(r.Ok, "ReadDir(%q) = %s", via, r)
		var got []string
		for _, e := range r.Entries {
			got = append(got, string(e.FileName))
		}
		t.Check(len(got) == len(names), "ReadDir lists %d entries %.300q, want the %d %.300q", len(got), got, len(names), names)
		for i, e := range r.Entries {
			t.Check(got[i] == names[i], "entry %d is %q, want %q (all: %.300q)", i, got[i], names[i], got)
			p := string(e.Path)
			t.Check(joins(p, via, names[i]), "ReadDir(%q): the Path of %q is %q", via, names[i], p)
			if i < 8 || t.OneIn(20) {
				var at, in syscall.Stat_t
				e1, e2 := syscall.Lstat(p, &at), syscall.Lstat(base+"/"+names[i], &in)
				t.Check(e1 == nil && e2 == nil && at.Ino == in.Ino && at.Dev == in.Dev, "ReadDir(%q): the Path of %q is %q, which is something else", via, names[i], p)
			}
			k := want[names[i]]
			d, f, l := e.FileType.IsDir(), e.FileType.IsFile(), e.FileType.IsSymlink()
			t.Check(d == (k == 'd') && f == (k == 'f') && l == (k == 'l'), "%q (kind %c): IsDir = %v, IsFile = %v, IsSymlink = %v", names[i], k, d, f, l)
			t.Label("kind " + string(k))
		}
		if d := fsutil.Diff(fsutil.Snapshot(base), before, true); d != "" {
			t.Failf("ReadDir changed the tree: %s", d)
		}
		// the directory changes between listings
		for i := t.Intn(3); i > 0; i-- {
			mk()
		}
		if len(names) > 0 && t.Bool() {
			x := names[t.Intn(len(names))]
			if subKept && x == "sub" {
				continue
			}
			p := base + "/" + x
			if want[x] == 'd' {
				os.Chmod(p, 0o700)
				syscall.Unlink(p + "/inner")
				syscall.Rmdir(p)
			} else {
				syscall.Unlink(p)
			}
			delete(want, x)
		}
	}
	if n > 0 {
		t.Nontrivial()
	}
	if t.OneIn(4) {
		p := base + "/zz"
		what := ""
		switch t.Intn(5) {
		case 0:
			what = "missing path"
		case 1:
			what = "file"
			os.WriteFile(p, []byte("x"), 0o644)
		case 2:
			what = "dangling link"
			os.Symlink("nowhere-at-all", p)
		case 3:
			what = "unreadable directory"
			if !fsutil.Unpriv() {
				return
			}
			os.Mkdir(p, 0o755)
			os.WriteFile(p+"/inner", nil, 0o644)
			os.Chmod(p, 0o300)
		default:
			what = "over-long name"
			p = base + "/" + strings.Repeat("y", 300)
		}
		t.Label("ReadDir of a " + what)
		var r fsutil.Outcome
		left := 0
		t.NoPanic("ReadDir", func() {
			r, left = fsutil.Closed(func() fsutil.Outcome { return fsutil.Sync(fsutil.Op{Name: "ReadDir", A: p}) })
		})
		t.Check(left == 0, "ReadDir left %d file descriptors open", left)
		t.Check(!r.Ok && r.Err != nil, "ReadDir of a %s = %s", what, r)
	}
}

var C33 = &pbt.Prop{ID: "C33",
	Rule: "A directory of 0-300 generated entries (odd names, regular files, directories, symbolic links to files, directories, nothing and themselves, pipes; any permissions), listed one to three times with entries added and removed in between, through a plain, linked, relative or oddly spelled path; a quarter of the cases also list something that is no readable directory. Oracle: the names and kinds created, in byte order. Non-trivial: at least one entry.",
	Run:  runReadDir, Quick: 40000, Thorough: 1600000}
