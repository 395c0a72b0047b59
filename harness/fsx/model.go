// Package fsx checks the file functions of gost against a model file system.
package fsx

import (
	"path/filepath"
	"strings"
	"syscall"

	"verif/harness/fsutil"
	"verif/harness/pbt"
)

// node of the model: a directory, a regular file or a symbolic link.
type node struct {
	kind   byte // 'd', 'f', 'l'
	perm   uint32
	data   []byte
	target string
	kids   map[string]*node
	parent *node
}

func newDir(parent *node) *node {
	return &node{kind: 'd', perm: 0o755, kids: map[string]*node{}, parent: parent}
}

// world is the model file system of one case and the directory it mirrors.
type world struct {
	root    *node
	dir     string // real directory of root
	unpriv  bool
	outside bool // a lookup left the modelled tree
}

// may tells whether the owner bits allow what (4 read, 2 write, 1 search).
func (w *world) may(n *node, what uint32) bool {
	return !w.unpriv || n.perm>>6&what == what
}

// where is the result of a path lookup.
type where struct {
	parent *node // directory that holds (or would hold) the last name
	name   string
	n      *node // nil: not there
	err    syscall.Errno
	slash  bool
}

// lookup walks a path of the model; rel is relative to the root directory.
func (w *world) lookup(from *node, rel string, follow bool) where {
	hops := 0
	return w.walk(from, rel, follow, &hops)
}

func (w *world) walk(cur *node, rel string, follow bool, hops *int) where {
	if rel == "" {
		return where{err: syscall.ENOENT}
	}
	parts := strings.Split(rel, "/")
	var names []string
	for _, p := range parts {
		if p != "" && p != "." {
			names = append(names, p)
		}
	}
	if len(names) == 0 {
		return where{parent: cur.parent, name: "", n: cur}
	}
	for i, name := range names {
		last := i == len(names)-1
		if cur.kind != 'd' {
			return where{err: syscall.ENOTDIR}
		}
		if !w.may(cur, 1) {
			return where{err: syscall.EACCES}
		}
		if len(name) > 255 {
			return where{err: syscall.ENAMETOOLONG}
		}
		if name == ".." {
			if cur.parent == nil { // out of the modelled tree: such calls are not made
				w.outside = true
				return where{err: syscall.EIO}
			}
			cur = cur.parent
			if last {
				return where{parent: cur.parent, n: cur}
			}
			continue
		}
		k := cur.kids[name]
		if k != nil && k.kind == 'l' && (!last || follow) {
			*hops++
			if *hops > 40 {
				return where{err: syscall.ELOOP}
			}
			// the rest of the walk continues from the link's target
			t := w.walk(cur, k.target, true, hops)
			if last {
				return t
			}
			if t.err != 0 {
				return where{err: t.err}
			}
			if t.n == nil {
				return where{err: syscall.ENOENT}
			}
			cur = t.n
			continue
		}
		if last {
			return where{parent: cur, name: name, n: k}
		}
		if k == nil {
			return where{err: syscall.ENOENT}
		}
		cur = k
	}
	return where{parent: cur.parent, n: cur}
}

// verdict of the model about one call.
type verdict int

const (
	mustOk verdict = iota
	mustErr
	either // the call may do it or refuse it
)

// step tells what the call must do. apply performs its effect on the model;
// it is called when the call returned Ok. data is what a read must return.
func (w *world) step(op fsutil.Op, a, b string) (v verdict, cause syscall.Errno, apply func(), data []byte) {
	apply = func() {}
	bad := func(e syscall.Errno) (verdict, syscall.Errno, func(), []byte) { return mustErr, e, func() {}, nil }
	switch op.Name {
	case "Write":
		l := w.lookup(w.root, a, true)
		if l.err != 0 {
			return bad(l.err)
		}
		cp := append([]byte(nil), op.Data...)
		return w.put(l, cp, 0, false)
	case "Read", "ReadToString":
		l := w.lookup(w.root, a, true)
		switch {
		case l.err != 0:
			return bad(l.err)
		case l.n == nil:
			return bad(syscall.ENOENT)
		case l.n.kind == 'd':
			return bad(0)
		case !w.may(l.n, 4):
			return bad(syscall.EACCES)
		}
		return mustOk, 0, apply, l.n.data
	case "ReadDir":
		l := w.lookup(w.root, a, true)
		switch {
		case l.err != 0:
			return bad(l.err)
		case l.n == nil:
			return bad(syscall.ENOENT)
		case l.n.kind != 'd':
			return bad(0)
		case !w.may(l.n, 4):
			return bad(syscall.EACCES)
		}
		if !w.may(l.n, 1) {
			return either, 0, apply, nil
		}
		return mustOk, 0, apply, nil
	case "CreateDir":
		l := w.lookup(w.root, a, false)
		switch {
		case l.err != 0:
			return bad(l.err)
		case l.n != nil:
			return bad(syscall.EEXIST)
		case !w.may(l.parent, 2):
			return bad(syscall.EACCES)
		}
		return mustOk, 0, func() { l.parent.kids[l.name] = newDir(l.parent) }, nil
	case "RemoveFile", "RemoveDir":
		l := w.lookup(w.root, a, false)
		switch {
		case l.err != 0:
			return bad(l.err)
		case l.n == nil:
			return bad(syscall.ENOENT)
		case l.n == w.root || l.name == "":
			return bad(0)
		case (l.n.kind == 'd') != (op.Name == "RemoveDir"):
			return bad(0)
		case len(l.n.kids) > 0:
			if !w.may(l.parent, 2) {
				return bad(0)
			}
			return bad(syscall.ENOTEMPTY)
		case !w.may(l.parent, 2):
			return bad(syscall.EACCES)
		}
		return mustOk, 0, func() { delete(l.parent.kids, l.name) }, nil
	case "Copy":
		l := w.lookup(w.root, a, true)
		switch {
		case l.err != 0:
			return bad(l.err)
		case l.n == nil:
			return bad(syscall.ENOENT)
		case l.n.kind == 'd':
			return bad(0)
		case !w.may(l.n, 4):
			return bad(syscall.EACCES)
		}
		t := w.lookup(w.root, b, true)
		if t.err != 0 {
			return bad(t.err)
		}
		if t.n == l.n { // onto itself: whatever it answers, nothing changes
			return either, 0, apply, nil
		}
		return w.put(t, append([]byte(nil), l.n.data...), l.n.perm, true)
	case "Rename":
		l := w.lookup(w.root, a, false)
		t := w.lookup(w.root, b, false)
		switch {
		case l.err != 0:
			return bad(l.err)
		case t.err != 0:
			if l.n == nil {
				return bad(0)
			}
			return bad(t.err)
		case l.n == nil:
			return bad(syscall.ENOENT)
		case l.name == "" || t.name == "":
			return bad(0)
		case l.n == t.n: // onto itself
			return either, 0, apply, nil
		}
		move := func() {
			delete(l.parent.kids, l.name)
			t.parent.kids[t.name] = l.n
			l.n.parent = t.parent
		}
		if l.n.kind == 'd' {
			for p := t.parent; p != nil; p = p.parent {
				if p == l.n { // into itself
					return bad(0)
				}
			}
			if t.n != nil {
				if t.n.kind != 'd' || len(t.n.kids) > 0 {
					return bad(0)
				}
				return either, 0, move, nil // onto an empty directory
			}
		} else if t.n != nil && t.n.kind == 'd' {
			return bad(0)
		}
		if !w.may(l.parent, 2) || !w.may(t.parent, 2) {
			return bad(syscall.EACCES)
		}
		if l.n.kind == 'd' && l.parent != t.parent && !w.may(l.n, 2) {
			return either, 0, move, nil
		}
		return mustOk, 0, move, nil
	}
	panic(op.Name)
}

// put writes a file at l.
func (w *world) put(l where, data []byte, perm uint32, setPerm bool) (verdict, syscall.Errno, func(), []byte) {
	nop := func() {}
	if l.n != nil {
		if l.n.kind == 'd' {
			return mustErr, 0, nop, nil
		}
		if !w.may(l.n, 2) {
			return mustErr, syscall.EACCES, nop, nil
		}
		v := mustOk
		if !w.may(l.n, 4) { // write-only: opening it for reading and writing is refused
			v = either
		}
		return v, 0, func() {
			l.n.data = data
			if setPerm {
				l.n.perm = perm
			}
		}, nil
	}
	if l.parent == nil || l.name == "" {
		return mustErr, 0, nop, nil
	}
	if !w.may(l.parent, 2) {
		return mustErr, syscall.EACCES, nop, nil
	}
	return mustOk, 0, func() {
		n := &node{kind: 'f', perm: 0o644, data: data, parent: l.parent}
		if setPerm {
			n.perm = perm
		}
		l.parent.kids[l.name] = n
	}, nil
}

// snapshot of the model in the form of fsutil.Snapshot.
func (w *world) snapshot() map[string]fsutil.Entry {
	out := map[string]fsutil.Entry{}
	var walk func(n *node, rel string)
	walk = func(n *node, rel string) {
		e := fsutil.Entry{Kind: n.kind, Perm: n.perm}
		switch n.kind {
		case 'f':
			e.Data = fsutil.Digest(n.data)
		case 'l':
			e.Data, e.Perm = n.target, 0
		}
		out[rel] = e
		for k, c := range n.kids {
			r := k
			if rel != "" {
				r = rel + "/" + k
			}
			walk(c, r)
		}
	}
	walk(w.root, "")
	return out
}

// all lists the model's nodes with their paths, in a fixed order.
func (w *world) all() (paths []string, nodes []*node) {
	var walk func(n *node, rel string)
	walk = func(n *node, rel string) {
		paths, nodes = append(paths, rel), append(nodes, n)
		var ks []string
		for k := range n.kids {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			r := k
			if rel != "" {
				r = rel + "/" + k
			}
			walk(n.kids[k], r)
		}
	}
	walk(w.root, "")
	return
}

func sortStrings(x []string) {
	for i := range x {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

var names = []string{"a", "b", "c", "d e", "é한", ".h", "a.txt", "-n", "*", "aa"}

func genName(t *pbt.T) string {
	if s, ok := t.DictStr(); ok && s != "" && s != "." && s != ".." && len(s) <= 255 && !strings.ContainsAny(s, "/\x00") {
		return s
	}
	if t.OneIn(25) {
		return strings.Repeat("n", pbt.Pick(t, 200, 254, 255))
	}
	return names[t.Intn(pbt.Pick(t, 3, len(names)))]
}

// genPath draws a path of the model tree: an existing one, a new child of an
// existing directory, or a path below something that is no directory.
func (w *world) genPath(t *pbt.T) string {
	ps, ns := w.all()
	i := t.Intn(len(ps))
	switch t.Weighted(6, 6, 1) {
	case 0:
		if ps[i] != "" {
			return ps[i]
		}
	case 1:
		for k := 0; k < len(ps) && ns[i].kind != 'd'; k++ {
			i = (i + 1) % len(ps)
		}
	default: // also below files, links and missing names
		if t.Bool() {
			return joinRel(joinRel(ps[i], genName(t)), genName(t))
		}
	}
	return joinRel(ps[i], genName(t))
}

func joinRel(a, b string) string {
	if a == "" {
		return b
	}
	return a + "/" + b
}

// spell writes a model path as a real one, in one of several equivalent ways.
func (w *world) spell(t *pbt.T, rel string) string {
	switch t.Weighted(5, 1, 1, 1, 1) {
	case 1:
		return w.dir + "//" + strings.ReplaceAll(rel, "/", "//")
	case 2:
		return w.dir + "/./" + rel
	case 3: // relative to the working directory
		if wd := workdir; wd != "" {
			if r, err := filepath.Rel(wd, w.dir); err == nil {
				return r + "/" + rel
			}
		}
	case 4:
		if wd := workdir; wd != "" {
			if r, err := filepath.Rel(wd, w.dir); err == nil {
				return "./" + r + "/" + rel
			}
		}
	}
	return w.dir + "/" + rel
}
