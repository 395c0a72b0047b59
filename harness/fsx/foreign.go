package fsx

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/fsutil"
	"verif/harness/pbt"
)

var nonce int

// runForeign calls the file functions on what belongs to somebody else: files
// the user may write but not change the permissions of, files in a sticky
// directory and in one that is not writable.
func runForeign(t *pbt.T) {
	foreign := os.Getenv("PBT_FOREIGN")
	if foreign == "" || !fsutil.Unpriv() {
		return
	}
	dir := fsutil.Scratch()
	defer fsutil.Remove(dir)
	own := filepath.Join(dir, "own")
	data := genData(t)
	if len(data) > 5000 {
		data = data[:5000]
	}
	// never the same contents twice: what one wrong call wrote must not hide the next one
	nonce++
	data = append(data, fmt.Sprintf("%d.%d", os.Getpid(), nonce)...)
	perm := pbt.Pick[uint32](t, 0o600, 0o400, 0o755, 0o640)
	if os.WriteFile(own, data, 0o600) != nil || os.Chmod(own, os.FileMode(perm)) != nil {
		return
	}
	n := 1 + t.Intn(4)
	for i := 0; i < n; i++ {
		at := func(names ...string) string { return filepath.Join(foreign, pbt.Pick(t, names...)) }
		var op fsutil.Op
		switch t.Weighted(6, 2, 2, 2, 2, 2, 2) {
		case 0: // rw may be written, but its permission bits may not be set
			op = fsutil.Op{Name: "Copy", A: own, B: at("rw", "wo", "sticky/rw", "ro", "sticky/ro", "secret", "new")}
		case 1:
			op = fsutil.Op{Name: "Write", A: at("ro", "sticky/ro", "secret", "new"), Data: genData(t)}
		case 2:
			op = fsutil.Op{Name: pbt.Pick(t, "Read", "ReadToString"), A: at("wo", "secret")}
			if strings.HasSuffix(op.A, "wo") {
				op.A = at("secret")
			}
		case 3:
			op = fsutil.Op{Name: "RemoveFile", A: at("rw", "ro", "secret", "sticky/rw", "sticky/ro")}
		case 4:
			op = fsutil.Op{Name: "RemoveDir", A: at("empty", "sticky/empty")}
		case 5:
			op = fsutil.Op{Name: "CreateDir", A: at("new", "empty/new", "sticky/empty/new")}
		case 6:
			a := at("rw", "ro", "sticky/rw", "empty", "sticky/empty")
			b := filepath.Join(dir, "moved")
			if t.Bool() {
				a, b = own, at("rw", "ro", "new", "sticky/rw", "sticky/ro")
			}
			op = fsutil.Op{Name: "Rename", A: a, B: b}
		}
		t.Logf("somebody else's: %s", op)
		t.Label("foreign " + op.Name)
		before, ownBefore := fsutil.Snapshot(foreign), fsutil.Snapshot(dir)
		var res fsutil.Outcome
		left := 0
		t.NoPanic(op.String(), func() { res, left = fsutil.Closed(func() fsutil.Outcome { return fsutil.Sync(op) }) })
		t.Check(left == 0, "%s left %d file descriptors open", op, left)
		t.Check(!res.Ok, "%s of somebody else's file = Ok", op)
		t.Check(errors.Is(res.Err, fs.ErrPermission), "%s of somebody else's file: the error is %q (%T)", op, res.Err, res.Err)
		if d := fsutil.Diff(fsutil.Snapshot(foreign), before, true); d != "" {
			t.Failf("the failed %s (somebody else's file) changed it: %s", op, d)
		}
		if d := fsutil.Diff(fsutil.Snapshot(dir), ownBefore, true); d != "" {
			t.Failf("the failed %s (somebody else's file) changed the tree: %s", op, d)
		}
		t.Nontrivial()
	}
}
