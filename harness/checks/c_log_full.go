package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"syscall"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"

	"faveverif/mon"
)

// limited runs f while no file can grow beyond n bytes, as on a full disk.
func limited(n int64, f func() error) (err error, ok bool) {
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		return f(), false
	}
	ok = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}) == nil
	defer func() { _ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }()
	return f(), ok
}

// fullDisk: a log that cannot be written, condensed or combined for lack of space
// is reported as such, and nothing is lost: neither then nor when it is tried again.
// Runs alone, for the limit concerns the whole process.
func fullDisk(t *mon.T, tmp string) {
	for i := 0; i < t.N(60, 400); i++ {
		r := t.Rand("full", i)
		root := filepath.Join(tmp, fmt.Sprint("full", i))
		dir := filepath.Join(root, "ix.hnsw.commitlog.d")
		_ = os.MkdirAll(dir, 0o755)
		state := newLState()
		var hist []interface{}
		ok := func() bool {
			bad := func(f string, a ...interface{}) bool {
				t.Violate("disk full", map[string]interface{}{"log": hist}, f, a...)
				return false
			}
			judge := func(what string, asSets bool) bool {
				fs, err := logFiles(root, "ix")
				var res *hnsw.DeserializationResult
				if err == nil {
					res, err = replay(fs)
				}
				if err == nil {
					err = state.same(res, asSets)
				}
				t.Eval("disk full", fmt.Sprint(what, i))
				if err != nil {
					return bad("%s: %v", what, err)
				}
				return true
			}
			for k := 0; k < 2; k++ {
				w := filepath.Join(root, fmt.Sprint("w", k))
				l, addNode, err := openLogger(w, "ix")
				if err != nil {
					return bad("the log cannot be opened: %v", err)
				}
				n := 20 + r.Intn(100)
				if r.Intn(8) == 0 {
					n = 1500
				}
				hist = append(hist, fmt.Sprintf("log %d", k))
				for _, o := range genOps(r, state, n, false, nil) {
					hist = append(hist, o)
					err = errors.Join(err, o.write(l, addNode))
					state.apply(o)
				}
				err = errors.Join(err, l.Flush(), l.Shutdown(context.Background()))
				var fs []string
				if err == nil {
					fs, err = logFiles(w, "ix")
				}
				if err != nil || len(fs) != 1 {
					return bad("the log cannot be written: %v", err)
				}
				_ = os.Rename(fs[0], filepath.Join(dir, fmt.Sprint(1000+7*k)))
			}
			combine := func() error {
				_, err := hnsw.NewCommitLogCombiner(root, "ix", 1<<30, quiet()).Do()
				return err
			}
			// what was combined is condensed again before what follows it
			order := [][]int{{0, 1}, {1, 0}}[r.Intn(2)]
			for _, k := range order {
				f := filepath.Join(dir, fmt.Sprint(1000+7*k))
				raw, err := os.ReadFile(f)
				if err != nil {
					return bad("%v", err)
				}
				// the size of the result, from a copy
				c := filepath.Join(root, "copy")
				_ = os.WriteFile(c, raw, 0o644)
				if err := hnsw.NewMemoryCondensor(quiet()).Do(c); err != nil {
					return bad("condensing: %v", err)
				}
				fi, err := os.Stat(c + ".condensed")
				if err != nil {
					return bad("condensing: %v", err)
				}
				whole, _ := os.ReadFile(c + ".condensed")
				_ = os.Remove(c + ".condensed")
				for try := 0; try < 2 && fi.Size() > 1; try++ {
					max := 1 + r.Int63n(fi.Size()-1)
					err, limits := limited(max, func() error { return hnsw.NewMemoryCondensor(quiet()).Do(f) })
					what := fmt.Sprintf("condensing to %d bytes when a file cannot be larger than %d", fi.Size(), max)
					if limits && err == nil {
						return bad("%s reports no error", what)
					}
					if left, e := os.ReadFile(f); e != nil || string(left) != string(raw) {
						return bad("%s removes or changes the log", what)
					}
					// the maintenance goes on
					if err := combine(); err != nil {
						return bad("combining: %v", err)
					}
					if left, e := os.ReadFile(f); e != nil || string(left) != string(raw) {
						return bad("%s, then combining, removes or changes the log", what)
					}
					// logFiles would remove what is left, as a restart does
					if r.Intn(2) == 0 && !judge(what, true) {
						return false
					}
				}
				if len(whole) > 0 && r.Intn(2) == 0 { // killed while condensing
					_ = os.WriteFile(f+".condensed", whole[:r.Intn(len(whole))], 0o644)
				}
				if err := hnsw.NewMemoryCondensor(quiet()).Do(f); err != nil {
					return bad("condensing, once there is space again: %v", err)
				}
				if !judge("condensed once there is space again", true) {
					return false
				}
			}
			var size int64
			for _, n := range []string{"1000", "1007"} {
				if fi, err := os.Stat(filepath.Join(dir, n+".condensed")); err == nil {
					size += fi.Size()
				}
			}
			if size > 1 {
				max := 1 + r.Int63n(size-1)
				err, limits := limited(max, combine)
				what := fmt.Sprintf("combining to %d bytes when a file cannot be larger than %d", size, max)
				if limits && err == nil {
					return bad("%s reports no error", what)
				}
				if !judge(what, true) {
					return false
				}
			}
			if err := combine(); err != nil {
				return bad("combining, once there is space again: %v", err)
			}
			return judge("combined once there is space again", true) && fullLog(t, r, root, i, bad)
		}()
		_ = os.RemoveAll(root)
		if !ok {
			return
		}
	}
}

// fullLog: a flush that does not write everything says so.
func fullLog(t *mon.T, r *rand.Rand, root string, i int, bad func(string, ...interface{}) bool) bool {
	w := filepath.Join(root, "flush")
	l, addNode, err := openLogger(w, "ix")
	if err != nil {
		return bad("the log cannot be opened: %v", err)
	}
	ops := genOps(r, newLState(), 20+r.Intn(60), false, nil)
	size := int64(0)
	for _, o := range ops {
		size += int64(entryLen(o))
	}
	max := 1 + r.Int63n(size-1)
	err, limits := limited(max, func() error {
		var err error
		for _, o := range ops {
			err = errors.Join(err, o.write(l, addNode))
		}
		return errors.Join(err, l.Flush())
	})
	_ = l.Shutdown(context.Background())
	t.Eval("disk full", fmt.Sprint("flush", i))
	if limits && err == nil {
		return bad("%d bytes are logged and flushed without an error when a file cannot be larger than %d", size, max)
	}
	return true
}
