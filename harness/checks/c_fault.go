package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"sync/atomic"

	"faveverif/fx"
	"faveverif/mon"
)

func init() {
	All["C12"] = c12
}

// fault is a storage failure injected into one operation: from the k-th
// operation of a kind on, for n of them (0: until the operation ends).
type fault struct {
	kinds []fx.OpKind
	k, n  int64
}

func (f *fault) arm(b *fx.Bee) (hits *int64, seen *int64) {
	hits, seen = new(int64), new(int64)
	b.SetHook(func(k fx.OpKind) error {
		match := false
		for _, x := range f.kinds {
			match = match || x == k
		}
		if !match {
			return nil
		}
		c := atomic.AddInt64(seen, 1) - 1
		if c < f.k || f.n > 0 && c >= f.k+f.n {
			return nil
		}
		atomic.AddInt64(hits, 1)
		return fx.ErrInjected
	})
	return hits, seen
}

var faultKinds = map[string][]fx.OpKind{
	"blob":   {fx.OpBlob},
	"chunk":  {fx.OpChunk},
	"write":  {fx.OpBlob, fx.OpChunk},
	"soc":    {fx.OpSOC},
	"rchunk": {fx.OpReadChunk},
	"rblob":  {fx.OpReadBlob},
}

// settle looks at what an add that was answered with an error left behind. Of
// each of its documents nothing, or the document as it was handed in, can come
// back; searches may find it.
func (w *World) settle(f Front, c *MCol, docs []Doc) bool {
	for _, d := range docs {
		h, err := f.Get(c.Name, "id", d.ID)
		if errors.Is(err, errDropped) {
			w.bad("dropped", "lookup after a failed add: %v", err)
			return false
		}
		if err == nil && (h.ID != d.ID || canon(h.Props) != canon(d.Props)) {
			w.bad("mixed", "document %q of a failed add to %q comes back as %s %s, which was never handed in", d.ID, c.Name, h.ID, canon(h.Props))
			return false
		}
		if err == nil {
			w.T.Count("documents of failed adds that are there", 1)
		} else {
			w.T.Count("documents of failed adds that are not there", 1)
		}
		if d.Vec != nil {
			c.Added++
		}
		c.Docs[d.ID] = &MDoc{Doc: d, V: d.Vec, Open: true}
	}
	return true
}

func c12(t *mon.T) {
	t.Level = "fault_enumeration"
	t.Rule = "one evaluation per operation during which the store failed at a chosen write or read, after which everything acknowledged is compared with the model, more documents are added, and again after a restart; distinct by kind of fault, its place and the outcome"
	t.Assumptions = []string{"in-memory Swarm node", "a failure of the store is an error answer to an upload or download of data; failures of feed updates and feed lookups are handled in fairOS-dfs (see DESIGN.md)"}
	kinds := []string{"blob", "rblob"}
	t.Par("c12", t.N(600, 6000), func(i int, r *rand.Rand) {
		h := newHist(t, r, dims(r))
		if h == nil {
			return
		}
		defer func() { h.done() }()
		h.noRe = true
		cols := []string{"docs", "notes"}[:1+r.Intn(2)]
		for _, n := range cols {
			if !h.Create(h.F(r), n, stdIdx) {
				return
			}
			for k := r.Intn(3); k > 0; k-- {
				if !h.addBatch(n, 1+r.Intn(6)) {
					return
				}
			}
		}
		if r.Intn(5) < 2 && !h.Restart(false) {
			return
		}
		// what a failed write leaves in a fairOS index can lose a later document
		// of that index (see DESIGN.md), so nothing more is added to it
		failed := map[string]bool{}
		all := func() bool {
			f := h.F(r)
			for _, n := range h.names() {
				c := h.Cols[n]
				if failed[n] && !acked(c) {
					// nothing to be found; without its first vector the index may
					// not be readable (see DESIGN.md)
					continue
				}
				if !h.CheckAll(f, c) {
					return false
				}
			}
			return true
		}
		for round := 0; round < 2; round++ {
			kind := kinds[r.Intn(len(kinds))]
			col := cols[r.Intn(len(cols))]
			if failed[col] {
				continue
			}
			c := h.Cols[col]
			var docs []Doc
			for k := 1 + r.Intn(4); k > 0; k-- {
				d := h.freshDoc(col)
				d.Vec = RandVec(r, h.dim)
				docs = append(docs, d)
			}
			fl := &fault{kinds: faultKinds[kind], k: int64(r.Intn(9 * len(docs)))}
			if r.Intn(2) == 0 {
				fl.n = 1 + int64(r.Intn(2))
			}
			f := h.F(r)
			hits, seen := fl.arm(h.S.Bee)
			err := f.Add(col, nil, docs)
			h.S.Bee.SetHook(nil)
			h.tr("%s add of %d documents to %q, %s %d+%d fails (%d of %d): %v", f.Name(), len(docs), col, kind, fl.k, fl.n, *hits, *seen, err)
			for _, d := range docs {
				h.tr("   %s", short(d))
			}
			t.Count(kind+" operations that failed", *hits)
			if errors.Is(err, errDropped) {
				h.bad("dropped", "the connection is dropped when the store fails: %v", err)
				return
			}
			if *hits == 0 && err != nil {
				h.bad("valid-refused", "add of %d valid documents to %q failed without a failure of the store: %v", len(docs), col, err)
				return
			}
			if err == nil {
				h.Learn(col, nil, docs)
				if *hits > 0 && kind == "rblob" {
					// fairOS does not find what it cannot read, FaVe cannot tell:
					// these documents may not be connected
					for _, d := range docs {
						c.Docs[d.ID].Loose = true
					}
				}
			} else if !h.settle(f, c, docs) {
				return
			}
			failed[col] = err != nil || *hits > 0 && kind == "rblob"
			out := "refused"
			if err == nil {
				out = "acknowledged"
			}
			t.Eval(fmt.Sprintf("add, %s fails, %s", kind, out), fmt.Sprintf("%d %d %d %d %d", fl.k, fl.n, *hits, *seen, len(docs)))
			if !all() {
				return
			}
		}
		// it goes on, or is started again before anything else is added
		goesOn := r.Intn(2) == 0
		for _, n := range cols {
			if goesOn && !failed[n] && !h.addBatch(n, 1+r.Intn(4)) {
				return
			}
		}
		if !all() || !h.Restart(r.Intn(2) == 0) || !all() {
			return
		}
		for _, n := range cols {
			if !failed[n] && !h.addBatch(n, 2) {
				return
			}
		}
		all()
	})
	faultCols(t, t.N(200, 2500))
	faultReads(t, t.N(150, 2500))
}

// faultCols: creating and deleting collections while the store fails.
func faultCols(t *mon.T, n int) {
	t.Par("c12cols", n, func(i int, r *rand.Rand) {
		h := newHist(t, r, dims(r))
		if h == nil {
			return
		}
		defer func() { h.done() }()
		h.noRe = true
		if !h.Create(h.F(r), "docs", stdIdx) || !h.addBatch("docs", 1+r.Intn(5)) {
			return
		}
		kind := []string{"blob", "rblob"}[r.Intn(2)]
		fl := &fault{kinds: faultKinds[kind], k: int64(r.Intn(12))}
		if r.Intn(2) == 0 {
			fl.n = 1
		}
		del := i%2 == 1
		if del {
			if !h.Create(h.F(r), "other", stdIdx) {
				return
			}
			if r.Intn(2) == 0 && !h.addBatch("other", 1) {
				return
			}
		}
		if r.Intn(4) == 0 && !h.Restart(false) {
			return
		}
		f := h.F(r)
		hits, seen := fl.arm(h.S.Bee)
		var err error
		what := "create"
		if del {
			what = "delete"
			err = f.Delete("other")
		} else {
			err = f.Create("other", stdIdx)
		}
		h.S.Bee.SetHook(nil)
		h.tr("%s %s of \"other\", %s %d+%d fails (%d of %d): %v", f.Name(), what, kind, fl.k, fl.n, *hits, *seen, err)
		if errors.Is(err, errDropped) || *hits == 0 && err != nil {
			h.bad("valid-refused", "%s of a collection failed: %v", what, err)
			return
		}
		t.Count(kind+" operations that failed", *hits)
		out := "refused"
		if err == nil {
			out = "acknowledged"
		}
		t.Eval(fmt.Sprintf("%s, %s fails, %s", what, kind, out), fmt.Sprintf("%d %d %d %d", fl.k, fl.n, *hits, *seen))
		docs := h.Cols["docs"]
		if !h.CheckAll(h.F(r), docs) {
			return
		}
		open := err != nil // half done, fairOS cannot always do it again (see DESIGN.md)
		if open {
			delete(h.Cols, "other")
			if !h.Create(h.F(r), "third", stdIdx) {
				return
			}
		}
		idx := map[string]string{"id": "string", "hnswId": "number", "title": "string", "n": "number"}
		if del {
			delete(h.Cols, "other")
		} else if !open {
			h.Cols["other"] = &MCol{Name: "other", Idx: idx, Docs: map[string]*MDoc{}}
		}
		list := func() bool {
			if !open {
				return h.CheckList(h.F(r))
			}
			got, err := h.F(r).List()
			if err != nil || got["docs"] == nil || got["third"] == nil {
				h.bad("list", "after a failed %s the collections are listed as %v, %v", what, got, err)
				return false
			}
			return true
		}
		if !list() {
			return
		}
		for round := 0; round < 2; round++ {
			for _, c := range h.names() {
				if !h.addBatch(c, 2) || !h.CheckAll(h.F(r), h.Cols[c]) {
					return
				}
			}
			if round == 0 && !h.Restart(r.Intn(2) == 0) || !list() {
				return
			}
		}
	})
}

// acked tells whether a document with a vector was acknowledged.
func acked(c *MCol) bool {
	for _, d := range c.Docs {
		if !d.Open && !d.Loose && d.V != nil {
			return true
		}
	}
	return false
}

// faultReads: lookups and searches while the store fails. Each is answered with
// an error, or with documents as they were added. fairOS reports what it cannot
// read as not found, and FaVe cannot tell, so some may be missing while the store
// fails; afterwards everything is as it was.
func faultReads(t *mon.T, n int) {
	t.Par("c12reads", n, func(i int, r *rand.Rand) {
		h := newHist(t, r, dims(r))
		if h == nil {
			return
		}
		defer func() { h.done() }()
		h.noRe = true
		if !h.Create(h.F(r), "docs", stdIdx) || !h.addBatch("docs", 3+r.Intn(15)) {
			return
		}
		c := h.Cols["docs"]
		for round := 0; round < 2; round++ {
			if !h.Restart(r.Intn(2) == 0) {
				return
			}
			f := h.F(r)
			if r.Intn(2) == 0 && !h.CheckSelf(f, c, c.Docs[h.pick(c)]) { // something is cached
				return
			}
			fl := &fault{kinds: faultKinds["rblob"], k: int64(r.Intn(4 * len(c.Docs)))}
			if r.Intn(2) == 0 {
				fl.n = 1 + int64(r.Intn(3))
			}
			hits, _ := fl.arm(h.S.Bee)
			for k := 0; k < 4; k++ {
				before := atomic.LoadInt64(hits)
				what, out := "search", ""
				var err, wrong error
				if k == 3 {
					what = "lookup"
					id := h.pick(c)
					var d *Hit
					if d, err = f.Get("docs", "id", id); err == nil && (d.ID != id || canon(d.Props) != canon(c.Docs[id].Props)) {
						wrong = fmt.Errorf("lookup of %q returned %s %s", id, d.ID, canon(d.Props))
					}
				} else {
					q := h.query(c)
					dist, limit := h.distLimit(q, c)
					var res []Hit
					if res, err = f.NearVec("docs", q, dist, limit); err == nil {
						if wrong = c.Sound(res, q, dist, limit); c.Complete(res, q, dist, limit) != nil {
							out = " in part"
						}
					}
				}
				failed := atomic.LoadInt64(hits) - before
				h.tr("%s %s, rblob %d+%d fails (%d times): %v", f.Name(), what, fl.k, fl.n, failed, err)
				if err != nil {
					out = "refused"
				} else {
					out = "answered" + out
				}
				class, text := "", ""
				switch {
				case errors.Is(err, errDropped):
					class, text = "dropped", "the connection is dropped when the store fails during a "+what
				case wrong != nil:
					class, text = "mixed", fmt.Sprintf("%s while the store fails: %v", what, wrong)
				case failed == 0 && out != "answered" && *hits == 0:
					class, text = "lost", fmt.Sprintf("%s without a failure of the store: %s, %v", what, out, err)
				}
				if class != "" {
					h.S.Bee.SetHook(nil)
					h.bad(class, "%s", text)
					return
				}
				if failed > 0 {
					t.Eval(fmt.Sprintf("%s, rblob fails, %s", what, out), fmt.Sprint(i, round, k))
				}
			}
			h.S.Bee.SetHook(nil)
			if !h.CheckAll(h.F(r), c) {
				return
			}
		}
	})
}
