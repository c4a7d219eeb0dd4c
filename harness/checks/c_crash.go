package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"faveverif/mon"
)

func init() { All["C13"] = c13 }

// clone is the model as it is now.
func (w *World) cloneCols() map[string]*MCol {
	out := map[string]*MCol{}
	for n, c := range w.Cols {
		d := *c
		d.Docs = map[string]*MDoc{}
		for id, m := range c.Docs {
			x := *m
			d.Docs[id] = &x
		}
		out[n] = &d
	}
	return out
}

// C13: the process is killed between any two writes of an operation.
func c13(t *mon.T) {
	t.Level = "fault_enumeration"
	t.Rule = "one process started on what the store held when the previous one was killed after the k-th write of an operation, everything compared with the model, then worked with, restarted and compared again; distinct by operation, place, and content"
	t.Assumptions = []string{"in-memory Swarm node: a write is there as a whole or not at all, and in the order in which it was made",
		"killed while the feeds of the pod are being updated, the collection that was being changed is only judged by what it answers (see DESIGN.md and the known finding)"}
	t.Par("c13", t.N(44, 800), func(i int, r *rand.Rand) {
		h := newHist(t, r, dims(r))
		if h == nil {
			return
		}
		defer func() { h.done() }()
		h.noRe = true
		for _, n := range []string{"docs", "notes"} {
			if !h.Create(h.F(r), n, stdIdx) {
				return
			}
			for k := r.Intn(4); k > 0; k-- {
				if !h.addBatch(n, 1+r.Intn(5)) {
					return
				}
			}
		}
		if r.Intn(3) == 0 && !h.Restart(r.Intn(2) == 0) {
			return
		}
		crash(t, r, h, 0)
	})
	// the order of the updates is not fixed
	for k := 0; k < 12 && !killedDuringCommit(t); k++ {
	}
}

// crash makes one operation, and starts FaVe on every (or some) state of the
// store between its writes.
func crash(t *mon.T, r *rand.Rand, h *hist, depth int) {
	before := h.cloneCols()
	trace := len(h.Trace)
	from := h.S.Bee.Len()
	op := []string{"add", "add", "add", "create", "delete"}[r.Intn(5)]
	if h.Cols["docs"] == nil || h.Cols["more"] != nil {
		op = "add"
	}
	col := "docs"
	switch op {
	case "add":
		if h.Cols[col] == nil {
			col = "notes"
		}
		n := 1 + r.Intn(4)
		if r.Intn(6) == 0 {
			n = 12
		}
		if !h.addBatch(col, n) {
			return
		}
	case "create":
		col = "more"
		if !h.Create(h.F(r), col, stdIdx) {
			return
		}
	case "delete":
		if !h.DeleteCol(h.F(r), col) {
			return
		}
	}
	after := h.cloneCols()
	to := h.S.Bee.Len()
	kinds := h.S.Bee.Kinds(from, to)
	commit := strings.IndexByte(kinds, 'c')
	if commit < 0 {
		commit = len(kinds)
	}
	t.Count("writes of the operations", int64(len(kinds)))
	for k := 0; k <= len(kinds); k++ {
		if depth > 0 {
			if r.Intn(len(kinds)) > 1 {
				continue
			}
		} else if !t.Thorough() {
			if k < commit && r.Intn(6) > 0 || k > commit && k < len(kinds) && r.Intn(4) > 0 {
				continue
			}
		}
		crashPoint(t, r, h, op, col, before, after, from, k, commit, len(kinds), depth, append([]string(nil), h.Trace[:trace]...))
		if t.Violations() >= t.MaxViol() {
			return
		}
	}
}

func crashPoint(t *mon.T, r *rand.Rand, h *hist, op, col string, before, after map[string]*MCol, from, k, commit, n, depth int, trace []string) {
	phase := "data"
	if k > commit {
		phase = "feeds"
	}
	if k == n {
		phase = "all"
	}
	s, err := h.S.Restart(h.S.Bee.Prefix(from + k))
	if err != nil {
		t.Violate("start", trace, "FaVe does not start after a crash at write %d of %d of %s: %v", k, n, op, err)
		return
	}
	w := &hist{World: NewWorld(t, s, h.dim), r: r, ids: map[string][]string{}, nov: map[string]bool{"docs": true, "notes": true, "more": true}, max: smallMax, noRe: true, uniq: h.uniq + 100*(k+1)}
	defer func() { w.done() }()
	w.Trace = append(trace, fmt.Sprintf("%s %q, killed after write %d of %d (%s; feeds from %d)", op, col, k, n, phase, commit))
	w.Cols = (&World{Cols: before}).cloneCols()
	f := w.F(r)
	list, err := f.List()
	if err != nil {
		w.bad("list-failed", "listing the collections after a crash failed: %v", err)
		return
	}
	var retry []Doc
	if phase == "all" {
		w.Cols = (&World{Cols: after}).cloneCols()
	} else {
		switch op {
		case "add":
			c := w.Cols[col]
			for id, d := range after[col].Docs {
				if c.Docs[id] == nil {
					m := *d
					m.Open = true
					c.Docs[id] = &m
					if d.V != nil {
						c.Added++
						x := d.Doc
						x.Vec = d.V
						retry = append(retry, x)
					}
				}
			}
			sortDocs(retry)
		case "create": // it is there or not
			if list[col] != nil {
				w.Cols[col] = (&World{Cols: after}).cloneCols()[col]
			}
		case "delete":
			if list[col] == nil {
				delete(w.Cols, col)
			}
		}
	}
	if phase == "feeds" {
		// between two states: whatever the collection answers is right or an error
		if c := w.Cols[col]; c != nil {
			if !w.checkAnswers(f, c) {
				return
			}
			delete(w.Cols, col)
		}
		delete(list, col)
		want := w.names()
		for _, n := range want {
			if list[n] == nil {
				w.bad("list", "collection %q is not listed any more", n)
				return
			}
		}
		if len(list) != len(want) {
			w.bad("list", "collections %v are listed, there are %v", list, want)
			return
		}
	}
	check := func() bool {
		f := w.F(r)
		if phase != "feeds" && !w.CheckList(f) {
			return false
		}
		for _, n := range w.names() {
			c := w.Cols[n]
			if !w.CheckAll(f, c) || !w.checkOpen(f, c) {
				return false
			}
		}
		return true
	}
	if !check() {
		return
	}
	t.Eval(op+", killed while writing "+phase, fmt.Sprintf("%d/%d/%d/%d", k, n, h.uniq, depth))
	if depth > 0 {
		t.Count("killed again", 1)
	}
	// it goes on: the interrupted request is made again, others follow
	if phase == "data" {
		switch {
		case op == "add" && len(retry) > 0:
			if !w.Add(w.F(r), col, nil, retry) {
				return
			}
		case op == "create":
			if !w.Create(w.F(r), col, stdIdx) || !w.addBatch(col, 2) {
				return
			}
		case op == "delete" && w.Cols[col] != nil:
			if !w.DeleteCol(w.F(r), col) {
				return
			}
		}
	}
	for _, n := range w.names() {
		if !w.addBatch(n, 1+r.Intn(3)) {
			return
		}
	}
	if !check() {
		return
	}
	if phase == "data" && depth == 0 && r.Intn(4) == 0 {
		crash(t, r, w, 1)
		return
	}
	if !w.Restart(r.Intn(2) == 0) || !check() {
		return
	}
	t.Eval("work after "+op+", killed while writing "+phase, fmt.Sprintf("%d/%d/%d", k, n, h.uniq))
}

// checkOpen: a document of an interrupted add is there as handed in, or not there.
func (w *World) checkOpen(f Front, c *MCol) bool {
	for _, id := range sortedIDs(c) {
		d := c.Docs[id]
		if !d.Open {
			continue
		}
		g, err := f.Get(c.Name, "id", id)
		if errors.Is(err, errDropped) || err == nil && (g.ID != id || canon(g.Props) != canon(d.Props)) {
			w.bad("mixed", "document %q of an add that was interrupted comes back wrong: %v %v", id, g, err)
			return false
		}
	}
	return true
}

// checkAnswers: lookups and searches are answered with an error or rightly.
func (w *World) checkAnswers(f Front, c *MCol) bool {
	for _, id := range sortedIDs(c) {
		d := c.Docs[id]
		g, err := f.Get(c.Name, "id", id)
		if errors.Is(err, errDropped) || err == nil && (g.ID != id || canon(g.Props) != canon(d.Props)) {
			w.bad("mixed", "document %q comes back wrong after a crash: %v %v", id, g, err)
			return false
		}
		if d.V == nil || zero(d.V) {
			continue
		}
		hits, err := f.NearVec(c.Name, d.V, 0.5, 0)
		if errors.Is(err, errDropped) {
			w.bad("dropped", "search of %q after a crash: %v", c.Name, err)
			return false
		}
		if err == nil {
			if err := c.Sound(hits, d.V, 0.5, 0); err != nil {
				w.bad("unsound", "search of %q after a crash: %v", c.Name, err)
				return false
			}
		}
	}
	return true
}

// killedDuringCommit is the known finding: fairOS updates the feeds of a pod
// one after the other, so a process killed meanwhile leaves a collection
// between two states.
func killedDuringCommit(t *mon.T) bool {
	r := rand.New(rand.NewSource(7)) // the same history whatever the seed
	h := newHist(t, r, 4)
	if h == nil {
		return true
	}
	defer func() { h.done() }()
	h.noRe, h.nov["docs"] = true, true
	f := h.fronts[0]
	mk := func(id string, n int, v []float32) Doc {
		return Doc{ID: id, Props: map[string]interface{}{"title": fmt.Sprintf("alpha t%05d", n), "n": n}, Vec: v}
	}
	if !h.Create(f, "docs", stdIdx) || !h.Add(f, "docs", nil, []Doc{mk("a1", 1, []float32{1, 0, 0, 0}), mk("b2", 2, []float32{0, 1, 0, 0})}) {
		return true
	}
	before, from := h.cloneCols(), h.S.Bee.Len()
	if !h.Add(f, "docs", nil, []Doc{mk("c3", 3, []float32{0, 0, 1, 0}), mk("a4", 4, []float32{0, 0, 0, 1})}) {
		return true
	}
	kinds := h.S.Bee.Kinds(from, h.S.Bee.Len())
	for k := strings.IndexByte(kinds, 'c') + 1; k > 0 && k < len(kinds); k++ {
		s, err := h.S.Restart(h.S.Bee.Prefix(from + k))
		if err != nil {
			t.Violate("start", nil, "FaVe does not start after a crash: %v", err)
			return true
		}
		lost := ""
		for _, d := range before["docs"].Docs {
			if _, err := s.Doc.GetDocument("docs", "id", d.ID); err != nil {
				lost = fmt.Sprintf("document %q cannot be looked up: %v", d.ID, err)
			}
		}
		s.Stop()
		if lost != "" {
			t.Known("killed-during-commit", []string{lost}, "killed after feed update %d: %s", k, lost)
			return true
		}
	}
	return false
}

func sortDocs(d []Doc) { sort.Slice(d, func(i, j int) bool { return d[i].ID < d[j].ID }) }
