package checks

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"faveverif/fx"
	"faveverif/mon"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
)

func init() {
	All["C10"] = c10
	All["C11"] = c11
}

// ver is one version of a document and when it was handed in and acknowledged,
// on a clock that ticks with every event.
type ver struct {
	doc        Doc
	v          []float32
	canon      string
	start, end int64 // end 0: not acknowledged yet
}

// clog is the recorded history of a concurrent run.
type clog struct {
	mu    sync.Mutex
	clock int64
	docs  map[string]map[string][]*ver // collection, id
	n     map[string]int               // vectors handed in per collection
	trace []string
}

func (l *clog) tick() int64 { return atomic.AddInt64(&l.clock, 1) }

func (l *clog) begin(col string, docs []Doc, vectorize []string, dim int) []*ver {
	l.mu.Lock()
	defer l.mu.Unlock()
	var out []*ver
	t := l.tick()
	for _, d := range docs {
		v := &ver{doc: d, v: d.Vec, canon: canon(d.Props), start: t}
		if v.v == nil {
			if s := VectorText(d, vectorize); s != "" {
				v.v = fx.TextVec(s, dim)
			}
		}
		if l.docs[col] == nil {
			l.docs[col] = map[string][]*ver{}
		}
		l.docs[col][d.ID] = append(l.docs[col][d.ID], v)
		l.n[col]++
		out = append(out, v)
		l.trace = append(l.trace, fmt.Sprintf("%d add %s %s", t, col, short(d)))
	}
	return out
}

func (l *clog) ack(vs []*ver) {
	l.mu.Lock()
	t := l.tick()
	for _, v := range vs {
		v.end = t
	}
	l.trace = append(l.trace, fmt.Sprintf("%d acknowledged %d documents", t, len(vs)))
	l.mu.Unlock()
}

// possible are the versions a read between s and e may show, and whether it
// may show none.
func (l *clog) possible(col, id string, s, e int64) (vs []*ver, absent bool) {
	all := l.docs[col][id]
	absent = true
	for _, v := range all {
		if v.end != 0 && v.end < s {
			absent = false
		}
	}
	for _, v := range all {
		if v.start > e {
			continue
		}
		over := false
		for _, w := range all {
			// w replaced v before the read began
			if w != v && v.end != 0 && w.start > v.end && w.end != 0 && w.end < s {
				over = true
			}
		}
		if !over {
			vs = append(vs, v)
		}
	}
	return vs, absent
}

// replacing tells whether a new version of an existing document is being added
// at some time of the read.
func (l *clog) replacing(col, id string, s, e int64) bool {
	all := l.docs[col][id]
	for i, v := range all {
		if i > 0 && v.start < e && (v.end == 0 || v.end > s) {
			return true
		}
	}
	return false
}

type conc struct {
	t    *mon.T
	s    *fx.Stack
	l    *clog
	dim  int
	f    [2]Front
	seed int64
	uniq int64
}

func (c *conc) bad(class, format string, a ...interface{}) {
	c.l.mu.Lock()
	tr := append([]string(nil), c.l.trace...)
	c.l.mu.Unlock()
	if len(tr) > 300 {
		tr = tr[len(tr)-300:]
	}
	c.t.Violate(class, tr, format, a...)
}

func (c *conc) doc(r *rand.Rand) Doc {
	n := int(atomic.AddInt64(&c.uniq, 1))
	return GenDoc(r, UUID(r, n), n, c.dim)
}

// add hands in documents, and reads them back when they are acknowledged.
func (c *conc) add(r *rand.Rand, col string, docs []Doc) bool {
	vectorize := []string{"title", "body"}
	f := c.f[r.Intn(2)]
	vs := c.l.begin(col, docs, vectorize, c.dim)
	if err := f.Add(col, vectorize, docs); err != nil {
		c.bad("valid-refused", "add of %d valid documents to %q failed: %v", len(docs), col, err)
		return false
	}
	c.l.ack(vs)
	c.t.Eval("concurrent add acknowledged", "")
	return true
}

func (c *conc) get(r *rand.Rand, col, id string) {
	f := c.f[r.Intn(2)]
	s := c.l.tick()
	h, err := f.Get(col, "id", id)
	e := c.l.tick()
	c.l.mu.Lock()
	vs, absent := c.l.possible(col, id, s, e)
	repl := c.l.replacing(col, id, s, e)
	c.l.mu.Unlock()
	c.t.Eval("concurrent get", fmt.Sprintf("%d %s %d %v", c.seed, id, len(vs), absent))
	if err != nil {
		if IsNotFound(err) {
			if absent {
				return
			}
			if repl {
				c.t.Count("document not found while it is being replaced", 1)
				return
			}
			c.bad("lost", "get of document %s of %q, which was acknowledged, at %d..%d: %v", id, col, s, e, err)
			return
		}
		if repl {
			c.t.Count("get fails while the document is being replaced", 1)
			return
		}
		c.bad("get-failed", "get of document %s of %q at %d..%d failed: %v", id, col, s, e, err)
		return
	}
	if h.ID != id {
		c.bad("wrong-document", "get of document %s of %q gave document %s", id, col, h.ID)
		return
	}
	got := canon(h.Props)
	for _, v := range vs {
		if v.canon == got {
			return
		}
	}
	c.bad("wrong-version", "get of document %s of %q at %d..%d gave %s, which is none of the %d versions it may have then", id, col, s, e, got, len(vs))
}

// near searches, and judges every hit and what has to be among them.
func (c *conc) near(r *rand.Rand, col string, q []float32, dist float32, limit int) {
	f := c.f[r.Intn(2)]
	s := c.l.tick()
	hits, err := f.NearVec(col, q, dist, limit)
	e := c.l.tick()
	if err != nil {
		c.bad("search-failed", "search of %q at %d..%d failed: %v", col, s, e, err)
		return
	}
	c.l.mu.Lock()
	defer c.l.mu.Unlock()
	report := func(class, format string, a ...interface{}) {
		c.l.mu.Unlock()
		c.bad(class, format, a...)
		c.l.mu.Lock()
	}
	c.t.Eval("concurrent search", fmt.Sprintf("%d %d %d", c.seed, s, len(hits)))
	if limit > 0 && len(hits) > limit {
		report("limit", "search of %q gave %d documents for a limit of %d", col, len(hits), limit)
	}
	seen := map[string]bool{}
	for i, h := range hits {
		vs, _ := c.l.possible(col, h.ID, s, e)
		got := canon(h.Props)
		ok := false
		for _, v := range vs {
			if v.canon != got || v.v == nil {
				continue
			}
			if math.Abs(fx.Cos(q, v.v)-float64(h.Dist)) <= distTol {
				ok = true
			}
		}
		if !ok {
			report("wrong-hit", "search of %q at %d..%d gave document %s at distance %v as %s, which is none of the %d versions it may have then", col, s, e, h.ID, h.Dist, got, len(vs))
			return
		}
		if h.Dist > dist {
			report("distance", "search of %q within %v gave document %s at %v", col, dist, h.ID, h.Dist)
			return
		}
		if i > 0 && h.Dist < hits[i-1].Dist {
			report("order", "search of %q gave a document at %v after one at %v", col, h.Dist, hits[i-1].Dist)
			return
		}
		if seen[h.ID] && !c.l.replacing(col, h.ID, s, e) {
			report("twice", "search of %q at %d..%d gave document %s twice", col, s, e, h.ID)
			return
		}
		seen[h.ID] = true
	}
	if c.l.n[col] > smallMax || limit != 0 {
		return
	}
	for id, all := range c.l.docs[col] {
		if len(all) != 1 { // replaced at some time
			continue
		}
		v := all[0]
		if v.end == 0 || v.end > s || v.v == nil || seen[id] {
			continue
		}
		if fx.Cos(q, v.v) < float64(dist)-distTol {
			report("missing", "search of %q within %v at %d..%d does not give document %s, acknowledged at %d and at distance %v", col, dist, s, e, id, v.end, fx.Cos(q, v.v))
			return
		}
	}
	c.t.Eval("concurrent search is complete", "")
}

// final compares what is there in the end with the history.
func (c *conc) final(col string, f Front) {
	c.l.mu.Lock()
	defer c.l.mu.Unlock()
	m := &MCol{Name: col, Docs: map[string]*MDoc{}}
	unlocked := func(fn func()) { c.l.mu.Unlock(); defer c.l.mu.Lock(); fn() }
	ids := make([]string, 0)
	for id := range c.l.docs[col] {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		vs, _ := c.l.possible(col, id, math.MaxInt64, math.MaxInt64)
		var h *Hit
		var err error
		unlocked(func() { h, err = f.Get(col, "id", id) })
		if err != nil {
			unlocked(func() { c.bad("lost", "%s: document %s of %q is gone in the end: %v", f.Name(), id, col, err) })
			return
		}
		got := canon(h.Props)
		for _, v := range vs {
			if v.canon == got {
				m.Docs[id] = &MDoc{Doc: v.doc, V: v.v}
			}
		}
		if m.Docs[id] == nil || h.ID != id {
			unlocked(func() {
				c.bad("wrong-version", "document %s of %q is %s in the end, which none of the last adds stored", id, col, got)
			})
			return
		}
		c.t.Eval("final document", fmt.Sprintf("%d %s", c.seed, id))
	}
	r := rand.New(rand.NewSource(c.seed))
	for i := 0; i < 3; i++ {
		q := RandVec(r, c.dim)
		var hits []Hit
		var err error
		unlocked(func() { hits, err = f.NearVec(col, q, 2.1, 0) })
		if err == nil {
			err = m.Sound(hits, q, 2.1, 0)
		}
		if err == nil && c.l.n[col] <= smallMax {
			err = m.Complete(hits, q, 2.1, 0)
		}
		if err != nil {
			unlocked(func() { c.bad("final-search", "%s: search of %q in the end: %v", f.Name(), col, err) })
			return
		}
		c.t.Eval("final search", fmt.Sprintf("%d %d", c.seed, i))
	}
}

// concCase is one concurrent run.
func concCase(t *mon.T, i int, r *rand.Rand) {
	dim := []int{3, 8, 16}[r.Intn(3)]
	s, err := fx.NewStack(fx.StackOpts{Dim: dim})
	if err != nil {
		t.Violate("start", nil, "FaVe does not start on an empty store: %v", err)
		return
	}
	c := &conc{t: t, s: s, l: &clog{docs: map[string]map[string][]*ver{}, n: map[string]int{}}, dim: dim, seed: t.Seed*100000 + int64(i)}
	c.f = [2]Front{clientFront{s.Doc}, restFront{s}}
	defer func() { c.s.Stop() }()
	cols := []string{"docs", "notes"}[:1+r.Intn(2)]
	for _, col := range cols {
		if err := c.f[0].Create(col, stdIdx); err != nil {
			t.Violate("valid-refused", nil, "create failed: %v", err)
			return
		}
		if r.Intn(2) == 0 {
			var ds []Doc
			for k := 0; k < 1+r.Intn(6); k++ {
				ds = append(ds, c.doc(r))
			}
			if !c.add(r, col, ds) {
				return
			}
		}
	}
	// the collections are opened by the concurrent requests themselves
	if r.Intn(2) == 0 {
		s2, err := c.s.Restart(nil)
		if err != nil {
			t.Violate("restart", nil, "FaVe does not start again: %v", err)
			return
		}
		c.s.Stop()
		c.s = s2
		c.f = [2]Front{clientFront{s2.Doc}, restFront{s2}}
	}
	// delays between the storage operations
	var ops int64
	prob, us := r.Intn(4), 1+r.Intn(300)
	sd := r.Int63()
	c.s.Bee.SetHook(func(k fx.OpKind) error {
		n := atomic.AddInt64(&ops, 1)
		x := uint64(n)*0x9E3779B97F4A7C15 ^ uint64(sd)
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 32
		switch {
		case prob > 0 && x%64 < uint64(prob):
			time.Sleep(time.Duration(x>>40%uint64(us)) * time.Microsecond)
		case x%16 == 0:
			runtime.Gosched()
		}
		return nil
	})
	var wg sync.WaitGroup
	start := make(chan struct{})
	goer := func(name string, fn func(r *rand.Rand)) {
		wg.Add(1)
		gr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, false)]
					t.Violate("panic", string(buf), "panic in %s: %v", name, p)
				}
			}()
			<-start
			fn(gr)
		}()
	}
	stop := make(chan struct{})
	var writers sync.WaitGroup
	nw := 2 + r.Intn(3)
	per := 1 + r.Intn(4)
	replace := r.Intn(2) == 0
	for w := 0; w < nw; w++ {
		writers.Add(1)
		goer("writer", func(r *rand.Rand) {
			defer writers.Done()
			var mine [][2]string
			for k := 0; k < per; k++ {
				col := cols[r.Intn(len(cols))]
				var ds []Doc
				for b := 0; b <= r.Intn(4); b++ {
					ds = append(ds, c.doc(r))
				}
				if replace && len(mine) > 0 && r.Intn(3) == 0 {
					// a new version of a document of its own
					o := mine[r.Intn(len(mine))]
					col = o[0]
					d := c.doc(r)
					d.ID = o[1]
					ds = []Doc{d}
				}
				if !c.add(r, col, ds) {
					return
				}
				for _, d := range ds {
					mine = append(mine, [2]string{col, d.ID})
					c.get(r, col, d.ID)
				}
				d := ds[r.Intn(len(ds))]
				if d.Vec != nil {
					c.near(r, col, d.Vec, 0.3, 0)
				}
			}
		})
	}
	for w := 0; w < 2; w++ {
		goer("reader", func(r *rand.Rand) {
			for k := 0; ; k++ {
				select {
				case <-stop:
					if k >= 3 {
						return
					}
				default:
				}
				col := cols[r.Intn(len(cols))]
				c.l.mu.Lock()
				var ids []string
				for id := range c.l.docs[col] {
					ids = append(ids, id)
				}
				c.l.mu.Unlock()
				sort.Strings(ids)
				if len(ids) > 0 && r.Intn(2) == 0 {
					c.get(r, col, ids[r.Intn(len(ids))])
					continue
				}
				c.near(r, col, RandVec(r, dim), []float32{2.1, 1, 0.5}[r.Intn(3)], []int{0, 0, 1, 5}[r.Intn(4)])
			}
		})
	}
	// other collections come and go at the same time
	if r.Intn(2) == 0 {
		goer("collections", func(r *rand.Rand) {
			for k := 0; k < 2; k++ {
				name := fmt.Sprintf("tmp-%c", 'a'+k)
				f := c.f[r.Intn(2)]
				if err := f.Create(name, map[string]string{"title": "string"}); err != nil {
					c.bad("valid-refused", "create of %q failed: %v", name, err)
					return
				}
				ls, err := f.List()
				if err != nil || ls[name] == nil || ls[cols[0]] == nil {
					c.bad("list", "list after create of %q: %v %v", name, ls, err)
					return
				}
				if r.Intn(2) == 0 && !c.add(r, name, []Doc{c.doc(r)}) {
					return
				}
				if err := f.Delete(name); err != nil {
					c.bad("valid-refused", "delete of %q failed: %v", name, err)
					return
				}
				ls, err = f.List()
				if err != nil || ls[name] != nil || ls[cols[0]] == nil {
					c.bad("list", "list after delete of %q: %v %v", name, ls, err)
					return
				}
				c.t.Eval("collection made and deleted meanwhile", "")
			}
		})
	}
	// the same collection is made by several requests at once, each adds to it
	shared := r.Intn(2) == 0
	if shared {
		for w := 0; w < 3; w++ {
			writers.Add(1)
			goer("same collection", func(r *rand.Rand) {
				defer writers.Done()
				if err := c.f[r.Intn(2)].Create("shared", stdIdx); err != nil {
					c.bad("valid-refused", "create of the same collection by several requests at once failed: %v", err)
					return
				}
				d := c.doc(r)
				if c.add(r, "shared", []Doc{d}) {
					c.get(r, "shared", d.ID)
				}
			})
		}
	}
	go func() { writers.Wait(); close(stop) }()
	close(start)
	wg.Wait()
	c.s.Bee.SetHook(nil)
	if t.Violations() > 0 {
		return
	}
	t.Count("storage operations during concurrent runs", atomic.LoadInt64(&ops))
	if shared {
		cols = append(cols, "shared")
	}
	for _, col := range cols {
		c.final(col, c.f[i%2])
	}
	s2, err := c.s.Restart(nil)
	if err != nil {
		t.Violate("restart", nil, "FaVe does not start again: %v", err)
		return
	}
	c.s.Stop()
	c.s = s2
	c.f = [2]Front{clientFront{s2.Doc}, restFront{s2}}
	for _, col := range cols {
		c.final(col, c.f[(i+1)%2])
	}
	t.Max("largest history, in events", c.l.clock)
}

func c10(t *mon.T) {
	t.Rule = "one evaluation per acknowledged add, per get and per search made while other requests run, judged against the recorded history of which versions the document may have at that time, and per document and search in the end and after a restart; distinct by case, document or moment"
	t.Assumptions = []string{"in-memory Swarm node", "schedules are those the delays and the scheduler give"}
	t.ParW("conc", t.N(96, 1500), 6, func(i int, r *rand.Rand) { concCase(t, i, r) })
}

func c11(t *mon.T) {
	t.Rule = "one evaluation per request served while others run, in a build with the race detector; the detector's reports are read at the end and those whose accesses FaVe itself makes are violations"
	t.Assumptions = []string{"in-memory Swarm node", "races inside fairOS-dfs alone are not FaVe's", "schedules are those the delays and the scheduler give"}
	dropIndexes(t, t.N(200, 1000)) // first: nothing else uses the processor if they block each other
	t.ParW("conc", t.N(20, 500), 8, func(i int, r *rand.Rand) { concCase(t, i, r) })
	t.Par("cache", t.N(8, 60), func(i int, r *rand.Rand) { raceIndex(t, r) })
	t.Par("links", t.N(8, 60), func(i int, r *rand.Rand) { raceLinks(t, i, 250, r) })
	t.Par("top", t.N(80, 600), func(i int, r *rand.Rand) { raceLinks(t, i, 24, r) })
	t.Par("cold", t.N(8, 120), func(i int, r *rand.Rand) { raceCold(t, i, r) })
	time.Sleep(100 * time.Millisecond)
	reports := raceReports(os.Getenv("VERIF_RACE_LOG"))
	other := 0
	for _, rep := range reports {
		if raceIsFaVe(rep) {
			t.Violate("data-race", rep, "data race in FaVe: %s", raceHead(rep))
		} else {
			other++
		}
	}
	t.Count("race reports of other code", int64(other))
}

// raceIndex hammers one index from several goroutines: searches while it grows,
// and drops of what its cache holds.
func raceIndex(t *mon.T, r *rand.Rand) {
	dim := 6
	x := newIx(t, "searches while the index grows", hnsw.UserConfig{MaxConnections: 30, EFConstruction: 60, VectorCacheMaxObjects: 10 + r.Intn(1000)})
	if x == nil {
		return
	}
	n := 60 + r.Intn(60)
	var vecs [][]float32
	for i := 0; i < n; i++ {
		vecs = append(vecs, gauss(r, dim))
	}
	done := make(chan struct{})
	var added int64
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-done:
					return
				default:
				}
				have := int(atomic.LoadInt64(&added))
				if have == 0 {
					runtime.Gosched()
					continue
				}
				k := rr.Intn(have)
				ids, dists, err := x.idx.SearchByVector(append([]float32(nil), vecs[k]...), 5, nil)
				if err != nil {
					t.Violate("search-failed", nil, "search while the index grows: %v", err)
					return
				}
				ok := false
				for _, id := range ids {
					ok = ok || id == uint64(k)
				}
				if !ok {
					t.Violate("missing", ids, "vector %d, added before, is not found by itself while the index grows (%v)", k, dists)
					return
				}
				t.Eval("search while the index grows", "")
			}
		}()
	}
	for i := range vecs {
		if err := x.idx.Add(uint64(i), vecs[i]); err != nil {
			t.Violate("add-failed", nil, "%v", err)
			break
		}
		if i == 0 || i%40 == 39 { // before that nothing is acknowledged
			if err := x.idx.Flush(uint64(i + 1)); err != nil {
				t.Violate("flush-failed", nil, "%v", err)
				break
			}
		}
		atomic.AddInt64(&added, 1)
	}
	close(done)
	wg.Wait()
	x.close()
}

// raceCold: an index that was just opened, with nothing in its caches, is searched
// by several goroutines at once, which all have to load the same nodes.
func raceCold(t *mon.T, i int, r *rand.Rand) {
	x := newIx(t, fmt.Sprintf("cold index #%d", i), hnsw.UserConfig{MaxConnections: 30, EFConstruction: 60, EF: 200})
	if x == nil {
		return
	}
	defer func() { x.close() }()
	n := 10 + r.Intn(30)
	for k := 0; k < n; k++ {
		if !x.add(uint64(k), gauss(r, 6)) {
			return
		}
	}
	if !x.flush() {
		return
	}
	for round := 0; round < 16; round++ {
		// as a collection is opened, and as it is searched: every search loads the
		// entrypoint first
		x.cold = round%2 == 1
		if !x.reopen() {
			return
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < 6; w++ {
			wg.Add(1)
			k := uint64(r.Intn(n))
			q := append([]float32(nil), x.vecs[k]...)
			al := helpers.NewAllowList()
			for _, id := range x.ids {
				al.Insert(id)
			}
			go func(w int) {
				defer wg.Done()
				<-start
				var ids []uint64
				var dists []float32
				err := x.idx.LoadEntrypoint()
				if err != nil {
					x.bad("cold", "load the entrypoint by several at once: %v", err)
					return
				}
				switch w % 3 {
				case 0:
					ids, dists, err = x.idx.SearchByVector(q, n, nil)
				case 1:
					ids, dists, err = x.idx.KnnSearchByVectorMaxDist(q, 3, 800, nil)
				case 2:
					ids, dists, err = x.idx.SearchByVector(q, n, al)
				}
				if err == nil {
					err = x.judge(ids, dists, q, 3, nil)
				}
				if err != nil || len(ids) != n {
					x.bad("cold", "search by several at once of an index just opened: %d of %d vectors, %v", len(ids), n, err)
					return
				}
				t.Eval("searches of an index just opened", fmt.Sprint(i, round, w))
			}(w)
		}
		close(start)
		wg.Wait()
	}
}

// raceLinks: an index with few links per node, so that inserts rewrite the links
// of many nodes, is searched in every way, filled by several goroutines, flushed
// and emptied of cached vectors at the same time.
func raceLinks(t *mon.T, i, n int, r *rand.Rand) {
	dim := 4
	slow := func(op string) {
		switch {
		case op == "entrypoint":
			time.Sleep(time.Millisecond)
		case rand.Intn(20) == 0:
			time.Sleep(time.Duration(rand.Intn(100)) * time.Microsecond)
		}
	}
	x := newIxSlow(t, "links rewritten while searched", hnsw.UserConfig{MaxConnections: 2 + r.Intn(5), EFConstruction: 8 + r.Intn(20), EF: 20, VectorCacheMaxObjects: 10 + r.Intn(1000), FlatSearchCutoff: 60}, nil, nil, slow)
	if x == nil {
		return
	}
	// with the larger stride the tables of the index grow meanwhile
	stride := uint64([]int{1, 701}[r.Intn(2)])
	vecs := cloud(r, []string{"gauss", "mixed", "copies"}[i%3], n, dim)
	first := 20
	if n < 100 {
		first = 3
	}
	for k := 0; k < first; k++ {
		if !x.add(uint64(k)*stride, vecs[k]) {
			return
		}
	}
	if !x.flush() {
		return
	}
	done := make(chan struct{})
	var wg, adders sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func(w int) {
			defer wg.Done()
			for {
				select {
				case <-done:
					return
				default:
				}
				q := gauss(rr, dim)
				var ids []uint64
				var dists []float32
				_ = x.idx.Entrypoint()
				err := x.idx.LoadEntrypoint()
				if err != nil {
					t.Violate("search-failed", nil, "load the entrypoint while links are rewritten: %v", err)
					return
				}
				way := (w + rr.Intn(2)) % 4
				if n < 100 && i%2 == 0 {
					way = i / 2 % 4 // all in the same way
				}
				switch way {
				case 0:
					ids, dists, err = x.idx.SearchByVector(q, 5, nil)
				case 1:
					ids, dists, err = x.idx.KnnSearchByVectorMaxDist(q, 3, 100, nil)
				case 2:
					ids, dists, err = x.idx.SearchByVectorDistance(q, 0.5, -1, nil)
				case 3:
					al := helpers.NewAllowList()
					for k := 0; k < 10+rr.Intn(100); k++ {
						al.Insert(uint64(rr.Intn(first)) * stride)
					}
					ids, dists, err = x.idx.SearchByVector(q, 5, al)
				}
				if err != nil {
					t.Violate("search-failed", nil, "search while links are rewritten: %v", err)
					return
				}
				for k, id := range ids {
					if id >= uint64(n)*stride || id%stride != 0 || math.Abs(fx.Cos(q, vecs[id/stride])-float64(dists[k])) > distTol {
						t.Violate("unsound", nil, "vector %d is reported at distance %v while links are rewritten", id, dists[k])
						return
					}
				}
				t.Eval("search while links are rewritten", "")
			}
		}(w)
	}
	var next int64 = int64(first)
	workers := 1 + i%2*2
	for w := 0; w < workers; w++ {
		adders.Add(1)
		go func() {
			defer adders.Done()
			for {
				k := atomic.AddInt64(&next, 1) - 1
				if k >= int64(n) {
					return
				}
				if err := x.idx.Add(uint64(k)*stride, vecs[k]); err != nil {
					t.Violate("add-failed", nil, "%v", err)
					return
				}
				if k%50 == 49 {
					if err := x.idx.Flush(uint64(k + 1)); err != nil {
						t.Violate("flush-failed", nil, "%v", err)
						return
					}
				}
				t.Eval("vector added while others are", "")
			}
		}()
	}
	adders.Wait()
	close(done)
	wg.Wait()
	x.close()
}

// dropIndexes drops indexes at about the time their caches are emptied, which
// happens every three seconds. The watchdog sees when they block each other.
func dropIndexes(t *mon.T, n int) {
	env, err := fx.NewIndexEnv(fx.NewBeeNoJournal(), nil)
	if err == nil {
		err = env.Open("cls")
	}
	if err != nil {
		t.Violate("open", nil, "%v", err)
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x, err := env.NewIndex("cls", hnsw.UserConfig{MaxConnections: 30, EFConstruction: 60, VectorCacheMaxObjects: 1})
			if err != nil {
				t.Violate("open", nil, "%v", err)
				return
			}
			at := time.Now().Add(3*time.Second + time.Duration(i%20-10)*100*time.Microsecond)
			for k := 0; k < 2; k++ {
				if err := x.Add(uint64(k), []float32{1, float32(k)}); err != nil {
					t.Violate("add-failed", nil, "%v", err)
					return
				}
			}
			time.Sleep(time.Until(at))
			if err := x.Drop(context.Background()); err != nil {
				t.Violate("drop-failed", nil, "%v", err)
			}
			t.Eval("index dropped while its cache is emptied", "")
		}(i)
	}
	wg.Wait()
}

func raceReports(prefix string) []string {
	if prefix == "" {
		return nil
	}
	files, _ := filepath.Glob(prefix + ".*")
	var out []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if strings.Contains(rep, "WARNING: DATA RACE") {
				out = append(out, rep)
			}
		}
	}
	return out
}

// raceAccesses are the functions that make the two accesses of a report: the
// innermost frame of each that is not of the standard library.
func raceAccesses(rep string) []string {
	var out []string
	lines := strings.Split(rep, "\n")
	for i, l := range lines {
		if !strings.Contains(l, " at 0x") || !strings.Contains(l, " by ") {
			continue
		}
		for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j++ {
			f := strings.TrimSpace(lines[j])
			if strings.HasPrefix(lines[j], "      ") { // the file of a frame
				continue
			}
			if d := strings.SplitN(f, "/", 2)[0]; !strings.Contains(d, ".") || !strings.Contains(f, "/") && !strings.HasPrefix(f, "main.") {
				continue // standard library
			}
			out = append(out, f)
			break
		}
	}
	return out
}

func raceIsFaVe(rep string) bool {
	for _, f := range raceAccesses(rep) {
		if strings.Contains(f, "fairDataSociety/FaVe") {
			return true
		}
	}
	return false
}

func raceHead(rep string) string { return strings.Join(raceAccesses(rep), " <-> ") }
