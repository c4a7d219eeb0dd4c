package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"faveverif/fx"
	"faveverif/mon"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	wdist "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

func init() {
	All["C04"] = c04
	All["C15"] = c15
	All["C16"] = c16
	All["C21"] = c21
}

// ix is an index with what was put into it.
type ix struct {
	cold    bool // the entrypoint is left to be loaded by those who use the index
	t       *mon.T
	name    string
	env     *fx.IndexEnv
	idx     fx.Index
	uc      hnsw.UserConfig
	vecs    map[uint64][]float32
	ids     []uint64
	next    uint64
	dist    func(a, b []float32) float64 // nil: cosine
	hiccups int
}

func (x *ix) d(a, b []float32) float64 {
	if x.dist != nil {
		return x.dist(a, b)
	}
	return fx.Cos(a, b)
}

func newIx(t *mon.T, name string, uc hnsw.UserConfig) *ix { return newIxDist(t, name, uc, nil, nil) }

func newIxDist(t *mon.T, name string, uc hnsw.UserConfig, p wdist.Provider, dist func(a, b []float32) float64) *ix {
	return newIxSlow(t, name, uc, p, dist, nil)
}

func newIxSlow(t *mon.T, name string, uc hnsw.UserConfig, p wdist.Provider, dist func(a, b []float32) float64, slow func(string)) *ix {
	env, err := fx.NewIndexEnv(fx.NewBeeNoJournal(), nil)
	if err != nil {
		t.Violate("open", nil, "%s: the store cannot be opened: %v", name, err)
		return nil
	}
	env.Dist, env.Slow = p, slow
	x := &ix{t: t, name: name, env: env, uc: uc, vecs: map[uint64][]float32{}, dist: dist}
	if !x.open() {
		return nil
	}
	return x
}

func (x *ix) bad(class, format string, a ...interface{}) bool {
	x.t.Violate(class, map[string]interface{}{"case": x.name, "vectors": len(x.vecs)}, x.name+": "+format, a...)
	return false
}

func (x *ix) open() bool {
	if err := x.env.Open("cls"); err != nil {
		return x.bad("open", "the table cannot be opened: %v", err)
	}
	i, err := x.env.NewIndex("cls", x.uc)
	if err != nil {
		return x.bad("open", "the index cannot be opened: %v", err)
	}
	if x.cold {
		x.idx = i
		return true
	}
	if err := i.LoadEntrypoint(); err != nil {
		return x.bad("open", "the entrypoint cannot be loaded: %v", err)
	}
	x.idx = i
	return true
}

// reopen is a new process on the same store.
func (x *ix) reopen() bool {
	e, err := x.env.Reopen(nil)
	if err != nil {
		return x.bad("open", "the store cannot be opened again: %v", err)
	}
	_ = x.idx.Drop(context.Background())
	x.env = e
	x.t.Count("index reopened", 1)
	return x.open()
}

// hiccup is whether a search is to be asked again, of the index opened anew,
// because the store's feeds answered "not there yet" once: they go by the clock,
// to the second. What is really lost is still lost then.
func (x *ix) hiccup(err error) bool {
	if err == nil || x.hiccups > 0 || !strings.Contains(err.Error(), "no Manifest found") {
		return false
	}
	x.hiccups++
	x.t.Count("searches repeated over a feed not found", 1)
	return x.reopen()
}

func (x *ix) add(id uint64, v []float32) bool {
	err := x.idx.Add(id, append([]float32(nil), v...))
	if err != nil && x.hiccups == 0 && strings.Contains(err.Error(), "no Manifest found") {
		x.hiccups++
		x.t.Count("adds repeated over a feed not found", 1)
		err = x.idx.Add(id, append([]float32(nil), v...))
	}
	if err != nil {
		return x.bad("valid-refused", "adding vector %d failed: %v", id, err)
	}
	if x.vecs[id] == nil {
		x.ids = append(x.ids, id)
	}
	x.vecs[id] = v
	if id >= x.next {
		x.next = id + 1
	}
	return true
}

func (x *ix) flush() bool {
	if err := x.idx.Flush(x.next); err != nil {
		return x.bad("flush", "flush failed: %v", err)
	}
	x.env.Commit()
	return true
}

func (x *ix) close() { _ = x.idx.Drop(context.Background()) }

// judge is soundness of an answer at the level of the index.
func (x *ix) judge(ids []uint64, dists []float32, q []float32, max float32, allow map[uint64]bool) error {
	if len(ids) != len(dists) {
		return fmt.Errorf("%d ids but %d distances", len(ids), len(dists))
	}
	seen := map[uint64]bool{}
	for i, id := range ids {
		v := x.vecs[id]
		if v == nil {
			return fmt.Errorf("vector %d was never added", id)
		}
		if seen[id] {
			return fmt.Errorf("vector %d is returned twice", id)
		}
		seen[id] = true
		if allow != nil && !allow[id] {
			return fmt.Errorf("vector %d is returned though not allowed", id)
		}
		if d := x.d(q, v); math.Abs(d-float64(dists[i])) > distTol || dists[i] != dists[i] {
			return fmt.Errorf("vector %d is reported at distance %v, it is at %v", id, dists[i], d)
		}
		if dists[i] > max {
			return fmt.Errorf("vector %d at distance %v is returned for a maximum of %v", id, dists[i], max)
		}
		if i > 0 && dists[i] < dists[i-1] {
			return fmt.Errorf("distance %v comes after %v", dists[i], dists[i-1])
		}
	}
	return nil
}

// nearest is the exact answer.
func (x *ix) nearest(q []float32, k int, allow map[uint64]bool) ([]uint64, []float64) {
	type p struct {
		id uint64
		d  float64
	}
	ps := make([]p, 0, len(x.ids))
	for _, id := range x.ids {
		if allow == nil || allow[id] {
			ps = append(ps, p{id, x.d(q, x.vecs[id])})
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].d < ps[j].d })
	if k > 0 && len(ps) > k {
		ps = ps[:k]
	}
	ids, ds := make([]uint64, len(ps)), make([]float64, len(ps))
	for i, y := range ps {
		ids[i], ds[i] = y.id, y.d
	}
	return ids, ds
}

// cloud makes vectors: gaussian, clustered, on a line, or with copies.
func cloud(r *rand.Rand, kind string, n, dim int) [][]float32 {
	out := make([][]float32, n)
	var centers [][]float32
	for c := 0; c < 1+n/60; c++ {
		centers = append(centers, gauss(r, dim))
	}
	for i := range out {
		switch kind {
		case "clusters":
			out[i] = Near(r, centers[i*len(centers)/n], 0.08) // cluster after cluster
		case "mixed":
			out[i] = Near(r, centers[r.Intn(len(centers))], 0.15)
		case "copies":
			if i > 0 && r.Intn(5) == 0 {
				out[i] = out[r.Intn(i)]
			} else {
				out[i] = gauss(r, dim)
			}
		default:
			out[i] = gauss(r, dim)
		}
	}
	return out
}

func gauss(r *rand.Rand, dim int) []float32 {
	v := make([]float32, dim)
	for i := range v {
		v[i] = float32(r.NormFloat64())
	}
	return v
}

// C04: collections of thousands of documents.
func c04(t *mon.T) {
	t.Rule = "one query on an index of hundreds to thousands of vectors compared with the exact nearest ones, or one vector searched by itself; distinct by index and query"
	type cs struct {
		kind   string
		n, dim int
		reopen int // number of restarts while it is filled
		m      int // links of a node, 0: as many as FaVe makes
	}
	list := []cs{{"gauss", 1500, 16, 0, 0}, {"gauss", 1500, 64, 2, 0}, {"mixed", 1500, 24, 1, 0}, {"mixed", 1500, 32, 2, 0}, {"copies", 1200, 8, 1, 0}, {"gauss", 2500, 4, 1, 0}, {"mixed", 1200, 100, 0, 0}, {"mixed", 2500, 12, 3, 0}, {"gauss", 1500, 10, 1, 6}, {"gauss", 1200, 24, 0, 8}}
	if t.Thorough() {
		for _, n := range []int{3000, 6000, 9000} {
			for _, k := range []string{"gauss", "mixed", "copies"} {
				for _, d := range []int{6, 24, 100, 300} {
					list = append(list, cs{k, n, d, n % 4, 0})
				}
			}
		}
	}
	t.Par("c04", len(list), func(i int, r *rand.Rand) {
		c := list[i]
		uc := hnsw.UserConfig{MaxConnections: 30, EFConstruction: 60, EF: 64}
		if c.m > 0 {
			uc.MaxConnections = c.m
		}
		x := newIx(t, fmt.Sprintf("%s n=%d dim=%d restarts=%d links=%d", c.kind, c.n, c.dim, c.reopen, c.m), uc)
		if x == nil {
			return
		}
		defer func() { x.close() }()
		vs := cloud(r, c.kind, c.n, c.dim)
		batch := 200 + r.Intn(300)
		next := c.n / (c.reopen + 1)
		for k, v := range vs {
			if !x.add(uint64(k), v) {
				return
			}
			if (k+1)%batch == 0 && !x.flush() {
				return
			}
			if c.reopen > 0 && k+1 == next && k+1 < c.n {
				if !x.flush() || !x.reopen() {
					return
				}
				next += c.n / (c.reopen + 1)
			}
		}
		if !x.flush() {
			return
		}
		for pass := 0; pass < 2; pass++ {
			if pass == 1 && !x.reopen() {
				return
			}
			// every vector is found by itself
			lost, judged := 0, 0
			var example uint64
			for _, id := range x.ids {
				if pass == 1 && r.Intn(4) != 0 {
					continue
				}
				ids, dists, err := x.idx.KnnSearchByVectorMaxDist(x.vecs[id], 0.01, 800, nil)
				if err != nil {
					x.bad("search-failed", "%v", err)
					return
				}
				if err := x.judge(ids, dists, x.vecs[id], 0.01, nil); err != nil {
					x.bad("unsound", "%v", err)
					return
				}
				found := false
				for _, h := range ids {
					found = found || h == id
				}
				judged++
				if !found {
					lost++
					example = id
				}
				t.Eval("vectors searched by themselves", fmt.Sprint(i, pass, id))
			}
			t.Count(fmt.Sprintf("vectors not found by themselves: %s", x.name), int64(lost))
			if float64(lost) > 0.005*float64(judged) {
				x.bad("lost", "%d of %d vectors are not found by themselves, such as %d", lost, judged, example)
				return
			}
			var sum, narrow float64
			nq := 60
			for k := 0; k < nq; k++ {
				q := gauss(r, c.dim)
				if k%2 == 0 {
					q = Near(r, vs[r.Intn(len(vs))], 0.1)
				}
				ids, dists, err := x.idx.KnnSearchByVectorMaxDist(q, 3, 800, nil)
				if err != nil {
					x.bad("search-failed", "%v", err)
					return
				}
				if err := x.judge(ids, dists, q, 3, nil); err != nil {
					x.bad("unsound", "%v", err)
					return
				}
				_, ex := x.nearest(q, 10, nil)
				hit := 0
				for j := 0; j < 10 && j < len(dists); j++ {
					if float64(dists[j]) <= ex[9]+distTol {
						hit++
					}
				}
				sum += float64(hit) / 10
				// the same with a short list of candidates
				ids2, dists2, err := x.idx.SearchByVector(q, 10, nil)
				if err == nil {
					err = x.judge(ids2, dists2, q, 3, nil)
				}
				if err != nil {
					x.bad("unsound", "search for 10: %v", err)
					return
				}
				for _, d := range dists2 {
					if float64(d) <= ex[9]+distTol {
						narrow += 0.1
					}
				}
				if len(ids) < 400 {
					x.bad("incomplete", "a search for anything within distance 3 found %d of %d vectors", len(ids), len(x.ids))
					return
				}
				t.Eval("queries compared", fmt.Sprint(i, pass, k))
			}
			recall := sum / float64(nq)
			t.Max(fmt.Sprintf("recall at 10 in %%: %s pass %d", x.name, pass), int64(recall*100))
			narrow /= float64(nq)
			t.Max(fmt.Sprintf("recall at 10 of 64 candidates in %%: %s pass %d", x.name, pass), int64(narrow*100))
			t.Sample(map[string]interface{}{"index": x.name, "pass": pass, "recall at 10": recall, "not found by themselves": lost, "of": judged})
			if narrow < 0.9 && c.n <= 2500 && c.dim <= 100 {
				x.bad("recall", "only %.3f of the 10 nearest are found with 64 candidates (pass %d)", narrow, pass)
				return
			}
			if recall < 0.95 {
				x.bad("recall", "only %.3f of the 10 nearest are found (pass %d)", recall, pass)
				return
			}
		}
	})
}

// node is a stored node, as far as it can be read.
type node struct {
	ID          *uint64    `json:"_id"`
	Level       int        `json:"level"`
	Connections [][]uint64 `json:"connections"`
	Vector      []float32  `json:"vector"`
}

func (x *ix) stored(id uint64) (*node, error) {
	_, b, err := x.env.KV.KVGet("cls", fmt.Sprintf("%d", id))
	if err != nil {
		return nil, err
	}
	n := &node{}
	if err := json.Unmarshal(b, n); err != nil || n.ID == nil || len(n.Connections) == 0 {
		return nil, nil // not the layout known here
	}
	return n, nil
}

// C16: what is stored is the index that wrote it.
func c16(t *mon.T) {
	t.Rule = "one query answered by the index that wrote and by one opened from the store, or one stored node judged for its links; distinct by index, state and query or node"
	t.Par("c16", t.N(48, 500), func(i int, r *rand.Rand) {
		uc := hnsw.UserConfig{}
		if i%3 != 0 { // fewer links: more of them are replaced
			uc.MaxConnections = []int{4, 6, 8, 16}[r.Intn(4)]
			uc.EFConstruction = 8 + r.Intn(60)
		}
		dim := 2 + r.Intn(30)
		kind := []string{"gauss", "clusters", "mixed", "copies"}[r.Intn(4)]
		n := 60 + r.Intn(240)
		x := newIx(t, fmt.Sprintf("#%d %s n=%d dim=%d links=%d", i, kind, n, dim, uc.MaxConnections), uc)
		if x == nil {
			return
		}
		defer func() { x.close() }()
		max := uc.MaxConnections
		if max == 0 {
			max = 30
		}
		vs := cloud(r, kind, n, dim)
		at := 0
		for at < n {
			k := 1 + r.Intn(60)
			for ; k > 0 && at < n; k-- {
				if !x.add(uint64(at), vs[at]) {
					return
				}
				at++
			}
			if !x.flush() {
				return
			}
			if r.Intn(4) == 0 && !x.reopen() {
				return
			}
			// a second process on a copy of the store
			e2, err := x.env.Reopen(x.env.Bee.Clone())
			if err != nil {
				x.bad("open", "%v", err)
				return
			}
			y := &ix{t: t, name: x.name, env: e2, uc: uc, vecs: x.vecs, ids: x.ids}
			if !y.open() {
				return
			}
			if c, err := y.idx.GetDocCount(); err != nil || c != x.next {
				x.bad("count", "the stored number of vectors is %d (%v), %d were added", c, err, x.next)
				return
			}
			for k := 0; k < 12; k++ {
				q := gauss(r, dim)
				if k%2 == 0 {
					q = x.vecs[x.ids[r.Intn(len(x.ids))]]
				}
				ef := []int{10, 50, 800}[k%3]
				a, da, err := x.idx.KnnSearchByVectorMaxDist(q, 3, ef, nil)
				if err == nil {
					err = x.judge(a, da, q, 3, nil)
				}
				if err != nil {
					x.bad("unsound", "%v", err)
					return
				}
				b, db, err := y.idx.KnnSearchByVectorMaxDist(q, 3, ef, nil)
				if err == nil {
					err = x.judge(b, db, q, 3, nil)
				}
				if err != nil {
					x.bad("unsound", "after reopening: %v", err)
					return
				}
				if len(a) != len(b) {
					x.bad("differs", "the index that wrote finds %d vectors, the reopened one %d (ef %d, %d vectors)", len(a), len(b), ef, len(x.ids))
					return
				}
				for j := range a {
					if math.Abs(float64(da[j]-db[j])) > distTol {
						x.bad("differs", "hit %d of the index that wrote is at %v, of the reopened one at %v (ef %d)", j, da[j], db[j], ef)
						return
					}
				}
				t.Eval("queries compared", fmt.Sprint(i, at, k))
			}
			// the stored nodes
			levels := map[uint64]int{}
			nodes := map[uint64]*node{}
			top, links := 0, 0
			for _, id := range y.ids {
				nd, err := y.stored(id)
				if err != nil {
					x.bad("lost", "vector %d is not stored: %v", id, err)
					return
				}
				if nd == nil {
					t.Count("stored nodes not readable", 1)
					continue
				}
				nodes[id], levels[id] = nd, nd.Level
				if nd.Level > top {
					top = nd.Level
				}
				if d := fx.Cos(nd.Vector, x.vecs[id]); d > distTol {
					x.bad("vector", "vector %d is stored as another one", id)
					return
				}
			}
			for id, nd := range nodes {
				if *nd.ID != id || len(nd.Connections) != nd.Level+1 {
					x.bad("node", "node %d is stored as %d with %d layers for level %d", id, *nd.ID, len(nd.Connections), nd.Level)
					return
				}
				for l, conns := range nd.Connections {
					lim := max
					if l == 0 {
						lim = 2 * max
					}
					seen := map[uint64]bool{}
					for _, c := range conns {
						lv, ok := levels[c]
						switch {
						case c == id:
							x.bad("link", "node %d is linked to itself", id)
							return
						case seen[c]:
							x.bad("link", "node %d is linked to %d twice in layer %d", id, c, l)
							return
						case !ok:
							x.bad("link", "node %d is linked to %d, which is not stored", id, c)
							return
						case lv < l:
							x.bad("link", "node %d is linked in layer %d to %d, which is not in that layer", id, l, c)
							return
						}
						seen[c] = true
					}
					links += len(conns)
					if len(conns) > lim {
						x.bad("link", "node %d has %d links in layer %d, at most %d are allowed", id, len(conns), l, lim)
						return
					}
				}
				t.Eval("stored nodes judged", fmt.Sprint(i, at, id))
			}
			if len(nodes) > 0 {
				t.Count("links judged", int64(links))
				if ep := y.idx.Entrypoint(); nodes[ep] != nil && nodes[ep].Level != top {
					x.bad("entrypoint", "searches start at node %d of level %d, there are %d levels", ep, nodes[ep].Level, top)
					return
				}
				if len(nodes) > 1 {
					for id, nd := range nodes {
						if len(nd.Connections[0]) == 0 {
							x.bad("link", "node %d of %d has no links", id, len(nodes))
							return
						}
					}
				}
			}
			_ = y.idx.Drop(context.Background())
		}
		if i < 3 {
			t.Sample(x.name)
		}
	})
}

// C15: beyond the sizes of the caches.
func c15(t *mon.T) {
	t.Rule = "one vector of an index larger than a cache or with an id beyond a preallocated table, searched by itself before and after a restart; distinct by case and vector"
	selfAll := func(x *ix, tag string, every int) bool {
		lost := 0
		judged := 0
		for k, id := range x.ids {
			if k%every != 0 {
				continue
			}
			ids, dists, err := x.idx.KnnSearchByVectorMaxDist(x.vecs[id], 0.01, 800, nil)
			if x.hiccup(err) {
				ids, dists, err = x.idx.KnnSearchByVectorMaxDist(x.vecs[id], 0.01, 800, nil)
			}
			if err == nil {
				err = x.judge(ids, dists, x.vecs[id], 0.01, nil)
			}
			if err != nil {
				return x.bad("unsound", "%s: %v", tag, err)
			}
			ok := false
			for _, h := range ids {
				ok = ok || h == id
			}
			judged++
			if !ok {
				lost++
			}
			t.Eval("vectors searched by themselves", fmt.Sprint(x.name, tag, id))
		}
		t.Count("vectors not found by themselves", int64(lost))
		if float64(lost) > 0.005*float64(judged) {
			return x.bad("lost", "%s: %d of %d vectors are not found by themselves", tag, lost, judged)
		}
		return true
	}
	// ids beyond what the tables are preallocated for
	edges := []uint64{0, 1, 998, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 9999, 10000, 10001, 24998, 24999, 25000, 25001, 25999, 26000, 26001, 49999, 50000, 50001, 75000, 99999, 100000, 131071, 131072, 200001}
	// just as many ids as a table has room for, and one more: after a restart
	// nothing has made the tables larger yet
	t.Par("c15-room", t.N(6, 12), func(i int, r *rand.Rand) {
		last := []uint64{25000, 1000, 10000, 24999, 999, 50000}[i%6]
		x := newIx(t, fmt.Sprintf("id %d after a restart #%d", last, i), hnsw.UserConfig{})
		if x == nil {
			return
		}
		defer func() { x.close() }()
		for id := uint64(0); id < 12; id++ {
			if !x.add(id, gauss(r, 6)) {
				return
			}
		}
		if !x.flush() || i >= 6 && !x.reopen() || !x.add(last, gauss(r, 6)) || !x.flush() || !x.reopen() {
			return
		}
		if !selfAll(x, "reopened", 1) {
			return
		}
		// and is linked to others, with lower ids
		for id := uint64(12); id < 55; id++ {
			if !x.add(id, gauss(r, 6)) {
				return
			}
		}
		if !x.flush() || !selfAll(x, "linked", 1) || !x.reopen() || !selfAll(x, "linked and reopened", 1) {
			return
		}
		q := gauss(r, 6)
		got, _, err := x.idx.KnnSearchByVectorMaxDist(q, 3, 800, nil)
		if err != nil || len(got) != len(x.ids) {
			x.bad("incomplete", "%d of %d vectors found (%v)", len(got), len(x.ids), err)
		}
	})
	t.Par("c15-ids", t.N(6, 40), func(i int, r *rand.Rand) {
		x := newIx(t, fmt.Sprintf("sparse ids #%d", i), hnsw.UserConfig{})
		if x == nil {
			return
		}
		defer func() { x.close() }()
		ids := append([]uint64(nil), edges...)
		if i%2 == 1 {
			r.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
		}
		if i >= 2 {
			for k := range ids {
				if k > 0 && r.Intn(2) == 0 {
					ids[k] = uint64(r.Intn(300000))
				}
			}
		}
		for k, id := range ids {
			if !x.add(id, gauss(r, 6)) {
				return
			}
			if k%7 == 6 {
				if !x.flush() || !selfAll(x, fmt.Sprintf("after %d", k+1), 1) {
					return
				}
				if r.Intn(3) == 0 && !x.reopen() {
					return
				}
			}
		}
		if !x.flush() || !selfAll(x, "end", 1) || !x.reopen() || !selfAll(x, "reopened", 1) {
			return
		}
		q := gauss(r, 6)
		got, _, err := x.idx.KnnSearchByVectorMaxDist(q, 3, 800, nil)
		if err != nil || len(got) != len(x.ids) {
			x.bad("incomplete", "%d of %d vectors found (%v)", len(got), len(x.ids), err)
		}
		t.Max("highest id", int64(x.next-1))
	})
	var wg sync.WaitGroup
	defer wg.Wait()
	for _, f := range []func(){func() { idle(t, t.N(4, 12)) }, func() { manyDocs(t) }} {
		wg.Add(1)
		go func(f func()) { defer wg.Done(); f() }(f)
	}
	// more vectors between two flushes than the index cache holds
	sizes := []int{10500}
	if t.Thorough() {
		sizes = []int{10001, 10500, 14000, 23000}
	}
	t.Par("c15-lru", len(sizes), func(i int, r *rand.Rand) {
		n := sizes[i]
		x := newIx(t, fmt.Sprintf("%d vectors before the first flush", n), hnsw.UserConfig{MaxConnections: 8, EFConstruction: 24})
		if x == nil {
			return
		}
		defer func() { x.close() }()
		for k := 0; k < n; k++ {
			if !x.add(uint64(k), gauss(r, 8)) {
				return
			}
		}
		if !x.flush() || !selfAll(x, "written", 29) || !x.reopen() || !selfAll(x, "reopened", 13) {
			return
		}
		for k := n; k < n+300; k++ {
			if !x.add(uint64(k), gauss(r, 8)) {
				return
			}
		}
		if !x.flush() || !x.reopen() || !selfAll(x, "added to", 37) {
			return
		}
		t.Max("vectors between two flushes", int64(n))
	})
}

// idle: the caches are emptied now and then while nothing happens; what comes
// after works as before.
func idle(t *mon.T, n int) {
	t.Par("c15-idle", n, func(i int, r *rand.Rand) {
		h := newHist(t, r, 8)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		if !h.Create(h.F(r), "docs", stdIdx) {
			return
		}
		c := h.Cols["docs"]
		for k := 0; k < 3; k++ {
			if !h.addBatch("docs", 15) || !h.CheckAll(h.F(r), c) {
				return
			}
			if k == 2 && !h.Restart(false) {
				return
			}
			time.Sleep(3300 * time.Millisecond) // longer than the interval at which they are emptied
			if k == 1 {
				continue // to be added to at once
			}
			for rep := 0; rep < 2; rep++ {
				if !h.CheckAll(h.F(r), c) {
					return
				}
				t.Eval("collections compared after idling", fmt.Sprint(i, k, rep))
			}
		}
	})
}

// manyDocs: more documents than the document cache holds.
func manyDocs(t *mon.T) {
	n := t.N(1300, 2600)
	t.Par("c15-docs", 1, func(i int, r *rand.Rand) {
		h := newHist(t, r, 12)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		if !h.Create(h.F(r), "docs", stdIdx) {
			return
		}
		c := h.Cols["docs"]
		for len(c.Docs) < n {
			var docs []Doc
			for k := 0; k < 130; k++ {
				d := h.freshDoc("docs")
				d.Props = map[string]interface{}{"title": d.Props["title"], "n": d.Props["n"]}
				d.Vec = gauss(r, 12)
				docs = append(docs, d)
			}
			if !h.Add(h.F(r), "docs", nil, docs) {
				return
			}
		}
		for rep := 0; rep < 2; rep++ {
			for k, id := range sortedIDs(c) {
				if k%7 != rep {
					continue
				}
				if !h.CheckGetID(h.F(r), c, id) || !h.CheckSelf(h.F(r), c, c.Docs[id]) {
					return
				}
				t.Eval("documents beyond the cache judged", fmt.Sprint(rep, id))
			}
			// a limit beyond what is usually looked at
			q := gauss(r, 12)
			hits, err := h.F(r).NearVec("docs", q, 5, n)
			if err == nil {
				err = c.Sound(hits, q, 5, n)
			}
			if err != nil {
				h.bad("unsound", "search for %d documents: %v", n, err)
				return
			}
			if len(hits) < n*98/100 {
				h.bad("incomplete", "search for %d of %d documents found %d", n, len(c.Docs), len(hits))
				return
			}
			t.Eval("searches for everything", fmt.Sprint("everything", rep))
			if rep == 0 && !h.Restart(true) {
				return
			}
		}
		t.Max("documents of a collection", int64(len(c.Docs)))
	})
}

// C21: search among an allowed set, and search by distance without a limit.
func c21(t *mon.T) {
	t.Rule = "one filtered or unlimited search of an index compared with the exact answer; distinct by index and query"
	manyWithin(t)
	metrics(t)
	ties(t)
	t.Par("c21", t.N(400, 3000), func(i int, r *rand.Rand) {
		uc := hnsw.UserConfig{MaxConnections: 30, EFConstruction: 60, EF: []int{-1, 64, 100, 500}[r.Intn(4)], DynamicEFMin: 100, DynamicEFMax: 500, DynamicEFFactor: 8}
		flat := i%2 == 0
		if flat {
			uc.FlatSearchCutoff = 40000
		}
		dim := 2 + r.Intn(20)
		n := 5 + r.Intn(smallMax-5)
		x := newIx(t, fmt.Sprintf("#%d n=%d dim=%d ef=%d cutoff=%d", i, n, dim, uc.EF, uc.FlatSearchCutoff), uc)
		if x == nil {
			return
		}
		blocked := false
		defer func() {
			if !blocked {
				x.close()
			}
		}()
		for k := 0; k < n; k++ {
			v := RandVec(r, dim)
			if k > 0 && r.Intn(8) == 0 {
				v = x.vecs[uint64(r.Intn(k))]
			}
			if !x.add(uint64(k), v) {
				return
			}
		}
		if !x.flush() {
			return
		}
		if r.Intn(2) == 0 && !x.reopen() {
			return
		}
		compare := x.compare
		for k := 0; k < 20; k++ {
			q := RandVec(r, dim)
			if k%3 == 0 {
				q = x.vecs[x.ids[r.Intn(n)]]
			}
			allow := map[uint64]bool{}
			al := helpers.NewAllowList()
			share := r.Float64()
			for _, id := range x.ids {
				if r.Float64() < share {
					allow[id] = true
					al.Insert(id)
				}
			}
			if len(allow) == 0 {
				al.Insert(x.ids[0])
				allow[x.ids[0]] = true
			}
			if k == 7 && i%4 < 2 { // a set may name vectors that do not exist
				al.Insert(uint64(n + r.Intn(5)))
				al.Insert(uint64(n + 5 + r.Intn(30000)))
			}
			kk := 1 + r.Intn(n+3)
			ids, dists, err := x.idx.SearchByVector(q, kk, nil)
			if !compare(fmt.Sprintf("search for %d", kk), ids, dists, q, kk, 5, nil, err) {
				return
			}
			t.Eval("searches compared", fmt.Sprint(i, k))
			ids, dists, err = x.idx.SearchByVector(q, kk, al)
			if !compare(fmt.Sprintf("search for %d of %d allowed", kk, len(allow)), ids, dists, q, kk, 5, allow, err) {
				return
			}
			t.Eval("filtered searches compared", fmt.Sprint(i, k))
			// the same, through the search the documents use
			ids, dists, err = x.idx.KnnSearchByVectorMaxDist(q, 5, 800, al)
			if !compare(fmt.Sprintf("search in %d allowed", len(allow)), ids, dists, q, 0, 5, allow, err) {
				return
			}
			t.Eval("filtered searches compared", fmt.Sprint(i, k, "max"))
			dist := float32(r.Float64() * 2)
			ids, dists, err = x.idx.SearchByVectorDistance(q, dist, -1, nil)
			if !compare(fmt.Sprintf("unlimited search within %v", dist), ids, dists, q, 0, dist+2e-6, nil, err) {
				return
			}
			t.Eval("unlimited searches compared", fmt.Sprint(i, k))
			ids, dists, err = x.idx.SearchByVectorDistance(q, dist, -1, al)
			if !compare(fmt.Sprintf("unlimited search within %v of %d allowed", dist, len(allow)), ids, dists, q, 0, dist+2e-6, allow, err) {
				return
			}
			t.Eval("unlimited searches compared", fmt.Sprint(i, k, "allowed"))
		}
		// searches leave nothing locked
		added := make(chan bool, 1)
		go func() { added <- x.add(uint64(n), RandVec(r, dim)) }()
		select {
		case ok := <-added:
			if !ok {
				return
			}
		case <-time.After(time.Minute):
			blocked = true
			x.bad("blocked", "after searches among allowed sets a vector cannot be added within a minute")
			return
		}
		if i < 3 {
			t.Sample(x.name)
		}
	})
}

// manyWithin: distance searches that take several rounds, limited or not, and
// allowed sets of hundreds, on both sides of the cutoff between scan and walk.
func manyWithin(t *mon.T) {
	sizes := []int{101, 130, 350, 1300}
	if t.Thorough() {
		sizes = append(sizes, 99, 100, 102, 1099, 1100, 1101, 1102, 2500, 5000)
	}
	t.Par("c21-many", len(sizes), func(i int, r *rand.Rand) {
		n := sizes[i]
		dim := 6 + r.Intn(10)
		cut := 100 + r.Intn(200)
		uc := hnsw.UserConfig{MaxConnections: 30, EFConstruction: 60, EF: 2 * n, FlatSearchCutoff: cut}
		if i == 3 || i > 4 && i%2 == 0 {
			uc.EF, uc.DynamicEFMin, uc.DynamicEFMax, uc.DynamicEFFactor = -1, 100, 500, 8
		}
		x := newIx(t, fmt.Sprintf("many n=%d dim=%d cutoff=%d ef=%d", n, dim, cut, uc.EF), uc)
		if x == nil {
			return
		}
		defer func() { x.close() }()
		for k := 0; k < n; k++ {
			if !x.add(uint64(k), gauss(r, dim)) {
				return
			}
		}
		if !x.flush() || r.Intn(2) == 0 && !x.reopen() {
			return
		}
		for k := 0; k < 24; k++ {
			q := gauss(r, dim)
			if k%3 == 0 {
				q = x.vecs[x.ids[r.Intn(n)]]
			}
			var allow map[uint64]bool
			var al helpers.AllowList
			if k%2 == 1 {
				allow, al = map[uint64]bool{}, helpers.NewAllowList()
				share := r.Float64()
				for _, id := range x.ids {
					if r.Float64() < share || len(allow) == 0 {
						allow[id] = true
						al.Insert(id)
					}
				}
			}
			dist := float32(r.Float64() * 2)
			if k%4 < 2 {
				dist = 3
			}
			limit := int64(-1)
			if k%5 == 4 {
				limit = int64([]int{50, 100, 101, 500, 1100, 5000}[r.Intn(6)])
			}
			ids, dists, err := x.idx.SearchByVectorDistance(q, dist, limit, al)
			if err == nil {
				err = x.judge(ids, dists, q, dist+1e-5, allow)
			}
			if err != nil {
				x.bad("unsound", "search within %v: %v", dist, err)
				return
			}
			_, ex := x.nearest(q, 0, allow)
			within := 0
			for _, d := range ex {
				if d <= float64(dist)-distTol {
					within++
				}
			}
			// the graph may leave out a few; a round left out is 100 and more
			if float64(len(ids)) < 0.98*float64(within)-1 && limit < 0 {
				x.bad("incomplete", "search within %v (limit %d, %d allowed): %d vectors returned, %d are within the distance", dist, limit, len(allow), len(ids), within)
				return
			}
			// with a limit the rounds end once it is reached
			if m := int64(100); limit > 0 && (int64(len(ids)) < min64(limit, m, int64(float64(within)*0.98)-1)) {
				x.bad("incomplete", "search within %v, limit %d: %d vectors returned, %d are within the distance", dist, limit, len(ids), within)
				return
			}
			t.Eval("searches of several rounds compared", fmt.Sprint(i, k))
			t.Max("vectors within the distance", int64(within))
			kk := 1 + r.Intn(n)
			ids, dists, err = x.idx.SearchByVector(q, kk, al)
			if err == nil {
				err = x.judge(ids, dists, q, 5, allow)
			}
			if err != nil {
				x.bad("unsound", "search for %d: %v", kk, err)
				return
			}
			want := len(ex)
			if kk < want {
				want = kk
			}
			if len(ids) > kk || float64(len(ids)) < 0.98*float64(want)-1 {
				x.bad("incomplete", "search for %d of %d: %d vectors returned", kk, len(ex), len(ids))
				return
			}
			if len(dists) > 0 && float64(dists[len(dists)/2]) > ex[min(len(ex)-1, len(dists)/2+len(dists)/20+1)]+distTol {
				x.bad("incomplete", "search for %d of %d: the middle hit is at %v, the exact one at %v", kk, len(ex), dists[len(dists)/2], ex[len(dists)/2])
				return
			}
			t.Eval("large filtered searches compared", fmt.Sprint(i, k))
		}
	})
}

func min64(a ...int64) int64 {
	m := a[0]
	for _, x := range a {
		if x < m {
			m = x
		}
	}
	return m
}

// compare is an answer against the exact one.
func (x *ix) compare(what string, ids []uint64, dists []float32, q []float32, k int, max float32, allow map[uint64]bool, err error) bool {
	if err != nil {
		return x.bad("search-failed", "%s: %v", what, err)
	}
	if err := x.judge(ids, dists, q, max, allow); err != nil {
		return x.bad("unsound", "%s: %v", what, err)
	}
	_, ex := x.nearest(q, 0, allow)
	lo, hi := 0, 0
	for _, d := range ex {
		if d <= float64(max)-distTol {
			lo++
		}
		if d <= float64(max)+distTol {
			hi++
		}
	}
	if k > 0 && lo > k {
		lo = k
	}
	if k > 0 && hi > k {
		hi = k
	}
	if len(ids) < lo || len(ids) > hi {
		return x.bad("incomplete", "%s: %d vectors returned, %d are within the distance", what, len(ids), lo)
	}
	for j := 0; j < lo; j++ {
		if float64(dists[j]) > ex[j]+distTol {
			return x.bad("incomplete", "%s: hit %d is at %v, the exact one at %v", what, j, dists[j], ex[j])
		}
	}
	return true
}

// metrics: indexes of other distances than the cosine one.
func metrics(t *mon.T) {
	sum := func(f func(a, b float64) float64) func(a, b []float32) float64 {
		return func(a, b []float32) float64 {
			var s float64
			for i := range a {
				s += f(float64(a[i]), float64(b[i]))
			}
			return s
		}
	}
	all := []struct {
		name string
		p    wdist.Provider
		d    func(a, b []float32) float64
	}{
		{"l2-squared", wdist.NewL2SquaredProvider(), sum(func(a, b float64) float64 { return (a - b) * (a - b) })},
		{"manhattan", wdist.NewManhattanProvider(), sum(func(a, b float64) float64 { return math.Abs(a - b) })},
		{"hamming", wdist.NewHammingProvider(), sum(func(a, b float64) float64 {
			if a != b {
				return 1
			}
			return 0
		})},
		{"dot", wdist.NewDotProductProvider(), sum(func(a, b float64) float64 { return -a * b })},
	}
	t.Par("c21-metrics", t.N(80, 800), func(i int, r *rand.Rand) {
		m := all[i%4]
		dim := 2 + r.Intn(20)
		n := 4 + r.Intn(26) // as many as a node is connected to: the answers are exact
		// small whole numbers: distances are exact
		vec := func() []float32 {
			v := make([]float32, dim)
			for i := range v {
				v[i] = float32(r.Intn(17) - 8)
			}
			return v
		}
		uc := hnsw.UserConfig{MaxConnections: 30, EFConstruction: 60, EF: 100}
		if r.Intn(2) == 0 {
			uc.FlatSearchCutoff = 40000
		}
		x := newIxDist(t, fmt.Sprintf("%s #%d n=%d dim=%d", m.name, i, n, dim), uc, m.p, m.d)
		if x == nil {
			return
		}
		defer func() { x.close() }()
		for k := 0; k < n; k++ {
			v := vec()
			if k > 0 && r.Intn(8) == 0 {
				v = x.vecs[uint64(r.Intn(k))]
			}
			if !x.add(uint64(k), v) {
				return
			}
		}
		if !x.flush() || r.Intn(2) == 0 && !x.reopen() {
			return
		}
		for k := 0; k < 12; k++ {
			q := vec()
			if k%4 == 0 {
				q = x.vecs[x.ids[r.Intn(n)]]
			}
			var allow map[uint64]bool
			var al helpers.AllowList
			if k%2 == 1 {
				allow, al = map[uint64]bool{}, helpers.NewAllowList()
				for _, id := range x.ids {
					if r.Intn(2) == 0 || len(allow) == 0 {
						allow[id] = true
						al.Insert(id)
					}
				}
			}
			kk := 1 + r.Intn(n+3)
			ids, dists, err := x.idx.SearchByVector(q, kk, al)
			if !x.compare(fmt.Sprintf("search for %d", kk), ids, dists, q, kk, 1e9, allow, err) {
				return
			}
			_, ex := x.nearest(q, 0, allow)
			max := float32(ex[r.Intn(len(ex))]) + 0.5
			ids, dists, err = x.idx.SearchByVectorDistance(q, max, -1, al)
			if !x.compare(fmt.Sprintf("search within %v", max), ids, dists, q, 0, max+2e-6, allow, err) {
				return
			}
			if m.name != "dot" { // its distances may be negative
				ids, dists, err = x.idx.KnnSearchByVectorMaxDist(q, max, 800, al)
				if !x.compare(fmt.Sprintf("knn search within %v", max), ids, dists, q, 0, max, allow, err) {
					return
				}
			}
			t.Eval("searches by "+m.name+" compared", fmt.Sprint(m.name, i, k))
		}
	})
}

// ties: many vectors at exactly the distance that is searched for, more than one
// round of a distance search brings. Allowed sets below the cutoff are scanned,
// so the answers are exact.
func ties(t *mon.T) {
	ham := func(a, b []float32) float64 {
		n := 0.0
		for i := range a {
			if a[i] != b[i] {
				n++
			}
		}
		return n
	}
	t.Par("c21-ties", t.N(6, 24), func(i int, r *rand.Rand) {
		n, dim := 150+r.Intn(400), 4+r.Intn(3)
		uc := hnsw.UserConfig{MaxConnections: 16, EFConstruction: 32, EF: 64, FlatSearchCutoff: 40000}
		x := newIxDist(t, fmt.Sprintf("ties #%d n=%d dim=%d", i, n, dim), uc, wdist.NewHammingProvider(), ham)
		if x == nil {
			return
		}
		defer func() { x.close() }()
		al, allow := helpers.NewAllowList(), map[uint64]bool{}
		for k := 0; k < n; k++ {
			v := make([]float32, dim)
			for j := range v {
				v[j] = float32(r.Intn(3))
			}
			if !x.add(uint64(k), v) {
				return
			}
			if i%2 == 0 || r.Intn(8) > 0 {
				al.Insert(uint64(k))
				allow[uint64(k)] = true
			}
		}
		if !x.flush() || r.Intn(2) == 0 && !x.reopen() {
			return
		}
		for k := 0; k < 8; k++ {
			q := x.vecs[x.ids[r.Intn(n)]]
			for max := 0; max <= dim; max++ {
				_, ex := x.nearest(q, 0, allow)
				want := 0
				for _, d := range ex {
					if d <= float64(max) {
						want++
					}
				}
				ids, dists, err := x.idx.SearchByVectorDistance(q, float32(max), -1, al)
				if err == nil {
					err = x.judge(ids, dists, q, float32(max), allow)
				}
				if err != nil {
					x.bad("unsound", "search within %d: %v", max, err)
					return
				}
				if len(ids) != want {
					x.bad("incomplete", "search within %d: %d vectors returned, %d of %d allowed ones are at that distance or nearer", max, len(ids), want, len(allow))
					return
				}
				t.Eval("distance searches with ties compared", fmt.Sprint(i, k, max))
			}
		}
	})
}
