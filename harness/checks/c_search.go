package checks

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"faveverif/fx"
	"faveverif/mon"
)

func sortStrings(s []string) { sort.Strings(s) }

func dims(r *rand.Rand) int { return []int{2, 3, 4, 8, 16, 31, 50}[r.Intn(7)] }

func init() {
	All["C01"] = c01
	All["C02"] = c02
	All["C03"] = c03
}

// C01: what was acknowledged is there after any restart.
func c01(t *mon.T) {
	t.Rule = "one acknowledged document, looked up by id and searched by its own vector in a process that did not store it; distinct by history and document"
	t.Par("c01", t.N(128, 1500), func(i int, r *rand.Rand) {
		h := newHist(t, r, dims(r))
		if h == nil {
			return
		}
		defer func() { h.done() }()
		for k := 0; k < 1+r.Intn(2); k++ {
			if !h.Create(h.F(r), fmt.Sprintf("col%d", k), stdIdx) {
				return
			}
		}
		steps := 3 + r.Intn(6)
		for s := 0; s < steps; s++ {
			c := h.pickCol()
			n := 1 + r.Intn(4)
			if r.Intn(3) == 0 {
				n = 5 + r.Intn(20)
			}
			if !h.addBatch(c.Name, n) {
				return
			}
			switch r.Intn(5) {
			case 0, 1:
				if !h.Restart(r.Intn(2) == 0) {
					return
				}
			case 2: // the first thing a process does with the collection varies
				if id := h.pick(c); id != "" && !h.CheckGetID(h.F(r), c, id) {
					return
				}
			case 3:
				if id := h.pick(c); id != "" && !h.CheckSelf(h.F(r), c, c.Docs[id]) {
					return
				}
			}
		}
		for rep := 0; rep < 2; rep++ {
			if !h.Restart(rep == 1) {
				return
			}
			for _, n := range h.names() {
				c := h.Cols[n]
				if !h.CheckAll(h.F(r), c) {
					return
				}
				for _, id := range sortedIDs(c) {
					t.Eval("acknowledged documents judged after restart", fmt.Sprint(i, n, id))
				}
				t.Max("largest collection", int64(len(c.Docs)))
			}
			if !h.CheckList(h.F(r)) {
				return
			}
		}
		if i < 3 {
			t.Sample(map[string]interface{}{"history": head(h.Trace, 12)})
		}
	})
	bigBatch(t, t.N(3, 24))
}

// bigBatch: hundreds of documents handed in at once, and a few more after a
// restart, which must not take the place of any of them.
func bigBatch(t *mon.T, n int) {
	t.Par("c01batch", n, func(i int, r *rand.Rand) {
		h := newHist(t, r, 8)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		if !h.Create(h.F(r), "c", stdIdx) {
			return
		}
		c := h.Cols["c"]
		for s, n := range [][]int{{1030, 2}, {257, 1}, {300, 260}}[i%3] {
			var docs []Doc
			for k := 0; k < n+r.Intn(3); k++ {
				d := h.freshDoc("c")
				d.Props = map[string]interface{}{"title": d.Props["title"], "n": d.Props["n"]}
				d.Vec = make([]float32, h.dim)
				for x := range d.Vec {
					d.Vec[x] = float32(r.NormFloat64())
				}
				docs = append(docs, d)
			}
			f := h.F(r)
			if i%3 == 0 {
				f = h.fronts[1]
			}
			if !h.Add(f, "c", nil, docs) || !h.Restart(s == 1) {
				return
			}
			k := 0
			for _, id := range sortedIDs(c) {
				if k++; k%7 != s && len(c.Docs) > 300 {
					continue
				}
				f := h.F(r)
				if !h.CheckGetID(f, c, id) || !h.CheckSelf(f, c, c.Docs[id]) {
					return
				}
				t.Eval("documents of a large batch judged after restart", fmt.Sprint(i, s, id))
			}
			t.Max("largest batch", int64(len(docs)))
		}
	})
}

// queryOrText gives a query, and for some the text it is the embedding of.
func (h *hist) queryOrText(c *MCol) ([]float32, string) {
	if h.r.Intn(4) != 0 {
		return h.query(c), ""
	}
	text := Words(h.r, 1+h.r.Intn(3))
	return fx.TextVec(text, h.dim), text
}

func (h *hist) near(f Front, col, text string, q []float32, dist float32, limit int) ([]Hit, error) {
	if text != "" {
		return f.NearText(col, text, dist, limit)
	}
	return f.NearVec(col, q, dist, limit)
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// C02: every hit is right.
func c02(t *mon.T) {
	t.Rule = "one search answer judged hit by hit against the documents stored; distinct by history, query, distance and limit, trivial when empty"
	t.Par("c02", t.N(64, 800), func(i int, r *rand.Rand) {
		h := newHist(t, r, dims(r))
		if h == nil {
			return
		}
		h.distProp = i%2 == 0
		defer func() { h.done() }()
		if i%8 == 0 {
			h.max = 400
		}
		if !h.Create(h.F(r), "c", stdIdx) {
			return
		}
		c := h.Cols["c"]
		for s := 0; s < 5; s++ {
			n := 1 + r.Intn(12)
			if h.max > smallMax {
				n = 40 + r.Intn(40)
			}
			if !h.addBatch("c", n) {
				return
			}
			if r.Intn(4) == 0 && !h.Restart(false) {
				return
			}
			for k := 0; k < 12; k++ {
				q, text := h.queryOrText(c)
				dist, limit := h.distLimit(q, c)
				f := h.F(r)
				hits, err := h.near(f, "c", text, q, dist, limit)
				if err != nil {
					h.bad("search-failed", "search failed: %v", err)
					return
				}
				h.tr("%s search %v %v %d -> %d", f.Name(), q, dist, limit, len(hits))
				if err := c.Sound(hits, q, dist, limit); err != nil {
					h.bad("unsound", "search within %v, limit %d: %v", dist, limit, err)
					return
				}
				key := ""
				if len(hits) > 0 {
					key = fmt.Sprint(i, s, k)
				}
				t.Eval("search answers judged", key)
				t.Count("hits judged", int64(len(hits)))
				if i < 2 && k == 0 {
					t.Sample(map[string]interface{}{"query": q, "distance": dist, "limit": limit, "hits": len(hits), "documents": len(c.Docs)})
				}
			}
		}
	})
}

// C03: up to smallMax vectors, nothing is missing.
func c03(t *mon.T) {
	t.Rule = "one search answer compared with the exact answer computed from all documents stored; distinct by history, query, distance and limit, trivial when nothing is within the distance"
	t.Par("c03", t.N(64, 1000), func(i int, r *rand.Rand) {
		h := newHist(t, r, dims(r))
		if h == nil {
			return
		}
		h.distProp = i%3 == 0
		defer func() { h.done() }()
		if !h.Create(h.F(r), "c", stdIdx) {
			return
		}
		c := h.Cols["c"]
		for s := 0; s < 4; s++ {
			if !h.addBatch("c", 1+r.Intn(25)) {
				return
			}
			if r.Intn(3) == 0 && !h.Restart(r.Intn(2) == 0) {
				return
			}
			for k := 0; k < 15; k++ {
				q, text := h.queryOrText(c)
				dist, limit := h.distLimit(q, c)
				f := h.F(r)
				hits, err := h.near(f, "c", text, q, dist, limit)
				if err != nil {
					h.bad("search-failed", "search failed: %v", err)
					return
				}
				h.tr("%s search %v %v %d -> %d", f.Name(), q, dist, limit, len(hits))
				if err := c.Complete(hits, q, dist, limit); err != nil {
					h.bad("incomplete", "%v", err)
					return
				}
				key := ""
				if len(hits) > 0 {
					key = fmt.Sprint(i, s, k)
				}
				t.Eval("search answers compared", key)
				t.Count("hits compared", int64(len(hits)))
				if i < 2 && k == 0 {
					t.Sample(map[string]interface{}{"query": q, "distance": dist, "limit": limit, "hits": len(hits), "documents": len(c.Docs)})
				}
			}
		}
		t.Max("largest collection", int64(c.Added))
	})
	edges(t)
}

// edges: documents at exactly the distance asked for. The vectors are such that
// their distances are exact in float32: multiples of 1/4.
func edges(t *mon.T) {
	t.Par("c03-edges", t.N(24, 400), func(i int, r *rand.Rand) {
		dim := []int{4, 8, 16, 5}[i%4]
		h := newHist(t, r, dim)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		vec := func() []float32 {
			v := make([]float32, dim)
			size := float32(int(1) << r.Intn(4))
			if r.Intn(3) == 0 {
				v[r.Intn(dim)] = size * float32(1-2*r.Intn(2))
				return v
			}
			for _, k := range r.Perm(dim)[:4] {
				v[k] = size * float32(1-2*r.Intn(2))
			}
			return v
		}
		if !h.Create(h.F(r), "c", stdIdx) {
			return
		}
		c := h.Cols["c"]
		for s := 0; s < 2; s++ {
			var docs []Doc
			for k := 1 + r.Intn(20); k > 0; k-- {
				d := h.freshDoc("c")
				d.Vec = vec()
				docs = append(docs, d)
			}
			if !h.Add(h.F(r), "c", nil, docs) || r.Intn(3) == 0 && !h.Restart(r.Intn(2) == 0) {
				return
			}
			for k := 0; k < 20; k++ {
				q, dist := vec(), float64(r.Intn(9))/4
				f := h.F(r)
				hits, err := f.NearVec("c", q, float32(dist), 800)
				if err != nil {
					h.bad("search-failed", "search failed: %v", err)
					return
				}
				got := map[string]bool{}
				for _, x := range hits {
					got[x.ID] = true
				}
				at := 0
				for id, d := range c.Docs {
					// float64 rounds 1-cos of these to within 1e-15
					x := math.Round(fx.Cos(q, d.V)*4) / 4
					if x == dist {
						at++
					}
					if got[id] != (x <= dist) {
						h.bad("edge", "%s search for %v within %v: document %q at distance %v returned: %v", f.Name(), q, dist, id, x, got[id])
						return
					}
				}
				key := ""
				if at > 0 {
					key = fmt.Sprint(i, s, k)
				}
				t.Eval("searches with documents at just the distance", key)
			}
		}
	})
}
