package checks

import (
	"fmt"
	"math"
	"math/rand"

	"faveverif/fx"
	"faveverif/mon"
)

// hist is a random history of valid operations on a few collections.
type hist struct {
	*World
	r        *rand.Rand
	uniq     int
	ids      map[string][]string // ids used per collection
	nov      map[string]bool     // collections that have a document without a vector
	max      int                 // vectors per collection
	noRe     bool                // no document is added twice
	distProp bool                // documents have a property named as the distance of a hit is
	lists    bool                // for badReqs: into the collection with a list and a map index
	two      bool                // stored strings without what lookup by value cannot take
}

func newHist(t *mon.T, r *rand.Rand, dim int) *hist {
	s, err := fx.NewStack(fx.StackOpts{Dim: dim})
	if err != nil {
		t.Violate("start", nil, "FaVe does not start on an empty store: %v", err)
		return nil
	}
	return &hist{World: NewWorld(t, s, dim), r: r, ids: map[string][]string{}, nov: map[string]bool{}, max: smallMax}
}

func (h *hist) done() {
	if h != nil && h.S != nil {
		h.S.Stop()
	}
}

// freshDoc makes a document with a new id.
func (h *hist) freshDoc(col string) Doc {
	h.uniq++
	id := UUID(h.r, h.uniq)
	return h.odd(GenDoc(h.r, id, h.uniq, h.dim))
}

func (h *hist) odd(d Doc) Doc {
	if h.distProp && h.r.Intn(3) == 0 {
		d.Props["distance"] = []interface{}{0.25, "far", nil, -1.0}[h.r.Intn(4)]
	}
	return d
}

// newVersion makes a new version of an existing document.
func (h *hist) newVersion(id string) Doc {
	h.uniq++
	return h.odd(GenDoc(h.r, id, h.uniq, h.dim))
}

// addBatch adds up to n documents, some of them new versions of existing ones.
func (h *hist) addBatch(col string, n int) bool {
	c := h.Cols[col]
	var vectorize []string
	switch h.r.Intn(4) {
	case 0:
		vectorize = []string{"body"}
	case 1:
		vectorize = []string{"title", "body"}
	case 2:
		vectorize = []string{"body", "absent", "title"}
	case 3:
		vectorize = []string{"title"}
	}
	var docs []Doc
	room := h.max - c.Added
	// a document without anything to vectorize: at most one per collection,
	// and it is not added again; sometimes all by itself
	noVec := !h.nov[col] && h.r.Intn(6) == 0
	if noVec && h.r.Intn(2) == 0 {
		n = 0
	}
	for i := 0; i < n && i < room; i++ {
		var d Doc
		if ids := h.ids[col]; !h.noRe && len(ids) > 0 && h.r.Intn(4) == 0 {
			d = h.newVersion(ids[h.r.Intn(len(ids))])
		} else {
			d = h.freshDoc(col)
			h.ids[col] = append(h.ids[col], d.ID)
		}
		// sometimes a copy of a vector that is already there, or one close to it
		if d.Vec != nil && len(c.Docs) > 0 && h.r.Intn(4) == 0 {
			if m := c.Docs[h.pick(c)]; m != nil && m.V != nil {
				if h.r.Intn(2) == 0 {
					d.Vec = append([]float32(nil), m.V...)
				} else {
					d.Vec = Near(h.r, m.V, 0.05)
				}
			}
		}
		docs = append(docs, d)
	}
	if len(docs) == 0 && !noVec {
		return true
	}
	if noVec {
		h.nov[col] = true
		d := h.freshDoc(col)
		d.Vec = nil
		for _, p := range vectorize {
			delete(d.Props, p)
		}
		d.Props["title"] = fmt.Sprintf("no vector %05d", h.uniq)
		if has(vectorize, "title") {
			d.Props["title"] = ""
			vectorize = nil
			for i := range docs {
				if docs[i].Vec == nil {
					docs[i].Vec = RandVec(h.r, h.dim)
				}
			}
			d.Props["title"] = fmt.Sprintf("no vector %05d", h.uniq)
		}
		docs = append(docs, d)
	}
	return h.Add(h.F(h.r), col, vectorize, docs)
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (h *hist) pick(c *MCol) string {
	ids := sortedIDs(c)
	if len(ids) == 0 {
		return ""
	}
	return ids[h.r.Intn(len(ids))]
}

func (h *hist) pickCol() *MCol {
	n := h.names()
	if len(n) == 0 {
		return nil
	}
	return h.Cols[n[h.r.Intn(len(n))]]
}

func (h *hist) names() []string {
	var n []string
	for k := range h.Cols {
		n = append(n, k)
	}
	sortStrings(n)
	return n
}

// query makes a search vector: anything, or related to what is stored.
func (h *hist) query(c *MCol) []float32 {
	d := c.Docs[h.pick(c)]
	if d == nil || d.V == nil {
		return RandVec(h.r, h.dim)
	}
	switch h.r.Intn(7) {
	case 0:
		return d.V
	case 1:
		return Near(h.r, d.V, 0.01)
	case 2:
		return Near(h.r, d.V, 0.3)
	case 3: // same direction, other length
		o := make([]float32, len(d.V))
		for i, x := range d.V {
			o[i] = x * 37.5
		}
		return o
	case 4: // opposite
		o := make([]float32, len(d.V))
		for i, x := range d.V {
			o[i] = -x
		}
		return o
	}
	return RandVec(h.r, h.dim)
}

// distLimit picks search bounds; ref is a distance that occurs.
func (h *hist) distLimit(q []float32, c *MCol) (float32, int) {
	dist := float32(h.r.Float64() * 2)
	switch h.r.Intn(7) {
	case 0:
		dist = 2.1
	case 1:
		dist = 1
	case 2:
		dist = 0.001
	case 3:
		if d := c.Docs[h.pick(c)]; d != nil && d.V != nil {
			dist = float32(fx.Cos(q, d.V))
			if dist < 0 {
				dist = 0
			}
		}
	case 4:
		dist = 5
	}
	limit := 0
	switch h.r.Intn(5) {
	case 0:
		limit = 1
	case 1:
		limit = 1 + h.r.Intn(10)
	case 2:
		limit = 1 + h.r.Intn(100)
	case 3:
		limit = []int{800, 801, 1000, 5000, 256, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<32 + 1, math.MaxInt64}[h.r.Intn(11)]
	}
	return dist, limit
}
