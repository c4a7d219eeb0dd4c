package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"faveverif/fx"
	"faveverif/mon"
)

// All maps a property to its monitors.
var All = map[string]func(*mon.T){}

const (
	distTol  = 2e-4 // float32 dot products of unit vectors against float64
	smallMax = 60   // up to here every vector is reachable in the graph
)

// ---- reference model of what was acknowledged

type MDoc struct {
	Doc
	V []float32 // the vector it is searched by; nil when it has none
	// Open: it was never acknowledged, but is there; whether a search finds it is open
	Open bool
	// Loose: it was acknowledged, whether a search finds it is open
	Loose bool
}

type MCol struct {
	Name  string
	Idx   map[string]string
	Docs  map[string]*MDoc
	Added int // vectors ever added, those of replaced documents included
}

type World struct {
	T      *mon.T
	S      *fx.Stack
	Cols   map[string]*MCol
	Trace  []string
	dim    int
	fronts [2]Front
}

func NewWorld(t *mon.T, s *fx.Stack, dim int) *World {
	w := &World{T: t, Cols: map[string]*MCol{}, dim: dim}
	w.attach(s)
	return w
}

func (w *World) attach(s *fx.Stack) {
	w.S = s
	w.fronts = [2]Front{clientFront{s.Doc}, restFront{s}}
}

func (w *World) F(r *rand.Rand) Front { return w.fronts[r.Intn(2)] }

func (w *World) tr(format string, a ...interface{}) {
	w.Trace = append(w.Trace, fmt.Sprintf(format, a...))
}

func (w *World) bad(class, format string, a ...interface{}) {
	tr := w.Trace
	if len(tr) > 400 {
		tr = tr[len(tr)-400:]
	}
	w.T.Violate(class, map[string]interface{}{"history": tr}, format, a...)
}

// Restart ends the process without an orderly shutdown and starts a new one on
// what the store holds.
func (w *World) Restart(orderly bool) bool {
	w.tr("restart orderly=%v", orderly)
	s := w.S
	if orderly {
		s.Shutdown()
	} else {
		s.Stop()
	}
	n, err := s.Restart(nil)
	if err != nil {
		w.bad("restart", "FaVe does not start on its own data: %v", err)
		return false
	}
	w.attach(n)
	w.T.Count("restarts", 1)
	return true
}

func (w *World) Create(f Front, name string, idx map[string]string) bool {
	w.tr("%s create %q %v", f.Name(), name, idx)
	if err := f.Create(name, idx); err != nil {
		w.bad("valid-refused", "create of collection %q failed: %v", name, err)
		return false
	}
	if w.Cols[name] == nil {
		m := map[string]string{"id": "string", "hnswId": "number"}
		for k, v := range idx {
			m[k] = v
		}
		w.Cols[name] = &MCol{Name: name, Idx: m, Docs: map[string]*MDoc{}}
	}
	return true
}

func (w *World) DeleteCol(f Front, name string) bool {
	w.tr("%s delete %q", f.Name(), name)
	if err := f.Delete(name); err != nil {
		w.bad("valid-refused", "delete of collection %q failed: %v", name, err)
		return false
	}
	delete(w.Cols, name)
	return true
}

// VectorText is the text whose embedding a document without a vector gets.
func VectorText(d Doc, vectorize []string) string {
	s := ""
	for _, p := range vectorize {
		if v, ok := d.Props[p]; ok {
			s += v.(string) + " "
		}
	}
	return s
}

// Learn enters acknowledged documents into the model.
func (w *World) Learn(name string, vectorize []string, docs []Doc) {
	c := w.Cols[name]
	for _, d := range docs {
		m := &MDoc{Doc: d, V: d.Vec}
		if d.Vec == nil {
			if s := VectorText(d, vectorize); s != "" {
				m.V = fx.TextVec(s, w.dim)
			}
		}
		if m.V != nil {
			c.Added++
		}
		c.Docs[d.ID] = m
	}
}

func (w *World) Add(f Front, name string, vectorize []string, docs []Doc) bool {
	for _, d := range docs {
		w.tr("%s add %q %v %s", f.Name(), name, vectorize, short(d))
	}
	if err := f.Add(name, vectorize, docs); err != nil {
		w.bad("valid-refused", "add of %d valid documents to %q failed: %v", len(docs), name, err)
		return false
	}
	w.Learn(name, vectorize, docs)
	return true
}

func short(d Doc) string {
	b, _ := json.Marshal(d)
	if len(b) > 300 {
		return string(b[:300]) + "..."
	}
	return string(b)
}

func canon(m map[string]interface{}) string {
	b, _ := json.Marshal(m)
	var x interface{}
	_ = json.Unmarshal(b, &x)
	b, _ = json.Marshal(x)
	return string(b)
}

// ---- oracles

func without(props map[string]interface{}, name string) map[string]interface{} {
	if _, ok := props[name]; !ok {
		return props
	}
	m := map[string]interface{}{}
	for k, v := range props {
		if k != name {
			m[k] = v
		}
	}
	return m
}

// Sound judges a search answer by what holds for every single hit.
func (c *MCol) Sound(hits []Hit, q []float32, maxDist float32, limit int) error {
	seen := map[string]bool{}
	for i, h := range hits {
		d := c.Docs[h.ID]
		if d == nil {
			return fmt.Errorf("hit %d is document %q, which is not in the collection", i, h.ID)
		}
		if d.V == nil {
			return fmt.Errorf("hit %d is document %q, which has no vector", i, h.ID)
		}
		if seen[h.ID] {
			return fmt.Errorf("document %q is returned twice", h.ID)
		}
		seen[h.ID] = true
		// over HTTP the distance found takes the place of a property of this name
		if a, b := canon(without(h.Props, "distance")), canon(without(d.Props, "distance")); a != b {
			return fmt.Errorf("document %q comes back as %s, it was stored as %s", h.ID, a, b)
		}
		ref := fx.Cos(q, d.V)
		if math.Abs(ref-float64(h.Dist)) > distTol || math.IsNaN(float64(h.Dist)) {
			return fmt.Errorf("document %q is reported at distance %v, it is at %v", h.ID, h.Dist, ref)
		}
		if h.Dist > maxDist {
			return fmt.Errorf("document %q at distance %v is returned for a maximum of %v", h.ID, h.Dist, maxDist)
		}
		if i > 0 && h.Dist < hits[i-1].Dist {
			return fmt.Errorf("hit %d at distance %v comes after one at %v", i, h.Dist, hits[i-1].Dist)
		}
	}
	if limit > 0 && len(hits) > limit {
		return fmt.Errorf("%d documents returned for a limit of %d", len(hits), limit)
	}
	return nil
}

// Complete judges whether the answer has all it should have. Only for
// collections in which every vector is reachable.
func (c *MCol) Complete(hits []Hit, q []float32, maxDist float32, limit int) error {
	type dd struct {
		id string
		d  float64
	}
	var in []dd // surely within the distance
	maybe := 0  // within rounding of it
	for id, d := range c.Docs {
		if d.V == nil || d.Open || d.Loose {
			continue
		}
		ref := fx.Cos(q, d.V)
		if ref <= float64(maxDist)-distTol {
			in = append(in, dd{id, ref})
		} else if ref <= float64(maxDist)+distTol {
			maybe++
		}
	}
	sort.Slice(in, func(i, j int) bool { return in[i].d < in[j].d })
	got := map[string]bool{}
	for _, h := range hits {
		got[h.ID] = true
	}
	want := len(in)
	if limit > 0 && want > limit {
		want = limit
	}
	if len(hits) < want {
		return fmt.Errorf("%d documents returned, %d are within distance %v (limit %d, %d documents in the collection)", len(hits), len(in), maxDist, limit, len(c.Docs))
	}
	for i := 0; i < want; i++ {
		// clearly closer than the last one returned, so it has to be there
		last := math.Inf(1)
		if limit > 0 && len(hits) == limit {
			last = float64(hits[len(hits)-1].Dist) - 2*distTol
		}
		if in[i].d < last && !got[in[i].id] {
			return fmt.Errorf("document %q at distance %v is missing (limit %d, maximum distance %v)", in[i].id, in[i].d, limit, maxDist)
		}
	}
	return nil
}

// IsNotFound is an answer saying there is no such document.
func IsNotFound(err error) bool {
	if err == nil || errors.Is(err, errDropped) {
		return false
	}
	s := err.Error()
	return strings.Contains(s, "not found") || strings.Contains(s, "not present")
}

// CheckDoc judges a lookup by id against the model.
func (w *World) CheckGetID(f Front, c *MCol, id string) bool {
	h, err := f.Get(c.Name, "id", id)
	d := c.Docs[id]
	if d != nil && d.Open && err != nil && !errors.Is(err, errDropped) {
		return true
	}
	if d == nil {
		if err == nil {
			w.bad("ghost", "lookup of id %q in %q, which is not there, returned document %q", id, c.Name, h.ID)
			return false
		}
		return true
	}
	if err != nil {
		w.bad("lost", "acknowledged document %q of %q cannot be looked up: %v", id, c.Name, err)
		return false
	}
	if h.ID != id {
		w.bad("wrong-doc", "lookup of id %q in %q returned document %q", id, c.Name, h.ID)
		return false
	}
	if a, b := canon(h.Props), canon(d.Props); a != b {
		w.bad("changed", "document %q of %q comes back as %s, it was stored as %s", id, c.Name, a, b)
		return false
	}
	return true
}

// CheckSelf judges whether a stored document is found by its own vector.
func (w *World) CheckSelf(f Front, c *MCol, d *MDoc) bool {
	if d.V == nil || zero(d.V) || d.Open || d.Loose {
		return true
	}
	hits, err := f.NearVec(c.Name, d.V, 0.01, 0)
	if err != nil {
		w.bad("search-failed", "search of %q by the vector of %q failed: %v", c.Name, d.ID, err)
		return false
	}
	for _, h := range hits {
		if h.ID == d.ID {
			if h.Dist > distTol {
				w.bad("wrong-distance", "document %q of %q is at distance %v of itself", d.ID, c.Name, h.Dist)
				return false
			}
			return true
		}
	}
	w.bad("lost", "acknowledged document %q of %q is not found by its own vector (%d hits, %d documents)", d.ID, c.Name, len(hits), len(c.Docs))
	return false
}

func zero(v []float32) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}

// CheckAll compares everything observable of a collection with the model.
func (w *World) CheckAll(f Front, c *MCol) bool {
	for _, id := range sortedIDs(c) {
		if !w.CheckGetID(f, c, id) || !w.CheckSelf(f, c, c.Docs[id]) {
			return false
		}
	}
	dim := w.dim
	for _, d := range c.Docs {
		if d.V != nil {
			dim = len(d.V)
		}
	}
	q := make([]float32, dim)
	q[0] = 1
	hits, err := f.NearVec(c.Name, q, 3, 0)
	if err != nil {
		w.bad("search-failed", "search of %q failed: %v", c.Name, err)
		return false
	}
	if err := c.Sound(hits, q, 3, 0); err != nil {
		w.bad("unsound", "search of %q: %v", c.Name, err)
		return false
	}
	if c.Added <= smallMax {
		if err := c.Complete(hits, q, 3, 0); err != nil {
			w.bad("incomplete", "search of %q: %v", c.Name, err)
			return false
		}
	}
	return true
}

func sortedIDs(c *MCol) []string {
	ids := make([]string, 0, len(c.Docs))
	for id := range c.Docs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func (w *World) CheckList(f Front) bool {
	got, err := f.List()
	if err != nil {
		w.bad("list-failed", "listing the collections failed: %v", err)
		return false
	}
	want := map[string]map[string]string{}
	for n, c := range w.Cols {
		want[n] = c.Idx
	}
	a, _ := json.Marshal(got)
	b, _ := json.Marshal(want)
	if string(a) != string(b) {
		w.bad("list", "collections are listed as %s, there are %s", a, b)
		return false
	}
	return true
}
