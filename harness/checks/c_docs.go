package checks

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"faveverif/fx"
	"faveverif/mon"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
)

func init() {
	All["C05"] = c05
	All["C06"] = c06
	All["C07"] = c07
	All["C08"] = c08
	All["C09"] = c09
}

func sameHits(a, b []Hit) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d hits against %d", len(a), len(b))
	}
	for i := range a {
		if math.Abs(float64(a[i].Dist-b[i].Dist)) > distTol {
			return fmt.Errorf("hit %d is at distance %v against %v", i, a[i].Dist, b[i].Dist)
		}
	}
	// ties may come in any order: compare as sets those clearly inside
	set := map[string]string{}
	for _, h := range a {
		set[h.ID] = canon(h.Props)
	}
	var edge float32 = -1
	if n := len(a); n > 0 {
		edge = a[n-1].Dist - 2*distTol
	}
	for _, h := range b {
		p, ok := set[h.ID]
		if !ok && h.Dist < edge {
			return fmt.Errorf("document %q is in one answer only", h.ID)
		}
		if ok && p != canon(h.Props) {
			return fmt.Errorf("document %q differs between the answers", h.ID)
		}
	}
	return nil
}

// C05: searching by text is searching by the embedding of the text, and
// documents are embedded by the listed properties, in order.
func c05(t *mon.T) {
	t.Rule = "one text search compared with the vector search of the embedding of that text and with the exact answer, or one document found by the embedding of its listed properties; distinct by history and query"
	t.Par("c05", t.N(160, 1500), func(i int, r *rand.Rand) {
		dim := dims(r)
		if i%16 == 15 {
			dim = []int{384, 768, 1025, 1536}[i/16%4] // what embeddings have
		}
		h := newHist(t, r, dim)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		if !h.Create(h.F(r), "c", stdIdx) {
			return
		}
		c := h.Cols["c"]
		props := []string{"body", "title", "alt", "note", "Note", "text5", "text6"}
		vt := map[string]string{} // id -> text it is to be embedded by
		for s := 0; s < 4; s++ {
			perm := r.Perm(len(props))
			var vectorize []string
			for _, p := range perm[:1+r.Intn(3)*r.Intn(4)] {
				vectorize = append(vectorize, props[p])
			}
			if r.Intn(6) == 0 {
				vectorize = append(vectorize, vectorize[0])
			}
			if r.Intn(3) == 0 {
				vectorize = append(vectorize, "absent")
			}
			n := 1 + r.Intn(12)
			var docs []Doc
			for k := 0; k < n && c.Added+k < smallMax; k++ {
				var d Doc
				if len(h.ids["c"]) > 0 && r.Intn(5) == 0 {
					d = h.newVersion(h.ids["c"][r.Intn(len(h.ids["c"]))])
				} else {
					d = h.freshDoc("c")
					h.ids["c"] = append(h.ids["c"], d.ID)
				}
				d.Vec = nil
				if r.Intn(2) == 0 {
					d.Props["alt"] = Words(r, r.Intn(4)) // sometimes empty
				}
				if r.Intn(2) == 0 {
					d.Props["note"] = Words(r, 2) + oddText[r.Intn(len(oddText))]
				}
				for _, p := range props[4:] {
					if r.Intn(2) == 0 {
						d.Props[p] = Words(r, 1)
					}
				}
				if VectorText(d, vectorize) == "" || r.Intn(6) == 0 {
					d.Vec = RandVec(r, h.dim)
				} else {
					vt[d.ID] = VectorText(d, vectorize)
				}
				if d.Vec != nil {
					delete(vt, d.ID)
				}
				docs = append(docs, d)
			}
			if len(docs) == 0 {
				break
			}
			if !h.Add(h.F(r), "c", vectorize, docs) {
				return
			}
			if r.Intn(3) == 0 && !h.Restart(false) {
				return
			}
			for _, id := range sortedIDs(c) {
				text, ok := vt[id]
				if !ok || r.Intn(3) != 0 {
					continue
				}
				hits, err := h.F(r).NearText("c", text, 0.001, 0)
				if err != nil {
					h.bad("search-failed", "text search failed: %v", err)
					return
				}
				found := false
				for _, x := range hits {
					found = found || x.ID == id
				}
				if !found {
					h.bad("wrong-embedding", "document %q is not found by the text of its listed properties %q", id, text)
					return
				}
				t.Eval("documents found by their text", fmt.Sprint(i, s, id))
			}
			if !h.CheckAll(h.F(r), c) {
				return
			}
			last := ""
			for k := 0; k < 8; k++ {
				text := Words(r, 1+r.Intn(3))
				if last != "" && r.Intn(3) == 0 {
					// close to what was searched just before
					text = []string{strings.ToUpper(last), strings.Title(last), last + " ", last + last, last[:len(last)-1]}[r.Intn(5)]
				}
				if id := h.pick(c); id != "" && r.Intn(2) == 0 && vt[id] != "" {
					text = vt[id]
				}
				if text == "" || strings.ToValidUTF8(text, "") != text {
					text = "a"
				}
				last = text
				q := fx.TextVec(text, h.dim)
				dist, limit := h.distLimit(q, c)
				fa, fb := h.F(r), h.F(r)
				a, err := fa.NearText("c", text, dist, limit)
				if err != nil {
					h.bad("search-failed", "text search failed: %v", err)
					return
				}
				b, err := fb.NearVec("c", q, dist, limit)
				if err != nil {
					h.bad("search-failed", "vector search failed: %v", err)
					return
				}
				if err := sameHits(a, b); err != nil {
					h.bad("text-vector", "searching for %q (distance %v, limit %d) and for its embedding differ: %v", text, dist, limit, err)
					return
				}
				if err := c.Sound(a, q, dist, limit); err != nil {
					h.bad("unsound", "searching for %q: %v", text, err)
					return
				}
				if err := c.Complete(a, q, dist, limit); err != nil {
					h.bad("incomplete", "searching for %q: %v", text, err)
					return
				}
				key := ""
				if len(a) > 0 {
					key = fmt.Sprint(i, s, k)
				}
				t.Eval("text searches compared", key)
				t.Count("hits compared", int64(len(a)))
				if i < 2 && k == 0 {
					t.Sample(map[string]interface{}{"text": text, "distance": dist, "limit": limit, "hits": len(a)})
				}
			}
		}
	})
}

var plainWords = []string{"ant", "anteater", "an", "Ant", "bee", "bees", "beehive", "cat", "12", "123", "1234", "a b", "a", "ü", "東京", "東", "x-y_z", "0", "007"}

// C06: lookup by an indexed value finds a document that has exactly this value,
// with the properties it was stored with.
func c06(t *mon.T) {
	t.Rule = "one lookup by an indexed property, for a value that is stored or for one that is close to a stored one; distinct by history, property and value"
	t.Par("c06", t.N(256, 2500), func(i int, r *rand.Rand) {
		h := newHist(t, r, 4)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		idx := map[string]string{"title": "string", "n": "number"}
		if i%2 == 0 {
			idx["tags"] = "list"
		}
		if i%3 == 0 {
			idx["attr"] = "map"
		}
		if !h.Create(h.F(r), "c", idx) {
			return
		}
		c := h.Cols["c"]
		words := map[string]bool{}
		for s := 0; s < 3; s++ {
			var docs []Doc
			for k := 0; k < 2+r.Intn(8); k++ {
				d := h.freshDoc("c")
				// values are shared and prefixes of each other; nothing is added twice here
				d.Props["title"] = plainWords[r.Intn(len(plainWords))]
				d.Props["n"] = float64([]int{0, 1, 2, 9, 10, 11, 99, 100, 12345, 999999}[r.Intn(10)])
				if r.Intn(3) == 0 {
					d.Props["title"] = fmt.Sprintf("%s%d", plainWords[r.Intn(len(plainWords))], r.Intn(12))
				}
				words[d.Props["title"].(string)] = true
				if idx["tags"] != "" {
					l := []interface{}{}
					for _, p := range r.Perm(len(plainWords))[:1+r.Intn(3)] {
						l = append(l, plainWords[p])
					}
					d.Props["tags"] = l
				}
				if idx["attr"] != "" {
					m := map[string]interface{}{}
					for _, p := range r.Perm(3)[:1+r.Intn(2)] {
						m["key"+string(rune('a'+p))] = plainWords[r.Intn(len(plainWords))]
					}
					d.Props["attr"] = m
				}
				if r.Intn(5) == 0 {
					d.Props["id"] = "not-the-id" // the id given with the document is the id
				}
				if r.Intn(4) == 0 {
					for x := r.Intn(6); x > 0; x-- {
						d.Props["p"+fmt.Sprint(x)] = Value(r, 3)
					}
				}
				d.Vec = RandVec(r, 4)
				docs = append(docs, d)
			}
			if !h.Add(h.F(r), "c", nil, docs) {
				return
			}
			for _, d := range docs {
				delete(d.Props, "id")
			}
			if r.Intn(2) == 0 && !h.Restart(r.Intn(2) == 0) {
				return
			}
			look := func(prop, value string, match func(m *MDoc) bool) bool {
				f := h.F(r)
				hit, err := f.Get("c", prop, value)
				exists := false
				for _, m := range c.Docs {
					if match(m) {
						exists = true
					}
				}
				t.Eval("lookups judged", fmt.Sprint(i, s, prop, value))
				if !exists {
					if err == nil {
						h.bad("wrong-doc", "%s lookup of %s=%q, which no document has, returned %q %s", f.Name(), prop, value, hit.ID, canon(hit.Props))
						return false
					}
					if !IsNotFound(err) {
						h.bad("lookup-failed", "%s lookup of %s=%q, which no document has, failed other than by saying so: %v", f.Name(), prop, value, err)
						return false
					}
					t.Count("lookups of absent values", 1)
					return true
				}
				if err != nil {
					h.bad("lost", "%s lookup of %s=%q failed though a document has it: %v", f.Name(), prop, value, err)
					return false
				}
				m := c.Docs[hit.ID]
				if m == nil || !match(m) {
					h.bad("wrong-doc", "%s lookup of %s=%q returned document %q %s", f.Name(), prop, value, hit.ID, canon(hit.Props))
					return false
				}
				if a, b := canon(hit.Props), canon(m.Props); a != b {
					h.bad("changed", "document %q comes back as %s, it was stored as %s", hit.ID, a, b)
					return false
				}
				t.Count("lookups of stored values", 1)
				return true
			}
			var vals []string
			for w := range words {
				vals = append(vals, w)
			}
			sortStrings(vals)
			for k := 0; k < 12; k++ {
				v := vals[r.Intn(len(vals))]
				switch r.Intn(6) {
				case 0:
					v += "x"
				case 1:
					v = v[:len(v)/2]
				case 2:
					v = strings.ToUpper(v)
				case 3:
					v += "1"
				}
				if v == "" || strings.ToValidUTF8(v, "") != v {
					v = "zz"
				}
				if !look("title", v, func(m *MDoc) bool { return m.Props["title"] == v }) {
					return
				}
			}
			for k := 0; k < 8; k++ {
				v := []int{0, 1, 2, 3, 8, 9, 10, 11, 12, 98, 99, 100, 101, 12344, 12345, 12346, 999999}[r.Intn(17)]
				if !look("n", fmt.Sprint(v), func(m *MDoc) bool { return m.Props["n"] == float64(v) }) {
					return
				}
			}
			if idx["tags"] != "" {
				for k := 0; k < 6; k++ {
					v := plainWords[r.Intn(len(plainWords))]
					if !look("tags", v, func(m *MDoc) bool {
						for _, x := range m.Props["tags"].([]interface{}) {
							if x == v {
								return true
							}
						}
						return false
					}) {
						return
					}
				}
			}
			if idx["attr"] != "" {
				for k := 0; k < 6; k++ {
					key, v := "key"+string(rune('a'+r.Intn(3))), plainWords[r.Intn(len(plainWords))]
					if !look("attr", key+":"+v, func(m *MDoc) bool { return m.Props["attr"].(map[string]interface{})[key] == v }) {
						return
					}
				}
			}
			ids := sortedIDs(c)
			for k := 0; k < 10; k++ {
				id := ids[r.Intn(len(ids))]
				if r.Intn(4) == 0 {
					id = UUID(r, 900000+r.Intn(1000))
				}
				if !look("id", id, func(m *MDoc) bool { return m.ID == id }) {
					return
				}
			}
		}
		if i < 3 {
			t.Sample(map[string]interface{}{"indexes": idx, "history": head(h.Trace, 6)})
		}
	})
	onlyOne(t, t.N(60, 600))
	knownLookup(t)
}

// onlyOne: lookups of values that resemble the only one there is, which is what
// the store finds next to them.
func onlyOne(t *mon.T, n int) {
	t.Par("c06one", n, func(i int, r *rand.Rand) {
		h := newHist(t, r, 3)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		for k, num := range []float64{7, 7.5, 0.25, 41, -7} {
			col := fmt.Sprintf("c%c", 'a'+k)
			if !h.Create(h.F(r), col, map[string]string{"title": "string", "n": "number"}) {
				return
			}
			w := []string{"Alpha", "straße", "x", "Two Words", "ÉCLAIR", "id", "end ", "end\t", " lead", "日本語", "🐝 bee", "e\u0301t\u00e9", "a\u00a0b"}[r.Intn(13)]
			d := Doc{ID: UUID(r, k+1), Props: map[string]interface{}{"title": w, "n": num}, Vec: RandVec(r, 3)}
			if !h.Add(h.F(r), col, nil, []Doc{d}) {
				return
			}
			f := h.F(r)
			hit, err := f.Get(col, "title", w)
			if err != nil || hit.ID != d.ID || canon(hit.Props) != canon(d.Props) {
				h.bad("lost", "%s lookup of title=%q gave %v %v", f.Name(), w, hit, err)
				return
			}
			absent := [][2]string{}
			for _, v := range []string{strings.ToUpper(w), strings.ToLower(w), strings.Title(strings.ToLower(w)), w + " ", " " + w, strings.TrimSpace(w), w + "\t", w[:len(w)-1], w + w, w + "0", "0"} {
				if v != w && v != "" && strings.ToValidUTF8(v, "") == v {
					absent = append(absent, [2]string{"title", v})
				}
			}
			for _, v := range []int{int(num) - 1, int(num), int(num) + 1, -int(num) - 1, -int(num), 10 * (int(num) + 1), 0} {
				if float64(v) != num {
					absent = append(absent, [2]string{"n", fmt.Sprint(v)})
				}
			}
			if num == 7 || num == 41 || num == -7 {
				if hit, err := f.Get(col, "n", fmt.Sprint(num)); err != nil || hit.ID != d.ID {
					h.bad("lost", "%s lookup of n=%v gave %v %v", f.Name(), num, hit, err)
					return
				}
				absent = append(absent, [2]string{"n", fmt.Sprint(num) + ".5"}, [2]string{"n", "x"})
			}
			absent = append(absent, [2]string{"id", d.ID[:len(d.ID)-1] + "f"}, [2]string{"id", strings.ToUpper(d.ID) + "0"}, [2]string{"id", d.ID[:8]})
			for _, a := range absent {
				f := h.F(r)
				hit, err := f.Get(col, a[0], a[1])
				if err == nil {
					h.bad("wrong-doc", "%s lookup of %s=%q, which no document has, returned %q %s", f.Name(), a[0], a[1], hit.ID, canon(hit.Props))
					return
				}
				if errors.Is(err, errDropped) {
					h.bad("dropped", "%s lookup of %s=%q: %v", f.Name(), a[0], a[1], err)
					return
				}
				t.Eval("lookups next to the only value", fmt.Sprint(w, num, a))
			}
		}
	})
}

// knownLookup runs the lookups that are known to fail.
func knownLookup(t *mon.T) {
	r := t.Rand("known-lookup", 0)
	h := newHist(t, r, 4)
	if h == nil {
		return
	}
	defer h.done()
	if !h.Create(h.fronts[0], "c", map[string]string{"title": "string"}) {
		return
	}
	_ = h.fronts[0].Create("num", map[string]string{"n": "number"})
	for k, v := range []int{999999, 1000000, 1 << 40} {
		d := Doc{ID: UUID(r, k+1), Props: map[string]interface{}{"n": float64(v)}, Vec: RandVec(r, 4)}
		if err := h.fronts[0].Add("num", nil, []Doc{d}); err != nil {
			h.bad("valid-refused", "add failed: %v", err)
			return
		}
		if _, err := h.fronts[0].Get("num", "n", fmt.Sprint(v)); err != nil {
			t.Known(fmt.Sprintf("lookup number %d", v), map[string]string{"error": err.Error()}, "lookup of the stored number %d failed: %v", v, err)
		}
	}
	for k, v := range []string{"1+1", "C++", "a(b", "price $5", "a=b", "x<y", "x>y"} {
		d := Doc{ID: UUID(r, k+1), Props: map[string]interface{}{"title": v}, Vec: RandVec(r, 4)}
		if !h.Add(h.fronts[0], "c", nil, []Doc{d}) {
			return
		}
		hit, err := h.fronts[0].Get("c", "title", v)
		if err == nil && hit.ID == d.ID {
			continue
		}
		if err == nil {
			h.bad("wrong-doc", "lookup of title=%q returned %q", v, hit.ID)
			continue
		}
		t.Known("lookup "+v, map[string]string{"value": v, "error": err.Error()}, "lookup of the stored value %q failed: %v", v, err)
	}
}

// C07: collections do not affect each other.
func c07(t *mon.T) {
	t.Rule = "one collection compared with its own history after an operation on another one; distinct by history and step"
	t.Par("c07", t.N(200, 2000), func(i int, r *rand.Rand) {
		h := newHist(t, r, 3+r.Intn(6))
		if h == nil {
			return
		}
		defer func() { h.done() }()
		sets := [][]string{{"a", "ab", "abc", "b"}, {"docs", "docsX", "docs-old", "Docs"}, {"fave", "fave_fave", "fave_", "x"}, {"1", "1st", "0", "2-1"}, {"news", "newsid", "new", "newshnswId"},
			{"a-name-of-some-length-that-they-share-x", "a-name-of-some-length-that-they-share-y", "a-name-of-some-length-that-they-share", "a-name-of-some-length-that-they-do"}}
		names := sets[r.Intn(len(sets))]
		// the same ids and values in all of them, different vectors and bodies
		var shared []string
		for k := 0; k < 8; k++ {
			shared = append(shared, UUID(r, k+1))
		}
		for s := 0; s < 10; s++ {
			n := names[r.Intn(len(names))]
			f := h.F(r)
			switch {
			case h.Cols[n] == nil:
				if !h.Create(f, n, map[string]string{}) {
					return
				}
			case r.Intn(8) == 0 && s > 4:
				if !h.DeleteCol(f, n) {
					return
				}
				// it stays deleted: see C08 for what comes after
				var rest []string
				for _, x := range names {
					if x != n {
						rest = append(rest, x)
					}
				}
				names = rest
				if len(names) < 2 {
					return
				}
			default:
				var docs []Doc
				for _, p := range r.Perm(len(shared))[:1+r.Intn(4)] {
					if h.Cols[n].Added+len(docs) >= smallMax {
						break
					}
					h.uniq++
					docs = append(docs, Doc{ID: shared[p], Props: map[string]interface{}{"in": n, "v": float64(h.uniq)}, Vec: RandVec(r, h.dim)})
				}
				if r.Intn(4) == 0 {
					// the very same objects into another collection as well
					o := names[r.Intn(len(names))]
					if h.Cols[o] != nil && o != n && h.Cols[o].Added+len(docs) < smallMax {
						var ds []*document.Document
						for _, d := range docs {
							ds = append(ds, &document.Document{ID: d.ID, Properties: map[string]interface{}{"in": d.Props["in"], "v": d.Props["v"], "vector": vecAs(d.Vec, r.Intn(5))}})
						}
						for _, x := range []string{n, o} {
							h.tr("client add %q, the same %d objects", x, len(ds))
							if err := h.S.Doc.AddDocuments(x, nil, ds...); err != nil {
								h.bad("valid-refused", "adding documents to %q that were added to another collection before: %v", x, err)
								return
							}
							h.Learn(x, nil, docs)
						}
						t.Count("documents added to two collections", int64(len(ds)))
						break
					}
				}
				if !h.Add(f, n, nil, docs) {
					return
				}
			}
			if r.Intn(6) == 0 && !h.Restart(r.Intn(2) == 0) {
				return
			}
			for _, o := range h.names() {
				if !h.CheckAll(h.F(r), h.Cols[o]) {
					return
				}
				for _, id := range shared {
					if h.Cols[o].Docs[id] == nil && !h.CheckGetID(h.F(r), h.Cols[o], id) {
						return
					}
				}
				key := ""
				if o != n && len(h.Cols[o].Docs) > 0 {
					key = fmt.Sprint(i, s, o)
				}
				t.Eval("collections compared after an operation on another", key)
			}
			if !h.CheckList(h.F(r)) {
				return
			}
		}
		if i < 2 {
			t.Sample(map[string]interface{}{"names": names, "history": head(h.Trace, 10)})
		}
	})
	for _, order := range [][]string{{"docs", "docs1"}, {"docs1", "docs"}} {
		knownNames(t, order)
	}
}

// knownNames: the stored nodes of a collection and the collection whose name is
// followed by a digit share names in the store.
func knownNames(t *mon.T, names []string) {
	key := "names " + strings.Join(names, " ")
	r := t.Rand(key, 0)
	h := newHist(t, r, 4)
	if h == nil {
		return
	}
	defer func() { h.done() }()
	f := h.fronts[0]
	what := ""
	ids := map[string][]string{}
	for _, n := range names {
		if err := f.Create(n, map[string]string{}); err != nil {
			what += fmt.Sprintf(" %q cannot be created: %v;", n, err)
			continue
		}
		var docs []Doc
		for k := 0; k < 25; k++ {
			docs = append(docs, Doc{ID: UUID(r, k+1), Props: map[string]interface{}{"in": n}, Vec: RandVec(r, 4)})
			ids[n] = append(ids[n], docs[k].ID)
		}
		if err := f.Add(n, nil, docs); err != nil {
			what += fmt.Sprintf(" documents cannot be added to %q: %v;", n, err)
		}
	}
	h.S.Stop()
	s, err := h.S.Restart(nil)
	if err != nil {
		h.bad("restart", "FaVe does not start on its own data: %v", err)
		return
	}
	h.attach(s)
	f = h.fronts[0]
	for _, n := range names {
		hits, err := f.NearVec(n, RandVec(r, 4), 5, 0)
		if err != nil || len(hits) != len(ids[n]) {
			what += fmt.Sprintf(" %d of the %d documents of %q are found (%v);", len(hits), len(ids[n]), n, err)
		}
		for _, x := range hits {
			if !has(ids[n], x.ID) || x.Props["in"] != n {
				h.bad("crossed", "search in %q found %q, of %v", n, x.ID, x.Props["in"])
				return
			}
		}
	}
	if what != "" {
		t.Known(key, map[string]string{"what": what}, "collections %q, 25 documents each, restart:%s", names, what)
	}
}

// gone judges that a collection does not exist: nothing can be added, looked up
// or found in it.
func (h *hist) gone(name string, ids []string) bool {
	for _, f := range h.fronts {
		if hits, err := f.NearVec(name, RandVec(h.r, h.dim), 5, 0); err == nil && len(hits) > 0 {
			h.bad("ghost", "%s search in collection %q, which does not exist, found %d documents", f.Name(), name, len(hits))
			return false
		} else if err == nil || errors.Is(err, errDropped) {
			h.bad("ghost", "%s search in collection %q, which does not exist, answered %v", f.Name(), name, err)
			return false
		}
		for _, id := range ids {
			if hit, err := f.Get(name, "id", id); err == nil || errors.Is(err, errDropped) {
				h.bad("ghost", "%s lookup in collection %q, which does not exist, answered %v %v", f.Name(), name, hit, err)
				return false
			}
		}
		if err := f.Add(name, nil, []Doc{{ID: UUID(h.r, 77), Props: map[string]interface{}{"title": "t", "n": 1.0}, Vec: RandVec(h.r, h.dim)}}); err == nil || errors.Is(err, errDropped) {
			h.bad("ghost", "%s add to collection %q, which does not exist, answered %v", f.Name(), name, err)
			return false
		}
	}
	return true
}

// C08: collections exist from the acknowledged create to the acknowledged delete.
func c08(t *mon.T) {
	t.Rule = "the list of collections, or the content or absence of one, compared with the history of creates and deletes; distinct by history and step"
	t.Par("c08", t.N(240, 2000), func(i int, r *rand.Rand) {
		h := newHist(t, r, 4)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		sets := [][]string{{"one", "two", "oneTwo"}, {"events", "avenue", "fave"}, {"_a", "fave_", "fave_fave_x"}, {"a b", "ä/ö", "x.y"}, {"vec", "Vec", "hnswId"}}
		names := sets[i%len(sets)]
		used := map[string]int{} // documents ever added to collections of this name
		inc := map[string]int{}  // and to the present one
		spent := map[string]bool{}
		idsOf := map[string][]string{}
		dimOf := map[string]int{}
		idxs := []map[string]string{stdIdx, {"title": "string", "n": "number", "tags": "list"}, {"title": "string", "n": "number", "attr": "map"}}
		for s := 0; s < 20; s++ {
			n := names[r.Intn(len(names))]
			f := h.F(r)
			switch r.Intn(6) {
			case 0, 1: // create, or create again, possibly with other indexes: keeps what is there
				if h.Cols[n] == nil && spent[n] {
					continue
				}
				if h.Cols[n] != nil {
					t.Count("creates of an existing collection", 1)
				} else if used[n] > 0 {
					t.Count("creates of a deleted collection", 1)
				}
				if h.Cols[n] == nil {
					dimOf[n] = []int{2, 4, 8, 11}[r.Intn(4)] // another one than last time
				}
				if !h.Create(f, n, idxs[r.Intn(len(idxs))]) {
					return
				}
			case 2, 3: // delete, also of what does not exist
				if h.Cols[n] == nil {
					h.tr("%s delete %q (does not exist)", f.Name(), n)
					if err := f.Delete(n); errors.Is(err, errDropped) {
						h.bad("dropped", "deleting a collection that does not exist: %v", err)
						return
					}
				} else {
					if !h.DeleteCol(f, n) {
						return
					}
					t.Count("deletes of a collection", 1)
					if inc[n] > 1 {
						spent[n] = true // known finding: not created again
					}
					inc[n] = 0
				}
			default:
				if h.Cols[n] == nil {
					continue
				}
				k := 1 + r.Intn(3)
				if i%4 != 0 && s < 16 {
					k = 1 - inc[n] // at most one, so that the name can be used again
				}
				if k <= 0 {
					continue
				}
				var docs []Doc
				for ; k > 0; k-- {
					d := h.freshDoc(n)
					d.Vec = RandVec(r, dimOf[n])
					d.Props["tags"] = []interface{}{"x", "y"}
					d.Props["attr"] = map[string]interface{}{"k": "v"}
					docs = append(docs, d)
					idsOf[n] = append(idsOf[n], d.ID)
				}
				used[n] += len(docs)
				inc[n] += len(docs)
				if !h.Add(f, n, nil, docs) {
					return
				}
			}
			if r.Intn(4) == 0 && !h.Restart(r.Intn(2) == 0) {
				return
			}
			if !h.CheckList(h.F(r)) {
				return
			}
			t.Eval("lists of collections compared", fmt.Sprint(i, s))
			for _, n := range names {
				if c := h.Cols[n]; c != nil {
					if !h.CheckAll(h.F(r), c) {
						return
					}
					for _, id := range idsOf[n] { // of an earlier collection of this name
						if c.Docs[id] == nil && !h.CheckGetID(h.F(r), c, id) {
							return
						}
					}
					t.Eval("collections compared", fmt.Sprint(i, s, n))
				} else {
					if !h.gone(n, idsOf[n]) {
						return
					}
					key := ""
					if used[n] > 0 {
						key = fmt.Sprint(i, s, n)
					}
					t.Eval("absent collections judged", key)
				}
			}
		}
		if i < 2 {
			t.Sample(map[string]interface{}{"history": head(h.Trace, 14)})
		}
	})
	otherDim(t, t.N(24, 200))
	manyCols(t, t.N(6, 40))
	foreign(t, t.N(6, 60))
	knownRecreate(t)
}

// foreign: what another program keeps in the pod is no collection, and stays.
func foreign(t *mon.T, n int) {
	t.Par("c08foreign", n, func(i int, r *rand.Rand) {
		h := newHist(t, r, 3)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		names := []string{"notes", "myfave_notes", "fave", "Fave_x", "fav_e", "favenotes"}
		mine := append(names, "a")[r.Intn(len(names)+1)]
		if !h.Create(h.F(r), "base", stdIdx) || i%2 == 0 && (!h.Create(h.F(r), mine, stdIdx) || !h.addBatch(mine, 2)) {
			return
		}
		// the other program has a session of its own
		other := func(f func(api *dfs.API, session string) error) bool {
			ui, err := h.S.API.LoginUserV2(fx.Username, fx.Password, "")
			if err == nil {
				session := ui.UserInfo.GetSessionId()
				if _, err = h.S.API.OpenPod(fx.Pod, session); err == nil {
					err = f(h.S.API, session)
				}
			}
			if err != nil {
				h.bad("foreign", "another program's document stores in the pod: %v", err)
			}
			return err == nil
		}
		if !other(func(api *dfs.API, session string) error {
			for _, n := range names {
				if err := api.DocCreate(session, fx.Pod, n, map[string]collection.IndexType{"own": collection.StringIndex}, true); err != nil {
					return fmt.Errorf("create %q: %w", n, err)
				}
				if err := api.DocOpen(session, fx.Pod, n); err != nil {
					return fmt.Errorf("open %q: %w", n, err)
				}
				if err := api.DocPut(session, fx.Pod, n, []byte(fmt.Sprintf(`{"id":"1","own":%q}`, n))); err != nil {
					return fmt.Errorf("put into %q: %w", n, err)
				}
			}
			return api.CommitPodFeeds(fx.Pod, session)
		}) {
			return
		}
		for s := 0; s < 3; s++ {
			if !h.Restart(r.Intn(2) == 0) || !h.CheckList(h.F(r)) {
				return
			}
			if !other(func(api *dfs.API, session string) error {
				for _, n := range names {
					if err := api.DocOpen(session, fx.Pod, n); err != nil {
						return fmt.Errorf("open %q: %w", n, err)
					}
					got, err := api.DocGet(session, fx.Pod, n, "1")
					if err != nil || !strings.Contains(string(got), fmt.Sprintf(`"own":%q`, n)) {
						return fmt.Errorf("%q has %q, %v", n, got, err)
					}
					t.Eval("stores of other programs compared", fmt.Sprint(i, s, n))
				}
				return nil
			}) {
				return
			}
			switch s {
			case 0:
				if h.Cols[mine] == nil && !h.Create(h.F(r), mine, stdIdx) || !h.addBatch(mine, 4) {
					return
				}
			case 1:
				if !h.CheckAll(h.F(r), h.Cols[mine]) || !h.DeleteCol(h.F(r), mine) {
					return
				}
			}
		}
	})
}

// manyCols: a list of dozens of collections, each with its own content.
func manyCols(t *mon.T, n int) {
	t.Par("c08many", n, func(i int, r *rand.Rand) {
		h := newHist(t, r, 4)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		var names []string
		for k, n := 0, 14+r.Intn(26); k < n; k++ {
			names = append(names, fmt.Sprintf("col%c%c", 'a'+k/26, 'a'+k%26))
		}
		for _, k := range r.Perm(len(names)) {
			if len(h.Cols) >= 20 {
				// fairOS keeps the list of a pod's stores in one chunk: when this
				// is full, another one is refused and changes nothing
				f := h.F(r)
				if err := f.Create(names[k], stdIdx); err != nil {
					h.tr("%s create %q: %v", f.Name(), names[k], err)
					if errors.Is(err, errDropped) {
						h.bad("dropped", "creating more collections than the pod can hold: %v", err)
						return
					}
					t.Count("creates refused by a full pod", 1)
					if !h.CheckList(h.F(r)) {
						return
					}
					continue
				}
			}
			if !h.Create(h.F(r), names[k], stdIdx) || r.Intn(3) == 0 && !h.addBatch(names[k], 1+r.Intn(3)) {
				return
			}
		}
		for round := 0; round < 3; round++ {
			if !h.CheckList(h.fronts[0]) || !h.CheckList(h.fronts[1]) {
				return
			}
			t.Eval("long lists of collections", fmt.Sprint(i, round))
			for _, n := range h.names() {
				if r.Intn(3) == 0 && !h.CheckAll(h.F(r), h.Cols[n]) {
					return
				}
			}
			for k := 0; k < 4; k++ {
				if !h.DeleteCol(h.F(r), h.names()[r.Intn(len(h.Cols))]) {
					return
				}
			}
			if round == 1 && !h.Restart(r.Intn(2) == 0) {
				return
			}
		}
	})
}

var oddText = []string{"\t\"quoted\" <tag> & more\n", " \x01\x07\x0b\x7f ", "\\u0041 \\n \\", " \u2028\u200b\ufeff ", "'%s' {\"query\":[]} \r\n", strings.Repeat(" longer", 3000)}

// otherDim: what a deleted collection held does not matter to one created under
// its name in the same process, whose vectors may be of another length.
func otherDim(t *mon.T, n int) {
	t.Par("c08dim", n, func(i int, r *rand.Rand) {
		h := newHist(t, r, 4)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		f := h.F(r)
		if !h.Create(f, "col", map[string]string{}) {
			return
		}
		var docs []Doc
		for k := 0; k < 50+r.Intn(50); k++ {
			docs = append(docs, Doc{ID: UUID(r, k+1), Props: map[string]interface{}{"v": "old"}, Vec: RandVec(r, 4)})
		}
		if !h.Add(f, "col", nil, docs) || !h.CheckAll(f, h.Cols["col"]) || !h.DeleteCol(f, "col") || !h.Create(f, "col", map[string]string{}) {
			return
		}
		// only one: see the known finding
		if !h.Add(f, "col", nil, []Doc{{ID: UUID(r, 200), Props: map[string]interface{}{"v": "new"}, Vec: RandVec(r, []int{4, 7, 16}[i%3])}}) {
			return
		}
		c := h.Cols["col"]
		for k := 0; k < 2; k++ {
			if !h.CheckAll(h.F(r), c) {
				return
			}
			t.Eval("collections created anew with vectors of another length", fmt.Sprint(i, k))
			if k == 0 && !h.Restart(false) {
				return
			}
		}
	})
}

// knownRecreate: a name whose collection held several documents cannot be reused.
func knownRecreate(t *mon.T) {
	r := t.Rand("known-recreate", 0)
	h := newHist(t, r, 4)
	if h == nil {
		return
	}
	defer func() { h.done() }()
	f := h.fronts[0]
	if !h.Create(f, "again", map[string]string{}) {
		return
	}
	mk := func(n int, v float64) (docs []Doc) {
		for k := 0; k < n; k++ {
			docs = append(docs, Doc{ID: fmt.Sprintf("00000000-0000-4000-8000-%012x", k+1), Props: map[string]interface{}{"v": v}, Vec: RandVec(r, 4)})
		}
		return docs
	}
	old, now := mk(2, 1), mk(5, 2)
	if !h.Add(f, "again", nil, old) || !h.DeleteCol(f, "again") || !h.Create(f, "again", map[string]string{}) {
		return
	}
	if hits, err := f.NearVec("again", RandVec(r, 4), 5, 0); err != nil || len(hits) != 0 {
		h.bad("ghost", "a collection created anew after a delete is not empty: %d hits, %v", len(hits), err)
		return
	}
	what := ""
	if err := f.Add("again", nil, now); err != nil {
		what = err.Error()
	}
	h.S.Stop()
	s, err := h.S.Restart(nil)
	if err != nil {
		h.bad("restart", "FaVe does not start on its own data: %v", err)
		return
	}
	h.attach(s)
	f = h.fronts[0]
	for _, d := range now {
		if hit, err := f.Get("again", "id", d.ID); err != nil {
			what += " new document " + d.ID + " is lost;"
		} else if hit.Props["v"] != 2.0 {
			what += " deleted document " + d.ID + " is back;"
		}
	}
	if what != "" {
		t.Known("recreate after 2 documents", map[string]string{"what": what}, "create, add 2, delete, create, add 5, restart: %s", what)
	}
}

// C09: adding a document under an existing id replaces the document.
func c09(t *mon.T) {
	t.Rule = "one replaced document, judged by lookups of the old and new values, by searches at the old and new vector and by a search for everything; distinct by history and document version"
	t.Par("c09", t.N(220, 2000), func(i int, r *rand.Rand) {
		h := newHist(t, r, dims(r))
		if h == nil {
			return
		}
		defer func() { h.done() }()
		if !h.Create(h.F(r), "c", stdIdx) {
			return
		}
		c := h.Cols["c"]
		n := 2 + r.Intn(6)
		var ids []string
		for k := 0; k < n; k++ {
			ids = append(ids, UUID(r, k+1))
		}
		for s := 0; s < 5; s++ {
			old := map[string]*MDoc{}
			var docs []Doc
			for k := 0; k < 1+r.Intn(n+1) && c.Added+len(docs) < smallMax; k++ {
				id := ids[r.Intn(n)] // also twice in one request: the last one counts
				d := h.newVersion(id)
				if d.Vec == nil {
					d.Vec = RandVec(r, h.dim)
				}
				if m := c.Docs[id]; m != nil {
					old[id] = m
					if r.Intn(4) == 0 {
						d.Vec = m.V // same vector, other properties
					}
					if r.Intn(4) == 0 {
						d.Props["body"] = m.Props["body"]
					}
				}
				docs = append(docs, d)
			}
			if len(docs) == 0 {
				break
			}
			// within one request
			first := map[string]Doc{}
			for _, d := range docs {
				if p, ok := first[d.ID]; ok && old[d.ID] == nil {
					m := &MDoc{Doc: p, V: p.Vec}
					old[d.ID] = m
				}
				first[d.ID] = d
			}
			if !h.Add(h.F(r), "c", nil, docs) {
				return
			}
			if r.Intn(3) == 0 && !h.Restart(r.Intn(2) == 0) {
				return
			}
			for _, id := range sortedKeys(old) {
				o := old[id]
				f := h.F(r)
				if !h.CheckGetID(f, c, id) || !h.CheckSelf(f, c, c.Docs[id]) {
					return
				}
				ot := o.Props["title"].(string)
				if hit, err := f.Get("c", "title", ot); err == nil {
					h.bad("stale", "document %q was replaced, and still found by its former title %q: %s", id, ot, canon(hit.Props))
					return
				}
				hits, err := f.NearVec("c", o.V, 0.05, 0)
				if err != nil {
					h.bad("search-failed", "%v", err)
					return
				}
				if err := c.Sound(hits, o.V, 0.05, 0); err != nil {
					h.bad("stale", "after %q was replaced, search at its former vector: %v", id, err)
					return
				}
				nt := c.Docs[id].Props["title"].(string)
				if hit, err := f.Get("c", "title", nt); err != nil || hit.ID != id {
					h.bad("lost", "document %q was replaced, and is not found by its title %q: %v", id, nt, err)
					return
				}
				t.Eval("replacements judged", fmt.Sprint(i, s, id))
			}
			if !h.CheckAll(h.F(r), c) {
				return
			}
			// limits count documents, not vectors
			q := h.query(c)
			for _, limit := range []int{1, 2, len(c.Docs), len(c.Docs) + 1} {
				hits, err := h.F(r).NearVec("c", q, 3, limit)
				if err == nil {
					err = c.Sound(hits, q, 3, limit)
				}
				if err == nil {
					err = c.Complete(hits, q, 3, limit)
				}
				if err != nil {
					h.bad("limit", "search with limit %d after replacements: %v", limit, err)
					return
				}
				t.Eval("limited searches judged", fmt.Sprint(i, s, limit))
			}
		}
		t.Max("vectors of replaced documents", int64(c.Added-len(c.Docs)))
		if i < 2 {
			t.Sample(map[string]interface{}{"history": head(h.Trace, 10)})
		}
	})
	knownReplace(t)
}

func sortedKeys(m map[string]*MDoc) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sortStrings(k)
	return k
}

// knownReplace runs the replacements that are known to go wrong.
func knownReplace(t *mon.T) {
	run := func(key string, f func(h *hist, c Front) string) {
		r := t.Rand("known-replace-"+key, 0)
		h := newHist(t, r, 4)
		if h == nil {
			return
		}
		defer func() { h.done() }()
		if what := f(h, h.fronts[0]); what != "" {
			t.Known(key, map[string]string{"what": what}, "%s", what)
		}
	}
	doc := func(h *hist, k int, title string) Doc {
		return Doc{ID: UUID(rand.New(rand.NewSource(int64(k))), k), Props: map[string]interface{}{"title": title}, Vec: RandVec(h.r, 4)}
	}
	run("shared value", func(h *hist, f Front) string {
		_ = f.Create("c", map[string]string{"title": "string"})
		if err := f.Add("c", nil, []Doc{doc(h, 1, "same"), doc(h, 2, "same")}); err != nil {
			return err.Error()
		}
		if err := f.Add("c", nil, []Doc{doc(h, 1, "other")}); err != nil {
			return err.Error()
		}
		if _, err := f.Get("c", "title", "same"); err != nil {
			return "two documents with one title, one is added again with another title: the other is not found by its title anymore: " + err.Error()
		}
		if err := f.Add("c", nil, []Doc{doc(h, 2, "third")}); err != nil {
			return "two documents with one title, one is added again: the other cannot be added again: " + err.Error()
		}
		return ""
	})
	run("prefix values", func(h *hist, f Front) string {
		_ = f.Create("c", map[string]string{"title": "string"})
		for _, x := range []struct {
			k     int
			title string
		}{{2, "b"}, {1, "ba"}, {1, "abd"}, {2, "abc"}} {
			if err := f.Add("c", nil, []Doc{doc(h, x.k, x.title)}); err != nil {
				return fmt.Sprintf("titles 2=b 1=ba 1=abd 2=abc, document %d cannot be added as %q: %v", x.k, x.title, err)
			}
		}
		return ""
	})
	run("list values", func(h *hist, f Front) string {
		_ = f.Create("c", map[string]string{"tags": "list"})
		d := doc(h, 1, "x")
		d.Props["tags"] = []interface{}{"red"}
		if err := f.Add("c", nil, []Doc{d}); err != nil {
			return err.Error()
		}
		d.Props["tags"] = []interface{}{"blue"}
		if err := f.Add("c", nil, []Doc{d}); err != nil {
			return err.Error()
		}
		if hit, err := f.Get("c", "tags", "red"); err == nil {
			return "a document added again with other list values is still found by the former ones: " + canon(hit.Props)
		}
		return ""
	})
	run("vectorless", func(h *hist, f Front) string {
		_ = f.Create("c", map[string]string{})
		x, y := doc(h, 1, "x"), doc(h, 2, "y")
		x.Vec, y.Vec = nil, nil
		if err := f.Add("c", nil, []Doc{x, y}); err != nil {
			return err.Error()
		}
		x.Vec = RandVec(h.r, 4)
		if err := f.Add("c", nil, []Doc{x}); err != nil {
			return err.Error()
		}
		if err := f.Add("c", nil, []Doc{y}); err != nil {
			return "two documents without vector, one is added again with one: the other cannot be added again: " + err.Error()
		}
		return ""
	})
}
