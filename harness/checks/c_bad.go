package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"faveverif/fx"
	"faveverif/mon"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

func init() {
	All["C14"] = c14
}

// badReq is a request that cannot be served: run returns the error it is
// answered with, nil for success.
type badReq struct {
	name string
	run  func(h *hist, r *rand.Rand) error
}

// must be JSON that says what is wrong
func restAnswer(res fx.Resp) error {
	if res.Err != nil {
		return fmt.Errorf("%w (%v)", errDropped, res.Err)
	}
	if res.Status == 200 {
		return nil
	}
	return restErr{res.Status, string(res.Body)}
}

// wrongAnswer judges how a request that cannot be served was answered.
func wrongAnswer(err error) string {
	if err == nil {
		return "it is answered with success"
	}
	if errors.Is(err, errDropped) {
		return "it is not answered: " + err.Error()
	}
	if re, ok := err.(restErr); ok {
		if re.status < 400 || re.status > 599 {
			return fmt.Sprintf("it is answered with status %d", re.status)
		}
		var x interface{}
		if json.Unmarshal([]byte(re.body), &x) != nil {
			return fmt.Sprintf("the answer is not JSON: %.200q", re.body)
		}
	}
	return ""
}

func guardCall(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%w (panic: %v)", errDropped, p)
		}
	}()
	return f()
}

// addRaw adds documents with arbitrary properties, over client or REST.
func addRaw(h *hist, r *rand.Rand, vectorize []string, docs ...*document.Document) error {
	if r.Intn(2) == 0 {
		return guardCall(func() error { return h.S.Doc.AddDocuments(h.col(), vectorize, docs...) })
	}
	ds := []interface{}{}
	for _, d := range docs {
		if d == nil {
			ds = append(ds, nil)
			continue
		}
		m := map[string]interface{}{"properties": d.Properties}
		if d.ID != "" {
			m["id"] = d.ID
		}
		ds = append(ds, m)
	}
	if vectorize == nil {
		vectorize = []string{}
	}
	return restAnswer(h.S.Req("POST", "/documents", map[string]interface{}{"name": h.col(), "propertiesToVectorize": vectorize, "documents": ds}))
}

func (h *hist) col() string {
	if h.lists {
		return "lists"
	}
	return "docs"
}

// inLists makes what follows go into the collection with a list and a map index.
func (h *hist) inLists() func() {
	h.lists = true
	return func() { h.lists = false }
}

// good makes a valid document for the raw interface.
func (h *hist) good(r *rand.Rand) *document.Document {
	d := h.freshDoc("docs")
	p := map[string]interface{}{}
	for k, v := range d.Props {
		p[k] = v
	}
	v := RandVec(r, h.dim)
	l := make([]interface{}, len(v))
	for i, x := range v {
		l[i] = float64(x)
	}
	p["vector"] = l
	if h.lists {
		p["tags"] = []interface{}{d.ID}
		p["attr"] = map[string]interface{}{"a": d.ID}
	}
	return &document.Document{ID: d.ID, Properties: p}
}

// among hands in a bad document with good ones before and after it.
func among(h *hist, r *rand.Rand, vectorize []string, bad func(d *document.Document) *document.Document) error {
	n := 1 + r.Intn(4)
	k := r.Intn(n)
	docs := make([]*document.Document, n)
	for i := range docs {
		docs[i] = h.good(r)
		if i == k {
			docs[i] = bad(docs[i])
		}
	}
	return addRaw(h, r, vectorize, docs...)
}

func setProp(k string, v interface{}) func(d *document.Document) *document.Document {
	return func(d *document.Document) *document.Document {
		if v == nil {
			delete(d.Properties, k)
		} else {
			d.Properties[k] = v
		}
		return d
	}
}

func floats(n int) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		l[i] = float64(i) + 0.5
	}
	return l
}

// vecOther is a vector that is not one of the collection.
func vecOther(h *hist, r *rand.Rand) interface{} {
	l := floats(h.dim)
	switch r.Intn(9) {
	case 0:
		return []interface{}{}
	case 1:
		return "0.1 0.2 0.3"
	case 2:
		l[r.Intn(len(l))] = "0.5"
		return l
	case 3:
		l[r.Intn(len(l))] = nil
		return l
	case 4:
		l[r.Intn(len(l))] = []interface{}{1.0}
		return l
	case 5:
		return map[string]interface{}{"0": 1.0}
	case 6:
		l[r.Intn(len(l))] = 1e300 // not a float32
		return l
	case 7:
		return true
	}
	return 1.5
}

func post(path string, body interface{}) func(h *hist, r *rand.Rand) error {
	return func(h *hist, r *rand.Rand) error { return restAnswer(h.S.Req("POST", path, body)) }
}

var badReqs = []badReq{
	{"document without id", func(h *hist, r *rand.Rand) error {
		return among(h, r, nil, func(d *document.Document) *document.Document { d.ID = ""; return d })
	}},
	{"null document", func(h *hist, r *rand.Rand) error {
		return among(h, r, nil, func(d *document.Document) *document.Document { return nil })
	}},
	{"document without properties", func(h *hist, r *rand.Rand) error {
		return among(h, r, nil, func(d *document.Document) *document.Document { d.Properties = nil; return d })
	}},
	{"vector that is none", func(h *hist, r *rand.Rand) error { return among(h, r, nil, setProp("vector", vecOther(h, r))) }},
	{"vector of another length", func(h *hist, r *rand.Rand) error {
		return among(h, r, nil, setProp("vector", floats([]int{h.dim - 1, h.dim + 1, 2 * h.dim, h.dim + 8}[r.Intn(4)])))
	}},
	{"vectors of another length", func(h *hist, r *rand.Rand) error {
		docs := []*document.Document{h.good(r), h.good(r), h.good(r)}[:1+r.Intn(3)]
		n := []int{h.dim - 1, h.dim + 1, 2 * h.dim}[r.Intn(3)]
		for _, d := range docs {
			d.Properties["vector"] = floats(n)
		}
		return addRaw(h, r, nil, docs...)
	}},
	{"vector with a value that is not a number", func(h *hist, r *rand.Rand) error {
		v := RandVec(r, h.dim)
		v[r.Intn(len(v))] = []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}[r.Intn(3)]
		docs := []*document.Document{h.good(r), h.good(r)}
		docs[r.Intn(2)].Properties["vector"] = v
		return guardCall(func() error { return h.S.Doc.AddDocuments("docs", nil, docs...) })
	}},
	{"indexed property missing", func(h *hist, r *rand.Rand) error {
		return among(h, r, nil, setProp([]string{"title", "n"}[r.Intn(2)], nil))
	}},
	{"indexed property null", func(h *hist, r *rand.Rand) error {
		return among(h, r, nil, func(d *document.Document) *document.Document {
			d.Properties[[]string{"title", "n"}[r.Intn(2)]] = nil
			return d
		})
	}},
	{"indexed list with another entry than texts", func(h *hist, r *rand.Rand) error {
		defer h.inLists()()
		return among(h, r, nil, func(d *document.Document) *document.Document {
			l := []interface{}{"a", "b", "c"}[:1+r.Intn(3)]
			l[r.Intn(len(l))] = []interface{}{1.0, true, nil, []interface{}{"a"}, map[string]interface{}{"a": "b"}}[r.Intn(5)]
			d.Properties["tags"] = l
			return d
		})
	}},
	{"indexed list that is none", func(h *hist, r *rand.Rand) error {
		defer h.inLists()()
		return among(h, r, nil, setProp("tags", []interface{}{1.0, true, "a", map[string]interface{}{"a": "b"}}[r.Intn(4)]))
	}},
	{"indexed map with another entry than texts", func(h *hist, r *rand.Rand) error {
		defer h.inLists()()
		return among(h, r, nil, func(d *document.Document) *document.Document {
			m := map[string]interface{}{"a": "1", "b": "2", "c": "3"}
			m[[]string{"a", "b", "c"}[r.Intn(3)]] = []interface{}{1.0, true, nil, []interface{}{"a"}, map[string]interface{}{"a": "b"}}[r.Intn(5)]
			d.Properties["attr"] = m
			return d
		})
	}},
	{"indexed map that is none", func(h *hist, r *rand.Rand) error {
		defer h.inLists()()
		return among(h, r, nil, setProp("attr", []interface{}{1.0, true, "a", []interface{}{"a"}}[r.Intn(4)]))
	}},
	{"indexed string of another type", func(h *hist, r *rand.Rand) error {
		return among(h, r, nil, setProp("title", []interface{}{1.0, true, []interface{}{"a"}, map[string]interface{}{"a": "b"}}[r.Intn(4)]))
	}},
	{"indexed number of another type", func(h *hist, r *rand.Rand) error {
		return among(h, r, nil, setProp("n", []interface{}{"1", true, []interface{}{1.0}, map[string]interface{}{"a": "b"}}[r.Intn(4)]))
	}},
	{"property to vectorize that is no text", func(h *hist, r *rand.Rand) error {
		return among(h, r, []string{"body", "extra"}, func(d *document.Document) *document.Document {
			delete(d.Properties, "vector")
			d.Properties["extra"] = []interface{}{1.5, true, []interface{}{"a"}, map[string]interface{}{"a": "b"}}[r.Intn(4)]
			return d
		})
	}},
	{"add to a collection that does not exist", func(h *hist, r *rand.Rand) error {
		return h.F(r).Add("nosuch", nil, []Doc{{ID: UUID(r, 1), Props: map[string]interface{}{"title": "a", "n": 1.0}, Vec: RandVec(r, h.dim)}})
	}},
	{"search of a collection that does not exist", func(h *hist, r *rand.Rand) error {
		_, err := h.F(r).NearVec("nosuch", RandVec(r, h.dim), 1, 5)
		return err
	}},
	{"text search of a collection that does not exist", func(h *hist, r *rand.Rand) error {
		_, err := h.F(r).NearText("nosuch", "a text", 1, 5)
		return err
	}},
	{"lookup in a collection that does not exist", func(h *hist, r *rand.Rand) error {
		_, err := h.F(r).Get("nosuch", "id", UUID(r, 1))
		return err
	}},
	{"lookup by a property that is not indexed", func(h *hist, r *rand.Rand) error {
		_, err := h.F(r).Get("docs", "body", "anything")
		return err
	}},
	{"lookup of a number that is none", func(h *hist, r *rand.Rand) error {
		_, err := h.F(r).Get("docs", "n", []string{"x", "1x", "", "1.5", "0x10", "--1"}[r.Intn(6)])
		return err
	}},
	{"search by a vector of another length", func(h *hist, r *rand.Rand) error {
		_, err := h.F(r).NearVec("docs", RandVec(r, []int{h.dim - 1, h.dim + 1, 3 * h.dim}[r.Intn(3)]), 2, 5)
		return err
	}},
	{"search by an empty vector", func(h *hist, r *rand.Rand) error {
		_, err := h.F(r).NearVec("docs", []float32{}, 2, 5)
		return err
	}},
	{"search by a vector with a value that is not a number", func(h *hist, r *rand.Rand) error {
		v := RandVec(r, h.dim)
		v[r.Intn(len(v))] = []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}[r.Intn(3)]
		return guardCall(func() error { _, _, err := h.S.Doc.GetNearDocumentsByVector("docs", v, 2, 5); return err })
	}},
	{"negative limit", func(h *hist, r *rand.Rand) error {
		_, err := h.F(r).NearVec("docs", RandVec(r, h.dim), 2, -1-r.Intn(5))
		return err
	}},
	{"negative limit of a text search", func(h *hist, r *rand.Rand) error {
		_, err := h.F(r).NearText("docs", "a text", 2, -1-r.Intn(5))
		return err
	}},
	{"properties that are no object", post("/documents", map[string]interface{}{"name": "docs", "propertiesToVectorize": []string{}, "documents": []interface{}{map[string]interface{}{"id": "00000000-0000-4000-8000-00000000ffff", "properties": "text"}}})},
	{"add without name", post("/documents", map[string]interface{}{"propertiesToVectorize": []string{}, "documents": []interface{}{}})},
	{"add without documents", post("/documents", map[string]interface{}{"name": "docs", "propertiesToVectorize": []string{}})},
	{"add without properties to vectorize", post("/documents", map[string]interface{}{"name": "docs", "documents": []interface{}{map[string]interface{}{"id": "00000000-0000-4000-8000-00000000fffe", "properties": map[string]interface{}{"title": "zz", "n": 5, "vector": []float32{1, 2}}}}})},
	{"id that is no uuid", func(h *hist, r *rand.Rand) error {
		d := h.good(r)
		return restAnswer(h.S.Req("POST", "/documents", map[string]interface{}{"name": "docs", "propertiesToVectorize": []string{}, "documents": []interface{}{map[string]interface{}{"id": "not a uuid", "properties": d.Properties}}}))
	}},
	{"search without name", post("/nearest-documents-by-vector", map[string]interface{}{"vector": []float32{1}, "distance": 1, "limit": 1})},
	{"search without vector", post("/nearest-documents-by-vector", map[string]interface{}{"name": "docs", "distance": 1, "limit": 1})},
	{"text search without name", post("/nearest-documents", map[string]interface{}{"text": "a", "distance": 1, "limit": 1})},
	{"text search without text", post("/nearest-documents", map[string]interface{}{"name": "docs", "distance": 1, "limit": 1})},
	{"create without name", post("/collections", map[string]interface{}{"indexes": []interface{}{map[string]string{"fieldName": "a", "fieldType": "string"}}})},
	{"create without indexes", post("/collections", map[string]interface{}{"name": "nosuch"})},
	{"create with an index of no type", post("/collections", map[string]interface{}{"name": "nosuch", "indexes": []interface{}{map[string]string{"fieldName": "a", "fieldType": "text"}}})},
	{"create with a null index", post("/collections", map[string]interface{}{"name": "nosuch", "indexes": []interface{}{nil}})},
	{"create with an index of no field", post("/collections", map[string]interface{}{"name": "nosuch", "indexes": []interface{}{map[string]string{"fieldType": "string"}}})},
	{"lookup without collection", func(h *hist, r *rand.Rand) error {
		return restAnswer(h.S.Req("GET", "/documents?property=id&value=a", nil))
	}},
	{"lookup in a collection of no name", func(h *hist, r *rand.Rand) error {
		return restAnswer(h.S.Req("GET", "/documents?collection=&property=id&value=a", nil))
	}},
	{"search in a collection of no name", post("/nearest-documents-by-vector", map[string]interface{}{"name": "", "vector": []float32{1}, "distance": 1, "limit": 1})},
	{"text search in a collection of no name", post("/nearest-documents", map[string]interface{}{"name": "", "text": "a", "distance": 1, "limit": 1})},
	{"add to a collection of no name", post("/documents", map[string]interface{}{"name": "", "propertiesToVectorize": []string{}, "documents": []interface{}{map[string]interface{}{"id": "00000000-0000-4000-8000-00000000fffd", "properties": map[string]interface{}{"title": "zz", "n": 5, "vector": []float32{1, 2}}}}})},
	{"create of a collection of no name", post("/collections", map[string]interface{}{"name": "", "indexes": []interface{}{map[string]string{"fieldName": "a", "fieldType": "string"}}})},
	{"body that is no JSON", func(h *hist, r *rand.Rand) error {
		path := []string{"/documents", "/collections", "/nearest-documents", "/nearest-documents-by-vector"}[r.Intn(4)]
		return restAnswer(h.S.Req("POST", path, []string{"", "{", "null", "[]", "\"x\"", "1", "{\"name\":1}", "{\"name\":\"docs\",", "\x00\xff"}[r.Intn(9)]))
	}},
	{"path that does not exist", func(h *hist, r *rand.Rand) error {
		return restAnswer(h.S.Req("GET", []string{"/nosuch", "/documents/1", "/collections/docs/x"}[r.Intn(3)], nil))
	}},
	{"method that does not exist", func(h *hist, r *rand.Rand) error {
		return restAnswer(h.S.Req("PUT", []string{"/documents", "/collections"}[r.Intn(2)], map[string]string{}))
	}},
	{"vectorizer that fails for a document", func(h *hist, r *rand.Rand) error {
		defer h.breakVectorizer(r, "broken")()
		return among(h, r, []string{"body"}, func(d *document.Document) *document.Document {
			delete(d.Properties, "vector")
			d.Properties["body"] = "broken"
			return d
		})
	}},
	{"vectorizer that fails for a search", func(h *hist, r *rand.Rand) error {
		defer h.breakVectorizer(r, "broken")()
		_, err := h.F(r).NearText("docs", "broken", 2, 5)
		return err
	}},
}

// breakVectorizer makes the vectorizer fail for texts with a word in them.
func (h *hist) breakVectorizer(r *rand.Rand, word string) func() {
	how := r.Intn(11)
	good := func(text string) (int, []byte) {
		b, _ := json.Marshal(map[string][]float32{"vector": fx.TextVec(text, h.dim)})
		return 200, b
	}
	h.S.Vec.SetRaw(func(text string) (int, []byte) {
		if !strings.Contains(text, word) {
			return good(text)
		}
		switch how {
		case 0:
			return 500, []byte("{}")
		case 1:
			return 503, []byte("try again")
		case 2:
			return 200, []byte("not json")
		case 3:
			return 200, []byte("{}")
		case 4:
			return 200, []byte("{\"vector\":[]}")
		case 5:
			return 200, []byte("{\"vector\":null}")
		case 6: // of another model
			b, _ := json.Marshal(map[string][]float32{"vector": fx.TextVec(text, h.dim+3)})
			return 200, b
		case 7:
			return 200, []byte("{\"vector\":[1,2,\"x\"]}")
		}
		st, b := good(text)
		return st + []int{2, 6, 204}[how-8], b // 202, 206 or 404 with a vector in it
	})
	return func() { h.S.Vec.SetRaw(good) }
}

// C14: what cannot be served is refused, as a whole and without harm.
func c14(t *mon.T) {
	t.Rule = "one request that cannot be served, its answer judged and everything stored compared with the model afterwards; distinct by kind of request and history"
	t.Assumptions = []string{"in-memory Swarm node", "scripted vectorizer"}
	t.Par("c14", t.N(112, 1200), func(i int, r *rand.Rand) {
		h := newHist(t, r, 2+dims(r))
		if h == nil {
			return
		}
		defer func() { h.done() }()
		if !h.Create(h.F(r), "docs", stdIdx) {
			return
		}
		// also while there is nothing, or just one document
		if i%4 != 0 && !h.addBatch("docs", 1+r.Intn(12)) {
			return
		}
		c := h.Cols["docs"]
		if c.Added == 0 && i%4 != 0 {
			return
		}
		if !h.Create(h.F(r), "lists", map[string]string{"title": "string", "n": "number", "tags": "list", "attr": "map"}) {
			return
		}
		lists := h.Cols["lists"]
		addList := func() bool {
			d := h.freshDoc("lists")
			d.Vec, d.Junk = RandVec(r, h.dim), nil
			d.Props["tags"], d.Props["attr"] = []interface{}{"a", d.ID}, map[string]interface{}{"a": "x", "b": d.ID}
			return h.Add(h.F(r), "lists", nil, []Doc{d})
		}
		if i%3 != 0 && !addList() {
			return
		}
		if i%5 == 0 && !h.Restart(false) {
			return
		}
		for k := 0; k < 14; k++ {
			b := badReqs[(i*14+k)%len(badReqs)]
			if c.Added == 0 && strings.Contains(b.name, "another length") {
				continue
			}
			if c.Added == 0 && (strings.Contains(b.name, "vectorizer") || strings.Contains(b.name, "text search")) {
				continue // of an empty collection any length is right
			}
			h.tr("%s", b.name)
			var err error
			if err = guardCall(func() error { return b.run(h, r) }); true {
				if w := wrongAnswer(err); w != "" {
					h.bad("accepted", "%s: %s", b.name, w)
					return
				}
			}
			t.Eval("request refused", fmt.Sprint(b.name, i))
			t.Count("refused: "+b.name, 1)
			h.tr("   %v", err)
			if !h.CheckList(h.F(r)) || !h.CheckAll(h.F(r), c) {
				return
			}
			if strings.HasPrefix(b.name, "indexed list") || strings.HasPrefix(b.name, "indexed map") {
				if !h.CheckAll(h.F(r), lists) {
					return
				}
			}
			if k%7 == 6 {
				if !h.addBatch("docs", 1+r.Intn(3)) || !h.CheckAll(h.F(r), c) {
					return
				}
			}
		}
		if !h.Restart(r.Intn(2) == 0) || !h.CheckList(h.F(r)) || !h.CheckAll(h.F(r), c) {
			return
		}
		if !h.addBatch("docs", 3) || !h.CheckAll(h.F(r), c) || !addList() || !h.CheckAll(h.F(r), lists) {
			return
		}
	})
	fuzzBodies(t, t.N(64, 1500))
	notReady(t)
}

// notReady: a client that is not logged in, or has no pod, refuses.
func notReady(t *mon.T) {
	s, err := fx.NewStack(fx.StackOpts{Dim: 4})
	if err != nil {
		t.Violate("start", nil, "%v", err)
		return
	}
	defer s.Stop()
	for state := 0; state < 2; state++ {
		d, err := document.New(document.Config{VectorizerUrl: s.Vec.URL}, s.API)
		if err != nil {
			t.Violate("start", nil, "%v", err)
			return
		}
		name := "not logged in"
		if state == 1 {
			name = "no pod open"
			if err := d.Login(fx.Username, fx.Password); err != nil {
				t.Violate("login", nil, "a second login is refused: %v", err)
				return
			}
		}
		for what, f := range map[string]func() error{
			"create": func() error {
				return d.CreateCollection(&document.Collection{Name: "a", Indexes: map[string]collection.IndexType{}})
			},
			"delete": func() error { return d.DeleteCollection("a") },
			"list":   func() error { _, err := d.GetCollections(); return err },
			"add": func() error {
				return d.AddDocuments("a", nil, &document.Document{ID: "x", Properties: map[string]interface{}{"vector": []float32{1, 2}}})
			},
			"lookup":      func() error { _, err := d.GetDocument("a", "id", "x"); return err },
			"search":      func() error { _, _, err := d.GetNearDocumentsByVector("a", []float32{1, 2}, 1, 1); return err },
			"text search": func() error { _, _, err := d.GetNearDocuments("a", "x", 1, 1); return err },
		} {
			if w := wrongAnswer(guardCall(f)); w != "" {
				t.Violate("accepted", nil, "%s while %s: %s", what, name, w)
			}
			t.Eval("request refused", name+what)
		}
		if state == 0 {
			if w := wrongAnswer(guardCall(func() error { return d.OpenPod("other") })); w != "" {
				t.Violate("accepted", nil, "opening a pod while not logged in: %s", w)
			}
			if w := wrongAnswer(guardCall(func() error { return d.Login(fx.Username, "wrong password wrong") })); w != "" {
				t.Violate("accepted", nil, "login with a wrong password: %s", w)
			}
		}
	}
	// no vectorizer configured
	d, err := document.New(document.Config{}, s.API)
	if err == nil {
		err = d.Login(fx.Username, fx.Password)
	}
	if err == nil {
		err = d.OpenPod(fx.Pod)
	}
	if err == nil {
		err = d.CreateCollection(&document.Collection{Name: "a"})
	}
	if err != nil {
		t.Violate("valid-refused", nil, "a client without vectorizer: %v", err)
		return
	}
	for what, f := range map[string]func() error{
		"text search": func() error { _, _, err := d.GetNearDocuments("a", "x", 1, 1); return err },
		"add": func() error {
			return d.AddDocuments("a", []string{"p"}, &document.Document{ID: "x", Properties: map[string]interface{}{"p": "text"}})
		},
	} {
		if w := wrongAnswer(guardCall(f)); w != "" {
			t.Violate("accepted", nil, "%s without a vectorizer: %s", what, w)
		}
		t.Eval("request refused", "no vectorizer"+what)
	}
	if err := d.AddDocuments("a", nil, &document.Document{ID: "x", Properties: map[string]interface{}{"vector": []float32{1, 2}}}); err != nil {
		t.Violate("valid-refused", nil, "adding a document with a vector needs no vectorizer: %v", err)
	}
}

// fuzzBodies sends mutated requests to a second collection; whatever is in
// them, they are answered, and the first collection stays as it is.
func fuzzBodies(t *mon.T, n int) {
	t.Par("c14fuzz", n, func(i int, r *rand.Rand) {
		h := newHist(t, r, 2+dims(r))
		if h == nil {
			return
		}
		defer func() { h.done() }()
		if !h.Create(h.F(r), "docs", stdIdx) || !h.addBatch("docs", 1+r.Intn(6)) || !h.Create(h.F(r), "junk", stdIdx) {
			return
		}
		for k := 0; k < 40; k++ {
			var path string
			var body map[string]interface{}
			switch r.Intn(4) {
			case 0:
				path = "/nearest-documents"
				body = map[string]interface{}{"name": "junk", "text": Words(r, 2), "distance": r.Float64() * 2, "limit": r.Intn(5)}
			case 1:
				path = "/nearest-documents-by-vector"
				body = map[string]interface{}{"name": "junk", "vector": RandVec(r, h.dim), "distance": r.Float64() * 2, "limit": r.Intn(5)}
			case 2:
				path = "/collections"
				body = map[string]interface{}{"name": "junk", "indexes": []interface{}{map[string]interface{}{"fieldName": "title", "fieldType": "string"}, map[string]interface{}{"fieldName": "n", "fieldType": "number"}}}
			default:
				path = "/documents"
				d := h.good(r)
				body = map[string]interface{}{"name": "junk", "propertiesToVectorize": []interface{}{"body"}, "documents": []interface{}{map[string]interface{}{"id": d.ID, "properties": d.Properties}}}
			}
			var x interface{} = body
			for m := 1 + r.Intn(3); m > 0; m-- {
				x = mutate(r, x, 0)
			}
			if m, ok := x.(map[string]interface{}); ok && path == "/collections" {
				m["name"] = "junk" // nothing else is to be created
			}
			b, err := json.Marshal(x)
			if err != nil {
				continue
			}
			h.tr("POST %s %.300s", path, b)
			res := h.S.Req("POST", path, b)
			if res.Err != nil {
				h.bad("dropped", "POST %s %.200s is not answered: %v", path, b, res.Err)
				return
			}
			var ans interface{}
			if json.Unmarshal(res.Body, &ans) != nil {
				h.bad("answer", "POST %s %.200s: the answer is not JSON: %d %.200q", path, b, res.Status, res.Body)
				return
			}
			if res.Status >= 500 {
				h.bad("answer", "POST %s %.200s: %d %.200q", path, b, res.Status, res.Body)
				return
			}
			t.Count(fmt.Sprintf("mutated requests answered with %d", res.Status), 1)
			t.Eval("mutated request answered", string(b))
		}
		if !h.CheckAll(h.F(r), h.Cols["docs"]) || !h.CheckList(h.F(r)) {
			return
		}
		if !h.Restart(false) || !h.CheckAll(h.F(r), h.Cols["docs"]) || !h.addBatch("docs", 2) || !h.CheckAll(h.F(r), h.Cols["docs"]) {
			return
		}
	})
}

// mutate changes one place of a JSON value.
func mutate(r *rand.Rand, x interface{}, depth int) interface{} {
	if r.Intn(4) == 0 && depth > 0 {
		switch r.Intn(12) {
		case 0:
			return nil
		case 1:
			return true
		case 2:
			return -1.0
		case 3:
			return 1e39
		case 4:
			return ""
		case 5:
			return []interface{}{}
		case 6:
			return map[string]interface{}{}
		case 7:
			return []interface{}{nil}
		case 8:
			return 9007199254740993.0
		case 9:
			return strings.Repeat("x", 5000)
		case 10:
			return -1e18
		}
		return "docs\x00"
	}
	switch v := x.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}
		keys := []string{}
		for k, e := range v {
			out[k] = e
			keys = append(keys, k)
		}
		if len(keys) == 0 {
			return out
		}
		sortStrings(keys)
		k := keys[r.Intn(len(keys))]
		if r.Intn(8) == 0 {
			delete(out, k)
		} else {
			out[k] = mutate(r, out[k], depth+1)
		}
		return out
	case []interface{}:
		out := append([]interface{}(nil), v...)
		if len(out) == 0 {
			return append(out, nil)
		}
		k := r.Intn(len(out))
		out[k] = mutate(r, out[k], depth+1)
		return out
	case []float32:
		l := make([]interface{}, len(v))
		for i, e := range v {
			l[i] = e
		}
		return mutate(r, l, depth)
	}
	return x
}
