package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strconv"

	"faveverif/fx"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

// Doc is a document as a user hands it in.
type Doc struct {
	ID    string                 `json:"id"`
	Props map[string]interface{} `json:"props"`
	Vec   []float32              `json:"vec,omitempty"` // explicit vector; nil: vectorize the listed properties
	// Junk: handed in among the properties under names that FaVe uses for itself;
	// it has no effect
	Junk map[string]interface{} `json:"junk,omitempty"`
}

// Hit is a document as it comes back.
type Hit struct {
	ID    string
	Props map[string]interface{} // without the bookkeeping fields
	Hnsw  float64
	Dist  float32
}

// errDropped is a request that got no answer: the handler panicked.
var errDropped = errors.New("no answer: connection dropped")

// Front is a way to use FaVe: the Go client, or the REST API.
type Front interface {
	Name() string
	Create(name string, idx map[string]string) error
	Delete(name string) error
	List() (map[string]map[string]string, error)
	Add(name string, vectorize []string, docs []Doc) error
	Get(name, prop, value string) (*Hit, error)
	NearVec(name string, q []float32, dist float32, limit int) ([]Hit, error)
	NearText(name string, text string, dist float32, limit int) ([]Hit, error)
}

var idxTypes = map[string]collection.IndexType{
	"string": collection.StringIndex, "number": collection.NumberIndex, "map": collection.MapIndex, "list": collection.ListIndex,
}

// ---- Go client

type clientFront struct{ d *document.Client }

func (clientFront) Name() string { return "client" }
func (c clientFront) Create(name string, idx map[string]string) error {
	m := map[string]collection.IndexType{}
	for k, v := range idx {
		m[k] = idxTypes[v]
	}
	return c.d.CreateCollection(&document.Collection{Name: name, Indexes: m})
}
func (c clientFront) Delete(name string) error { return c.d.DeleteCollection(name) }
func (c clientFront) List() (map[string]map[string]string, error) {
	cs, err := c.d.GetCollections()
	if err != nil {
		return nil, err
	}
	out := map[string]map[string]string{}
	for _, col := range cs {
		if _, dup := out[col.Name]; dup {
			return nil, fmt.Errorf("collection %q listed twice", col.Name)
		}
		m := map[string]string{}
		for f, ty := range col.Indexes {
			for n, v := range idxTypes {
				if v == ty {
					m[f] = n
				}
			}
		}
		out[col.Name] = m
	}
	return out, nil
}
func (c clientFront) Add(name string, vectorize []string, docs []Doc) error {
	var ds []*document.Document
	for i, d := range docs {
		p := d.handed()
		if d.Vec != nil {
			p["vector"] = vecAs(d.Vec, i+len(d.ID)+len(d.Props))
		}
		ds = append(ds, &document.Document{ID: d.ID, Properties: p})
	}
	err := c.d.AddDocuments(name, vectorize, ds...)
	// what was handed in belongs to the caller, who may use it for something else
	for _, d := range ds {
		if v, ok := d.Properties["vector"].([]float32); ok {
			for i := range v {
				v[i] = float32(i%3) - 0.9
			}
		}
		for k := range d.Properties {
			delete(d.Properties, k)
		}
		d.ID = "used-again"
	}
	return err
}

func (d Doc) handed() map[string]interface{} {
	p := map[string]interface{}{}
	for k, v := range d.Props {
		p[k] = v
	}
	for k, v := range d.Junk {
		if k != "vector" || d.Vec == nil {
			p[k] = v
		}
	}
	return p
}

// vecAs gives a vector in one of the types that a client can use.
func vecAs(v []float32, how int) interface{} {
	switch how % 5 {
	case 1:
		l := make([]interface{}, len(v))
		for i, x := range v {
			l[i] = float64(x)
		}
		return l
	case 2:
		l := make([]interface{}, len(v))
		for i, x := range v {
			switch i % 3 {
			case 0:
				l[i] = x
			case 1:
				l[i] = float64(x)
			default:
				l[i] = json.Number(strconv.FormatFloat(float64(x), 'g', -1, 32))
			}
		}
		return l
	}
	return append([]float32(nil), v...)
}
func (c clientFront) Get(name, prop, value string) (*Hit, error) {
	b, err := c.d.GetDocument(name, prop, value)
	if err != nil {
		return nil, err
	}
	return rawHit(b, 0)
}
func rawHit(b []byte, dist float32) (*Hit, error) {
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, fmt.Errorf("document is not JSON: %v", err)
	}
	h := &Hit{Props: m, Dist: dist}
	h.ID, _ = m["id"].(string)
	h.Hnsw, _ = m["hnswId"].(float64)
	delete(m, "id")
	delete(m, "hnswId")
	return h, nil
}
func rawHits(ds [][]byte, dists []float32, err error) ([]Hit, error) {
	if err != nil {
		return nil, err
	}
	if len(ds) != len(dists) {
		return nil, fmt.Errorf("%d documents but %d distances", len(ds), len(dists))
	}
	out := []Hit{}
	for i := range ds {
		h, err := rawHit(ds[i], dists[i])
		if err != nil {
			return nil, err
		}
		out = append(out, *h)
	}
	return out, nil
}
func (c clientFront) NearVec(name string, q []float32, dist float32, limit int) ([]Hit, error) {
	return rawHits(c.d.GetNearDocumentsByVector(name, append([]float32(nil), q...), dist, limit))
}
func (c clientFront) NearText(name string, text string, dist float32, limit int) ([]Hit, error) {
	return rawHits(c.d.GetNearDocuments(name, text, dist, limit))
}

// ---- REST

type restFront struct{ s *fx.Stack }

func (restFront) Name() string { return "rest" }

type restErr struct {
	status int
	body   string
}

func (e restErr) Error() string { return fmt.Sprintf("HTTP %d: %s", e.status, e.body) }

func (c restFront) do(method, path string, body, out interface{}) error {
	r := c.s.Req(method, path, body)
	if r.Err != nil {
		return fmt.Errorf("%w (%v)", errDropped, r.Err)
	}
	if r.Status != http.StatusOK {
		return restErr{r.Status, string(r.Body)}
	}
	if out != nil {
		return json.Unmarshal(r.Body, out)
	}
	return nil
}
func (c restFront) Create(name string, idx map[string]string) error {
	ix := []map[string]string{}
	for k, v := range idx {
		ix = append(ix, map[string]string{"fieldName": k, "fieldType": v})
	}
	return c.do("POST", "/collections", map[string]interface{}{"name": name, "indexes": ix}, nil)
}
func (c restFront) Delete(name string) error {
	return c.do("DELETE", "/collections/"+url.PathEscape(name), nil, nil)
}
func (c restFront) List() (map[string]map[string]string, error) {
	var cs []struct {
		Name    string
		Indexes []struct{ FieldName, FieldType string }
	}
	if err := c.do("GET", "/collections", nil, &cs); err != nil {
		return nil, err
	}
	out := map[string]map[string]string{}
	for _, col := range cs {
		if _, dup := out[col.Name]; dup {
			return nil, fmt.Errorf("collection %q listed twice", col.Name)
		}
		out[col.Name] = map[string]string{}
		for _, i := range col.Indexes {
			out[col.Name][i.FieldName] = i.FieldType
		}
	}
	return out, nil
}
func (c restFront) Add(name string, vectorize []string, docs []Doc) error {
	ds := []map[string]interface{}{}
	for _, d := range docs {
		p := d.handed()
		if d.Vec != nil {
			p["vector"] = d.Vec
		}
		ds = append(ds, map[string]interface{}{"id": d.ID, "properties": p})
	}
	if vectorize == nil {
		vectorize = []string{}
	}
	return c.do("POST", "/documents", map[string]interface{}{"name": name, "propertiesToVectorize": vectorize, "documents": ds}, nil)
}

type restDoc struct {
	ID         string                 `json:"id"`
	Properties map[string]interface{} `json:"properties"`
}

func (d restDoc) hit() Hit {
	h := Hit{ID: d.ID, Props: d.Properties}
	if h.Props == nil {
		h.Props = map[string]interface{}{}
	}
	h.Hnsw, _ = h.Props["hnswId"].(float64)
	delete(h.Props, "hnswId")
	return h
}
func (c restFront) Get(name, prop, value string) (*Hit, error) {
	var d restDoc
	q := url.Values{"collection": {name}, "property": {prop}, "value": {value}}
	if err := c.do("GET", "/documents?"+q.Encode(), nil, &d); err != nil {
		return nil, err
	}
	h := d.hit()
	return &h, nil
}
func (c restFront) near(path string, body map[string]interface{}) ([]Hit, error) {
	var r struct {
		Documents []restDoc
		Name      string
	}
	if err := c.do("POST", path, body, &r); err != nil {
		return nil, err
	}
	if r.Name != body["name"] {
		return nil, fmt.Errorf("answer is for collection %q, not %q", r.Name, body["name"])
	}
	out := []Hit{}
	for _, d := range r.Documents {
		h := d.hit()
		f, ok := h.Props["distance"].(float64)
		if !ok {
			return nil, fmt.Errorf("document %s has no distance", d.ID)
		}
		h.Dist = float32(f)
		delete(h.Props, "distance")
		out = append(out, h)
	}
	return out, nil
}
func (c restFront) NearVec(name string, q []float32, dist float32, limit int) ([]Hit, error) {
	return c.near("/nearest-documents-by-vector", map[string]interface{}{"name": name, "vector": q, "distance": dist, "limit": limit})
}
func (c restFront) NearText(name string, text string, dist float32, limit int) ([]Hit, error) {
	return c.near("/nearest-documents", map[string]interface{}{"name": name, "text": text, "distance": dist, "limit": limit})
}
