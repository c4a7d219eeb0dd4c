id='count-lost'; prop='C12'
needs='the store refuses to write the number of documents at the end of an add, and the next add is after a restart'
breaks='the add is reported as done, and the next one gives its documents the ids of these'
edits=[('pkg/hnsw/insert.go', '\terr = h.nodes.KVPut(h.className, countKey, cBytes)\n\tif err != nil {\n', '\terr = h.nodes.KVPut(h.className, countKey, cBytes)\n\tif err != nil && docCount == 0 {\n')]
demo=r'''package document_test

import (
	"testing"
	"encoding/json"
	"fmt"

	"github.com/fairDataSociety/FaVe/pkg/document"
)

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal("demo: ", err)
	}
}

func TestZZDemo(t *testing.T) {
	s, err := NewStack(StackOpts{Dim: 4})
	must(t, err)
	defer func() { s.Stop() }()
	for k := 0; k < 40; k++ {
		s.Stop()
		s, err = NewStack(StackOpts{Dim: 4})
		must(t, err)
		col := "c"
		must(t, s.Doc.CreateCollection(&document.Collection{Name: col}))
		vec := func(i int) []float32 { v := []float32{.1, .1, .1, .1}; v[i] = 1; return v }
		id := func(i int) string { return fmt.Sprintf("00000000-0000-4000-8000-%012d", i) }
		must(t, s.Doc.AddDocuments(col, nil, &document.Document{ID: id(3), Properties: map[string]interface{}{"a": "x", "vector": vec(2)}}))
		n := 0
		s.Bee.SetHook(func(kind OpKind) error {
			if kind == OpBlob {
				n++
			}
			if kind == OpBlob && n == k+1 {
				return ErrInjected
			}
			return nil
		})
		err := s.Doc.AddDocuments(col, nil, &document.Document{ID: id(1), Properties: map[string]interface{}{"a": "x", "vector": vec(0)}})
		s.Bee.SetHook(func(OpKind) error { return nil })
		if err != nil {
			continue
		}
		r, err := s.Restart(nil)
		must(t, err)
		s.Stop()
		s = r
		must(t, s.Doc.AddDocuments(col, nil, &document.Document{ID: id(2), Properties: map[string]interface{}{"a": "x", "vector": vec(1)}}))
		for i := 1; i <= 3; i++ {
			docs, _, err := s.Doc.GetNearDocumentsByVector(col, vec(i-1), 0.01, 1)
			must(t, err)
			var d document.Document
			if len(docs) == 1 {
				var p map[string]interface{}
				must(t, json.Unmarshal(docs[0], &p))
				d.ID, _ = p["id"].(string)
			}
			if d.ID != id(i) {
				t.Fatalf("demo: write %d failed, the add was accepted, and the vector of %s finds %q", k+1, id(i), d.ID)
			}
		}
	}
}
'''
