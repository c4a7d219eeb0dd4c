id='distance-edge'; prop='C03'
needs='a search with a distance that is exactly that of a document'
breaks='a document at just the distance asked for is left out'
edits=[('pkg/hnsw/search_with_max_dist.go', 'if elem.Dist > dist {', 'if elem.Dist >= dist {')]
demo=r'''package document_test

import (
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
)

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal("demo: ", err)
	}
}

func TestZZDemo(t *testing.T) {
	s, err := NewStack(StackOpts{Dim: 4})
	must(t, err)
	defer func() { s.Stop() }()
	must(t, s.Doc.CreateCollection(&document.Collection{Name: "c"}))
	must(t, s.Doc.AddDocuments("c", nil, &document.Document{ID: "00000000-0000-4000-8000-000000000001", Properties: map[string]interface{}{"a": "x", "vector": []float32{1, 0, 0, 0}}},
		&document.Document{ID: "00000000-0000-4000-8000-000000000002", Properties: map[string]interface{}{"a": "x", "vector": []float32{0, 1, 0, 0}}}))
	docs, _, err := s.Doc.GetNearDocumentsByVector("c", []float32{1, 0, 0, 0}, 1, 5)
	must(t, err)
	if len(docs) != 2 {
		t.Fatalf("demo: %d of the 2 documents within a distance of 1", len(docs))
	}
}
'''
