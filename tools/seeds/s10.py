id='entry-visit'; prop='C02'
needs='a search in which the entrypoint of a layer is linked from a node that is visited'
breaks='the document searches start from is returned twice'
edits=[('pkg/hnsw/search.go', '\t\tvisitedList.Visit(ep.ID)\n', '\t\tvisitedList.Visited(ep.ID)\n')]
demo=r'''package document_test

import (
	"testing"
	"encoding/json"
	"fmt"

	"github.com/fairDataSociety/FaVe/pkg/document"
)

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal("demo: ", err)
	}
}

func TestZZDemo(t *testing.T) {
	s, err := NewStack(StackOpts{Dim: 4})
	must(t, err)
	defer func() { s.Stop() }()
	must(t, s.Doc.CreateCollection(&document.Collection{Name: "c"}))
	var docs []*document.Document
	for k := 0; k < 12; k++ {
		docs = append(docs, &document.Document{ID: fmt.Sprintf("00000000-0000-4000-8000-%012d", k), Properties: map[string]interface{}{"a": "x", "vector": []float32{1, float32(k), float32(k * k % 7), 4}}})
	}
	must(t, s.Doc.AddDocuments("c", nil, docs...))
	for k := 0; k < 12; k++ {
		found, _, err := s.Doc.GetNearDocumentsByVector("c", []float32{1, float32(k), 2, 4}, 2, 12)
		must(t, err)
		seen := map[string]bool{}
		for _, d := range found {
			var doc document.Document
			must(t, json.Unmarshal(d, &doc))
			if seen[doc.ID] {
				t.Fatalf("demo: %s is returned twice", doc.ID)
			}
			seen[doc.ID] = true
		}
		if len(seen) != 12 {
			t.Fatalf("demo: %d documents returned", len(seen))
		}
	}
}
'''
