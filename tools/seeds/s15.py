id='limit-byte'; prop='C05'
needs='a search for 256 documents or more'
breaks='a text search with a limit of 256 or more returns as many documents as the rest of dividing it'
edits=[('adapters/handlers/documents.go', 's.doc.GetNearDocuments(req.Name, req.Text, req.Distance, int(req.Limit))', 's.doc.GetNearDocuments(req.Name, req.Text, req.Distance, int(uint8(req.Limit)))')]
demo=r'''package document_test

import (
	"testing"
	"net/http"

	"github.com/fairDataSociety/FaVe/pkg/document"
)

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal("demo: ", err)
	}
}

func TestZZDemo(t *testing.T) {
	s, err := NewStack(StackOpts{Dim: 4})
	must(t, err)
	defer func() { s.Stop() }()
	must(t, s.Doc.CreateCollection(&document.Collection{Name: "c"}))
	must(t, s.Doc.AddDocuments("c", []string{"a"}, &document.Document{ID: "00000000-0000-4000-8000-000000000001", Properties: map[string]interface{}{"a": "one"}},
		&document.Document{ID: "00000000-0000-4000-8000-000000000002", Properties: map[string]interface{}{"a": "two"}},
		&document.Document{ID: "00000000-0000-4000-8000-000000000003", Properties: map[string]interface{}{"a": "three"}}))
	for _, limit := range []int{3, 257, 1000} {
		r := s.Req(http.MethodPost, "/nearest-documents", map[string]interface{}{"name": "c", "text": "one", "distance": 2, "limit": limit})
		must(t, r.Err)
		docs, _ := r.JSON()["documents"].([]interface{})
		if len(docs) != 3 {
			t.Fatalf("demo: %d of 3 documents with a limit of %d", len(docs), limit)
		}
	}
}
'''
