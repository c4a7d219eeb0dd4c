id='stale-index'; prop='C08'
needs='a collection is deleted and created again in the same process, then used with vectors of another length'
breaks='the index of the deleted collection stays in use: documents of the new one are refused or compared with deleted vectors'
edits=[('pkg/document/document.go', '\tdelete(c.indices, namespacedCollection)\n', '\t_ = c.indices\n')]
demo=r'''package document_test

import (
	"testing"
	"fmt"

	"github.com/fairDataSociety/FaVe/pkg/document"
)

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal("demo: ", err)
	}
}

func TestZZDemo(t *testing.T) {
	s, err := NewStack(StackOpts{Dim: 4})
	must(t, err)
	defer func() { s.Stop() }()
	for i := 0; i < 4; i++ {
		c := fmt.Sprintf("col%c", 'a'+i)
		must(t, s.Doc.CreateCollection(&document.Collection{Name: c}))
		var docs []*document.Document
		for k := 0; k < 80; k++ {
			docs = append(docs, &document.Document{ID: fmt.Sprintf("00000000-0000-4000-8000-%012d", k), Properties: map[string]interface{}{"a": "x", "vector": []float32{1, float32(k), float32(k * k % 7), 4}}})
		}
		must(t, s.Doc.AddDocuments(c, nil, docs...))
		must(t, s.Doc.DeleteCollection(c))
		must(t, s.Doc.CreateCollection(&document.Collection{Name: c}))
		must(t, s.Doc.AddDocuments(c, nil, &document.Document{ID: "00000000-0000-4000-8000-000000000200", Properties: map[string]interface{}{"a": "y", "vector": []float32{1, 2, 3, 4, 5, 6}}}))
		found, _, err := s.Doc.GetNearDocumentsByVector(c, []float32{1, 2, 3, 4, 5, 6}, 0.5, 3)
		must(t, err)
		if len(found) != 1 {
			t.Fatalf("demo: %d documents found", len(found))
		}
	}
}
'''
