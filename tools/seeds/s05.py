id="vectorizer-status"; prop="C14"
needs="a vectorizer (or a proxy before it) that answers with an error status below 500 and a JSON body"
breaks="the answer is taken for an embedding: a document gets a vector that is not its own, or is stored although it could not be vectorized"
edits=[("pkg/vectorizer/rest/vectorizer.go","""	if resp.StatusCode != http.StatusOK {
		return nil, ErrServiceUnavailable
	}

	var result""","""	if resp.StatusCode >= http.StatusInternalServerError {
		return nil, ErrServiceUnavailable
	}

	var result""")]
demo=r'''package document_test

import (
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
)

func TestZZDemo(t *testing.T) {
	s, err := NewStack(StackOpts{Dim: 4})
	if err != nil {
		t.Fatal(err)
	}
	defer s.Stop()
	if err := s.Doc.CreateCollection(&document.Collection{Name: "docs"}); err != nil {
		t.Fatal(err)
	}
	s.Vec.SetRaw(func(string) (int, []byte) { return 429, []byte(`{"vector":[1,2,3,4]}`) })
	err = s.Doc.AddDocuments("docs", []string{"text"}, &document.Document{ID: "a", Properties: map[string]interface{}{"text": "some text"}})
	if err == nil {
		t.Fatal("demo: a document that could not be vectorized is accepted")
	}
}
'''
