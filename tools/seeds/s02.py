id="trim-name"; prop="C08"
needs="a collection whose name begins with one of the letters of the internal prefix (f, a, v, e, _)"
breaks="the list of collections shows such a collection under another name, with its first letters missing"
edits=[("pkg/document/document.go","strings.TrimPrefix(doc.Name, namespace)","strings.TrimLeft(doc.Name, namespace)")]
demo=r'''package document_test

import (
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
)

func TestZZDemo(t *testing.T) {
	s, err := NewStack(StackOpts{Dim: 4})
	if err != nil {
		t.Fatal(err)
	}
	defer s.Stop()
	want := map[string]bool{"docs": true, "events": true, "favourites": true}
	for n := range want {
		if err := s.Doc.CreateCollection(&document.Collection{Name: n}); err != nil {
			t.Fatal(err)
		}
	}
	cs, err := s.Doc.GetCollections()
	if err != nil {
		t.Fatal(err)
	}
	for _, c := range cs {
		if !want[c.Name] {
			t.Fatalf("demo: a collection %q is listed", c.Name)
		}
	}
	if len(cs) != 3 {
		t.Fatal(len(cs))
	}
}
'''
