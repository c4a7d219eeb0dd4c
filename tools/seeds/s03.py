id="cache-edge"; prop="C15"
needs="a vector whose id is exactly the size of the vector cache (25000, or any later size)"
breaks="the vector cache is not grown for it, and adding the document panics"
edits=[("pkg/hnsw/vector_cache.go","""	if node < uint64(len(s.cache)) {
		return
	}
	s.maintenanceLock.Lock()""","""	if node <= uint64(len(s.cache)) {
		return
	}
	s.maintenanceLock.Lock()""")]
demo=r'''package document_test

import (
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
)

func TestZZDemo(t *testing.T) {
	env, err := NewIndexEnv(NewBeeNoJournal(), nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := env.Open("c"); err != nil {
		t.Fatal(err)
	}
	x, err := env.NewIndex("c", hnsw.UserConfig{})
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		if p := recover(); p != nil {
			t.Fatal("demo: ", p)
		}
	}()
	for _, id := range []uint64{24998, 24999, 25000, 25001} {
		if err := x.Add(id, []float32{1, float32(id), 3}); err != nil {
			t.Fatal(err)
		}
	}
}
'''
