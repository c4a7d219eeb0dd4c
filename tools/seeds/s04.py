id="unlimited-tie"; prop="C21"
needs="a search by distance without a limit for which more than 100 vectors are within the distance and the hundredth is at exactly that distance"
breaks="the search ends after its first round and leaves out the other vectors at that distance"
edits=[("pkg/hnsw/search.go","shouldContinue = lastFound <= targetDistance","shouldContinue = lastFound < targetDistance")]
demo=r'''package document_test

import (
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	wdist "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
)

func TestZZDemo(t *testing.T) {
	env, err := NewIndexEnv(NewBeeNoJournal(), nil)
	if err != nil {
		t.Fatal(err)
	}
	env.Dist = wdist.NewHammingProvider()
	if err := env.Open("c"); err != nil {
		t.Fatal(err)
	}
	x, err := env.NewIndex("c", hnsw.UserConfig{MaxConnections: 16, EFConstruction: 60, EF: 100, FlatSearchCutoff: 40000})
	if err != nil {
		t.Fatal(err)
	}
	al := helpers.NewAllowList()
	for i := 0; i < 150; i++ {
		// all differ from the query in one place
		if err := x.Add(uint64(i), []float32{1, 2, float32(3 + i)}); err != nil {
			t.Fatal(err)
		}
		al.Insert(uint64(i))
	}
	if err := x.Flush(150); err != nil {
		t.Fatal(err)
	}
	ids, _, err := x.SearchByVectorDistance([]float32{1, 2, 0}, 1, -1, al)
	if err != nil {
		t.Fatal(err)
	}
	if len(ids) != 150 {
		t.Fatalf("demo: %d of 150 vectors found", len(ids))
	}
}
'''
