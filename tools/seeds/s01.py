id="stale-links"; prop="C16"
needs="a node that already has the maximum number of links and was flushed gets another one, so its links are selected anew; then the index is reopened"
breaks="the neighbour's new links are not written by the next flush (it is still taken for committed), so the reopened index has other links than the one that wrote it"
edits=[("pkg/hnsw/neighbor_connections.go","""	neighbor.Committed = false
	if level > neighbor.Level {""","""	if level > neighbor.Level {"""),
("pkg/hnsw/neighbor_connections.go","""		// we can simply append
""","""		// we can simply append
		neighbor.Committed = false
""")]
demo=r'''package document_test

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
)

func TestZZDemo(t *testing.T) {
	r := rand.New(rand.NewSource(3))
	env, err := NewIndexEnv(NewBeeNoJournal(), nil)
	if err != nil {
		t.Fatal(err)
	}
	uc := hnsw.UserConfig{MaxConnections: 4, EFConstruction: 16}
	if err := env.Open("c"); err != nil {
		t.Fatal(err)
	}
	x, err := env.NewIndex("c", uc)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 200; i++ {
		v := make([]float32, 4)
		for k := range v {
			v[k] = float32(r.NormFloat64())
		}
		if err := x.Add(uint64(i), v); err != nil {
			t.Fatal(err)
		}
		if err := x.Flush(uint64(i + 1)); err != nil {
			t.Fatal(err)
		}
	}
	env.Commit()
	env2, err := env.Reopen(nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := env2.Open("c"); err != nil {
		t.Fatal(err)
	}
	y, err := env2.NewIndex("c", uc)
	if err != nil {
		t.Fatal(err)
	}
	if err := y.LoadEntrypoint(); err != nil {
		t.Fatal(err)
	}
	for k := 0; k < 40; k++ {
		q := make([]float32, 4)
		for k := range q {
			q[k] = float32(r.NormFloat64())
		}
		a, _, err := x.KnnSearchByVectorMaxDist(q, 3, 10, nil)
		if err != nil {
			t.Fatal(err)
		}
		b, _, err := y.KnnSearchByVectorMaxDist(q, 3, 10, nil)
		if err != nil {
			t.Fatal(err)
		}
		if fmt.Sprint(a) != fmt.Sprint(b) {
			t.Fatalf("demo: the reopened index finds %v, the one that wrote it %v", b, a)
		}
	}
}
'''
