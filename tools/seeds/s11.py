id='few-links'; prop='C04'
needs='a collection of more than a thousand documents'
breaks='new documents are linked to only one other: many cannot be found any more'
edits=[('pkg/hnsw/neighbor_connections.go', '\tmax := n.graph.maximumConnections\n', '\tmax := 1\n')]
demo=r'''package document_test

import (
	"testing"
	"math/rand"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
)

func TestZZDemo(t *testing.T) {
	env, err := NewIndexEnv(NewBeeNoJournal(), nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := env.Open("c"); err != nil {
		t.Fatal(err)
	}
	x, err := env.NewIndex("c", hnsw.UserConfig{MaxConnections: 30, EFConstruction: 60, EF: 64})
	if err != nil {
		t.Fatal(err)
	}
	r := rand.New(rand.NewSource(1))
	var vs [][]float32
	for i := 0; i < 1500; i++ {
		v := make([]float32, 16)
		for k := range v {
			v[k] = float32(r.NormFloat64())
		}
		vs = append(vs, v)
		if err := x.Add(uint64(i), v); err != nil {
			t.Fatal(err)
		}
	}
	if err := x.Flush(1500); err != nil {
		t.Fatal(err)
	}
	lost := 0
	for i, v := range vs {
		ids, _, err := x.SearchByVector(v, 3, nil)
		if err != nil {
			t.Fatal(err)
		}
		found := false
		for _, id := range ids {
			found = found || id == uint64(i)
		}
		if !found {
			lost++
		}
	}
	if lost > 60 {
		t.Fatalf("demo: %d of %d vectors are not found by themselves", lost, len(vs))
	}
}
'''
