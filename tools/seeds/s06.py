id="shared-links"; prop="C11"
needs="a search that walks the links of a node while another request inserts a document next to it"
breaks="the search iterates over the node's own list of links instead of a copy, while the insert rewrites it in place: a data race, links are skipped or seen half written"
edits=[("pkg/hnsw/search.go","""			connectionsReusable = make([]uint64, len(candidateNode.Connections[level]))
		} else {
			connectionsReusable = connectionsReusable[:len(candidateNode.Connections[level])]
		}

		copy(connectionsReusable, candidateNode.Connections[level])
		candidateNode.Unlock()
""","""			connectionsReusable = make([]uint64, len(candidateNode.Connections[level]))
			copy(connectionsReusable, candidateNode.Connections[level])
		} else {
			connectionsReusable = candidateNode.Connections[level]
		}
		candidateNode.Unlock()
""")]
race=True
demo=r'''package document_test

import (
	"math/rand"
	"sync"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
)

func TestZZDemo(t *testing.T) {
	env, err := NewIndexEnv(NewBeeNoJournal(), nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := env.Open("c"); err != nil {
		t.Fatal(err)
	}
	x, err := env.NewIndex("c", hnsw.UserConfig{MaxConnections: 4, EFConstruction: 16})
	if err != nil {
		t.Fatal(err)
	}
	vec := func(r *rand.Rand) []float32 {
		v := make([]float32, 4)
		for k := range v {
			v[k] = float32(r.NormFloat64())
		}
		return v
	}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 50; i++ {
		if err := x.Add(uint64(i), vec(r)); err != nil {
			t.Fatal(err)
		}
	}
	if err := x.Flush(50); err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(int64(g + 2)))
			for {
				select {
				case <-done:
					return
				default:
				}
				if _, _, err := x.KnnSearchByVectorMaxDist(vec(r), 3, 100, nil); err != nil {
					t.Errorf("demo: %v", err)
					return
				}
			}
		}(g)
	}
	for i := 50; i < 400; i++ {
		if err := x.Add(uint64(i), vec(r)); err != nil {
			t.Error(err)
			break
		}
	}
	close(done)
	wg.Wait()
}
'''
