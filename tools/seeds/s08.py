id='queue-sift'; prop='C19'
needs='the second child at the very end of the heap is the one to go up when the queue is popped'
breaks='the queue that selects the links of a node gives its items in the wrong order'
edits=[('pkg/hnsw/priorityqueue/queue_with_index.go', 'if right < len(l.items) &&', 'if right < len(l.items)-1 &&')]
demo=r'''package document_test

import (
	"testing"
	"math/rand"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"
)

func TestZZDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 200; i++ {
		q := priorityqueue.NewMinWithIndex(10)
		for k := 0; k < 12; k++ {
			q.Insert(uint64(k), uint64(k), r.Float32())
		}
		last := float32(-1)
		for q.Len() > 0 {
			x := q.Pop()
			if x.Dist < last {
				t.Fatalf("demo: %v after %v", x.Dist, last)
			}
			last = x.Dist
		}
	}
}
'''
