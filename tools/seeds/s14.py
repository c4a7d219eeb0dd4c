id='level-lost'; prop='C17'
needs='a log is condensed that has a node on the first upper layer'
breaks='after condensing, a node of the first upper layer is on the ground layer'
edits=[('pkg/hnsw/condensor.go', '\t\tif node.Level > 0 {', '\t\tif node.Level > 1 {')]
demo=r'''package document_test

import (
	"testing"
	"bufio"
	"io"
	"os"
	"path/filepath"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/sirupsen/logrus"
)

func TestZZDemo(t *testing.T) {
	q := logrus.New()
	q.SetOutput(io.Discard)
	root := t.TempDir()
	l, err := hnsw.NewCommitLogger(root, "ix", q)
	if err != nil {
		t.Fatal(err)
	}
	add := func(id uint64, level int) {
		v := zero(hnsw.DeserializationResult{}.Nodes)
		v.Id, v.Level = id, level
		if err := l.AddNode(v); err != nil {
			t.Fatal(err)
		}
	}
	add(0, 0)
	add(1, 1)
	add(2, 2)
	if err := l.Flush(); err != nil {
		t.Fatal(err)
	}
	fs, _ := filepath.Glob(filepath.Join(root, "ix.hnsw.commitlog.d", "*"))
	if len(fs) != 1 {
		t.Fatalf("%d logs", len(fs))
	}
	if err := hnsw.NewMemoryCondensor(q).Do(fs[0]); err != nil {
		t.Fatal(err)
	}
	f, err := os.Open(fs[0] + ".condensed")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	st, _, err := hnsw.NewDeserializer(q).Do(bufio.NewReader(f), nil, false)
	if err != nil {
		t.Fatal(err)
	}
	for id := 0; id < 3; id++ {
		if st.Nodes[id] == nil || st.Nodes[id].Level != id {
			t.Fatalf("demo: node %d is not on layer %d any more", id, id)
		}
	}
}

func zero[T any](_ []*T) *T { return new(T) }
'''
