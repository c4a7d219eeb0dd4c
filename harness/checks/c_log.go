package checks

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"faveverif/fx"
	"faveverif/mon"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/sirupsen/logrus"
	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
	ssd "github.com/weaviate/weaviate/adapters/repos/db/vector/ssdhelpers"
	"github.com/weaviate/weaviate/entities/cyclemanager"
)

func init() { All["C17"] = c17 }

// ---- the model of what a commit log says

type lnode struct {
	level int
	conns map[int][]uint64
}

type lstate struct {
	nodes map[uint64]*lnode
	tomb  map[uint64]bool
	ep    uint64
	level int
	pq    *ssd.PQData
}

func newLState() *lstate { return &lstate{nodes: map[uint64]*lnode{}, tomb: map[uint64]bool{}} }

func (s *lstate) clone() *lstate {
	o := newLState()
	o.ep, o.level, o.pq = s.ep, s.level, s.pq
	for id, n := range s.nodes {
		m := &lnode{n.level, map[int][]uint64{}}
		for l, c := range n.conns {
			m.conns[l] = append([]uint64(nil), c...)
		}
		o.nodes[id] = m
	}
	for id := range s.tomb {
		o.tomb[id] = true
	}
	return o
}

// lop is one entry of a log.
type lop struct {
	Op      string
	ID      uint64
	Level   int
	Target  uint64
	Targets []uint64
	pq      *ssd.PQData
}

func (s *lstate) apply(o lop) {
	n := s.nodes[o.ID]
	link := func() *lnode {
		if n == nil {
			n = &lnode{0, map[int][]uint64{}}
			s.nodes[o.ID] = n
		}
		return n
	}
	switch o.Op {
	case "AddNode":
		link().level = o.Level
	case "SetEP":
		s.ep, s.level = o.ID, o.Level
	case "AddLink":
		m := link()
		m.conns[o.Level] = append(m.conns[o.Level], o.Target)
	case "ReplaceLinks":
		link().conns[o.Level] = append([]uint64(nil), o.Targets...)
	case "AddTombstone":
		s.tomb[o.ID] = true
	case "RemoveTombstone":
		delete(s.tomb, o.ID)
	case "ClearLinks":
		if n != nil {
			n.conns = map[int][]uint64{}
		}
	case "ClearLinksAtLevel":
		if n != nil {
			delete(n.conns, o.Level)
		}
	case "DeleteNode":
		delete(s.nodes, o.ID)
	case "Reset":
		s.nodes, s.ep, s.level = map[uint64]*lnode{}, 0, 0
	case "AddPQ":
		s.pq = o.pq
	}
}

type logger interface {
	SetEntryPointWithMaxLayer(id uint64, level int) error
	AddLinkAtLevel(nodeid uint64, level int, target uint64) error
	ReplaceLinksAtLevel(nodeid uint64, level int, targets []uint64) error
	AddTombstone(nodeid uint64) error
	RemoveTombstone(nodeid uint64) error
	ClearLinks(nodeid uint64) error
	ClearLinksAtLevel(nodeid uint64, level uint16) error
	DeleteNode(nodeid uint64) error
	AddPQ(ssd.PQData) error
	Reset() error
	Flush() error
	Shutdown(ctx context.Context) error
	SwitchCommitLogs(force bool) error
}

func newOf[T any](_ []*T) *T { return new(T) }

func openLogger(root, id string, opts ...hnsw.CommitlogOption) (logger, func(id uint64, level int) error, error) {
	if opts == nil { // nothing happens in the background
		opts = []hnsw.CommitlogOption{hnsw.WithCommitlogCycleTicker(cyclemanager.FixedIntervalTickerProvider(time.Hour))}
	}
	l, err := hnsw.NewCommitLogger(root, id, quiet(), opts...)
	if err != nil {
		return nil, nil, err
	}
	return l, func(id uint64, level int) error {
		v := newOf(hnsw.DeserializationResult{}.Nodes)
		v.Id, v.Level = id, level
		return l.AddNode(v)
	}, nil
}

func quiet() logrus.FieldLogger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return l
}

func (o lop) write(l logger, addNode func(uint64, int) error) error {
	switch o.Op {
	case "AddNode":
		return addNode(o.ID, o.Level)
	case "SetEP":
		return l.SetEntryPointWithMaxLayer(o.ID, o.Level)
	case "AddLink":
		return l.AddLinkAtLevel(o.ID, o.Level, o.Target)
	case "ReplaceLinks":
		return l.ReplaceLinksAtLevel(o.ID, o.Level, o.Targets)
	case "AddTombstone":
		return l.AddTombstone(o.ID)
	case "RemoveTombstone":
		return l.RemoveTombstone(o.ID)
	case "ClearLinks":
		return l.ClearLinks(o.ID)
	case "ClearLinksAtLevel":
		return l.ClearLinksAtLevel(o.ID, uint16(o.Level))
	case "DeleteNode":
		return l.DeleteNode(o.ID)
	case "Reset":
		return l.Reset()
	case "AddPQ":
		return l.AddPQ(*o.pq)
	}
	panic(o.Op)
}

// same compares a replayed log with the model.
func (s *lstate) same(r *hnsw.DeserializationResult, asSets bool) error {
	norm := func(c []uint64) []uint64 {
		if !asSets {
			return c
		}
		m := map[uint64]bool{}
		var o []uint64
		for _, x := range c {
			if !m[x] {
				m[x] = true
				o = append(o, x)
			}
		}
		sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
		return o
	}
	seen := 0
	for i, v := range r.Nodes {
		if v == nil {
			continue
		}
		seen++
		n := s.nodes[uint64(i)]
		if n == nil {
			return fmt.Errorf("node %d is there and should not", i)
		}
		if v.Id != uint64(i) || v.Level != n.level {
			return fmt.Errorf("node %d is node %d of level %d, should be of level %d", i, v.Id, v.Level, n.level)
		}
		for l := 0; l < len(v.Connections) || l < 20; l++ {
			var got []uint64
			if l < len(v.Connections) {
				got = v.Connections[l]
			}
			a, b := norm(got), norm(n.conns[l])
			if len(a) != len(b) || len(a) > 0 && !reflect.DeepEqual(a, b) {
				return fmt.Errorf("node %d has links %v at level %d, should have %v", i, got, l, n.conns[l])
			}
		}
		for l := range n.conns {
			if len(n.conns[l]) > 0 && l >= len(v.Connections) {
				return fmt.Errorf("node %d has no links at level %d", i, l)
			}
		}
	}
	if seen != len(s.nodes) {
		return fmt.Errorf("%d nodes, should be %d", seen, len(s.nodes))
	}
	if r.Entrypoint != s.ep || int(r.Level) != s.level {
		return fmt.Errorf("entrypoint %d of level %d, should be %d of level %d", r.Entrypoint, r.Level, s.ep, s.level)
	}
	if len(r.Tombstones) != len(s.tomb) {
		return fmt.Errorf("%d tombstones, should be %d", len(r.Tombstones), len(s.tomb))
	}
	for id := range s.tomb {
		if _, ok := r.Tombstones[id]; !ok {
			return fmt.Errorf("tombstone of %d is not there", id)
		}
	}
	if (s.pq != nil) != r.Compressed {
		return fmt.Errorf("compressed is %v", r.Compressed)
	}
	if s.pq != nil {
		p, q := *s.pq, r.PQData
		if p.Dimensions != q.Dimensions || p.Ks != q.Ks || p.M != q.M || p.EncoderType != q.EncoderType || p.EncoderDistribution != q.EncoderDistribution ||
			p.UseBitsEncoding != q.UseBitsEncoding || len(p.Encoders) != len(q.Encoders) {
			return fmt.Errorf("quantizer %v, should be %v", q, p)
		}
		for i := range p.Encoders {
			if !bytes.Equal(p.Encoders[i].ExposeDataForRestore(), q.Encoders[i].ExposeDataForRestore()) {
				return fmt.Errorf("encoder %d of the quantizer differs", i)
			}
		}
	}
	return nil
}

// genOps makes a log. old: nodes earlier logs may know.
func genOps(r *rand.Rand, s *lstate, n int, alone bool, quant *ssd.PQData) []lop {
	var ops []lop
	old := s.clone()
	cur := s.clone()
	max := uint64(5 + r.Intn(60))
	switch r.Intn(6) {
	case 0:
		max = 990 + uint64(r.Intn(40)) // around the initial size of the table
	case 1:
		max = 3000
	}
	base := uint64(0)
	switch r.Intn(8) {
	case 0:
		base = 24995 // the initial size of the table is 25000
	case 1:
		base = 24000
	case 2:
		base = 49990
	}
	id := func() uint64 { return base + uint64(r.Int63n(int64(max))) }
	for len(ops) < n {
		o := lop{ID: id(), Level: 0}
		if r.Intn(3) == 0 {
			o.Level = r.Intn(5)
		}
		ok := cur.nodes[o.ID]
		was := old.nodes[o.ID] != nil
		k := r.Intn(100)
		switch {
		case k < 25:
			o.Op = "AddNode"
			if ok != nil {
				if was { // a node keeps its level
					continue
				}
				o.Level = ok.level + r.Intn(2)
			}
		case k < 50:
			o.Op, o.Target = "AddLink", id()
			if r.Intn(20) == 0 {
				o.Target = ^uint64(0) - uint64(r.Intn(4))
			}
		case k < 70:
			o.Op = "ReplaceLinks"
			for j := r.Intn(12); j > 0; j-- {
				o.Targets = append(o.Targets, id())
			}
			if r.Intn(50) == 0 {
				for j := 0; j < 300; j++ {
					o.Targets = append(o.Targets, id()<<uint(r.Intn(30)))
				}
			}
		case k < 76:
			o.Op = "SetEP"
		case k < 82:
			o.Op = "AddTombstone"
		case k < 86:
			o.Op = "RemoveTombstone"
			if !alone && old.tomb[o.ID] {
				continue
			}
		case k < 89:
			o.Op = "ClearLinks"
			if !alone && was {
				continue
			}
		case k < 94:
			o.Op = "ClearLinksAtLevel"
			if ok == nil {
				continue
			}
		case k < 98:
			o.Op = "DeleteNode"
			if !alone && was {
				continue
			}
		case k < 99:
			o.Op, o.ID, o.Level = "Reset", 0, 0
			if !alone && len(old.nodes) > 0 || r.Intn(3) > 0 {
				continue
			}
		default:
			if quant == nil || cur.pq != nil {
				continue
			}
			o = lop{Op: "AddPQ", pq: quant}
		}
		cur.apply(o)
		ops = append(ops, o)
	}
	return ops
}

func replay(files []string) (*hnsw.DeserializationResult, error) {
	var st *hnsw.DeserializationResult
	for _, f := range files {
		fd, err := os.Open(f)
		if err != nil {
			return nil, err
		}
		var n int
		st, n, err = hnsw.NewDeserializer(quiet()).Do(bufio.NewReader(fd), st, false)
		fi, _ := fd.Stat()
		_ = fd.Close()
		if err != nil {
			return nil, fmt.Errorf("%s: %w", filepath.Base(f), err)
		}
		if int64(n) != fi.Size() {
			return nil, fmt.Errorf("%s: %d of %d bytes are said to be valid", filepath.Base(f), n, fi.Size())
		}
	}
	if st == nil {
		st, _, _ = hnsw.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(nil)), nil, false)
	}
	return st, nil
}

// logFiles lists the files of a log from old to new, after the fixer has had a look.
func logFiles(root, id string) ([]string, error) {
	dir := filepath.Join(root, id+".hnsw.commitlog.d")
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var fs []string
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".tmp") {
			continue
		}
		fs = append(fs, filepath.Join(dir, e.Name()))
	}
	stamp := func(s string) int64 {
		n, _ := strconv.ParseInt(strings.TrimSuffix(filepath.Base(s), ".condensed"), 10, 64)
		return n
	}
	sort.SliceStable(fs, func(i, j int) bool { return stamp(fs[i]) < stamp(fs[j]) })
	return hnsw.NewCorruptedCommitLogFixer(quiet()).Do(fs)
}

func quantizer(r *rand.Rand, enc ssd.Encoder) *ssd.PQData {
	dim := 4
	pq, err := ssd.NewProductQuantizer(2, 8, false, distancer.NewL2SquaredProvider(), dim, enc, ssd.LogNormalEncoderDistribution)
	if err != nil {
		return nil
	}
	var data [][]float32
	for i := 0; i < 60; i++ {
		data = append(data, RandVec(r, dim))
	}
	pq.Fit(data)
	d := pq.ExposeFields()
	return &d
}

// C17: the commit log.
func c17(t *mon.T) {
	t.Rule = "one replay of commit logs compared with the state the entries describe; distinct by what was done to the log (nothing, cut off, condensed, combined, interrupted) and content"
	t.Assumptions = []string{"a file ends anywhere when the process or the machine dies, what was written before is intact"}
	tmp, err := os.MkdirTemp("", "c17")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	var quants []*ssd.PQData
	for i, e := range []ssd.Encoder{ssd.UseTileEncoder, ssd.UseKMeansEncoder} {
		quants = append(quants, quantizer(t.Rand("pq", i), e))
	}
	t.Par("log", t.N(1500, 9000), func(i int, r *rand.Rand) {
		root := filepath.Join(tmp, fmt.Sprint("log", i))
		defer os.RemoveAll(root)
		dir := filepath.Join(root, "ix.hnsw.commitlog.d")
		state := newLState()
		nlogs := 1
		if i%2 == 1 {
			nlogs = 2 + r.Intn(4)
		}
		hist := []interface{}{}
		bad := func(f string, a ...interface{}) {
			h := hist
			if len(h) > 600 {
				h = h[len(h)-600:]
			}
			t.Violate("log", map[string]interface{}{"log": h}, f, a...)
		}
		var quant *ssd.PQData
		if nlogs == 1 && r.Intn(3) == 0 {
			quant = quants[r.Intn(2)]
		}
		var lens []int // of each entry of the only log
		var states []*lstate
		for k := 0; k < nlogs; k++ {
			w := filepath.Join(root, fmt.Sprint("w", k))
			l, addNode, err := openLogger(w, "ix")
			if err != nil {
				bad("the log cannot be opened: %v", err)
				return
			}
			n := r.Intn(120)
			if r.Intn(10) == 0 {
				n = 1500 // more than a buffer
			}
			ops := genOps(r, state, n, nlogs == 1, quant)
			hist = append(hist, fmt.Sprintf("log %d", k))
			for _, o := range ops {
				hist = append(hist, o)
				if err := o.write(l, addNode); err != nil {
					bad("%s was not logged: %v", o.Op, err)
					return
				}
				state.apply(o)
				if nlogs == 1 && len(ops) < 200 {
					states = append(states, state.clone())
					lens = append(lens, entryLen(o))
				}
				if r.Intn(40) == 0 {
					_ = l.Flush()
				}
				// the process ends and another one goes on with the log
				if r.Intn(60) == 0 {
					if l.Flush() != nil || l.Shutdown(context.Background()) != nil {
						bad("the log cannot be closed")
						return
					}
					if l, addNode, err = openLogger(w, "ix"); err != nil {
						bad("the log cannot be opened: %v", err)
						return
					}
				}
			}
			if l.Flush() != nil || l.Shutdown(context.Background()) != nil {
				bad("the log cannot be closed")
				return
			}
			fs, err := logFiles(w, "ix")
			if err != nil || len(fs) != 1 {
				bad("files of the log: %v %v", fs, err)
				return
			}
			_ = os.MkdirAll(dir, 0o755)
			if err := os.Rename(fs[0], filepath.Join(dir, fmt.Sprint(1000+k*7))); err != nil {
				bad("the file of a log: %v", err)
				return
			}
		}
		judge := func(what string, sets bool) bool {
			fs, err := logFiles(root, "ix")
			if err != nil {
				bad("%s: %v", what, err)
				return false
			}
			res, err := replay(fs)
			if err == nil {
				err = state.same(res, sets)
			}
			if err != nil {
				bad("%s: %v", what, err)
				return false
			}
			t.Eval(what, fmt.Sprintf("%d/%d/%d", i, len(state.nodes), len(fs)))
			return true
		}
		if !judge("replay", false) {
			return
		}
		// another process goes on with what is there
		goOn := func() bool {
			l, addNode, err := openLogger(root, "ix")
			if err != nil {
				bad("the logs cannot be opened: %v", err)
				return false
			}
			hist = append(hist, "reopened")
			for _, o := range genOps(r, state, 1+r.Intn(60), false, nil) {
				hist = append(hist, o)
				if err := o.write(l, addNode); err != nil {
					bad("%s was not logged: %v", o.Op, err)
					return false
				}
				state.apply(o)
			}
			if l.Flush() != nil || l.Shutdown(context.Background()) != nil {
				bad("the log cannot be closed")
				return false
			}
			return judge("gone on with", false)
		}
		if nlogs > 1 && r.Intn(2) == 0 && !goOn() {
			return
		}
		if len(states) > 0 {
			raw, _ := os.ReadFile(filepath.Join(dir, "1000"))
			if !cutOff(t, r, raw, lens, states, bad) {
				return
			}
		}
		if quant != nil { // a condensed log has no quantizer
			return
		}
		// condensed one after the other, in any order
		order := r.Perm(nlogs)
		for _, k := range order {
			f := filepath.Join(dir, fmt.Sprint(1000+k*7))
			crash := r.Intn(4)
			var orig []byte
			if crash < 2 {
				orig, _ = os.ReadFile(f)
			}
			if err := hnsw.NewMemoryCondensor(quiet()).Do(f); err != nil {
				bad("condensing: %v", err)
				return
			}
			if _, err := os.Stat(f); err == nil {
				bad("the log is still there after it was condensed")
				return
			}
			if !judge("condensed", false) {
				return
			}
			if crash < 2 { // killed while condensing: the original is there and part of the result
				b, _ := os.ReadFile(f + ".condensed")
				_ = os.WriteFile(f+".condensed", b[:r.Intn(len(b)+1)], 0o644)
				_ = os.WriteFile(f, orig, 0o644)
				if !judge("killed while condensing", false) {
					return
				}
				if err := hnsw.NewMemoryCondensor(quiet()).Do(f); err != nil {
					bad("condensing again: %v", err)
					return
				}
				if !judge("condensed again", false) {
					return
				}
			}
		}
		// combined: never beyond the threshold
		var total, biggest int64
		sizes := map[string]int64{}
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			fi, _ := e.Info()
			sizes[e.Name()] = fi.Size()
			total += fi.Size()
			if fi.Size() > biggest {
				biggest = fi.Size()
			}
		}
		threshold := []int64{0, biggest, biggest + total/2, total - 1, total, total * 10}[r.Intn(6)]
		if r.Intn(3) == 0 { // killed while combining
			_ = os.WriteFile(filepath.Join(dir, "1000.combined.tmp"), []byte("\x00\x01"), 0o644)
		}
		srcs := map[string][]byte{}
		if nlogs == 2 {
			for n := range sizes {
				srcs[n], _ = os.ReadFile(filepath.Join(dir, n))
			}
		}
		did, err := hnsw.NewCommitLogCombiner(root, "ix", threshold, quiet()).Do()
		if err != nil {
			bad("combining: %v", err)
			return
		}
		if !judge("combined", false) {
			return
		}
		es, _ = os.ReadDir(dir)
		for _, e := range es {
			fi, _ := e.Info()
			if strings.HasSuffix(e.Name(), ".tmp") {
				bad("%s is left after combining", e.Name())
				return
			}
			if _, ok := sizes[e.Name()]; !ok && fi.Size() > threshold {
				bad("a file of %d bytes was made by combining, with a threshold of %d", fi.Size(), threshold)
				return
			}
		}
		if did != (len(es) < nlogs) {
			bad("combining reported %v: %d files of %d", did, len(es), nlogs)
			return
		}
		if nlogs > 1 && threshold >= total && !did {
			bad("nothing was combined below the threshold: %d files", len(es))
			return
		}
		if did && nlogs == 2 { // killed before what was combined is removed
			for _, keep := range [][]string{{"1000.condensed", "1007.condensed"}, {"1007.condensed"}} {
				for _, n := range keep {
					_ = os.WriteFile(filepath.Join(dir, n), srcs[n], 0o644)
				}
				if !judge("killed while combining", true) {
					return
				}
				_ = os.Remove(filepath.Join(dir, "1000.condensed"))
				_ = os.Remove(filepath.Join(dir, "1007.condensed"))
			}
		}
		for _, e := range es {
			if !strings.HasSuffix(e.Name(), ".condensed") {
				if err := hnsw.NewMemoryCondensor(quiet()).Do(filepath.Join(dir, e.Name())); err != nil {
					bad("condensing what was combined: %v", err)
					return
				}
			}
		}
		if judge("combined and condensed", false) && r.Intn(2) == 0 {
			goOn()
		}
	})
	bigLog(t, tmp)
	background(t, tmp)
	indexLog(t, tmp)
	logFindings(t, tmp)
	fullDisk(t, tmp)
}

func entryLen(o lop) int {
	switch o.Op {
	case "AddNode", "SetEP", "ClearLinksAtLevel":
		return 11
	case "AddLink":
		return 19
	case "ReplaceLinks":
		return 13 + 8*len(o.Targets)
	case "Reset":
		return 1
	case "AddPQ":
		n := 10
		for _, e := range o.pq.Encoders {
			n += len(e.ExposeDataForRestore())
		}
		return n
	}
	return 9
}

// cutOff: what is before the place where a log ends abruptly is recovered.
func cutOff(t *mon.T, r *rand.Rand, raw []byte, lens []int, states []*lstate, bad func(string, ...interface{})) bool {
	sum := 0
	for _, l := range lens {
		sum += l
	}
	if sum != len(raw) {
		// the format is not what the harness knows: nothing to say about it
		t.Count("logs of an unknown format", 1)
		return true
	}
	for c := 0; c < 25; c++ {
		cut := r.Intn(len(raw) + 1)
		if c == 0 {
			cut = len(raw)
		}
		whole, at := 0, 0
		for whole < len(lens) && at+lens[whole] <= cut {
			at += lens[whole]
			whole++
		}
		res, n, err := hnsw.NewDeserializer(quiet()).Do(bufio.NewReader(bytes.NewReader(raw[:cut])), nil, false)
		if cut == at && err != nil {
			bad("a log of %d entries is refused: %v", whole, err)
			return false
		}
		if cut != at && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			bad("a log cut off in entry %d of %d: %v", whole+1, len(lens), err)
			return false
		}
		if n != at {
			bad("a log cut off at %d, in entry %d: %d bytes are said to be valid, %d are", cut, whole+1, n, at)
			return false
		}
		want := newLState()
		if whole > 0 {
			want = states[whole-1]
		}
		if res == nil {
			bad("a log cut off in entry %d: nothing recovered", whole+1)
			return false
		}
		if err := want.same(res, false); err != nil {
			bad("a log cut off in entry %d of %d: %v", whole+1, len(lens), err)
			return false
		}
		t.Eval("cut off", fmt.Sprintf("%d/%d/%d", len(raw), cut, whole))
	}
	return true
}

// bigLog: logs of several megabytes, as a few thousand vectors leave them, are
// condensed and combined.
func bigLog(t *mon.T, tmp string) {
	t.Par("biglog", t.N(2, 8), func(i int, r *rand.Rand) {
		root := filepath.Join(tmp, fmt.Sprint("big", i))
		defer os.RemoveAll(root)
		dir := filepath.Join(root, "ix.hnsw.commitlog.d")
		bad := func(f string, a ...interface{}) {
			t.Violate("log", map[string]interface{}{"log": "big", "n": i}, f, a...)
		}
		state := newLState()
		nodes := 2000 + r.Intn(3000)
		for k := 0; k < 2; k++ {
			w := filepath.Join(root, fmt.Sprint("w", k))
			l, addNode, err := openLogger(w, "ix")
			if err != nil {
				bad("the log cannot be opened: %v", err)
				return
			}
			do := func(o lop) bool {
				if err := o.write(l, addNode); err != nil {
					bad("%s was not logged: %v", o.Op, err)
					return false
				}
				state.apply(o)
				return true
			}
			for id := k * nodes; id < (k+1)*nodes; id++ {
				ts := make([]uint64, 20+r.Intn(80))
				for j := range ts {
					ts[j] = uint64(r.Intn((k + 1) * nodes))
				}
				if !do(lop{Op: "AddNode", ID: uint64(id), Level: r.Intn(2)}) || !do(lop{Op: "ReplaceLinks", ID: uint64(id), Targets: ts}) ||
					r.Intn(4) == 0 && !do(lop{Op: "AddLink", ID: uint64(id), Target: uint64(r.Intn(nodes))}) {
					return
				}
			}
			if !do(lop{Op: "SetEP", ID: uint64(k*nodes + r.Intn(nodes)), Level: 1}) {
				return
			}
			if l.Flush() != nil || l.Shutdown(context.Background()) != nil {
				bad("the log cannot be closed")
				return
			}
			fs, err := logFiles(w, "ix")
			if err != nil || len(fs) != 1 {
				bad("files of the log: %v %v", fs, err)
				return
			}
			_ = os.MkdirAll(dir, 0o755)
			if err := os.Rename(fs[0], filepath.Join(dir, fmt.Sprint(1000+k*7))); err != nil {
				t.Violate("log", fs, "the file of a log: %v", err)
				return
			}
		}
		judge := func(what string) bool {
			fs, err := logFiles(root, "ix")
			var res *hnsw.DeserializationResult
			if err == nil {
				res, err = replay(fs)
			}
			if err == nil {
				err = state.same(res, false)
			}
			if err != nil {
				bad("%d nodes, %s: %v", 2*nodes, what, err)
				return false
			}
			t.Eval("big log, "+what, fmt.Sprint(i))
			return true
		}
		if !judge("replay") {
			return
		}
		for k := 0; k < 2; k++ {
			if err := hnsw.NewMemoryCondensor(quiet()).Do(filepath.Join(dir, fmt.Sprint(1000+k*7))); err != nil {
				bad("condensing: %v", err)
				return
			}
			if !judge("condensed") {
				return
			}
		}
		if _, err := hnsw.NewCommitLogCombiner(root, "ix", 1<<30, quiet()).Do(); err != nil {
			bad("combining: %v", err)
			return
		}
		judge("combined")
	})
}

// background: entries are written while logs are switched, condensed and combined.
func background(t *mon.T, tmp string) {
	t.ParW("background", t.N(6, 40), 6, func(i int, r *rand.Rand) {
		root := filepath.Join(tmp, fmt.Sprint("bg", i))
		defer os.RemoveAll(root)
		l, addNode, err := openLogger(root, "ix", hnsw.WithCommitlogCycleTicker(cyclemanager.FixedIntervalTickerProvider(3*time.Millisecond)),
			hnsw.WithCommitlogThreshold(int64(2000+r.Intn(4000))), hnsw.WithCommitlogThresholdForCombining(int64(20000+r.Intn(90000))))
		if err != nil {
			t.Violate("log", nil, "the log cannot be opened: %v", err)
			return
		}
		var mu sync.Mutex
		state := newLState()
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			gr := t.Rand(fmt.Sprint("bg", i), g)
			go func(g uint64) {
				defer wg.Done()
				own := newLState() // every writer has nodes of its own
				for k := 0; k < 14; k++ {
					for _, o := range genOps(gr, own, 60, false, nil) {
						if o.Op == "SetEP" || o.Op == "Reset" || strings.HasSuffix(o.Op, "Tombstone") || o.Op == "ClearLinks" || o.Op == "DeleteNode" {
							continue
						}
						if o.Op == "AddNode" && own.nodes[o.ID] != nil {
							continue // would be added again after a deletion, which was left out
						}
						own.apply(o)
						o.ID = o.ID*4 + g
						if err := o.write(l, addNode); err != nil {
							t.Violate("log", nil, "%s was not logged: %v", o.Op, err)
							return
						}
						mu.Lock()
						state.apply(o)
						mu.Unlock()
					}
					if gr.Intn(3) == 0 {
						_ = l.Flush()
					}
					if gr.Intn(6) == 0 {
						_ = l.SwitchCommitLogs(true)
					}
					fx.Sleep(gr.Intn(150000))
				}
			}(uint64(g))
		}
		wg.Wait()
		_ = l.SwitchCommitLogs(true)
		fx.Sleep(20000)
		if l.Flush() != nil || l.Shutdown(context.Background()) != nil {
			t.Violate("log", nil, "the log cannot be closed")
			return
		}
		// nothing runs in the background any more
		if err := l.SwitchCommitLogs(true); err != nil {
			t.Violate("log", nil, "the log cannot be switched: %v", err)
			return
		}
		before := listing(root)
		fx.Sleep(60000)
		if after := listing(root); after != before {
			t.Violate("log", map[string]string{"before": before, "after": after}, "the files of a log that was shut down change")
			return
		}
		fs, err := logFiles(root, "ix")
		if err != nil {
			t.Violate("log", nil, "files of the log: %v", err)
			return
		}
		condensed := 0
		for _, f := range fs {
			if strings.HasSuffix(f, ".condensed") {
				condensed++
			}
		}
		t.Count("files condensed in the background", int64(condensed))
		res, err := replay(fs)
		if err == nil {
			err = state.same(res, false)
		}
		if err != nil {
			t.Violate("log", fs, "log written while it was switched and condensed: %v", err)
			return
		}
		t.Eval("background", fmt.Sprintf("%d/%d/%d", i, len(fs), len(state.nodes)))
	})
}

// listing: the files below a directory and their sizes.
func listing(root string) string {
	var sb strings.Builder
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			fmt.Fprintf(&sb, "%s %d\n", filepath.Base(p), fi.Size())
		}
		return nil
	})
	return sb.String()
}

// indexLog: the commit log of an index describes its graph.
func indexLog(t *mon.T, tmp string) {
	t.Par("index log", t.N(16, 150), func(i int, r *rand.Rand) {
		root := filepath.Join(tmp, fmt.Sprint("ix", i))
		defer os.RemoveAll(root)
		x := newIx(t, fmt.Sprint("indexlog", i), hnsw.UserConfig{MaxConnections: 4 + r.Intn(12), EFConstruction: 16 + r.Intn(50)})
		if x == nil {
			return
		}
		x.close()
		x.env.Log = root
		if !x.open() {
			return
		}
		defer func() {
			if x.idx != nil {
				x.close()
			}
		}()
		n := 20 + r.Intn(200)
		dim := 2 + r.Intn(6)
		if i%3 != 0 { // saved meanwhile, once or twice
			m := 1 + r.Intn(n-1)
			for k := 0; k < m; k++ {
				if !x.add(uint64(k), gauss(r, dim)) {
					return
				}
			}
			if !x.flush() || !saved(t, x, i, m) {
				return
			}
		}
		for k := len(x.vecs); k < n; k++ {
			if !x.add(uint64(k), gauss(r, dim)) {
				return
			}
		}
		if !x.flush() {
			return
		}
		fs, err := logFiles(root, "ix")
		if err != nil {
			t.Violate("log", nil, "files of the log of an index: %v", err)
			return
		}
		if !logIsGraph(t, x, i, n, "the log of an index", fs) {
			return
		}
		if i%3 == 1 && saved(t, x, i, n) {
			if err := interface{}(x.idx).(backup).Shutdown(context.Background()); err != nil {
				t.Violate("log", nil, "an index with a log cannot be shut down: %v", err)
			}
			x.idx = nil
		}
	})
}

// backup is how the files of an index are saved while it is in use.
type backup interface {
	PauseMaintenance(ctx context.Context) error
	SwitchCommitLogs(ctx context.Context) error
	ListFiles(ctx context.Context) ([]string, error)
	ResumeMaintenance(ctx context.Context) error
	Shutdown(ctx context.Context) error
}

// saved: the files an index lists for a backup hold what has been logged so far,
// and the index is used as before afterwards.
func saved(t *mon.T, x *ix, i, n int) bool {
	b, ok := interface{}(x.idx).(backup)
	if !ok {
		return true
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	err := b.PauseMaintenance(ctx)
	if err == nil {
		err = b.SwitchCommitLogs(ctx)
	}
	var list []string
	if err == nil {
		list, err = b.ListFiles(ctx)
	}
	if err != nil {
		t.Violate("backup", nil, "the files of an index cannot be listed for a backup: %v", err)
		return false
	}
	to, err := os.MkdirTemp(filepath.Dir(x.env.Log), "backup")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(to)
	for _, f := range list {
		raw, err := os.ReadFile(filepath.Join(x.env.Log, f))
		if err == nil {
			err = os.MkdirAll(filepath.Dir(filepath.Join(to, f)), 0o700)
		}
		if err == nil {
			err = os.WriteFile(filepath.Join(to, f), raw, 0o600)
		}
		if err != nil {
			t.Violate("backup", list, "a file listed for a backup: %v", err)
			return false
		}
	}
	if err := b.ResumeMaintenance(ctx); err != nil {
		t.Violate("backup", nil, "after a backup: %v", err)
		return false
	}
	fs, err := logFiles(to, "ix")
	if err != nil {
		t.Violate("backup", list, "the files listed for a backup are no log: %v", err)
		return false
	}
	t.Count("backups", 1)
	return logIsGraph(t, x, i, n, "the backup of the log of an index", fs)
}

// logIsGraph: replaying the files gives the graph of the index, with its nodes 0 to n.
func logIsGraph(t *mon.T, x *ix, i, n int, what string, fs []string) bool {
	bad := func(format string, a ...interface{}) bool {
		t.Violate("log", fs, what+": "+format, a...)
		return false
	}
	res, err := replay(fs)
	if err != nil {
		return bad("%v", err)
	}
	if res.Entrypoint != x.idx.Entrypoint() {
		return bad("it has entrypoint %d, the index %d", res.Entrypoint, x.idx.Entrypoint())
	}
	for k := 0; k < n; k++ {
		nd, err := x.stored(uint64(k))
		if err != nil {
			return bad("node %d is not stored: %v", k, err)
		}
		if nd == nil { // not the layout known here
			continue
		}
		if k >= len(res.Nodes) || res.Nodes[k] == nil {
			return bad("node %d of %d is not there", k, n)
		}
		v := res.Nodes[k]
		if v.Level != nd.Level {
			return bad("node %d has level %d, in the log %d", k, nd.Level, v.Level)
		}
		for l := 0; l < len(nd.Connections) || l < len(v.Connections); l++ {
			var a, b []uint64
			if l < len(nd.Connections) {
				a = append(a, nd.Connections[l]...)
			}
			if l < len(v.Connections) {
				b = append(b, v.Connections[l]...)
			}
			sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
			sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			if fmt.Sprint(a) != fmt.Sprint(b) {
				return bad("node %d has links %v at level %d, in the log %v", k, a, l, b)
			}
		}
		t.Eval("nodes of an index", fmt.Sprintf("%d/%d", i, k))
	}
	return true
}

// logFindings: entries about what an earlier log describes, in a log that is condensed.
func logFindings(t *mon.T, tmp string) {
	id := uint64(300000)
	first := []lop{{Op: "AddNode", ID: id, Level: 1}, {Op: "AddLink", ID: id, Target: 3}, {Op: "AddLink", ID: id, Level: 1, Target: 4},
		{Op: "AddTombstone", ID: id}, {Op: "SetEP", ID: id, Level: 1}}
	for _, o := range []lop{{Op: "ClearLinksAtLevel", ID: id, Level: 1}, {Op: "ClearLinksAtLevel", ID: id}, {Op: "ReplaceLinks", ID: id, Targets: []uint64{9}},
		{Op: "AddLink", ID: id, Target: 7}, {Op: "SetEP", ID: 3},
		{Op: "DeleteNode", ID: id}, {Op: "ClearLinks", ID: id}, {Op: "RemoveTombstone", ID: id}, {Op: "Reset"}} {
		root := filepath.Join(tmp, "finding-"+o.Op+fmt.Sprint(o.Level))
		dir := filepath.Join(root, "ix.hnsw.commitlog.d")
		state := newLState()
		var err error
		for k, ops := range [][]lop{first, {o}} {
			w := filepath.Join(root, fmt.Sprint("w", k))
			l, addNode, e := openLogger(w, "ix")
			if e != nil {
				t.Violate("log", nil, "the log cannot be opened: %v", e)
				return
			}
			for _, x := range ops {
				err = errors.Join(err, x.write(l, addNode))
				state.apply(x)
			}
			err = errors.Join(err, l.Flush(), l.Shutdown(context.Background()))
			fs, e := logFiles(w, "ix")
			if err = errors.Join(err, e); err != nil || len(fs) != 1 {
				t.Violate("log", nil, "the log cannot be written: %v", err)
				return
			}
			_ = os.MkdirAll(dir, 0o755)
			_ = os.Rename(fs[0], filepath.Join(dir, fmt.Sprint(1000+k)))
		}
		for _, condensed := range []bool{false, true} {
			if condensed {
				if err := hnsw.NewMemoryCondensor(quiet()).Do(filepath.Join(dir, "1001")); err != nil {
					t.Violate("log", o, "condensing: %v", err)
					return
				}
			}
			fs, err := logFiles(root, "ix")
			var res *hnsw.DeserializationResult
			if err == nil {
				res, err = replay(fs)
			}
			if err == nil {
				err = state.same(res, false)
			}
			t.Eval("entry about an earlier log", fmt.Sprint(o.Op, o.Level, condensed))
			if err == nil {
				continue
			}
			if condensed {
				t.Known("condensed "+o.Op, []lop{o}, "%s of a node of an earlier log, condensed: %v", o.Op, err)
			} else {
				t.Violate("log", []lop{o}, "%s of a node of an earlier log: %v", o.Op, err)
			}
		}
	}
}
