package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"

	"faveverif/mon"

	pq "github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/visited"
)

func init() { All["C19"] = c19 }

// anyQueue is what both queues have in common.
type anyQueue struct {
	insert   func(id, index uint64, d float32)
	pop, top func() [3]interface{} // id, index, distance
	ln       func() int
	capa     func() int
	reset    func()
	resetCap func(n int)
	index    bool
}

func queues(r *rand.Rand, max bool) anyQueue {
	c := r.Intn(20)
	if r.Intn(2) == 0 {
		q := pq.NewMin(c)
		if max {
			q = pq.NewMax(c)
		}
		it := func(i pq.Item) [3]interface{} { return [3]interface{}{i.ID, uint64(0), i.Dist} }
		return anyQueue{func(id, _ uint64, d float32) { q.Insert(id, d) }, func() [3]interface{} { return it(q.Pop()) }, func() [3]interface{} { return it(q.Top()) },
			q.Len, q.Cap, q.Reset, q.ResetCap, false}
	}
	q := pq.NewMinWithIndex(c)
	if max {
		q = pq.NewMaxWithIndex(c)
	}
	it := func(i pq.ItemWithIndex) [3]interface{} { return [3]interface{}{i.ID, i.Index, i.Dist} }
	return anyQueue{func(id, ix uint64, d float32) { q.Insert(id, ix, d) }, func() [3]interface{} { return it(q.Pop()) }, func() [3]interface{} { return it(q.Top()) },
		q.Len, q.Cap, q.Reset, q.ResetCap, true}
}

type qItem struct {
	id, ix uint64
	d      float32
}

// C19: the containers every search works with.
func c19(t *mon.T) {
	t.Rule = "one answer of a queue or a visited list judged against a plain model; distinct by container, operation and content"
	t.Par("queue", t.N(6000, 60000), func(i int, r *rand.Rand) {
		max := r.Intn(2) == 0
		q := queues(r, max)
		var model []qItem
		hist := []string{}
		note := func(f string, a ...interface{}) {
			if len(hist) < 400 {
				hist = append(hist, fmt.Sprintf(f, a...))
			}
		}
		bad := func(f string, a ...interface{}) {
			t.Violate("queue", hist, "queue (max first: %v, with index: %v): %s", max, q.index, fmt.Sprintf(f, a...))
		}
		ops := 5 + r.Intn(120)
		if r.Intn(20) == 0 {
			ops = 3000
		}
		grow := 3 + r.Intn(6) // of 10
		vals := []float32{-1, 0, 1, 2, 2.5, 1e-9, 1e9}
		next := uint64(0)
		judge := func(got [3]interface{}, remove bool) bool {
			best := model[0].d
			for _, m := range model {
				if (max && m.d > best) || (!max && m.d < best) {
					best = m.d
				}
			}
			for k, m := range model {
				ix := m.ix
				if !q.index {
					ix = 0
				}
				if m.id == got[0] && ix == got[1] && m.d == got[2] {
					if m.d != best {
						bad("gave %v, but there is %v", got, best)
						return false
					}
					if remove {
						model = append(model[:k:k], model[k+1:]...)
					}
					return true
				}
			}
			bad("gave %v, which it does not hold", got)
			return false
		}
		for o := 0; o < ops; o++ {
			switch {
			case r.Intn(40) == 0:
				if r.Intn(2) == 0 {
					note("Reset")
					q.reset()
				} else {
					c := r.Intn(30)
					note("ResetCap %d", c)
					q.resetCap(c)
					if q.capa() < c {
						bad("capacity %d after ResetCap(%d)", q.capa(), c)
						return
					}
				}
				model = nil
			case len(model) == 0 || r.Intn(10) < grow:
				it := qItem{next, uint64(r.Intn(1000)), r.Float32()}
				next++
				switch r.Intn(5) {
				case 0: // equal distances
					it.d = vals[r.Intn(len(vals))]
				case 1:
					it.d = float32(r.Intn(8))
				case 2: // rising or falling
					it.d = float32(o)
					if i%2 == 0 {
						it.d = -it.d
					}
				}
				if r.Intn(30) == 0 && len(model) > 0 {
					it.id = model[r.Intn(len(model))].id
				}
				if r.Intn(50) == 0 {
					it.id = ^uint64(0) - uint64(r.Intn(3))
				}
				note("Insert %v", it)
				q.insert(it.id, it.ix, it.d)
				model = append(model, it)
			case r.Intn(4) == 0:
				g := q.top()
				note("Top %v", g)
				if !judge(g, false) {
					return
				}
			default:
				g := q.pop()
				note("Pop %v", g)
				if !judge(g, true) {
					return
				}
			}
			if q.ln() != len(model) {
				bad("Len is %d, want %d", q.ln(), len(model))
				return
			}
			t.Eval("queue operations", fmt.Sprintf("%v/%v/%d/%d", max, q.index, len(model), o%64))
		}
		for len(model) > 0 {
			g := q.pop()
			note("Pop %v", g)
			if !judge(g, true) {
				return
			}
			t.Eval("queue drained", fmt.Sprintf("%v/%v/%d", max, q.index, len(model)))
		}
		if q.ln() != 0 {
			bad("Len is %d when empty", q.ln())
		}
	})

	// the visited list: a set that is emptied many times
	t.Par("visited", t.N(800, 8000), func(i int, r *rand.Rand) {
		size := []int{0, 1, 2, 7, 100, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 5000}[r.Intn(13)]
		l := visited.NewList(size)
		set := map[uint64]bool{}
		top := uint64(size)
		rounds := 2 + r.Intn(8)
		if r.Intn(2) == 0 {
			rounds = 500 + r.Intn(600) // the marker is one byte
		}
		bad := func(f string, a ...interface{}) {
			t.Violate("visited", map[string]interface{}{"size": size, "i": i}, "visited list of size %d: %s", size, fmt.Sprintf(f, a...))
		}
		if l.Len() < size {
			bad("Len is %d", l.Len())
			return
		}
		// some nodes are visited in a single round only, long before
		for k := 0; k < rounds; k++ {
			for v := 0; v < r.Intn(6); v++ {
				n := uint64(r.Intn(size + 1))
				switch r.Intn(12) {
				case 0: // at the end
					n = top
				case 1: // beyond it, by little or far
					n = top + uint64(r.Intn(3))
				case 2:
					if top < 60000 {
						n = top + uint64(r.Intn(4000))
					}
				}
				if n > top {
					top = n
				}
				l.Visit(n)
				set[n] = true
			}
			probe := []uint64{0, top, top + 1, top + 5000, uint64(l.Len()), uint64(l.Len() + 1)}
			if l.Len() > 0 {
				probe = append(probe, uint64(l.Len()-1))
			}
			for n := range set {
				probe = append(probe, n, n+1)
				if n > 0 {
					probe = append(probe, n-1)
				}
			}
			for z := 0; z < 4; z++ {
				probe = append(probe, uint64(r.Int63n(int64(top)+1)))
			}
			for _, n := range probe {
				if got := l.Visited(n); got != set[n] {
					bad("round %d: Visited(%d) is %v, want %v", k, n, got, set[n])
					return
				}
			}
			t.Eval("visited rounds", fmt.Sprintf("%d/%d/%d", size, k%300, len(set)))
			if r.Intn(8) > 0 || rounds > 400 {
				l.Reset()
				set = map[uint64]bool{}
			}
		}
	})

	// the pool: a list that was borrowed is empty and nobody else's
	t.Par("pool", t.N(300, 3000), func(i int, r *rand.Rand) {
		size := []int{1, 50, 1000, 3000}[r.Intn(4)]
		p := visited.NewPool(r.Intn(4), size)
		type held struct {
			l   visited.ListSet
			set map[uint64]bool
		}
		var out []*held
		for o := 0; o < 400; o++ {
			switch {
			case len(out) == 0 || r.Intn(5) < 2 && len(out) < 12:
				h := &held{p.Borrow(), map[uint64]bool{}}
				for n := 0; n < size+10; n++ {
					if h.l.Visited(uint64(n)) {
						t.Violate("pool", i, "a borrowed list (size %d, operation %d) has %d visited", size, o, n)
						return
					}
				}
				out = append(out, h)
			case r.Intn(2) == 0:
				h := out[r.Intn(len(out))]
				n := uint64(r.Intn(size))
				if r.Intn(25) == 0 {
					n = uint64(r.Intn(size * 3))
				}
				h.l.Visit(n)
				h.set[n] = true
			default:
				k := r.Intn(len(out))
				p.Return(out[k].l)
				out = append(out[:k], out[k+1:]...)
			}
			for _, h := range out {
				for n := range h.set {
					if !h.l.Visited(n) {
						t.Violate("pool", i, "a list that is lent out lost %d", n)
						return
					}
				}
				n := uint64(r.Intn(size))
				if h.l.Visited(n) != h.set[n] {
					t.Violate("pool", i, "lists that are lent out at the same time share %d", n)
					return
				}
			}
			t.Eval("pool operations", fmt.Sprintf("%d/%d/%d", size, len(out), o))
		}
		p.Destroy()
		l := p.Borrow()
		l.Visit(3)
		if !l.Visited(3) || l.Visited(2) {
			t.Violate("pool", i, "a list borrowed after Destroy does not work")
		}
	})

	// the pool is used by several searches at a time
	t.ParW("pool concurrently", t.N(20, 200), 2, func(i int, r *rand.Rand) {
		p := visited.NewPool(2, 64)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; k < 300; k++ {
					l := p.Borrow()
					for n := uint64(0); n < 64; n++ {
						if l.Visited(n) {
							t.Violate("pool", i, "a list borrowed concurrently has %d visited", n)
							return
						}
					}
					l.Visit(uint64(g))
					l.Visit(uint64(8 + k%50))
					for n := uint64(0); n < 8; n++ {
						if l.Visited(n) != (n == uint64(g)) {
							t.Violate("pool", i, "two searches hold the same list")
							return
						}
					}
					p.Return(l)
				}
			}(g)
		}
		wg.Wait()
		t.Eval("pool concurrently", fmt.Sprint(i))
	})
	_ = sort.Ints
}
