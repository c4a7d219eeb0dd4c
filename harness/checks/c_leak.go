package checks

import (
	"context"
	"fmt"
	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"faveverif/fx"
	"faveverif/mon"

	"github.com/fairDataSociety/FaVe/pkg/document"
)

func init() { All["C23"] = c23 }

// use is what the process holds at a moment nothing is asked of it.
type use struct {
	own   map[string]int // goroutines of FaVe, by what they do
	all   int
	files int
	heap  int64
}

var createdBy = regexp.MustCompile(`(?m)^created by (\S+)`)

func goroutines() (own map[string]int, all int) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	own = map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		all++
		if !strings.Contains(g, "fairDataSociety/FaVe/") {
			continue
		}
		who := "main"
		if m := createdBy.FindStringSubmatch(g); m != nil {
			who = m[1]
		}
		own[who]++
	}
	return own, all
}

func files() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(es)
}

func now() use {
	var u use
	u.own, u.all = goroutines()
	u.files = files()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	u.heap = int64(m.HeapAlloc)
	return u
}

// settled waits until nothing more goes away: a goroutine that is about to end
// or a connection about to be closed is no leak.
func settled(t *mon.T, base *use) use {
	u := now()
	for i := 0; i < 60; i++ {
		if base != nil && u.over(base, 0) == "" {
			return u
		}
		time.Sleep(100 * time.Millisecond)
		t.Step()
		v := now()
		if base == nil && i > 5 && v.all >= u.all && v.files >= u.files {
			return v
		}
		u = v
	}
	return u
}

// over says what of u there is more of than in b and slack together.
func (u *use) over(b *use, slack int) string {
	var out []string
	for who, n := range u.own {
		if n > b.own[who]+slack {
			out = append(out, fmt.Sprintf("%d goroutines started by %s, %d before", n, who, b.own[who]))
		}
	}
	if u.files > b.files+slack {
		out = append(out, fmt.Sprintf("%d files and connections open, %d before", u.files, b.files))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// C23: what has been answered leaves nothing running, open or kept.
func c23(t *mon.T) {
	t.Rule = "one round of requests after which the goroutines, open files and memory of the process are compared with those before; distinct by workload and round"
	rounds := t.N(24, 150)
	doc := func(i int) *document.Document {
		return &document.Document{ID: fmt.Sprintf("00000000-0000-4000-8000-%012d", i), Properties: map[string]interface{}{"title": fmt.Sprintf("title %06d", i)}}
	}
	vec := func(r *rand.Rand) []float32 { return gauss(r, 8) }
	part := func(name string, perRound int64, setup func(s *fx.Stack) (*fx.Stack, error), round func(s *fx.Stack, r *rand.Rand, k int) error) {
		s, err := fx.NewStack(fx.StackOpts{Dim: 8})
		if err != nil {
			t.Violate("start", nil, "FaVe does not start on an empty store: %v", err)
			return
		}
		defer func() {
			s.Stop()
			http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		}()
		// one thing at a time here, so the service may keep its connections
		s.Vec.Server.Config.SetKeepAlivesEnabled(true)
		if s, err = setup(s); err != nil {
			t.Violate("valid-refused", nil, "%s: %v", name, err)
			return
		}
		r := t.Rand("c23-"+name, 0)
		for k := 0; k < 4; k++ { // whatever is set up once is by now
			if err := round(s, r, k); err != nil {
				t.Violate("valid-refused", nil, "%s, round %d: %v", name, k, err)
				return
			}
		}
		base := settled(t, nil)
		for k := 4; k < 4+rounds; k++ {
			t.Step()
			if err := round(s, r, k); err != nil {
				t.Violate("valid-refused", nil, "%s, round %d: %v", name, k, err)
				return
			}
			t.Eval("rounds of requests", fmt.Sprint(name, k))
		}
		end := settled(t, &base)
		if d := end.over(&base, rounds/3); d != "" {
			t.Violate("leak", map[string]interface{}{"workload": name, "rounds": rounds}, "%s: after %d rounds of requests were answered there are %s", name, rounds, d)
		}
		grown := (end.heap - base.heap) / int64(rounds)
		t.Max("bytes of heap a round of "+name+" leaves", grown)
		if perRound > 0 && grown > perRound {
			t.Violate("kept", map[string]interface{}{"workload": name, "rounds": rounds}, "%s: every round leaves %d bytes in memory", name, grown)
		}
		t.Max("goroutines of FaVe after "+name, int64(len(end.own)))
		t.Max("open files after "+name, int64(end.files))
		t.Sample(map[string]interface{}{"workload": name, "before": fmt.Sprint(base.own, base.all, base.files), "after": fmt.Sprint(end.own, end.all, end.files)})
	}
	ok := func(r fx.Resp, want int) error {
		if r.Err != nil {
			return r.Err
		}
		if r.Status != want {
			return fmt.Errorf("status %d: %.200s", r.Status, r.Body)
		}
		return nil
	}
	none := func(s *fx.Stack) (*fx.Stack, error) { return s, nil }
	one := func(s *fx.Stack) (*fx.Stack, error) {
		if err := s.Doc.CreateCollection(&document.Collection{Name: "c"}); err != nil {
			return s, err
		}
		return s, s.Doc.AddDocuments("c", []string{"title"}, doc(999990), doc(999991), doc(999992))
	}
	part("serving", 0, one, func(s *fx.Stack, r *rand.Rand, k int) error {
		if k%4 == 0 {
			if err := s.Doc.AddDocuments("c", []string{"title"}, doc(k)); err != nil {
				return err
			}
		}
		for j := 0; j < 3; j++ {
			if err := ok(s.Req(http.MethodPost, "/nearest-documents-by-vector", map[string]interface{}{"name": "c", "vector": vec(r), "distance": 2, "limit": 3}), 200); err != nil {
				return err
			}
			if err := ok(s.Req(http.MethodPost, "/nearest-documents", map[string]interface{}{"name": "c", "text": fmt.Sprint("some text ", k, j), "distance": 2, "limit": 3}), 200); err != nil {
				return err
			}
		}
		if err := ok(s.Req(http.MethodGet, "/documents?collection=c&property=id&value="+doc(999990).ID, nil), 200); err != nil {
			return err
		}
		return ok(s.Req(http.MethodGet, "/collections", nil), 200)
	})
	part("refused requests", 0, one, func(s *fx.Stack, r *rand.Rand, k int) error {
		for _, x := range []fx.Resp{
			s.Req(http.MethodPost, "/nearest-documents-by-vector", map[string]interface{}{"name": "c", "vector": []float32{1}, "distance": 2, "limit": 3}),
			s.Req(http.MethodPost, "/nearest-documents-by-vector", map[string]interface{}{"name": "nosuch", "vector": vec(r), "distance": 2, "limit": 3}),
			s.Req(http.MethodPost, "/nearest-documents", map[string]interface{}{"name": "nosuch", "text": "x", "distance": 2, "limit": 3}),
			s.Req(http.MethodPost, "/nearest-documents", "{"),
			s.Req(http.MethodPost, "/documents", map[string]interface{}{"name": "nosuch", "documents": []interface{}{map[string]interface{}{"id": doc(k).ID, "properties": map[string]interface{}{"title": "x"}}}, "propertiesToVectorize": []string{"title"}}),
			s.Req(http.MethodPost, "/documents", map[string]interface{}{"name": "c", "documents": []interface{}{map[string]interface{}{"id": doc(k).ID, "properties": map[string]interface{}{"title": "x", "vector": "no"}}}, "propertiesToVectorize": []string{"title"}}),
			s.Req(http.MethodGet, "/documents?collection=nosuch&property=id&value=1", nil),
		} {
			if x.Err != nil || x.Status < 400 {
				return fmt.Errorf("status %d, %v", x.Status, x.Err)
			}
		}
		return nil
	})
	part("a failing vectorizer", 0, one, func(s *fx.Stack, r *rand.Rand, k int) error {
		s.Vec.SetRaw(func(string) (int, []byte) {
			switch k % 5 {
			case 4: // slow, and failing in the end
				time.Sleep(20 * time.Millisecond)
				return 503, nil
			case 0:
				return 500, []byte(strings.Repeat("sorry ", 4000))
			case 1:
				return 200, []byte("{")
			case 2:
				return 404, nil
			}
			return 200, []byte(`{"vectors":[]}` + strings.Repeat(" ", 30000))
		})
		defer s.Vec.SetRaw(nil)
		for j := 0; j < 4; j++ {
			if x := s.Req(http.MethodPost, "/nearest-documents", map[string]interface{}{"name": "c", "text": "x", "distance": 2, "limit": 3}); x.Err != nil || x.Status < 400 {
				return fmt.Errorf("status %d, %v", x.Status, x.Err)
			}
		}
		if err := s.Doc.AddDocuments("c", []string{"title"}, doc(k)); err == nil {
			return fmt.Errorf("documents are added without a vectorizer")
		}
		return nil
	})
	for first := 0; first < t.N(3, 10); first++ {
		part(fmt.Sprintf("a store that fails after %d reads", first), 600_000, func(s *fx.Stack) (*fx.Stack, error) {
			if s, err := one(s); err != nil {
				return s, err
			}
			n, err := s.Restart(nil)
			if err != nil {
				return s, err
			}
			s.Stop()
			return n, nil
		}, func(s *fx.Stack, r *rand.Rand, k int) error {
			// the collection cannot be opened, or only in part
			left := int64(0)
			if k == 0 {
				left = int64(first)
			}
			s.Bee.SetHook(func(kind fx.OpKind) error {
				if kind == fx.OpReadBlob {
					if atomic.AddInt64(&left, -1) < 0 {
						return fx.ErrInjected
					}
				}
				return nil
			})
			defer s.Bee.SetHook(func(fx.OpKind) error { return nil })
			_, _, _ = s.Doc.GetNearDocumentsByVector("c", vec(r), 2, 3)
			_, _ = s.Doc.GetDocument("c", "id", doc(999990).ID)
			return nil
		})
	}
	name := func(k int) string { return fmt.Sprintf("col%c%c%c", 'a'+k/400, 'a'+k/20%20, 'a'+k%20) }
	part("collections deleted again", 600_000, none, func(s *fx.Stack, r *rand.Rand, k int) error {
		if err := s.Doc.CreateCollection(&document.Collection{Name: name(k)}); err != nil {
			return err
		}
		if err := s.Doc.AddDocuments(name(k), []string{"title"}, doc(k)); err != nil {
			return err
		}
		if _, _, err := s.Doc.GetNearDocumentsByVector(name(k), vec(r), 2, 1); err != nil {
			return err
		}
		return s.Doc.DeleteCollection(name(k))
	})
	part("collections deleted unused", 600_000, none, func(s *fx.Stack, r *rand.Rand, k int) error {
		if err := s.Doc.CreateCollection(&document.Collection{Name: name(k)}); err != nil {
			return err
		}
		return s.Doc.DeleteCollection(name(k))
	})
	part("a collection created that exists", 600_000, one, func(s *fx.Stack, r *rand.Rand, k int) error {
		_ = s.Doc.CreateCollection(&document.Collection{Name: "c"})
		return s.Doc.DeleteCollection("nosuch")
	})
	opened(t)
	closed(t)
}

// closed: an index that was dropped or shut down runs nothing any more.
func closed(t *mon.T) {
	tmp, err := os.MkdirTemp("", "c23")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	for round, way := range []string{"dropped", "shut down", "dropped with its log"} {
		r := t.Rand("c23-closed", round)
		one := func(k int) bool {
			x := newIx(t, fmt.Sprintf("%s #%d", way, k), hnsw.UserConfig{})
			if x == nil {
				return false
			}
			if round == 2 {
				x.close()
				x.env.Log = filepath.Join(tmp, fmt.Sprint(k))
				if !x.open() {
					return false
				}
			}
			for id := uint64(0); id < 12; id++ {
				if !x.add(id, gauss(r, 4)) {
					return false
				}
			}
			if !x.flush() {
				return false
			}
			if _, _, err := x.idx.SearchByVector(gauss(r, 4), 3, nil); err != nil {
				return x.bad("valid-refused", "%v", err)
			}
			b, ok := interface{}(x.idx).(backup)
			if round == 1 && ok {
				err = b.Shutdown(context.Background())
			} else {
				err = x.idx.Drop(context.Background())
			}
			if err != nil {
				return x.bad("valid-refused", "%v", err)
			}
			return true
		}
		if !one(0) {
			return
		}
		base := settled(t, nil)
		for k := 1; k <= 10; k++ {
			if !one(k) {
				return
			}
		}
		end := settled(t, &base)
		if d := end.over(&base, 2); d != "" {
			t.Violate("leak", nil, "10 indexes that were %s leave: %s", way, d)
		}
		t.Eval("rounds of requests", way)
	}
}

// opened: a collection that many ask for at once when it is not open yet is
// opened as one that is asked for once.
func opened(t *mon.T) {
	const n = 6
	s, err := fx.NewStack(fx.StackOpts{Dim: 8})
	if err != nil {
		t.Violate("start", nil, "FaVe does not start on an empty store: %v", err)
		return
	}
	defer func() { s.Stop() }()
	r := t.Rand("c23-opened", 0)
	for k := 0; k < 2*n; k++ {
		c := fmt.Sprintf("col%c", 'a'+k)
		err := s.Doc.CreateCollection(&document.Collection{Name: c})
		if err == nil {
			err = s.Doc.AddDocuments(c, nil, &document.Document{ID: "00000000-0000-4000-8000-000000000001", Properties: map[string]interface{}{"vector": gauss(r, 8)}})
		}
		if err != nil {
			t.Violate("valid-refused", nil, "collection %d: %v", k, err)
			return
		}
	}
	s2, err := s.Restart(nil)
	if err != nil {
		t.Violate("start", nil, "FaVe does not start again: %v", err)
		return
	}
	s.Stop()
	s = s2
	_, _, _ = s.Doc.GetNearDocumentsByVector("nosuch", gauss(r, 8), 2, 1)
	ask := func(from, to, times int) {
		for k := from; k < to; k++ {
			q := gauss(r, 8)
			var wg sync.WaitGroup
			for j := 0; j < times; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					docs, _, err := s.Doc.GetNearDocumentsByVector(fmt.Sprintf("col%c", 'a'+k), q, 2, 1)
					if err != nil || len(docs) != 1 {
						t.Violate("valid-refused", nil, "collection %d: %d documents, %v", k, len(docs), err)
					}
				}()
			}
			wg.Wait()
		}
	}
	base := settled(t, nil)
	ask(0, n, 1)
	once := settled(t, nil)
	ask(n, 2*n, 12)
	want := use{own: map[string]int{}, files: 2*once.files - base.files}
	for who, c := range once.own {
		want.own[who] = 2*c - base.own[who]
	}
	end := settled(t, &want)
	if d := end.over(&want, 1); d != "" {
		t.Violate("leak", nil, "%d collections opened by twelve searches at once leave more than %d opened by one: %s", n, n, d)
	}
	t.Eval("rounds of requests", "opened")
}
