package checks

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"

	"faveverif/fx"
	"faveverif/mon"
)

func init() { All["C22"] = c22 }

const sepolia = 11155111

// site is what a fave-server is deployed with: a Bee, an Ethereum node, a
// vectorizer, a user.
type site struct {
	bee  *fx.Bee
	beeS *fx.BeeServer
	eth  string
	vec  *fx.Vectorizer
	end  func()
}

func newSite(dim int) (*site, error) {
	s, err := fx.NewStack(fx.StackOpts{Dim: dim}) // registers the user
	if err != nil {
		return nil, err
	}
	s.Stop()
	eth, err := fx.NewEthServer(s.Ens, sepolia, "fds", fx.Username)
	if err != nil {
		return nil, err
	}
	x := &site{bee: s.Bee, beeS: fx.NewBeeServer(s.Bee), eth: eth.URL, vec: fx.NewVectorizer(dim)}
	x.end = func() {
		x.beeS.CloseClientConnections()
		x.beeS.Close()
		eth.CloseClientConnections()
		eth.Close()
		x.vec.CloseClientConnections()
		x.vec.Close()
	}
	return x, nil
}

func (x *site) env(pod, stamp string) map[string]string {
	m := map[string]string{"BEE_API": x.beeS.URL, "RPC_API": x.eth, "VECTORIZER_URL": x.vec.URL, "USER": fx.Username, "PASSWORD": fx.Password, "POD": pod}
	if stamp != "" {
		m["STAMP_ID"] = stamp
	}
	return m
}

func (x *site) start(env map[string]string) (*fx.Proc, error) {
	var l []string
	for k, v := range env {
		l = append(l, k+"="+v)
	}
	return fx.StartProc(os.Getenv("VERIF_SERVER"), l, "--host", "127.0.0.1", "--port", "0", "--scheme", "http")
}

// C22: the server as it is started from the command line and the environment.
func c22(t *mon.T) {
	t.Rule = "one request answered by a fave-server process and compared with the model, or one start of it judged; distinct by history and request"
	serverHistories(t)
	serverStarts(t)
}

func serverHistories(t *mon.T) {
	t.ParW("c22", t.N(8, 60), 4, func(i int, r *rand.Rand) {
		dim := 4 + r.Intn(8)
		x, err := newSite(dim)
		if err != nil {
			t.Violate("start", nil, "FaVe does not start on an empty store: %v", err)
			return
		}
		defer x.end()
		// two pods: what is in one does not show in the other
		pods := []string{"podone", "Fave"}
		worlds := map[string]*hist{}
		for _, p := range pods {
			worlds[p] = &hist{World: &World{T: t, Cols: map[string]*MCol{}, dim: dim}, r: r, ids: map[string][]string{}, nov: map[string]bool{}, max: smallMax}
		}
		for run := 0; run < t.N(4, 6); run++ {
			pod := pods[0]
			if run%3 == 2 {
				pod = pods[1]
			}
			h := worlds[pod]
			stamp := ""
			if r.Intn(2) == 0 {
				stamp = fmt.Sprintf("%064x", r.Int63())
			}
			env := x.env(pod, stamp)
			if r.Intn(4) == 0 {
				env["VERBOSE"] = "true"
			}
			h.tr("server started for pod %s", pod)
			p, err := x.start(env)
			if err != nil || p.URL == "" {
				h.bad("start", "fave-server does not start (%v): %s", err, tail(p))
				return
			}
			t.Eval("servers started", fmt.Sprint(i, run))
			x.beeS.Stamps()
			st := &fx.Stack{Base: p.URL, Vec: x.vec, Bee: x.bee}
			h.S = st
			h.fronts = [2]Front{restFront{st}, restFront{st}}
			if !serverSession(t, h, r, fmt.Sprint(i, run)) {
				if p.Dead() {
					h.bad("died", "fave-server ended: %s", tail(p))
				}
				p.Kill()
				return
			}
			want := stamp
			if want == "" {
				want = strings.Repeat("0", 64)
			}
			for s, n := range x.beeS.Stamps() {
				if s != want {
					h.bad("stamp", "%d uploads carry the postage batch %q, configured is %q", n, s, want)
					p.Kill()
					return
				}
				t.Count("uploads with the configured batch", int64(n))
			}
			if p.Dead() {
				h.bad("died", "fave-server ended: %s", tail(p))
				return
			}
			if r.Intn(2) == 0 {
				h.tr("killed")
				p.Kill()
				t.Count("servers killed", 1)
			} else {
				h.tr("terminated")
				if c := p.Term(); c != 0 {
					h.bad("stop", "asked to end, fave-server ends with status %d: %s", c, tail(p))
					return
				}
				t.Count("servers stopped", 1)
			}
		}
		if i < 2 {
			t.Sample(worlds[pods[0]].Trace[:min(8, len(worlds[pods[0]].Trace))])
		}
	})
}

func tail(p *fx.Proc) string {
	if p == nil {
		return ""
	}
	l := p.Log()
	if len(l) > 3000 {
		l = l[len(l)-3000:]
	}
	return l
}

// serverSession: what was stored is there, and more is stored.
func serverSession(t *mon.T, h *hist, r *rand.Rand, key string) bool {
	f := h.fronts[0]
	check := func() bool {
		if !h.CheckList(f) {
			return false
		}
		for _, n := range h.names() {
			if !h.CheckAll(f, h.Cols[n]) {
				return false
			}
			t.Eval("collections compared", key+n+fmt.Sprint(len(h.Trace)))
		}
		return true
	}
	if !check() {
		return false
	}
	if res := h.S.Req("GET", "/", nil); res.Status != 200 || res.Err != nil {
		h.bad("root", "GET / is answered %d %v", res.Status, res.Err)
		return false
	}
	for step := 0; step < 5; step++ {
		switch k := r.Intn(6); {
		case k == 0 || len(h.Cols) == 0:
			if !h.Create(f, fmt.Sprintf("col-%s", strings.Repeat("x", 1+len(h.Trace)%17)), stdIdx) {
				return false
			}
		case k == 1 && len(h.Cols) > 1 && len(h.pickCol().Docs) < 2:
			c := h.pickCol()
			if len(c.Docs) > 1 {
				continue
			}
			if !h.DeleteCol(f, c.Name) {
				return false
			}
			h.ids[c.Name] = nil
			delete(h.nov, c.Name)
		default:
			if !h.addBatch(h.pickCol().Name, 1+r.Intn(6)) {
				return false
			}
		}
		t.Eval("changes acknowledged", key+fmt.Sprint(step))
	}
	// requests at the same time
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		q := gauss(r, h.dim)
		text := Words(r, 2)
		c := h.pickCol()
		wg.Add(1)
		go func() {
			defer wg.Done()
			hits, err := f.NearVec(c.Name, q, 2, 5)
			if err == nil {
				err = c.Sound(hits, q, 2, 5)
			}
			if err == nil && c.Added <= smallMax {
				err = c.Complete(hits, q, 2, 5)
			}
			if err != nil {
				h.bad("search", "search of %q: %v", c.Name, err)
				return
			}
			hits, err = f.NearText(c.Name, text, 2, 0)
			if err == nil {
				err = c.Sound(hits, fx.TextVec(text, h.dim), 2, 0)
			}
			if err != nil {
				h.bad("search", "text search of %q: %v", c.Name, err)
				return
			}
			t.Eval("searches compared", fmt.Sprint(key, text, q[0]))
		}()
	}
	wg.Wait()
	if t.Violations() > 0 {
		return false
	}
	// what is no request of the API
	for _, q := range []struct {
		method, path string
		status       int
	}{{"GET", "/nothing", 404}, {"PUT", "/collections", 405}, {"DELETE", "/documents", 405}, {"GET", "/nearest-documents", 405}, {"POST", "/collections/x", 405}} {
		res := h.S.Req(q.method, q.path, nil)
		if res.Err != nil || res.Status != q.status {
			h.bad("routes", "%s %s is answered %d %v, not %d", q.method, q.path, res.Status, res.Err, q.status)
			return false
		}
	}
	for _, q := range []struct {
		method, path, body string
	}{{"POST", "/collections", "{"}, {"POST", "/documents", `{"name":"none-such","documents":[]}`}, {"POST", "/nearest-documents-by-vector", `{"name":"none-such","vector":[1]}`},
		{"POST", "/nearest-documents", `{}`}, {"GET", "/documents?collection=none-such&property=id&value=1", ""}} {
		if bad := wrongAnswer(restAnswer(h.S.Req(q.method, q.path, q.body))); bad != "" {
			h.bad("bad-request", "%s %s %s: %s", q.method, q.path, q.body, bad)
			return false
		}
	}
	t.Eval("sets of unusable requests", key)
	// the description of the API it serves is the one in use
	resp, err := http.Get(h.S.Base + "/swagger.json")
	if err != nil {
		h.bad("spec", "the specification is not served: %v", err)
		return false
	}
	b, _ := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	var spec struct {
		Paths map[string]map[string]interface{}
	}
	if json.Unmarshal(b, &spec) != nil || len(spec.Paths) == 0 {
		h.bad("spec", "the specification served is no JSON: %d %.200q", resp.StatusCode, b)
		return false
	}
	for path, ms := range spec.Paths {
		for m := range ms {
			m = strings.ToUpper(m)
			res := h.S.Req(m, strings.ReplaceAll(path, "{collection}", "none-such"), "")
			if res.Err != nil || res.Status == 405 || res.Status == 501 || res.Status == 404 && path != "/documents" {
				h.bad("spec", "%s %s is specified but answered %d %v", m, path, res.Status, res.Err)
				return false
			}
			t.Eval("specified operations routed", m+path)
		}
	}
	return check()
}

// serverStarts: what cannot work is not started.
func serverStarts(t *mon.T) {
	x, err := newSite(6)
	if err != nil {
		t.Violate("start", nil, "FaVe does not start on an empty store: %v", err)
		return
	}
	defer x.end()
	other, err := fx.NewEthServer(nil, 5, "fds")
	if err != nil {
		return
	}
	defer other.Close()
	var sicks []*httptest.Server
	says := func(status int) string {
		sick := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(status) }))
		sicks = append(sicks, sick)
		return sick.URL
	}
	defer func() {
		for _, s := range sicks {
			s.Close()
		}
	}()
	cases := []struct{ name, key, value string }{
		{"a vectorizer that is not found", "VECTORIZER_URL", says(404)},
		{"a vectorizer that is not for us", "VECTORIZER_URL", says(401)},
		{"a vectorizer that fails", "VECTORIZER_URL", says(500)},
		{"wrong password", "PASSWORD", "notthepasswordnotthepassword"},
		{"no password", "PASSWORD", ""},
		{"unknown user", "USER", "nobodyatall"},
		{"no Bee", "BEE_API", "http://127.0.0.1:1"},
		{"not a Bee", "BEE_API", x.vec.URL},
		{"no Ethereum node", "RPC_API", "http://127.0.0.1:1"},
		{"another chain", "RPC_API", other.URL},
		{"no vectorizer", "VECTORIZER_URL", "http://127.0.0.1:1"},
		{"a vectorizer that is not ready", "VECTORIZER_URL", says(503)},
		{"a pod that cannot be made", "POD", strings.Repeat("p", 300)},
	}
	t.ParW("c22-starts", len(cases), 4, func(i int, r *rand.Rand) {
		c := cases[i]
		env := x.env("podone", "")
		env[c.key] = c.value
		p, err := x.start(env)
		if err != nil || p.URL != "" {
			t.Violate("start", map[string]interface{}{"env": env}, "started with %s, fave-server serves (%v)", c.name, err)
			if p != nil {
				p.Kill()
			}
			return
		}
		if s := p.Wait(); s == 0 {
			t.Violate("start", map[string]interface{}{"env": env}, "started with %s, fave-server ends with status 0", c.name)
			return
		}
		if strings.Contains(p.Log(), "panic:") || strings.Contains(p.Log(), "fatal error:") {
			t.Violate("crash", map[string]interface{}{"env": env}, "started with %s, fave-server crashes: %s", c.name, tail(p))
			return
		}
		t.Eval("starts refused", c.name)
	})
	// after all of that it starts
	p, err := x.start(x.env("podone", ""))
	if err != nil || p.URL == "" {
		t.Violate("start", nil, "fave-server does not start (%v): %s", err, tail(p))
		return
	}
	p.Kill()
}
