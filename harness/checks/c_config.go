package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"faveverif/fx"
	"faveverif/mon"

	"github.com/fairDataSociety/FaVe/adapters/handlers"
	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/weaviate/weaviate/entities/schema"
	ent "github.com/weaviate/weaviate/entities/vectorindex/hnsw"
)

func init() { All["C20"] = c20 }

// C20: what is configured is what is used.
func c20(t *mon.T) {
	t.Rule = "one configuration parsed, validated, updated or read from the environment and compared with what was asked for, or one search under a configured ef compared with the full one; distinct by configuration"
	parsed(t)
	updates(t)
	environment(t)
	valid(t)
	searchEF(t)
}

type intField struct {
	name string
	def  int
	get  func(hnsw.UserConfig) int
}

var intFields = []intField{
	{"maxConnections", 64, func(c hnsw.UserConfig) int { return c.MaxConnections }},
	{"cleanupIntervalSeconds", 300, func(c hnsw.UserConfig) int { return c.CleanupIntervalSeconds }},
	{"efConstruction", 128, func(c hnsw.UserConfig) int { return c.EFConstruction }},
	{"ef", -1, func(c hnsw.UserConfig) int { return c.EF }},
	{"dynamicEfFactor", 8, func(c hnsw.UserConfig) int { return c.DynamicEFFactor }},
	{"dynamicEfMax", 500, func(c hnsw.UserConfig) int { return c.DynamicEFMax }},
	{"dynamicEfMin", 100, func(c hnsw.UserConfig) int { return c.DynamicEFMin }},
	{"vectorCacheMaxObjects", 1e12, func(c hnsw.UserConfig) int { return c.VectorCacheMaxObjects }},
	{"flatSearchCutoff", 40000, func(c hnsw.UserConfig) int { return c.FlatSearchCutoff }},
}

var pqIntFields = []intField{
	{"segments", 0, func(c hnsw.UserConfig) int { return c.PQ.Segments }},
	{"centroids", 256, func(c hnsw.UserConfig) int { return c.PQ.Centroids }},
}

// parsed: hnsw.ParseAndValidateConfig, with any part of the fields given, as
// numbers of either kind.
func parsed(t *mon.T) {
	t.Par("c20-parse", t.N(20000, 300000), func(i int, r *rand.Rand) {
		in := map[string]interface{}{}
		want := map[string]interface{}{}
		var refuse []string
		putInt := func(m map[string]interface{}, prefix string, f intField) {
			want[prefix+f.name] = f.def
			if r.Intn(3) > 0 {
				return
			}
			var v int64
			switch r.Intn(6) {
			case 0:
				v = int64(r.Intn(10)) - 2
			case 1:
				v = int64(r.Intn(3)) + 3 // around the smallest allowed
			case 2:
				v = int64(r.Intn(1 << 20))
			case 3:
				v = r.Int63n(1 << 53)
			default:
				v = int64(r.Intn(1000))
			}
			switch k := r.Intn(20); {
			case k < 8:
				m[f.name] = float64(v)
			case k == 8: // more than fits
				m[f.name] = json.Number(fmt.Sprintf("%d%d", uint64(math.MaxUint64), r.Intn(1000)))
				v = math.MaxInt64
			case k == 9:
				m[f.name] = json.Number([]string{"", "abc", "1.5", "1e3", "--1", "0x10"}[r.Intn(6)])
				refuse = append(refuse, f.name+" is not a whole number")
			case k == 10:
				m[f.name] = json.Number(fmt.Sprint(int64(math.MaxInt64 - r.Intn(3))))
				v, _ = m[f.name].(json.Number).Int64()
			default:
				m[f.name] = json.Number(fmt.Sprint(v))
			}
			want[prefix+f.name] = int(v)
		}
		for _, f := range intFields {
			putInt(in, "", f)
		}
		want["skip"], want["distance"] = false, "cosine"
		if r.Intn(3) == 0 {
			b := r.Intn(2) == 0
			in["skip"], want["skip"] = b, b
		}
		if r.Intn(3) == 0 {
			d := []string{"cosine", "dot", "l2-squared", "manhattan", "hamming"}[r.Intn(5)]
			in["distance"], want["distance"] = d, d
		}
		want["pq.enabled"], want["pq.bitCompression"], want["pq.type"], want["pq.distribution"] = false, false, "kmeans", "log-normal"
		pq, enc := map[string]interface{}{}, map[string]interface{}{}
		sub := map[string]interface{}{}
		for _, f := range pqIntFields {
			putInt(sub, "pq.", f)
		}
		if r.Intn(2) == 0 {
			pq = sub
			for _, k := range []string{"enabled", "bitCompression"} {
				if r.Intn(2) == 0 {
					b := r.Intn(2) == 0
					pq[k], want["pq."+k] = b, b
				}
			}
			if r.Intn(2) == 0 {
				pick := func(key string, good []string) {
					if r.Intn(2) == 0 {
						return
					}
					v := good[r.Intn(2)]
					if r.Intn(8) == 0 {
						v = []string{"", "Tile", "kmean", "lognormal", "normal ", "kmeans ", "tile,kmeans"}[r.Intn(7)]
						refuse = append(refuse, "no such encoder "+key)
					}
					enc[key], want["pq."+key] = v, v
				}
				pick("type", []string{"tile", "kmeans"})
				pick("distribution", []string{"log-normal", "normal"})
				pq["encoder"] = enc
			}
			in["pq"] = pq
		} else {
			refuse = keep(refuse, func(s string) bool { return !strings.HasPrefix(s, "segments") && !strings.HasPrefix(s, "centroids") })
			want["pq.segments"], want["pq.centroids"] = 0, 256
		}
		if r.Intn(4) == 0 {
			in["unknown"] = "x"
		}
		if len(refuse) == 0 {
			if want["maxConnections"].(int) < 4 {
				refuse = append(refuse, "maxConnections below 4")
			}
			if want["efConstruction"].(int) < 4 {
				refuse = append(refuse, "efConstruction below 4")
			}
		}
		key := fmt.Sprint(in)
		out, err := hnsw.ParseAndValidateConfig(in)
		if len(refuse) > 0 {
			if err == nil {
				t.Violate("accepted", map[string]interface{}{"input": key}, "the configuration %v is accepted though %v", key, refuse)
				return
			}
			t.Eval("configurations refused", key)
			return
		}
		if err != nil {
			t.Violate("valid-refused", map[string]interface{}{"input": key}, "the configuration %v is refused: %v", key, err)
			return
		}
		uc, ok := out.(hnsw.UserConfig)
		if !ok {
			t.Violate("type", nil, "parsing gives a %T", out)
			return
		}
		if bad := differs(uc, want); bad != "" {
			t.Violate("parsed", map[string]interface{}{"input": key}, "the configuration %v: %s", key, bad)
			return
		}
		t.Eval("configurations parsed", key)
		if i < 3 {
			t.Sample(key)
		}
		// written as JSON and read again, by either kind of decoder
		raw, _ := json.Marshal(uc)
		for _, num := range []bool{true, false} {
			big := false
			for _, w := range want {
				if n, ok := w.(int); ok && n > 1<<53 {
					big = true
				}
			}
			if !num && big {
				continue // not a float64
			}
			d := json.NewDecoder(bytes.NewReader(raw))
			if num {
				d.UseNumber()
			}
			var again map[string]interface{}
			if err := d.Decode(&again); err != nil {
				t.Violate("roundtrip", nil, "the configuration does not decode: %v", err)
				return
			}
			o2, err := hnsw.ParseAndValidateConfig(again)
			if err != nil || !reflect.DeepEqual(o2, out) {
				t.Violate("roundtrip", map[string]interface{}{"json": string(raw)}, "the configuration %s reads back as %+v (%v)", raw, o2, err)
				return
			}
			t.Eval("configurations read back", key+fmt.Sprint(num))
		}
	})
	// what is no configuration
	for _, in := range []interface{}{"x", 1, []interface{}{}, map[string]interface{}(nil), map[string]string{}} {
		if _, err := hnsw.ParseAndValidateConfig(in); err == nil {
			t.Violate("accepted", nil, "%#v is accepted as a configuration", in)
		}
		t.Eval("configurations refused", fmt.Sprintf("%#v", in))
	}
	def := hnsw.NewDefaultUserConfig()
	for _, in := range []interface{}{nil, map[string]interface{}{}} {
		if out, err := hnsw.ParseAndValidateConfig(in); err != nil || !reflect.DeepEqual(out, schema.VectorIndexConfig(def)) {
			t.Violate("defaults", nil, "nothing given: %+v, %v, not the defaults %+v", out, err, def)
		}
	}
}

func keep(l []string, f func(string) bool) (out []string) {
	for _, s := range l {
		if f(s) {
			out = append(out, s)
		}
	}
	return
}

func differs(uc hnsw.UserConfig, want map[string]interface{}) string {
	got := map[string]interface{}{"skip": uc.Skip, "distance": uc.Distance, "pq.enabled": uc.PQ.Enabled, "pq.bitCompression": uc.PQ.BitCompression,
		"pq.type": uc.PQ.Encoder.Type, "pq.distribution": uc.PQ.Encoder.Distribution}
	for _, f := range intFields {
		got[f.name] = f.get(uc)
	}
	for _, f := range pqIntFields {
		got["pq."+f.name] = f.get(uc)
	}
	for k, w := range want {
		if got[k] != w {
			return fmt.Sprintf("%s is %v instead of %v", k, got[k], w)
		}
	}
	return ""
}

type otherConfig struct{}

func (otherConfig) IndexType() string { return "other" }

// updates: what may change does, what may not is refused.
func updates(t *mon.T) {
	t.Par("c20-update", t.N(5000, 50000), func(i int, r *rand.Rand) {
		gen := func() ent.UserConfig {
			c := ent.UserConfig{}
			c.SetDefaults()
			return c
		}
		a, b := gen(), gen()
		fixed := ""
		change := func(name string, immutable bool, p, q *int) {
			*p = r.Intn(50) + 4
			*q = *p
			if r.Intn(8) == 0 {
				*q = r.Intn(50) + 4
				if *p != *q && immutable {
					fixed = name
				}
			}
		}
		change("efConstruction", true, &a.EFConstruction, &b.EFConstruction)
		change("maxConnections", true, &a.MaxConnections, &b.MaxConnections)
		change("cleanupIntervalSeconds", true, &a.CleanupIntervalSeconds, &b.CleanupIntervalSeconds)
		change("ef", false, &a.EF, &b.EF)
		change("dynamicEfMin", false, &a.DynamicEFMin, &b.DynamicEFMin)
		change("dynamicEfMax", false, &a.DynamicEFMax, &b.DynamicEFMax)
		change("dynamicEfFactor", false, &a.DynamicEFFactor, &b.DynamicEFFactor)
		change("flatSearchCutoff", false, &a.FlatSearchCutoff, &b.FlatSearchCutoff)
		change("vectorCacheMaxObjects", false, &a.VectorCacheMaxObjects, &b.VectorCacheMaxObjects)
		err := hnsw.ValidateUserConfigUpdate(a, b)
		if (err != nil) != (fixed != "") {
			t.Violate("update", map[string]interface{}{"from": fmt.Sprintf("%+v", a), "to": fmt.Sprintf("%+v", b)}, "an update (changing the fixed field %q): %v", fixed, err)
			return
		}
		t.Eval("updates validated", fmt.Sprintf("%+v %+v", a, b))
	})
	for _, p := range [][2]schema.VectorIndexConfig{{otherConfig{}, ent.UserConfig{}}, {ent.UserConfig{}, otherConfig{}}} {
		if hnsw.ValidateUserConfigUpdate(p[0], p[1]) == nil {
			t.Violate("update", nil, "an update from a %T to a %T is accepted", p[0], p[1])
		}
	}
}

// environment: the handler's configuration from environment variables.
func environment(t *mon.T) {
	r := t.Rand("c20-env", 0)
	vars := []string{"VERBOSE", "BEE_API", "RPC_API", "STAMP_ID", "VECTORIZER_URL", "USER", "PASSWORD", "POD"}
	old := map[string]string{}
	for _, v := range vars {
		old[v] = os.Getenv(v)
	}
	defer func() {
		for k, v := range old {
			_ = os.Setenv(k, v)
		}
	}()
	for i := 0; i < t.N(2000, 20000); i++ {
		given := func(name string) string {
			if r.Intn(2) == 0 {
				return ""
			}
			return fmt.Sprintf("%s-%d", name, r.Intn(1000))
		}
		before := handlers.HandlerConfig{BeeAPI: given("bee"), RPCEndpoint: given("rpc"), StampId: given("stamp"), GloveLevelDBUrl: given("url"),
			Username: given("user"), Password: given("pw"), Pod: given("pod"), Verbose: r.Intn(4) == 0}
		env := map[string]string{}
		for _, v := range vars {
			if r.Intn(2) == 0 {
				_ = os.Unsetenv(v)
				continue
			}
			env[v] = fmt.Sprintf("%s=%d, with spaces", v, r.Intn(1000))
			if v == "VERBOSE" {
				env[v] = []string{"on", "enabled", "1", "true", "off", "0", "false", "disabled", "", "no"}[r.Intn(10)]
			}
			if r.Intn(8) == 0 {
				env[v] = ""
			}
			_ = os.Setenv(v, env[v])
		}
		or := func(env, cfg, def string) string {
			if env != "" {
				return env
			}
			if cfg != "" {
				return cfg
			}
			return def
		}
		v := env["VERBOSE"]
		want := handlers.HandlerConfig{
			Verbose: before.Verbose || v == "on" || v == "enabled" || v == "1" || v == "true",
			BeeAPI:  or(env["BEE_API"], before.BeeAPI, "http://localhost:1633"), RPCEndpoint: or(env["RPC_API"], before.RPCEndpoint, ""),
			StampId: or(env["STAMP_ID"], before.StampId, strings.Repeat("0", 64)), GloveLevelDBUrl: or(env["VECTORIZER_URL"], before.GloveLevelDBUrl, ""),
			Username: or(env["USER"], before.Username, ""), Password: or(env["PASSWORD"], before.Password, ""), Pod: or(env["POD"], before.Pod, ""),
		}
		got := before
		handlers.FromEnv(&got)
		handlers.SetDefaults(&got)
		if got != want {
			t.Violate("environment", map[string]interface{}{"env": env, "config": before}, "the environment %v gives %+v instead of %+v", env, got, want)
			return
		}
		t.Eval("environments read", fmt.Sprint(env, before))
	}
}

// valid: an index without what it needs is refused.
func valid(t *mon.T) {
	for mask := 0; mask < 32; mask++ {
		full := fx.FullConfig("cls")
		c := full
		if mask&1 != 0 {
			c.ID = ""
		}
		if mask&2 != 0 {
			c.RootPath = ""
		}
		if mask&4 != 0 {
			c.MakeCommitLoggerThunk = nil
		}
		if mask&8 != 0 {
			c.VectorForIDThunk = nil
		}
		if mask&16 != 0 {
			c.DistanceProvider = nil
		}
		if err := c.Validate(); (err == nil) != (mask == 0) {
			t.Violate("index-config", nil, "an index configuration lacking fields %05b: %v", mask, err)
		}
		if mask != 0 {
			if _, err := hnsw.New(c, hnsw.NewDefaultUserConfig(), nil); err == nil {
				t.Violate("index-config", nil, "an index lacking fields %05b is created", mask)
			}
		}
		t.Eval("index configurations validated", fmt.Sprint(mask))
	}
}

// searchEF: when the configured (or dynamic) ef is at least the number of
// vectors, a search for a few finds what the search for all finds first. The
// graphs are sparse, so that a smaller ef shows.
func searchEF(t *mon.T) {
	t.Par("c20-ef", t.N(16, 120), func(i int, r *rand.Rand) {
		n := 300 + r.Intn(300)
		dim := 8 + r.Intn(8)
		gen := func() hnsw.UserConfig {
			uc := hnsw.UserConfig{MaxConnections: 4, EFConstruction: 6, EF: -1, DynamicEFMin: 1, DynamicEFMax: 1, DynamicEFFactor: 1}
			switch r.Intn(6) {
			case 0:
				uc.EF = n + r.Intn(100)
			case 1:
				uc.DynamicEFMin, uc.DynamicEFMax = n, n+r.Intn(100)
			case 2: // k times the factor
				uc.DynamicEFMax, uc.DynamicEFFactor, uc.DynamicEFMin = 10*n, n, 1
			case 3: // the maximum
				uc.DynamicEFMax, uc.DynamicEFFactor, uc.DynamicEFMin = n+r.Intn(10), 100*n, 1
			case 4: // small, dynamic: no promise
				uc.DynamicEFMin = 1 + r.Intn(5)
				uc.DynamicEFMax = uc.DynamicEFMin + r.Intn(5)
			default: // small: no promise
				uc.EF = 1 + r.Intn(5)
			}
			return uc
		}
		eff := func(uc hnsw.UserConfig, k int) int {
			if uc.EF > 0 {
				return max(uc.EF, k)
			}
			return max(min(max(k*uc.DynamicEFFactor, uc.DynamicEFMin), uc.DynamicEFMax), k)
		}
		uc := gen()
		x := newIx(t, fmt.Sprintf("#%d n=%d dim=%d", i, n, dim), uc)
		if x == nil {
			return
		}
		defer func() { x.close() }()
		for k := 0; k < n; k++ {
			if !x.add(uint64(k), gauss(r, dim)) {
				return
			}
		}
		if !x.flush() {
			return
		}
		// what a search for all of them finds in this graph, with a fixed ef
		var qs [][]float32
		var reach []int
		for round := 0; round < 12; round++ {
			if round > 0 {
				uc = gen()
				if round == 1 {
					uc.EF = n
				}
				e := ent.UserConfig{}
				e.SetDefaults()
				e.MaxConnections, e.EFConstruction = uc.MaxConnections, uc.EFConstruction
				e.EF, e.DynamicEFMin, e.DynamicEFMax, e.DynamicEFFactor = uc.EF, uc.DynamicEFMin, uc.DynamicEFMax, uc.DynamicEFFactor
				called := 0
				if err := x.idx.UpdateUserConfig(e, func() { called++ }); err != nil || called != 1 {
					x.bad("update", "updating the configuration to %+v: %v, callback called %d times", uc, err, called)
					return
				}
				t.Eval("updates applied", fmt.Sprint(i, round))
			}
			if round == 1 {
				for j := 0; j < 6; j++ {
					q := gauss(r, dim)
					all, _, err := x.idx.SearchByVector(q, n, nil)
					if err != nil {
						x.bad("search", "%v", err)
						return
					}
					qs, reach = append(qs, q), append(reach, len(all))
				}
			}
			for j, q := range qs {
				all, _, err := x.idx.SearchByVector(q, n, nil)
				if err != nil || len(all) != reach[j] {
					x.bad("ef", "a search for all %d (configured %+v) has %d hits, with a fixed ef of %d it had %d, %v", n, uc, len(all), n, reach[j], err)
					return
				}
				t.Eval("searches for all of them", fmt.Sprint(i, round, j))
			}
			for j := 0; j < 6; j++ {
				q := gauss(r, dim)
				k := 1 + r.Intn(3)
				all, alld, err := x.idx.SearchByVector(q, n, nil)
				if err == nil {
					err = x.judge(all, alld, q, 5, nil)
				}
				if err != nil {
					x.bad("search", "%v", err)
					return
				}
				ids, dists, err := x.idx.SearchByVector(q, k, nil)
				if err == nil {
					err = x.judge(ids, dists, q, 5, nil)
				}
				if err == nil && (len(ids) > k || len(ids) < min(k, len(all))) {
					err = fmt.Errorf("%d vectors returned for %d", len(ids), k)
				}
				if err != nil {
					x.bad("search", "%v", err)
					return
				}
				if len(ids) == 0 || len(all) == 0 {
					x.bad("ef", "a search for %d has %d hits, the search for all %d, %+v", k, len(ids), len(all), uc)
					return
				}
				if eff(uc, k) < n {
					t.Eval("searches with a small ef", fmt.Sprint(i, round, j))
					if dists[0] > alld[0] {
						t.Count("of which not exact", 1)
					}
					continue
				}
				if len(ids) > len(all) {
					x.bad("ef", "with ef %d (configured %+v) a search for %d has %d hits, the search for all %d", eff(uc, k), uc, k, len(ids), len(all))
					return
				}
				for m := range ids {
					if dists[m] != alld[m] {
						x.bad("ef", "with ef %d (configured %+v) a search for %d has %v as hit %d, the search for all has %v", eff(uc, k), uc, k, dists[m], m, alld[m])
						return
					}
				}
				t.Eval("searches with an ef of all", fmt.Sprint(i, round, j))
			}
		}
		// what is no configuration, or names no encoder
		called := 0
		bad := ent.UserConfig{}
		bad.SetDefaults()
		bad.PQ.Enabled, bad.PQ.Encoder.Type = true, "none"
		for _, c := range []schema.VectorIndexConfig{otherConfig{}, bad} {
			if x.idx.UpdateUserConfig(c, func() { called++ }) == nil {
				x.bad("update", "an update to %+v is accepted", c)
			}
		}
		if called != 2 {
			x.bad("update", "callback called %d times for two refused updates", called)
		}
	})
}
