package fx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/fairDataSociety/FaVe/adapters/handlers"
	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/restapi"
	"github.com/fairDataSociety/FaVe/restapi/operations"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	ensmock "github.com/fairdatasociety/fairOS-dfs/pkg/ensm/eth/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/user"
	"github.com/go-openapi/loads"
	"github.com/go-openapi/runtime"
	"github.com/sirupsen/logrus"
)

const (
	Username = "verifuser"
	Password = "verifpasswordverifpassword"
	Pod      = "Fave"
)

// Vectorizer is a scriptable stand-in for the external embedding service.
type Vectorizer struct {
	*httptest.Server
	mu    sync.Mutex
	embed func(text string) (status int, body []byte)
	Calls []string
}

// NewVectorizer serves f(text); nil f means TextVec with 8 dimensions.
func NewVectorizer(dim int) *Vectorizer {
	v := &Vectorizer{}
	v.SetEmbed(func(text string) []float32 { return TextVec(text, dim) })
	v.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == http.MethodGet {
			w.WriteHeader(200)
			return
		}
		var q struct {
			Query []string `json:"query"`
		}
		if err := json.NewDecoder(r.Body).Decode(&q); err != nil || len(q.Query) != 1 {
			w.WriteHeader(400)
			return
		}
		v.mu.Lock()
		v.Calls = append(v.Calls, q.Query[0])
		e := v.embed
		v.mu.Unlock()
		st, body := e(q.Query[0])
		w.WriteHeader(st)
		_, _ = w.Write(body)
	}))
	// no idle connections: FaVe uses the default transport, in which closing a
	// server of another goroutine closes them, at times under a new request
	v.Server.Config.SetKeepAlivesEnabled(false)
	return v
}

func (v *Vectorizer) SetEmbed(f func(string) []float32) {
	v.SetRaw(func(t string) (int, []byte) {
		b, _ := json.Marshal(map[string][]float32{"vector": f(t)})
		return 200, b
	})
}

func (v *Vectorizer) SetRaw(f func(string) (int, []byte)) {
	v.mu.Lock()
	v.embed = f
	v.mu.Unlock()
}

func (v *Vectorizer) NumCalls() int { v.mu.Lock(); defer v.mu.Unlock(); return len(v.Calls) }

// TextVec is a deterministic embedding (FNV-seeded xorshift).
func TextVec(text string, dim int) []float32 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(text); i++ {
		h ^= uint64(text[i])
		h *= 1099511628211
	}
	out := make([]float32, dim)
	for i := range out {
		h ^= h << 13
		h ^= h >> 7
		h ^= h << 17
		out[i] = float32(int64(h>>11)%2000-1000) / 1000
	}
	if allZero(out) {
		out[0] = 1
	}
	return out
}

func allZero(v []float32) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}

// Stack is a complete FaVe server in one process: document client, REST
// handlers and HTTP API over an in-memory Swarm node.
type Stack struct {
	Bee   *Bee
	Ens   *ensmock.NamespaceManager
	Users *user.Users
	API   *dfs.API
	Doc   *document.Client
	Vec   *Vectorizer
	HTTP  *httptest.Server

	clientOnce sync.Once
	client     *http.Client
	Base       string // of a server that is another process, instead of HTTP
	ownVec     bool
	opts       StackOpts
}

type StackOpts struct {
	Bee      *Bee
	Ens      *ensmock.NamespaceManager // of the previous run, for a restart
	Vec      *Vectorizer
	NoVec    bool
	Dim      int
	FeedPool int // feed cache size; 0 means 10000 as in production, -1 means none
}

// NewStack builds a stack. With o.Ens set it is a restart: the user exists.
// The mock name service cannot represent about 1 in 128 public keys (it drops
// leading zero bytes and the login then panics in fairOS), so a fresh user that
// has such a key is replaced by another one.
func NewStack(o StackOpts) (s *Stack, err error) {
	if o.Ens != nil {
		return newStack(o)
	}
	for i := 0; i < 10; i++ {
		badKey := false
		func() {
			defer func() {
				if p := recover(); p != nil {
					if badKey = strings.Contains(fmt.Sprint(p), "invalid point"); !badKey {
						panic(p)
					}
				}
			}()
			s, err = newStack(o)
		}()
		if !badKey {
			return s, err
		}
	}
	return nil, fmt.Errorf("no usable user key")
}

func newStack(o StackOpts) (*Stack, error) {
	s := &Stack{Bee: o.Bee, Ens: o.Ens, Vec: o.Vec}
	if s.Bee == nil {
		s.Bee = NewBee()
	}
	if o.Dim == 0 {
		o.Dim = 8
	}
	if s.Vec == nil && !o.NoVec {
		s.Vec = NewVectorizer(o.Dim)
		s.ownVec = true
	}
	s.opts = o
	fresh := s.Ens == nil
	if fresh {
		s.Ens = ensmock.NewMockNamespaceManager()
	}
	pool := 10000
	if o.FeedPool != 0 {
		pool = o.FeedPool
	}
	lg := logging.New(io.Discard, logrus.ErrorLevel)
	s.Users = user.NewUsers(s.Bee, s.Ens, pool, time.Hour, lg)
	s.API = dfs.NewMockDfsAPI(s.Bee, s.Users, lg)
	if fresh {
		if _, err := s.API.CreateUserV2(Username, Password, "", ""); err != nil {
			return nil, fmt.Errorf("create user: %w", err)
		}
	}
	cfg := document.Config{}
	if s.Vec != nil {
		cfg.VectorizerUrl = s.Vec.URL
	}
	d, err := document.New(cfg, s.API)
	if err != nil {
		return nil, fmt.Errorf("document.New: %w", err)
	}
	if err := d.Login(Username, Password); err != nil {
		return nil, fmt.Errorf("login: %w", err)
	}
	if err := d.OpenPod(Pod); err != nil {
		return nil, fmt.Errorf("open pod: %w", err)
	}
	s.Doc = d
	h := NewHandler(d)
	spec, err := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
	if err != nil {
		return nil, err
	}
	api := operations.NewFaveAPI(spec)
	api.JSONConsumer = runtime.JSONConsumer()
	api.JSONProducer = runtime.JSONProducer()
	api.FaveRootHandler = operations.FaveRootHandlerFunc(h.FaveRootHandler)
	api.FaveCreateCollectionHandler = operations.FaveCreateCollectionHandlerFunc(h.FaveCreateCollectionHandler)
	api.FaveGetCollectionsHandler = operations.FaveGetCollectionsHandlerFunc(h.FaveGetCollectionsHandler)
	api.FaveDeleteCollectionHandler = operations.FaveDeleteCollectionHandlerFunc(h.FaveDeleteCollectionHandler)
	api.FaveAddDocumentsHandler = operations.FaveAddDocumentsHandlerFunc(h.FaveAddDocumentsHandler)
	api.FaveGetDocumentsHandler = operations.FaveGetDocumentsHandlerFunc(h.GetDocumentsHandlerFunc)
	api.FaveGetNearestDocumentsHandler = operations.FaveGetNearestDocumentsHandlerFunc(h.FaveGetNearestDocumentsHandler)
	api.FaveGetNearestDocumentsByVectorHandler = operations.FaveGetNearestDocumentsByVectorHandlerFunc(h.FaveGetNearestDocumentsByVectorHandler)
	s.HTTP = httptest.NewUnstartedServer(api.Serve(nil))
	s.HTTP.Config.ErrorLog = quietLog
	s.HTTP.Start()
	return s, nil
}

// NewHandler builds the REST handler around a client: the one field of type
// *document.Client is set, whatever it is called.
func NewHandler(d *document.Client) *handlers.Handler {
	h := &handlers.Handler{}
	rv := reflect.ValueOf(h).Elem()
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		if f.Type() == reflect.TypeOf(d) {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(d))
		}
	}
	return h
}

// Stop ends the process without any orderly shutdown (a crash): nothing that
// is only in memory reaches the store.
func (s *Stack) Stop() {
	if s.HTTP != nil {
		s.http().CloseIdleConnections()
		s.HTTP.Close()
	}
	if s.ownVec {
		s.Vec.Close()
	}
	if DropOnStop {
		go s.dropIndexes()
	}
}

// Shutdown is an orderly stop (logout commits pending feeds).
func (s *Stack) Shutdown() {
	_ = s.API.Close()
	s.Stop()
}

// Restart brings a new process up on the given store (nil: the same one).
func (s *Stack) Restart(bee *Bee) (*Stack, error) {
	if bee == nil {
		bee = s.Bee
	}
	vec := s.Vec
	if s.ownVec {
		vec = nil
	}
	return NewStack(StackOpts{Bee: bee, Ens: s.Ens, Vec: vec, NoVec: s.Vec == nil, Dim: s.opts.Dim, FeedPool: s.opts.FeedPool})
}

// Resp is a REST response.
type Resp struct {
	Status int
	Body   []byte
	Err    error // transport error: the server dropped the connection (panic)
}

func (r Resp) JSON() map[string]interface{} {
	m := map[string]interface{}{}
	_ = json.Unmarshal(r.Body, &m)
	return m
}

// http is the client of this stack alone, so that its connections are not closed
// with those of others.
func (s *Stack) http() *http.Client {
	s.clientOnce.Do(func() {
		s.client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 16}}
	})
	return s.client
}

func (s *Stack) Req(method, path string, body interface{}) Resp {
	var rd io.Reader
	switch b := body.(type) {
	case nil:
	case []byte:
		rd = bytes.NewReader(b)
	case string:
		rd = bytes.NewReader([]byte(b))
	default:
		j, err := json.Marshal(b)
		if err != nil {
			return Resp{Err: err}
		}
		rd = bytes.NewReader(j)
	}
	base := s.Base
	if base == "" {
		base = s.HTTP.URL
	}
	rq, err := http.NewRequest(method, base+"/v1"+path, rd)
	if err != nil {
		return Resp{Err: err}
	}
	rq.Header.Set("Content-Type", "application/json")
	resp, err := s.http().Do(rq)
	if err != nil {
		return Resp{Err: err}
	}
	defer resp.Body.Close()
	bd, err := io.ReadAll(resp.Body)
	return Resp{Status: resp.StatusCode, Body: bd, Err: err}
}

// Cos is 1 - cosine similarity in float64: the reference distance.
func Cos(a, b []float32) float64 {
	var dot, na, nb float64
	for i := range a {
		dot += float64(a[i]) * float64(b[i])
		na += float64(a[i]) * float64(a[i])
		nb += float64(b[i]) * float64(b[i])
	}
	if na == 0 || nb == 0 {
		return 1
	}
	return 1 - dot/math.Sqrt(na)/math.Sqrt(nb)
}
