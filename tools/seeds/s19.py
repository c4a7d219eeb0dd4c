id='body-open'; prop='C23'
needs='a vectorizer that answers some texts with an error, again and again'
breaks='every such answer leaves a connection and two goroutines behind'
edits=[('pkg/vectorizer/rest/vectorizer.go', '\tdefer resp.Body.Close()\n\n\tif resp.StatusCode != http.StatusOK {\n\t\treturn nil, ErrServiceUnavailable\n\t}\n\n\tvar', '\tif resp.StatusCode != http.StatusOK {\n\t\treturn nil, ErrServiceUnavailable\n\t}\n\tdefer resp.Body.Close()\n\n\tvar')]
demo=r'''package document_test

import (
	"testing"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync/atomic"
	"time"

	"github.com/fairDataSociety/FaVe/pkg/vectorizer/rest"
)

func TestZZDemo(t *testing.T) {
	var open int64
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == http.MethodPost {
			w.WriteHeader(500)
			_, _ = w.Write([]byte(strings.Repeat("sorry ", 3000)))
		}
	}))
	srv.Config.ConnState = func(_ net.Conn, s http.ConnState) {
		switch s {
		case http.StateNew:
			atomic.AddInt64(&open, 1)
		case http.StateClosed:
			atomic.AddInt64(&open, -1)
		}
	}
	srv.Start()
	v, err := rest.NewVectorizer(srv.URL)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 50; i++ {
		if _, err := v.Corpi([]string{"x"}); err == nil {
			t.Fatal("an error is no vector")
		}
	}
	for i := 0; i < 30 && atomic.LoadInt64(&open) > 10; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if n := atomic.LoadInt64(&open); n > 10 {
		t.Fatalf("demo: %d connections are still open", n)
	}
}
'''
