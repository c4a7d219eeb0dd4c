id='health-404'; prop='C22'
needs='something that is not the vectorizer answers at its address: 404, say'
breaks='the server starts without a vectorizer and fails when one is needed'
edits=[('pkg/vectorizer/rest/vectorizer.go', '\tdefer resp.Body.Close()\n\n\tif resp.StatusCode != http.StatusOK {\n\t\treturn nil, ErrServiceUnavailable\n\t}\n\n\treturn &Vectorizer{url: url}, nil', '\tdefer resp.Body.Close()\n\n\tif resp.StatusCode >= http.StatusInternalServerError {\n\t\treturn nil, ErrServiceUnavailable\n\t}\n\n\treturn &Vectorizer{url: url}, nil')]
demo=r'''package document_test

import (
	"testing"
	"net/http"
	"net/http/httptest"

	"github.com/fairDataSociety/FaVe/pkg/vectorizer/rest"
)

func TestZZDemo(t *testing.T) {
	for _, status := range []int{200, 401, 404, 500, 503} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(status) }))
		_, err := rest.NewVectorizer(srv.URL)
		srv.Close()
		if (err == nil) != (status == 200) {
			t.Fatalf("demo: a vectorizer whose health is %d: %v", status, err)
		}
	}
}
'''
