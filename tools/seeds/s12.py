id='escaped-text'; prop='C05'
needs='a text with a character Go and JSON escape differently, such as a control character'
breaks='the vectorizer is not sent the text that was given'
edits=[('pkg/vectorizer/rest/vectorizer.go', '\tpayload, err := json.Marshal(data)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n', '\tif _, err := json.Marshal(data); err != nil {\n\t\treturn nil, err\n\t}\n\tpayload := []byte(fmt.Sprintf(`{"query":[%q]}`, text[0]))\n')]
demo=r'''package document_test

import (
	"testing"
	"encoding/json"
	"net/http"
	"net/http/httptest"

	"github.com/fairDataSociety/FaVe/pkg/vectorizer/rest"
)

func TestZZDemo(t *testing.T) {
	var got []string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == http.MethodGet {
			return
		}
		var q struct {
			Query []string `json:"query"`
		}
		if err := json.NewDecoder(r.Body).Decode(&q); err != nil {
			w.WriteHeader(http.StatusBadRequest)
			return
		}
		got = q.Query
		_, _ = w.Write([]byte(`{"text":"x","vectors":[[1,2]],"dim":2}`))
	}))
	defer srv.Close()
	v, err := rest.NewVectorizer(srv.URL)
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"plain", "two\nlines", "a bell \a and \x00", "caf\u00e9"} {
		got = nil
		_, _ = v.Corpi([]string{s})
		if len(got) != 1 || got[0] != s {
			t.Fatalf("demo: %q was sent as %q", s, got)
		}
	}
}
'''
