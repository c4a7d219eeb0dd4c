id='env-one'; prop='C20'
needs='VERBOSE=1 in the environment'
breaks='verbose output that is asked for with 1 stays off'
edits=[('adapters/handlers/environment.go', '\t\tvalue == "1" ||\n', '')]
demo=r'''package document_test

import (
	"testing"

	"github.com/fairDataSociety/FaVe/adapters/handlers"
)

func TestZZDemo(t *testing.T) {
	for _, v := range []string{"on", "enabled", "1", "true"} {
		t.Setenv("VERBOSE", v)
		c := &handlers.HandlerConfig{}
		handlers.FromEnv(c)
		if !c.Verbose {
			t.Fatalf("demo: VERBOSE=%s is not verbose", v)
		}
	}
}
'''
