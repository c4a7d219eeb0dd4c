id='geo-lon'; prop='C18'
needs='two points whose longitudes are more than half the world apart'
breaks='the distance of points on the two sides of the date line is that of points somewhere else'
edits=[('pkg/hnsw/distancer/geo_spatial.go', 'float64(lonB-lonA) * math.Pi / 180', 'math.Mod(float64(lonB-lonA), 180) * math.Pi / 180')]
demo=r'''package document_test

import (
	"testing"
	"math"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
)

func TestZZDemo(t *testing.T) {
	p := distancer.NewGeoProvider()
	x, _, err := p.SingleDist([]float32{0, -170}, []float32{0, 170})
	if err != nil {
		t.Fatal(err)
	}
	// twenty degrees of the equator
	if math.Abs(float64(x)-2223901) > 20000 {
		t.Fatalf("demo: %v metres from one side of the date line to the other", x)
	}
}
'''
