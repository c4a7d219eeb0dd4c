package checks

import (
	"fmt"
	"math/rand"
	"strings"
)

// UUID makes a document id the REST API accepts. Ids of one family share long
// prefixes, which exercises the branching of the stored indexes.
func UUID(r *rand.Rand, n int) string {
	switch r.Intn(3) {
	case 0:
		return fmt.Sprintf("00000000-0000-4000-8000-%012x", n)
	case 1:
		return fmt.Sprintf("%08x-1111-4111-8111-111111111111", n)
	}
	return fmt.Sprintf("%08x-%04x-4%03x-8%03x-%012x", r.Uint32(), r.Intn(65536), r.Intn(4096), r.Intn(4096), n)
}

// RandVec: mostly gaussian, sometimes sparse, constant, tiny or large.
func RandVec(r *rand.Rand, dim int) []float32 {
	v := make([]float32, dim)
	scale := float32(1)
	switch r.Intn(8) {
	case 0:
		scale = 1e-6
	case 1:
		scale = 1e6
	}
	switch r.Intn(8) {
	case 0: // one-hot
		v[r.Intn(dim)] = scale
	case 1: // small integers: many ties
		for i := range v {
			v[i] = float32(r.Intn(3)-1) * scale
		}
		if zero(v) {
			v[0] = scale
		}
	default:
		for i := range v {
			v[i] = float32(r.NormFloat64()) * scale
		}
	}
	return v
}

// Near is a vector in the neighbourhood of another one.
func Near(r *rand.Rand, v []float32, eps float64) []float32 {
	out := make([]float32, len(v))
	var m float64
	for _, x := range v {
		if a := float64(x); a > m {
			m = a
		} else if -a > m {
			m = -a
		}
	}
	for i, x := range v {
		out[i] = x + float32(r.NormFloat64()*eps*m)
	}
	if zero(out) {
		out[0] = 1
	}
	return out
}

var words = strings.Fields("alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau upsilon phi chi psi omega Äpfel données 東京 москва emoji😀 x y z 0 00 1 10")

func Words(r *rand.Rand, n int) string {
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, words[r.Intn(len(words))])
	}
	return strings.Join(w, " ")
}

// Value is any JSON value.
func Value(r *rand.Rand, depth int) interface{} {
	k := r.Intn(9)
	if depth <= 0 && k >= 7 {
		k = r.Intn(7)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return float64(r.Intn(2000) - 1000)
	case 3:
		return r.NormFloat64()
	case 4:
		return ""
	case 5:
		if r.Intn(3) == 0 {
			return Words(r, r.Intn(3)) + []string{"\x00", "a\x00b", "\u2028\u2029", "\ufeff", "日本語 🐝", "e\u0301 é", "\x7f\x1b[0m", " \r\n", "\ufffd", "&lt;<b>"}[r.Intn(10)]
		}
		return Words(r, r.Intn(6)) + "\n\t\"\\/<>&=()[]{}+*?.^$|%"
	case 6:
		return strings.Repeat("long ", r.Intn(2000))
	case 7:
		l := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, Value(r, depth-1))
		}
		return l
	}
	m := map[string]interface{}{}
	for i := r.Intn(4); i > 0; i-- {
		m[fmt.Sprintf("k%d", r.Intn(9))] = Value(r, depth-1)
	}
	return m
}

var oddNames = []string{"vector2", "vectors", "Vector", "ID", "_id", "id2", "hnsw", "hnswid", "hnswId2", "properties", "name", "Title", "titles", "N", "a.b", "a b", "é", "limit"}

// GenDoc makes a document whose indexed properties (title, n) are unique to uniq.
func GenDoc(r *rand.Rand, id string, uniq int, dim int) Doc {
	d := Doc{ID: id, Props: map[string]interface{}{
		"title": fmt.Sprintf("%s t%05d", words[r.Intn(20)], uniq),
		"n":     float64(uniq),
		"body":  Words(r, 1+r.Intn(8)),
	}}
	for i := r.Intn(4); i > 0; i-- {
		d.Props[fmt.Sprintf("extra%d", r.Intn(5))] = Value(r, 2)
	}
	if r.Intn(5) == 0 {
		// names close to those that mean something
		d.Props[oddNames[r.Intn(len(oddNames))]] = Value(r, 1)
	}
	if r.Intn(4) != 0 {
		d.Vec = RandVec(r, dim)
	}
	if r.Intn(6) == 0 {
		d.Junk = []map[string]interface{}{{"id": "another"}, {"id": float64(uniq - 1)}, {"hnswId": float64(r.Intn(3))}, {"vector": nil}, {"hnswId": "x", "id": nil}}[r.Intn(5)]
	}
	return d
}

var stdIdx = map[string]string{"title": "string", "n": "number"}
