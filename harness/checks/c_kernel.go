package checks

import (
	"fmt"
	"math"
	"math/rand"
	"runtime/debug"
	"syscall"
	"unsafe"

	"faveverif/mon"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer/asm"
	"golang.org/x/sys/cpu"
)

func init() { All["C18"] = c18 }

// guarded is memory with an inaccessible page on either side: reading or
// writing one element too far faults.
type guarded struct {
	mem  []byte
	page int
	n    int // usable bytes
}

func newGuarded(bytes int) *guarded {
	pg := syscall.Getpagesize()
	n := (bytes + pg - 1) / pg * pg
	m, err := syscall.Mmap(-1, 0, n+2*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if syscall.Mprotect(m[:pg], syscall.PROT_NONE) != nil || syscall.Mprotect(m[pg+n:], syscall.PROT_NONE) != nil {
		panic("mprotect")
	}
	return &guarded{m, pg, n}
}

func (g *guarded) free() { _ = syscall.Munmap(g.mem) }

// floats is a slice of n numbers against the end of the usable memory (or its
// beginning), whose capacity ends there as well.
func (g *guarded) floats(n int, atEnd bool) []float32 {
	if n == 0 {
		return []float32{}
	}
	off := g.page
	if atEnd {
		off += g.n - 4*n
	}
	return unsafe.Slice((*float32)(unsafe.Pointer(&g.mem[off])), n)
}

type distFn struct {
	name   string
	single func(a, b []float32) (float32, bool, error)
	newD   func(a []float32) func(b []float32) (float32, bool, error)
	step   func(a, b []float32) float32
	wrap   func(x float32) float32
	ref    func(a, b []float32) (val, mag float64) // exact value and what rounding errors are relative to
}

func refDot(a, b []float32) (float64, float64) {
	var s, m float64
	for i := range a {
		p := float64(a[i]) * float64(b[i])
		s += p
		m += math.Abs(p)
	}
	return s, m
}

func distFns() []distFn {
	dot, l2, man, ham, cos := distancer.NewDotProductProvider(), distancer.NewL2SquaredProvider(), distancer.NewManhattanProvider(), distancer.NewHammingProvider(), distancer.NewCosineDistanceProvider()
	l2ref := func(a, b []float32) (float64, float64) {
		var s float64
		for i := range a {
			d := float64(a[i]) - float64(b[i])
			s += d * d
		}
		return s, s
	}
	return []distFn{
		{"dot", dot.SingleDist, func(a []float32) func([]float32) (float32, bool, error) { return dot.New(a).Distance }, dot.Step, dot.Wrap,
			func(a, b []float32) (float64, float64) { s, m := refDot(a, b); return -s, m }},
		{"cosine", cos.SingleDist, func(a []float32) func([]float32) (float32, bool, error) { return cos.New(a).Distance }, cos.Step, cos.Wrap,
			func(a, b []float32) (float64, float64) { s, m := refDot(a, b); return 1 - s, m + 1 }},
		{"l2", l2.SingleDist, func(a []float32) func([]float32) (float32, bool, error) { return l2.New(a).Distance }, l2.Step, l2.Wrap, l2ref},
		{"manhattan", man.SingleDist, func(a []float32) func([]float32) (float32, bool, error) { return man.New(a).Distance }, man.Step, man.Wrap,
			func(a, b []float32) (float64, float64) {
				var s float64
				for i := range a {
					s += math.Abs(float64(a[i]) - float64(b[i]))
				}
				return s, s
			}},
		{"hamming", ham.SingleDist, func(a []float32) func([]float32) (float32, bool, error) { return ham.New(a).Distance }, ham.Step, ham.Wrap,
			func(a, b []float32) (float64, float64) {
				var s float64
				for i := range a {
					if a[i] != b[i] {
						s++
					}
				}
				return s, 0
			}},
	}
}

func vecKinds(r *rand.Rand, a, b []float32) string {
	kinds := []string{"gauss", "positive", "sparse", "same", "opposite", "nearly", "last", "scaled", "mixed", "binary"}
	k := kinds[r.Intn(len(kinds))]
	for i := range a {
		a[i], b[i] = float32(r.NormFloat64()), float32(r.NormFloat64())
		switch k {
		case "positive":
			a[i], b[i] = r.Float32(), r.Float32()
		case "sparse":
			if r.Intn(4) > 0 {
				a[i] = 0
			}
			if r.Intn(4) > 0 {
				b[i] = 0
			}
		case "same":
			b[i] = a[i]
		case "opposite":
			b[i] = -a[i]
		case "nearly":
			b[i] = a[i] * (1 + float32(r.Intn(5)-2)*1e-6)
		case "scaled":
			a[i] *= 1e5
			b[i] *= 1e-5
		case "mixed":
			a[i] *= float32(math.Pow(10, float64(r.Intn(12)-6)))
			b[i] *= float32(math.Pow(10, float64(r.Intn(12)-6)))
		case "binary":
			a[i], b[i] = float32(r.Intn(2)), float32(r.Intn(2))
		}
	}
	if k == "last" && len(a) > 0 { // one number differs, at a place near either end
		copy(b, a)
		p := r.Intn(len(a))
		if r.Intn(2) == 0 {
			p = len(a) - 1 - r.Intn(min(len(a), 9))
		}
		b[p] += float32(1 + r.Intn(3))
	}
	return k
}

func close32(got float32, want, mag float64, n int) bool {
	tol := mag*float64(n+8)*1.2e-7 + 1e-37
	return !math.IsNaN(float64(got)) && math.Abs(float64(got)-want) <= tol
}

// C18: the distance functions.
func c18(t *mon.T) {
	t.Rule = "one value of a distance function judged against the value computed in double precision; distinct by function, length, kind of vectors and placement"
	t.Assumptions = []string{"rounding: an error of up to (n+8) float32 roundings of the sum of magnitudes is accepted; overflow is not provoked"}
	fns := distFns()
	maxLen := t.N(320, 1100)
	lens := []int{}
	for n := 0; n <= maxLen; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 384, 385, 512, 767, 768, 769, 1024, 1535, 1536, 1537, 2047, 2048, 3072, 4095, 4096, 4097)
	t.Par("c18", len(lens)*t.N(24, 60), func(i int, r *rand.Rand) {
		n := lens[i%len(lens)]
		ga, gb := newGuarded(4*n+4), newGuarded(4*n+4)
		defer ga.free()
		defer gb.free()
		old := debug.SetPanicOnFault(true)
		defer debug.SetPanicOnFault(old)
		ea, eb := r.Intn(2) == 0, r.Intn(2) == 0
		a, b := ga.floats(n, ea), gb.floats(n, eb)
		kind := vecKinds(r, a, b)
		ca, cb := append([]float32(nil), a...), append([]float32(nil), b...)
		fault := ""
		call := func(name string, f func()) (ok bool) {
			defer func() {
				if p := recover(); p != nil {
					fault = fmt.Sprint(p)
					t.Violate("out of bounds", map[string]interface{}{"fn": name, "a": ca, "b": cb, "stack": string(debug.Stack())}, "%s of %d numbers: %v", name, n, p)
				}
			}()
			f()
			return true
		}
		bad := func(fn, format string, x ...interface{}) {
			t.Violate("distance", map[string]interface{}{"fn": fn, "kind": kind, "n": n, "a": ca, "b": cb}, "%s, %d numbers (%s): %s", fn, n, kind, fmt.Sprintf(format, x...))
		}
		for _, f := range fns {
			want, mag := f.ref(ca, cb)
			var d1, d2, d3, d4 float32
			var ok1, ok2 bool
			var e1, e2 error
			if !call(f.name, func() {
				d1, ok1, e1 = f.single(a, b)
				d2, ok2, e2 = f.newD(a)(b)
				d3, _, _ = f.single(b, a)
			}) {
				return
			}
			if e1 != nil || e2 != nil || !ok1 || !ok2 {
				bad(f.name, "refused: %v %v", e1, e2)
				return
			}
			if !close32(d1, want, mag, n) || !close32(d2, want, mag, n) || !close32(d3, want, mag, n) {
				bad(f.name, "got %v %v and %v swapped, want %v", d1, d2, d3, want)
			}
			t.Eval(f.name, fmt.Sprintf("%d/%s/%v%v", n, kind, ea, eb))
			// in segments, as product quantization computes it
			var sum float32
			p := 0
			for p < n {
				w := 1 + r.Intn(n-p)
				if !call(f.name+" step", func() { sum += f.step(a[p:p+w:p+w], b[p:p+w:p+w]) }) {
					return
				}
				p += w
			}
			d4 = f.wrap(sum)
			if !close32(d4, want, mag, n+40) {
				bad(f.name, "in segments %v, want %v", d4, want)
			}
			t.Eval("segments", fmt.Sprintf("%s/%d/%s", f.name, n, kind))
			// lengths that differ are refused, not read beyond
			if m := r.Intn(n + 1); m != n {
				var e3, e4, e5 error
				if !call(f.name+" lengths", func() {
					_, _, e3 = f.single(a[:m:m], b)
					_, _, e4 = f.single(a, b[:m:m])
					_, _, e5 = f.newD(a)(b[:m:m])
				}) {
					return
				}
				if e3 == nil || e4 == nil || e5 == nil {
					bad(f.name, "vectors of %d and %d numbers are compared", n, m)
				}
				t.Eval("lengths", fmt.Sprintf("%s/%d/%d", f.name, n, m))
			}
		}
		for j := range ca {
			if math.Float32bits(a[j]) != math.Float32bits(ca[j]) || math.Float32bits(b[j]) != math.Float32bits(cb[j]) {
				bad("all", "the vectors were changed at %d", j)
				return
			}
		}
		// the portable and the assembly kernels
		want, mag := refDot(ca, cb)
		if d := distancer.DotProductGo(a, b); !close32(d, -want, mag, n) {
			bad("DotProductGo", "got %v, want %v", d, -want)
		}
		if cpu.X86.HasAVX2 && cpu.X86.HasFMA {
			var d float32
			if !call("asm.Dot", func() { d = asm.Dot(a, b) }) {
				return
			}
			if !close32(d, want, mag, n) {
				bad("asm.Dot", "got %v, want %v", d, want)
			}
			if !call("asm.L2", func() { d = asm.L2(a, b) }) {
				return
			}
			if w, m := fns[2].ref(ca, cb); !close32(d, w, m, n) {
				bad("asm.L2", "got %v, want %v", d, w)
			}
			t.Eval("assembly", fmt.Sprintf("%d/%s/%v%v", n, kind, ea, eb))
		}
		// normalizing: same direction, length one, the argument unchanged
		var nv []float32
		if !call("Normalize", func() { nv = distancer.Normalize(a) }) {
			return
		}
		n2, _ := refDot(ca, ca)
		if len(nv) != n {
			bad("Normalize", "%d numbers", len(nv))
			return
		}
		for j := range nv {
			w := 0.0
			if n2 > 0 {
				w = float64(ca[j]) / math.Sqrt(n2)
			}
			if !close32(nv[j], w, math.Abs(w), n) || a[j] != ca[j] {
				bad("Normalize", "number %d is %v, want %v (argument %v, was %v)", j, nv[j], w, a[j], ca[j])
				return
			}
		}
		t.Eval("normalize", fmt.Sprintf("%d/%s", n, kind))
		if i < 6 {
			t.Sample(map[string]interface{}{"n": n, "kind": kind, "dot": want})
		}
		_ = fault
	})
	geo(t)
}

// geo: the distance on the sphere.
func geo(t *mon.T) {
	g := distancer.NewGeoProvider()
	const R = 6371e3
	t.Par("geo", t.N(20000, 200000), func(i int, r *rand.Rand) {
		pt := func() []float32 {
			switch r.Intn(6) {
			case 0:
				return []float32{float32(r.Intn(7)*30 - 90), float32(r.Intn(13)*30 - 180)}
			case 1:
				return []float32{float32(r.Float64()*0.01 + 52), float32(r.Float64()*0.01 + 4)}
			}
			return []float32{float32(r.Float64()*180 - 90), float32(r.Float64()*360 - 180)}
		}
		a, b := pt(), pt()
		kind := "any"
		switch r.Intn(6) {
		case 0:
			b, kind = []float32{a[0], a[1]}, "same"
		case 1: // the opposite side of the earth
			b, kind = []float32{-a[0], a[1] + 180}, "antipode"
			if a[1] > 0 {
				b[1] = a[1] - 180
			}
		case 2: // across the date line
			a[1], b[1], kind = 179.99, -179.99, "dateline"
		}
		la, lb := float64(a[0])*math.Pi/180, float64(b[0])*math.Pi/180
		dLa, dLo := (float64(b[0])-float64(a[0]))*math.Pi/180, (float64(b[1])-float64(a[1]))*math.Pi/180
		A := math.Pow(math.Sin(dLa/2), 2) + math.Cos(la)*math.Cos(lb)*math.Pow(math.Sin(dLo/2), 2)
		at := func(x float64) float64 { return R * 2 * math.Asin(math.Sqrt(math.Max(0, math.Min(1, x)))) }
		// float32 coordinates: the differences are off by up to 4e-7 radian (near
		// 360 degrees, across the date line), the latitudes by as much
		const e = 4e-7
		off := A*1e-6 + 1e-13 + ((math.Abs(math.Cos(la))+math.Abs(math.Cos(lb)))*e+e*e)*math.Pow(math.Sin(dLo/2), 2) +
			(math.Abs(math.Cos(la)*math.Cos(lb)*math.Sin(dLo/2))+math.Abs(math.Sin(dLa/2)))*e + e*e
		lo, hi := at(A-off)-0.05, at(A+off)+0.05
		lo, hi = lo-lo*2e-7, hi+hi*2e-7
		if kind == "same" {
			hi = 0.05
		}
		d1, ok, err := g.SingleDist(a, b)
		d2, ok2, err2 := g.New(a).Distance(b)
		d3, _, _ := g.SingleDist(b, a)
		if err != nil || err2 != nil || !ok || !ok2 {
			t.Violate("geo", [][]float32{a, b}, "geo distance of %v and %v refused: %v %v", a, b, err, err2)
			return
		}
		for _, d := range []float32{d1, d2, d3} {
			if !(float64(d) >= lo && float64(d) <= hi) {
				t.Violate("geo", [][]float32{a, b}, "geo distance of %v and %v is %v m, want %v m (%s)", a, b, d, at(A), kind)
				return
			}
		}
		t.Eval("geo", fmt.Sprintf("%v/%v", a, b))
		n := r.Intn(5)
		if n != 2 {
			if _, _, err := g.SingleDist(make([]float32, n), b); err == nil {
				t.Violate("geo", n, "geo distance of %d numbers", n)
			}
			if _, _, err := g.New(a).Distance(make([]float32, n)); err == nil {
				t.Violate("geo", n, "geo distance of %d numbers", n)
			}
		}
	})
}
