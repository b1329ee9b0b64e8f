package fits

import (
	"math"

	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzExported saves an image with the exporter of the given kind and returns the samples, plane by plane
func zzExported(kind int, f *Image, min, max, gamma float32) []int {
	z.FS()
	w, h := int(f.Naxisn[0]), int(f.Naxisn[1])
	var err error
	switch kind {
	case 0:
		err = f.WriteMonoTIFF16ToFile("a.tif", min, max, gamma)
	case 1:
		err = f.WriteTIFF16ToFile("a.tif", min, max, gamma)
	case 2:
		err = f.WriteMonoJPGToFile("a.jpg", min, max, gamma, 95)
	case 3:
		err = f.WriteJPGToFile("a.jpg", min, max, gamma, 95)
	}
	z.Assert(err == nil, "an image is exported")
	ch := 1 + kind%2*2
	out := make([]int, w*h*ch)
	if kind < 2 {
		g := NewImage()
		err = g.ReadFile("a.tif", true, &z.LogSink{})
		z.Assert(err == nil, "an exported image is read")
		z.Assert(len(g.Data) == len(out) && int(g.Naxisn[0]) == w && int(g.Naxisn[1]) == h && len(g.Naxisn) == 2+kind%2, "dimensions")
		for i, v := range g.Data {
			out[i] = int(v)
		}
		return out
	}
	// the replacement of the encoder stores the samples
	b, _ := z.FSGet("a.jpg")
	z.Assert(len(b) == 5+len(out) && int(b[1])<<8+int(b[2]) == w && int(b[3])<<8+int(b[4]) == h, "dimensions")
	for i := 0; i < w*h; i++ {
		for c := 0; c < ch; c++ {
			out[c*w*h+i] = int(b[5+i*ch+c])
		}
	}
	return out
}

func zzFull(kind int) int {
	if kind < 2 {
		return 65535
	}
	return 255
}

var zzRanges = [][2]float32{{0, 1}, {0, 65535}, {-100, 155}, {0.25, 0.5}, {0, 255}}

// One pixel of any value, in one of the channels: linear within the range, black or white outside, black if invalid.
//
//verif:harness F07 kind=0,2 plane=0 range=0..4
//verif:harness F07 kind=1,3 plane=0..2 range=0,2
//verif:reach exported
//verif:opt timeout=60 fs
func ZZ_F07_value() {
	kind := z.Param("kind")
	full := zzFull(kind)
	min, max := zzRanges[z.Param("range")][0], zzRanges[z.Param("range")][1]
	var f *Image
	if kind%2 == 0 {
		f = zzImage(1, 1)
	} else {
		f = zzImage(1, 1, 3)
	}
	for i := range f.Data {
		f.Data[i] = min
	}
	p := z.Param("plane")
	v := z.AnyF32("pixel")
	f.Data[p] = v
	out := zzExported(kind, f, min, max, 1)
	s := out[p]
	z.Assert(z.Implies(v != v, s == 0), "invalid pixels are black")
	z.Assert(z.Implies(v <= min, s == 0), "values below the range are black")
	z.Assert(z.Implies(v >= max, s == full), "values above the range are white")
	z.Assert(z.And(s >= 0, s <= full), "range of the samples")
	if z.Param("range") == 0 && z.Bool("within") {
		z.Assume(z.And(v >= min, v <= max))
		want := (float64(v) - float64(min)) / (float64(max) - float64(min)) * float64(full)
		z.Assert(z.And(float64(s) >= want-1.01, float64(s) <= want+1.01), "linear within the range")
	}
	for i := range out {
		if i != p {
			z.Assert(out[i] == 0, "other channels are not affected")
		}
	}
	z.Reach("exported")
}

// Values within and next to the range, in fine steps.
//
//verif:harness F07 kind=0..3 range=0..4
//verif:reach linear
//verif:opt timeout=60 fs tab=128
func ZZ_F07_linear() {
	kind := z.Param("kind")
	min, max := zzRanges[z.Param("range")][0], zzRanges[z.Param("range")][1]
	var f *Image
	if kind%2 == 0 {
		f = zzImage(1, 1)
	} else {
		f = zzImage(1, 1, 3)
	}
	for i := range f.Data {
		f.Data[i] = min
	}
	k := z.SmallF32("step", -8, 72)
	p := z.Choose("plane", len(f.Data))
	f.Data[p] = min + k*(max-min)/64
	out := zzExported(kind, f, min, max, 1)
	v := float64(f.Data[p])
	want := (v - float64(min)) / (float64(max) - float64(min)) * float64(zzFull(kind))
	s := float64(out[p])
	z.Assert(z.Implies(z.And(v > float64(min), v < float64(max)), z.And(s >= want-1.01, s <= want+1.01)), "linear within the range")
	z.Assert(z.And(z.Implies(v <= float64(min), s == 0), z.Implies(v >= float64(max), out[p] == zzFull(kind))), "black or white outside of the range")
	z.Reach("linear")
}

// A larger value never gives a smaller sample.
//
//verif:harness F07 kind=0..3 range=0,2,3
//verif:reach monotone
//verif:opt timeout=60 fs
func ZZ_F07_monotone() {
	kind := z.Param("kind")
	min, max := zzRanges[z.Param("range")][0], zzRanges[z.Param("range")][1]
	var f *Image
	n := 1
	if kind%2 == 0 {
		f = zzImage(2, 1)
	} else {
		f = zzImage(2, 1, 3)
		n = 3
	}
	for c := 0; c < n; c++ {
		// steps of an eighth of the range, beginning and ending outside of it
		a, b := z.SmallF32("a", -2, 10), z.SmallF32("b", -2, 10)
		z.Assume(a <= b)
		f.Data[2*c] = min + a*(max-min)/8
		f.Data[2*c+1] = min + b*(max-min)/8
	}
	out := zzExported(kind, f, min, max, 1)
	for c := 0; c < n; c++ {
		z.Assert(out[2*c] <= out[2*c+1], "order of the values")
	}
	z.Reach("monotone")
}

// Each pixel has its place, for all shapes.
//
//verif:harness F07 kind=0..3 w=1..3 h=1..3
//verif:harness F07 kind=0..3 w=17,20 h=9
//verif:harness F07 kind=1,3 w=9 h=33
//verif:thorough kind=0..3 w=1..5 h=1..5
//verif:reach place
//verif:opt timeout=60 fs tab=64
func ZZ_F07_place() {
	kind, w, h := z.Param("kind"), z.Param("w"), z.Param("h")
	var f *Image
	if kind%2 == 0 {
		f = zzImage(w, h)
	} else {
		f = zzImage(w, h, 3)
	}
	n := len(f.Data)
	for i := range f.Data {
		f.Data[i] = float32(i)
	}
	k := z.Choose("plane", n/(w*h))*w*h + z.Place(w, h)
	top := n
	if top > 60 {
		top = 60
	}
	f.Data[k] = z.SmallF32("pixel", 0, top)
	out := zzExported(kind, f, 0, float32(n), 1)
	for i := range out {
		want := float64(f.Data[i]) / float64(n) * float64(zzFull(kind))
		z.Assert(z.And(float64(out[i]) >= want-1.01, float64(out[i]) <= want+1.01), "each pixel has its place")
	}
	z.Reach("place")
}

// With gamma correction.
//
//verif:harness F07 kind=0..3
//verif:reach gamma
//verif:opt timeout=60 fs nomerge
func ZZ_F07_gamma() {
	kind := z.Param("kind")
	vals := []float32{-3, 0, 0.001, 0.25, 0.5, 0.999, 1, 7, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}
	gammas := []float32{2, 0.5, 2.2, 1}
	gamma := gammas[z.Choose("gamma", len(gammas))]
	var f *Image
	if kind%2 == 0 {
		f = zzImage(1, 1)
	} else {
		f = zzImage(1, 1, 3)
	}
	for i := range f.Data {
		f.Data[i] = float32(i+1) / 5
	}
	f.Data[z.Choose("position", len(f.Data))] = vals[z.Choose("pixel", len(vals))]
	out := zzExported(kind, f, 0, 1, gamma)
	for i, v := range f.Data {
		if v != v || v < 0 {
			v = 0
		}
		if v > 1 {
			v = 1
		}
		want := math.Pow(float64(v), 1/float64(gamma)) * float64(zzFull(kind))
		z.Assert(math.Abs(float64(out[i])-want) <= 1.01, "gamma curve")
	}
	z.Reach("gamma")
}
