package fits

import (
	"math"

	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzHSL: two HSL pixels. One component of the first takes all values, the others several ones.
// h in 0..360, s and l in 0..1
func zzHSL(vary int) (f *Image, was []float32) {
	f = zzImage(2, 1, 3)
	hs, ss, ls := []float32{5, 100, 200, 350}, []float32{0, 0.25, 1}, []float32{0.125, 0.5, 0.875}
	var h, s, l float32
	if vary == 0 {
		h = z.SmallF32("hue", 0, 60) * 6
	} else {
		h = hs[z.Choose("hues", len(hs))]
	}
	if vary == 1 {
		s = z.FracF32("saturation", 0, 32, 5)
	} else {
		s = ss[z.Choose("saturations", len(ss))]
	}
	if vary == 2 {
		l = z.FracF32("luminance", 0, 32, 5)
	} else {
		l = ls[z.Choose("luminances", len(ls))]
	}
	copy(f.Data, []float32{h, 120, s, 0.5, l, 0.5})
	was = zzCopyOf(f.Data)
	zzMany(f)
	return f, was
}

// zzMany: an image of more pixels, which repeats the two of the one given
func zzMany(f *Image) {
	n, w := z.Param("n"), len(f.Data)/2
	d := make([]float32, n*w)
	for i := range d {
		d[i] = f.Data[i/n*2+i%n%2]
	}
	f.Data, f.Naxisn, f.Pixels = d, []int32{int32(n), 1}, int32(n*w)
	if w > 1 {
		f.Naxisn = []int32{int32(n), 1, int32(w)}
	}
	f.Stats.SetData(d)
	f.Stats.Clear()
}

// zzTwo: the first two pixels, after checking that the others are the same
func zzTwo(f *Image) {
	n, w := int(f.Naxisn[0]), 1
	if len(f.Naxisn) == 3 {
		w = int(f.Naxisn[2])
	}
	z.Assert(len(f.Data) == n*w, "the size stays")
	d := make([]float32, 2*w)
	for i, v := range f.Data {
		k := i/n*2 + i%n%2
		if i%n < 2 {
			d[k] = v
		}
		z.Assert(z.SameBits(v, d[k]), "the result for a pixel depends on that pixel only")
	}
	f.Data, f.Pixels = d, int32(2*w)
	f.Naxisn = append([]int32{2}, f.Naxisn[1:]...)
}

func zzPow(v, g float32) float32 { return float32(math.Pow(float64(v), 1/float64(g))) }

// The gamma curve of the saturation applies to pixels at or above the threshold, and to nothing else.
//
//verif:harness H01 vary=0..2 n=2 cpus=2
//verif:harness H01 vary=0..2 n=18 cpus=1
//verif:reach chroma
//verif:opt tab=64 nomerge timeout=60
func ZZ_H01_chroma() {
	f, was := zzHSL(z.Param("vary"))
	gamma := []float32{2, 0.5, 1}[z.Choose("gamma", 3)]
	thr := []float32{0, 0.25, 0.515, 2}[z.Choose("threshold", 4)]
	f.AdjustChroma(gamma, thr)
	zzTwo(f)
	for i := 0; i < 2; i++ {
		want := z.IteF32(was[4+i] < thr, was[2+i], zzPow(was[2+i], gamma))
		z.Assert(z.SameBits(f.Data[i], was[i]), "the hue stays")
		z.Assert(zzNear(f.Data[2+i], want, 1e-5), "the saturation follows the gamma curve for pixels which are bright enough, and stays otherwise")
		z.Assert(z.SameBits(f.Data[4+i], was[4+i]), "the luminance stays")
	}
	z.Reach("chroma")
}

// The saturation changes by the factor for hues in the range, which may include zero, and nothing else changes.
//
//verif:harness H01 vary=0,1 n=2 cpus=2
//verif:harness H01 vary=0,1 n=18 cpus=1
//verif:reach hues
//verif:opt tab=64 nomerge timeout=60
func ZZ_H01_hues() {
	f, was := zzHSL(z.Param("vary"))
	ranges := [][2]float32{{95, 205}, {295, 30}, {0.5, 359.5}, {110, 115}}
	r := ranges[z.Choose("range", len(ranges))]
	factor := []float32{0, 0.5, 3, -1}[z.Choose("factor", 4)]
	f.AdjustChromaForHues(r[0], r[1], factor)
	zzTwo(f)
	for i := 0; i < 2; i++ {
		h, s := was[i], was[2+i]
		want := s * factor
		want = z.IteF32(want < 0, 0, want)
		want = z.IteF32(want > 1, 1, want)
		in := z.And(h > r[0], h < r[1])
		if r[0] > r[1] {
			in = z.Or(h > r[0], h < r[1])
		}
		z.Assert(z.SameBits(f.Data[i], h), "the hue stays")
		z.Assert(zzNear(f.Data[2+i], z.IteF32(in, want, s), 1e-5), "the saturation of hues in the range changes by the factor, others stay")
		z.Assert(z.SameBits(f.Data[4+i], was[4+i]), "the luminance stays")
	}
	z.Reach("hues")
}

// Hues in the range rotate by the offset for pixels which are bright enough, and nothing else changes.
//
//verif:harness H01 vary=0,2 n=2 cpus=2
//verif:harness H01 vary=0,2 n=18 cpus=1
//verif:reach rotate
//verif:opt tab=64 nomerge timeout=60
func ZZ_H01_rotate() {
	f, was := zzHSL(z.Param("vary"))
	ranges := [][2]float32{{95, 205}, {295, 30}, {0.5, 359.5}, {110, 115}}
	r := ranges[z.Choose("range", len(ranges))]
	offset := []float32{-30, 40}[z.Choose("offset", 2)]
	thr := []float32{0, 0.25, 0.515, 2}[z.Choose("threshold", 4)]
	f.RotateColors(r[0], r[1], offset, thr)
	zzTwo(f)
	for i := 0; i < 2; i++ {
		h := was[i]
		in := z.And(h > r[0], h < r[1])
		if r[0] > r[1] {
			in = z.Or(h > r[0], h < r[1])
		}
		in = z.And(in, was[4+i] >= thr)
		want := z.IteF32(in, h+offset, h)
		got := f.Data[i]
		same := z.Or(zzNear(got, want, 1e-3), z.Or(zzNear(got, want+360, 1e-3), zzNear(got, want-360, 1e-3)))
		z.Assert(same, "hues in the range rotate by the offset, others stay")
		z.Assert(z.SameBits(f.Data[2+i], was[2+i]), "the saturation stays")
		z.Assert(z.SameBits(f.Data[4+i], was[4+i]), "the luminance stays")
	}
	z.Reach("rotate")
}

// Noise reduction of green keeps luminance, results are finite, grey pixels and factor zero keep the saturation.
//
//verif:harness H01 vary=0..2 n=2 cpus=2
//verif:harness H01 vary=0..2 n=18 cpus=1
//verif:reach scnr
//verif:opt tab=64 nomerge timeout=60
func ZZ_H01_scnr() {
	f, was := zzHSL(z.Param("vary"))
	z.Assume(z.Or(z.Param("vary") == 2, z.Concrete(int(was[4]*8)) == 4))
	factor := []float32{0, 0.75}[z.Choose("factor", 2)]
	f.SCNR(factor)
	zzTwo(f)
	for i := 0; i < 2; i++ {
		z.Assert(z.SameBits(f.Data[4+i], was[4+i]), "the luminance stays")
		z.Assert(z.And(f.Data[i] > -361, f.Data[i] < 721), "the hue is finite")
		z.Assert(z.And(f.Data[2+i] > -0.001, f.Data[2+i] < 1.001), "the saturation is between zero and one")
		z.Assert(z.Implies(was[2+i] == 0, f.Data[2+i] < 0.02), "grey stays grey")
	}
	z.Reach("scnr")
}

// The background becomes neutral below the lower bound, keeps its colour above the upper one, and the saturation
// is interpolated in between.
//
//verif:harness H06 vary=0..2 n=2 cpus=2
//verif:harness H06 vary=0..2 n=18 cpus=1
//verif:reach neutral
//verif:opt tab=64 nomerge timeout=60
func ZZ_H06_neutral() {
	f, was := zzHSL(z.Param("vary"))
	ranges := [][2]float32{{0.25, 0.75}, {0.125, 0.1875}, {0.5, 0.5}, {0, 1}, {0.75, 0.25}}
	r := ranges[z.Choose("range", len(ranges))]
	f.NeutralizeBackground(r[0], r[1])
	zzTwo(f)
	for i := 0; i < 2; i++ {
		l, s := was[4+i], was[2+i]
		want := s
		if r[0] < r[1] {
			k := (l - r[0]) / (r[1] - r[0])
			k = z.IteF32(k < 0, 0, k)
			k = z.IteF32(k > 1, 1, k)
			want = s * k
			z.Assert(zzNear(f.Data[2+i], want, 1e-5), "the saturation goes to zero below the lower bound, stays above the upper, and is interpolated in between")
		} else {
			z.Assert(z.Implies(l < r[0], f.Data[2+i] == 0), "background is neutral")
			z.Assert(z.Implies(l > r[0], z.SameBits(f.Data[2+i], s)), "colours above the bounds stay")
		}
		z.Assert(z.SameBits(f.Data[i], was[i]), "the hue stays")
		z.Assert(z.SameBits(f.Data[4+i], l), "the luminance stays")
	}
	z.Reach("neutral")
}

// two pixels of neighbouring values
func zzPair(lo, hi int) (f *Image, a, b float32) {
	f = zzImage(2, 1)
	a = z.FracF32("pixel", lo, hi, 5)
	b = a + 1.0/64
	f.Data[0], f.Data[1] = a, b
	f.Stats.Clear()
	return f, a, b
}

// zzCurve: applies a function to the image, as a whole or as one of three channels
func zzCurve(f *Image, whole func(), channel func(id int)) {
	k := z.Choose("channel", 4)
	if k == 3 {
		zzMany(f)
		whole()
		zzTwo(f)
		return
	}
	d := f.Data
	others := []float32{0.25, 0.375, 0.5, 0.625, 0.75, 0.875}
	g := zzImage(2, 1, 3)
	copy(g.Data, others)
	copy(g.Data[2*k:], d)
	f.Naxisn, f.Pixels, f.Data = g.Naxisn, g.Pixels, g.Data
	zzMany(f)
	channel(k)
	zzTwo(f)
	for i, v := range others {
		if i/2 != k {
			z.Assert(z.SameBits(f.Data[i], v), "other channels stay")
		}
	}
	copy(d, f.Data[2*k:2*k+2])
	f.Naxisn, f.Pixels, f.Data = []int32{2, 1}, 2, d
}

// Gamma curves: increasing, from zero to zero and one to one.
//
//verif:harness H02 gamma=0..4 n=2 cpus=2
//verif:harness H02 gamma=0..4 n=18 cpus=1
//verif:reach gamma
//verif:opt tab=64 nomerge timeout=60
func ZZ_H02_gamma() {
	gamma := []float32{1, 2, 0.5, 5, 0.1}[z.Param("gamma")]
	f, a, b := zzPair(0, 31)
	zzCurve(f, func() { f.ApplyGamma(gamma) }, func(id int) { f.ApplyGammaToChannel(id, gamma) })
	z.Assert(zzNear(f.Data[0], zzPow(a, gamma), 1e-5), "the gamma curve")
	z.Assert(zzNear(f.Data[1], zzPow(b, gamma), 1e-5), "the gamma curve")
	z.Assert(f.Data[0] <= f.Data[1], "the order of pixels stays")
	z.Assert(z.And(f.Data[0] >= 0, f.Data[1] <= 1), "values stay between zero and one")
	z.Assert(z.Implies(a == 0, f.Data[0] == 0), "black stays black")
	z.Reach("gamma")
}

// The fixed ends of the gamma and midtones curves.
//
//verif:harness H02 kind=0,1,2 n=2 cpus=2
//verif:harness H02 kind=0,1,2 n=18 cpus=1
//verif:reach ends
//verif:opt tab=64 nomerge timeout=60
func ZZ_H02_ends() {
	f := zzImage(2, 1)
	f.Data[0], f.Data[1] = 0, 1
	f.Stats.Clear()
	p := z.FracF32("parameter", 1, 31, 5)
	black := float32(0)
	switch z.Param("kind") {
	case 0:
		zzCurve(f, func() { f.ApplyGamma(4 * p) }, func(id int) { f.ApplyGammaToChannel(id, 4*p) })
	case 1:
		zzCurve(f, func() { f.ApplyMidtones(p, 0) }, func(id int) { f.ApplyMidtonesToChannel(id, p, 0) })
	case 2:
		black = 0.25
		f.Data[0] = black
		zzCurve(f, func() { f.ApplyMidtones(p, black) }, func(id int) { f.ApplyMidtonesToChannel(id, p, black) })
	}
	z.Assert(zzNear(f.Data[0], 0, 1e-5), "black maps to zero")
	z.Assert(zzNear(f.Data[1], 1, 1e-5), "one stays one")
	z.Reach("ends")
}

// Gamma curves of a part of the range: increasing, mapping the range to itself and leaving other values.
//
//verif:harness H02 gamma=1..3 n=2 cpus=2
//verif:harness H02 gamma=1..3 n=18 cpus=1
//verif:reach partial
//verif:opt tab=64 nomerge timeout=60
func ZZ_H02_partial() {
	gamma := []float32{1, 2, 0.5, 5}[z.Param("gamma")]
	ranges := [][2]float32{{0.25, 0.75}, {0.01, 1}, {0.5, 0.51}, {0.75, 0.25}, {1.5, 1}}
	r := ranges[z.Choose("range", len(ranges))]
	f, a, b := zzPair(-8, 40)
	zzCurve(f, func() { f.ApplyPartialGamma(r[0], r[1], gamma) }, func(id int) { f.ApplyPartialGammaToChannel(id, r[0], r[1], gamma) })
	for i, v := range []float32{a, b} {
		g := f.Data[i]
		in := z.And(v > r[0], v < r[1])
		z.Assert(z.Implies(z.Or(v < r[0], v > r[1]), z.SameBits(g, v)), "values outside of the range stay")
		z.Assert(z.Implies(in, z.And(g >= r[0]-1e-6, g <= r[1]+1e-6)), "values in the range stay in the range")
		if r[0] < r[1] {
			k := (v - r[0]) / (r[1] - r[0])
			k = z.IteF32(k < 0, 0, k)
			want := r[0] + zzPow(k, gamma)*(r[1]-r[0])
			z.Assert(z.Implies(in, zzNear(g, want, 1e-5)), "the gamma curve within the range")
		}
	}
	z.Assert(f.Data[0] <= f.Data[1]+1e-6, "the order of pixels stays")
	z.Reach("partial")
}

// Midtones: increasing, black maps to zero and one to one, clipped in between.
//
//verif:harness H02 mid=0..4 black=0..3 n=2 cpus=2
//verif:harness H02 mid=0..4 black=0..3 n=18 cpus=1
//verif:reach midtones
//verif:opt tab=64 nomerge timeout=60
func ZZ_H02_midtones() {
	mid := []float32{0.5, 0.125, 0.25, 0.75, 0.02}[z.Param("mid")]
	black := []float32{0, 0.125, 0.5, 0.01}[z.Param("black")]
	f, a, b := zzPair(0, 31)
	zzCurve(f, func() { f.ApplyMidtones(mid, black) }, func(id int) { f.ApplyMidtonesToChannel(id, mid, black) })
	mtf := func(v float32) float32 { return v * (mid - 1) / ((2*mid-1)*v - mid) }
	for i, v := range []float32{a, b} {
		g := f.Data[i]
		z.Assert(z.And(g >= -1e-6, g <= 1+1e-6), "values stay between zero and one")
		want := (mtf(v) - mtf(black)) / (1 - mtf(black))
		want = z.IteF32(v < black, 0, want)
		z.Assert(zzNear(g, want, 1e-4), "the midtones curve, clipped below the black point")
	}
	z.Assert(f.Data[0] <= f.Data[1]+1e-6, "the order of pixels stays")
	z.Reach("midtones")
}

// Colour conversion to HSLuv and back gives the same pixels.
//
//verif:harness H05 position=0..2
//verif:reach roundtrip
//verif:opt tab=64 nomerge timeout=60
func ZZ_H05_roundtrip() {
	f := zzImage(2, 1, 3)
	vals := []float32{0.0625, 0.375, 0.9375}
	v := z.FracF32("pixel", 1, 31, 5)
	k := z.Param("position")
	for i := 0; i < 3; i++ {
		if i != k {
			f.Data[2*i] = vals[z.Choose("other", 3)]
		}
		f.Data[2*i+1] = float32(i+1) / 8
	}
	f.Data[2*k] = v
	f.Stats.Clear()
	was := zzCopyOf(f.Data)
	f.RGBToHSLuv()
	for i := 0; i < 2; i++ {
		z.Assert(z.And(f.Data[2+i] >= 0, f.Data[2+i] <= 1.0001), "saturation is between zero and one")
		z.Assert(z.And(f.Data[4+i] >= 0, f.Data[4+i] <= 1.0001), "luminance is between zero and one")
	}
	f.HSLuvToRGB()
	for i, v := range was {
		z.Assert(zzNear(f.Data[i], v, 2e-3), "the colour stays")
	}
	z.Reach("roundtrip")
}

var _ = stats.LSEstimator
