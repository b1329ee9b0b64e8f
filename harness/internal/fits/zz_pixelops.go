package fits

import (
	"math"
	"runtime"

	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzNear(a, b, tol float32) bool {
	d := a - b
	return z.And(d <= tol, d >= -tol)
}

func zzIsFinite(v float32) bool {
	return z.And(v == v, z.And(v < math.MaxFloat32, v > -math.MaxFloat32))
}

// a mono image with pixels spread over [0,1), and one taking any value of 1/32 steps within lo..hi
func zzMono(w, h int, lo, hi int) (f *Image, pos int) {
	f = zzImage(w, h)
	pos = zzFill(f, lo, hi)
	return f, pos
}

func zzFill(f *Image, lo, hi int) (pos int) {
	for i := range f.Data {
		f.Data[i] = float32((i*11+5)%29) / 32
	}
	pos = z.Choose("position", len(f.Data))
	f.Data[pos] = z.FracF32("pixel", lo, hi, 5)
	f.Stats.Clear()
	return pos
}

// a colour image
func zzColour(w, h int, lo, hi int) (f *Image, pos int) {
	f = zzImage(w, h, 3)
	pos = zzFill(f, lo, hi)
	return f, pos
}

func zzCopyOf(d []float32) []float32 { return append([]float32{}, d...) }

func zzQuery(s *stats.Stats) { s.Min(); s.Max(); s.Mean(); s.StdDev() }

// zzFresh compares the statistics of an image to those of its pixels
func zzFresh(f *Image) {
	want := stats.NewStats(f.Data, f.Naxisn[0])
	const tol = 2e-4
	z.Assert(zzNear(f.Stats.Min(), want.Min(), tol), "the minimum is the one of the current pixels")
	z.Assert(zzNear(f.Stats.Max(), want.Max(), tol), "the maximum is the one of the current pixels")
	z.Assert(zzNear(f.Stats.Mean(), want.Mean(), tol), "the mean is the one of the current pixels")
	z.Assert(zzNear(f.Stats.StdDev(), want.StdDev(), tol), "the standard deviation is the one of the current pixels")
}

// Statistics queried before a pixel operation describe the new pixels afterwards, mono images.
//
//verif:harness P07 op=0..10
//verif:reach fresh
//verif:opt tab=64 nomerge timeout=60
func ZZ_P07_mono() {
	stats.LSEstimator = stats.LSEMeanStdDev
	f, _ := zzMono(2, 2, 0, 32)
	zzQuery(f.Stats)
	switch z.Param("op") {
	case 0:
		f.ApplyScaleOffset([]float32{2, -0.5, 0, -3}[z.Choose("scale", 4)], 0.25)
	case 1:
		f.Normalize()
	case 2:
		f.ApplyGamma([]float32{2, 0.5}[z.Choose("gamma", 2)])
	case 3:
		f.ApplyPartialGamma(0.2, 0.8, 2)
	case 4:
		f.ApplyMidtones(0.25, 0.125)
	case 5:
		f.MonoToHSLuvLum()
	case 6:
		f.MonoToHSLLum()
	case 7:
		f.MatchLocation([]float32{0.5, -2}[z.Choose("location", 2)])
	case 8:
		r := zzImage(2, 2)
		copy(r.Data, []float32{1, 3, 4, 8})
		r.Stats.Clear()
		f.MatchHistogram(r.Stats)
	case 9:
		f.ShiftBlackToMove(0.5, 0.25)
	case 10:
		f.ApplyScaleOffset(0.5, -1)
		zzQuery(f.Stats)
		f.ApplyScaleOffset(-2, 0.5)
	}
	zzFresh(f)
	z.Reach("fresh")
}

// The same for colour images.
//
//verif:harness P07 op=0..15
//verif:reach fresh
//verif:opt tab=64 nomerge timeout=60
func ZZ_P07_colour() {
	stats.LSEstimator = stats.LSEMeanStdDev
	f, _ := zzColour(2, 1, 0, 32)
	zzQuery(f.Stats)
	switch z.Param("op") {
	case 0:
		f.ApplyScaleOffsetToChannel(z.Choose("channel", 3), -2, 0.25)
	case 1:
		f.ApplyGammaToChannel(2, 2)
	case 2:
		f.ApplyPartialGammaToChannel(2, 0.2, 0.8, 2)
	case 3:
		f.ApplyMidtonesToChannel(2, 0.25, 0.125)
	case 4:
		f.ShiftBlackToMoveChannel(2, 0.5, 0.25)
	case 5:
		f.OffsetRGB(0.25, 0.5, -0.5)
	case 6:
		f.ScaleRGB(2, 0.5, 3)
	case 7:
		f.ScaleOffsetClampRGB(2, -0.5, 0.5, 0.25, -1, 1)
	case 8:
		f.AdjustChroma(2, 0.25)
	case 9:
		f.NeutralizeBackground(0.25, 0.75)
	case 10:
		f.AdjustChromaForHues(0.1, 0.9, 0.5)
	case 11:
		f.RotateColors(0.1, 0.9, 30, 0.1)
	case 12:
		lum := zzImage(2, 1)
		lum.Data[0], lum.Data[1] = 2, 3
		f.ApplyLuminanceToCIExyY(lum)
	case 13:
		f.RGBToHSLuv()
	case 14:
		f.HSLuvToRGB()
	case 15:
		f.RGBToCIEHSL()
	}
	zzFresh(f)
	z.Reach("fresh")
}

// Scale and offset apply to each pixel once, for image sizes around the limits of the work packages.
//
//verif:harness P08 cpus=1 n=1..9,15,16,17,23,25
//verif:harness P08 cpus=2,3 n=1,15,16,17,33
//verif:harness P08 cpus=1,2,3 n=100,257
//verif:thorough cpus=1,2,3,4 n=1..40
//verif:reach affine
//verif:opt tab=64 nomerge timeout=60
func ZZ_P08_scaleoffset() {
	n := z.Param("n")
	runtime.GOMAXPROCS(z.Param("cpus"))
	f, _ := zzMono(n, 1, -31, 32)
	was := zzCopyOf(f.Data)
	scale, offset := float32(2), float32(-0.75)
	if z.Choose("inverted", 2) == 1 {
		scale, offset = -0.5, 3
	}
	f.ApplyScaleOffset(scale, offset)
	z.Assert(len(f.Data) == n, "all pixels stay")
	for i, v := range was {
		z.Assert(zzNear(f.Data[i], v*scale+offset, 1e-5), "each pixel is scaled and offset once")
	}
	z.Reach("affine")
}

// Per channel operations apply the parameters of the channel to this channel only.
//
//verif:harness P08 op=0..6 n=1,2 cpus=2
//verif:harness P08 op=0,1 n=9,17 cpus=1
//verif:harness P08 op=2,3,4 n=9 cpus=1
//verif:harness P08 op=0..6 n=40,65 cpus=1,3
//verif:thorough op=0..6 n=1..12 cpus=1,2
//verif:reach channels
//verif:opt tab=64 nomerge timeout=60
func ZZ_P08_channels() {
	n := z.Param("n")
	runtime.GOMAXPROCS(z.Param("cpus"))
	f, _ := zzColour(n, 1, -15, 45)
	was := zzCopyOf(f.Data)
	s, o, lo, hi := [3]float32{1, 1, 1}, [3]float32{}, float32(-100), float32(100)
	switch z.Param("op") {
	case 0:
		c := z.Choose("channel", 3)
		s[c], o[c] = -2, 0.25
		f.ApplyScaleOffsetToChannel(c, s[c], o[c])
	case 1:
		c := z.Choose("channel", 3)
		s[c], o[c] = 0.5, 1
		f.ApplyScaleOffsetToChannel(c, s[c], o[c])
	case 2:
		o = [3]float32{0.25, 0.5, -0.125}
		f.OffsetRGB(o[0], o[1], o[2])
	case 3:
		s, hi = [3]float32{2, 0.5, 1.5}, 1
		f.ScaleRGB(s[0], s[1], s[2])
	case 4:
		s, o, lo, hi = [3]float32{2, 0.5, -1.5}, [3]float32{-0.5, 0.125, 1}, 0, 1
		f.ScaleOffsetClampRGB(s[0], o[0], s[1], o[1], s[2], o[2])
	case 5: // black point
		s[2], o[2] = 1/(1-float32(1)/3), -0.5
		f.ShiftBlackToMoveChannel(2, 0.5, 0.25) // black point 1/3
	case 6:
		s[1], o[1] = 1/(1+float32(1)/3), 0.25
		f.ShiftBlackToMoveChannel(1, 0.5, 0.625) // black point -1/3
	}
	for i, v := range was {
		c := i / n
		l := lo
		if z.Param("op") == 5 && c == 2 || z.Param("op") == 6 && c == 1 {
			l = 0
		}
		want := v*s[c] + o[c]
		want = z.IteF32(want < l, l, want)
		want = z.IteF32(want > hi, hi, want)
		z.Assert(zzNear(f.Data[i], want, 1e-5), "each channel changes by its own parameters")
	}
	z.Reach("channels")
}

// Normalisation maps the minimum to zero and the maximum to one.
//
//verif:harness P08 n=2..5
//verif:reach normalised
//verif:opt tab=64 nomerge timeout=60
func ZZ_P08_normalize() {
	n := z.Param("n")
	f, _ := zzMono(n, 1, -30, 33)
	was := zzCopyOf(f.Data)
	min, max := was[0], was[0]
	for _, v := range was {
		min = z.IteF32(v < min, v, min)
		max = z.IteF32(v > max, v, max)
	}
	if z.Choose("queried", 2) == 1 {
		zzQuery(f.Stats)
	}
	z.Assume(min < max)
	f.Normalize()
	for i, v := range was {
		z.Assert(zzNear(f.Data[i]*(max-min), v-min, 1e-4), "values map linearly from the range of the image to 0..1")
	}
	z.Assert(zzNear(f.Stats.Min(), 0, 1e-4), "the minimum is zero")
	z.Assert(zzNear(f.Stats.Max(), 1, 1e-4), "the maximum is one")
	z.Reach("normalised")
}

// Histogram matching gives the image the location and the scale of the reference, by one scale and offset.
//
//verif:harness P08 mode=0,1 n=2,3,4
//verif:reach matched
//verif:opt tab=64 nomerge timeout=60
func ZZ_P08_match() {
	stats.LSEstimator = stats.LSEMeanStdDev
	n := z.Param("n")
	f, _ := zzMono(n, 1, -31, 32)
	was := zzCopyOf(f.Data)
	loc, scale := f.Stats.Location(), f.Stats.Scale()
	if z.Param("mode") == 0 {
		f.MatchLocation(3)
		for i, v := range was {
			z.Assert(zzIsFinite(f.Data[i]), "pixels stay finite")
			z.Assert(z.Implies(z.Or(loc > 0.001, loc < -0.001), zzNear(f.Data[i]*loc, v*3, 2e-3)), "values scale to match the location")
		}
	} else {
		r := zzImage(4, 1)
		copy(r.Data, []float32{1, 3, 4, 8})
		r.Stats.Clear()
		rl, rs := r.Stats.Location(), r.Stats.Scale()
		f.MatchHistogram(r.Stats)
		for i, v := range was {
			z.Assert(zzIsFinite(f.Data[i]), "pixels stay finite")
			z.Assert(z.Implies(scale > 0.001, zzNear((f.Data[i]-rl)*scale, (v-loc)*rs, 2e-3)), "values are scaled and offset to match location and scale")
			z.Assert(z.Implies(scale == 0, zzNear(f.Data[i], rl, 1e-3)), "uniform images take the location of the reference")
		}
	}
	z.Reach("matched")
}

// Uniform images, all zero ones in particular, stay finite.
//
//verif:harness P08 mode=0,1
//verif:reach uniform
//verif:opt tab=64 nomerge timeout=60
func ZZ_P08_uniform() {
	stats.LSEstimator = stats.LSEMeanStdDev
	f := zzImage(2, 2)
	v := z.FracF32("pixel", -31, 32, 5)
	for i := range f.Data {
		f.Data[i] = v
	}
	f.Stats.Clear()
	if z.Param("mode") == 0 {
		f.MatchLocation(3)
		for i := range f.Data {
			z.Assert(zzNear(f.Data[i], z.IteF32(v == 0, 0, 3), 1e-4), "values scale to match the location")
		}
	} else {
		r := zzImage(4, 1)
		copy(r.Data, []float32{1, 3, 4, 8})
		r.Stats.Clear()
		f.MatchHistogram(r.Stats)
		for i := range f.Data {
			z.Assert(zzNear(f.Data[i], r.Stats.Location(), 1e-3), "uniform images take the location of the reference")
		}
	}
	z.Reach("uniform")
}

// Moving the black point takes the value before to the value after, keeps one, and clips at zero.
//
//verif:harness P08 before=0..3 after=0..3
//verif:reach moved
//verif:opt tab=64 nomerge timeout=60
func ZZ_P08_black() {
	vals := []float32{0.125, 0.5, 0.0625, 0.75}
	before, after := vals[z.Param("before")], vals[z.Param("after")]
	f, _ := zzMono(3, 1, 0, 32)
	f.Data[1], f.Data[2] = before, 1
	v := f.Data[0]
	f.Stats.Clear()
	if z.Choose("channel", 2) == 0 {
		f.ShiftBlackToMove(before, after)
	} else {
		f.Naxisn, f.Pixels = []int32{3, 1, 3}, 9
		f.Data = append(append([]float32{0.25, 0.375, 0.5}, f.Data...), 0.5, 0.5, 0.5)
		f.ShiftBlackToMoveChannel(1, before, after)
		for i, w := range []float32{0.25, 0.375, 0.5} {
			z.Assert(f.Data[i] == w, "other channels stay")
			z.Assert(f.Data[6+i] == 0.5, "other channels stay")
		}
		f.Data = f.Data[3:6]
	}
	z.Assert(zzNear(f.Data[1], after, 1e-5), "the value before becomes the value after")
	z.Assert(zzNear(f.Data[2], 1, 1e-5), "one stays one")
	want := after + (v-before)*(1-after)/(1-before)
	z.Assert(zzNear(f.Data[0], z.IteF32(want < 0, 0, want), 1e-5), "linear in between, clipped at zero")
	z.Reach("moved")
}

// White cannot be moved by shifting the black point, and nothing is moved to white: pixels stay finite.
//
//verif:harness P08 before=0..4 after=0..4
//verif:reach white
//verif:opt tab=64 nomerge timeout=60
func ZZ_P08_white() {
	vals := []float32{0.125, 1, 0.9999, 1.5, 4000}
	before, after := vals[z.Param("before")], vals[z.Param("after")]
	f, _ := zzColour(2, 1, 0, 40)
	was := zzCopyOf(f.Data)
	f.Data[z.Choose("white", 6)] = before
	c := z.Choose("channel", 4)
	if c == 3 {
		f.ShiftBlackToMove(before, after)
	} else {
		f.ShiftBlackToMoveChannel(c, before, after)
	}
	for i, v := range f.Data {
		z.Assert(zzIsFinite(v), "pixels stay finite")
		if c < 3 && i/2 != c {
			z.Assert(z.Or(z.SameBits(v, was[i]), v == before), "other channels stay")
		}
	}
	z.Reach("white")
}

// Parallel pixel functions handle every pixel exactly once, under every schedule, and have finished on return.
//
//verif:harness C02 kind=0,1,2 n=0,1,2,3 cpus=1,2,3
//verif:thorough kind=0,1,2 n=0..6 cpus=1,2,3,4
//verif:reach once
//verif:opt sched=1 race timeout=60 noobs ac
func ZZ_C02_schedules() { zzOnce() }

// The same with up to three preemptions.
//
//verif:harness C02 kind=0,1,2 n=2,3 cpus=1,2
//verif:thorough kind=0,1,2 n=1,2,3,4 cpus=1,2,3
//verif:reach once
//verif:opt sched=3 race timeout=60 noobs ac
func ZZ_C02_preemptions() { zzOnce() }

// The same for image sizes around the limits of the work packages.
//
//verif:harness C02 kind=0,1,2 n=0..10,15..18,23..26,31..34 cpus=1
//verif:harness C02 kind=0,1,2 n=7,8,9,15,16,17,31,32,33,47,49 cpus=2,3
//verif:thorough kind=0,1,2 n=0..70 cpus=1..8
//verif:reach once
//verif:opt timeout=60 noobs
func ZZ_C02_sizes() { zzOnce() }

func zzOnce() {
	runtime.GOMAXPROCS(z.Param("cpus"))
	n, kind := z.Param("n"), z.Param("kind")
	dims := []int{n, 1, 3}
	if kind == 0 {
		dims = dims[:2]
	}
	f := zzImage(dims...)
	was := make([]float32, len(f.Data))
	for i := range was {
		was[i] = float32(10 * i)
	}
	if len(was) > 0 {
		was[len(was)-1] = z.SmallF32("v", 0, 1000)
	}
	copy(f.Data, was)
	type arg struct{ add float32 }
	channel := -1
	switch kind {
	case 0:
		f.ApplyPixelFunction(func(d []float32, p interface{}) {
			for i := range d {
				d[i] += p.(arg).add
			}
		}, arg{3})
	case 1:
		channel = z.Choose("channel", 3)
		f.ApplyPixelFunction1Chan(channel, func(d []float32, p interface{}) {
			for i := range d {
				d[i] += p.(arg).add
			}
		}, arg{3})
	case 2:
		f.ApplyPixelFunction3Chan(func(a, b, c []float32, p interface{}) {
			z.Assert(len(a) == len(b) && len(b) == len(c), "as many pixels of each channel")
			for i := range a {
				a[i], b[i], c[i] = a[i]+2*b[i]+p.(arg).add, b[i]-c[i], c[i]+a[i]
			}
		}, arg{3})
	}
	z.Assert(len(f.Data) == len(was), "all pixels stay")
	for i, v := range was {
		want := v
		switch {
		case kind == 0 || kind == 1 && i/n == channel:
			want = v + 3
		case kind == 2 && i/n == 0:
			want = v + 2*was[i+n] + 3
		case kind == 2 && i/n == 1:
			want = v - was[i+n]
		case kind == 2:
			want = v + was[i-2*n]
		}
		z.Assert(f.Data[i] == want, "the function is applied to every pixel once")
	}
	z.Reach("once")
}
