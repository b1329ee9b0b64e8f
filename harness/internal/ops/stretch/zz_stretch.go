package stretch

import (
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzContext() *ops.Context {
	stats.LSEstimator = stats.LSEMeanStdDev
	return &ops.Context{Log: &z.LogSink{}, MaxThreads: 2, MemoryMB: 1000, StackMemoryMB: 700}
}

func zzImage(id int, dims ...int) *fits.Image {
	n := 1
	naxisn := []int32{}
	for _, d := range dims {
		n *= d
		naxisn = append(naxisn, int32(d))
	}
	f := fits.NewImageFromNaxisn(naxisn, make([]float32, n))
	f.ID = id
	return f
}

// an image with pixels spread over [0,1), and one with any value of 1/32 steps within lo..hi
func zzScene(lo, hi int, dims ...int) (f *fits.Image, pos int) {
	f = zzImage(1, dims...)
	for i := range f.Data {
		f.Data[i] = float32((i*11+5)%29) / 32
	}
	h, planes := 1, 1
	if len(dims) > 1 {
		h = dims[1]
	}
	if len(dims) > 2 {
		planes = dims[2]
	}
	pos = z.Choose("plane", planes)*dims[0]*h + z.Place(dims[0], h)
	f.Data[pos] = z.FracF32("pixel", lo, hi, 5)
	f.Stats.Clear()
	return f, pos
}

func zzCopy(d []float32) []float32 { return append([]float32{}, d...) }

func zzNear(a, b, tol float32) bool {
	d := a - b
	return z.And(d <= tol, d >= -tol)
}

func zzSame(a, b []float32, msg string) {
	z.Assert(len(a) == len(b), msg)
	for i := range a {
		z.Assert(z.SameBits(a[i], b[i]), msg)
	}
}

func zzQuery(s *stats.Stats) { s.Min(); s.Max(); s.Mean(); s.StdDev(); s.Location() }

func zzFresh(f *fits.Image) {
	want := stats.NewStats(f.Data, f.Naxisn[0])
	const tol = 3e-4
	z.Assert(zzNear(f.Stats.Min(), want.Min(), tol), "the minimum is the one of the current pixels")
	z.Assert(zzNear(f.Stats.Max(), want.Max(), tol), "the maximum is the one of the current pixels")
	z.Assert(zzNear(f.Stats.Mean(), want.Mean(), tol), "the mean is the one of the current pixels")
	z.Assert(zzNear(f.Stats.StdDev(), want.StdDev(), tol), "the standard deviation is the one of the current pixels")
}

func zzOp(k int) ops.Operator {
	switch k {
	case 0:
		return NewOpNormalizeRange()
	case 1:
		return NewOpStretchIterative(0.25, 0.125)
	case 2:
		return NewOpMidtones(0.5, 1)
	case 3:
		return NewOpGamma(2)
	case 4:
		return NewOpGammaPP(2, 0.25)
	case 5:
		return NewOpScaleBlack(0.125)
	case 6:
		return NewOpGaussianBlur(1)
	}
	return NewOpUnsharpMask(1, 1.5, 0.25)
}

func zzApply(op ops.Operator, f *fits.Image, c *ops.Context) (*fits.Image, error) {
	outs, err := op.MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, c)
	z.Assert(err == nil && len(outs) == 1, "one result per image")
	return outs[0]()
}

// Statistics describe the result of each stretching operator.
//
//verif:harness P07 op=0,2..7
//verif:reach fresh
//verif:opt tab=64 nomerge timeout=60
func ZZ_P07_stretch() {
	c := zzContext()
	f, _ := zzScene(1, 30, 2, 2)
	zzQuery(f.Stats)
	g, err := zzApply(zzOp(z.Param("op")), f, c)
	z.Assert(err == nil && g != nil, "the operator succeeds")
	zzFresh(g)
	z.Reach("fresh")
}

// Statistics stay right through two operators in a row.
//
//verif:harness P07 a=2..7 b=0,3,6,7
//verif:thorough a=0,2..7 b=0,2..7
//verif:reach fresh
//verif:opt tab=64 nomerge timeout=60
func ZZ_P07_chain() {
	c := zzContext()
	f, _ := zzScene(1, 30, 2, 2)
	zzQuery(f.Stats)
	g, err := zzApply(zzOp(z.Param("a")), f, c)
	z.Assert(err == nil && g != nil, "the operator succeeds")
	zzQuery(g.Stats)
	g, err = zzApply(zzOp(z.Param("b")), g, c)
	z.Assert(err == nil && g != nil, "the operator succeeds")
	zzFresh(g)
	z.Reach("fresh")
}

// The kernel is symmetric, sums to one, falls off from its middle, and needs at most 2*3*sigma+1 elements.
//
//verif:harness H04 lo=1 hi=40
//verif:harness H04 lo=41 hi=100
//verif:thorough lo=1 hi=60
//verif:thorough lo=61 hi=120
//verif:thorough lo=121 hi=180
//verif:reach kernel
//verif:opt tab=64 nomerge timeout=60
func ZZ_H04_kernel() {
	sigma := z.FracF32("sigma", z.Param("lo"), z.Param("hi"), 5)
	k := GaussianKernel1D(sigma)
	z.Assert(len(k)%2 == 1, "the kernel has a middle")
	r := len(k) / 2
	sum := float32(0)
	for i, v := range k {
		z.Assert(zzNear(v, k[len(k)-1-i], 1e-6), "the kernel is symmetric")
		z.Assert(z.And(v >= 0, v <= 1.00001), "weights are between zero and one")
		if i > 0 && i <= r {
			z.Assert(v >= k[i-1], "weights grow towards the middle")
		}
		sum += v
	}
	z.Assert(zzNear(sum, 1, 1e-5), "the weights sum up to one")
	z.Assert(float32(r) <= 3*sigma+1, "the kernel is not larger than three sigma")
	z.Reach("kernel")
}

// Filtering terminates without a crash for every sigma and image size, keeps uniform images, and stays
// between the minimum and the maximum of the image.
//
//verif:harness H04 w=1,2,3 h=1,2,3 lo=1 hi=60
//verif:harness H04 w=1,2 h=1,2 lo=61 hi=120
//verif:harness H04 w=7 h=1 lo=30 hi=90
//verif:harness H04 w=1 h=6 lo=30 hi=90
//verif:harness H04 w=20 h=17 lo=60 hi=90
//verif:thorough w=1..5 h=1..5 lo=1 hi=60
//verif:thorough w=1..5 h=1..5 lo=61 hi=120
//verif:reach filtered
//verif:opt tab=64 nomerge timeout=60
func ZZ_H04_sizes() {
	w, h := z.Param("w"), z.Param("h")
	sigma := z.FracF32("sigma", z.Param("lo"), z.Param("hi"), 5)
	d := make([]float32, w*h)
	uniform := z.Choose("uniform", 2) == 1
	min, max := float32(9), float32(-9)
	for i := range d {
		d[i] = float32((i*11+5)%29) / 16
		if uniform {
			d[i] = 0.75
		}
		if d[i] < min {
			min = d[i]
		}
		if d[i] > max {
			max = d[i]
		}
	}
	was := zzCopy(d)
	res, tmp := make([]float32, w*h), make([]float32, w*h)
	GaussFilter2D(res, tmp, d, w, sigma)
	zzSame(d, was, "the input stays as it is")
	for _, v := range res {
		z.Assert(z.And(v >= min-1e-5, v <= max+1e-5), "the result stays between minimum and maximum")
	}
	b := GaussianBlur(d, w, sigma)
	for i := range res {
		z.Assert(zzNear(b[i], res[i], 1e-6), "blurring is filtering")
	}
	z.Reach("filtered")
}

// zzMirror: index of a pixel outside of the image, mirrored at the edges
func zzMirror(n, i int) int {
	for i < 0 || i >= n {
		if i < 0 {
			i = -1 - i
		} else {
			i = 2*n - 1 - i
		}
	}
	return i
}

// Each pixel is the sum of the weighted pixels around it, mirrored at the borders.
//
//verif:harness H04 w=1..4 h=1..3 k=1,3,5
//verif:harness H04 w=2,3 h=2,3 k=7,9
//verif:harness H04 w=12,33 h=9,16 k=3,7,11
//verif:thorough w=1..5 h=1..5 k=1,3,5,7,9,11
//verif:reach convolved
//verif:opt tab=64 nomerge timeout=60
func ZZ_H04_convolve() {
	w, h, k := z.Param("w"), z.Param("h"), z.Param("k")
	f, _ := zzScene(-31, 32, w, h)
	kernel, r := make([]float32, k), k/2
	for i := range kernel {
		kernel[i] = float32(1+(i*7)%5) / 8 // any weights, not symmetric
	}
	was := zzCopy(f.Data)
	res := make([]float32, w*h)
	horizontal := z.Choose("horizontal", 2) == 1
	if horizontal {
		Convolve1DX(res, f.Data, w, kernel)
	} else {
		Convolve1DY(res, f.Data, w, kernel)
	}
	zzSame(f.Data, was, "the input stays as it is")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			want := float32(0)
			for i := -r; i <= r; i++ {
				if horizontal {
					want += was[y*w+zzMirror(w, x+i)] * kernel[i+r]
				} else {
					want += was[zzMirror(h, y+i)*w+x] * kernel[i+r]
				}
			}
			z.Assert(zzNear(res[y*w+x], want, 1e-5), "each pixel is the weighted sum of its neighbours, mirrored at the borders")
		}
	}
	z.Reach("convolved")
}

// The operators handle any sigma, also tiny and negative ones, without crash or hang.
//
//verif:harness H04 op=0,1
//verif:reach applied
//verif:opt timeout=60 steps=3000000
func ZZ_H04_operators() {
	c := zzContext()
	sigmas := []float32{0.01, 1e-30, -1, 0, 2, 10, float32(math.Inf(-1)), float32(math.NaN())}
	sigma := sigmas[z.Choose("sigma", len(sigmas))]
	f := zzImage(1, 3, 2)
	for i := range f.Data {
		f.Data[i] = float32(i) / 8
	}
	f.Data[2] = z.SmallF32("pixel", 0, 1)
	was := zzCopy(f.Data)
	var op ops.Operator = NewOpGaussianBlur(sigma)
	if z.Param("op") == 1 {
		op = NewOpUnsharpMask(sigma, 1, 0)
	}
	g, err := zzApply(op, f, c)
	z.Assert((g == nil) == (err != nil), "a result or an error")
	if sigma > 0 && sigma < 100 {
		z.Assert(err == nil, "any positive sigma is fine")
	}
	if g != nil {
		z.Assert(len(g.Data) == len(was), "the size stays")
		if sigma == 0 {
			zzSame(g.Data, was, "sigma zero changes nothing")
		}
	}
	z.Reach("applied")
}

// Unsharp masking adds gain times the difference to the blurred image, clamped to the range, at or above the threshold.
//
//verif:harness H03 n=1,3,40
//verif:thorough n=1..9
//verif:reach masked
//verif:opt tab=64 nomerge timeout=60
func ZZ_H03_apply() {
	n := z.Param("n")
	f, pos := zzScene(-31, 32, n)
	blurred := make([]float32, n)
	for i := range blurred {
		blurred[i] = float32((i*5+3)%16) / 16
	}
	gain := []float32{0, 0.5, 4, -1}[z.Choose("gain", 4)]
	min, max := float32(-0.5), float32(0.75)
	thr := []float32{-2, 0, 0.25, 2}[z.Choose("threshold", 4)]
	was, b := zzCopy(f.Data), zzCopy(blurred)
	res := make([]float32, n)
	ApplyUnsharpMask(res, f.Data, blurred, gain, min, max, thr)
	zzSame(f.Data, was, "the input stays as it is")
	zzSame(blurred, b, "the blurred image stays as it is")
	_ = pos
	for i, v := range was {
		want := v + (v-b[i])*gain
		want = z.IteF32(want < min, min, want)
		want = z.IteF32(want > max, max, want)
		want = z.IteF32(v < thr, v, want)
		z.Assert(zzNear(res[i], want, 1e-5), "pixels at or above the threshold are sharpened, others stay")
	}
	z.Reach("masked")
}

// The complete mask, against blurring by the kernel.
//
//verif:harness H03 w=1..3 h=1..3
//verif:harness H03 w=12,17 h=9,11
//verif:thorough w=1..5 h=1..5
//verif:reach masked
//verif:opt tab=64 nomerge timeout=60
func ZZ_H03_mask() {
	w, h := z.Param("w"), z.Param("h")
	f, _ := zzScene(-31, 32, w, h)
	sigma := []float32{0.25, 1, 2.5}[z.Choose("sigma", 3)]
	gain, min, max, thr := float32(1.5), float32(-0.25), float32(0.875), float32(0.125)
	was := zzCopy(f.Data)
	kernel := GaussianKernel1D(sigma)
	r := len(kernel) / 2
	res := UnsharpMask(f.Data, w, sigma, gain, min, max, thr)
	zzSame(f.Data, was, "the input stays as it is")
	z.Assert(len(res) == w*h, "the size stays")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			blur := float32(0)
			for j := -r; j <= r; j++ {
				row := float32(0)
				for i := -r; i <= r; i++ {
					row += was[zzMirror(h, y+j)*w+zzMirror(w, x+i)] * kernel[i+r]
				}
				blur += row * kernel[j+r]
			}
			v := was[y*w+x]
			want := v + (v-blur)*gain
			want = z.IteF32(want < min, min, want)
			want = z.IteF32(want > max, max, want)
			want = z.IteF32(v < thr, v, want)
			z.Assert(zzNear(res[y*w+x], want, 1e-4), "sharpened against the blurred image")
		}
	}
	z.Reach("masked")
}

// The operator limits results to the range of the image, and leaves pixels below location plus threshold times scale.
//
//verif:harness H03 w=2 h=2 active=0,1
//verif:harness H03 w=9 h=7 active=0,1
//verif:thorough w=2,3 h=1,2,3 active=0,1
//verif:reach operator
//verif:opt tab=64 nomerge timeout=60
func ZZ_H03_operator() {
	c := zzContext()
	f, _ := zzScene(-31, 32, z.Param("w"), z.Param("h"))
	was := zzCopy(f.Data)
	st := stats.NewStats(was, f.Naxisn[0])
	min, max := st.Min(), st.Max()
	thr := st.Location() + 0.5*st.Scale()
	sigma, gain := float32(1), float32(2)
	if z.Param("active") == 0 {
		if z.Choose("off", 2) == 0 {
			sigma = 0
		} else {
			gain = 0
		}
	}
	g, err := zzApply(NewOpUnsharpMask(sigma, gain, 0.5), f, c)
	z.Assert(err == nil && g != nil && len(g.Data) == len(was), "the operator succeeds")
	if z.Param("active") == 0 {
		zzSame(g.Data, was, "an inactive operator changes nothing")
		z.Reach("operator")
		return
	}
	want := UnsharpMask(was, int(f.Naxisn[0]), sigma, gain, min, max, thr)
	for i, v := range was {
		z.Assert(z.And(g.Data[i] >= min-1e-5, g.Data[i] <= max+1e-5), "the range of the image stays")
		z.Assert(z.Or(zzNear(v, thr, 1e-4), zzNear(g.Data[i], want[i], 1e-5)), "pixels at or above the threshold are sharpened, others stay")
	}
	z.Reach("operator")
}

// Each plane of a colour image is filtered as if it were an image of its own.
//
//verif:harness H04 op=0,1 w=2 h=2,3 k=1..3
//verif:harness H04 op=0,1 w=3 h=1 k=2
//verif:harness H04 op=0 w=9 h=7 k=2
//verif:harness H04 op=1 w=4 h=4 k=2
//verif:reach planes
//verif:opt tab=64 nomerge timeout=60
func ZZ_H04_planes() {
	w, h := z.Param("w"), z.Param("h")
	c := zzContext()
	f, _ := zzScene(-15, 48, w, h, 3)
	if z.Choose("uniform", 2) == 1 {
		v := f.Data[0]
		for i := range f.Data {
			f.Data[i] = float32(i/(w*h)) - v
		}
		f.Stats.Clear()
	}
	was := zzCopy(f.Data)
	sigma := float32(z.Param("k"))
	var op ops.Operator = NewOpGaussianBlur(sigma)
	lo, hi, thresh := f.Stats.Min(), f.Stats.Max(), float32(0)
	if z.Param("op") == 1 {
		op = NewOpUnsharpMask(sigma, 1.5, 0.25)
		thresh = f.Stats.Location() + f.Stats.Scale()*0.25
	}
	g, err := zzApply(op, f, c)
	z.Assert(err == nil && len(g.Data) == len(was), "the image is filtered")
	for p := 0; p < 3; p++ {
		plane := zzCopy(was[p*w*h : (p+1)*w*h])
		if z.Param("op") == 0 {
			plane = GaussianBlur(plane, w, sigma)
		} else {
			plane = UnsharpMask(plane, w, sigma, 1.5, lo, hi, thresh)
		}
		for i, v := range plane {
			z.Assert(zzNear(g.Data[p*w*h+i], v, 1e-5), "each colour plane is filtered on its own")
		}
	}
	z.Reach("planes")
}

func zzPow(v, g float32) float32 { return float32(math.Pow(float64(v), 1/float64(g))) }

// The curves are those announced, relative to the location and scale of the image, with their end points fixed.
//
//verif:harness H02 op=0..2 sigma=0..2 wide=0
//verif:harness H02 op=0..2 sigma=0 wide=1
//verif:thorough op=0..2 sigma=0..2 wide=0,1
//verif:reach curve
//verif:opt tab=64 nomerge timeout=60
func ZZ_H02_operators() {
	c := zzContext()
	f, pos := zzScene(-8, 54, 2, 2)
	if z.Param("wide") == 1 {
		f.Data[(pos+1)%4] = 1.25
		f.Stats.Clear()
	}
	was := zzCopy(f.Data)
	st := stats.NewStats(zzCopy(was), 2)
	loc, scale := st.Location(), st.Scale()
	sigma := []float32{0.25, -0.5, 0}[z.Param("sigma")]
	gamma := []float32{2, 0.5}[z.Choose("gamma", 2)]
	var op ops.Operator
	switch z.Param("op") {
	case 0:
		for i := range f.Data {
			z.Assume(f.Data[i] >= 0)
		}
		op = NewOpGamma(gamma)
	case 1:
		op = NewOpGammaPP(gamma, sigma)
	case 2:
		for i := range f.Data {
			z.Assume(z.And(f.Data[i] >= 0, f.Data[i] <= 1))
		}
		z.Assume(loc-sigma*scale > 0)
		op = NewOpMidtones(gamma, sigma)
	}
	g, err := zzApply(op, f, c)
	z.Assert(err == nil && g != nil && len(g.Data) == 4, "the operator succeeds")
	for i, v := range was {
		got := g.Data[i]
		switch z.Param("op") {
		case 0:
			z.Assert(zzNear(got, zzPow(v, gamma), 1e-4), "the gamma curve")
		case 1:
			from := loc + sigma*scale
			in := z.And(v > from+1e-4, v < 1)
			z.Assert(z.Implies(z.Or(v < from-1e-4, v >= 1), zzNear(got, v, 1e-5)), "values outside of the range stay")
			want := from + zzPow(z.IteF32(in, (v-from)/(1-from), 0), gamma)*(1-from)
			z.Assert(z.Implies(in, zzNear(got, want, 1e-3)), "the gamma curve between the bound and one")
		case 2:
			mid, black := gamma*scale, loc-sigma*scale
			mtf := func(v float32) float32 { return v * (mid - 1) / ((2*mid-1)*v - mid) }
			want := (mtf(v) - mtf(black)) / (1 - mtf(black))
			want = z.IteF32(v < black, 0, want)
			z.Assert(z.Or(zzNear(v, black, 1e-4), zzNear(got, want, 2e-3)), "the midtones curve, clipped below the black point")
		}
	}
	z.Reach("curve")
}
