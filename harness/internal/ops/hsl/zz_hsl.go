package hsl

import (
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzContext() *ops.Context {
	stats.LSEstimator = stats.LSEMeanStdDev
	return &ops.Context{Log: &z.LogSink{}, MaxThreads: 2, MemoryMB: 1000, StackMemoryMB: 700}
}

func zzImage(id int, dims ...int) *fits.Image {
	n := 1
	naxisn := []int32{}
	for _, d := range dims {
		n *= d
		naxisn = append(naxisn, int32(d))
	}
	f := fits.NewImageFromNaxisn(naxisn, make([]float32, n))
	f.ID = id
	return f
}

func zzCopy(d []float32) []float32 { return append([]float32{}, d...) }

func zzNear(a, b, tol float32) bool {
	d := a - b
	return z.And(d <= tol, d >= -tol)
}

func zzSame(a, b []float32, msg string) {
	z.Assert(len(a) == len(b), msg)
	for i := range a {
		z.Assert(z.SameBits(a[i], b[i]), msg)
	}
}

// zzScene: 2x2 HSL pixels; the luminance of one, or all of its saturation, or its hue takes all values
func zzScene() *fits.Image {
	f := zzImage(1, 2, 2, 3)
	copy(f.Data, []float32{20, 120, 200, 300, 0.25, 0.5, 0.75, 1, 0.125, 0.25, 0.375, 0.75})
	switch z.Choose("vary", 3) {
	case 0:
		f.Data[1] = z.SmallF32("hue", 0, 60) * 6
	case 1:
		f.Data[4] = z.FracF32("saturation", 0, 32, 5)
	default:
		f.Data[8+z.Choose("position", 4)] = z.FracF32("luminance", 1, 31, 5)
	}
	f.Stats.Clear()
	return f
}

func zzOp(k int, active bool) ops.Operator {
	a := func(on, off float32) float32 {
		if active {
			return on
		}
		return off
	}
	switch k {
	case 0:
		return NewOpHSLApplyLum()
	case 1:
		return NewOpHSLScaleOffsetChannel(1, a(0.5, 1), a(0.25, 0))
	case 2:
		return NewOpHSLNeutralizeBackground(a(0.25, 0), a(0.75, 0))
	case 3:
		return NewOpHSLSaturationGamma(a(2, 1), 0.25)
	case 4:
		return NewOpHSLSelectiveSaturation(90, 250, a(0.5, 1))
	case 5:
		return NewOpHSLRotateHue(90, 250, a(-30, 0), 0.25)
	case 6:
		return NewOpHSLSCNR(a(0.5, 0))
	case 7:
		return NewOpHSLMidtones(a(1, 0), 0.25)
	case 8:
		return NewOpHSLGamma(a(2, 1))
	case 9:
		return NewOpHSLGammaPP(a(2, 1), 0.25)
	case 10:
		return NewOpHSLUnsharpMask(1, a(1.5, 0), 0.25)
	case 11:
		return NewOpHSLScaleBlack(a(0.0625, 0))
	}
	return NewOpHSLStretchIterative(a(0.25, 0), a(0.5, 0))
}

const zzOps = 13

func zzApply(op ops.Operator, f *fits.Image, c *ops.Context) (*fits.Image, error) {
	outs, err := op.MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, c)
	z.Assert(err == nil && len(outs) == 1, "one result per image")
	return outs[0]()
}

func zzQuery(s *stats.Stats) { s.Min(); s.Max(); s.Mean(); s.StdDev(); s.Location() }

// Statistics describe the result of each operator.
//
//verif:harness P07 op=0..5,7..11
//verif:reach fresh
//verif:opt tab=64 nomerge timeout=60
func ZZ_P07_hsl() {
	c := zzContext()
	f := zzScene()
	if z.Param("op") == 0 {
		c.LumFrame = zzImage(2, 2, 2)
		copy(c.LumFrame.Data, []float32{0.5, 0.75, 0.875, 0.25})
	}
	zzQuery(f.Stats)
	g, err := zzApply(zzOp(z.Param("op"), true), f, c)
	z.Assert(err == nil && g != nil, "the operator succeeds")
	want := stats.NewStats(g.Data, g.Naxisn[0])
	const tol = 0.02
	z.Assert(zzNear(g.Stats.Min(), want.Min(), tol), "the minimum is the one of the current pixels")
	z.Assert(zzNear(g.Stats.Max(), want.Max(), tol), "the maximum is the one of the current pixels")
	z.Assert(zzNear(g.Stats.Mean(), want.Mean(), tol), "the mean is the one of the current pixels")
	z.Assert(zzNear(g.Stats.StdDev(), want.StdDev(), tol), "the standard deviation is the one of the current pixels")
	z.Reach("fresh")
}

// Operators with settings selecting no change leave the image as it is.
//
//verif:harness J02 op=0..12
//verif:reach inactive
//verif:opt tab=64 nomerge timeout=60
func ZZ_J02_hsl() {
	f := zzScene()
	was := zzCopy(f.Data)
	g, err := zzApply(zzOp(z.Param("op"), false), f, zzContext())
	z.Assert(err == nil && g == f, "the image is passed on")
	zzSame(g.Data, was, "an inactive operator changes nothing")
	z.Reach("inactive")
}

// Thresholds and bounds are taken from location and scale of the luminance.
func zzThresholds() {
	k := z.Param("op")
	f := zzScene()
	was := zzCopy(f.Data)
	st := stats.NewStats(zzCopy(was[8:]), 2)
	c := zzContext()
	loc, scale, min, max := st.Location(), st.Scale(), st.Min(), st.Max()
	g, err := zzApply(zzOp(k, true), f, c)
	z.Assert(err == nil && g != nil && len(g.Data) == 12, "the operator succeeds")
	ref := zzImage(3, 2, 2, 3)
	copy(ref.Data, was)
	black := zzImage(4, 1, 1)
	black.Data[0] = 0.0625
	black.MonoToHSLuvLum()
	target := black.Data[0]
	limit := float32(9) // luminance close to which the result may go either way
	switch k {
	case 2:
		limit = loc + scale*0.25
		ref.NeutralizeBackground(loc+scale*0.25, loc+scale*0.75)
	case 3:
		limit = loc + scale*0.25
		ref.AdjustChroma(2, loc+scale*0.25)
	case 5:
		limit = loc + scale*0.25
		ref.RotateColors(90, 250, -30, loc+scale*0.25)
	case 7:
		z.Assume(loc-0.25*scale > 0)
		ref.ApplyMidtonesToChannel(2, scale, loc-0.25*scale)
	case 8:
		ref.ApplyGammaToChannel(2, 2)
	case 9:
		ref.ApplyPartialGammaToChannel(2, loc+0.25*scale, 1, 2)
	case 10:
		limit = loc + scale*0.25
		copy(ref.Data[8:], stretch.UnsharpMask(was[8:], 2, 1, 1.5, min, max, loc+scale*0.25))
	}
	for i := range was {
		l := was[8+i%4]
		if k == 11 {
			want := was[i]
			if i >= 8 {
				// the location goes to the HSLuv lightness of 0.0625
				want = z.IteF32(loc > target, target+(l-loc)*(1-target)/(1-loc), l)
				want = z.IteF32(want < 0, 0, want)
			}
			z.Assert(z.Or(zzNear(loc, target, 0.002), zzNear(g.Data[i], want, 2e-3)), "the location of the luminance moves to the target")
			continue
		}
		z.Assert(z.Or(zzNear(l, limit, 1e-4), zzNear(g.Data[i], ref.Data[i], 1e-3)), "the operator works relative to location and scale of the luminance")
	}
	z.Reach("thresholds")
}

//verif:harness H01 op=3,5
//verif:reach thresholds
//verif:opt tab=64 nomerge timeout=60
func ZZ_H01_thresholds() { zzThresholds() }

//verif:harness H06 op=2,11
//verif:reach thresholds
//verif:opt tab=64 nomerge timeout=60
func ZZ_H06_thresholds() { zzThresholds() }

//verif:harness H02 op=7,8,9
//verif:reach thresholds
//verif:opt tab=64 nomerge timeout=60
func ZZ_H02_thresholds() { zzThresholds() }

//verif:harness H03 op=10
//verif:reach thresholds
//verif:opt tab=64 nomerge timeout=60
func ZZ_H03_thresholds() { zzThresholds() }

// The luminance of another image replaces the one of the colour image; images of other dimensions are an error.
//
//verif:harness H05 lum=0..4
//verif:reach luminance
//verif:opt tab=64 nomerge timeout=60
func ZZ_H05_luminance() {
	dims := [][]int{{2, 2}, {1, 2}, {4, 2}, {3, 2}, {1, 4}}
	c := zzContext()
	f := zzScene()
	was := zzCopy(f.Data)
	lum := zzImage(2, dims[z.Param("lum")]...)
	for i := range lum.Data {
		lum.Data[i] = float32(i+1) / 16
	}
	v := z.FracF32("light", 0, 32, 5)
	lum.Data[0] = v
	lum.Exposure, f.Exposure = 3, 4
	l := zzCopy(lum.Data)
	c.LumFrame = lum
	g, err := zzApply(NewOpHSLApplyLum(), f, c)
	if len(l) != 4 {
		z.Assert(err != nil && g == nil, "other dimensions are an error")
		z.Reach("luminance")
		return
	}
	if z.Param("lum") == 4 && err != nil { // as many pixels in another shape
		z.Reach("luminance")
		return
	}
	z.Assert(err == nil && g == f, "the luminance is applied")
	zzSame(g.Data[:8], was[:8], "hue and saturation stay")
	ref := zzImage(4, 4, 1)
	copy(ref.Data, l)
	ref.MonoToHSLuvLum()
	for i := range l {
		z.Assert(zzNear(g.Data[8+i], ref.Data[i], 1e-5), "the luminance is the one of the luminance image")
	}
	z.Assert(g.Exposure == 7, "exposures add up")
	z.Reach("luminance")
}

// The iterative stretch ends, keeps hue and saturation and yields finite luminance.
//
//verif:harness H02 loc=0,1 scale=0,1
//verif:reach stretched
//verif:opt tab=64 nomerge timeout=60 only=thorough
func ZZ_H02_iterative() {
	f := zzImage(1, 2, 2, 3)
	copy(f.Data, []float32{20, 120, 200, 300, 0.25, 0.5, 0.75, 1, 0.125, 0.25, 0.375, 0.75})
	f.Data[8+z.Choose("position", 4)] = z.FracF32("luminance", 1, 7, 3)
	was := zzCopy(f.Data)
	g, err := zzApply(NewOpHSLStretchIterative([]float32{0.1, 0.3}[z.Param("loc")], []float32{0.05, 0.5}[z.Param("scale")]), f, zzContext())
	z.Assert(err == nil && g == f, "the operator succeeds")
	zzSame(g.Data[:8], was[:8], "hue and saturation stay")
	for i, v := range g.Data[8:] {
		z.Assert(z.And(v >= -1e-5, v <= 1+1e-5), "the luminance stays between zero and one")
		for j, w := range g.Data[8:] {
			z.Assert(z.Implies(was[8+i] <= was[8+j], v <= w+1e-5), "the order of luminances stays")
		}
	}
	z.Reach("stretched")
}

var _ = math.Pi
