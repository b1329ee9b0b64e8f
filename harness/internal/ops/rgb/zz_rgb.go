package rgb

import (
	"errors"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzContext() *ops.Context {
	stats.LSEstimator = stats.LSEMeanStdDev
	return &ops.Context{Log: &z.LogSink{}, MaxThreads: 2, MemoryMB: 1000, StackMemoryMB: 700}
}

func zzImage(id int, dims ...int) *fits.Image {
	n := 1
	naxisn := []int32{}
	for _, d := range dims {
		n *= d
		naxisn = append(naxisn, int32(d))
	}
	f := fits.NewImageFromNaxisn(naxisn, make([]float32, n))
	f.ID = id
	return f
}

func zzNear(a, b, tol float32) bool {
	d := a - b
	return z.And(d <= tol, d >= -tol)
}

// Three or four frames of the same size become one colour image; anything else is an error.
//
//verif:harness H05 n=0..5 odd=0..4 kind=0..4 sched=0
//verif:harness H05 n=3,4 odd=4 kind=0 sched=1
//verif:thorough n=0..5 odd=0..4 kind=0..4 sched=0..1
//verif:reach combine
//verif:opt race tab=64 nomerge timeout=60
func ZZ_H05_combine() {
	n, odd, kind := z.Param("n"), z.Param("odd"), z.Param("kind")
	c := zzContext()
	c.AlignStars, c.AlignHFR = []star.Star{{Index: 1}}, 2.5
	frames := make([]*fits.Image, n)
	ins := make([]ops.Promise, n)
	var was []float32
	for i := range frames {
		i := i
		dims := []int{2, 1}
		if i == odd && kind == 0 {
			dims = []int{1, 2}
		} else if i == odd && kind == 1 {
			dims = []int{3, 1}
		} else if i == odd && kind == 2 {
			dims = []int{2, 1, 3}
		}
		frames[i] = zzImage(i, dims...)
		for j := range frames[i].Data {
			frames[i].Data[j] = float32((i*5+j*3+2)%16) / 16
		}
		if i == (odd+1)%5 {
			frames[i].Data[1] = z.FracF32("value", 0, 32, 4)
		}
		frames[i].Exposure = float32(i + 1)
		frames[i].Stats.Clear()
		if i < 3 {
			was = append(was, frames[i].Data...)
		}
		ins[i] = func() (*fits.Image, error) {
			if i == odd && kind == 3 {
				return nil, errors.New("failing")
			}
			if i == odd && kind == 4 {
				return nil, nil
			}
			return frames[i], nil
		}
	}
	outs, err := NewOpRGBCombine().MakePromises(ins, c)
	if n < 3 || n > 4 {
		z.Assert(err != nil && len(outs) == 0, "the wrong number of frames is an error")
		z.Reach("combine")
		return
	}
	z.Assert(err == nil && len(outs) == 1, "there is one colour image")
	f, err := outs[0]()
	if odd < n {
		z.Assert(err != nil && f == nil, "frames which are missing or of another size are an error")
		z.Reach("combine")
		return
	}
	z.Assert(err == nil && f != nil, "the colour image is made")
	z.Assert(fits.EqualInt32Slice(f.Naxisn, []int32{2, 1, 3}) && len(f.Data) == 6, "there are three planes")
	lo, hi := was[0], was[0]
	for _, v := range was {
		lo, hi = z.IteF32(v < lo, v, lo), z.IteF32(v > hi, v, hi)
	}
	for i, v := range was {
		z.Assert(zzNear(f.Data[i], (v-lo)/(hi-lo), 1e-5), "each plane holds its channel, in the common range")
	}
	z.Assert(f.Exposure == 6 && f.HFR == 2.5 && len(f.Stars) == 1, "exposures add up, stars are those of the alignment frame")
	if n == 4 {
		z.Assert(c.LumFrame == frames[3], "the fourth frame is the luminance")
	} else {
		z.Assert(c.LumFrame == nil, "there is no luminance")
	}
	z.Reach("combine")
}

// Color balance of an image without stars is an error, and with stars it yields finite pixels.
//
//verif:harness H06 stars=0..2
//verif:reach balance
//verif:opt tab=64 nomerge timeout=60
func ZZ_H06_operator() {
	c := zzContext()
	f := zzImage(1, 4, 3, 3)
	for i := range f.Data {
		f.Data[i] = float32((i*7+3)%16) / 16
	}
	f.Data[[]int{0, 6, 18}[z.Choose("position", 3)]] = z.FracF32("value", 0, 16, 4)
	f.Stats.Clear()
	for i := 0; i < z.Param("stars"); i++ {
		f.Stars = append(f.Stars, star.Star{Index: int32([]int{6, 1}[i]), HFR: 1.5})
	}
	op := NewOpRGBBalance(1, 0.1, 0, 0, fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 1, B: 1})
	outs, err := op.MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, c)
	z.Assert(err == nil && len(outs) == 1, "one result per image")
	g, err := outs[0]()
	if z.Param("stars") == 0 {
		z.Assert(err != nil, "an image without stars is an error")
	} else {
		z.Assert(err == nil && g == f, "the image is balanced")
	}
	for _, v := range f.Data {
		z.Assert(z.And(v >= 0, v <= 1), "pixels are finite and between zero and one")
	}
	z.Reach("balance")
}

// Statistics describe the balanced or converted image.
//
//verif:harness P07 op=0..2
//verif:reach fresh
//verif:opt tab=64 nomerge timeout=60
func ZZ_P07_rgb() {
	c := zzContext()
	f := zzImage(1, 2, 2, 3)
	for i := range f.Data {
		f.Data[i] = float32((i*7+3)%16) / 16
	}
	f.Data[z.Choose("position", 12)] = z.FracF32("value", 1, 15, 4)
	f.Stats.Clear()
	f.Stars = []star.Star{{Index: 1, HFR: 1.5}}
	f.Stats.Min()
	f.Stats.StdDev()
	f.Stats.Location()
	ops_ := []ops.Operator{NewOpRGBBalance(1, 0, 0, 0, fits.RGB{R: 1, G: 1, B: 0.5}, fits.RGB{R: 1, G: 1, B: 1}), NewOpRGBToHSLuv(), NewOpHSLuvToRGB()}
	outs, err := ops_[z.Param("op")].MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, c)
	z.Assert(err == nil && len(outs) == 1, "one result per image")
	g, err := outs[0]()
	z.Assert(err == nil && g == f, "the operator succeeds")
	ref := stats.NewStats(f.Data, f.Naxisn[0])
	same := z.And(zzNear(g.Stats.Min(), ref.Min(), 1e-4), zzNear(g.Stats.Max(), ref.Max(), 1e-4))
	same = z.And(same, z.And(zzNear(g.Stats.Mean(), ref.Mean(), 1e-4), zzNear(g.Stats.StdDev(), ref.StdDev(), 1e-3)))
	z.Assert(same, "statistics are those of the current pixels")
	z.Reach("fresh")
}
