package stack

import (
	"math"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// Under every schedule of the worker goroutines the stack is what the stacking function yields on
// the whole image at once, all pixels are complete when Apply returns, and no two goroutines
// access the same memory unsynchronised.
//
//verif:harness K06 mode=0..5 np=1,2,3 cpus=1,2,3
//verif:thorough mode=0..5 np=1..6 cpus=1,2,3
//verif:reach stacked
//verif:opt sched=1 race ac timeout=30 noobs
func ZZ_K06_schedules() { zzSchedules() }

// The same with up to three preemptions.
//
//verif:harness K06 mode=0..5 np=2 cpus=1,2
//verif:harness K06 mode=0,1,4,5 np=3 cpus=1,2
//verif:thorough mode=0..5 np=1,2,3,4 cpus=1,2,3
//verif:reach stacked
//verif:opt sched=3 race ac timeout=50 noobs
func ZZ_K06_preemptions() { zzSchedules() }

func zzSchedules() {
	np := z.Param("np")
	lights, data := make([]*fits.Image, 3), make([][]float32, 3)
	for i := range lights {
		data[i] = make([]float32, np)
		for p := range data[i] {
			data[i][p] = float32((i*7+p*5)%11 - 4)
		}
		if z.Param("mode") < 2 {
			data[i][0] = z.SmallF32("v", -30, 30)
		}
		lights[i] = fits.NewImageFromNaxisn([]int32{int32(np), 1}, data[i])
		lights[i].Exposure = float32(1 + i)
	}
	op := NewOpStack(StackMode(z.Param("mode")), StWeightNone, 1, 1.5)
	res, err := op.Apply(lights, &ops.Context{Log: &z.LogSink{}})
	z.Assert(err == nil && len(res.Data) == np, "stacking succeeds")
	want := make([]float32, np)
	switch op.Mode {
	case StMedian:
		StackMedian(data, 0, want)
	case StMean:
		StackMean(data, 0, want)
	case StSigma:
		StackSigma(data, 0, 1, 1.5, want)
	case StWinsorSigma:
		StackWinsorSigma(data, 0, 1, 1.5, want)
	case StMADSigma:
		StackMADSigma(data, 0, 1, 1.5, want)
	case StLinearFit:
		StackLinearFit(data, 0, 1, 1.5, want)
	}
	for p := range want {
		z.Assert(z.SameF32(res.Data[p], want[p]), "every pixel is the stack of the frames' pixels")
	}
	z.Reach("stacked")
}

// Every pixel is covered, however the image is split into packages.
//
//verif:harness K06 mode=1 np=1,7,8,9,15,16,17,25,31..33,65 cpus=1,2
//verif:thorough mode=0..5 np=1..70,127..130 cpus=1..4
//verif:reach stacked
//verif:opt race ac timeout=30 noobs
func ZZ_K06_packages() { zzSchedules() }

// Nothing to stack, frames of different dimensions and frames without the information needed for
// their weight are errors. Equally good frames get equal weight.
//
//verif:harness K02 kind=0..7
//verif:reach checked
func ZZ_K02_inputs() {
	n := 1 + z.Choose("n", 3)
	bad := z.Choose("bad", n)
	w, mode, wantErr := StWeightNone, StMean, true
	frames := make([]*fits.Image, n)
	data := make([]float32, 2)
	for p := range data {
		data[p] = z.SmallF32("v", -900, 900)
	}
	for i := range frames {
		frames[i] = fits.NewImageFromNaxisn([]int32{2, 1}, append([]float32{}, data...))
		frames[i].Exposure = 2
		frames[i].HFR = 3
	}
	switch z.Param("kind") {
	case 0:
		frames = nil
	case 1: // another size
		frames[bad] = fits.NewImageFromNaxisn([]int32{3, 1}, make([]float32, 3))
		wantErr = n > 1
	case 2: // another shape
		frames[bad] = fits.NewImageFromNaxisn([]int32{1, 2}, make([]float32, 2))
		wantErr = n > 1
	case 3:
		w = StWeightExposure
		frames[bad].Exposure = 0
	case 4:
		w = StackWeighting(99)
	case 5:
		mode = StackMode(99)
	case 6:
		w = StWeightInverseHFR
		wantErr = false
	case 7:
		w = StWeightInverseHFR
		frames[bad].HFR = 0
	}
	res, err := NewOpStack(mode, w, 2, 2).Apply(frames, &ops.Context{Log: &z.LogSink{}})
	if wantErr {
		z.Assert(err != nil && res == nil, "unusable input is an error")
	} else {
		z.Assert(err == nil, "frames which can be stacked are stacked")
		if z.Param("kind") == 6 {
			for p := range data {
				z.Assert(res.Data[p] == data[p], "equal frames with equal weights stack to themselves")
			}
		}
	}
	z.Reach("checked")
}

// Weights by noise are those of the valid pixels, also if frames do not cover the whole image.
//
//verif:harness K02 w=5,9 h=5 nan=0..3
//verif:thorough w=4,5,9,12 h=4,5,8 nan=0..3
//verif:reach noise
//verif:opt timeout=60 tab=64 nomerge
func ZZ_K02_noise() {
	w, h := z.Param("w"), z.Param("h")
	frames := make([]*fits.Image, 3)
	noise := make([]float32, 3)
	sel := z.Place(w, h)
	for k := range frames {
		d := make([]float32, w*h)
		for i := range d {
			d[i] = float32(40 + (i*i*7+i*k*3)%11*(k+1))
		}
		if k == 1 {
			d[sel] = z.SmallF32("pixel", 20, 80)
		}
		for i := range d {
			x, y := i%w, i/w
			switch z.Param("nan") + 10*k {
			case 1, 12, 11: // a border
				if x == 0 {
					d[i] = float32(math.NaN())
				}
			case 21: // one row at the end
				if y == h-1 {
					d[i] = float32(math.NaN())
				}
			case 2: // a corner
				if x+y < 2 {
					d[i] = float32(math.NaN())
				}
			case 23: // nothing but the corner is left
				if x > 1 || y > 1 {
					d[i] = float32(math.NaN())
				}
			}
		}
		frames[k] = fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, d)
		sum, n := float32(0), float32(0)
		for y := 1; y < h-1; y++ {
			for x := 1; x < w-1; x++ {
				c, i := float32(0), y*w+x
				for j, g := range []float32{1, -2, 1, -2, 4, -2, 1, -2, 1} {
					c += g * d[i+(j/3-1)*w+j%3-1]
				}
				if !z.IsNaN32(c) {
					sum, n = sum+z.IteF32(c < 0, -c, c), n+1
				}
			}
		}
		if n > 0 {
			noise[k] = sum / n
		}
	}
	lo, hi := noise[0], noise[0]
	for _, v := range noise {
		lo, hi = z.IteF32(v < lo, v, lo), z.IteF32(v > hi, v, hi)
	}
	z.Assume(hi > lo+0.1)
	want := make([]float32, w*h)
	for i := range want {
		s, ws, n := float32(0), float32(0), 0
		for k := range frames {
			if v := frames[k].Data[i]; !z.IsNaN32(v) {
				g := 1 / (1 + 4*(noise[k]-lo)/(hi-lo))
				s, ws, n = s+v*g, ws+g, n+1
			}
		}
		if n > 0 {
			want[i] = s / ws
		} else {
			want[i] = -1 // covered by no frame
		}
	}
	res, err := NewOpStack(StMean, StWeightInverseNoise, 2, 2).Apply(frames, &ops.Context{Log: &z.LogSink{}})
	z.Assert(err == nil, "frames which can be stacked are stacked")
	ok := true
	for i, v := range want {
		if v != -1 {
			e := res.Data[i] - v
			ok = z.And(ok, z.And(e < 0.05, e > -0.05))
		}
	}
	z.Assert(ok, "frames are weighted by the noise of their valid pixels")
	z.Reach("noise")
}

// Weighted stacking uses the exposure, the noise and the half flux radius of the frames.
//
//verif:harness K02 kind=0,1
//verif:reach weighted
func ZZ_K02_weights() {
	frames := make([]*fits.Image, 3)
	w := make([]float32, 3)
	for i := range frames {
		frames[i] = fits.NewImageFromNaxisn([]int32{1, 1}, []float32{z.SmallF32("v", -900, 900)})
		w[i] = z.SmallF32("weight", 1, 9)
		frames[i].Exposure = w[i]
		frames[i].HFR = float32([]int{3, 5, 4}[i])
	}
	mode := StWeightExposure
	if z.Param("kind") == 1 {
		mode = StWeightInverseHFR
		w = []float32{1, 1.0 / 5, 1.0 / 3}
	}
	res, err := NewOpStack(StMean, mode, 2, 2).Apply(frames, &ops.Context{Log: &z.LogSink{}})
	z.Assert(err == nil, "frames which can be stacked are stacked")
	sum, ws := float32(0), float32(0)
	for i := range frames {
		sum += frames[i].Data[0] * w[i]
		ws += w[i]
	}
	z.Assert(res.Data[0] == sum/ws, "frames are weighted")
	exp := float32(0)
	for i := range frames {
		exp += frames[i].Exposure
	}
	z.Assert(res.Exposure == exp, "exposure is the sum of the exposures of the frames")
	z.Reach("weighted")
}
