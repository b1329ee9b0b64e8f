package ref

import (
	"errors"
	"fmt"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzContext(threads int) *ops.Context {
	stats.LSEstimator = stats.LSEMeanStdDev
	return &ops.Context{Log: &z.LogSink{}, MaxThreads: threads, MemoryMB: 1000, StackMemoryMB: 700}
}

// zzFrame gives a frame of i+1 pixels around value v with the given stars
func zzFrame(i, nstars int, v, hfr float32) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{int32(i + 1), 1}, make([]float32, i+1))
	for j := range f.Data {
		f.Data[j] = v
	}
	f.ID = i
	f.Stars = make([]star.Star, nstars)
	f.HFR = hfr
	return f
}

// zzInputs: promises for frames counting their calls
type zzInputs struct {
	mu     sync.Mutex
	frames []*fits.Image // nil for a frame which was skipped before
	fail   []bool
	calls  []int
	ins    []ops.Promise
}

func zzNewInputs(frames []*fits.Image, fail []bool) *zzInputs {
	in := &zzInputs{frames: frames, fail: fail, calls: make([]int, len(frames))}
	for i := range frames {
		i := i
		in.ins = append(in.ins, func() (*fits.Image, error) {
			in.mu.Lock()
			in.calls[i]++
			in.mu.Unlock()
			if in.fail[i] {
				return nil, errors.New("cannot load")
			}
			return in.frames[i], nil
		})
	}
	return in
}

var zzModes = []string{"%starsHFR", "%location", "%rgb", "1", "7", "-1", "", "missing.fits", "ref.fits"}

// a file with 4x2 zero pixels
func zzRefFile() {
	b := make([]byte, 2*2880)
	for i := range b {
		b[i] = ' '
	}
	for i, l := range []string{"SIMPLE  =                    T", "BITPIX  =                    8", "NAXIS   =                    2",
		"NAXIS1  =                    4", "NAXIS2  =                    2", "END"} {
		copy(b[i*80:], l)
	}
	for i := 2880; i < len(b); i++ {
		b[i] = 0
	}
	z.FSPut("ref.fits", b)
}

// Every frame is passed on exactly once in its place, and the reference is one for all.
//
//verif:harness C03 mode=0..8 target=0,1 n=1,2 threads=1,2 sched=0,1
//verif:harness C03 mode=0,1,6 target=0,1 n=3 threads=2 sched=1
//verif:harness C03 mode=2 target=0 n=4 threads=2 sched=0
//verif:thorough mode=0..8 target=0,1 n=1..3 threads=1..3 sched=0..2
//verif:thorough mode=2 target=0,1 n=4 threads=1,2 sched=0,1
//verif:reach delivered
//verif:opt race fs nomerge timeout=100
func ZZ_C03_select() {
	z.FS()
	zzRefFile()
	mode, target, n := z.Param("mode"), SelRefTarget(z.Param("target")), z.Param("n")
	c := zzContext(z.Param("threads"))
	frames, fail := make([]*fits.Image, n), make([]bool, n)
	empty, failing := 0, 0
	for i := range frames {
		switch z.Choose("kind", 3) {
		case 0:
			frames[i] = zzFrame(i, 1+(i*2)%3, []float32{0.5, 0.875, 0.25, 0.125}[i], 1.5)
		case 1:
			empty++
		case 2:
			fail[i] = true
			failing++
		}
	}
	in := zzNewInputs(frames, fail)
	op := NewOpSelectReference(target, zzModes[mode], pre.NewOpStarDetect(0, 0, 0, 0, ""))
	outs, err := op.MakePromises(in.ins, c)
	z.Assert(err == nil && len(outs) == n, "one result per frame")
	got, errs := make([]*fits.Image, n), make([]error, n)
	after := make([]ops.Promise, n)
	for i := range outs { // a step which uses the reference
		i := i
		after[i] = func() (*fits.Image, error) {
			got[i], errs[i] = outs[i]()
			if errs[i] == nil && got[i] != nil && c.MatchHisto != nil {
				got[i].MatchHistogram(c.MatchHisto)
			}
			return got[i], errs[i]
		}
	}
	ops.MaterializeAll(after, c.MaxThreads, true)
	all := mode <= 5 // looks at all frames
	ok := !(mode == 4 || mode == 5 || mode == 7)
	if all && failing > 0 || mode <= 2 && empty == n {
		ok = false
	}
	if mode == 3 && (n < 2 || frames[1] == nil) || mode == 2 && n > 3 && frames[3] == nil {
		ok = false
	}
	for i := range got {
		z.Assert(in.calls[i] <= 1, "no frame is loaded twice")
		if !ok {
			z.Assert(got[i] == nil && errs[i] != nil, "without reference there is an error")
		} else if fail[i] {
			z.Assert(got[i] == nil && errs[i] != nil, "a frame which cannot be loaded is an error")
		} else {
			z.Assert(in.calls[i] == 1, "each frame is loaded once")
			z.Assert(errs[i] == nil && got[i] == frames[i], "each frame is passed on in its place")
		}
	}
	if !ok {
		z.Assert(c.RefFrameError != nil && c.AlignStars == nil && c.MatchHisto == nil, "the failure is kept for the other frames")
		z.Reach("delivered")
		return
	}
	want := -1
	for i, f := range frames {
		if f == nil {
			continue
		}
		switch {
		case mode == 0 || mode == 2 && n <= 3: // most stars per half-flux radius
			if want < 0 || len(f.Stars) > len(frames[want].Stars) {
				want = i
			}
		case mode == 1 && n-empty == 1: // the only one is the median (ZZ_C03_best has the others)
			want = i
		}
	}
	if mode == 3 {
		want = 1
	}
	if mode == 2 && n > 3 {
		want = 3
	}
	switch {
	case mode == 6:
		z.Assert(c.AlignStars == nil && c.MatchHisto == nil, "no reference is chosen")
	case mode == 8 && target == SRAlign:
		z.Assert(len(c.AlignNaxisn) == 2 && c.AlignNaxisn[0] == 4 && c.MatchHisto == nil, "the file is the reference")
	case mode == 8:
		z.Assert(c.MatchHisto.Location() == 0 && c.AlignStars == nil, "the file is the reference")
	case want < 0:
	case target == SRAlign:
		z.Assert(int(c.AlignNaxisn[0]) == want+1 && len(c.AlignStars) == len(frames[want].Stars) && &c.AlignStars[0] == &frames[want].Stars[0], "the best frame is the reference")
		z.Assert(c.MatchHisto == nil, "only the alignment reference is set")
	case mode != 1:
		z.Assert(c.MatchHisto.Location() == []float32{0.5, 0.875, 0.25, 0.125}[want], "the best frame is the reference")
		z.Assert(c.AlignStars == nil, "only the histogram reference is set")
	}
	z.Reach("delivered")
}

// The frame with the most stars per half-flux radius is chosen, or the one closest to the median location.
//
//verif:harness C03 n=1..4 mode=0,1
//verif:reach best
//verif:opt tab=64 nomerge timeout=60
func ZZ_C03_best() {
	n, mode := z.Param("n"), z.Param("mode")
	c := zzContext(2)
	frames := make([]*fits.Image, n)
	vary := z.Choose("vary", n)
	for i := range frames {
		hfr, loc, stars := 1+float32(i%3)/4, float32((i*5+3)%8)/8, []int{3, 0, 4, 2}[i]
		if i == vary {
			if mode == 0 {
				stars = z.Choose("stars", 3) * 2
				hfr = z.FracF32("hfr", 0, 32, 3)
			} else {
				loc = z.FracF32("location", -31, 32, 4)
			}
		}
		frames[i] = zzFrame(i, stars, loc, hfr)
	}
	target := SRAlign
	op := NewOpSelectReference(target, zzModes[mode], pre.NewOpStarDetect(0, 0, 0, 0, ""))
	in := zzNewInputs(frames, make([]bool, n))
	outs, err := op.MakePromises(in.ins, c)
	z.Assert(err == nil, "references can be selected")
	for i := range outs {
		f, err := outs[i]()
		z.Assert(err == nil && f == frames[i], "each frame is passed on")
		z.Assert(in.calls[i] == 1, "each frame is loaded once")
	}
	z.Assert(len(c.AlignNaxisn) == 2, "a reference is chosen")
	best := frames[int(c.AlignNaxisn[0])-1]
	score := func(f *fits.Image) float32 {
		if len(f.Stars) == 0 {
			return 0
		}
		return z.IteF32(f.HFR == 0, 0, float32(len(f.Stars))/f.HFR)
	}
	less, more := 0, 0
	for _, f := range frames {
		if mode == 0 {
			z.Assert(score(best) >= score(f), "no frame has more stars per half-flux radius")
		} else {
			less += z.IteInt(f.Data[0] < best.Data[0], 1, 0)
			more += z.IteInt(f.Data[0] > best.Data[0], 1, 0)
		}
	}
	if mode == 1 {
		z.Assert(z.And(less <= n/2, more <= n/2), "the reference is in the middle of the locations")
	}
	z.Reach("best")
}

// Later batches use the reference of the first one; each frame of each batch is passed on once.
//
//verif:harness C03 mode=0,1,3,8 target=0,1 stars=0,2 sched=0
//verif:harness C03 mode=0 target=0,1 stars=0,2 sched=1
//verif:reach batches
//verif:opt race fs nomerge timeout=60
func ZZ_C03_batches() {
	z.FS()
	zzRefFile()
	mode, target, stars := z.Param("mode"), SelRefTarget(z.Param("target")), z.Param("stars")
	c := zzContext(2)
	op := NewOpSelectReference(target, zzModes[mode], pre.NewOpStarDetect(0, 0, 0, 0, ""))
	naxis, loc := int32(0), float32(0)
	for b, n := range []int{2, 3, 1} {
		frames := make([]*fits.Image, n)
		for i := range frames {
			frames[i] = zzFrame(i+3*b, stars*(1+(i+b)%2), float32((i+b)%3+1)/4, 1.5)
			if stars == 0 {
				frames[i].Stars = nil
			}
		}
		in := zzNewInputs(frames, make([]bool, n))
		outs, err := op.MakePromises(in.ins, c)
		z.Assert(err == nil && len(outs) == n, "one result per frame")
		got, err := ops.MaterializeAll(outs, c.MaxThreads, false)
		z.Assert(err == nil && len(got) == n, "each frame is passed on")
		for i := range got {
			z.Assert(got[i] == frames[i] && in.calls[i] == 1, "each frame is loaded and passed on once, in its place")
		}
		if target == SRAlign {
			z.Assert(c.AlignNaxisn != nil && (b == 0 || c.AlignNaxisn[0] == naxis), "the reference stays the same")
			naxis = c.AlignNaxisn[0]
		} else {
			z.Assert(c.MatchHisto != nil && (b == 0 || c.MatchHisto.Location() == loc), "the reference stays the same")
			loc = c.MatchHisto.Location()
		}
	}
	z.Reach("batches")
}

// Two selections in a row, as in the stacking pipeline.
//
//verif:harness C03 sched=0..2
//verif:reach both
//verif:opt race nomerge timeout=100
func ZZ_C03_both() {
	c := zzContext(2)
	frames := []*fits.Image{zzFrame(0, 1, 0.25, 1), zzFrame(1, 2, 0.5, 1)}
	in := zzNewInputs(frames, make([]bool, 2))
	det := pre.NewOpStarDetect(0, 0, 0, 0, "")
	seq := ops.NewOpSequence(NewOpSelectReference(SRHisto, "%location", det), NewOpSelectReference(SRAlign, "%starsHFR", det), NewOpFilter(1))
	outs, err := seq.MakePromises(in.ins, c)
	z.Assert(err == nil && len(outs) == 2, "one result per frame")
	got, err := ops.MaterializeAll(outs, 2, false)
	z.Assert(err == nil && len(got) == 2, "each frame is passed on")
	for i := range got {
		z.Assert(got[i] == frames[i] && in.calls[i] == 1, "each frame is loaded and passed on once, in its place")
	}
	z.Assert(c.AlignNaxisn[0] == 2 && c.MatchHisto != nil, "both references are set")
	z.Reach("both")
}

// Frames with too few stars are filtered out, all others passed on as they are.
//
//verif:harness C03 n=1..3
//verif:reach filtered
//verif:opt timeout=60
func ZZ_C03_filter() {
	n := z.Param("n")
	min := z.Int("min", -2, 4)
	frames := make([]*fits.Image, n)
	for i := range frames {
		frames[i] = zzFrame(i, z.Choose("stars", 4), 0.5, 1)
	}
	in := zzNewInputs(frames, make([]bool, n))
	outs, err := NewOpFilter(min).MakePromises(in.ins, zzContext(2))
	z.Assert(err == nil && len(outs) == n, "one result per frame")
	for i := range outs {
		f, err := outs[i]()
		z.Assert(err == nil, "filtering is no error")
		if min > 0 && len(frames[i].Stars) < min {
			z.Assert(f == nil, "frames with too few stars are left out")
		} else {
			z.Assert(f == frames[i], "frames with enough stars are passed on")
		}
	}
	z.Reach("filtered")
}

// Operators without effect.
//
//verif:harness J02 op=0..2
//verif:reach inactive
//verif:opt timeout=60 fs
func ZZ_J02_ref() {
	z.FS()
	f := zzFrame(1, 2, 0.5, 1)
	f.Data[0] = z.AnyF32("pixel")
	v := f.Data[0]
	var op ops.Operator
	switch z.Param("op") {
	case 0:
		op = NewOpFilter(z.Choose("none", 2) - 1)
	case 1:
		op = NewOpSelectReference(SRAlign, "", nil)
	case 2:
		op = NewOpExportStats("")
	}
	c := zzContext(2)
	outs, err := op.MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, c)
	z.Assert(err == nil && len(outs) == 1, "one result per frame")
	g, err := outs[0]()
	z.Assert(err == nil && g == f && z.SameBits(g.Data[0], v), "the frame is passed on as it is")
	z.Assert(c.AlignStars == nil && c.MatchHisto == nil && len(z.FSNames()) == 0, "nothing else happens")
	z.Reach("inactive")
}

var _ = fmt.Sprint
