package post

import (
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzContext() *ops.Context {
	return &ops.Context{Log: &z.LogSink{}, MaxThreads: 2, MemoryMB: 1000, StackMemoryMB: 700}
}

func zzStars(dx, dy float32, n int) []star.Star {
	pts := []star.Point2D{{X: 1, Y: 2}, {X: 5, Y: 2}, {X: 3.5, Y: 7}, {X: 8, Y: 4}}
	s := make([]star.Star, n)
	for i := range s {
		s[i] = star.Star{X: pts[i].X + dx, Y: pts[i].Y + dy, Mass: float32(100 - i), HFR: 2}
	}
	return s
}

// Frames are moved onto the reference; pixels outside are filled as configured.
//
//verif:harness S04 mode=0..2 dx=-2..2 dy=0,1
//verif:reach align
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S04_align() {
	stats.LSEstimator = stats.LSEMeanStdDev
	dx, dy := z.Param("dx"), z.Param("dy")
	w, h := 4, 3
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, nil)
	for i := range f.Data {
		f.Data[i] = float32(8 * (i*i%5 + 1))
	}
	f.Data[z.Choose("sel", w*h)] = z.SmallF32("pixel", 0, 50)
	f.ID = 3
	src := append([]float32{}, f.Data...)
	f.Stars = zzStars(float32(dx), float32(dy), 4)
	c := zzContext()
	c.AlignNaxisn, c.AlignStars = []int32{int32(w), int32(h)}, zzStars(0, 0, 4)
	c.MatchHisto = stats.NewStats([]float32{7, 8, 9}, 3)
	own := stats.NewStats(append([]float32{}, src...), int32(w)).Location()
	op := NewOpAlign(4, 1, OutOfBoundsMode(z.Param("mode")))
	g, err := op.Apply(f, c)
	z.Assert(err == nil && g != nil && len(g.Data) == w*h, "aligned")
	z.Assert(g.ID == 3, "identity is kept")
	for i, v := range g.Data {
		x, y := i%w+dx, i/w+dy
		e := float32(0)
		switch {
		case x < 0 || y < 0 || x >= w || y >= h:
			switch OutOfBoundsMode(z.Param("mode")) {
			case OOBModeNaN:
				z.Assert(math.IsNaN(float64(v)), "outside: NaN")
				continue
			case OOBModeRefLocation:
				e = v - 8
			case OOBModeOwnLocation:
				e = v - own
			}
			z.Assert(z.And(e < 0.1, e > -0.1), "outside: the location")
		case x == w-1 || y == h-1:
		default:
			e = v - src[y*w+x]
			z.Assert(z.And(e < 0.1, e > -0.1), "pixels are moved onto the reference")
		}
	}
	z.Reach("align")
}

// The same for larger images, also of a finer resolution than the reference.
//
//verif:harness S04 mode=0..2 w=12,17 h=9,14 s=1,2
//verif:harness S04 mode=0 w=33 h=21 s=1,2,3
//verif:thorough mode=0..2 w=9,12,17,33 h=9,14,21 s=1..4
//verif:reach large
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S04_large() {
	stats.LSEstimator = stats.LSEMeanStdDev
	rw, rh, s := z.Param("w"), z.Param("h"), z.Param("s")
	w, h := rw*s, rh*s
	shift := [][2]int{{0, 1}, {3, -2}, {-5, 4}}[z.Choose("shift", 3)]
	dx, dy := shift[0], shift[1]
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, nil)
	for i := range f.Data {
		f.Data[i] = float32(8 * (i*i%5 + 1))
	}
	f.Data[z.Place(w, h)] = z.SmallF32("pixel", 0, 50)
	f.ID = 3
	src := append([]float32{}, f.Data...)
	f.Stars = zzStars(0, 0, 4)
	for i := range f.Stars {
		f.Stars[i].X = f.Stars[i].X*float32(s) + float32(dx)
		f.Stars[i].Y = f.Stars[i].Y*float32(s) + float32(dy)
	}
	c := zzContext()
	c.AlignNaxisn, c.AlignStars = []int32{int32(rw), int32(rh)}, zzStars(0, 0, 4)
	c.MatchHisto = stats.NewStats([]float32{7, 8, 9}, 3)
	own := stats.NewStats(append([]float32{}, src...), int32(w)).Location()
	g, err := NewOpAlign(4, 1, OutOfBoundsMode(z.Param("mode"))).Apply(f, c)
	z.Assert(err == nil && g != nil && len(g.Data) == rw*rh, "aligned to the size of the reference")
	z.Assert(g.Naxisn[0] == int32(rw) && g.Naxisn[1] == int32(rh) && g.Pixels == int32(rw*rh), "aligned to the size of the reference")
	outside, inside := true, true
	for i, v := range g.Data {
		x, y := i%rw*s+dx, i/rw*s+dy
		switch {
		case x < 0 || y < 0 || x >= w || y >= h:
			switch OutOfBoundsMode(z.Param("mode")) {
			case OOBModeNaN:
				outside = z.And(outside, math.IsNaN(float64(v)))
			case OOBModeRefLocation:
				outside = z.And(outside, z.And(v > 7.9, v < 8.1))
			case OOBModeOwnLocation:
				outside = z.And(outside, z.And(v > own-0.1, v < own+0.1))
			}
		case x == 0 || y == 0 || x == w-1 || y == h-1:
		default:
			e := v - src[y*w+x]
			inside = z.And(inside, z.And(e < 0.1, e > -0.1))
		}
	}
	z.Assert(outside, "outside: the location or NaN")
	z.Assert(inside, "pixels are moved onto the reference")
	z.Reach("large")
}

// The reference frame and unaligned pipelines keep their images; without a reference or stars, there is no image.
//
//verif:harness S04 kind=0..7
//verif:reach noalign
//verif:opt timeout=60
func ZZ_S04_noalign() {
	stats.LSEstimator = stats.LSEMeanStdDev
	f := fits.NewImageFromNaxisn([]int32{2, 2}, nil)
	for i := range f.Data {
		f.Data[i] = z.AnyF32("pixel")
	}
	src := append([]float32{}, f.Data...)
	f.Stars = zzStars(0, 0, 4)
	c := zzContext()
	c.AlignNaxisn, c.AlignStars = []int32{2, 2}, f.Stars
	k, in := int32(4), f
	mode := OutOfBoundsMode(OOBModeNaN)
	want := 0 // 0: unchanged, 1: no frame, 2: an error
	switch z.Param("kind") {
	case 0:
	case 1:
		k, c.AlignStars, c.AlignNaxisn = 0, nil, nil
	case 2:
		c.AlignStars, want = nil, 2
	case 3:
		c.AlignNaxisn, want = nil, 2
	case 4:
		c.AlignStars, want = []star.Star{}, 2
	case 5: // another image without stars
		f.Stars, c.AlignStars, want = nil, zzStars(0, 0, 4), 1
	case 6: // too few stars
		f.Stars, want = []star.Star{{X: 1}, {X: 90, Y: 3}}, 1
	case 7:
		in, want = nil, 1
	}
	g, err := NewOpAlign(k, 1, mode).Apply(in, c)
	switch want {
	case 0:
		z.Assert(err == nil && g == f && len(f.Data) == len(src), "kept as it is")
		for i := range src {
			z.Assert(z.SameBits(g.Data[i], src[i]), "kept as it is")
		}
		z.Assert(g.Trans == star.IdentityTransform2D(), "kept as it is")
	case 1:
		z.Assert(err == nil && g == nil, "frames which cannot be aligned are skipped")
	case 2:
		z.Assert(err != nil && g == nil, "missing reference is an error")
	}
	z.Reach("noalign")
}

// A missing histogram reference is an error.
//
//verif:harness S04 mode=1
//verif:reach nohisto
func ZZ_S04_nohisto() {
	stats.LSEstimator = stats.LSEMeanStdDev
	f := fits.NewImageFromNaxisn([]int32{2, 2}, nil)
	f.Stars = zzStars(1, 0, 4)
	c := zzContext()
	c.AlignNaxisn, c.AlignStars = []int32{2, 2}, zzStars(0, 0, 4)
	g, err := NewOpAlign(4, 1, OutOfBoundsMode(z.Param("mode"))).Apply(f, c)
	z.Assert(err != nil && g == nil, "missing reference is an error")
	z.Reach("nohisto")
}
