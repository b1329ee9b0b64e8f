package pre

import (
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzContext() *ops.Context {
	return &ops.Context{Log: &z.LogSink{}, MaxThreads: 2, MemoryMB: 1000, StackMemoryMB: 700}
}

func zzImage(id int, dims ...int) *fits.Image {
	n := 1
	naxisn := []int32{}
	for _, d := range dims {
		n *= d
		naxisn = append(naxisn, int32(d))
	}
	f := fits.NewImageFromNaxisn(naxisn, make([]float32, n))
	f.ID = id
	return f
}

func zzCopy(d []float32) []float32 { return append([]float32{}, d...) }

func zzSame(a, b []float32, msg string) {
	z.Assert(len(a) == len(b), msg)
	for i := range a {
		z.Assert(z.SameBits(a[i], b[i]), msg)
	}
}

var zzDims = [][]int{{2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}, {1, 1}, {2, 2, 1}}

// zzCalibrate returns the operator for the frames which are loaded already
func zzCalibrate(c *ops.Context) *OpCalibrate {
	dark, flat := "", ""
	if c.DarkFrame != nil {
		dark = "dark.fits"
	}
	if c.FlatFrame != nil {
		flat = "flat.fits"
	}
	return NewOpCalibrate(dark, flat)
}

// Light minus dark, for every value of the pixels.
//
//verif:harness P01 light=0..6
//verif:reach dark
//verif:opt timeout=60
func ZZ_P01_dark() {
	f, d := zzImage(1, zzDims[z.Param("light")]...), zzImage(-1, zzDims[z.Choose("dark", len(zzDims))]...)
	for i := range f.Data {
		f.Data[i] = z.AnyF32("light")
	}
	for i := range d.Data {
		d.Data[i] = z.AnyF32("darkpixel")
	}
	l, dd := zzCopy(f.Data), zzCopy(d.Data)
	c := zzContext()
	c.DarkFrame = d
	g, err := zzCalibrate(c).Apply(f, c)
	zzSame(d.Data, dd, "the dark frame stays as it is")
	if len(l) != len(dd) {
		z.Assert(err != nil && g == nil, "different dimensions are an error")
		zzSame(f.Data, l, "the light frame stays as it is")
		z.Reach("dark")
		return
	}
	z.Assert(err == nil && g == f, "calibrated")
	for i, v := range l {
		want := v - dd[i]
		z.Assert(z.SameF32(g.Data[i], want), "light minus dark")
	}
	z.Reach("dark")
}

// Light times maximum of the flat divided by flat, after subtraction of the dark.
//
//verif:harness P01 w=1 h=1,2,3 dark=0,1
//verif:harness P01 w=2 h=1 dark=1
//verif:thorough w=1,2 h=1,2,3 dark=0,1
//verif:reach flat
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P01_flat() {
	w, h := z.Param("w"), z.Param("h")
	f, d, fl := zzImage(1, w, h), zzImage(-1, w, h), zzImage(-2, w, h)
	flats := []float32{4, 0, -3, 5, 0.5}
	max := float32(-9)
	for i := range f.Data {
		f.Data[i] = z.SmallF32("light", -3, 4)
		d.Data[i] = z.SmallF32("darkpixel", 0, 7)
		fl.Data[i] = flats[z.Choose("flat", len(flats))]
		if fl.Data[i] > max {
			max = fl.Data[i]
		}
	}
	l, dd, ff := zzCopy(f.Data), zzCopy(d.Data), zzCopy(fl.Data)
	c := zzContext()
	if z.Param("dark") == 1 {
		c.DarkFrame = d
	} else {
		dd = make([]float32, len(dd))
	}
	c.FlatFrame = fl
	f.Stats.Max()
	g, err := zzCalibrate(c).Apply(f, c)
	z.Assert(err == nil && g == f, "calibrated")
	zzSame(fl.Data, ff, "the flat frame stays as it is")
	for i := range l {
		want := l[i] - dd[i]
		if ff[i] > 0 {
			want = want * max / ff[i]
		}
		e := g.Data[i] - want
		z.Assert(z.And(e < 0.001, e > -0.001), "light minus dark, times maximum of the flat, divided by the flat")
	}
	z.Reach("flat")
}

// The same for larger images, several of them calibrated with the same frames, with one arbitrary pixel of a
// light, the dark or the flat.
//
//verif:harness P01 w=17,37 h=11,16 frames=1..3
//verif:harness P01 w=64 h=9 frames=3
//verif:thorough w=9,17,37,64,100 h=5,9,16,33 frames=1..3
//verif:reach large
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P01_large() {
	w, h, frames := z.Param("w"), z.Param("h"), z.Param("frames")
	c := zzContext()
	all := []*fits.Image{zzImage(-1, w, h), zzImage(-2, w, h), zzImage(1, w, h), zzImage(2, w, h)}
	for k, f := range all {
		for i := range f.Data {
			f.Data[i] = float32(10 + (i*i+i*k)%23 + 4*k)
		}
	}
	all[1].Data[w*h/2+3], all[1].Data[5] = 0, -2
	all[1].Data[w*h-2] = 100
	which := z.Choose("image", 3)
	p := z.Place(w, h)
	all[which].Data[p] = z.SmallF32("value", -3, 60)
	var ds [][]float32
	for _, f := range all {
		ds = append(ds, zzCopy(f.Data))
	}
	max := float32(100)
	if p == w*h-2 && which == 1 {
		z.Stop()
	}
	if frames&1 != 0 {
		c.DarkFrame = all[0]
	}
	if frames&2 != 0 {
		c.FlatFrame = all[1]
	}
	op := zzCalibrate(c)
	for k := 2; k < 4; k++ {
		g, err := op.Apply(all[k], c)
		z.Assert(err == nil && g == all[k], "calibrated")
		ok := true
		for i, v := range ds[k] {
			if frames&1 != 0 {
				v -= ds[0][i]
			}
			if frames&2 != 0 {
				v = z.IteF32(ds[1][i] > 0, v*max/ds[1][i], v)
			}
			e := g.Data[i] - v
			ok = z.And(ok, z.And(e < 0.01, e > -0.01))
		}
		z.Assert(ok, "light minus dark, times maximum of the flat, divided by the flat")
	}
	ok := true
	for k := 0; k < 2; k++ {
		for i, v := range ds[k] {
			ok = z.And(ok, z.SameBits(v, all[k].Data[i]))
		}
	}
	z.Assert(ok, "the frames stay as they are")
	z.Reach("large")
}

// Flats of other dimensions are an error.
//
//verif:harness P01 light=0..6
//verif:reach flatdims
//verif:opt timeout=60
func ZZ_P01_flatdims() {
	f, fl := zzImage(1, zzDims[z.Param("light")]...), zzImage(-1, zzDims[z.Choose("flat", len(zzDims))]...)
	for i := range f.Data {
		f.Data[i] = z.AnyF32("light")
	}
	for i := range fl.Data {
		fl.Data[i] = 1
	}
	l := zzCopy(f.Data)
	c := zzContext()
	c.FlatFrame = fl
	g, err := zzCalibrate(c).Apply(f, c)
	if len(l) != len(fl.Data) {
		z.Assert(err != nil && g == nil, "different dimensions are an error")
		zzSame(f.Data, l, "the light frame stays as it is")
	} else {
		z.Assert(err == nil && g == f, "calibrated")
		for i, v := range l {
			z.Assert(z.SameF32(v, f.Data[i]), "a uniform flat changes nothing")
		}
	}
	z.Reach("flatdims")
}

// Calibration frames are loaded from the files given, for lights processed at the same time.
//
//verif:harness P01 frames=0..3
//verif:reach load
//verif:opt timeout=20 fs noobs sched=1 race
func ZZ_P01_load() {
	z.FS()
	names := []string{"", ""}
	want := []float32{0, 0}
	for i, n := range []string{"dark.fits", "flat.fits"} {
		f := zzImage(0, 2, 1)
		f.Data[0], f.Data[1] = float32(4-i*2), float32(8)
		f.WriteFile(n)
		if z.Param("frames")>>i&1 == 1 {
			names[i] = n
		}
	}
	op, c := NewOpCalibrate(names[0], names[1]), zzContext()
	var ins []ops.Promise
	for i := 0; i < 2; i++ {
		f := zzImage(i, 2, 1)
		f.Data[0], f.Data[1] = float32(10+i), float32(20+i)
		ins = append(ins, func() (*fits.Image, error) { return f, nil })
	}
	ps, err := op.MakePromises(ins, c)
	z.Assert(err == nil && len(ps) == 2, "promises")
	fs, err := ops.MaterializeAll(ps, 2, false)
	z.Assert(err == nil && len(fs) == 2, "calibrated")
	for i, f := range fs {
		want[0], want[1] = float32(10+i), float32(20+i)
		if names[0] != "" {
			want[0], want[1] = want[0]-4, want[1]-8
		}
		if names[1] != "" {
			want[0] = want[0] * 8 / 2
		}
		z.Assert(f.ID == i && f.Data[0] == want[0] && f.Data[1] == want[1], "calibrated with the frames given")
	}
	z.Reach("load")
}

// Several calibration steps in a row: each frame is applied by the step which names it, and only by that.
//
//verif:harness P01 first=0..3 second=0..3
//verif:reach steps
//verif:opt timeout=60 fs noobs sched=1 race
func ZZ_P01_steps() {
	z.FS()
	vals := [][]float32{{4, 8}, {2, 8}}
	for i, n := range []string{"dark.fits", "flat.fits"} {
		f := zzImage(0, 2, 1)
		copy(f.Data, vals[i])
		f.WriteFile(n)
	}
	step := func(k int) ops.Operator {
		n := []string{"", ""}
		if k&1 != 0 {
			n[0] = "dark.fits"
		}
		if k&2 != 0 {
			n[1] = "flat.fits"
		}
		return NewOpCalibrate(n[0], n[1])
	}
	kinds := []int{z.Param("first"), z.Param("second")}
	c := zzContext()
	var ins []ops.Promise
	for i := 0; i < 2; i++ {
		f := zzImage(i, 2, 1)
		f.Data[0], f.Data[1] = float32(100+i), float32(200+i)
		ins = append(ins, func() (*fits.Image, error) { return f, nil })
	}
	ps, err := ops.NewOpSequence(step(kinds[0]), step(kinds[1])).MakePromises(ins, c)
	z.Assert(err == nil && len(ps) == 2, "promises")
	fs, err := ops.MaterializeAll(ps, 2, false)
	z.Assert(err == nil && len(fs) == 2, "calibrated")
	for i, f := range fs {
		for p := range f.Data {
			v := float32(100+i) + float32(100*p)
			for _, k := range kinds {
				if k&1 != 0 {
					v -= vals[0][p]
				}
				if k&2 != 0 {
					v = v * 8 / vals[1][p]
				}
			}
			z.Assert(f.Data[p] == v, "each step applies the frames it names")
		}
	}
	z.Reach("steps")
}

// The CFA colour of a pixel: 0 red, 1 green, 2 blue
func zzColor(cfa string, x, y int) int {
	switch cfa[(y&1)*2+(x&1)] {
	case 'R':
		return 0
	case 'G':
		return 1
	}
	return 2
}

var zzCFAs = []string{"RGGB", "GRBG", "GBRG", "BGGR", "rggb", "grbg", "gbrg", "bggr"}

// Every pixel is the sample, or the mean of the samples of the colour next to it.
//
//verif:harness P02 w=2..5 h=2..5 cfa=0..3
//verif:harness P02 w=8,11 h=7,10 cfa=0..3
//verif:harness P02 w=6 h=13 cfa=0..7
//verif:thorough w=2..8 h=2..8 cfa=0..7
//verif:reach debayer
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P02_debayer() {
	w, h, cfa := z.Param("w"), z.Param("h"), zzCFAs[z.Param("cfa")]
	ch := z.Choose("channel", 3)
	f := zzImage(1, w, h)
	// the image is a linear function of one pixel: all pixels are nonzero, one is arbitrary
	sel := z.Place(w, h)
	for i := range f.Data {
		f.Data[i] = float32(4*i*i%61 + 3)
	}
	f.Data[sel] = z.SmallF32("value", -8, 55)
	src := zzCopy(f.Data)
	g, err := NewOpDebayer([]string{"R", "G", "B"}[ch], cfa).Apply(f, zzContext())
	xo, yo := 0, 0
	for zzColor(zzUpper(cfa), xo, 0) != 0 && zzColor(zzUpper(cfa), xo, 1) != 0 {
		xo++
	}
	for zzColor(zzUpper(cfa), 0, yo) != 0 && zzColor(zzUpper(cfa), 1, yo) != 0 {
		yo++
	}
	aw, ah := (w-xo)&^1, (h-yo)&^1
	if aw == 0 || ah == 0 {
		z.Assert(err != nil, "images without a full cell are an error")
		z.Reach("debayer")
		return
	}
	z.Assert(err == nil && g != nil, "debayered")
	z.Assert(len(g.Naxisn) == 2 && g.Naxisn[0] == int32(aw) && g.Naxisn[1] == int32(ah) && len(g.Data) == aw*ah && g.Pixels == int32(aw*ah), "even size of the full cells")
	for y := 0; y < ah; y++ {
		for x := 0; x < aw; x++ {
			got := g.Data[y*aw+x]
			sx, sy := x+xo, y+yo
			if zzColor(zzUpper(cfa), sx, sy) == ch {
				z.Assert(got == src[sy*w+sx], "samples are kept")
				continue
			}
			lo, hi, sum, n, all := float32(math.MaxFloat32), -float32(math.MaxFloat32), float32(0), 0, true
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					nx, ny := sx+dx, sy+dy
					if ((nx%2)+2)%2 == xo && false {
						continue
					}
					if zzColor(zzUpper(cfa), nx, ny) != ch {
						continue
					}
					if nx < 0 || ny < 0 || nx >= w || ny >= h {
						all = false
						continue
					}
					v := src[ny*w+nx]
					lo, hi = z.IteF32(v < lo, v, lo), z.IteF32(v > hi, v, hi)
					sum += v
					n++
				}
			}
			if all {
				z.Assert(got == sum/float32(n), "mean of the neighbours of the colour")
			} else {
				z.Assert(z.And(got >= lo-0.001, got <= hi+0.001), "between the neighbours of the colour")
			}
		}
	}
	z.Reach("debayer")
}

func zzUpper(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] &^= 32
	}
	return string(b)
}

// Images too small, unknown filter arrays and channels.
//
//verif:harness P02 w=1..3 h=1..3 kind=0..3
//verif:reach unknown
//verif:opt timeout=60
func ZZ_P02_unknown() {
	w, h := z.Param("w"), z.Param("h")
	f := zzImage(1, w, h)
	for i := range f.Data {
		f.Data[i] = z.AnyF32("pixel")
	}
	src := zzCopy(f.Data)
	ch := []string{"R", "G", "B"}[z.Choose("channel", 3)]
	cfa := zzCFAs[z.Choose("cfa", len(zzCFAs))]
	switch z.Param("kind") {
	case 0:
		g, err := NewOpDebayer(ch, cfa).Apply(f, zzContext())
		z.Assert((err == nil) == (g != nil), "an image or an error")
		if g != nil {
			z.Assert(len(g.Data) > 0 && int(g.Naxisn[0]*g.Naxisn[1]) == len(g.Data) && int(g.Pixels) == len(g.Data), "size")
		}
	case 1:
		g, err := NewOpDebayer(ch, []string{"RGBG", "X", "RGG", "RgGB"}[z.Choose("badcfa", 4)]).Apply(f, zzContext())
		z.Assert(err != nil && g == nil, "unknown filter arrays are an error")
	case 2:
		g, err := NewOpDebayer([]string{"X", "RG", " "}[z.Choose("badch", 3)], cfa).Apply(f, zzContext())
		z.Assert(err != nil && g == nil, "unknown channels are an error")
	case 3:
		g, err := NewOpDebayer("", cfa).Apply(f, zzContext())
		z.Assert(err == nil && g == f, "no channel: image is passed on")
		zzSame(f.Data, src, "no channel: image is passed on")
	}
	z.Reach("unknown")
}

// Each pixel of the result is the mean of its block, for every plane of the image.
//
//verif:harness P04 w=1..5 h=1..5 n=2 planes=0
//verif:harness P04 w=4,7,8 h=4,9 n=4 planes=0
//verif:harness P04 w=2..4 h=2,3 n=2,4 planes=1,3
//verif:harness P04 w=2,3 h=0 n=2 planes=0
//verif:thorough w=1..9 h=1..9 n=2,4 planes=0,3
//verif:reach bin
//verif:opt timeout=60 ac nomerge
func ZZ_P04_bin() { zzBin(func(i int) float32 { return z.SmallF32("pixel", -100, 1000) }) }

// The same for bin sizes whose reciprocal is not exact, with one arbitrary pixel at any place.
//
//verif:harness P04 w=3,4,6 h=3,7 n=3 planes=0
//verif:harness P04 w=5,6 h=5,11 n=5 planes=0
//verif:harness P04 w=3 h=4 n=3 planes=3
//verif:harness P04 w=17,33 h=13,21 n=3,4,8 planes=0
//verif:harness P04 w=19 h=11 n=2,5 planes=3
//verif:harness P04 w=48 h=37 n=16 planes=0
//verif:thorough w=1..13 h=1..9 n=3,5,6 planes=0,3
//verif:reach bin
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P04_odd() {
	k := z.Param("planes")
	if k == 0 {
		k = 1
	}
	w, h := z.Param("w"), z.Param("h")
	sel := z.Choose("plane", k)*w*h + z.Place(w, h)
	zzBin(func(i int) float32 {
		if i == sel {
			return z.SmallF32("pixel", -8, 50)
		}
		return float32(i*i%31 + 3)
	})
}

func zzBin(pixel func(i int) float32) {
	w, h, n, planes := z.Param("w"), z.Param("h"), z.Param("n"), z.Param("planes")
	dims := []int{w}
	if h > 0 {
		dims = append(dims, h)
	} else {
		h = 1
	}
	if planes > 0 {
		dims = append(dims, planes)
	} else {
		planes = 1
	}
	f := zzImage(7, dims...)
	f.FileName, f.Exposure = "name", 3
	for i := range f.Data {
		f.Data[i] = pixel(i)
	}
	src := zzCopy(f.Data)
	g, err := NewOpBin(int32(n)).Apply(f, zzContext())
	zzSame(f.Data, src, "the input stays as it is")
	bw, bh := w/n, h/n
	if len(dims) == 1 || bw == 0 || bh == 0 {
		z.Assert((err == nil) == (g != nil), "an image or an error")
		z.Assert(g == nil || len(g.Data) == 0, "no full block, no pixels")
		z.Reach("bin")
		return
	}
	z.Assert(err == nil && g != nil, "binned")
	z.Assert(g.Naxisn[0] == int32(bw) && g.Naxisn[1] == int32(bh) && len(g.Data) == bw*bh*planes && g.Pixels == int32(bw*bh*planes), "size")
	z.Assert(len(g.Naxisn) == len(dims) && (len(dims) < 3 || g.Naxisn[2] == int32(planes)), "size")
	z.Assert(g.ID == 7 && g.FileName == "name" && g.Exposure == 3, "identity is kept")
	for p := 0; p < planes; p++ {
		for y := 0; y < bh; y++ {
			for x := 0; x < bw; x++ {
				sum := float32(0)
				for j := 0; j < n; j++ {
					for i := 0; i < n; i++ {
						sum += src[p*w*h+(y*n+j)*w+x*n+i]
					}
				}
				e := g.Data[p*bw*bh+y*bw+x]*float32(n*n) - sum
				z.Assert(z.And(e < 0.01, e > -0.01), "mean of the block")
			}
		}
	}
	z.Reach("bin")
}

// Bin sizes up to one change nothing.
//
//verif:harness P04 n=-3..1
//verif:reach nobin
func ZZ_P04_inactive() {
	f := zzImage(7, 2, 2)
	for i := range f.Data {
		f.Data[i] = z.AnyF32("pixel")
	}
	src := zzCopy(f.Data)
	g, err := NewOpBin(int32(z.Param("n"))).Apply(f, zzContext())
	z.Assert(err == nil && g == f, "passed on")
	zzSame(f.Data, src, "passed on")
	z.Reach("nobin")
}

var _ = stats.LSEstimator
