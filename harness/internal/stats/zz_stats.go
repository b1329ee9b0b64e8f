package stats

import z "github.com/mlnoga/nightlight/internal/zzverif"

const zzGuard = 4

// zzImage: n integer valued pixels inside of a larger buffer holding other values
func zzImage(n, lo, hi int) (data, all []float32) {
	all = make([]float32, n+2*zzGuard)
	for i := range all {
		if i < zzGuard || i >= zzGuard+n {
			all[i] = z.SmallF32("other", -100000, 100000)
		} else {
			all[i] = z.SmallF32("px", lo, hi)
		}
	}
	return all[zzGuard : zzGuard+n : zzGuard+n], all
}

// Minimum, maximum and mean are those of exactly the given pixels; the image is not modified.
//
//verif:harness Q04 n=1..9
//verif:thorough n=1..21
//verif:reach mmm
func ZZ_Q04_mmm() {
	n := z.Param("n")
	d, all := zzImage(n, -30000, 30000)
	was := append([]float32{}, all...)
	s := NewStats(d, int32(n))
	mn, mx, mean := s.Min(), s.Max(), s.Mean()
	t := z.SmallF32("threshold", -40000, 40000)
	anyLE, anyGE := false, false
	sum := float64(0)
	for _, v := range d {
		anyLE = z.Or(anyLE, v <= t)
		anyGE = z.Or(anyGE, v >= t)
		sum += float64(v)
	}
	z.Assert((mn <= t) == anyLE, "minimum is the lowest pixel value")
	z.Assert((mx >= t) == anyGE, "maximum is the highest pixel value")
	z.Assert(mean == float32(sum/float64(n)), "mean is the average of all pixel values")
	for i := range all {
		z.Assert(z.SameBits(all[i], was[i]), "statistics do not modify pixels")
	}
	z.Observe("mmm", []float32{mn, mx, mean})
	z.Reach("mmm")
}

// The standard deviation is the root of the mean squared difference to the mean, over
// exactly the given pixels.
//
//verif:harness Q04 n=1..6,8
//verif:thorough n=1..12,16
//verif:reach stddev
func ZZ_Q04_stddev() {
	n := z.Param("n")
	d, _ := zzImage(n, -200, 200)
	// make the mean an integer
	m := z.SmallF32("mean", -200, 200)
	rest := float32(n) * m
	for _, v := range d[:n-1] {
		rest -= v
	}
	d[n-1] = rest
	s := NewStats(d, int32(n))
	sd := s.StdDev()
	sum := float64(0)
	for _, v := range d {
		diff := float64(v) - float64(m)
		sum += diff * diff
	}
	z.Assert(s.Mean() == m, "mean is the average of all pixel values")
	z.Assert(sd == zzSqrt(sum/float64(n)), "standard deviation is the root of the mean squared deviation")
	z.Reach("stddev")
}

// The noise estimate is the scaled sum of the absolute 3x3 convolutions over all interior
// pixels, and nothing else.
//
//verif:harness Q04 w=3..10 h=3
//verif:harness Q04 w=3,7,8,9,14 h=4,5
//verif:thorough w=3..21 h=3..6
//verif:reach noise
func ZZ_Q04_noise() {
	w, h := z.Param("w"), z.Param("h")
	d, _ := zzImage(w*h, -1000, 1000)
	got := NewStats(d, int32(w)).Noise()
	sum := float32(0)
	for y := 1; y < h-1; y++ {
		for x := 1; x < w-1; x++ {
			i := y*w + x
			c := d[i-w-1] + d[i-w+1] + d[i+w-1] + d[i+w+1] - 2*(d[i-w]+d[i-1]+d[i+1]+d[i+w]) + 4*d[i]
			sum += z.IteF32(c < 0, -c, c)
		}
	}
	factor := float32(1.2533141373155001) / (6 * float32(w-2) * float32(h-2))
	z.Assert(got == sum*factor, "noise is the scaled sum of absolute convolutions over the interior")
	z.Reach("noise")
}

// All of them for larger images, with one arbitrary pixel at any place.
//
//verif:harness Q04 w=16,17,40 h=9,13
//verif:harness Q04 w=100,257 h=3,5
//verif:thorough w=16,17,31,33,40,64,100,129,257 h=3,4,5,9,13,16
//verif:reach large
//verif:opt timeout=60 tab=64 nomerge
func ZZ_Q04_large() {
	w, h := z.Param("w"), z.Param("h")
	all := make([]float32, w*h+2*zzGuard)
	d := all[zzGuard : zzGuard+w*h]
	for i := range all {
		all[i] = -7000
	}
	for i := range d {
		d[i] = float32(100 + i*i%37 + i%w)
	}
	pos := z.Place(w, h)
	d[pos] = z.SmallF32("px", 90, 153)
	was := append([]float32{}, all...)
	s := NewStats(d, int32(w))
	mn, mx, sum := d[0], d[0], 0.0
	for _, v := range d {
		mn, mx = z.IteF32(v < mn, v, mn), z.IteF32(v > mx, v, mx)
		sum += float64(v)
	}
	near := func(a, b float32) bool { e := a - b; return z.And(e < 0.01, e > -0.01) }
	mean, sq := sum/float64(w*h), 0.0
	for _, v := range d {
		sq += (float64(v) - mean) * (float64(v) - mean)
	}
	z.Assert(s.Min() == mn, "minimum is the lowest pixel value")
	z.Assert(s.Max() == mx, "maximum is the highest pixel value")
	z.Assert(near(s.Mean(), float32(mean)), "mean is the average of all pixel values")
	z.Assert(near(s.StdDev(), zzSqrt(sq/float64(w*h))), "standard deviation is the root of the mean squared deviation")
	noise := float32(0)
	for y := 1; y < h-1; y++ {
		for x := 1; x < w-1; x++ {
			i := y*w + x
			c := d[i-w-1] + d[i-w+1] + d[i+w-1] + d[i+w+1] - 2*(d[i-w]+d[i-1]+d[i+1]+d[i+w]) + 4*d[i]
			noise += z.IteF32(c < 0, -c, c)
		}
	}
	z.Assert(near(s.Noise(), noise*float32(1.2533141373155001)/(6*float32(w-2)*float32(h-2))), "noise is the scaled sum of absolute convolutions over the interior")
	ok := true
	for i := range all {
		ok = z.And(ok, z.SameBits(all[i], was[i]))
	}
	z.Assert(ok, "statistics do not modify pixels")
	z.Reach("large")
}

// The histogram of many pixels.
//
//verif:harness Q04 n=300,1000 bins=7,16
//verif:thorough n=100,300,1000,4000 bins=2,7,64,100
//verif:reach manybins
//verif:opt timeout=60 tab=64 nomerge
func ZZ_Q04_manybins() {
	n, nb := z.Param("n"), z.Param("bins")
	d, bins := make([]float32, n), make([]int32, nb)
	for i := range d {
		d[i] = float32(i * i % 63)
	}
	d[0], d[1] = 0, 63
	sym := z.SmallF32("px", 0, 63)
	d[2+z.Place(n-2, 1)] = sym
	for i := range bins {
		bins[i] = 3
	}
	Histogram(d, 0, 63, bins)
	total, cum := int32(0), int32(0)
	for _, b := range bins {
		total += b
	}
	z.Assert(total == int32(n), "every pixel is counted once")
	ok := true
	for k := 0; k+1 < nb; k++ {
		cum += bins[k]
		below, upto := 0, 0
		for _, v := range d {
			below += z.IteInt(v*float32(nb-1) < float32((k+1)*63), 1, 0)
			upto += z.IteInt(v*float32(nb-1) <= float32((k+1)*63), 1, 0)
		}
		ok = z.And(ok, z.And(int(cum) >= below, int(cum) <= upto))
	}
	z.Assert(ok, "pixels are counted in the bin of their value")
	z.Reach("manybins")
}

// Every pixel falls into exactly one bin of the histogram, in order of its value.
//
//verif:harness Q04 n=1,2,4 bins=2,5,16 r=0,1,40
//verif:thorough n=1..6 bins=2,3,5,16,64 r=0,1,3,10,40,60
//verif:reach histogram
//verif:opt tab=64
func ZZ_Q04_histogram() {
	n, nb, r := z.Param("n"), z.Param("bins"), z.Param("r")
	d, _ := zzImage(n, 0, r)
	bins := make([]int32, nb)
	for i := range bins {
		bins[i] = z.Int32("stale", -9, 9)
	}
	Histogram(d, 0, float32(r), bins)
	total := int32(0)
	for _, b := range bins {
		z.Assert(b >= 0, "bin counts are not negative")
		total += b
	}
	z.Assert(total == int32(n), "every pixel is counted once")
	// cumulative counts: no more than the pixels up to the upper end of a bin, no less than those below it
	cum := int32(0)
	for k := 0; k+1 < nb && r > 0; k++ {
		cum += bins[k]
		below, upto := int32(0), int32(0)
		for _, v := range d {
			b, u := int32(0), int32(0)
			if int(v)*(nb-1) < (k+1)*r {
				b = 1
			}
			if int(v)*(nb-1) <= (k+1)*r {
				u = 1
			}
			below, upto = below+b, upto+u
		}
		z.Assert(z.And(cum >= below, cum <= upto), "pixels are counted in the bin of their value")
	}
	z.Reach("histogram")
}

// The histogram peak is reported for every histogram.
//
//verif:harness Q04 bins=1,2,4
//verif:thorough bins=1..6
//verif:reach peak
func ZZ_Q04_peak() {
	nb := z.Param("bins")
	bins := make([]int32, nb)
	for i := range bins {
		bins[i] = z.Int32("bin", 0, 1000)
	}
	x, y := GetPeak(bins, 0, 1)
	z.Observe("xy", []float32{x, y})
	z.Reach("peak")
}

// Histogram based location and scale: total, within the range of the data.
//
//verif:harness Q04 n=1,2,4 bins=4,9 r=0,1,40
//verif:thorough n=1..6 bins=3..9 r=0,1,13,40,60
//verif:reach scaleloc
//verif:opt tab=64
func ZZ_Q04_scaleloc() {
	n, r := z.Param("n"), z.Param("r")
	d, _ := zzImage(n, 0, r)
	loc, scale := HistogramScaleLoc(d, 0, float32(r), uint32(z.Param("bins")))
	z.Assert(z.And(0 <= loc, loc <= float32(r)), "location lies within the range of the data")
	z.Assert(scale >= 0, "scale is not negative")
	z.Reach("scaleloc")
}

// Sigma clipped median and MAD: terminates, location within range, scale not negative.
//
//verif:harness Q04 n=1,2
//verif:thorough n=1..4
//verif:reach clipped
//verif:opt uf
func ZZ_Q04_clipped() {
	n := z.Param("n")
	d := make([]float32, n)
	for i := range d {
		d[i] = z.SmallF32("px", -50, 50)
	}
	med, _ := SigmaClippedMedianAndMAD(d, 2, 2)
	mn, mx := d[0], d[0]
	for _, v := range d {
		mn, mx = z.IteF32(v < mn, v, mn), z.IteF32(v > mx, v, mx)
	}
	z.Assert(z.And(mn <= med, med <= mx), "clipped median lies within the range of the data")
	z.Reach("clipped")
}

// Sampled estimators, for every random choice of samples.
//
//verif:harness Q04 n=1,2 k=2,3
//verif:thorough n=1..4 k=1..4
//verif:reach sampled
func ZZ_Q04_sampled() {
	n, k := z.Param("n"), z.Param("k")
	d, _ := zzImage(n, -50, 50)
	mn, mx := d[0], d[0]
	for _, v := range d {
		mn, mx = z.IteF32(v < mn, v, mn), z.IteF32(v > mx, v, mx)
	}
	med := FastApproxMedian(d, make([]float32, k))
	z.Assert(z.And(mn <= med, med <= mx), "approximate median lies within the range of the data")
	qn := FastApproxQn(d, make([]float32, k))
	z.Assert(qn >= 0, "approximate scale is not negative")
	z.Assert(z.Implies(mn == mx, qn == 0), "scale of constant data is zero")
	z.Reach("sampled")
}

// The sigma clipped estimate terminates, for the actual random numbers after some seeds.
//
//verif:harness Q04 n=1,2 k=2 seed=1 hi=2
//verif:harness Q04 n=4 k=2 seed=3 hi=1
//verif:thorough n=1..4 k=1..4 seed=1..8 hi=1,2
//verif:reach sigclip
//verif:opt steps=40000 tab=64
func ZZ_Q04_sigmaclipped() {
	n, k := z.Param("n"), z.Param("k")
	d, _ := zzImage(n, 0, z.Param("hi"))
	z.RngSeed(z.Param("seed") * 0x3779b97)
	loc, _ := FastApproxSigmaClippedMedianAndQn(d, 2, 2, 0.001, k)
	mn, mx := d[0], d[0]
	for _, v := range d {
		mn, mx = z.IteF32(v < mn, v, mn), z.IteF32(v > mx, v, mx)
	}
	z.Assert(z.And(mn <= loc, loc <= mx), "location lies within the range of the data")
	z.Reach("sigclip")
}

// Scaling the cached statistics of an image describes the scaled image.
//
//verif:harness Q04 m=0..5
//verif:reach scaled
func ZZ_Q04_scaled() {
	n := 4
	d, _ := zzImage(n, -30, 30)
	m, o := float32([]float32{-3, -1, 0, 1, 2, 0.5}[z.Param("m")]), z.SmallF32("offset", -20, 20)
	s := NewStats(d, int32(n))
	mn0, mx0 := s.Min(), s.Max()
	sd := s.StdDev()
	s.UpdateCachedWith(m, o)
	mn, mx := mn0*m+o, mx0*m+o
	if m < 0 {
		mn, mx = mx, mn
	}
	z.Assert(s.Min() == mn, "minimum after scaling")
	z.Assert(s.Max() == mx, "maximum after scaling")
	am := m
	if am < 0 {
		am = -am
	}
	z.Assert(z.SameF32(s.StdDev(), sd*am), "deviation after scaling")
	z.Reach("scaled")
}

// Iterative k-sigma estimator terminates.
//
//verif:harness Q04 n=1 same=0
//verif:harness Q04 n=2,3,5 same=1
//verif:thorough n=1..3 same=0,1
//verif:reach ikss
//verif:opt steps=20000 tab=64
func ZZ_Q04_ikss() {
	n := z.Param("n")
	d, _ := zzImage(n, 0, 3)
	for i := 1; i < n && z.Param("same") == 1; i++ {
		d[i] = d[0]
	}
	mn, mx := d[0], d[0]
	for _, v := range d {
		mn, mx = z.IteF32(v < mn, v, mn), z.IteF32(v > mx, v, mx)
	}
	loc, scale := IKSS(d, 1e-6, 1e-7)
	z.Assert(z.And(mn <= loc, loc <= mx), "location lies within the range of the data")
	z.Assert(scale >= 0, "scale is not negative")
	z.Assert(z.Implies(mn == mx, scale == 0), "scale of constant data is zero")
	z.Reach("ikss")
}
