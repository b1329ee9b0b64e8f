package stack

import (
	"math"
	"sort"

	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzNaN() float32 { return float32(math.NaN()) }

func zzSqrt32(x float32) float32 { return float32(math.Sqrt(float64(x))) }

// zzPerm picks one of the permutations of 0..n-1
func zzPerm(n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	perm := []int{}
	for len(rest) > 0 {
		k := z.Choose("perm", len(rest))
		perm = append(perm, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return perm
}

// zzAscending: n integer valued samples in ascending order
func zzAscending(n, lo, hi int) []float32 {
	v := make([]float32, n)
	for i := range v {
		v[i] = z.SmallF32("v", lo, hi)
		if i > 0 {
			z.Assume(v[i] >= v[i-1])
		}
	}
	return v
}

// every stacker of this package, by number
const zzStackers = 8

func zzStack(mode int, lights [][]float32, w []float32, ref, sl, sh float32, res []float32) (cl, ch int32) {
	switch mode {
	case 0:
		StackMedian(lights, ref, res)
	case 1:
		StackMean(lights, ref, res)
	case 2:
		StackMeanWeighted(lights, w, ref, res)
	case 3:
		return StackSigma(lights, ref, sl, sh, res)
	case 4:
		return StackSigmaWeighted(lights, w, ref, sl, sh, res)
	case 5:
		return StackWinsorSigma(lights, ref, sl, sh, res)
	case 6:
		return StackWinsorSigmaWeighted(lights, w, ref, sl, sh, res)
	case 7:
		return StackMADSigma(lights, ref, sl, sh, res)
	case 8:
		return StackLinearFit(lights, ref, sl, sh, res)
	}
	return 0, 0
}

// Mean and median of the valid values of each pixel; replacement value if there is none.
//
//verif:harness K01 n=1..5 np=1
//verif:harness K01 n=2 np=2,3
//verif:thorough n=1..7 np=1
//verif:thorough n=2,3 np=2,3
//verif:reach mean
func ZZ_K01_mean() {
	n, np := z.Param("n"), z.Param("np")
	lights, valid, w := make([][]float32, n), make([][]bool, n), make([]float32, n)
	for i := range lights {
		lights[i], valid[i] = make([]float32, np), make([]bool, np)
		w[i] = z.SmallF32("weight", 1, 15)
		for p := range lights[i] {
			valid[i][p] = z.Choose("valid", 2) == 1
			lights[i][p] = z.SmallF32("v", -30000, 30000)
			if !valid[i][p] {
				lights[i][p] = zzNaN()
			}
		}
	}
	ref := z.SmallF32("ref", -99999, 99999)
	res := make([]float32, np)
	for p := range res {
		res[p] = z.SmallF32("stale", -99, 99)
	}
	resW := append([]float32{}, res...)
	StackMean(lights, ref, res)
	StackMeanWeighted(lights, w, ref, resW)
	for p := range res {
		sum, cnt, wsum, wcnt := float32(0), 0, float32(0), float32(0)
		for i := range lights {
			if valid[i][p] {
				sum += lights[i][p]
				cnt++
				wsum += lights[i][p] * w[i]
				wcnt += w[i]
			}
		}
		if cnt == 0 {
			z.Assert(z.SameBits(res[p], ref), "pixel without valid values gets the replacement value")
			z.Assert(z.SameBits(resW[p], ref), "pixel without valid values gets the replacement value")
		} else {
			z.Assert(res[p] == sum/float32(cnt), "mean of the valid values")
			z.Assert(resW[p] == wsum/wcnt, "weighted mean of the valid values")
		}
	}
	z.Observe("mean", append(res, resW...))
	z.Reach("mean")
}

//verif:harness K01 n=1..4 np=1
//verif:harness K01 n=2 np=2
//verif:thorough n=1..5 np=1
//verif:thorough n=2,3 np=2
//verif:reach median
func ZZ_K01_median() {
	n, np := z.Param("n"), z.Param("np")
	lights, valid := make([][]float32, n), make([][]bool, n)
	for i := range lights {
		lights[i], valid[i] = make([]float32, np), make([]bool, np)
		for p := range lights[i] {
			valid[i][p] = z.Choose("valid", 2) == 1
			lights[i][p] = z.SmallF32("v", -30000, 30000)
			if !valid[i][p] {
				lights[i][p] = zzNaN()
			}
		}
	}
	ref := z.SmallF32("ref", -99999, 99999)
	res := make([]float32, np)
	for p := range res {
		res[p] = z.SmallF32("stale", -99, 99)
	}
	StackMedian(lights, ref, res)
	for p := range res {
		vs := []float32{}
		for i := range lights {
			if valid[i][p] {
				vs = append(vs, lights[i][p])
			}
		}
		if len(vs) == 0 {
			z.Assert(z.SameBits(res[p], ref), "pixel without valid values gets the replacement value")
			continue
		}
		zzSort(vs)
		m := len(vs) / 2
		want := vs[m]
		if len(vs)%2 == 0 {
			want = 0.5 * (vs[m-1] + vs[m])
		}
		z.Assert(res[p] == want, "median of the valid values")
	}
	z.Reach("median")
}

// zzSort sorts without branching
func zzSort(v []float32) {
	for i := 1; i < len(v); i++ {
		for j := i; j > 0; j-- {
			a, b := v[j-1], v[j]
			v[j-1], v[j] = z.IteF32(b < a, b, a), z.IteF32(b < a, a, b)
		}
	}
}

// Identical frames stack to themselves, with every stacker and any bounds, and nothing is clipped;
// pixels without valid values get the replacement value.
//
//verif:harness K01 mode=0..8 n=1..6
//verif:thorough mode=0..8 n=1..12
//verif:reach same
func ZZ_K01_same() {
	n, mode := z.Param("n"), z.Param("mode")
	v, ref := z.SmallF32("v", -100000, 100000), z.SmallF32("ref", -99999, 99999)
	none := z.Choose("none", 3)
	lights, w := make([][]float32, n), make([]float32, n)
	for i := range lights {
		lights[i] = []float32{v, v, v}
		if none < 3 {
			lights[i][none] = zzNaN()
		}
		w[i] = float32(1 + i*3%7)
	}
	res := []float32{1, 2, 3}
	sl, sh := z.FracF32("sigmaLow", 0, 80, 4), z.FracF32("sigmaHigh", 0, 80, 4)
	cl, ch := zzStack(mode, lights, w, ref, sl, sh, res)
	for p := range res {
		if p == none {
			z.Assert(z.SameBits(res[p], ref), "pixel without valid values gets the replacement value")
		} else {
			z.Assert(res[p] == v, "identical frames stack to themselves")
		}
	}
	z.Assert(cl == 0 && ch == 0, "identical values are not clipped")
	z.Reach("same")
}

// A frame with an invalid pixel has the same effect as a missing frame, and the order of frames
// does not matter.
//
//verif:harness K02 mode=0,1,2 n=2,3,4 s=3
//verif:harness K02 mode=3,4,7,8 n=2,3 s=3
//verif:harness K02 mode=5,6 n=2 s=3
//verif:thorough mode=0..8 n=2..4 s=2,3,6
//verif:reach absent
//verif:opt ac timeout=45
func ZZ_K02_absent() {
	n, mode := z.Param("n"), z.Param("mode")
	v := zzAscending(n, 0, 60)
	perm := zzPerm(n)
	pos := z.Choose("pos", n+1)
	frames, ws := [][]float32{}, []float32{}
	want, wantW := [][]float32{}, []float32{}
	for i := 0; i <= n; i++ {
		if i == pos {
			frames = append(frames, []float32{zzNaN()})
			ws = append(ws, 5)
		}
		if i < n {
			frames = append(frames, []float32{v[perm[i]]})
			ws = append(ws, float32(1+perm[i]))
			want = append(want, []float32{v[i]})
			wantW = append(wantW, float32(1+i))
		}
	}
	ref := z.SmallF32("ref", -99999, 99999)
	sl, sh := float32(z.Param("s"))/4, float32(z.Param("s")+1)/4
	res, exp := []float32{-1}, []float32{-2}
	cl, ch := zzStack(mode, frames, ws, ref, sl, sh, res)
	ecl, ech := zzStack(mode, want, wantW, ref, sl, sh, exp)
	z.Assert(z.And(cl == ecl, ch == ech), "clip counts depend neither on the frame order nor on invalid pixels")
	z.Assert(res[0] == exp[0], "result depends neither on the frame order nor on invalid pixels")
	z.Reach("absent")
}

// zzClip is the definition of iterated sigma clipping: v is ascending, w are the weights of its values.
func zzClip(v, w []float32, sl, sh float32, winsor bool) (res float32, cl, ch int32) {
	lo, hi := 0, len(v)
	for {
		cur := v[lo:hi]
		n := float32(len(cur))
		m := len(cur) / 2
		median := cur[m]
		if len(cur)%2 == 0 {
			median = 0.5 * (cur[m-1] + cur[m])
		}
		sum := float32(0)
		for _, x := range cur {
			sum += x
		}
		mean := sum / n
		sd := zzStdDev(cur)
		if winsor {
			ws := append([]float32{}, cur...)
			for {
				lb, hb := median-1.5*sd, median+1.5*sd
				changed := false
				for i, x := range ws {
					if x < lb {
						ws[i] = lb
						changed = true
					} else if x > hb {
						ws[i] = hb
						changed = true
					}
				}
				old := sd
				sd = 1.134 * zzStdDev(ws)
				if !changed || float32(math.Abs(float64(sd-old)))/old <= 0.0005 {
					break
				}
			}
		}
		lb, hb := median-sl*sd, median+sh*sd
		first, last := lo, hi
		for lo < hi && v[lo] < lb {
			lo++
			cl++
		}
		for lo < hi && v[hi-1] > hb {
			hi--
			ch++
		}
		if lo == hi {
			if w != nil {
				return median, cl, ch
			}
			return mean, cl, ch
		}
		if lo == first && hi == last || hi-lo == 1 {
			ws, wv := float32(0), float32(0)
			for i := lo; i < hi; i++ {
				x := float32(1)
				if w != nil {
					x = w[i]
				}
				wv += v[i] * x
				ws += x
			}
			return wv / ws, cl, ch
		}
	}
}
func zzStdDev(v []float32) float32 {
	sum := float32(0)
	for _, x := range v {
		sum += x
	}
	mean := sum / float32(len(v))
	sq := float32(0)
	for _, x := range v {
		sq += (x - mean) * (x - mean)
	}
	return zzSqrt32(sq / float32(len(v)))
}

// Sigma clipping keeps exactly the values within the bounds, with their own weights.
//
//verif:harness K03 mode=3,4,7 n=1,2,3 sl=3 sh=5
//verif:harness K03 mode=3,4 n=3,4 sl=6 sh=5
//verif:thorough mode=3,4,5,6,7 n=1..4 sl=1,2,3,5,7 sh=3,4,5
//verif:reach clip
//verif:opt ac nomerge timeout=60
func ZZ_K03_clip() {
	n, mode := z.Param("n"), z.Param("mode")
	v := zzAscending(n, 0, 60)
	perm := [][]int{{0, 1, 2, 3}, {3, 1, 0, 2}}[z.Choose("perm", 2)]
	if n < 4 {
		perm = zzPerm(n)
	}
	frames, ws, w := make([][]float32, n), make([]float32, n), make([]float32, n)
	for i := range w {
		w[i] = z.SmallF32("weight", 1, 4)
	}
	for i := range frames {
		frames[i] = []float32{v[perm[i]]}
		ws[i] = w[perm[i]]
	}
	sl, sh := float32(z.Param("sl"))/4, float32(z.Param("sh"))/4
	res := []float32{-1}
	cl, ch := zzStack(mode, frames, ws, -9, sl, sh, res)
	if mode == 3 || mode == 5 {
		w = nil
	}
	want, wcl, wch := zzReference(mode, v, w, sl, sh)
	z.Assert(cl == wcl, "low clip count is the number of values below the bound")
	z.Assert(ch == wch, "high clip count is the number of values above the bound")
	z.Assert(res[0] == want, "result is the (weighted) mean of the values within bounds")
	z.Reach("clip")
}

// The same for winsorized sigma clipping, with every pair of bounds, on given distributions of values.
//
//verif:harness K03 mode=3..8 pat=0..6
//verif:thorough mode=3..8 pat=0..10
//verif:reach outlier
//verif:opt tab=64 nomerge timeout=60
func ZZ_K03_outlier() {
	mode := z.Param("mode")
	pat := [][]float32{{0, 0, 0, 1, 9}, {-7, 0, 0, 0, 0, 1}, {-5, 0, 1, 1, 2, 8}, {0, 1, 9}, {-2, 0, 0, 0, 0, 0, 0, 2}, {0, 1, 2, 3, 50}, {-30, -20, 0, 1, 1, 2, 3, 25},
		{0, 1}, {-4, 0, 4}, {0, 0, 0, 0, 1000}, {1, 2, 4, 8, 16, 32, 64, 128}}[z.Param("pat")]
	n := len(pat)
	v, w := make([]float32, n), make([]float32, n)
	frames, ws := make([][]float32, n), make([]float32, n)
	rot := z.Choose("rot", 3)
	for i := range v {
		v[i] = pat[i]
		w[i] = float32(1 + i*i%7)
		frames[(i*(n-1)+rot)%n] = []float32{v[i]}
		ws[(i*(n-1)+rot)%n] = w[i]
	}
	sl, sh := z.FracF32("sigmaLow", 1, 40, 4), z.FracF32("sigmaHigh", 1, 40, 4)
	res := []float32{-1}
	cl, ch := zzStack(mode, frames, ws, -9, sl, sh, res)
	if mode == 3 || mode == 5 {
		w = nil
	}
	want, wcl, wch := zzReference(mode, v, w, sl, sh)
	z.Assert(cl == wcl, "low clip count is the number of values below the bound")
	z.Assert(ch == wch, "high clip count is the number of values above the bound")
	d := res[0] - want
	z.Assert(z.Or(res[0] == want, z.And(d < 0.01, d > -0.01)), "result is the (weighted) mean of the values within bounds")
	z.Reach("outlier")
}

func zzReference(mode int, v, w []float32, sl, sh float32) (float32, int32, int32) {
	if mode < 7 {
		return zzClip(v, w, sl, sh, mode >= 5)
	}
	lo, hi := 0, len(v)
	drop := func(below, above func(i int) bool) (cl, ch int32) {
		for lo < hi && below(lo) {
			lo++
			cl++
		}
		for lo < hi && above(hi-1) {
			hi--
			ch++
		}
		return
	}
	mean := func() float32 {
		sum := float32(0)
		for i := lo; i < hi; i++ {
			sum += v[i]
		}
		return sum / float32(hi-lo)
	}
	median := func(v []float32) float32 {
		m := len(v) / 2
		if len(v)%2 == 0 {
			return 0.5 * (v[m-1] + v[m])
		}
		return v[m]
	}
	if mode == 7 {
		m := median(v)
		ds := make([]float32, len(v))
		for i := range ds {
			d := v[i] - m
			ds[i] = z.IteF32(d < 0, -d, d)
		}
		zzSort(ds)
		sd := median(ds) * 1.4826
		cl, ch := drop(func(i int) bool { return v[i] < m-sl*sd }, func(i int) bool { return v[i] > m+sh*sd })
		if lo == hi {
			return m, cl, ch
		}
		return mean(), cl, ch
	}
	// linear fit: values beyond their bound from the fit line are rejected until there is no more
	cl, ch := int32(0), int32(0)
	cur := append([]float32{}, v...)
	for {
		n := float64(len(cur))
		mx, my := (n-1)/2, 0.0
		for _, y := range cur {
			my += float64(y) / n
		}
		xy, xx := 0.0, 0.0
		for i, y := range cur {
			xy += (float64(i) - mx) * (float64(y) - my)
			xx += (float64(i) - mx) * (float64(i) - mx)
		}
		if len(cur) < 3 || xy == 0 {
			return float32(my), cl, ch
		}
		slope := xy / xx
		sigma := 0.0
		for i, y := range cur {
			sigma += math.Abs(my+(float64(i)-mx)*slope-float64(y)) / n
		}
		keep, l, h := []float32{}, int32(0), int32(0)
		for i, y := range cur {
			d := float32((float64(y) - (my + (float64(i)-mx)*slope)) / sigma)
			// not within rounding of the bounds
			z.Assume(z.Or(d < -sl-0.001, d > -sl+0.001))
			z.Assume(z.Or(d < sh-0.001, d > sh+0.001))
			if d < -sl {
				l++
			} else if d > sh {
				h++
			} else {
				keep = append(keep, y)
			}
		}
		if len(keep) == 0 || len(keep) == len(cur) {
			return float32(my), cl, ch
		}
		cl, ch, cur = cl+l, ch+h, keep
	}
}

// Each pixel is stacked on its own: its result is that of the values which the frames have there, whatever the
// other pixels hold.
func zzAlone() {
	mode := z.Param("mode")
	pats := [][]float32{{0, 0, 1, 9, 4}, {-7, 0, 0, 3, 1}, {50, 40, 45, 41, 90}, {-20, -21, -60, -20, -19}}
	n := len(pats[0])
	first, second := z.Param("first"), z.Choose("second", len(pats))
	none := z.Choose("none", 32) // frames without a value at the pixel looked at
	pos := z.Choose("pos", 2)    // before or after the pixel with all values
	lights, ws := make([][]float32, n), make([]float32, n)
	alone, ows, full := [][]float32{}, []float32{}, [][]float32{}
	for i := range lights {
		a, b := pats[first][i], pats[second][(i*2+first)%n]
		ws[i] = float32(1 + i*i%7)
		full = append(full, []float32{a})
		if none>>i&1 == 1 {
			b = zzNaN()
		} else {
			alone, ows = append(alone, []float32{b}), append(ows, ws[i])
		}
		lights[i] = []float32{a, b, a}
		if pos == 0 {
			lights[i] = []float32{b, a, b}
		}
	}
	sl, sh := z.FracF32("sigmaLow", 1, 40, 4), float32(1.8)
	ref := float32(-99)
	res := []float32{5, 6, 7}
	cl, ch := zzStack(mode, lights, ws, ref, sl, sh, res)
	resA, resB := []float32{8}, []float32{ref}
	acl, ach := zzStack(mode, full, ws, ref, sl, sh, resA)
	bcl, bch := int32(0), int32(0)
	if len(alone) > 0 {
		bcl, bch = zzStack(mode, alone, ows, ref, sl, sh, resB)
	}
	near := func(a, b float32) bool { return z.And(a-b < 1e-3, b-a < 1e-3) }
	for p := range res {
		if (p%2 == 1) == (pos == 0) {
			z.Assert(near(res[p], resA[0]), "other pixels have no effect on a pixel")
		} else {
			z.Assert(near(res[p], resB[0]), "a pixel is stacked from the values which the frames have there")
		}
	}
	na, nb := int32(1+pos), int32(2-pos)
	z.Assert(cl == na*acl+nb*bcl, "clip counts are the sums over the pixels")
	z.Assert(ch == na*ach+nb*bch, "clip counts are the sums over the pixels")
	z.Reach("alone")
}

//verif:harness K01 mode=0..8 first=0..3
//verif:reach alone
//verif:opt tab=64 nomerge timeout=60
func ZZ_K01_alone() { zzAlone() }

//verif:harness K02 mode=0..8 first=0..3
//verif:reach alone
//verif:opt tab=64 nomerge timeout=60
func ZZ_K02_alone() { zzAlone() }

// Only the proportion of the weights matters.
//
//verif:harness K01 mode=2,4 unit=0..4
//verif:reach scaled
//verif:opt tab=64 nomerge timeout=60
func ZZ_K01_scaled() {
	unit := []float32{1, 1e-3, 1e-16, 1e-30, 1e16}[z.Param("unit")]
	v := []float32{3, 7, 4, 5}
	v[z.Choose("pos", 4)] = z.FracF32("value", 1, 40, 2)
	none := z.Choose("none", 5)
	lights, ws := make([][]float32, 4), make([]float32, 4)
	sum, wsum := float32(0), float32(0)
	for i := range lights {
		w := float32(1 + i*3%5)
		ws[i] = w * unit
		lights[i] = []float32{v[i], v[3-i]}
		if i == none {
			lights[i][0] = zzNaN()
		} else {
			sum, wsum = sum+w*v[i], wsum+w
		}
	}
	res := []float32{1, 2}
	zzStack(z.Param("mode"), lights, ws, -9, 1000, 1000, res)
	d := res[0] - sum/wsum
	z.Assert(z.And(d < 1e-3, d > -1e-3), "weighted mean of the valid values, for weights of any unit")
	z.Reach("scaled")
}

// zzMany gives n values of frames at a pixel, and which of them are valid
func zzMany(n, seed, holes int) ([]float32, []bool) {
	v, ok := make([]float32, n), make([]bool, n)
	r := uint32(seed*977 + n)
	for i := range v {
		r = r*1664525 + 1013904223
		v[i] = float32(100 + int(r>>16)%17)
		if r>>9&7 == 0 {
			v[i] += float32(int(r>>12)%400) - 200 // outlier
		}
		switch holes {
		case 0:
			ok[i] = true
		case 1:
			ok[i] = i%3 != 1
		case 2:
			ok[i] = i > n/2
		case 3:
			ok[i] = i == n-2
		}
	}
	return v, ok
}

// Mean and median of many frames, one of them with any value.
//
//verif:harness K01 mode=0 n=6,7,8,9,12,16,17,24 holes=0..3
//verif:harness K01 mode=0 n=33 holes=2
//verif:harness K01 mode=1,2 n=6,7,8,9,12,16,17,32,33,50 holes=0..3
//verif:thorough mode=0,1,2 n=5..70 holes=0..3
//verif:reach many
//verif:opt tab=64 nomerge timeout=60
func ZZ_K01_many() {
	mode, n := z.Param("mode"), z.Param("n")
	v, ok := zzMany(n, 3, z.Param("holes"))
	b, bok := zzMany(n, 5, z.Choose("holesNext", 2))
	p := z.Choose("place", 3) * (n - 1) / 2
	v[p] = z.SmallF32("value", 90, 125)
	order := z.Choose("order", 2)
	lights, ws := make([][]float32, n), make([]float32, n)
	vs := []float32{}
	sum, wsum := 0.0, 0.0
	for i := range lights {
		ws[i] = float32(1 + i*i%7)
		lights[i] = []float32{zzNaN(), zzNaN(), zzNaN()}
		if bok[i] {
			lights[i][order] = b[i]
		}
		if ok[i] {
			lights[i][1-order] = v[i]
			w := 1.0
			if mode == 2 {
				w = float64(ws[i])
			}
			vs = append(vs, v[i])
			sum += float64(v[i]) * w
			wsum += w
		}
	}
	res := []float32{7, 8, 9}
	zzStack(mode, lights, ws, -99, 0, 0, res)
	z.Assert(res[2] == -99, "pixel without valid values gets the replacement value")
	if mode > 0 {
		d := float64(res[1-order]) - sum/wsum
		z.Assert(z.And(d < 1e-2, d > -1e-2), "mean of the valid values of many frames")
	} else {
		zzSort(vs)
		m := len(vs) / 2
		want := vs[m]
		if len(vs)%2 == 0 {
			want = 0.5 * (vs[m-1] + vs[m])
		}
		z.Assert(res[1-order] == want, "median of the valid values of many frames")
	}
	z.Reach("many")
}

// Many frames, with any bounds.
//
//verif:harness K03 mode=3..8 n=9,12,16,21,30 seed=1,2
//verif:thorough mode=3..8 n=9..40 seed=1..5
//verif:reach many
//verif:opt tab=64 nomerge timeout=90
func ZZ_K03_many() {
	mode, n := z.Param("mode"), z.Param("n")
	v, _ := zzMany(n, z.Param("seed"), 0)
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	w, frames, ws := make([]float32, n), make([][]float32, n), make([]float32, n)
	step := []int{1, n - 1, 1}[z.Choose("order", 2)]
	for i := range v {
		w[i] = float32(1 + i*i%7)
		k := (i*step + 3) % n
		frames[k], ws[k] = []float32{v[i]}, w[i]
	}
	sl, sh := z.FracF32("sigmaLow", 4, 20, 4), z.FracF32("sigmaHigh", 4, 20, 4)
	res := []float32{-1}
	cl, ch := zzStack(mode, frames, ws, -9, sl, sh, res)
	if mode == 3 || mode == 5 {
		w = nil
	}
	want, wcl, wch := zzReference(mode, v, w, sl, sh)
	z.Assert(cl == wcl, "low clip count is the number of values below the bound")
	z.Assert(ch == wch, "high clip count is the number of values above the bound")
	d := res[0] - want
	z.Assert(z.Or(res[0] == want, z.And(d < 0.01, d > -0.01)), "result is the (weighted) mean of the values within bounds")
	z.Reach("many")
}

// Many frames, some of them without a value, in two orders.
//
//verif:harness K02 mode=0..8 n=7,9,13,24 holes=1..3
//verif:thorough mode=0..8 n=7..40 holes=1..3
//verif:reach many
//verif:opt tab=64 nomerge timeout=60
func ZZ_K02_many() {
	mode, n := z.Param("mode"), z.Param("n")
	v, ok := zzMany(n, 4, z.Param("holes"))
	frames, ws := make([][]float32, n), make([]float32, n)
	few, fws := [][]float32{}, []float32{}
	for i := range v {
		k := n - 1 - (i*2+1)%(n|1)%n
		if n&1 == 0 {
			k = n - 1 - i
		}
		ws[k] = float32(1 + i*i%7)
		if ok[i] {
			few, fws = append(few, []float32{v[i]}), append(fws, ws[k])
			frames[k] = []float32{v[i]}
		} else {
			frames[k] = []float32{zzNaN()}
		}
	}
	sl, sh := z.FracF32("sigmaLow", 4, 20, 4), z.FracF32("sigmaHigh", 4, 20, 4)
	a, b := []float32{1}, []float32{2}
	cl, ch := zzStack(mode, frames, ws, -9, sl, sh, a)
	fl, fh := zzStack(mode, few, fws, -9, sl, sh, b)
	z.Assert(z.And(cl == fl, ch == fh), "clip counts depend neither on the frame order nor on invalid pixels")
	d := a[0] - b[0]
	z.Assert(z.And(d < 0.01, d > -0.01), "result depends neither on the frame order nor on invalid pixels")
	z.Reach("many")
}
