package pre

import (
	"math"

	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// median of up to nine values, by selection
func zzMedian(v []float32) float32 {
	v = zzCopy(v)
	for i := range v {
		for j := i; j > 0; j-- {
			c := v[j] < v[j-1]
			v[j], v[j-1] = z.IteF32(c, v[j-1], v[j]), z.IteF32(c, v[j], v[j-1])
		}
	}
	if len(v)&1 == 0 {
		return 0.5 * (v[len(v)/2-1] + v[len(v)/2])
	}
	return v[len(v)/2]
}

func zzStdDev(v []float32) float32 {
	s, q := 0.0, 0.0
	for _, x := range v {
		s += float64(x)
	}
	s /= float64(len(v))
	for _, x := range v {
		q += (float64(x) - s) * (float64(x) - s)
	}
	return float32(math.Sqrt(q / float64(len(v))))
}

// zzField: an image with a slope and noise, one pixel arbitrary
func zzField(f []float32, w, kind int) {
	for i := range f {
		x, y := i%w, i/w
		switch kind {
		case 0:
			f[i] = 20
		case 1:
			f[i] = float32(10 + (x*7+y*11+x*y)%5)
		case 2:
			f[i] = float32(8*x + 4*y)
		}
	}
}

var zzGreen = [][2]int{{0, -2}, {-1, -1}, {1, -1}, {-2, 0}, {0, 0}, {2, 0}, {-1, 1}, {1, 1}, {0, 2}}

// Cosmetic correction of the samples of a colour: outliers become the median of their neighbours of the
// same colour, everything else stays.
//
//verif:harness P03 w=4,5 h=4 cfa=0..3 kind=0 sl=4 sh=4
//verif:harness P03 w=5 h=4 cfa=0..3 kind=1 sl=2 sh=3
//verif:harness P03 w=2..5 h=2,3 cfa=0,3 kind=1 sl=3 sh=5
//verif:harness P03 w=4 h=5 cfa=1 kind=2 sl=8,0 sh=2
//verif:harness P03 w=9,12 h=8,11 cfa=0,1 kind=1 sl=3 sh=5
//verif:harness P03 w=10 h=7 cfa=2..7 kind=1 sl=6 sh=4
//verif:thorough w=2..8 h=2..8 cfa=0..7 kind=0,1,2 sl=3 sh=2,5
//verif:reach bayer
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P03_bayer() {
	w, h, cfa := z.Param("w"), z.Param("h"), zzCFAs[z.Param("cfa")]
	ch := z.Choose("channel", 3)
	f := zzImage(1, w, h)
	zzField(f.Data, w, z.Param("kind"))
	sel := z.Place(w, h)
	f.Data[sel] = z.SmallF32("value", 0, 60)
	sl, sh := float32(z.Param("sl"))/2, float32(z.Param("sh"))/2
	src := zzCopy(f.Data)
	op := NewOpBadPixel(sl, sh, NewOpDebayer([]string{"R", "G", "B"}[ch], cfa))
	g, err := op.Apply(f, zzContext())
	z.Assert(err == nil && g == f, "corrected")
	if sl == 0 || sh == 0 {
		zzSame(f.Data, src, "inactive")
		z.Reach("bayer")
		return
	}
	up := zzUpper(cfa)
	xo, yo := 0, 0
	for zzColor(up, xo, 0) != 0 && zzColor(up, xo, 1) != 0 {
		xo++
	}
	for zzColor(up, 0, yo) != 0 && zzColor(up, 1, yo) != 0 {
		yo++
	}
	// deviations of the samples from the medians of their neighbours
	med, dev, idx := []float32{}, []float32{}, []int{}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if zzColor(up, x, y) != ch {
				z.Assert(z.SameBits(f.Data[y*w+x], src[y*w+x]), "samples of other colours stay")
				continue
			}
			if x < xo || y < yo || ch == 1 && x == 0 && false {
				continue
			}
			var v []float32
			for j := -1; j <= 1; j++ {
				for i := -1; i <= 1; i++ {
					dx, dy := 2*i, 2*j
					if ch == 1 {
						k := zzGreen[(j+1)*3+i+1]
						dx, dy = k[0], k[1]
					}
					if x+dx >= 0 && y+dy >= 0 && x+dx < w && y+dy < h {
						v = append(v, src[(y+dy)*w+x+dx])
					}
				}
			}
			m := zzMedian(v)
			med, dev, idx = append(med, m), append(dev, src[y*w+x]-m), append(idx, y*w+x)
		}
	}
	sd := zzStdDev(dev)
	in, out := true, true
	for k, i := range idx {
		bad := z.Or(dev[k] < -sl*sd, dev[k] > sh*sd)
		near := func(a float32) bool { return z.And(a < 0.01, a > -0.01) }
		edge := z.Or(near(dev[k]+sl*sd), near(dev[k]-sh*sd))
		same := z.SameBits(f.Data[i], src[i])
		in = z.And(in, z.Or(edge, z.Or(bad, same)))
		out = z.And(out, z.Or(edge, z.Or(!bad, near(f.Data[i]-med[k]))))
		z.Assert(z.Or(same, near(f.Data[i]-med[k])), "kept or replaced")
	}
	z.Assert(in, "inliers stay")
	z.Assert(out, "outliers become the median of the neighbours of the colour")
	z.Reach("bayer")
}

// The same for images without filter array.
//
//verif:harness P03 w=3,4,5 h=3,4 kind=0 sl=6 sh=10
//verif:harness P03 w=5 h=5 kind=1 sl=2,4,0 sh=3
//verif:harness P03 w=5 h=4 kind=2 sl=3 sh=6
//verif:harness P03 w=9,13 h=8,11 kind=1 sl=3,6 sh=5
//verif:thorough w=1..8 h=1..8 kind=0,1,2 sl=3,6 sh=2,5
//verif:reach mono
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P03_mono() {
	w, h := z.Param("w"), z.Param("h")
	f := zzImage(1, w, h)
	zzField(f.Data, w, z.Param("kind"))
	sel := z.Place(w, h)
	f.Data[sel] = z.SmallF32("value", 0, 60)
	sl, sh := float32(z.Param("sl"))/2, float32(z.Param("sh"))/2
	src := zzCopy(f.Data)
	var deb *OpDebayer
	if z.Choose("debayer", 2) == 1 {
		deb = NewOpDebayer("", "RGGB")
	}
	g, err := NewOpBadPixel(sl, sh, deb).Apply(f, zzContext())
	z.Assert(err == nil && g == f, "corrected")
	if sl == 0 || sh == 0 {
		zzSame(f.Data, src, "inactive")
		z.Reach("mono")
		return
	}
	med, dev := make([]float32, len(src)), make([]float32, len(src))
	lo, hi := make([]float32, len(src)), make([]float32, len(src))
	inner := make([]bool, len(src))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			i := y*w + x
			var v []float32
			lo[i], hi[i] = src[i], src[i]
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					if x+dx >= 0 && y+dy >= 0 && x+dx < w && y+dy < h {
						p := src[i+dy*w+dx]
						v = append(v, p)
						lo[i], hi[i] = z.IteF32(p < lo[i], p, lo[i]), z.IteF32(p > hi[i], p, hi[i])
					}
				}
			}
			inner[i] = len(v) == 9
			if inner[i] {
				med[i] = zzMedian(v)
			} else {
				med[i] = src[i] // the outermost rows and columns are not filtered
			}
			dev[i] = src[i] - med[i]
		}
	}
	sd := zzStdDev(dev)
	near := func(a float32) bool { return z.And(a < 0.01, a > -0.01) }
	var bad []bool
	for i := range src {
		b := z.Or(dev[i] < -sl*sd, dev[i] > sh*sd)
		edge := z.Or(near(dev[i]+sl*sd), near(dev[i]-sh*sd))
		same := z.SameBits(f.Data[i], src[i])
		z.Assert(z.Or(z.And(edge, inner[i]), z.Or(b, same)), "inliers stay")
		bad = append(bad, z.Or(b, edge))
	}
	for i := range src {
		b := z.Or(dev[i] < -sl*sd, dev[i] > sh*sd)
		edge := z.Or(near(dev[i]+sl*sd), near(dev[i]-sh*sd))
		// other bad pixels nearby may have been replaced before
		alone := true
		for dy := -1; dy <= 1; dy++ {
			for dx := -1; dx <= 1; dx++ {
				x, y := i%w+dx, i/w+dy
				if (dx != 0 || dy != 0) && x >= 0 && y >= 0 && x < w && y < h {
					alone = z.And(alone, !bad[y*w+x])
				}
			}
		}
		if inner[i] {
			z.Assert(z.Or(edge, z.Or(!b, z.Or(!alone, near(f.Data[i]-med[i])))), "outliers become the median of their neighbours")
		}
		z.Assert(z.Or(edge, z.Or(!b, z.And(f.Data[i] >= lo[i]-0.01, f.Data[i] <= hi[i]+0.01))), "outliers are replaced from their neighbourhood")
	}
	z.Reach("mono")
}
