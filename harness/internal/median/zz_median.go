package median

import (
	"math"

	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzVals(n int) []float32 {
	a := make([]float32, n)
	for i := range a {
		a[i] = z.NumF32("a") // documented precondition: no NaN
	}
	return a
}

// zzIsMid: m is the middle one of the odd number of values vs. For every
// threshold, m is at or below it exactly if more than half of the values are.
func zzIsMid(m float32, vs []float32) bool {
	t := z.NumF32("threshold")
	le := 0
	for _, v := range vs {
		le += z.IteInt(v <= t, 1, 0)
	}
	return (m <= t) == (le > len(vs)/2)
}

// zzSorted returns a sorted copy (compare and exchange network).
func zzSorted(a []float32) []float32 {
	s := append([]float32{}, a...)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			c := s[j] < s[j-1]
			s[j-1], s[j] = z.IteF32(c, s[j], s[j-1]), z.IteF32(c, s[j-1], s[j])
		}
	}
	return s
}

// The median of any nine values is the fifth lowest.
//
//verif:harness Q02
//verif:reach nine
func ZZ_Q02_nine() {
	a := zzVals(9)
	orig := append([]float32{}, a...)
	m := MedianFloat32Slice9(a)
	z.Assert(zzIsMid(m, orig), "median of nine values is the fifth lowest")
	z.Observe("m", m)
	z.Reach("nine")
}

// The median of any small number of values is the true median.
//
//verif:harness Q02 n=1..5,9
//verif:thorough n=1..7,9
//verif:reach median
func ZZ_Q02_median() {
	n := z.Param("n")
	a := make([]float32, n)
	for i := range a {
		if n&1 == 0 {
			a[i] = z.FracF32("q", -100000, 100000, 4)
		} else {
			a[i] = z.NumF32("a")
		}
	}
	orig := append([]float32{}, a...)
	m := MedianFloat32(a)
	if n&1 == 1 {
		z.Assert(zzIsMid(m, orig), "odd number of values: median is the middle one")
	} else {
		s := zzSorted(orig)
		z.Assert(m == 0.5*(s[n/2-1]+s[n/2]), "even number of values: median is the mean of the two middle ones")
	}
	z.Observe("m", m)
	z.Reach("median")
}

// The median of a neighbourhood uses exactly the pixels inside of the image:
// any position, any neighbourhood, whatever the scratch buffer held before.
//
//verif:harness Q02 n=4,6 m=3,4 s=1,2
//verif:thorough n=3..7 m=2..5 s=1..3
//verif:reach gathered
func ZZ_Q02_gather() {
	n, m := z.Param("n"), z.Param("m")
	data := make([]float32, n)
	for i := range data {
		data[i] = z.FracF32("d", -100000, 100000, 4)
	}
	mask := make([]int32, m)
	for i := range mask {
		mask[i] = int32((i - m/2) * z.Param("s"))
	}
	index := int32(z.Concrete(z.Choose("index", n)))
	buf := make([]float32, m)
	for i := range buf {
		buf[i] = z.FracF32("stale", -100000, 100000, 4)
	}
	var in []float32
	for _, o := range mask {
		if k := index + o; k >= 0 && k < int32(n) {
			in = append(in, data[k])
		}
	}
	z.Assume(len(in) > 0)
	before := append([]float32{}, data...)
	got := GatherAndMedian(data, index, mask, buf)
	s := zzSorted(in)
	if k := len(s); k&1 == 1 {
		z.Assert(got == s[k/2], "median of an odd number of pixels inside of the image")
	} else {
		z.Assert(got == 0.5*(s[k/2-1]+s[k/2]), "median of an even number of pixels inside of the image")
	}
	for i := range data {
		z.Assert(z.SameBits(data[i], before[i]), "gathering does not modify the image")
	}
	z.Reach("gathered")
}

// Larger numbers of values in several orders, with one arbitrary value.
//
//verif:harness Q02 n=6,7,8,10,13,16,21,25 pat=0..3
//verif:harness Q02 n=31,49 pat=3
//verif:thorough n=5..33 pat=0..3
//verif:reach large
//verif:opt tab=64 nomerge timeout=60
func ZZ_Q02_large() {
	n := z.Param("n")
	a := make([]float32, n)
	r := uint32(n)
	for i := range a {
		switch z.Param("pat") {
		case 0:
			a[i] = float32(2 * i)
		case 1:
			a[i] = float32(2 * (n - i))
		case 2:
			a[i] = float32(i*5%3) * float32(n)
		case 3:
			r = r*1664525 + 1013904223
			a[i] = float32(int(r>>16) % (2 * n))
		}
	}
	p := z.Choose("place", 5) * (n - 1) / 4
	a[p] = z.SmallF32("v", n-8, n+9)
	if z.Choose("far", 2) == 1 {
		a[p] = z.SmallF32("far", -3, 2) * 1000
	}
	orig := append([]float32{}, a...)
	m := MedianFloat32(a)
	zzMiddle(m, orig)
	z.Observe("m", m)
	z.Reach("large")
}

// zzMiddle asserts that m is the median of the values: by rank if their number is odd, else as the mean of the
// highest value of the lower half and the lowest one of the upper half
func zzMiddle(m float32, v []float32) {
	n := len(v)
	rank := func(x float32) (lt, le int) {
		for _, o := range v {
			lt += z.IteInt(o < x, 1, 0)
			le += z.IteInt(o <= x, 1, 0)
		}
		return
	}
	if n&1 == 1 {
		lt, le := rank(m)
		z.Assert(z.And(lt <= n/2, le > n/2), "odd number of values: median is the middle one")
		return
	}
	s := zzSorted(v)
	z.Assert(m == 0.5*(s[n/2-1]+s[n/2]), "even number of values: median is the mean of the two middle ones")
}

// Neighbourhoods as used for images: any place in an image, one arbitrary pixel in it, and an invalid one.
//
//verif:harness Q02 w=3,5,6 h=3,4 radius=1,2 nan=0,1
//verif:harness Q02 w=5 h=5 radius=3 nan=1
//verif:thorough w=3..8 h=2..7 radius=1..3 nan=0,1
//verif:reach neighbourhood
//verif:opt tab=64 nomerge timeout=60
func ZZ_Q02_neighbourhood() {
	w, h, radius := z.Param("w"), z.Param("h"), z.Param("radius")
	data := make([]float32, w*h)
	for i := range data {
		data[i] = float32(i * 7 % 11)
	}
	mask := []int32{}
	for y := -radius; y <= radius; y++ {
		for x := -radius; x <= radius; x++ {
			if x*x+y*y <= radius*radius+radius/2 {
				mask = append(mask, int32(y*w+x))
			}
		}
	}
	index := int32(z.Choose("index", len(data)))
	near := mask[z.Choose("pixel", 3)*(len(mask)-1)/2]
	v := z.SmallF32("v", 3, 12)
	if k := index + near; k >= 0 && int(k) < len(data) {
		data[k] = v
	}
	hole := int32(-1)
	if z.Param("nan") == 1 {
		hole = index + mask[len(mask)/3]
		if hole >= 0 && int(hole) < len(data) {
			data[hole] = float32(math.NaN())
		}
	}
	in := []float32{}
	for _, o := range mask {
		if k := index + o; k >= 0 && int(k) < len(data) && k != hole {
			in = append(in, data[k])
		}
	}
	z.Assume(len(in) > 0)
	buf := make([]float32, len(mask))
	for i := range buf {
		buf[i] = float32(i%2*2000 - 1000)
	}
	zzMiddle(GatherAndMedian(data, index, mask, buf), in)
	z.Reach("neighbourhood")
}
