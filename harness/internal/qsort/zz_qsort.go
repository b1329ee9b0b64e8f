package qsort

import z "github.com/mlnoga/nightlight/internal/zzverif"

func zzInput(n int) []float32 {
	a := make([]float32, n)
	for i := range a {
		a[i] = z.NumF32("a") // documented precondition: no NaN
	}
	return a
}

func zzCount(a []float32, x float32) int {
	c := 0
	for _, v := range a {
		c += z.IteInt(v == x, 1, 0)
	}
	return c
}

// Sorting yields an ascending permutation.
//
//verif:harness Q01 n=0..4
//verif:thorough n=0..5
//verif:reach sorted
func ZZ_Q01_sort() {
	n := z.Param("n")
	a := zzInput(n)
	orig := append([]float32{}, a...)
	x := z.AnyF32("probe")
	QSortFloat32(a)
	for i := 1; i < n; i++ {
		z.Assert(a[i-1] <= a[i], "sorted ascending")
	}
	z.Assert(zzCount(orig, x) == zzCount(a, x), "sort preserves the multiset of values")
	z.Observe("a", a)
	z.Reach("sorted")
}

// The k-th selected value is the k-th order statistic: fewer than k values are
// smaller, at least k are not larger; the array stays a permutation.
//
//verif:harness Q01 n=1..4
//verif:thorough n=1..5
//verif:reach selected
func ZZ_Q01_select() {
	n := z.Param("n")
	a := zzInput(n)
	orig := append([]float32{}, a...)
	k := z.Choose("k", n) + 1
	x := z.AnyF32("probe")
	v := QSelectFloat32(a, k)
	lt, le := 0, 0
	for _, o := range orig {
		lt += z.IteInt(o < v, 1, 0)
		le += z.IteInt(o <= v, 1, 0)
	}
	z.Assert(z.And(lt < k, le >= k), "QSelect returns the k-th lowest value")
	z.Assert(zzCount(orig, x) == zzCount(a, x), "QSelect preserves the multiset of values")
	z.Observe("v", v)
	z.Reach("selected")
}

// The median of an odd number of values is the middle one; of an even number,
// it lies between the two middle ones.
//
//verif:harness Q01 n=1..4
//verif:thorough n=1..5
//verif:reach median
//verif:opt qtimeout=5000
func ZZ_Q01_median() {
	n := z.Param("n")
	a := zzInput(n)
	for i := range a {
		if n&1 == 0 {
			a[i] = z.FracF32("q", -100000, 100000, 4)
		}
	}
	s := zzSorted(a)
	m := QSelectMedianFloat32(a)
	if n&1 == 1 {
		z.Assert(m == s[n/2], "odd-length median is the middle value")
	} else {
		z.Assert(m == 0.5*(s[n/2-1]+s[n/2]), "even-length median is the mean of the two middle values")
	}
	z.Observe("m", m)
	z.Reach("median")
}

// zzSorted is the reference: a sorting network on copies
func zzSorted(a []float32) []float32 {
	s := append([]float32{}, a...)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			c := s[j] < s[j-1]
			s[j-1], s[j] = z.IteF32(c, s[j], s[j-1]), z.IteF32(c, s[j-1], s[j])
		}
	}
	return s
}

// The first quartile is the order statistic at a quarter of the length.
//
//verif:harness Q01 n=1..5
//verif:thorough n=1..6
//verif:reach quartile
func ZZ_Q01_quartile() {
	n := z.Param("n")
	a := zzInput(n)
	orig := append([]float32{}, a...)
	v := QSelectFirstQuartileFloat32(a)
	lt, le := 0, 0
	for _, o := range orig {
		lt += z.IteInt(o < v, 1, 0)
		le += z.IteInt(o <= v, 1, 0)
	}
	z.Assert(z.And(lt <= n/4, le > n/4), "first quartile is the value at a quarter of the sorted order")
	z.Reach("quartile")
}

// zzPattern gives n values between 0 and 2n in one of several orders
func zzPattern(pat, n int) []float32 {
	a := make([]float32, n)
	r := uint32(n*7 + 1)
	for i := range a {
		switch pat {
		case 0: // ascending
			a[i] = float32(2 * i)
		case 1: // descending
			a[i] = float32(2 * (n - i))
		case 2: // all equal
			a[i] = float32(n)
		case 3: // up and down
			a[i] = float32(2 * i)
			if i > n/2 {
				a[i] = float32(2 * (n - i))
			}
		case 4: // few different values
			a[i] = float32(i * 5 % 3)
		case 5: // any order
			r = r*1664525 + 1013904223
			a[i] = float32(int(r>>16) % (2 * n))
		case 6: // blocks
			a[i] = float32(i * 7 % 8 * n / 4)
		}
	}
	return a
}

// Larger arrays in typical orders, with one arbitrary value at any place.
//
//verif:harness Q01 op=0..3 n=6,7,9,13 pat=0..6
//verif:harness Q01 op=0..3 n=17,24,33 pat=0..6
//verif:harness Q01 op=0..3 n=70,129 pat=0,1,5
//verif:harness Q01 op=0..3 n=300 pat=5
//verif:thorough op=0..3 n=5..40 pat=0..6
//verif:reach large
//verif:opt tab=64 nomerge timeout=60
func ZZ_Q01_large() {
	n, op := z.Param("n"), z.Param("op")
	a := zzPattern(z.Param("pat"), n)
	p := 0
	if n > 13 {
		p = (z.Choose("place", 6)*n + n/2) / 6
	} else {
		p = z.Choose("place", n)
	}
	lo, hi := -1, 2*n+1
	if n > 13 {
		lo = []int{-1, n - 4, 2*n - 6}[z.Choose("part", 3)]
		hi = lo + 8
	}
	a[p] = z.SmallF32("v", lo, hi)
	orig := append([]float32{}, a...)
	k, even := 0, false
	var v float32
	switch op {
	case 0:
		QSortFloat32(a)
		for i := 1; i < n; i++ {
			z.Assert(a[i-1] <= a[i], "sorted ascending")
		}
	case 1:
		k = []int{1, 2, n/3 + 1, n / 2, n - 1, n}[z.Choose("k", 6)]
		v = QSelectFloat32(a, k)
	case 2:
		k, even = n/2+1, n&1 == 0
		v = QSelectMedianFloat32(a)
	case 3:
		k = n/4 + 1
		v = QSelectFirstQuartileFloat32(a)
	}
	if n <= 33 {
		x := z.AnyF32("probe")
		z.Assert(zzCount(orig, x) == zzCount(a, x), "the values are permuted")
	} else {
		z.Assert(zzCount(orig, orig[p]) == zzCount(a, orig[p]), "the values are permuted")
		for i := 0; i < n; i += n / 16 {
			z.Assert(zzCount(orig, orig[i]) == zzCount(a, orig[i]), "the values are permuted")
		}
	}
	if even {
		s := zzSorted(orig)
		z.Assert(v == 0.5*(s[n/2-1]+s[n/2]), "even-length median is the mean of the two middle values")
	} else if k > 0 {
		lt, le := 0, 0
		for _, o := range orig {
			lt += z.IteInt(o < v, 1, 0)
			le += z.IteInt(o <= v, 1, 0)
		}
		z.Assert(z.And(lt < k, le >= k), "the value selected is the one of its rank")
	}
	z.Observe("a", a)
	z.Reach("large")
}
