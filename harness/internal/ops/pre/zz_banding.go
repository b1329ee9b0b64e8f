package pre

import (
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzDeband applies the operator to the lines of the image: rows, or columns of the transposed image
func zzDeband(vert bool, lines [][]float32, pct float32, window int, sigma float32) [][]float32 {
	stats.LSEstimator = stats.LSEMeanStdDev
	n, l := len(lines), len(lines[0])
	var f *fits.Image
	if vert {
		f = zzImage(1, n, l)
	} else {
		f = zzImage(1, l, n)
	}
	at := func(i, j int) int {
		if vert {
			return j*n + i
		}
		return i*l + j
	}
	for i := range lines {
		for j, v := range lines[i] {
			f.Data[at(i, j)] = v
		}
	}
	var g *fits.Image
	var err error
	if vert {
		g, err = NewOpDebandVert(pct, int32(window), sigma).Apply(f, zzContext())
	} else {
		g, err = NewOpDebandHoriz(pct, int32(window), sigma).Apply(f, zzContext())
	}
	z.Assert(err == nil && g == f && len(f.Data) == n*l, "debanded")
	res := make([][]float32, n)
	for i := range res {
		res[i] = make([]float32, l)
		for j := range res[i] {
			res[i][j] = f.Data[at(i, j)]
		}
	}
	return res
}

func zzNear(a, b float32) bool {
	d := a - b
	return z.And(d < 0.01, d > -0.01)
}

// Lines which differ by a factor: those with a full window get the median of the window, as do all if there
// is no banding.
//
//verif:harness P05 vert=0,1 n=1..6 window=1..4 pct=50
//verif:harness P05 vert=0,1 n=5 window=3 pct=1,20,99
//verif:harness P05 vert=0,1 n=12,19 window=7,8 pct=50
//verif:thorough vert=0,1 n=1..9 window=1..9 pct=1,50,99
//verif:reach lines
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P05_lines() {
	n, window := z.Param("n"), z.Param("window")
	pattern := []float32{4, 2, 8, 6}
	sel := z.Choose("line", n)
	b := make([]float32, n)
	lines := make([][]float32, n)
	for i := range lines {
		b[i] = float32(8 + i*i%5*4)
		if i == sel {
			b[i] = z.SmallF32("level", 1, 60)
		}
		lines[i] = make([]float32, len(pattern))
		for j, p := range pattern {
			lines[i][j] = p * b[i]
		}
	}
	res := zzDeband(z.Param("vert") == 1, lines, float32(z.Param("pct")), window, 0)
	if window > n {
		window = n
	}
	one, level := true, true
	for i := range lines {
		for j := range pattern {
			d := res[i][j]*pattern[0] - res[i][0]*pattern[j]
			one = z.And(one, z.And(d < 0.1, d > -0.1))
		}
		lo := i - window/2
		if lo >= 0 && lo+window <= n {
			m := zzMedian(b[lo : lo+window])
			for j, p := range pattern {
				level = z.And(level, zzNear(res[i][j], m*p))
			}
		}
	}
	z.Assert(one, "one factor for a line")
	z.Assert(level, "the level of the line becomes the median of the levels around")
	z.Reach("lines")
}

// Lines without banding stay as they are; stars above the threshold do not count.
//
//verif:harness P05 vert=0,1 n=1,2,3,5 len=4 window=1,2,3,5 pct=50,75
//verif:harness P05 vert=0,1 n=9 len=12 window=4,5 pct=30,75
//verif:reach stars
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P05_stars() {
	n, l := z.Param("n"), z.Param("len")
	lines := make([][]float32, n)
	for i := range lines {
		lines[i] = make([]float32, l)
		for j := range lines[i] {
			lines[i][j] = 10
		}
	}
	i, j := z.Choose("line", n), z.Choose("place", l)
	lines[i][j] = z.SmallF32("star", 100, 160)
	star := lines[i][j]
	res := zzDeband(z.Param("vert") == 1, lines, float32(z.Param("pct")), z.Param("window"), 1)
	for a := range res {
		for b := range res[a] {
			if a == i && b == j {
				z.Assert(zzNear(res[a][b], star), "stars stay as they are")
			} else {
				z.Assert(zzNear(res[a][b], 10), "lines without banding stay as they are")
			}
		}
	}
	z.Reach("stars")
}

var zzLevels = []float32{0, 1, -3, 10, 4000}

// Any image stays finite, and all pixels of a line are multiplied by the same factor.
//
//verif:harness P05 vert=0,1 n=1,2,3 len=1 window=1..3 pct=1,99 sigma=0,1
//verif:harness P05 vert=0,1 n=1,2 len=2 window=1,2 pct=1,50,99 sigma=0,1
//verif:thorough vert=0,1 n=3 len=2 window=1..3 pct=1,50,99 sigma=0,1
//verif:harness P05 vert=0,1 n=4 len=1 window=4 pct=50 sigma=-1
//verif:reach finite
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P05_finite() {
	n, l := z.Param("n"), z.Param("len")
	lines := make([][]float32, n)
	for i := range lines {
		lines[i] = make([]float32, l)
		for j := range lines[i] {
			if i+j == 0 {
				lines[i][j] = z.SmallF32("value", -10, 50)
			} else {
				lines[i][j] = zzLevels[z.Choose("level", len(zzLevels))]
			}
		}
	}
	src := make([][]float32, n)
	for i := range src {
		src[i] = zzCopy(lines[i])
	}
	res := zzDeband(z.Param("vert") == 1, lines, float32(z.Param("pct")), z.Param("window"), float32(z.Param("sigma")))
	for i := range res {
		for j := range res[i] {
			v := res[i][j]
			z.Assert(z.And(v >= -math.MaxFloat32, v <= math.MaxFloat32), "finite values stay finite")
			a, b := v*src[i][0], res[i][0]*src[i][j]
			d := a - b
			e := 0.001 * (float32(math.Abs(float64(a))) + float32(math.Abs(float64(b))) + 1)
			z.Assert(z.And(d <= e, d >= -e), "one factor for a line")
		}
	}
	z.Reach("finite")
}

// Settings without effect.
//
//verif:harness P05 vert=0,1 setting=0..5
//verif:reach inactive
//verif:opt timeout=60
func ZZ_P05_inactive() {
	pct, window := float32(50), 3
	switch z.Param("setting") {
	case 0:
		pct = 0
	case 1:
		pct = -1
	case 2:
		pct = 100
	case 3:
		pct = 101
	case 4:
		window = 0
	case 5:
		window = -2
	}
	lines := [][]float32{{1, 2}, {3, 4}, {0, 0}}
	for i := range lines {
		for j := range lines[i] {
			lines[i][j] = z.AnyF32("pixel")
		}
	}
	res := zzDeband(z.Param("vert") == 1, lines, pct, window, 1)
	for i := range lines {
		zzSame(res[i], lines[i], "settings without effect change nothing")
	}
	z.Reach("inactive")
}

// The level of a line is the percentile of its pixels up to the threshold, and only of these.
//
//verif:harness P05 vert=0,1 n=5 window=3 stars=1..3
//verif:harness P05 vert=0,1 n=4 window=2 stars=3
//verif:reach level
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P05_level() {
	n, window := z.Param("n"), z.Param("window")
	// the values around the median are twice in the line, for any way of rounding the rank
	plain := []float32{15, 12, 8, 12, 9, 14, 10, 13}
	special := [][]float32{{0, 12, 8, 10, 10, 15, 14, 9}, {0, 10, 0, 15, 14, 10, 8, 9}, {0, 10, 0, 15, 14, 0, 10, 8}}[z.Param("stars")-1]
	at := z.Choose("line", n)
	star := z.SmallF32("star", 1000, 1060)
	lines, level := make([][]float32, n), make([]float32, n)
	for i := range lines {
		lines[i] = make([]float32, 8)
		b := float32(1 + i*i%3)
		level[i] = 12 * b
		if i == at {
			level[i] = 10 * b
		}
		for j := range lines[i] {
			lines[i][j] = plain[j] * b
			if i == at && j < len(special) {
				lines[i][j] = special[j] * b
				if special[j] == 0 {
					lines[i][j] = star
				}
			}
		}
	}
	src := make([][]float32, n)
	for i := range src {
		src[i] = zzCopy(lines[i])
	}
	res := zzDeband(z.Param("vert") == 1, lines, 50, window, 1)
	for i := range lines {
		lo := i - window/2
		if lo >= 0 && lo+window <= n {
			m := zzMedian(level[lo : lo+window])
			for j, v := range src[i] {
				d := res[i][j] - v*m/level[i]
				z.Assert(z.And(d < 0.01, d > -0.01), "the level of a line is the percentile of its pixels without stars")
			}
		}
	}
	z.Reach("level")
}

// Columns are treated as rows are, up to the edges of the image.
//
//verif:harness P05 n=3,7 window=2,3,5 pct=50 sigma=0,2
//verif:harness P05 n=11 window=4,7 pct=30 sigma=0
//verif:thorough n=1..13 window=1..13 pct=30,50,75 sigma=0,2
//verif:reach directions
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P05_directions() {
	n, window := z.Param("n"), z.Param("window")
	lines := make([][]float32, n)
	for i := range lines {
		lines[i] = make([]float32, 5)
		for j := range lines[i] {
			lines[i][j] = float32(20 + (i*37+i*i*11+j)%23)
		}
	}
	lines[z.Choose("line", n)][2] = z.SmallF32("value", 10, 60)
	pct, sigma := float32(z.Param("pct")), float32(z.Param("sigma"))
	a, b := zzDeband(false, lines, pct, window, sigma), zzDeband(true, lines, pct, window, sigma)
	ok := true
	for i := range lines {
		for j := range lines[i] {
			ok = z.And(ok, zzNear(a[i][j], b[i][j]))
		}
	}
	z.Assert(ok, "rows and columns are treated alike")
	z.Reach("directions")
}
