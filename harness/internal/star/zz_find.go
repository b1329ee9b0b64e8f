package star

import (
	"math"

	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzCheckStars: every star is real, within the image and distinct
func zzCheckStars(stars []Star, data []float32, w, radius int, threshold float32) {
	h := len(data) / w
	above := false
	for _, v := range data {
		above = z.Or(above, v > threshold)
	}
	z.Assert(z.Or(len(stars) == 0, above), "no stars without pixels above the threshold")
	for i, s := range stars {
		z.Assert(z.And(s.X > -0.001, s.X < float32(w-1)+0.001), "within the image")
		z.Assert(z.And(s.Y > -0.001, s.Y < float32(h-1)+0.001), "within the image")
		z.Assert(s.Index >= 0 && int(s.Index) < len(data), "within the image")
		dx, dy := s.X-float32(int(s.Index)%w), s.Y-float32(int(s.Index)/w)
		z.Assert(z.And(z.And(dx > -0.52, dx < 0.52), z.And(dy > -0.52, dy < 0.52)), "the index is that of the pixel at the coordinates")
		z.Assert(z.SameF32(s.Value, data[s.Index]), "the value is that of the pixel")
		z.Assert(z.And(s.Mass > 0, s.Mass <= math.MaxFloat32), "positive mass")
		z.Assert(z.And(s.HFR >= 0, s.HFR <= float32(radius)), "half flux radius within the radius")
		for _, o := range stars[:i] {
			a, b := s.X-o.X, s.Y-o.Y
			z.Assert(a*a+b*b > float32(radius*radius), "stars are apart")
		}
	}
}

// Background and a few bright pixels at any place, one with any brightness.
//
//verif:harness S01 w=3 h=3 n=2 radius=1,2 bp=0,1
//verif:harness S01 w=5 h=2 n=2 radius=1,2 bp=0
//verif:harness S01 w=1,2 h=1,4 n=2 radius=1,2 bp=0
//verif:harness S01 w=2 h=2 n=3 radius=1 bp=0
//verif:thorough w=1..7 h=1..6 n=1..3 radius=1..4 bp=0,1
//verif:reach find
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S01_find() {
	w, h, r := z.Param("w"), z.Param("h"), z.Param("radius")
	data := make([]float32, w*h)
	for i := range data {
		data[i] = 10
	}
	for i := 1; i < z.Param("n"); i++ {
		data[z.Choose("bright", w*h)] = float32(40 + 20*i)
	}
	data[z.Choose("pixel", w*h)] = z.SmallF32("value", 0, 31) * 8
	src := append([]float32{}, data...)
	stars, shift, hfr := FindStars(data, int32(w), 10, 5, 2, float32(z.Param("bp"))*3, 1.5, int32(r), nil)
	z.Assert(shift >= 0, "shifts")
	for i := range src {
		z.Assert(data[i] == src[i], "the image stays as it is")
	}
	zzCheckStars(stars, data, w, r, 20)
	sum := float32(0)
	for _, s := range stars {
		sum += s.HFR
	}
	if len(stars) == 0 {
		z.Assert(hfr == 0, "no stars: no half flux radius")
	} else {
		z.Assert(zzClose(hfr*float32(len(stars)), sum, 0.01), "the mean half flux radius")
	}
	z.Reach("find")
}

// A single round star is found at its place, with its mass, wherever it is.
//
//verif:harness S01 w=9 h=7 radius=2,3
//verif:thorough w=7..12 h=7..9 radius=2,3
//verif:reach single
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S01_single() {
	w, h, r := z.Param("w"), z.Param("h"), z.Param("radius")
	data := make([]float32, w*h)
	for i := range data {
		data[i] = 10
	}
	cx, cy := 1+z.Choose("x", w-2), 1+z.Choose("y", h-2)
	v := z.SmallF32("value", 15, 78) * 4
	for dy := -1; dy <= 1; dy++ {
		for dx := -1; dx <= 1; dx++ {
			f := []float32{1, 0.5, 0.25}[dx*dx+dy*dy]
			data[(cy+dy)*w+cx+dx] = 10 + v*f
		}
	}
	stars, _, hfr := FindStars(data, int32(w), 10, 5, 2, 0, 1.5, int32(r), nil)
	z.Assert(len(stars) == 1, "one star")
	s := stars[0]
	z.Assert(z.And(zzClose(s.X, float32(cx), 0.01), zzClose(s.Y, float32(cy), 0.01)), "at its place")
	z.Assert(int(s.Index) == cy*w+cx, "at its place")
	z.Assert(zzClose(s.Mass, 4*v, 1), "with its mass")
	z.Assert(zzClose(s.HFR, (2+1.41421)/4, 0.01), "with its half flux radius")
	z.Assert(z.SameF32(hfr, s.HFR), "with its half flux radius")
	z.Reach("single")
}

// Several stars are found at their places, the brightest first, one of them with any brightness.
//
//verif:harness S01 w=30,40 h=24 n=3,5 bp=0,1
//verif:thorough w=24,30,40,64 h=24,33 n=1..7 bp=0,1
//verif:reach field
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S01_field() {
	w, h, n := z.Param("w"), z.Param("h"), z.Param("n")
	data := make([]float32, w*h)
	for i := range data {
		data[i] = 10
	}
	at := [][2]int{{1, 1}, {w - 2, h - 2}, {w / 2, h / 2}, {w - 2, 1}, {1, h - 2}, {w / 3, 9}, {w - 9, h / 2}}[:n]
	mass := make([]float32, n)
	sel := z.Choose("star", n)
	for k, p := range at {
		v := float32(70 + 30*((k*3)%n))
		if k == sel {
			v = z.SmallF32("value", 15, 78) * 4
			z.Assume(v >= 60)
		}
		mass[k] = 4 * v
		for dy := -1; dy <= 1; dy++ {
			for dx := -1; dx <= 1; dx++ {
				data[(p[1]+dy)*w+p[0]+dx] = 10 + v*[]float32{1, 0.5, 0.25}[dx*dx+dy*dy]
			}
		}
	}
	stars, _, hfr := FindStars(data, int32(w), 10, 5, 2, 0, 1.5, 4, nil)
	z.Assert(len(stars) == n, "every star is found")
	z.Assert(zzClose(hfr, (2+1.41421)/4, 0.01), "the mean half flux radius")
	for k, p := range at {
		found := false
		for _, s := range stars {
			found = z.Or(found, z.And(z.And(zzClose(s.X, float32(p[0]), 0.01), zzClose(s.Y, float32(p[1]), 0.01)),
				z.And(int(s.Index) == p[1]*w+p[0], zzClose(s.Mass, mass[k], 1))))
		}
		z.Assert(found, "every star is found at its place, with its mass")
	}
	for i := 1; i < len(stars); i++ {
		z.Assert(stars[i-1].Mass >= stars[i].Mass, "the brightest stars come first")
	}
	z.Reach("field")
}

// Images with invalid pixels.
//
//verif:harness S01 w=3 h=3 radius=1,2 bp=0,1
//verif:thorough w=1..6 h=1..5 radius=1,2,3 bp=0,1
//verif:reach invalid
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S01_invalid() {
	w, h, r := z.Param("w"), z.Param("h"), z.Param("radius")
	data := make([]float32, w*h)
	for i := range data {
		data[i] = 10
	}
	odd := []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), -1e9}
	data[z.Choose("odd", w*h)] = odd[z.Choose("kind", len(odd))]
	data[z.Choose("pixel", w*h)] = z.SmallF32("value", 0, 15) * 16
	stars, _, _ := FindStars(data, int32(w), 10, 5, 2, float32(z.Param("bp"))*3, 1.5, int32(r), nil)
	zzCheckStars(stars, data, w, r, 20)
	z.Reach("invalid")
}

// Stars in images larger than the cells of the overlap filter.
//
//verif:harness S01 w=260,300,511,512,513 h=1 radius=16,40 vert=0
//verif:harness S01 w=1 h=258,512 radius=16 vert=1
//verif:reach wide
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S01_wide() {
	w, h, r := z.Param("w"), z.Param("h"), int32(z.Param("radius"))
	n := w * h
	at := func(k int) (x, y float32) {
		if z.Param("vert") == 1 {
			return 0, float32(k)
		}
		return float32(k), 0
	}
	pos := []int{0, 1, 17, 41, 239, 254, 255, 256, 257, n/2 - 1, n - 257, n - 41, n - 17, n - 2, n - 1}
	a, b := pos[z.Choose("a", len(pos))], pos[z.Choose("b", len(pos))]
	z.Assume(a != b && a >= 0 && b >= 0 && a < n && b < n)
	f := z.SmallF32("frac", -31, 31) / 64
	x, y := at(a)
	x2, y2 := at(b)
	if z.Param("vert") == 1 {
		y2 += f
	} else {
		x2 += f
	}
	z.Assume(z.And(z.And(x2 >= 0, y2 >= 0), z.And(x2 <= float32(w-1), y2 <= float32(h-1))))
	in := []Star{{Index: int32(a), X: x, Y: y, Mass: 9}, {Index: int32(b), X: x2, Y: y2, Mass: 8}}
	res := filterOutOverlaps(append([]Star{}, in...), int32(w), int32(h), r)
	d := (x-x2)*(x-x2) + (y-y2)*(y-y2)
	z.Assert(len(res) >= 1 && res[0] == in[0], "the brighter star stays")
	if len(res) == 1 {
		z.Assert(d < float32(r*r)+0.5, "only stars within the radius are removed")
	} else {
		z.Assert(len(res) == 2 && res[1].Index == in[1].Index, "the fainter star stays as it is")
		z.Assert(d > float32(r*r), "stars within the radius are removed")
	}
	z.Reach("wide")
}

// Stars at the ends of neighbouring rows are far apart, and both are found.
//
//verif:harness S01 w=13,21 h=9 radius=3,4
//verif:thorough w=13,17,21,40 h=9,16 radius=2,3,4
//verif:reach edges
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S01_edges() {
	w, h, r := z.Param("w"), z.Param("h"), z.Param("radius")
	data := make([]float32, w*h)
	for i := range data {
		data[i] = 10
	}
	y := 2 + z.Choose("row", 3)
	at := [][2]int{{w - 2, y}, {1, y - 1 + z.Choose("step", 4)}}
	v := []float32{60, 60}
	sel := z.Choose("star", 2)
	v[sel] = 60 + z.SmallF32("value", 0, 60)*8
	for k, p := range at {
		for dy := -1; dy <= 1; dy++ {
			for dx := -1; dx <= 1; dx++ {
				data[(p[1]+dy)*w+p[0]+dx] = 10 + v[k]*[]float32{1, 0.5, 0.25}[dx*dx+dy*dy]
			}
		}
	}
	stars, _, _ := FindStars(data, int32(w), 10, 5, 2, 0, 1.5, int32(r), nil)
	z.Assert(len(stars) == 2, "both stars are found")
	for k, p := range at {
		found := false
		for _, s := range stars {
			found = z.Or(found, z.And(int(s.Index) == p[1]*w+p[0], zzClose(s.Mass, 4*v[k], 1)))
		}
		z.Assert(found, "both stars are found at their places")
	}
	z.Reach("edges")
}
