package star

import (
	"math"

	z "github.com/mlnoga/nightlight/internal/zzverif"
	"gonum.org/v1/gonum/optimize"
)

// zzModelMinimize replaces gonum's optimizer within the engine: of all it guarantees, only that the result
// is no worse than the start is used.
func zzModelMinimize(p optimize.Problem, initX []float64, settings *optimize.Settings, method optimize.Method) (*optimize.Result, error) {
	x := append([]float64{}, initX...)
	return &optimize.Result{Location: optimize.Location{X: x, F: p.Func(x)}, Status: optimize.MethodConverge}, nil
}

func zzClose(a, b, tol float32) bool {
	d := a - b
	return z.And(d < tol, d > -tol)
}

func zzFinite(t Transform2D) bool {
	ok := true
	for _, v := range []float32{t.A, t.B, t.C, t.D, t.E, t.F} {
		ok = z.And(ok, z.And(v >= -math.MaxFloat32, v <= math.MaxFloat32))
	}
	return ok
}

// Three points are mapped onto their partners, unless they are on a line.
//
//verif:harness S03 p1=0..8 vary=0,3
//verif:harness S03 p1=4,5 vary=1,2,4,5
//verif:thorough p1=0..8 vary=0..5
//verif:reach transform
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S03_transform() {
	at := func(k int) Point2D { return Point2D{zzGrid[k%3], float32(5 - k/3*2)} }
	p := []Point2D{at(z.Param("p1")), at(z.Choose("p2", 9)), at(z.Choose("p3", 9))}
	q := []Point2D{{2, 9}, {-3, 4}, {6, 1}}
	v := z.SmallF32("v", -31, 32)
	switch k := z.Param("vary"); k {
	case 0, 1, 2:
		q[k].X = v
	default:
		q[k-3].Y = v
	}
	det := (p[1].X-p[0].X)*(p[2].Y-p[0].Y) - (p[2].X-p[0].X)*(p[1].Y-p[0].Y)
	t, err := NewTransform2D(p[0], p[1], p[2], q[0], q[1], q[2])
	if det == 0 {
		z.Assert(err != nil, "points on a line are an error")
		z.Reach("transform")
		return
	}
	z.Assert(err == nil, "three points not on a line have a transform")
	for i := range p {
		g := t.Apply(p[i])
		z.Assert(zzClose(g.X, q[i].X, 0.01), "mapped onto its partner")
		z.Assert(zzClose(g.Y, q[i].Y, 0.01), "mapped onto its partner")
	}
	gs := t.ApplySlice(p)
	z.Assert(len(gs) == 3, "all points")
	for i := range p {
		g := t.Apply(p[i])
		z.Assert(z.And(z.SameF32(g.X, gs[i].X), z.SameF32(g.Y, gs[i].Y)), "all points alike")
	}
	z.Reach("transform")
}

// Any points: a transform with finite coefficients, or an error.
//
//verif:harness S03 n=0..2
//verif:reach degenerate
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S03_degenerate() {
	vals := []float32{0, 1, -2, 3e20, float32(math.Inf(1)), float32(math.NaN())}
	p := make([]Point2D, 6)
	for i := range p {
		p[i] = Point2D{float32(i * i), float32(i % 3)}
	}
	k := z.Choose("k", 12)
	l := z.Choose("l", 12)
	set := func(k int, v float32) {
		if k < 6 {
			p[k].X = v
		} else {
			p[k-6].Y = v
		}
	}
	switch z.Param("n") {
	case 0:
		set(k, vals[z.Choose("v", len(vals))])
		set(l, vals[z.Choose("w", len(vals))])
	case 1:
		set(k, z.SmallF32("v", -3, 60))
		set(l, 2)
	case 2:
		p[1], p[2] = p[0], Point2D{float32(k), 0}
		set(l, z.SmallF32("v", -3, 60))
	}
	t, err := NewTransform2D(p[0], p[1], p[2], p[3], p[4], p[5])
	z.Assert(z.Or(err != nil, zzFinite(t)), "finite coefficients or an error")
	z.Reach("degenerate")
}

// The inverse undoes the transform.
//
//verif:harness S03 kind=0..7 vary=0..5
//verif:reach invert
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S03_invert() {
	ts := []Transform2D{{1, 0, 0, 0, 1, 0}, {0, 1, 2, -1, 0, 3}, {2, 1, -3, 1, 1, 4}, {0.5, 0.25, 1, -0.5, 2, -2}, {-1, 0, 5, 0, 1, 0}, {3, 1, 0, 6, 2, 1}, {1, 2, 0, -2, 1, -7}, {0, 0, 1, 0, 0, 2}}
	t := ts[z.Param("kind")]
	v := z.SmallF32("v", -15, 16) * 0.25
	switch z.Param("vary") {
	case 0:
		t.A = v
	case 1:
		t.B = v
	case 2:
		t.C = v
	case 3:
		t.D = v
	case 4:
		t.E = v
	case 5:
		t.F = v
	}
	inv, err := t.Invert()
	det := t.A*t.E - t.B*t.D
	if det == 0 {
		z.Assert(err != nil, "no inverse is an error")
		z.Reach("invert")
		return
	}
	z.Assert(err == nil, "invertible")
	for i := 0; i < 4; i++ {
		p := Point2D{float32(i*i - 3), float32(5 - 3*i)}
		a, b := inv.Apply(t.Apply(p)), t.Apply(inv.Apply(p))
		z.Assert(z.And(zzClose(a.X, p.X, 0.01), zzClose(a.Y, p.Y, 0.01)), "the inverse undoes the transform")
		z.Assert(z.And(zzClose(b.X, p.X, 0.01), zzClose(b.Y, p.Y, 0.01)), "the transform undoes the inverse")
	}
	z.Reach("invert")
}

func zzStars(pts []Point2D) []Star {
	s := make([]Star, len(pts))
	for i, p := range pts {
		s[i] = Star{Index: int32(p.X) + 100*int32(p.Y), X: p.X, Y: p.Y, Mass: float32(100 - i), Value: 50, HFR: 2}
	}
	return s
}

var zzSky = []Point2D{{10, 20}, {50, 20}, {35, 75}, {80, 40}, {15, 62}, {64, 90}}

// Shifted frames align: every star is mapped onto its counterpart.
//
//verif:harness S03 n=3..5 k=5 map=0..3
//verif:harness S03 n=6 k=4,8 map=0,2
//verif:reach align
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S03_align() {
	n := z.Param("n")
	ref := append([]Point2D{}, zzSky[:n]...)
	pts := make([]Point2D, n)
	d := z.SmallF32("shift", -9, 10)
	naxisn := []int32{100, 100}
	for i, p := range ref {
		switch z.Param("map") {
		case 0:
			pts[i] = p
		case 1:
			pts[i] = Point2D{p.X + d, p.Y - 2}
		case 2: // a rotation
			pts[i] = Point2D{99 - p.Y, p.X + d}
		case 3: // half the size
			pts[i] = Point2D{p.X * 0.5, p.Y*0.5 + 4}
			naxisn = []int32{50, 50}
		}
	}
	if n == 3 && z.Param("map") == 0 { // any stars in the same row
		ref[2].Y = 70 + d
		pts[2].Y = ref[2].Y
	}
	a := NewAligner([]int32{100, 100}, zzStars(ref), int32(z.Param("k")))
	t, residual := a.Align(naxisn, zzStars(pts), 0)
	z.Assert(residual < 0.5, "shifted, rotated or scaled frames align")
	for i := range pts {
		g := t.Apply(pts[i])
		z.Assert(z.And(zzClose(g.X, ref[i].X, 1), zzClose(g.Y, ref[i].Y, 1)), "stars are mapped onto their counterparts")
	}
	if z.Param("map") == 0 {
		i := IdentityTransform2D()
		z.Assert(z.And(z.And(zzClose(t.A, i.A, 0.01), zzClose(t.B, i.B, 0.01)), z.And(zzClose(t.D, i.D, 0.01), zzClose(t.E, i.E, 0.01))), "identical stars: identity")
	}
	z.Reach("align")
}

// Many stars, some of which are missing in one of the frames.
//
//verif:harness S03 n=10,14 k=6,8 missing=0,1,3
//verif:thorough n=8,10,14,20 k=4..9 missing=0..3
//verif:reach many
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S03_many() {
	n, missing := z.Param("n"), z.Param("missing")
	var ref, pts []Point2D
	d := z.SmallF32("shift", 0, 7)
	for i := 0; i < n; i++ {
		p := Point2D{float32(50 + (i*i*173+i*311)%900), float32(50 + (i*i*97+i*457)%700)}
		if i%(n/2+1) != 2 || missing&1 == 0 {
			ref = append(ref, p)
		}
		if i%(n/2+1) != 4 || missing&2 == 0 {
			pts = append(pts, Point2D{p.X + 8*d, p.Y - 20})
		}
	}
	a := NewAligner([]int32{1000, 800}, zzStars(ref), int32(z.Param("k")))
	t, residual := a.Align([]int32{1000, 800}, zzStars(pts), 0)
	z.Assert(residual < 0.5, "shifted frames align")
	for _, p := range pts {
		g := t.Apply(p)
		z.Assert(z.And(zzClose(g.X, p.X-8*d, 1), zzClose(g.Y, p.Y+20, 1)), "stars are mapped onto their counterparts")
	}
	z.Reach("many")
}

// Star lists of any size and arrangement never crash; what is found is finite.
//
//verif:harness S03 ref=0..4 n=0..4 k=1,3,6
//verif:thorough ref=0..5 n=0..5 k=1..6
//verif:reach total
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S03_total() {
	mk := func(n int) []Point2D {
		kind := z.Choose("kind", 4)
		p := make([]Point2D, n)
		for i := range p {
			switch kind {
			case 0:
				p[i] = zzSky[i]
			case 1: // on a line
				p[i] = Point2D{float32(10 * i * i), float32(30 + 20*i*i)}
			case 2: // all the same
				p[i] = Point2D{5, 5}
			case 3:
				p[i] = Point2D{float32(i * i * 9), 7}
			}
		}
		if n > 0 {
			p[n-1].X = z.SmallF32("x", 0, 3) * 20
		}
		return p
	}
	a := NewAligner([]int32{100, 100}, zzStars(mk(z.Param("ref"))), int32(z.Param("k")))
	t, residual := a.Align([]int32{100, 100}, zzStars(mk(z.Param("n"))), 0)
	z.Assert(residual >= 0, "a residual")
	z.Assert(z.Or(residual > 1e30, zzFinite(t)), "a finite transform, or none")
	z.Reach("total")
}
