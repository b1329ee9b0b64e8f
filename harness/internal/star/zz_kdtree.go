package star

import (
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// Coordinates with ties, gaps and negative values
var zzGrid = []float32{0, 3, 1, 3, -2, 7, 2}

func zzScatter(seed, i, n int) (x, y, w float32) {
	switch seed {
	case 0: // on a line
		return float32(2 * i), 3, 1
	case 1:
		return 3, float32(7 - i), float32(i % 2)
	case 2: // a diagonal
		return float32(i), float32(i), float32(-i)
	case 3: // duplicates
		return float32(i % 2 * 5), float32(i % 3 * 2), float32(i % 2)
	case 4:
		return 2, 2, 2
	}
	return float32((i*i*seed + 3*i + seed) % 8), float32((i*seed*5 + i*i*i) % 7), float32((i*3 + seed*i*i) % 6)
}

// The nearest neighbor is a point of the set, and none is nearer, for every query.
//
//verif:harness S02 n=1,2,3,4,6,9 seed=0,2,3,4,6,8 unit=0
//verif:harness S02 n=3,6,13 seed=2,6,7,9 unit=3
//verif:harness S02 n=17 seed=5,7,9 unit=0
//verif:thorough n=1..20 seed=0..30 unit=0,3
//verif:reach nearest2
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S02_nearest2() {
	n := z.Param("n")
	t := make(KDTree2, n)
	sel := z.Choose("sel", n)
	free := z.Bool("free")
	for i := range t {
		x, y, _ := zzScatter(z.Param("seed"), i, n)
		t[i] = Point2D{x, y}
	}
	q := Point2D{}
	if free { // a point at any place along the line of the query
		t[sel].X = z.SmallF32("x", -8, 7) + 0.5
		q = Point2D{float32(z.Choose("q", 4) * 2), float32(z.Choose("r", 3) * 3)}
	} else {
		q = Point2D{z.SmallF32("qx", -1, 8) * 0.5, float32(sel) * 0.75}
	}
	if z.Param("unit") == 3 { // closer than one
		for i := range t {
			t[i].X, t[i].Y = t[i].X*0.125, t[i].Y*0.125
		}
		q.X, q.Y = q.X*0.125, q.Y*0.125
	}
	pts := append(KDTree2{}, t...)
	t.Make()
	zzPermuted2(pts, t)
	got, d := t.NearestNeighbor(q)
	z.Assert(d == Dist2DSquared(q, got), "the distance is that of the point")
	in := false
	for _, p := range pts {
		in = z.Or(in, z.And(p.X == got.X, p.Y == got.Y))
		z.Assert(Dist2DSquared(q, p) >= d, "no point is nearer")
	}
	z.Assert(in, "the nearest neighbor is a point of the set")
	z.Reach("nearest2")
}

func zzPermuted2(a, b KDTree2) {
	z.Assert(len(a) == len(b), "all points are kept")
	for _, p := range a {
		na, nb := 0, 0
		for i := range a {
			na += z.IteInt(z.And(a[i].X == p.X, a[i].Y == p.Y), 1, 0)
			nb += z.IteInt(z.And(b[i].X == p.X, b[i].Y == p.Y), 1, 0)
		}
		z.Assert(na == nb, "all points are kept")
	}
}

// The same for sets of points at any places of a grid.
//
//verif:harness S02 n=2 grid=3
//verif:harness S02 n=3 grid=2
//verif:thorough n=4 grid=2
//verif:thorough n=3 grid=4
//verif:thorough n=4 grid=3
//verif:reach any2
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S02_any2() {
	n, g := z.Param("n"), z.Param("grid")
	t := make(KDTree2, n)
	for i := range t {
		k := z.Choose("place", g*g)
		t[i] = Point2D{zzGrid[k%g], zzGrid[k/g]}
	}
	q := Point2D{z.SmallF32("qx", -3, 4), z.SmallF32("qy", -2, 5) * 0.5}
	pts := append(KDTree2{}, t...)
	t.Make()
	zzPermuted2(pts, t)
	got, d := t.NearestNeighbor(q)
	z.Assert(d == Dist2DSquared(q, got), "the distance is that of the point")
	in := false
	for _, p := range pts {
		in = z.Or(in, z.And(p.X == got.X, p.Y == got.Y))
		z.Assert(Dist2DSquared(q, p) >= d, "no point is nearer")
	}
	z.Assert(in, "the nearest neighbor is a point of the set")
	z.Reach("any2")
}

// Three dimensions, with the payload of the point.
//
//verif:harness S02 n=1,2,3,4,5 seed=0,1,3,6 unit=0
//verif:harness S02 n=7,8 seed=5,7 unit=0
//verif:harness S02 n=5,9,12 seed=5,8,9 unit=3
//verif:harness S02 n=16,19 seed=7,8 unit=0
//verif:thorough n=1..31 seed=0..30 unit=0,3
//verif:reach nearest3
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S02_nearest3() {
	n := z.Param("n")
	t := make(KDTree3P, n)
	for i := range t {
		x, y, w := zzScatter(z.Param("seed"), i, n)
		t[i] = Point3DPayload{Point3D{x, y, w}, interface{}(int32(i))}
	}
	q := Point3D{float32(z.Choose("q", 4)*2 - 1), float32(z.Choose("r", 3)) * 2.5, float32(z.Choose("s", 3) * 2)}
	sel := z.Choose("axis", 3)
	v := z.SmallF32("v", -2, 17) * 0.5
	switch sel {
	case 0:
		q.X = v
	case 1:
		q.Y = v
	case 2:
		q.Z = v
	}
	if z.Param("unit") == 3 { // closer than one
		for i := range t {
			t[i].X, t[i].Y, t[i].Z = t[i].X*0.125, t[i].Y*0.125, t[i].Z*0.125
		}
		q.X, q.Y, q.Z = q.X*0.125, q.Y*0.125, q.Z*0.125
	}
	pts := append(KDTree3P{}, t...)
	t.Make()
	seen := make([]bool, n)
	for _, p := range t {
		i := p.Payload.(int32)
		z.Assert(!seen[i] && p.Point3D == pts[i].Point3D, "all points are kept")
		seen[i] = true
	}
	got, d := t.NearestNeighbor(q)
	z.Assert(d == Dist3DSquared(q, got.Point3D), "the distance is that of the point")
	z.Assert(got.Point3D == pts[got.Payload.(int32)].Point3D, "the payload is that of the point")
	for _, p := range pts {
		z.Assert(Dist3DSquared(q, p.Point3D) >= d, "no point is nearer")
	}
	z.Reach("nearest3")
}

// Sets of points at any places in space.
//
//verif:harness S02 n=2 grid=2
//verif:thorough n=3 grid=2
//verif:thorough n=4 grid=2
//verif:thorough n=2,3 grid=3
//verif:reach any3
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S02_any3() {
	n, g := z.Param("n"), z.Param("grid")
	t := make(KDTree3P, n)
	for i := range t {
		k := z.Choose("place", g*g*g)
		t[i] = Point3DPayload{Point3D{zzGrid[k%g], zzGrid[k/g%g], zzGrid[k/g/g]}, i}
	}
	q := Point3D{z.SmallF32("qx", -1, 2), z.SmallF32("qy", 0, 3), z.SmallF32("qz", -1, 2)}
	pts := append(KDTree3P{}, t...)
	t.Make()
	got, d := t.NearestNeighbor(q)
	z.Assert(d == Dist3DSquared(q, got.Point3D), "the distance is that of the point")
	z.Assert(got.Point3D == pts[got.Payload.(int)].Point3D, "the payload is that of the point")
	for _, p := range pts {
		z.Assert(Dist3DSquared(q, p.Point3D) >= d, "no point is nearer")
	}
	z.Reach("any3")
}

// Trees of many points, as for the stars of an image.
//
//verif:harness S02 dim=2,3 n=12,24,33,64,100 scale=1,40 seed=1
//verif:harness S02 dim=2,3 n=47,65 scale=40 seed=2,3
//verif:thorough dim=2,3 n=10..150 scale=1,40 seed=1..4
//verif:reach many
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S02_many() {
	n, scale := z.Param("n"), float32(z.Param("scale"))
	r := uint32(z.Param("seed")*771 + n)
	next := func() float32 {
		r = r*1664525 + 1013904223
		return float32(int(r>>20)%24) * 0.5 * scale
	}
	pts := make([]Point3D, n)
	for i := range pts {
		pts[i] = Point3D{next(), next(), next()}
	}
	q := Point3D{next(), next(), next()}
	v := (z.SmallF32("v", 0, 15) + float32(z.Choose("part", 3)*16) - 12) * 0.5 * scale
	switch z.Choose("axis", z.Param("dim")) {
	case 0:
		q.X = v
	case 1:
		q.Y = v
	case 2:
		q.Z = v
	}
	least := true
	if z.Param("dim") == 2 {
		t := make(KDTree2, n)
		for i, p := range pts {
			t[i] = Point2D{p.X, p.Y}
		}
		t.Make()
		got, d := t.NearestNeighbor(Point2D{q.X, q.Y})
		z.Assert(d == Dist2DSquared(Point2D{q.X, q.Y}, got), "the distance is that of the point")
		in := false
		for _, p := range pts {
			in = z.Or(in, z.And(p.X == got.X, p.Y == got.Y))
			least = z.And(least, Dist2DSquared(Point2D{q.X, q.Y}, Point2D{p.X, p.Y}) >= d)
		}
		z.Assert(in, "the nearest neighbor is a point of the set")
	} else {
		t := make(KDTree3P, n)
		for i, p := range pts {
			t[i] = Point3DPayload{p, i}
		}
		t.Make()
		seen := make([]bool, n)
		for _, p := range t {
			i := p.Payload.(int)
			z.Assert(!seen[i] && p.Point3D == pts[i], "all points are kept")
			seen[i] = true
		}
		got, d := t.NearestNeighbor(q)
		z.Assert(d == Dist3DSquared(q, got.Point3D), "the distance is that of the point")
		z.Assert(got.Point3D == pts[got.Payload.(int)], "the payload is that of the point")
		for _, p := range pts {
			least = z.And(least, Dist3DSquared(q, p) >= d)
		}
	}
	z.Assert(least, "no point is nearer")
	z.Reach("many")
}
