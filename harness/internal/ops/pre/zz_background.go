package pre

import (
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/star"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzExtract(f *fits.Image, grid, clip int) {
	g, err := NewOpBackExtract(int32(grid), 4, 1.5, int32(clip), "").Apply(f, zzContext())
	z.Assert(err == nil && g == f, "background extracted")
}

// A constant image has a constant background, whatever the grid and the number of clipped cells.
//
//verif:harness P06 w=1..5 h=1,2,5 grid=1..4,11 clip=0,1,9
//verif:harness P06 w=6,7,8 h=6,7 grid=2,3,4 clip=0,2
//verif:harness P06 w=10,13 h=4,10 grid=3,4,5 clip=0
//verif:harness P06 w=4,17 h=10,11 grid=3,4 clip=0
//verif:harness P06 w=24,40 h=19,30 grid=7,8,10 clip=0,2
//verif:thorough w=1..9 h=1..9 grid=1..10,30 clip=0..4,30
//verif:reach constant
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P06_constant() {
	f := zzImage(1, z.Param("w"), z.Param("h"))
	v := z.SmallF32("level", -10, 50)
	for i := range f.Data {
		f.Data[i] = v
	}
	zzExtract(f, z.Param("grid"), z.Param("clip"))
	ok := true
	for _, d := range f.Data {
		ok = z.And(ok, zzNear(d, 0))
	}
	z.Assert(ok, "the background of a constant image is constant")
	z.Reach("constant")
}

// zzScene: a gradient with structure, one pixel arbitrary
func zzScene(w, h int) *fits.Image {
	f := zzImage(1, w, h)
	for i := range f.Data {
		f.Data[i] = float32(20 + i%w*3 + i/w*5 + i*i%7)
	}
	f.Data[z.Place(w, h)] = z.SmallF32("value", 0, 40)
	return f
}

// Subtracting the background is subtracting its rendering, it does not depend on the offset of the image, and
// commutes with exchanging rows and columns.
//
//verif:harness P06 w=2,3 h=2,3 grid=1,2,3 clip=0
//verif:harness P06 w=4 h=3,4 grid=2 clip=0
//verif:harness P06 w=5 h=4 grid=2 clip=0,1
//verif:harness P06 w=16,20 h=15 grid=5,8 clip=0
//verif:thorough w=1..8 h=1..8 grid=1..5 clip=0..2
//verif:reach render
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P06_render() {
	w, h, grid, clip := z.Param("w"), z.Param("h"), z.Param("grid"), z.Param("clip")
	f := zzScene(w, h)
	src := zzCopy(f.Data)
	b := NewBackground(f.Data, int32(w), int32(grid), 1.5, int32(clip), nil, 4, &z.LogSink{})
	zzSame(f.Data, src, "fitting does not change the image")
	r := b.Render()
	z.Assert(len(r) == len(src), "size of the rendering")
	zzExtract(f, grid, clip)
	ok := true
	for i := range src {
		want := src[i] - r[i]
		ok = z.And(ok, zzNear(f.Data[i], want))
	}
	z.Assert(ok, "subtracting is subtracting the rendering")
	up, tr := zzImage(1, w, h), zzImage(1, h, w)
	for i, v := range src {
		up.Data[i] = v + 64
		tr.Data[i%w*h+i/w] = v
	}
	zzExtract(up, grid, clip)
	if clip == 0 {
		zzExtract(tr, grid, clip)
	}
	off, alike := true, true
	for i := range src {
		off = z.And(off, zzNear(up.Data[i], f.Data[i]))
		if clip == 0 {
			alike = z.And(alike, zzNear(tr.Data[i%w*h+i/w], f.Data[i]))
		}
	}
	z.Assert(off, "an offset of the image is part of the background")
	z.Assert(alike, "rows and columns are treated alike")
	z.Reach("render")
}

// The rendering interpolates between the centers of the cells.
//
//verif:harness P06 cx=1..3 cy=1..3 s=2,4
//verif:thorough cx=1..5 cy=1..5 s=2,4,6
//verif:reach interpolate
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P06_interpolate() {
	cx, cy, s := z.Param("cx"), z.Param("cy"), z.Param("s")
	w, h := cx*s, cy*s
	b := Background{Width: int32(w), Height: int32(h), GridSpacing: int32(s), GridSpacingX: float32(s), GridSpacingY: float32(s),
		GridCellsX: int32(cx), GridCellsY: int32(cy), GridCells: int32(cx * cy), Cells: make([]float32, cx*cy)}
	for i := range b.Cells {
		b.Cells[i] = float32(10 + i*i*3%17)
	}
	b.Cells[z.Choose("cell", cx*cy)] = z.SmallF32("value", 0, 40)
	r := b.Render()
	z.Assert(len(r) == w*h, "size of the rendering")
	pos := func(p, n int) (int, float32) {
		if n == 1 {
			return 0, 0
		}
		k := (p+s/2)/s - 1
		if k < 0 {
			k = 0
		}
		if k > n-2 {
			k = n - 2
		}
		return k, (float32(p) - (float32(k)+0.5)*float32(s)) / float32(s)
	}
	for i := range r {
		kx, fx := pos(i%w, cx)
		ky, fy := pos(i/w, cy)
		dx, dy := 1, cx
		if cx == 1 {
			dx = 0
		}
		if cy == 1 {
			dy = 0
		}
		c := b.Cells
		lo := c[ky*cx+kx]*(1-fx) + c[ky*cx+kx+dx]*fx
		hi := c[ky*cx+kx+dy]*(1-fx) + c[ky*cx+kx+dx+dy]*fx
		z.Assert(zzNear(r[i], lo*(1-fy)+hi*fy), "linear between the centers of the cells")
	}
	z.Reach("interpolate")
}

// Stars are no part of the background, also where they cover whole cells.
//
//verif:harness P06 w=4,5 h=4 grid=2,3 hfr=1..3
//verif:harness P06 w=3 h=3 grid=3,9 hfr=1,9
//verif:harness P06 w=3 h=2 grid=1 hfr=1,9
//verif:harness P06 w=16 h=13 grid=4,6 hfr=3,5
//verif:thorough w=2..7 h=2..7 grid=1..5 hfr=1..9
//verif:reach stars
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P06_stars() {
	w, h := z.Param("w"), z.Param("h")
	f := zzImage(1, w, h)
	for i := range f.Data {
		f.Data[i] = 30
	}
	p := z.Place(w, h)
	r := float32(z.Param("hfr")) / 2
	f.Data[p] = z.SmallF32("star", 100, 160)
	v := f.Data[p]
	f.Stars = []star.Star{{Index: int32(p), X: float32(p % w), Y: float32(p / w), HFR: r / 4, Mass: 100}}
	zzExtract(f, z.Param("grid"), 0)
	for i, d := range f.Data {
		if i == p {
			z.Assert(z.And(d <= v+0.01, d >= v-30.01), "the star stays")
			if z.Param("hfr") < 9 && z.Param("grid") > 1 {
				z.Assert(zzNear(d, v-30), "the star stays")
			}
		} else if z.Param("hfr") < 9 && z.Param("grid") > 1 {
			z.Assert(zzNear(d, 0), "the background does not contain the star")
		}
	}
	z.Reach("stars")
}

// Stars which are larger than the cells of the grid are no part of the background.
//
//verif:harness P06 w=24,31 h=20 grid=2,3,4 hfr=4..9
//verif:harness P06 w=40 h=33 grid=3,5,7 hfr=13
//verif:thorough w=24,31,40 h=20,33 grid=1..8 hfr=1..13
//verif:reach wide
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P06_wide() {
	w, h := z.Param("w"), z.Param("h")
	f := zzImage(1, w, h)
	p := z.Place(w, h)
	cx, cy := p%w, p/w
	r := float32(z.Param("hfr")) // the background operator is told to take four times the half flux radius
	v := z.SmallF32("star", 100, 160)
	in := make([]bool, w*h)
	for i := range f.Data {
		dx, dy := float32(i%w-cx), float32(i/w-cy)
		f.Data[i] = 30
		if dx*dx+dy*dy < (r-0.01)*(r-0.01) {
			f.Data[i], in[i] = v, true
		}
	}
	f.Stars = []star.Star{{Index: int32(p), X: float32(cx), Y: float32(cy), HFR: r / 4, Mass: 100}}
	zzExtract(f, z.Param("grid"), 0)
	ok := true
	for i, d := range f.Data {
		if in[i] {
			ok = z.And(ok, zzNear(d, v-30))
		} else {
			ok = z.And(ok, zzNear(d, 0))
		}
	}
	z.Assert(ok, "the background does not contain the star")
	z.Reach("wide")
}

// A few deviating pixels in a cell do not change its background.
//
//verif:harness P06 n=3,4,5 grid=3,4,5
//verif:harness P06 n=15 grid=5,7
//verif:reach outlier
//verif:opt timeout=60 tab=64 nomerge
func ZZ_P06_outlier() {
	n := z.Param("n")
	f := zzImage(1, n, n)
	for i := range f.Data {
		f.Data[i] = 30
	}
	p := z.Place(n, n)
	f.Data[p] = z.SmallF32("outlier", 0, 63)
	v := f.Data[p]
	zzExtract(f, z.Param("grid"), 0)
	for i, d := range f.Data {
		if i == p {
			z.Assert(zzNear(d, v-30), "a deviating pixel stays")
		} else {
			z.Assert(zzNear(d, 0), "a deviating pixel is not part of the background")
		}
	}
	z.Reach("outlier")
}

// The background is saved if asked for, with the same result.
//
//verif:harness P06 w=4 h=4 grid=2
//verif:harness P06 w=3 h=2 grid=1
//verif:reach save
//verif:opt timeout=60 fs tab=64 nomerge noobs
func ZZ_P06_save() {
	z.FS()
	w, h, grid := z.Param("w"), z.Param("h"), z.Param("grid")
	f, g := zzImage(1, w, h), zzImage(1, w, h)
	for i := range f.Data {
		f.Data[i] = float32(20 + i%w*3 + i/w*5 + i*i%7)
	}
	copy(g.Data, f.Data)
	src := zzCopy(f.Data)
	zzExtract(f, grid, 0)
	r, err := NewOpBackExtract(int32(grid), 4, 1.5, 0, "bg%d.fits").Apply(g, zzContext())
	z.Assert(err == nil && r == g, "background extracted")
	for i := range src {
		z.Assert(zzNear(f.Data[i], g.Data[i]), "saving does not change the result")
	}
	ps, err := ops.NewOpLoad(0, "bg1.fits").MakePromises(nil, zzContext())
	z.Assert(err == nil && len(ps) == 1, "loading")
	b, err := ps[0]()
	z.Assert(err == nil && len(b.Data) == len(src), "the background is saved")
	for i := range src {
		z.Assert(zzNear(b.Data[i], src[i]-g.Data[i]), "the background saved is the one subtracted")
	}
	z.Reach("save")
}

// No grid, no change.
//
//verif:harness P06 grid=-1,0
//verif:reach inactive
func ZZ_P06_inactive() {
	f := zzImage(1, 3, 2)
	for i := range f.Data {
		f.Data[i] = z.AnyF32("pixel")
	}
	src := zzCopy(f.Data)
	zzExtract(f, z.Param("grid"), 1)
	zzSame(f.Data, src, "no grid: nothing changes")
	z.Reach("inactive")
}

var _ = math.Abs
