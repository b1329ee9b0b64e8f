package fits

import (
	"math"

	"github.com/mlnoga/nightlight/internal/star"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

type zzMap struct {
	t       star.Transform2D
	inverse func(x, y float32) (float32, float32)
}

var zzMaps = []zzMap{
	{star.Transform2D{A: 1, E: 1}, func(x, y float32) (float32, float32) { return x, y }},
	{star.Transform2D{A: 1, C: 1, E: 1, F: -1}, func(x, y float32) (float32, float32) { return x - 1, y + 1 }},
	{star.Transform2D{A: 1, C: 0.5, E: 1, F: -1.25}, func(x, y float32) (float32, float32) { return x - 0.5, y + 1.25 }},
	{star.Transform2D{B: -1, C: 3, D: 1}, func(x, y float32) (float32, float32) { return y, 3 - x }},
	{star.Transform2D{A: -1, C: 2, E: -1, F: 3}, func(x, y float32) (float32, float32) { return 2 - x, 3 - y }},
	{star.Transform2D{A: 2, C: 1, E: 2, F: 0}, func(x, y float32) (float32, float32) { return (x - 1) / 2, y / 2 }},
	{star.Transform2D{A: 0.5, E: 0.5}, func(x, y float32) (float32, float32) { return 2 * x, 2 * y }},
	{star.Transform2D{A: 1, B: 1, C: 0, E: 2, F: 1}, func(x, y float32) (float32, float32) { return x - (y-1)/2, (y - 1) / 2 }},
	{star.Transform2D{A: 1, C: 100, E: 1}, func(x, y float32) (float32, float32) { return x - 100, y }},
	{star.Transform2D{A: 1, C: -0.25, E: -1, F: 2.75}, func(x, y float32) (float32, float32) { return x + 0.25, 2.75 - y }},
	{star.Transform2D{A: 1, C: 3, E: 1, F: 2.5}, func(x, y float32) (float32, float32) { return x - 3, y - 2.5 }},
	{star.Transform2D{A: 0.6, B: -0.8, C: 4.03, D: 0.8, E: 0.6, F: 1.07}, func(x, y float32) (float32, float32) {
		x, y = x-4.03, y-1.07
		return 0.6*x + 0.8*y, 0.6*y - 0.8*x
	}},
	{star.Transform2D{A: -0.28, B: 0.96, C: 1.03, D: -0.96, E: -0.28, F: 6.07}, func(x, y float32) (float32, float32) {
		x, y = x-1.03, y-6.07
		return -0.28*x - 0.96*y, 0.96*x - 0.28*y
	}},
}

// zzExpect checks one pixel of the projection against the source position
func zzExpect(got float32, src []float32, w, h int, sx, sy, oob float32) {
	if sx < 0 || sy < 0 || sx > float32(w-1) || sy > float32(h-1) {
		z.Assert(z.SameF32(got, oob), "outside of the image: the value for out of bounds")
		return
	}
	x, y := int(sx), int(sy)
	fx, fy := sx-float32(x), sy-float32(y)
	if x == w-1 || y == h-1 { // at the very edge, there are no four neighbors
		v := src[y*w+x]
		if fx != 0 {
			v = v*(1-fx) + src[y*w+x+1]*fx
		}
		if fy != 0 {
			v = v*(1-fy) + src[(y+1)*w+x]*fy
		}
		e := got - v
		z.Assert(z.Or(z.SameF32(got, oob), z.And(e < 0.01, e > -0.01)), "at the edge: interpolated, or out of bounds")
		return
	}
	v := (src[y*w+x]*(1-fx)+src[y*w+x+1]*fx)*(1-fy) + (src[(y+1)*w+x]*(1-fx)+src[(y+1)*w+x+1]*fx)*fy
	e := got - v
	z.Assert(z.And(e < 0.01, e > -0.01), "inside of the image: bilinear interpolation")
}

func zzProjectScene(w, h int, sel int) *Image {
	f := NewImageFromNaxisn([]int32{int32(w), int32(h)}, nil)
	for i := range f.Data {
		f.Data[i] = float32(i*i*7%23 + 2)
	}
	if sel >= 0 {
		f.Data[sel] = z.SmallF32("pixel", -8, 55)
	}
	f.ID, f.Exposure, f.HFR = 5, 30, 2.5
	return f
}

// Each pixel of the projection is interpolated at its source position, for an arbitrary pixel of the image.
//
//verif:harness S04 map=0..9 w=3 h=4 dw=4 dh=3
//verif:harness S04 map=0..5 w=1,2 h=1,2 dw=3 dh=2
//verif:harness S04 map=10,11,12 w=3 h=4 dw=9 dh=8
//verif:harness S04 map=11,12 w=6 h=6 dw=7 dh=7
//verif:thorough map=0..12 w=1..5 h=1..5 dw=1,3,6,9 dh=1,4,5,8
//verif:reach project
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S04_project() {
	w, h, dw, dh := z.Param("w"), z.Param("h"), z.Param("dw"), z.Param("dh")
	f := zzProjectScene(w, h, z.Choose("sel", w*h))
	src := append([]float32{}, f.Data...)
	oob := []float32{float32(math.NaN()), 0, -777}[z.Choose("oob", 3)]
	m := zzMaps[z.Param("map")]
	g, err := f.Project([]int32{int32(dw), int32(dh)}, m.t, oob)
	z.Assert(err == nil && g != nil, "projected")
	z.Assert(len(g.Naxisn) == 2 && g.Naxisn[0] == int32(dw) && g.Naxisn[1] == int32(dh) && len(g.Data) == dw*dh, "dimensions of the destination")
	z.Assert(g.ID == 5 && g.Exposure == 30 && g.HFR == 2.5, "identity, exposure and half flux radius are kept")
	for i := range src {
		z.Assert(z.SameBits(f.Data[i], src[i]), "the image stays as it is")
	}
	for i, v := range g.Data {
		sx, sy := m.inverse(float32(i%dw), float32(i/dw))
		zzExpect(v, src, w, h, sx, sy, oob)
	}
	z.Reach("project")
}

// The same for arbitrary shifts, in quarters of a pixel.
//
//verif:harness S04 w=4 h=3 dw=3 dh=3 flip=0,1
//verif:harness S04 w=2 h=5 dw=2 dh=4 flip=0
//verif:thorough w=1..5 h=1..5 dw=1,3 dh=1,4 flip=0,1
//verif:reach shift
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S04_shift() {
	w, h, dw, dh := z.Param("w"), z.Param("h"), z.Param("dw"), z.Param("dh")
	f := zzProjectScene(w, h, -1)
	d := z.SmallF32("shift", -31, 32) * 0.25
	t := star.Transform2D{A: 1, E: 1, C: d, F: float32(z.Choose("dy", 3)-1) * 1.5}
	if z.Choose("vertical", 2) == 1 {
		t.C, t.F = t.F, t.C
	}
	if z.Param("flip") == 1 {
		t.A, t.E, t.B, t.D = 0, 0, 1, 1
	}
	oob := float32(-777)
	g, err := f.Project([]int32{int32(dw), int32(dh)}, t, oob)
	z.Assert(err == nil && g != nil && len(g.Data) == dw*dh, "projected")
	for i, v := range g.Data {
		sx, sy := float32(i%dw)-t.C, float32(i/dw)-t.F
		if z.Param("flip") == 1 {
			sx, sy = sy, sx
		}
		zzExpect(v, f.Data, w, h, sx, sy, oob)
	}
	z.Reach("shift")
}

// Transforms which are not invertible are an error; extreme ones never crash.
//
//verif:harness S04 kind=0..4
//verif:reach extreme
//verif:opt timeout=60 tab=64 nomerge
func ZZ_S04_extreme() {
	f := zzProjectScene(3, 2, -1)
	t := star.Transform2D{A: 1, E: 1}
	big := []float32{1e9, -1e9, 2147483648, 3e38, float32(math.Inf(1)), float32(math.NaN()), 1e-30, -2147483648}[z.Choose("big", 8)]
	switch z.Param("kind") {
	case 0:
		t = star.Transform2D{C: 1, F: 2}
	case 1:
		t = star.Transform2D{A: 1, B: 2, D: 2, E: 4}
	case 2:
		t.C = big
	case 3:
		t.F = big
	case 4:
		t.A, t.E = big, 1/big
	}
	g, err := f.Project([]int32{2, 2}, t, -777)
	z.Assert((err == nil) == (g != nil), "an image or an error")
	if z.Param("kind") < 2 {
		z.Assert(err != nil, "not invertible: an error")
	} else if z.Param("kind") < 4 && g != nil && big != 1e-30 {
		for _, v := range g.Data {
			z.Assert(v == -777, "outside of the image")
		}
	}
	z.Reach("extreme")
}
