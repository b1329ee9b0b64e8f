package rgb

import (
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzInactive: parameters which select no action
func zzInactive(name string) []zzV {
	F := func(x float32) interface{} { return x }
	N := func(x int32) interface{} { return x }
	switch name {
	case "save":
		return []zzV{{"", 0, F(1)}, {"", 2, F(2)}}
	case "calibrate":
		return []zzV{{"", ""}}
	case "badPixel":
		return []zzV{{F(0), F(5)}, {F(3), F(0)}, {F(0), F(0)}}
	case "debayer":
		return []zzV{{"", "RGGB"}, {"R", ""}, {"", ""}}
	case "scaleOffset":
		return []zzV{{F(1), F(0)}}
	case "bin":
		return []zzV{{N(1)}, {N(0)}, {N(-1)}}
	case "backExtract":
		return []zzV{{N(0), F(4), F(1.5), N(0)}, {N(-1), F(4), F(1.5), N(2)}}
	case "starDetect":
		return []zzV{{N(0), F(10), F(5), F(10)}, {N(16), F(0), F(5), F(10)}}
	case "debandHoriz", "debandVert":
		return []zzV{{F(0), N(128), F(3)}, {F(100), N(128), F(3)}, {F(50), N(0), F(3)}, {F(-1), N(2), F(3)}, {F(50), N(-1), F(3)}}
	case "matchHist":
		return []zzV{{int(post.HNMNone)}}
	case "align":
		return []zzV{{N(0), F(1), 0}, {N(0), F(0), 2}, {N(-1), F(1), 1}}
	case "exportStats":
		return []zzV{{""}}
	case "filter":
		return []zzV{{0}, {-1}, {2}}
	case "hslScaleOffsetChannel":
		return []zzV{{0, F(1), F(0)}, {2, F(1), F(0)}}
	case "hslSaturationGamma", "gammaPP", "hslGammaPP":
		return []zzV{{F(1), F(0.25)}, {F(1), F(-3)}}
	case "hslSelectiveSaturation":
		return []zzV{{F(90), F(250), F(1)}}
	case "hslRotateHue":
		return []zzV{{F(90), F(250), F(0), F(-3)}}
	case "hslSCNR", "hslScaleBlack", "scaleBlack", "gaussianBlur":
		return []zzV{{F(0)}}
	case "hslMidtones", "midtones":
		return []zzV{{F(0), F(0.25)}, {F(0), F(-2)}}
	case "hslGamma", "gamma":
		return []zzV{{F(1)}}
	case "HSLUnsharpMask", "unsharpMask":
		return []zzV{{F(1), F(0), F(-3)}, {F(0), F(2), F(-3)}}
	case "hslStretch", "stretch":
		return []zzV{{F(0), F(0)}}
	}
	return nil
}

// Operators with parameters selecting no action pass the image on as it is, and do nothing else.
//
//verif:harness J02 kind=0..37
//verif:reach inactive
//verif:opt fs tab=64 nomerge timeout=60
func ZZ_J02_all() {
	z.FS()
	k := zzKindOf(z.Param("kind"))
	sets := zzInactive(k.name)
	if len(sets) == 0 {
		z.Reach("inactive")
		return
	}
	v := sets[z.Choose("set", len(sets))]
	f := zzActsImage(k)()
	was, naxisn, stars, hfr := append([]float32{}, f.Data...), append([]int32{}, f.Naxisn...), len(f.Stars), f.HFR
	trans := f.Trans
	g, c := zzActs(k.make(v), f)
	z.Assert(g == f, "the image is passed on")
	z.Assert(fits.EqualInt32Slice(g.Naxisn, naxisn) && len(g.Data) == len(was), "an inactive operator changes nothing")
	for i := range was {
		z.Assert(z.SameBits(g.Data[i], was[i]), "an inactive operator changes nothing")
	}
	z.Assert(len(g.Stars) == stars && g.HFR == hfr && g.ID == 1, "an inactive operator changes nothing")
	if k.name == "align" {
		trans = star.IdentityTransform2D()
	}
	z.Assert(g.Trans == trans, "an inactive operator does not move the image")
	z.Assert(c.AlignStars == nil && c.DarkFrame == nil && c.FlatFrame == nil && c.LumFrame == nil, "an inactive operator leaves no trace")
	z.Assert(len(z.FSNames()) == 0, "an inactive operator writes no file")
	z.Reach("inactive")
}

// Normalising a uniform image leaves it as it is.
//
//verif:harness J02 n=1,4
//verif:reach uniform
//verif:opt tab=64 nomerge timeout=60
func ZZ_J02_uniform() {
	f := zzImage(1, z.Param("n"), 1)
	v := z.FracF32("value", -16, 47, 4)
	for i := range f.Data {
		f.Data[i] = v
	}
	f.Stats.Clear()
	g, _ := zzActs(stretch.NewOpNormalizeRange(), f)
	z.Assert(g == f, "the image is passed on")
	for i := range f.Data {
		z.Assert(z.SameBits(g.Data[i], v), "a uniform image stays as it is")
	}
	z.Reach("uniform")
}

func zzFresh(f *fits.Image) {
	r := stats.NewStats(f.Data, f.Naxisn[0])
	s := f.Stats
	same := z.And(zzNear(s.Min(), r.Min(), 1e-3), zzNear(s.Max(), r.Max(), 1e-3))
	same = z.And(same, z.And(zzNear(s.Mean(), r.Mean(), 1e-3), zzNear(s.StdDev(), r.StdDev(), 5e-3)))
	z.Assert(same, "statistics are those of the current pixels")
}

// zzQueries: values which are known before the operator runs
func zzQueries(f *fits.Image, k int) {
	stats.LSEstimator = stats.LSEMeanStdDev
	if k&1 != 0 {
		f.Stats.Min()
	}
	if k&2 != 0 {
		f.Stats.StdDev()
		f.Stats.Location()
	}
}

// Statistics describe the result of every operator, whatever was known before.
//
//verif:harness P07 kind=1..37 queries=0..3
//verif:reach fresh
//verif:opt fs tab=64 nomerge timeout=60
func ZZ_P07_all() {
	z.FS()
	k := zzKindOf(z.Param("kind"))
	if k.acts == nil {
		z.Reach("fresh")
		return
	}
	v := k.acts[z.Choose("set", len(k.acts))]
	f := zzActsImage(k)()
	zzQueries(f, z.Param("queries"))
	g, _ := zzActs(k.make(v), f)
	if g != nil {
		zzFresh(g)
	}
	z.Reach("fresh")
}

// Statistics describe the result of two operators in sequence.
//
//verif:harness P07 a=5,11,17..20,24..28 b=5,11,17,27,28
//verif:thorough a=1,5,11,17..28,31..36 b=1,5,11,17..28,31..36
//verif:reach fresh
//verif:opt fs tab=64 nomerge timeout=60
func ZZ_P07_pairs() {
	z.FS()
	a, b := zzKindOf(z.Param("a")), zzKindOf(z.Param("b"))
	if a.acts == nil || b.acts == nil {
		z.Reach("fresh")
		return
	}
	f := zzActsImage(a)()
	zzQueries(f, 3)
	g, _ := zzActs(a.make(a.acts[0]), f)
	g, _ = zzActs(b.make(b.acts[1]), g)
	if g != nil {
		zzFresh(g)
	}
	z.Reach("fresh")
}

var _ = ops.NewOpSequence
