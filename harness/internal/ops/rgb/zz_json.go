package rgb

import (
	"encoding/json"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/star"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzKind: an operator kind with its JSON keys, a getter for its parameters, their defaults and a constructor
type zzKind struct {
	name string
	keys []string
	defs []interface{}
	get  func(o ops.Operator) []interface{}
	make func(v []interface{}) ops.Operator
	acts [][]interface{} // two parameter sets under which the operator changes the image
}

type zzV = []interface{}

const zzKinds = 38

var zzPipeTexts = []string{"", "name.fits", "a\"b\\c\u00fc.fits"}

func zzKindOf(k int) zzKind {
	f := func(v zzV, i int) float32 { return v[i].(float32) }
	n := func(v zzV, i int) int32 { return v[i].(int32) }
	m := func(v zzV, i int) int { return v[i].(int) }
	s := func(v zzV, i int) string { return v[i].(string) }
	F := func(x float32) interface{} { return x }
	N := func(x int32) interface{} { return x }
	switch k {
	case 0:
		return zzKind{"load", []string{"id", "fileName"}, zzV{0, ""},
			func(o ops.Operator) zzV { p := o.(*ops.OpLoad); return zzV{p.ID, p.FileName} },
			func(v zzV) ops.Operator { return ops.NewOpLoad(m(v, 0), s(v, 1)) }, nil}
	case 1:
		return zzKind{"save", []string{"filePattern", "saveMode", "gamma"}, zzV{"", 0, F(1)},
			func(o ops.Operator) zzV { p := o.(*ops.OpSave); return zzV{p.FilePattern, int(p.ExportMode), p.Gamma} },
			func(v zzV) ops.Operator { return ops.NewOpSave(s(v, 0), ops.ExportMode(m(v, 1)), f(v, 2)) },
			[]zzV{{"first.fits", 1, F(1)}, {"second.fits", 1, F(1)}}}
	case 2:
		return zzKind{"calibrate", []string{"dark", "flat"}, zzV{"", ""},
			func(o ops.Operator) zzV { p := o.(*pre.OpCalibrate); return zzV{p.Dark, p.Flat} },
			func(v zzV) ops.Operator { return pre.NewOpCalibrate(s(v, 0), s(v, 1)) }, nil}
	case 3:
		return zzKind{"badPixel", []string{"sigmaLow", "sigmaHigh"}, zzV{F(3), F(5)},
			func(o ops.Operator) zzV { p := o.(*pre.OpBadPixel); return zzV{p.SigmaLow, p.SigmaHigh} },
			func(v zzV) ops.Operator { return pre.NewOpBadPixel(f(v, 0), f(v, 1), nil) },
			[]zzV{{F(1), F(1)}, {F(0.5), F(2)}}}
	case 4:
		return zzKind{"debayer", []string{"channel", "colorFilterArray"}, zzV{"", "RGGB"},
			func(o ops.Operator) zzV { p := o.(*pre.OpDebayer); return zzV{p.Channel, p.ColorFilterArray} },
			func(v zzV) ops.Operator { return pre.NewOpDebayer(s(v, 0), s(v, 1)) },
			[]zzV{{"R", "RGGB"}, {"G", "GBRG"}}}
	case 5:
		return zzKind{"scaleOffset", []string{"scale", "offset"}, zzV{F(1), F(0)},
			func(o ops.Operator) zzV { p := o.(*pre.OpScaleOffset); return zzV{p.Scale, p.Offset} },
			func(v zzV) ops.Operator { return pre.NewOpScaleOffset(f(v, 0), f(v, 1)) },
			[]zzV{{F(0.5), F(0.25)}, {F(2), F(0.125)}}}
	case 6:
		return zzKind{"bin", []string{"binSize"}, zzV{N(1)},
			func(o ops.Operator) zzV { p := o.(*pre.OpBin); return zzV{p.BinSize} },
			func(v zzV) ops.Operator { return pre.NewOpBin(n(v, 0)) },
			[]zzV{{N(1)}, {N(2)}}}
	case 7:
		return zzKind{"backExtract", []string{"gridSize", "hfrFactor", "sigma", "clip"}, zzV{N(0), F(4), F(1.5), N(0)},
			func(o ops.Operator) zzV {
				p := o.(*pre.OpBackExtract)
				return zzV{p.GridSize, p.HFRFactor, p.Sigma, p.Clip}
			},
			func(v zzV) ops.Operator { return pre.NewOpBackExtract(n(v, 0), f(v, 1), f(v, 2), n(v, 3), "") },
			[]zzV{{N(2), F(1), F(1.5), N(0)}, {N(4), F(1), F(1.5), N(0)}}}
	case 8:
		return zzKind{"starDetect", []string{"radius", "sigma", "badPixelSigma", "inOutRatio"}, zzV{N(16), F(10), F(0), F(10)},
			func(o ops.Operator) zzV {
				p := o.(*pre.OpStarDetect)
				return zzV{p.Radius, p.Sigma, p.BadPixelSigma, p.InOutRatio}
			},
			func(v zzV) ops.Operator { return pre.NewOpStarDetect(n(v, 0), f(v, 1), f(v, 2), f(v, 3), "") }, nil}
	case 9:
		return zzKind{"debandHoriz", []string{"percentile", "window", "sigma"}, zzV{F(50), N(128), F(3)},
			func(o ops.Operator) zzV { p := o.(*pre.OpDebandHoriz); return zzV{p.Percentile, p.Window, p.Sigma} },
			func(v zzV) ops.Operator { return pre.NewOpDebandHoriz(f(v, 0), n(v, 1), f(v, 2)) },
			[]zzV{{F(50), N(2), F(3)}, {F(25), N(4), F(3)}}}
	case 10:
		return zzKind{"debandVert", []string{"percentile", "window", "sigma"}, zzV{F(50), N(128), F(3)},
			func(o ops.Operator) zzV { p := o.(*pre.OpDebandVert); return zzV{p.Percentile, p.Window, p.Sigma} },
			func(v zzV) ops.Operator { return pre.NewOpDebandVert(f(v, 0), n(v, 1), f(v, 2)) },
			[]zzV{{F(50), N(2), F(3)}, {F(25), N(4), F(3)}}}
	case 11:
		return zzKind{"matchHist", []string{"mode"}, zzV{int(post.HNMLocScale)},
			func(o ops.Operator) zzV { p := o.(*post.OpMatchHistogram); return zzV{int(p.Mode)} },
			func(v zzV) ops.Operator { return post.NewOpMatchHistogram(post.HistoNormMode(m(v, 0))) },
			[]zzV{{int(post.HNMLocation)}, {int(post.HNMLocScale)}}}
	case 12:
		return zzKind{"align", []string{"k", "threshold", "oobMode"}, zzV{N(50), F(1), int(post.OOBModeNaN)},
			func(o ops.Operator) zzV { p := o.(*post.OpAlign); return zzV{p.K, p.Threshold, int(p.OobMode)} },
			func(v zzV) ops.Operator { return post.NewOpAlign(n(v, 0), f(v, 1), post.OutOfBoundsMode(m(v, 2))) }, nil}
	case 13:
		return zzKind{"stack", []string{"mode", "weighting", "sigmaLow", "sigmaHigh"}, zzV{int(stack.StAuto), int(stack.StWeightNone), F(2.75), F(2.75)},
			func(o ops.Operator) zzV {
				p := o.(*stack.OpStack)
				return zzV{int(p.Mode), int(p.Weighting), p.SigmaLow, p.SigmaHigh}
			},
			func(v zzV) ops.Operator {
				return stack.NewOpStack(stack.StackMode(m(v, 0)), stack.StackWeighting(m(v, 1)), f(v, 2), f(v, 3))
			}, nil}
	case 14:
		return zzKind{"exportStats", []string{"fileName"}, zzV{"out.html"},
			func(o ops.Operator) zzV { p := o.(*ref.OpExportStats); return zzV{p.FileName} },
			func(v zzV) ops.Operator { return ref.NewOpExportStats(s(v, 0)) }, nil}
	case 15:
		return zzKind{"filter", []string{"minStars"}, zzV{0},
			func(o ops.Operator) zzV { p := o.(*ref.OpFilter); return zzV{p.MinStars} },
			func(v zzV) ops.Operator { return ref.NewOpFilter(m(v, 0)) },
			[]zzV{{1}, {9}}}
	case 16:
		return zzKind{"selectRef", []string{"target", "mode"}, zzV{0, "%starsHFR"},
			func(o ops.Operator) zzV { p := o.(*ref.OpSelectReference); return zzV{int(p.Target), p.Mode} },
			func(v zzV) ops.Operator {
				return ref.NewOpSelectReference(ref.SelRefTarget(m(v, 0)), s(v, 1), pre.NewOpStarDetect(16, 10, 0, 10, ""))
			}, nil}
	case 17:
		return zzKind{"rgbBalance", []string{"block", "border", "skipBright", "skipDim"}, zzV{N(16), F(0.1), F(0), F(0.75)},
			func(o ops.Operator) zzV {
				p := o.(*OpRGBBalance)
				return zzV{p.Block, p.Border, p.SkipBright, p.SkipDim}
			},
			func(v zzV) ops.Operator {
				one := fits.RGB{R: 1, G: 1, B: 1}
				return NewOpRGBBalance(n(v, 0), f(v, 1), f(v, 2), f(v, 3), one, one)
			},
			[]zzV{{N(1), F(0), F(0), F(0)}, {N(2), F(0), F(0), F(0)}}}
	case 18:
		return zzKind{"hslScaleOffsetChannel", []string{"channelID", "scale", "offset"}, zzV{2, F(1), F(0)},
			func(o ops.Operator) zzV {
				p := o.(*hsl.OpHSLScaleOffsetChannel)
				return zzV{p.ChannelID, p.Scale, p.Offset}
			},
			func(v zzV) ops.Operator { return hsl.NewOpHSLScaleOffsetChannel(m(v, 0), f(v, 1), f(v, 2)) },
			[]zzV{{1, F(0.5), F(0.25)}, {2, F(0.5), F(0.125)}}}
	case 19:
		return zzKind{"hslNeutralizeBackground", []string{"sigmaLow", "sigmaHigh"}, zzV{F(0.75), F(1)},
			func(o ops.Operator) zzV { p := o.(*hsl.OpHSLNeutralizeBackground); return zzV{p.SigmaLow, p.SigmaHigh} },
			func(v zzV) ops.Operator { return hsl.NewOpHSLNeutralizeBackground(f(v, 0), f(v, 1)) },
			[]zzV{{F(0.25), F(0.5)}, {F(0.5), F(2)}}}
	case 20:
		return zzKind{"hslSaturationGamma", []string{"gamma", "sigma"}, zzV{F(1.75), F(0.75)},
			func(o ops.Operator) zzV { p := o.(*hsl.OpHSLSaturationGamma); return zzV{p.Gamma, p.Sigma} },
			func(v zzV) ops.Operator { return hsl.NewOpHSLSaturationGamma(f(v, 0), f(v, 1)) },
			[]zzV{{F(2), F(0.25)}, {F(0.5), F(-1)}}}
	case 21:
		return zzKind{"hslSelectiveSaturation", []string{"from", "to", "factor"}, zzV{F(295), F(40), F(1)},
			func(o ops.Operator) zzV {
				p := o.(*hsl.OpHSLSelectiveSaturation)
				return zzV{p.From, p.To, p.Factor}
			},
			func(v zzV) ops.Operator { return hsl.NewOpHSLSelectiveSaturation(f(v, 0), f(v, 1), f(v, 2)) },
			[]zzV{{F(90), F(250), F(0.5)}, {F(300), F(60), F(0.25)}}}
	case 22:
		return zzKind{"hslRotateHue", []string{"from", "to", "offset", "sigma"}, zzV{F(100), F(190), F(0), F(1)},
			func(o ops.Operator) zzV {
				p := o.(*hsl.OpHSLRotateHue)
				return zzV{p.From, p.To, p.Offset, p.Sigma}
			},
			func(v zzV) ops.Operator { return hsl.NewOpHSLRotateHue(f(v, 0), f(v, 1), f(v, 2), f(v, 3)) },
			[]zzV{{F(90), F(250), F(-30), F(-1)}, {F(10), F(60), F(20), F(-2)}}}
	case 23:
		return zzKind{"hslSCNR", []string{"factor"}, zzV{F(0)},
			func(o ops.Operator) zzV { p := o.(*hsl.OpHSLSCNR); return zzV{p.Factor} },
			func(v zzV) ops.Operator { return hsl.NewOpHSLSCNR(f(v, 0)) }, nil}
	case 24:
		return zzKind{"hslMidtones", []string{"mid", "black"}, zzV{F(0), F(2)},
			func(o ops.Operator) zzV { p := o.(*hsl.OpHSLMidtones); return zzV{p.Mid, p.Black} },
			func(v zzV) ops.Operator { return hsl.NewOpHSLMidtones(f(v, 0), f(v, 1)) },
			[]zzV{{F(1), F(0.25)}, {F(0.5), F(0.125)}}}
	case 25:
		return zzKind{"hslGamma", []string{"gamma"}, zzV{F(1)},
			func(o ops.Operator) zzV { p := o.(*hsl.OpHSLGamma); return zzV{p.Gamma} },
			func(v zzV) ops.Operator { return hsl.NewOpHSLGamma(f(v, 0)) },
			[]zzV{{F(2)}, {F(0.5)}}}
	case 26:
		return zzKind{"hslGammaPP", []string{"gamma", "sigma"}, zzV{F(1), F(1)},
			func(o ops.Operator) zzV { p := o.(*hsl.OpHSLGammaPP); return zzV{p.Gamma, p.Sigma} },
			func(v zzV) ops.Operator { return hsl.NewOpHSLGammaPP(f(v, 0), f(v, 1)) },
			[]zzV{{F(2), F(0.25)}, {F(0.5), F(-0.25)}}}
	case 27:
		return zzKind{"HSLUnsharpMask", []string{"sigma", "gain", "threshold"}, zzV{F(1.5), F(0), F(0.75)},
			func(o ops.Operator) zzV {
				p := o.(*hsl.OpHSLUnsharpMask)
				return zzV{p.Sigma, p.Gain, p.Threshold}
			},
			func(v zzV) ops.Operator { return hsl.NewOpHSLUnsharpMask(f(v, 0), f(v, 1), f(v, 2)) },
			[]zzV{{F(1), F(1), F(-1)}, {F(1.5), F(2), F(-1)}}}
	case 28:
		return zzKind{"hslScaleBlack", []string{"location"}, zzV{F(0)},
			func(o ops.Operator) zzV { p := o.(*hsl.OpHSLScaleBlack); return zzV{p.Location} },
			func(v zzV) ops.Operator { return hsl.NewOpHSLScaleBlack(f(v, 0)) },
			[]zzV{{F(0.0625)}, {F(0.125)}}}
	case 29:
		return zzKind{"hslStretch", []string{"location", "scale"}, zzV{F(0.1), F(0.004)},
			func(o ops.Operator) zzV { p := o.(*hsl.OpHSLStretchIterative); return zzV{p.Location, p.Scale} },
			func(v zzV) ops.Operator { return hsl.NewOpHSLStretchIterative(f(v, 0), f(v, 1)) }, nil}
	case 30:
		return zzKind{"stretch", []string{"location", "scale"}, zzV{F(0.1), F(0.004)},
			func(o ops.Operator) zzV { p := o.(*stretch.OpStretchIterative); return zzV{p.Location, p.Scale} },
			func(v zzV) ops.Operator { return stretch.NewOpStretchIterative(f(v, 0), f(v, 1)) }, nil}
	case 31:
		return zzKind{"midtones", []string{"mid", "black"}, zzV{F(0), F(1)},
			func(o ops.Operator) zzV { p := o.(*stretch.OpMidtones); return zzV{p.Mid, p.Black} },
			func(v zzV) ops.Operator { return stretch.NewOpMidtones(f(v, 0), f(v, 1)) },
			[]zzV{{F(1), F(0.25)}, {F(0.5), F(0.125)}}}
	case 32:
		return zzKind{"gamma", []string{"gamma"}, zzV{F(1)},
			func(o ops.Operator) zzV { p := o.(*stretch.OpGamma); return zzV{p.Gamma} },
			func(v zzV) ops.Operator { return stretch.NewOpGamma(f(v, 0)) },
			[]zzV{{F(2)}, {F(0.5)}}}
	case 33:
		return zzKind{"gammaPP", []string{"gamma", "sigma"}, zzV{F(1), F(1)},
			func(o ops.Operator) zzV { p := o.(*stretch.OpGammaPP); return zzV{p.Gamma, p.Sigma} },
			func(v zzV) ops.Operator { return stretch.NewOpGammaPP(f(v, 0), f(v, 1)) },
			[]zzV{{F(2), F(0.25)}, {F(0.5), F(-0.25)}}}
	case 34:
		return zzKind{"scaleBlack", []string{"location"}, zzV{F(0)},
			func(o ops.Operator) zzV { p := o.(*stretch.OpScaleBlack); return zzV{p.Location} },
			func(v zzV) ops.Operator { return stretch.NewOpScaleBlack(f(v, 0)) },
			[]zzV{{F(0.0625)}, {F(0.125)}}}
	case 35:
		return zzKind{"gaussianBlur", []string{"sigma"}, zzV{F(2)},
			func(o ops.Operator) zzV { p := o.(*stretch.OpGaussianBlur); return zzV{p.Sigma} },
			func(v zzV) ops.Operator { return stretch.NewOpGaussianBlur(f(v, 0)) },
			[]zzV{{F(1)}, {F(1.5)}}}
	case 36:
		return zzKind{"unsharpMask", []string{"sigma", "gain", "threshold"}, zzV{F(1.5), F(0), F(1)},
			func(o ops.Operator) zzV {
				p := o.(*stretch.OpUnsharpMask)
				return zzV{p.Sigma, p.Gain, p.Threshold}
			},
			func(v zzV) ops.Operator { return stretch.NewOpUnsharpMask(f(v, 0), f(v, 1), f(v, 2)) },
			[]zzV{{F(1), F(1), F(-1)}, {F(1.5), F(2), F(-1)}}}
	}
	return zzKind{"normRange", nil, nil,
		func(o ops.Operator) zzV { _ = o.(*stretch.OpNormalizeRange); return nil },
		func(v zzV) ops.Operator { return stretch.NewOpNormalizeRange() },
		[]zzV{{}, {}}}
}

// zzValues: symbolic parameter values of the kinds of the defaults
func zzValues(defs zzV) zzV {
	out := zzV{}
	for _, d := range defs {
		switch d.(type) {
		case float32:
			out = append(out, z.FiniteF32("value"))
		case int32:
			out = append(out, z.AnyInt32("count"))
		case int:
			out = append(out, z.AnyInt("number"))
		case string:
			out = append(out, zzPipeTexts[z.Choose("text", len(zzPipeTexts))])
		}
	}
	return out
}

func zzEqual(a, b zzV, msg string) {
	z.Assert(len(a) == len(b), msg)
	for i := range a {
		switch x := a[i].(type) {
		case float32:
			z.Assert(z.SameBits(x, b[i].(float32)), msg)
		case int32:
			z.Assert(x == b[i].(int32), msg)
		case int:
			z.Assert(x == b[i].(int), msg)
		case string:
			z.Assert(x == b[i].(string), msg)
		}
	}
}

// zzStepText: the JSON of an operator with those parameters which are not nil
func zzStepText(k zzKind, v zzV) (t string, vals zzV) {
	t = `{"type":"` + k.name + `"`
	for i, key := range k.keys {
		if v[i] != nil {
			t += `, "` + key + `": $`
			vals = append(vals, v[i])
		}
	}
	return t + "}", vals
}

// Parameters given are taken, others have their default value; several operators of a kind are independent, in order.
//
//verif:harness J01 kind=0..37
//verif:reach parsed
//verif:opt nomerge timeout=90
func ZZ_J01_parameters() {
	k := zzKindOf(z.Param("kind"))
	want := [3]zzV{}
	text, vals := `{"type":"seq", "steps":[`, zzV{}
	for j := range want {
		var given zzV
		switch j {
		case 0: // any subset of the parameters
			given = zzValues(k.defs)
			want[j] = append(zzV{}, given...)
			for i := range given {
				if z.Bool("missing") {
					given[i], want[j][i] = nil, k.defs[i]
				}
			}
		case 1: // none
			given = make(zzV, len(k.keys))
			want[j] = k.defs
		case 2: // the first one only
			given = make(zzV, len(k.keys))
			want[j] = append(zzV{}, k.defs...)
			if len(given) > 0 {
				given[0] = zzValues(k.defs[:1])[0]
				want[j][0] = given[0]
			}
		}
		t, v := zzStepText(k, given)
		if j > 0 {
			text += ","
		}
		text += t
		vals = append(vals, v...)
	}
	var seq ops.OpSequence
	err := json.Unmarshal(z.JSON(text+"]}", vals...), &seq)
	z.Assert(err == nil && seq.GetType() == "seq", "a pipeline is read")
	z.Assert(len(seq.Steps) == 3, "all steps are read")
	for j, s := range seq.Steps {
		z.Assert(s.GetType() == k.name, "steps are of the kind given")
		zzEqual(k.get(s), want[j], "parameters have the value given or their default")
	}
	z.Reach("parsed")
}

// Writing a pipeline and reading it back yields the same pipeline.
//
//verif:harness J01 kind=0..37
//verif:reach trip
//verif:opt nomerge timeout=90
func ZZ_J01_roundtrip() {
	k := zzKindOf(z.Param("kind"))
	a, b := zzValues(k.defs), zzValues(k.defs)
	was := ops.NewOpSequence(k.make(a), ops.NewOpSequence(k.make(b)), stack.NewOpStackBatches(ops.NewOpSequence(k.make(a))), ops.NewOpSequence())
	text, err := json.Marshal(was)
	z.Assert(err == nil, "a pipeline can be written")
	var seq ops.OpSequence
	err = json.Unmarshal(text, &seq)
	z.Assert(err == nil && len(seq.Steps) == 4, "a pipeline which was written can be read")
	z.Assert(seq.Steps[0].GetType() == k.name, "the kind stays")
	zzEqual(k.get(seq.Steps[0]), a, "parameters stay")
	inner := seq.Steps[1].(*ops.OpSequence)
	z.Assert(len(inner.Steps) == 1 && inner.Steps[0].GetType() == k.name, "nested pipelines stay")
	zzEqual(k.get(inner.Steps[0]), b, "parameters of nested pipelines stay")
	batch := seq.Steps[2].(*stack.OpStackBatches)
	z.Assert(batch.PerBatch != nil && len(batch.PerBatch.Steps) == 1, "batch pipelines stay")
	zzEqual(k.get(batch.PerBatch.Steps[0]), a, "parameters of batch pipelines stay")
	z.Assert(len(seq.Steps[3].(*ops.OpSequence).Steps) == 0, "empty pipelines stay")
	again, err := json.Marshal(&seq)
	z.Assert(err == nil && z.Or(!z.Symbolic(), len(again) > 0), "the pipeline can be written again")
	z.Reach("trip")
}

func zzJSONImage() *fits.Image {
	f := zzImage(1, 4, 2, 3)
	for i := range f.Data {
		f.Data[i] = float32((i*7+3)%16+1) / 17
		if i < 8 {
			f.Data[i] = float32((i*77 + 20) % 360)
		}
	}
	return f
}

// zzActsImage: makes copies of an image on which the operator can act, with one symbolic pixel
func zzActsImage(k zzKind) func() *fits.Image {
	value := z.FracF32("value", 1, 15, 4)
	position := 8 + z.Choose("position", 2)*3
	plain := k.name == "debayer" || k.name == "bin" || k.name == "badPixel" || k.name == "debandHoriz" || k.name == "debandVert" || k.name == "backExtract" || k.name == "normRange" || k.name == "stretch" || k.name == "starDetect" || k.name == "gammaPP" || k.name == "scaleBlack" || k.name == "gaussianBlur" || k.name == "unsharpMask"
	return func() *fits.Image {
		f := zzJSONImage()
		f.Data[position] = value
		if plain {
			g := zzImage(1, 4, 4)
			copy(g.Data, f.Data[8:])
			f = g
		}
		f.Stats.Clear()
		f.Stars = []star.Star{{Index: 1, HFR: 1.5}, {Index: 5, HFR: 1.25}}
		return f
	}
}

// zzActs: applies the operator to the image
func zzActs(o ops.Operator, f *fits.Image) (*fits.Image, *ops.Context) {
	c := zzContext()
	hist := zzImage(2, 4, 2)
	for i := range hist.Data {
		hist.Data[i] = float32(i) / 16
	}
	c.MatchHisto = hist.Stats
	outs, err := o.MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, c)
	z.Assert(err == nil && len(outs) == 1, "one result per image")
	g, err := outs[0]()
	z.Assert(err == nil, "the operator succeeds")
	return g, c
}

// Operators which were read act with their own parameters, as those made directly.
//
//verif:harness J01 kind=0..37
//verif:reach acts
//verif:opt fs tab=64 nomerge timeout=90
func ZZ_J01_acts() {
	k := zzKindOf(z.Param("kind"))
	if k.acts == nil {
		z.Reach("acts")
		return
	}
	z.FS()
	text, vals := `{"type":"seq", "steps":[`, zzV{}
	for j, v := range k.acts {
		t, w := zzStepText(k, v)
		if j > 0 {
			text += ","
		}
		text += t
		vals = append(vals, w...)
	}
	var seq ops.OpSequence
	err := json.Unmarshal(z.JSON(text+"]}", vals...), &seq)
	z.Assert(err == nil && len(seq.Steps) == 2, "the pipeline is read")
	image := zzActsImage(k)
	run := func(o ops.Operator) *fits.Image { f, _ := zzActs(o, image()); return f }
	for j, v := range k.acts {
		got, want := run(seq.Steps[j]), run(k.make(v))
		z.Assert((got == nil) == (want == nil), "a step which was read acts as one which was made")
		if want == nil {
			continue
		}
		z.Assert(fits.EqualInt32Slice(got.Naxisn, want.Naxisn) && len(got.Data) == len(want.Data), "a step which was read acts as one which was made")
		for i := range got.Data {
			z.Assert(z.SameBits(got.Data[i], want.Data[i]), "a step which was read acts as one which was made")
		}
		if k.name == "save" {
			_, saved := z.FSGet([]string{"first.fits", "second.fits"}[j])
			z.Assert(saved, "a step which was read acts as one which was made")
		}
	}
	z.Reach("acts")
}

// Nested operators and colours keep what is not given, and unknown kinds are errors.
//
//verif:harness J01 doc=0..15
//verif:reach nested
//verif:opt nomerge timeout=60
func ZZ_J01_nested() {
	v, w := z.FiniteF32("v"), z.FiniteF32("w")
	docs := []string{
		`{"type":"seq","steps":[{"type":"rgbBalance","shadows":{"G":$},"highlights":{"R":$,"B":0.5}}]}`,
		`{"type":"seq","steps":[{"type":"selectRef","starDetect":{"type":"starDetect","sigma":$,"inOutRatio":$}}]}`,
		`{"type":"seq","steps":[{"type":"backExtract","sigma":$,"save":{"type":"save","filePattern":"back%d.fits","gamma":$}}]}`,
		`{"type":"seq","steps":[{"type":"starDetect","sigma":$,"save":{"type":"save","filePattern":"stars%d.fits","gamma":$}}]}`,
		`{"type":"seq","steps":[{"type":"stackBatches","perBatch":{"type":"seq","steps":[{"type":"gamma","gamma":$},{"type":"seq","steps":[{"type":"gamma","gamma":$},{"type":"rgbCombine"}]}]}}]}`,
		`{"type":"seq","steps":[{"type":"loadMany","filePatterns":["a*.fits","b?.fits"]},{"type":"gamma","gamma":$},{"type":"gamma","gamma":$}]}`,
		`{"type":"seq","steps":[{"type":"gamma","gamma":$},{"type":"nosuch","gamma":$}]}`,
		`{"type":"seq","steps":[{"type":"gamma","gamma":$},{"type":"seq","steps":[{"type":"nosuch","gamma":$}]}]}`,
		`{"type":"seq","steps":[{"gamma":$},{"type":"gamma","gamma":$}]}`,
		`{"type":"seq","steps":[{"type":"gamma","gamma":$},{"type":"gamma","gamma":"text"},{"type":"gamma","gamma":$}]}`,
		`{"type":"seq","steps":[{"type":"gamma","gamma":$},{"type":"gamma","gamma":$}`,
		`{"type":"seq","steps":[]}`,
		`{"type":"seq"}`,
		`{"type":"seq","steps":[{"type":"rgbToHSLuv"},{"type":"hslApplyLum"},{"type":"hsluvToRGB"},{"type":"rgbCombine"},{"type":"gamma","gamma":$},{"type":"gamma","gamma":$}]}`,
		`{"type":"seq","steps":[{"type":"stackBatches","perBatch":{"type":"seq","steps":[{"type":"nosuch"}]}},{"type":"gamma","gamma":$},{"type":"gamma","gamma":$}]}`,
		`{"type":"seq","steps":[{"type":"badPixel","sigmaLow":$,"debayer":{"type":"debayer","channel":"G","colorFilterArray":"GBRG"}},{"type":"gamma","gamma":$}]}`,
	}
	d := z.Param("doc")
	var seq ops.OpSequence
	err := json.Unmarshal(z.JSON(docs[d], v, w), &seq)
	switch d {
	case 6, 7, 8, 9, 10, 14:
		z.Assert(err != nil, "unknown kinds, wrong values and broken text are errors")
		z.Reach("nested")
		return
	}
	z.Assert(err == nil, "the pipeline is read")
	same := func(a, b float32) { z.Assert(z.SameBits(a, b), "values given are taken, others have their default") }
	gamma := func(o ops.Operator, b float32) { same(o.(*stretch.OpGamma).Gamma, b) }
	switch d {
	case 0:
		o := seq.Steps[0].(*OpRGBBalance)
		same(o.Shadows.R, 1)
		same(o.Shadows.G, v)
		same(o.Shadows.B, 1)
		same(o.Highlights.R, w)
		same(o.Highlights.G, 1)
		same(o.Highlights.B, 0.5)
	case 1:
		o := seq.Steps[0].(*ref.OpSelectReference).StarDetect
		same(o.Sigma, v)
		same(o.InOutRatio, w)
		same(o.BadPixelSigma, 0)
		z.Assert(o.Radius == 16, "values given are taken, others have their default")
	case 2, 3:
		var save *ops.OpSave
		if d == 2 {
			o := seq.Steps[0].(*pre.OpBackExtract)
			same(o.Sigma, v)
			save = o.Save
		} else {
			o := seq.Steps[0].(*pre.OpStarDetect)
			same(o.Sigma, v)
			save = o.Save
		}
		same(save.Gamma, w)
		z.Assert(save.FilePattern == []string{"back%d.fits", "stars%d.fits"}[d-2] && save.ExportMode == ops.EMMinMax, "values given are taken, others have their default")
	case 4:
		o := seq.Steps[0].(*stack.OpStackBatches).PerBatch
		z.Assert(len(o.Steps) == 2, "all steps are read")
		gamma(o.Steps[0], v)
		inner := o.Steps[1].(*ops.OpSequence)
		z.Assert(len(inner.Steps) == 2 && inner.Steps[1].GetType() == "rgbCombine", "all steps are read")
		gamma(inner.Steps[0], w)
	case 5:
		o := seq.Steps[0].(*ops.OpLoadMany)
		z.Assert(len(o.FilePatterns) == 2 && o.FilePatterns[0] == "a*.fits" && o.FilePatterns[1] == "b?.fits", "lists are read")
		gamma(seq.Steps[1], v)
		gamma(seq.Steps[2], w)
		text, err := json.Marshal(&seq)
		var again ops.OpSequence
		z.Assert(err == nil && json.Unmarshal(text, &again) == nil && len(again.Steps) == 3, "the pipeline can be written and read again")
		o = again.Steps[0].(*ops.OpLoadMany)
		z.Assert(len(o.FilePatterns) == 2 && o.FilePatterns[0] == "a*.fits" && o.FilePatterns[1] == "b?.fits", "lists are written")
	case 15:
		text, err := json.Marshal(ops.NewOpSequence(pre.NewOpBadPixel(v, 5, pre.NewOpDebayer("G", "GBRG")), stretch.NewOpGamma(w)))
		var again ops.OpSequence
		z.Assert(err == nil && json.Unmarshal(text, &again) == nil && len(again.Steps) == 2, "the pipeline can be written and read again")
		for _, q := range []*ops.OpSequence{&seq, &again} {
			o := q.Steps[0].(*pre.OpBadPixel)
			same(o.SigmaLow, v)
			same(o.SigmaHigh, 5)
			z.Assert(o.Debayer != nil && o.Debayer.Channel == "G" && o.Debayer.ColorFilterArray == "GBRG", "the color filter array is kept")
			gamma(q.Steps[1], w)
		}
	case 11, 12:
		z.Assert(len(seq.Steps) == 0, "an empty pipeline has no steps")
	case 13:
		names := []string{"rgbToHSLuv", "hslApplyLum", "hsluvToRGB", "rgbCombine", "gamma", "gamma"}
		z.Assert(len(seq.Steps) == len(names), "all steps are read")
		for i, n := range names {
			z.Assert(seq.Steps[i].GetType() == n, "steps are in order")
		}
		gamma(seq.Steps[4], v)
		gamma(seq.Steps[5], w)
	}
	z.Reach("nested")
}
