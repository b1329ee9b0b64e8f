package median

import z "github.com/mlnoga/nightlight/internal/zzverif"

// Each interior pixel becomes the median of its 3x3 neighbourhood, border pixels
// are kept, nothing outside of the output is written and nothing outside of the
// input is used. Runs whichever implementation this machine selects.
//
//verif:harness Q03 w=3..10,14 h=3
//verif:harness Q03 w=1..3 h=1..3
//verif:harness Q03 w=4,8,9 h=4,5
//verif:thorough w=1..16 h=1..5
//verif:reach filtered
func ZZ_Q03_filter() {
	w, h := z.Param("w"), z.Param("h")
	zzFilter(w, h, MedianFilter3x3)
}

// The same for larger images, with one arbitrary pixel.
//
//verif:harness Q03 w=16,17,24,33,40,100 h=4,9 portable=0
//verif:harness Q03 w=12,65 h=10 portable=0,1
//verif:thorough w=9..41,64,65,100 h=4,9,17 portable=0,1
//verif:reach large
//verif:opt timeout=60 tab=64 nomerge
func ZZ_Q03_large() {
	w, h := z.Param("w"), z.Param("h")
	filter := MedianFilter3x3
	if z.Param("portable") == 1 {
		filter = medianFilter3x3PureGo
	}
	const guard = 8
	n := w * h
	inBuf, outBuf := make([]float32, n+2*guard), make([]float32, n+2*guard)
	for i := range inBuf {
		inBuf[i], outBuf[i] = float32(20+i*i*7%23), 99
	}
	inBuf[guard+z.Place(w, h)] = z.SmallF32("px", 0, 60)
	was := append([]float32{}, inBuf...)
	in, out := inBuf[guard:guard+n], outBuf[guard:guard+n]
	filter(out, in, int32(w))
	border, inner, kept := true, true, true
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			o := out[y*w+x]
			if x == 0 || y == 0 || x == w-1 || y == h-1 {
				border = z.And(border, z.SameBits(o, was[guard+y*w+x]))
				continue
			}
			nb := make([]float32, 0, 9)
			for dy := -1; dy <= 1; dy++ {
				nb = append(nb, was[guard+(y+dy)*w+x-1:guard+(y+dy)*w+x+2]...)
			}
			inner = z.And(inner, o == zzSorted(nb)[4])
		}
	}
	for i := range inBuf {
		kept = z.And(kept, z.SameBits(inBuf[i], was[i]))
		if i < guard || i >= guard+n {
			kept = z.And(kept, outBuf[i] == 99)
		}
	}
	z.Assert(border, "border pixel keeps its value")
	z.Assert(inner, "interior pixel is the median of its 3x3 neighbourhood")
	z.Assert(kept, "nothing is written outside of the output image")
	z.Reach("large")
}

func zzFilter(w, h int, filter func(output, data []float32, width int32)) {
	const guard = 8
	n := w * h
	inBuf, outBuf := make([]float32, n+2*guard), make([]float32, n+2*guard)
	for i := range inBuf {
		inBuf[i] = z.NumF32("px")
		outBuf[i] = z.AnyF32("old")
	}
	inWas, outWas := append([]float32{}, inBuf...), append([]float32{}, outBuf...)
	in, out := inBuf[guard:guard+n], outBuf[guard:guard+n]
	filter(out, in, int32(w))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			o := out[y*w+x]
			if x == 0 || y == 0 || x == w-1 || y == h-1 {
				z.Assert(z.SameBits(o, in[y*w+x]), "border pixel keeps its value")
				continue
			}
			nb := make([]float32, 0, 9)
			for dy := -1; dy <= 1; dy++ {
				nb = append(nb, in[(y+dy)*w+x-1:(y+dy)*w+x+2]...)
			}
			z.Assert(zzIsMid(o, nb), "interior pixel is the median of its 3x3 neighbourhood")
		}
	}
	for i := range inBuf {
		z.Assert(z.SameBits(inBuf[i], inWas[i]), "the input image is not modified")
		if i < guard || i >= guard+n {
			z.Assert(z.SameBits(outBuf[i], outWas[i]), "nothing is written outside of the output image")
		}
	}
	z.Observe("out", out)
	z.Reach("filtered")
}
