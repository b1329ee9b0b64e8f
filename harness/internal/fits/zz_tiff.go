package fits

import (
	"math"

	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzTIFF builds an uncompressed TIFF file out of the samples, which are interleaved. The rows are stored in strips of the given number of rows
func zzTIFF(w, h, ch, bits, rows int, big, invert bool, samples []byte) []byte {
	var b []byte
	put16 := func(v int) {
		if big {
			b = append(b, byte(v>>8), byte(v))
		} else {
			b = append(b, byte(v), byte(v>>8))
		}
	}
	put32 := func(v int) {
		if big {
			b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		} else {
			b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
		}
	}
	strips := (h + rows - 1) / rows
	if big {
		b = append(b, 'M', 'M')
	} else {
		b = append(b, 'I', 'I')
	}
	put16(42)
	ifd := 8 + len(samples)
	ext := ifd + 2 + 9*12 + 4 // values which do not fit into an entry
	put32(ifd)
	b = append(b, samples...)
	put16(9)
	entry := func(tag, typ, n, v int) {
		put16(tag)
		put16(typ)
		put32(n)
		if typ == 3 && n <= 2 {
			put16(v)
			put16(v)
		} else {
			put32(v)
		}
	}
	entry(256, 3, 1, w)
	entry(257, 3, 1, h)
	if ch == 1 {
		entry(258, 3, 1, bits)
	} else {
		entry(258, 3, ch, ext)
	}
	entry(259, 3, 1, 1)
	switch {
	case ch == 3:
		entry(262, 3, 1, 2)
	case invert:
		entry(262, 3, 1, 0)
	default:
		entry(262, 3, 1, 1)
	}
	offsets := ext + 6
	if strips == 1 {
		entry(273, 4, 1, 8)
	} else {
		entry(273, 4, strips, offsets)
	}
	entry(277, 3, 1, ch)
	entry(278, 3, 1, rows)
	line := w * ch * bits / 8
	if strips == 1 {
		entry(279, 4, 1, line*h)
	} else {
		entry(279, 4, strips, offsets+4*strips)
	}
	put32(0)
	put16(bits)
	put16(bits)
	put16(bits)
	if strips == 1 {
		return b
	}
	for s := 0; s < strips; s++ {
		put32(8 + s*rows*line)
	}
	for s := 0; s < strips; s++ {
		n := rows
		if s == strips-1 {
			n = h - s*rows
		}
		put32(n * line)
	}
	return b
}

// zzLoadTIFF reads a file through the constructor which all load operators use
func zzLoadTIFF(b []byte, name string) (*Image, error) {
	stats.LSEstimator = stats.LSEMeanStdDev
	z.FS()
	z.FSPut(name, b)
	f, err := NewImageFromFile(name, 7, &z.LogSink{})
	z.Assert(z.FSUnclosed() == 0, "files are closed")
	return f, err
}

// A file of arbitrary samples: one pixel per sample, the planes in order, and the statistics of these pixels.
//
//verif:harness F11 w=1,2 h=1,2 ch=1,3 bits=8,16 rows=2 form=0,1
//verif:harness F11 w=2,3 h=3 ch=1,3 bits=8,16 rows=1,2 form=0
//verif:harness F11 w=2 h=2 ch=1 bits=8,16 rows=1 form=2
//verif:reach loaded
//verif:opt timeout=60 fs
func ZZ_F11_samples() {
	w, h, ch, bits, rows, form := z.Param("w"), z.Param("h"), z.Param("ch"), z.Param("bits"), z.Param("rows"), z.Param("form")
	samples := make([]byte, w*h*ch*bits/8)
	value := make([]int, w*h*ch)
	for i := range value {
		if bits == 8 {
			samples[i] = z.Byte("sample")
			value[i] = int(samples[i])
		} else {
			hi, lo := z.Byte("high"), z.Byte("low")
			value[i] = int(hi)<<8 + int(lo)
			if form == 1 {
				samples[2*i], samples[2*i+1] = hi, lo
			} else {
				samples[2*i], samples[2*i+1] = lo, hi
			}
		}
		if form == 2 {
			value[i] = 1<<uint(bits) - 1 - value[i]
		}
	}
	f, err := zzLoadTIFF(zzTIFF(w, h, ch, bits, rows, form == 1, form == 2, samples), "a.tif")
	z.Assert(err == nil, "the file is read")
	z.Assert(f.ID == 7 && f.FileName == "a.tif" && int(f.Bitpix) == bits && f.Bscale == 1 && f.Bzero == 0, "meta data")
	z.Assert(len(f.Data) == w*h*ch && int(f.Pixels) == w*h*ch, "number of pixels")
	z.Assert(len(f.Naxisn) == 2+ch/2 && int(f.Naxisn[0]) == w && int(f.Naxisn[1]) == h && (ch == 1 || f.Naxisn[2] == 3), "dimensions")
	good := true
	lo, hi, sum := value[0], value[0], 0
	for i := 0; i < w*h; i++ {
		for c := 0; c < ch; c++ {
			v := value[i*ch+c]
			good = z.And(good, f.Data[c*w*h+i] == float32(v))
			lo, hi, sum = z.IteInt(v < lo, v, lo), z.IteInt(v > hi, v, hi), sum+v
		}
	}
	z.Assert(good, "pixels hold the samples, plane by plane")
	if len(value) <= 2 {
		z.Assert(f.Stats.Min() == float32(lo), "minimum of the pixels")
		z.Assert(f.Stats.Max() == float32(hi), "maximum of the pixels")
		m := f.Stats.Mean() * float32(w*h*ch)
		z.Assert(z.And(m >= float32(sum)-1, m <= float32(sum)+1), "mean of the pixels")
	}
	z.Reach("loaded")
}

// One sample of a larger image is arbitrary.
//
//verif:harness F11 w=17,20 h=9 ch=1,3 bits=16 rows=4
//verif:harness F11 w=20 h=9 ch=1 bits=8 rows=4
//verif:harness F11 w=6 h=5 ch=3 bits=8 rows=2
//verif:thorough w=17,33 h=9,12 ch=1,3 bits=8,16 rows=4,5
//verif:reach loaded
//verif:opt timeout=60 fs tab=64 nomerge
func ZZ_F11_larger() {
	w, h, ch, bits := z.Param("w"), z.Param("h"), z.Param("ch"), z.Param("bits")
	samples := make([]byte, w*h*ch*bits/8)
	for i := range samples {
		samples[i] = byte(7 + i*31%211)
	}
	xy := z.Place(w, h)
	c := z.Choose("plane", ch)
	at := (xy*ch + c) * bits / 8
	samples[at] = byte(z.Int("sample", 0, 63)*4 + 1)
	f, err := zzLoadTIFF(zzTIFF(w, h, ch, bits, z.Param("rows"), false, false, samples), "a.tiff")
	z.Assert(err == nil && len(f.Data) == w*h*ch, "the file is read")
	good := true
	lo, hi, sum := float32(math.MaxFloat32), float32(0), float32(0)
	for i := 0; i < w*h; i++ {
		for c := 0; c < ch; c++ {
			k := i*ch + c
			v := float32(samples[k*bits/8])
			if bits == 16 {
				v += 256 * float32(samples[2*k+1])
			}
			good = z.And(good, f.Data[c*w*h+i] == v)
			lo, hi, sum = z.IteF32(v < lo, v, lo), z.IteF32(v > hi, v, hi), sum+v
		}
	}
	z.Assert(good, "pixels hold the samples, plane by plane")
	z.Assert(z.And(f.Stats.Min() == lo, f.Stats.Max() == hi), "extremes of the pixels")
	z.Assert(zzNear(f.Stats.Mean(), sum/float32(w*h*ch), sum*1e-6), "mean of the pixels")
	z.Reach("loaded")
}

// A file which ends early, with an arbitrary byte changed, or of a kind which is not supported, is an error and never a crash.
//
//verif:harness F11 form=0 ch=1,3 cut=1,2,5,7,8,9,12,20,24,40,100,110,112,118,122
//verif:harness F11 form=1,2,3 ch=1,3 cut=0
//verif:reach refused
//verif:opt timeout=60 fs
func ZZ_F11_damaged() {
	ch := z.Param("ch")
	samples := make([]byte, 4*ch)
	for i := range samples {
		samples[i] = z.Byte("sample")
	}
	b := zzTIFF(2, 2, ch, 8, 2, false, false, samples)
	ifd := 8 + len(samples)
	switch z.Param("form") {
	case 0:
		n := len(b) - z.Param("cut")
		if ch == 1 {
			n -= 10 // the values stored outside of the entries are not used
		}
		if n < 0 {
			n = 0
		}
		b = b[:n]
	case 1: // the magic number
		v := z.Byte("changed")
		z.Assume(v != 'I')
		b[0] = v
	case 2: // unknown compression
		v := z.Byte("changed")
		z.Assume(z.And(v > 8, z.And(v != 5, v != 0)))
		b[ifd+2+3*12+8] = v
	case 3: // unknown color model
		v := z.Byte("changed")
		z.Assume(v > 5)
		b[ifd+2+4*12+8] = v
	}
	_, err := zzLoadTIFF(b, "a.tif")
	z.Assert(err != nil, "reported as error")
	z.Reach("refused")
}

// Writing an image and reading it back changes values by at most one quantisation step.
//
//verif:harness F11 ch=1,3 range=0,1,2
//verif:reach same
//verif:opt timeout=60 fs tab=256 nomerge
func ZZ_F11_roundtrip() {
	ch := z.Param("ch")
	min, max := zzRanges[z.Param("range")][0], zzRanges[z.Param("range")][1]
	f := zzImage(2, 1)
	if ch == 3 {
		f = zzImage(2, 1, 3)
	}
	for i := range f.Data {
		f.Data[i] = min + (max-min)*0.25
	}
	p := z.Choose("pixel", len(f.Data))
	v := min + (max-min)*z.FracF32("value", 0, 200, 200)
	f.Data[p] = v
	out := zzExported(ch/2, f, min, max, 1)
	back := float32(out[p])/65535*(max-min) + min
	step := (max - min) / 65535
	z.Assert(z.And(back <= v+step*0.01, back >= v-step*1.02), "the value survives")
	for i := range f.Data {
		z.Assert(i == p || out[i] == 16383, "other pixels")
	}
	z.Reach("same")
}
