package fits

import (
	"math"

	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// Each channel is mapped so that its shadows and highlights land on the tint given for it, at the common brightness.
//
//verif:harness H06 ch=0..2 vary=0..3
//verif:reach points
//verif:opt tab=64 nomerge timeout=60
func ZZ_H06_points() {
	f := zzImage(2, 1, 3)
	ch := z.Param("ch")
	was := []float32{0.25, 0.75, 0.375, 0.625, 0.3125, 0.5}
	low, high := []float32{0.125, 0.25, 0.1875}, []float32{0.5, 0.625, 0.875}
	tintLow, tintHigh := []float32{1, 0.5, 0.75}, []float32{0.5, 1, 0.875}
	switch z.Param("vary") {
	case 0:
		was[2*ch+z.Choose("pixel", 2)] = z.FracF32("value", 0, 32, 5)
	case 1:
		low[ch] = z.FracF32("low", 0, 15, 4)
	case 2:
		high[ch] = z.FracF32("high", 0, 15, 4)
	case 3:
		tintLow[ch] = z.FracF32("tint", 0, 16, 4)
	}
	copy(f.Data, was)
	f.Stats.Clear()
	f.setBlackWhitePoints(RGB{low[0], low[1], low[2]}, RGB{high[0], high[1], high[2]},
		RGB{tintLow[0], tintLow[1], tintLow[2]}, RGB{tintHigh[0], tintHigh[1], tintHigh[2]}, &z.LogSink{})
	meanLow, meanHigh := (low[0]+low[1]+low[2])/3, (high[0]+high[1]+high[2])/3
	for i, v := range f.Data {
		k := i / 2
		to, end := tintLow[k]*meanLow, tintHigh[k]*meanHigh
		if z.Symbolic() {
			z.Assume(low[k] != high[k])
		} else if low[k] == high[k] {
			z.Stop()
		}
		want := to + (was[i]-low[k])/(high[k]-low[k])*(end-to)
		want = z.IteF32(want < 0, 0, want)
		want = z.IteF32(want > 1, 1, want)
		z.Assert(zzNear(v, want, 1e-3), "shadows and highlights of the channel land on the tint given for it")
	}
	z.Reach("points")
}

// The darkest block is one of the image, and none which lies outside of the border is darker.
//
//verif:harness H06 w=1..6 h=2,4 block=1..3 border=0..2
//verif:harness H06 w=12,19 h=9,13 block=2..4 border=0..2
//verif:thorough w=1..9 h=1..6 block=1..4 border=0..4
//verif:reach darkest
//verif:opt tab=64 nomerge timeout=60
func ZZ_H06_darkest() {
	w, h, block := z.Param("w"), z.Param("h"), z.Param("block")
	border := []float32{0, 0.1, 0.25, 0.5, 0.75}[z.Param("border")]
	f := zzImage(w, h, 3)
	for i := range f.Data {
		f.Data[i] = float32((i*7+3)%16) / 16
	}
	f.Data[z.Choose("plane", 3)*w*h+z.Place(w, h)] = z.FracF32("value", 0, 63, 4)
	got := f.findDarkestBlock(int32(block), border)
	mean := func(x, y, c int) float32 {
		s := float32(0)
		for j := y; j < y+block; j++ {
			for i := x; i < x+block; i++ {
				s += f.Data[c*w*h+j*w+i]
			}
		}
		return s / float32(block*block)
	}
	bx, by := int(float32(w)*border), int(float32(h)*border)
	some, found := false, false
	for y := 0; y+block <= h; y += block {
		for x := 0; x+block <= w; x += block {
			r, g, b := mean(x, y, 0), mean(x, y, 1), mean(x, y, 2)
			some = z.Or(some, z.And(zzNear(got.R, r, 1e-4), z.And(zzNear(got.G, g, 1e-4), zzNear(got.B, b, 1e-4))))
			if x >= bx && y >= by && x+block <= w-bx && y+block <= h-by {
				found = true
				z.Assert(got.R+got.G+got.B <= r+g+b+1e-4, "no block outside of the border is darker")
			}
		}
	}
	if got.R != math.MaxFloat32 {
		z.Assert(some, "the colour is that of a block of the image")
	} else {
		z.Assert(!found, "a block is found if there is one")
	}
	z.Reach("darkest")
}

// The mean star colour is that of all unclipped pixels of the stars which are not skipped.
//
//verif:harness H06 stars=0..3 skip=0..3
//verif:reach colour
//verif:opt tab=64 nomerge timeout=60
func ZZ_H06_starcolour() {
	const w, h = 5, 4
	f := zzImage(w, h, 3)
	for i := range f.Data {
		f.Data[i] = float32((i*7+3)%16) / 16
	}
	skip := []float32{0, 0.34, 0.67, 1}[z.Param("skip")]
	bright, dim := skip, float32(0)
	if z.Bool("dim") {
		bright, dim = 0, skip
	}
	n := z.Param("stars")
	for i := 0; i < n; i++ {
		index := []int{7, 0, 19}[i]
		f.Stars = append(f.Stars, star.Star{Index: int32(index), X: float32(index % w), Y: float32(index / w), HFR: []float32{1.5, 1.4, 3}[i]})
	}
	f.Data[[]int{0, 6, 7, 20 + 7, 40 + 2, 19, 39}[z.Choose("position", 7)]] = z.FracF32("value", 0, 63, 4)
	clip := RGB{0.95, 0.97, 2}
	got := f.meanStarIntensity(bright, dim, clip)
	first, last := int(float32(n)*bright), n-int(float32(n)*dim)
	var sum [3]float32
	count := float32(0)
	for i := first; i < last; i++ {
		s := f.Stars[i]
		r := s.HFR*0.75 + 0.01
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				dx, dy := x-int(s.Index)%w, y-int(s.Index)/w
				if float32(dx*dx+dy*dy) > r*r || dx > int(s.HFR*0.75+0.5) || -dx > int(s.HFR*0.75+0.5) {
					continue
				}
				p := y*w + x
				ok := z.And(f.Data[p] < clip.R, z.And(f.Data[p+w*h] < clip.G, f.Data[p+2*w*h] < clip.B))
				count += z.IteF32(ok, 1, 0)
				for c := range sum {
					sum[c] += z.IteF32(ok, f.Data[p+c*w*h], 0)
				}
			}
		}
	}
	for c, v := range []float32{got.R, got.G, got.B} {
		want := z.IteF32(count > 0, sum[c]/z.IteF32(count > 0, count, 1), 0)
		z.Assert(zzNear(v, want, 1e-4), "the star colour is the mean of the unclipped pixels of the stars")
	}
	z.Reach("colour")
}

// The same for images of other sizes, with many stars.
//
//verif:harness H06 w=20,31 h=17 n=5,12 skip=0..3
//verif:thorough w=9,20,31 h=9,17,24 n=2,5,8,12 skip=0..3
//verif:reach manystars
//verif:opt tab=64 nomerge timeout=60
func ZZ_H06_manystars() {
	w, h, n := z.Param("w"), z.Param("h"), z.Param("n")
	f := zzImage(w, h, 3)
	for i := range f.Data {
		f.Data[i] = float32((i*7+3)%16) / 16
	}
	skip := []float32{0, 0.25, 0.5, 1}[z.Param("skip")]
	bright, dim := skip, float32(0)
	if z.Bool("dim") {
		bright, dim = 0, skip
	}
	for i := 0; i < n; i++ {
		index := (i*i*37 + i*11 + 5) % (w * h)
		f.Stars = append(f.Stars, star.Star{Index: int32(index), X: float32(index % w), Y: float32(index / w), HFR: []float32{1.5, 2.7, 4}[i%3]})
	}
	k := int(f.Stars[z.Choose("star", n)].Index)
	f.Data[z.Choose("plane", 3)*w*h+k] = z.FracF32("value", 0, 63, 4)
	clip := RGB{0.95, 0.97, 2}
	got := f.meanStarIntensity(bright, dim, clip)
	first, last := int(float32(n)*bright), n-int(float32(n)*dim)
	var sum [3]float32
	count := float32(0)
	for i := first; i < last; i++ {
		s := f.Stars[i]
		r := s.HFR*0.75 + 0.01
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				dx, dy := x-int(s.Index)%w, y-int(s.Index)/w
				if float32(dx*dx+dy*dy) > r*r || dx > int(s.HFR*0.75+0.5) || -dx > int(s.HFR*0.75+0.5) {
					continue
				}
				p := y*w + x
				ok := z.And(f.Data[p] < clip.R, z.And(f.Data[p+w*h] < clip.G, f.Data[p+2*w*h] < clip.B))
				count += z.IteF32(ok, 1, 0)
				for c := range sum {
					sum[c] += z.IteF32(ok, f.Data[p+c*w*h], 0)
				}
			}
		}
	}
	for c, v := range []float32{got.R, got.G, got.B} {
		want := z.IteF32(count > 0, sum[c]/z.IteF32(count > 0, count, 1), 0)
		z.Assert(zzNear(v, want, 1e-4), "the star colour is the mean of the unclipped pixels of the stars")
	}
	z.Reach("manystars")
}

// Colour balance ends with finite pixels between zero and one, or with an error, for all settings.
//
//verif:harness H06 block=-1..3,40 setting=0..4
//verif:reach balanced
//verif:opt tab=64 nomerge timeout=90
func ZZ_H06_balance() {
	stats.LSEstimator = stats.LSEMeanStdDev
	const w, h = 4, 3
	f := zzImage(w, h, 3)
	for i := range f.Data {
		f.Data[i] = float32((i*7+3)%16) / 16
	}
	if z.Bool("uniform") {
		for i := 0; i < w*h; i++ {
			f.Data[i] = 0.5
		}
	}
	f.Data[[]int{0, 6, 7, 20, 35}[z.Choose("position", 5)]] = z.FracF32("value", 0, 16, 4)
	f.Stats.Clear()
	for i := 0; i < 2; i++ {
		f.Stars = append(f.Stars, star.Star{Index: int32([]int{6, 1}[i]), HFR: 1.5})
	}
	set := [][3]float32{{0, 0, 0}, {0.1, 0, 0.75}, {0.6, 0.5, 0.5}, {-0.25, 0, 0}, {0, -0.5, 3}}[z.Param("setting")]
	block := z.Param("block")
	err := f.SetBlackWhitePoints(int32(block), set[0], set[1], set[2], RGB{1, 0.5, 1}, RGB{1, 1, 0.75}, &z.LogSink{})
	if block <= 0 || block > h || z.Param("setting") >= 3 {
		z.Assert(err != nil, "settings without meaning are an error")
	}
	for _, v := range f.Data {
		z.Assert(z.And(v >= 0, v <= 1), "pixels are finite and between zero and one")
	}
	z.Reach("balanced")
}

// Channels of larger images.
//
//verif:harness H05 w=16 h=5 n=3,4
//verif:harness H05 w=33 h=3 n=3
//verif:thorough w=9,16,17,33,64 h=5,12,20 n=3,4
//verif:reach planes
//verif:opt tab=64 nomerge timeout=60
func ZZ_H05_planes() {
	w, h, n := z.Param("w"), z.Param("h"), z.Param("n")
	chans := make([]*Image, n)
	var was []float32
	for k := range chans {
		chans[k] = zzImage(w, h)
		for i := range chans[k].Data {
			chans[k].Data[i] = float32(2+k+(i*i+i*k)%13) / 16
		}
	}
	chans[z.Choose("channel", n)].Data[z.Place(w, h)] = z.FracF32("value", -16, 47, 4)
	for _, c := range chans {
		c.Stats.Clear()
		was = append(was, c.Data...)
	}
	rgb := NewRGBFromChannels(chans, nil, 0, &z.LogSink{})
	z.Assert(len(rgb.Naxisn) == 3 && rgb.Naxisn[0] == int32(w) && rgb.Naxisn[1] == int32(h) && rgb.Naxisn[2] == int32(n), "one plane per channel")
	z.Assert(len(rgb.Data) == w*h*n && rgb.Pixels == int32(w*h*n), "one plane per channel")
	lo, hi := was[0], was[0]
	for _, v := range was {
		lo, hi = z.IteF32(v < lo, v, lo), z.IteF32(v > hi, v, hi)
	}
	ok, same := true, true
	for i, v := range was {
		ok = z.And(ok, zzNear(rgb.Data[i], (v-lo)/(hi-lo), 1e-5))
		same = z.And(same, z.SameBits(chans[i/(w*h)].Data[i%(w*h)], v))
	}
	z.Assert(ok, "each plane holds its channel, in the common range")
	z.Assert(same, "the channels themselves stay")
	z.Reach("planes")
}

// Channels end up in their own plane, brought to the range from zero to one by one common map.
//
//verif:harness H05 position=0..5 n=3,4
//verif:reach combined
//verif:opt tab=64 nomerge timeout=60
func ZZ_H05_channels() {
	n := z.Param("n")
	chans := make([]*Image, n)
	var was []float32
	for k := range chans {
		chans[k] = zzImage(2, 1)
		copy(chans[k].Data, []float32{0.25 + float32(k)/8, 0.75 - float32(k)/16})
		chans[k].Exposure = float32(k + 1)
	}
	pos := z.Param("position")
	if wide := z.Choose("wide", 3); wide > 0 { // the channel has the lowest or highest value also elsewhere
		chans[pos/2].Data[1-pos%2] = []float32{0, -2, 4}[wide]
	}
	chans[pos/2].Data[pos%2] = z.FracF32("value", -16, 47, 4)
	for _, c := range chans {
		c.Stats.Clear()
		was = append(was, c.Data...)
	}
	stars := []star.Star{{Index: 1}}
	rgb := NewRGBFromChannels(chans, stars, 2.5, &z.LogSink{})
	z.Assert(len(rgb.Naxisn) == 3 && rgb.Naxisn[0] == 2 && rgb.Naxisn[1] == 1 && rgb.Naxisn[2] == int32(n), "one plane per channel")
	z.Assert(len(rgb.Data) == 2*n && rgb.Pixels == int32(2*n), "one plane per channel")
	lo, hi := was[0], was[0]
	for _, v := range was {
		lo, hi = z.IteF32(v < lo, v, lo), z.IteF32(v > hi, v, hi)
	}
	for i, v := range was {
		z.Assert(zzNear(rgb.Data[i], (v-lo)/(hi-lo), 1e-5), "each plane holds its channel, in the common range")
		z.Assert(z.SameBits(chans[i/2].Data[i%2], v), "the channels themselves stay")
	}
	z.Assert(rgb.Exposure == 6, "exposures of the colours add up")
	z.Assert(len(rgb.Stars) == 1 && rgb.HFR == 2.5, "the stars are those of the alignment frame")
	z.Assert(zzNear(rgb.Stats.Min(), 0, 1e-6) && zzNear(rgb.Stats.Max(), 1, 1e-5), "statistics are those of the colour image")
	z.Reach("combined")
}
