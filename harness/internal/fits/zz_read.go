package fits

import (
	"errors"
	"io"
	"math"

	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzReader hands out data in portions of any size, possibly together with the end of file
type zzReader struct {
	data  []byte
	picks int  // number of reads whose size is arbitrary
	eof   bool // report the end of file together with the last data
	fail  int  // fails at this position, if positive
}

var zzErrIO = errors.New("i/o error")

func (r *zzReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		if r.fail > 0 {
			return 0, zzErrIO
		}
		return 0, io.EOF
	}
	n := len(p)
	if n > len(r.data) {
		n = len(r.data)
	}
	if r.picks > 0 && n > 1 {
		r.picks--
		switch z.Choose("portion", 4) {
		case 1:
			n = 1
		case 2:
			n--
		case 3:
			if n > 3 {
				n = 3
			}
		}
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.eof {
		return n, io.EOF
	}
	return n, nil
}

// zzCard pads a header line
func zzCard(s string) []byte {
	b := []byte(s)
	for len(b) < 80 {
		b = append(b, ' ')
	}
	return b[:80]
}

// zzHeader builds header blocks
func zzHeader(cards ...string) []byte {
	var b []byte
	for _, c := range cards {
		b = append(b, zzCard(c)...)
	}
	b = append(b, zzCard("END")...)
	for len(b)%2880 != 0 {
		b = append(b, ' ')
	}
	return b
}

func zzItoa(n int) string {
	if n < 0 {
		return "-" + zzItoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return zzItoa(n/10) + string(rune('0'+n%10))
}

// zzDecode: the physical value of a big endian sample, by definition of the format
func zzDecode(b []byte, bitpix int) (v32 float32) {
	u := uint64(0)
	for _, x := range b {
		u = u<<8 | uint64(x)
	}
	switch bitpix {
	case 8:
		return float32(u)
	case 16:
		return float32(int16(u))
	case 32:
		return float32(int32(u))
	case 64:
		return float32(int64(u))
	case -32:
		return math.Float32frombits(uint32(u))
	}
	return float32(math.Float64frombits(u))
}

func zzAbs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// zzEqual: the same number, or both no number
func zzEqual(a, b float32) bool { return z.Or(a == b, z.And(a != a, b != b)) }

// Every sample is decoded as the format defines, however the data arrives.
//
//verif:harness F02 bp=8,16,-32,-64 np=1,2 sc=0
//verif:harness F02 bp=32,64 np=1 sc=0
//verif:harness F02 bp=8,16,-32 np=1,2 sc=1,2
//verif:harness F02 bp=32 np=1 sc=1,2
//verif:thorough bp=8,16,32,64,-32,-64 np=1,2,3 sc=0,1,2
//verif:reach decoded
//verif:opt timeout=60
func ZZ_F02_decode() {
	bp, np := z.Param("bp"), z.Param("np")
	cards := []string{"SIMPLE  = T", "BITPIX  = " + zzItoa(bp), "NAXIS   = 2", "NAXIS1  = " + zzItoa(np), "NAXIS2  = 1"}
	bzero, bscale := float32(0), float32(1)
	switch z.Param("sc") {
	case 1:
		bzero = 32768
		cards = append(cards, "BZERO   = 32768", "BSCALE  = 1")
	case 2:
		bzero, bscale = -2, 0.5
		cards = append(cards, "BZERO   = -2.0", "BSCALE  = 0.5")
	}
	size := zzAbs(bp) / 8
	raw := make([]byte, np*size)
	for i := range raw {
		raw[i] = z.Byte("data")
	}
	r := &zzReader{data: zzHeader(cards...)}
	img := NewImage()
	// the header in one piece, the data in arbitrary portions
	data := append([]byte{}, raw...)
	rest := &zzReader{data: data, picks: 3, eof: z.Bool("eof with data")}
	err := img.Read(io.MultiReader(r, rest), true, &z.LogSink{})
	z.Assert(err == nil, "valid file is read")
	z.Assert(len(img.Data) == np && int(img.Pixels) == np, "number of pixels")
	z.Assert(len(img.Naxisn) == 2 && int(img.Naxisn[0]) == np && img.Naxisn[1] == 1, "dimensions")
	for i := range img.Data {
		val := zzDecode(raw[i*size:(i+1)*size], bp)
		want := val*bscale + bzero
		z.Assert(zzEqual(img.Data[i], want), "physical value of the sample")
	}
	z.Assert(img.Bzero == 0 && img.Bscale == 1, "scaling is incorporated in the data")
	z.Reach("decoded")
}

// The same for images exceeding the read buffer: data is not lost or duplicated where one portion ends and the next begins.
//
//verif:harness F02 bp=8,16,32,64,-32,-64 extra=3
//verif:harness F02 bp=8 extra=1,16387
//verif:harness F02 bp=16,-32 extra=1
//verif:thorough bp=8,16,32,64,-32,-64 extra=1,3,16387
//verif:reach decoded
//verif:opt timeout=60 noobs
func ZZ_F02_large() {
	bp := z.Param("bp")
	size := zzAbs(bp) / 8
	np := 16384/size + z.Param("extra")
	raw := make([]byte, np*size)
	for i := range raw {
		raw[i] = byte(i*7 + i>>8 + 1)
	}
	// arbitrary samples next to the boundary
	for i := 16384 - size; i < 16384+size; i++ {
		if bp < 0 && i%size < 2 {
			continue // the same exponent, to keep out infinite values
		}
		raw[i] = z.Byte("data")
	}
	img := NewImage()
	rest := &zzReader{data: append([]byte{}, raw...), picks: 2, eof: z.Bool("eof with data")}
	err := img.Read(io.MultiReader(&zzReader{data: zzHeader("SIMPLE  = T", "BITPIX  = "+zzItoa(bp), "NAXIS   = 1", "NAXIS1  = "+zzItoa(np))}, rest), true, &z.LogSink{})
	z.Assert(err == nil, "valid file is read")
	z.Assert(len(img.Data) == np, "number of pixels")
	for i := range img.Data {
		z.Assert(zzEqual(img.Data[i], zzDecode(raw[i*size:(i+1)*size], bp)), "physical value of the sample")
	}
	z.Reach("decoded")
}

// A file which ends early, or cannot be read, is an error and never an image.
//
//verif:harness F02 bp=8,16,-32 np=2
//verif:reach incomplete
//verif:opt timeout=60
func ZZ_F02_incomplete() {
	bp, np := z.Param("bp"), z.Param("np")
	size := zzAbs(bp) / 8
	n := z.Choose("missing", np*size) // bytes present
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = z.Byte("data")
	}
	rest := &zzReader{data: raw, picks: 2, eof: z.Bool("eof with data"), fail: z.Choose("fail", 2)}
	img := NewImage()
	err := img.Read(io.MultiReader(&zzReader{data: zzHeader("SIMPLE  = T", "BITPIX  = "+zzItoa(bp), "NAXIS   = 1", "NAXIS1  = "+zzItoa(np))}, rest), true, &z.LogSink{})
	z.Assert(err != nil, "incomplete data is an error")
	z.Reach("incomplete")
}

// Whatever the data portion delivers, reading ends with an image or an error.
//
//verif:harness F01 bp=8,16,32,64,-32,-64 np=1
//verif:reach incomplete
//verif:opt timeout=60
func ZZ_F01_incomplete() { ZZ_F02_incomplete() }

func zzConsistent(img *Image) {
	n := 1
	for _, a := range img.Naxisn {
		z.Assert(a >= 0, "no negative dimension")
		n *= int(a)
	}
	z.Assert(int(img.Pixels) == n, "number of pixels is the product of the dimensions")
}

// Any header value may be damaged: up to len arbitrary bytes in the given card.
//
//verif:harness F01 card=0..4 len=1,2 data=0,1
//verif:harness F01 card=5..7 len=1,2 data=1
//verif:thorough card=0..7 len=1,2,3 data=0,1
//verif:reach value
//verif:opt timeout=60 noobs
func ZZ_F01_value() {
	n := z.Param("len")
	val := make([]byte, n)
	for i := range val {
		val[i] = z.Byte("value")
	}
	keys := []string{"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "BZERO", "BSCALE", "EXPOSURE"}
	vals := []string{"T", "8", "2", "2", "1", "0", "1", "1"}
	var cards []byte
	for i := range keys {
		k := keys[i]
		for len(k) < 8 {
			k += " "
		}
		c := zzCard(k + "= " + vals[i])
		if i == z.Param("card") {
			copy(c[10:], val)
		}
		cards = append(cards, c...)
	}
	cards = append(cards, zzCard("END")...)
	for len(cards)%2880 != 0 {
		cards = append(cards, ' ')
	}
	cards = append(cards, 1, 2, 3, 4)
	img := NewImage()
	err := img.Read(&zzReader{data: cards}, z.Param("data") != 0, &z.LogSink{})
	if err == nil {
		zzConsistent(img)
		if z.Param("data") != 0 {
			z.Assert(len(img.Data) == int(img.Pixels), "one value per pixel")
		}
	}
	z.Reach("value")
}

// Any card may be damaged: arbitrary bytes at the given position.
//
//verif:harness F01 pos=0,1,7,8,9,10,11 len=1
//verif:harness F01 pos=0,7 len=2
//verif:thorough pos=0..12,40,78 len=1,2
//verif:reach card
//verif:opt timeout=60 noobs
func ZZ_F01_card() {
	c := zzCard("OBJECT  = 'M 31' / x")
	if z.Bool("history") {
		c = zzCard("HISTORY calibrated")
	}
	for i := 0; i < z.Param("len"); i++ {
		c[z.Param("pos")+i] = z.Byte("card")
	}
	h := zzHeader("SIMPLE  = T", "BITPIX  = 8", "NAXIS   = 1", "NAXIS1  = 2", string(c))
	img := NewImage()
	err := img.Read(&zzReader{data: append(h, 5, 6)}, true, &z.LogSink{})
	if err == nil {
		zzConsistent(img)
		z.Assert(len(img.Data) == int(img.Pixels), "one value per pixel")
	}
	z.Reach("card")
}

// Dimensions of any size: products beyond the addressable range are an error.
//
//verif:harness F01 na=0..4 data=0,1
//verif:thorough na=0..7 data=0,1
//verif:reach dims
//verif:opt timeout=60
func ZZ_F01_dims() {
	na := z.Param("na")
	cards := []string{"SIMPLE  = T", "BITPIX  = 8", "NAXIS   = " + zzItoa(na)}
	want := int64(1)
	sizes := []int{-1, 0, 1, 2, 65535, 65536, 2147483647}
	valid := true
	for i := 1; i <= na; i++ {
		v := sizes[z.Choose("size", len(sizes))]
		cards = append(cards, "NAXIS"+zzItoa(i)+"  = "+zzItoa(v))
		if v < 0 {
			valid = false
		}
		if valid && want <= 1<<31 {
			want *= int64(v)
		}
	}
	if z.Param("data") != 0 && want > 4 {
		z.Stop() // would read an image this large
	}
	img := NewImage()
	err := img.Read(&zzReader{data: append(zzHeader(cards...), 1, 2, 3, 4)}, z.Param("data") != 0, &z.LogSink{})
	if err == nil {
		zzConsistent(img)
		z.Assert(valid && int64(img.Pixels) == want, "dimensions as in the file")
		z.Assert(len(img.Naxisn) == na, "number of dimensions as in the file")
	}
	if valid && want > 0 && want <= 4 && na > 0 {
		z.Assert(err == nil, "valid dimensions are accepted")
	}
	z.Reach("dims")
}

// A header cut off at any point, or without END, is an error.
//
//verif:harness F01 blocks=0,1,2
//verif:reach cut
//verif:opt timeout=60
func ZZ_F01_cut() {
	h := zzHeader("SIMPLE  = T", "BITPIX  = 8", "NAXIS   = 1", "NAXIS1  = 2")
	copy(h[4*80:], zzCard("COMMENT no end")) // instead of END
	var b []byte
	for i := 0; i < z.Param("blocks"); i++ {
		b = append(b, h...)
	}
	cut := []int{0, 1, 79, 80, 2879}[z.Choose("cut", 5)]
	b = append(b, h[:cut]...)
	img := NewImage()
	err := img.Read(&zzReader{data: b, picks: 2, fail: z.Choose("fail", 2), eof: z.Bool("eof with data")}, true, &z.LogSink{})
	z.Assert(err != nil, "incomplete header is an error")
	z.Reach("cut")
}

// Mandatory cards missing, repeated, contradicting or in any order: an image or an error.
//
//verif:harness F01 first=0..9 n=4
//verif:thorough first=0..9 n=5
//verif:reach order
//verif:opt timeout=60 noobs
func ZZ_F01_order() {
	menu := []string{"SIMPLE  = T", "BITPIX  = 8", "BITPIX  = -32", "BITPIX  = 7", "NAXIS   = 1", "NAXIS   = 2", "NAXIS1  = 2", "NAXIS2  = 1", "END", "NAXIS   = 'x'"}
	cards := []string{}
	for i := 0; i < z.Param("n"); i++ {
		k := z.Param("first")
		if i > 0 {
			k = z.Choose("card", len(menu))
		}
		cards = append(cards, menu[k])
	}
	img := NewImage()
	err := img.Read(&zzReader{data: append(zzHeader(cards...), 1, 2, 3, 4, 5, 6, 7, 8)}, true, &z.LogSink{})
	if err == nil {
		zzConsistent(img)
		z.Assert(len(img.Data) == int(img.Pixels), "one value per pixel")
		z.Assert(img.Bitpix == 8 || img.Bitpix == -32, "a valid sample format")
	}
	z.Reach("order")
}
