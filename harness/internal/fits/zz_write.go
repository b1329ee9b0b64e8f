package fits

import (
	"bytes"
	"errors"
	"math"
	"strings"

	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzSame: equal bits, or both no number. Invalid pixels are stored as zero.
func zzStored(in, out float32) bool {
	return z.Or(z.SameBits(in, out), z.And(in != in, out == 0))
}

func zzImage(dims ...int) *Image {
	n := 1
	naxisn := []int32{}
	for _, d := range dims {
		n *= d
		naxisn = append(naxisn, int32(d))
	}
	data := make([]float32, n)
	return NewImageFromNaxisn(naxisn, data)
}

var zzShapes = [][]int{{1}, {2, 1}, {1, 3}, {2, 2}, {1, 1, 3}, {2, 1, 3}, {1, 2, 2, 1}}

func zzSave(f *Image) []byte {
	var b bytes.Buffer
	err := f.Write(&b)
	z.Assert(err == nil, "an image is written")
	return b.Bytes()
}

func zzLoad(b []byte) *Image {
	g := NewImage()
	err := g.Read(&zzReader{data: append([]byte{}, b...)}, true, &z.LogSink{})
	z.Assert(err == nil, "a written image is read")
	return g
}

// Pixels and dimensions survive saving and loading, bit by bit.
//
//verif:harness F03 shape=0..6
//verif:reach pixels
//verif:opt timeout=60
func ZZ_F03_pixels() {
	f := zzImage(zzShapes[z.Param("shape")]...)
	for i := range f.Data {
		f.Data[i] = z.AnyF32("pixel")
	}
	want := append([]float32{}, f.Data...)
	b := zzSave(f)
	for i := range want {
		z.Assert(z.Or(z.SameBits(f.Data[i], want[i]), f.Data[i] != f.Data[i]), "saving leaves the image unchanged")
	}
	g := zzLoad(b)
	z.Assert(EqualInt32Slice(g.Naxisn, f.Naxisn), "dimensions")
	z.Assert(len(g.Data) == len(want) && int(g.Pixels) == len(want), "number of pixels")
	for i := range want {
		// a signed zero may lose its sign when scale and offset are applied
		z.Assert(z.Or(zzStored(want[i], g.Data[i]), z.And(want[i] == 0, g.Data[i] == 0)), "value of the pixel")
	}
	z.Assert(g.Bitpix == -32 && g.Bzero == 0 && g.Bscale == 1, "type of the data")
	z.Reach("pixels")
}

// The same where the image exceeds the buffer of the writer.
//
//verif:harness F03 extra=0,1,37
//verif:thorough extra=0,1,37,720,4096
//verif:reach large
//verif:opt timeout=60 noobs
func ZZ_F03_large() {
	n := bufLen/4 + z.Param("extra")
	f := zzImage(n, 1)
	for i := range f.Data {
		f.Data[i] = float32(i + 1)
	}
	for i := n - 3; i < n; i++ {
		f.Data[i] = z.AnyF32("pixel")
	}
	g := zzLoad(zzSave(f))
	z.Assert(EqualInt32Slice(g.Naxisn, f.Naxisn), "dimensions")
	z.Assert(len(g.Data) == n, "number of pixels")
	for i := range f.Data {
		z.Assert(z.Or(zzStored(f.Data[i], g.Data[i]), z.And(f.Data[i] == 0, g.Data[i] == 0)), "value of the pixel")
	}
	z.Reach("large")
}

var zzFloats = []float32{0, 1, -1, 0.5, 0.1, -2.75, 300, 1e6, 123456789, 1e7, 1e20, 3.4e38, 1e21, 1e-3, 1e-5, 1.5e-7, 1e-38, 1e-45, math.MaxFloat32, -math.MaxFloat32, 65535, 16777216}
var zzInts = []int32{0, 1, -1, 9, 10, 99, 1000000, math.MaxInt32, math.MinInt32, 20, -300}

// Exposure and header values of each kind survive, whatever their magnitude.
//
//verif:harness F03 kind=0..2
//verif:reach values
//verif:opt timeout=60 nomerge
func ZZ_F03_values() {
	f := zzImage(1, 1)
	f.Data[0] = 7
	switch z.Param("kind") {
	case 0:
		f.Exposure = zzFloats[z.Choose("exposure", len(zzFloats))]
	case 1:
		f.Header.Floats["GAIN"] = zzFloats[z.Choose("float", len(zzFloats))]
		f.Header.Floats["CCD-TEMP"] = -10
		f.Exposure = 1.5
	case 2:
		f.Header.Ints["XBINNING"] = zzInts[z.Choose("int", len(zzInts))]
		f.Header.Bools["GUIDED"] = z.Bool("bool")
		f.Header.Bools["A_B-C3"] = true
	}
	g := zzLoad(zzSave(f))
	z.Assert(g.Exposure == f.Exposure, "exposure")
	z.Assert(len(g.Header.Floats) == len(f.Header.Floats) && len(g.Header.Ints) == len(f.Header.Ints) && len(g.Header.Bools) == len(f.Header.Bools), "number of values of each type")
	for k, v := range f.Header.Floats {
		w, ok := g.Header.Floats[k]
		z.Assert(ok && w == v, "float value")
	}
	for k, v := range f.Header.Ints {
		w, ok := g.Header.Ints[k]
		z.Assert(ok && w == v, "integer value")
	}
	for k, v := range f.Header.Bools {
		w, ok := g.Header.Bools[k]
		z.Assert(ok && w == v, "boolean value")
	}
	z.Assert(g.Data[0] == 7, "the data follows the header")
	z.Reach("values")
}

// Integers of every value survive.
//
//verif:harness F03 digits=1,2,3
//verif:thorough digits=1..5
//verif:reach int
//verif:opt timeout=60
func ZZ_F03_int() {
	f := zzImage(1, 1)
	hi := 1
	for i := 0; i < z.Param("digits"); i++ {
		hi *= 10
	}
	v := z.Int32("value", -hi+1, hi-1)
	f.Header.Ints["OFFSET"] = v
	g := zzLoad(zzSave(f))
	w, ok := g.Header.Ints["OFFSET"]
	z.Assert(ok && w == v, "integer value")
	z.Reach("int")
}

// Strings survive, including quotes, slashes, ampersands and inner blanks, also where a quote or ampersand falls next to the end of a line.
//
//verif:harness F03 len=1,2 pos=0
//verif:harness F03 len=19 pos=15..17
//verif:harness F03 len=84 pos=16,82
//verif:harness F03 len=90 pos=16,82
//verif:harness F03 len=160 pos=81
//verif:thorough len=1..3 pos=0
//verif:thorough len=17..21,83..86,150 pos=14..19
//verif:reach string
//verif:opt timeout=60 noobs
func ZZ_F03_string() {
	n, p := z.Param("len"), z.Param("pos")
	if p >= n {
		z.Stop()
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	k := 2
	if p+k > n {
		k = n - p
	}
	for i := 0; i < k; i++ {
		c := z.Byte("char")
		z.Assume(z.And(c >= 32, c < 127))
		b[p+i] = c
	}
	// trailing blanks are not significant, and an ampersand at the end stands for a continuation
	z.Assume(z.And(b[n-1] != ' ', b[n-1] != '&'))
	s := string(b)
	f := zzImage(1, 1)
	f.Data[0] = 7
	f.Header.Strings["OBJECT"] = s
	f.Header.Strings["TELESCOP"] = "x'y"
	g := zzLoad(zzSave(f))
	w, ok := g.Header.Strings["OBJECT"]
	z.Assert(ok, "the value is there")
	z.Assert(strings.TrimRight(w, " ") == s, "string value")
	z.Assert(strings.TrimRight(g.Header.Strings["TELESCOP"], " ") == "x'y", "value of another string")
	z.Assert(g.Data[0] == 7, "the data follows the header")
	z.Reach("string")
}

// Any number of header entries: the data begins behind the last header block.
//
//verif:harness F03 n=0,1,24,25,26,27,28,29,30,61,62,63,64,65,66
//verif:thorough n=0..140
//verif:reach entries
//verif:opt timeout=60 noobs
func ZZ_F03_entries() {
	f := zzImage(1, 2)
	f.Data[0], f.Data[1] = z.AnyF32("pixel"), 7
	for i := 0; i < z.Param("n"); i++ {
		switch i % 3 {
		case 0:
			f.Header.Ints["I"+zzItoa(i)] = int32(i)
		case 1:
			f.Header.Floats["F"+zzItoa(i)] = float32(i) + 0.5
		case 2:
			f.Header.Bools["B"+zzItoa(i)] = i%2 == 0
		}
	}
	g := zzLoad(zzSave(f))
	z.Assert(len(g.Header.Ints)+len(g.Header.Floats)+len(g.Header.Bools) == z.Param("n"), "number of header values")
	z.Assert(len(g.Data) == 2, "number of pixels")
	z.Assert(z.And(z.Or(zzStored(f.Data[0], g.Data[0]), z.And(f.Data[0] == 0, g.Data[0] == 0)), g.Data[1] == 7), "value of the pixel")
	z.Reach("entries")
}

// zzCards checks the structure of a FITS stream and returns the header lines before END and the data
func zzCards(b []byte) (cards []string, data []byte) {
	z.Assert(len(b)%2880 == 0, "whole blocks")
	pos := 0
	for {
		z.Assert(pos+80 <= len(b), "the header ends")
		c := string(b[pos : pos+80])
		pos += 80
		if strings.TrimRight(c, " ") == "END" {
			break
		}
		cards = append(cards, c)
	}
	for pos%2880 != 0 {
		z.Assert(b[pos] == ' ', "the header is filled up with blanks")
		pos++
	}
	return cards, b[pos:]
}

func zzCheckCards(cards []string, f *Image) {
	key := func(i int, k string) {
		for len(k) < 8 {
			k += " "
		}
		z.Assert(len(cards) > i && cards[i][:10] == k+"= ", "mandatory cards in order")
	}
	key(0, "SIMPLE")
	key(1, "BITPIX")
	key(2, "NAXIS")
	for i := range f.Naxisn {
		key(3+i, "NAXIS"+zzItoa(i+1))
	}
	z.Assert(cards[0][29] == 'T', "SIMPLE is true")
	z.Assert(zzNumber(cards[1]) == "-32", "BITPIX is -32")
	z.Assert(zzNumber(cards[2]) == zzItoa(len(f.Naxisn)), "NAXIS is the number of dimensions")
	for i, n := range f.Naxisn {
		z.Assert(zzNumber(cards[3+i]) == zzItoa(int(n)), "NAXISn is the dimension")
	}
	for _, c := range cards {
		ok := true
		for i := 0; i < 80; i++ {
			ok = z.And(ok, z.And(c[i] >= 32, c[i] <= 126))
		}
		z.Assert(ok, "printable characters")
		z.Assert(c[:3] != "END" || c[3] != ' ', "one END card")
		// keyword, left justified
		end := false
		for i := 0; i < 8; i++ {
			if c[i] == ' ' {
				end = true
				continue
			}
			z.Assert(!end && (c[i] >= 'A' && c[i] <= 'Z' || c[i] >= '0' && c[i] <= '9' || c[i] == '-' || c[i] == '_'), "keyword")
		}
		z.Assert(c[8:10] == "= " || c[:8] == "CONTINUE" || c[:8] == "COMMENT " || c[:8] == "HISTORY " || c[:8] == "        ", "value indicator")
	}
}

// zzNumber: the value in columns 11 to 30, right justified
func zzNumber(c string) string { return strings.TrimLeft(c[10:30], " ") }

// The structure of the file, for each shape.
//
//verif:harness F05 shape=0..6
//verif:reach structure
//verif:opt timeout=60
func ZZ_F05_structure() {
	f := zzImage(zzShapes[z.Param("shape")]...)
	for i := range f.Data {
		f.Data[i] = z.AnyF32("pixel")
	}
	f.Exposure = zzFloats[z.Choose("exposure", len(zzFloats))]
	cards, data := zzCards(zzSave(f))
	zzCheckCards(cards, f)
	z.Assert(len(data) == 2880, "size of the data")
	for i, v := range f.Data {
		u := uint32(data[4*i])<<24 | uint32(data[4*i+1])<<16 | uint32(data[4*i+2])<<8 | uint32(data[4*i+3])
		z.Assert(zzStored(v, math.Float32frombits(u)), "big endian samples")
	}
	z.Reach("structure")
}

// The same for long dimensions, any number of header entries, and values of any magnitude.
//
//verif:harness F05 n=0,1,25,26,27,28,29,62,63,64
//verif:thorough n=0..130
//verif:reach entries
//verif:opt timeout=60 noobs nomerge
func ZZ_F05_entries() {
	f := zzImage(1, 1)
	n := z.Param("n")
	for i := 0; i < n; i++ {
		k := zzItoa(i)
		switch i % 5 {
		case 0:
			f.Header.Ints["INTEGER"+k] = zzInts[i%len(zzInts)]
		case 1:
			f.Header.Floats["F"+k] = zzFloats[i%len(zzFloats)]
		case 2:
			f.Header.Bools["B"+k] = i%2 == 0
		case 3:
			f.Header.Strings["S"+k] = strings.Repeat("x", i*3)
		case 4:
			f.Header.Dates["D"+k] = "2021-03-04T05:06:07"
		}
	}
	if n > 0 {
		f.Header.Floats["VALUE"] = zzFloats[z.Choose("float", len(zzFloats))]
		f.Header.Strings["PROGRAM"] = "other"
	}
	cards, data := zzCards(zzSave(f))
	zzCheckCards(cards, f)
	z.Assert(len(data) == 2880, "size of the data")
	progs := 0
	for _, c := range cards {
		if c[:8] == "PROGRAM " {
			progs++
		}
	}
	z.Assert(progs <= 1, "no keyword twice")
	z.Reach("entries")
}

// Headers of any number of cards, also ones that fill blocks exactly, take as many blocks as they need.
//
//verif:harness F05 n=20..32,60..68
//verif:thorough n=0..110
//verif:reach blocks
//verif:opt timeout=60 noobs
func ZZ_F05_blocks() {
	f := zzImage(1, 1)
	for i := 0; i < z.Param("n"); i++ {
		f.Header.Ints["I"+zzItoa(i)] = int32(i)
	}
	f.Data[0] = z.AnyF32("pixel")
	b := zzSave(f)
	cards, data := zzCards(b)
	zzCheckCards(cards, f)
	z.Assert(len(data) == 2880, "size of the data")
	z.Assert(len(b) == ((len(cards)+1)*80+2879)/2880*2880+2880, "no blocks but those needed")
	z.Reach("blocks")
}

// Data units of any length are filled up to whole blocks.
//
//verif:harness F05 n=719,720,721,1440,4095,4096,4097,5041
//verif:reach length
//verif:opt timeout=60 noobs
func ZZ_F05_length() {
	n := z.Param("n")
	f := zzImage(n)
	for i := range f.Data {
		f.Data[i] = float32(i) + 1
	}
	f.Data[n-1] = z.AnyF32("pixel")
	cards, data := zzCards(zzSave(f))
	zzCheckCards(cards, f)
	z.Assert(len(data) == (4*n+2879)/2880*2880, "size of the data")
	for i, v := range f.Data {
		u := uint32(data[4*i])<<24 | uint32(data[4*i+1])<<16 | uint32(data[4*i+2])<<8 | uint32(data[4*i+3])
		z.Assert(zzStored(v, math.Float32frombits(u)), "big endian samples")
	}
	z.Reach("length")
}

// Long strings with quotes keep the structure.
//
//verif:harness F05 len=1,17,18,19,84,85,151 pos=0,16
//verif:thorough len=1..3,16..20,82..86,148..153 pos=0..20
//verif:reach string
//verif:opt timeout=60 noobs
func ZZ_F05_string() {
	n, p := z.Param("len"), z.Param("pos")
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	for i := p; i < n && i < p+2; i++ {
		c := z.Byte("char")
		z.Assume(z.And(c >= 32, c < 127))
		b[i] = c
	}
	f := zzImage(1, 1)
	f.Header.Strings["OBJECT"] = string(b)
	cards, data := zzCards(zzSave(f))
	zzCheckCards(cards, f)
	z.Assert(len(data) == 2880, "size of the data")
	z.Reach("string")
}

// zzWriter accepts a number of writes, then fails
type zzWriter struct {
	left, short int
	fails       int
	data        []byte
}

var zzErrFull = errors.New("device full")

func (w *zzWriter) Write(p []byte) (int, error) {
	if w.left == 0 {
		w.fails++
		n := len(p)
		if n > w.short {
			n = w.short
		}
		w.data = append(w.data, p[:n]...)
		return n, zzErrFull
	}
	w.left--
	w.data = append(w.data, p...)
	return len(p), nil
}

// A failing writer is reported, wherever it fails.
//
//verif:harness F04 n=1,720,4100
//verif:reach writer
//verif:opt timeout=60 noobs
func ZZ_F04_writer() {
	f := zzImage(z.Param("n"), 1)
	for i := range f.Data {
		f.Data[i] = float32(i) + 1
	}
	w := &zzWriter{left: z.Choose("succeed", 6), short: z.Choose("short", 2) * 7}
	err := f.Write(w)
	z.Assert(w.fails == 0 || err != nil, "failure to write is an error")
	z.Assert(w.fails > 0 || err == nil, "no error without a failure")
	if err == nil {
		z.Assert(bytes.Equal(w.data, zzSave(f)), "all of the image is written")
	}
	z.Reach("writer")
}

var zzFSNames = []string{"a.fits", "a.fits.gz", "a.fit.gzip", "a.FITS.GZ"}

func zzFSFail() {
	switch z.Choose("failing", 5) {
	case 1:
		z.FSFail("open", z.Choose("at", 2), 0)
	case 2:
		z.FSFail("write", z.Choose("at", 5), z.Choose("partial", 2)*3)
	case 3:
		z.FSFail("close", 0, 0)
	case 4:
		z.FSFail("rename", 0, 0)
	}
}

// zzContent is the plain content of the file
func zzContent(name string) []byte {
	b, ok := z.FSGet(name)
	z.Assert(ok, "the file is there")
	if strings.HasSuffix(strings.ToLower(name), "z") || strings.HasSuffix(strings.ToLower(name), ".gzip") {
		p, err := z.Gunzip(append([]byte{}, b...))
		z.Assert(err == nil, "the file is complete")
		return p
	}
	return b
}

func zzOld(name string) {
	n := []int{0, 10, 6000}[z.Choose("previous size", 3)]
	if n > 0 {
		old := make([]byte, n)
		for i := range old {
			old[i] = 'o'
		}
		z.FSPut(name, old)
	}
}

// Success means that the file has exactly the new content; every failure is an error.
//
//verif:harness F04 name=0..3
//verif:reach file
//verif:opt timeout=60 noobs fs
func ZZ_F04_fits() {
	z.FS()
	name := zzFSNames[z.Param("name")]
	zzOld(name)
	f := zzImage(2, 1)
	f.Data[0], f.Data[1] = z.AnyF32("pixel"), 3
	want := zzSave(f)
	zzFSFail()
	err := f.WriteFile(name)
	z.Assert(z.FSFailures() == 0 || err != nil, "every failure is an error")
	if z.FSFailures() == 0 {
		z.Assert(err == nil, "no error without a failure")
	}
	z.Assert(z.FSUnclosed() == 0, "files are closed")
	if err == nil {
		z.Assert(zzSameBytes(zzContent(name), want), "exactly the new content")
		z.Reach("file")
	}
}

func zzSameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = z.And(ok, a[i] == b[i])
	}
	return ok
}

// The same for TIFF and JPEG files.
//
//verif:harness F04 kind=0..3
//verif:reach export
//verif:opt timeout=60 noobs fs
func ZZ_F04_export() {
	z.FS()
	zzOld("a.img")
	var f *Image
	if z.Param("kind")%2 == 0 {
		f = zzImage(2, 1)
	} else {
		f = zzImage(1, 1, 3)
	}
	for i := range f.Data {
		f.Data[i] = float32(i) / 4
	}
	f.Data[0] = z.SmallF32("pixel", 0, 1)
	var want bytes.Buffer
	zzExport(f, &want)
	zzFSFail()
	var err error
	switch z.Param("kind") {
	case 0:
		err = f.WriteMonoTIFF16ToFile("a.img", 0, 1, 1)
	case 1:
		err = f.WriteTIFF16ToFile("a.img", 0, 1, 1)
	case 2:
		err = f.WriteMonoJPGToFile("a.img", 0, 1, 1, 95)
	case 3:
		err = f.WriteJPGToFile("a.img", 0, 1, 1, 95)
	}
	z.Assert(z.FSFailures() == 0 || err != nil, "every failure is an error")
	if z.FSFailures() == 0 {
		z.Assert(err == nil, "no error without a failure")
	}
	z.Assert(z.FSUnclosed() == 0, "files are closed")
	if err == nil {
		b, ok := z.FSGet("a.img")
		z.Assert(ok, "the file is there")
		z.Assert(zzSameBytes(b, want.Bytes()), "exactly the new content")
		z.Reach("export")
	}
}

func zzExport(f *Image, w *bytes.Buffer) {
	var err error
	switch z.Param("kind") {
	case 0:
		err = f.WriteMonoTIFF16(w, 0, 1, 1)
	case 1:
		err = f.WriteTIFF16(w, 0, 1, 1)
	case 2:
		err = f.WriteMonoJPG(w, 0, 1, 1, 95)
	case 3:
		err = f.WriteJPG(w, 0, 1, 1, 95)
	}
	z.Assert(err == nil, "an image is exported")
}
