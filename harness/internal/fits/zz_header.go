package fits

import (
	"math"
	"strings"

	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzKey completes a keyword to the value indicator
func zzKey(k string) string {
	for len(k) < 8 {
		k += " "
	}
	return k + "= "
}

// zzLayout places a value: right justified as in the fixed format, or anywhere, with or without a comment
func zzLayout(key, val string) string {
	switch z.Choose("layout", 5) {
	case 0:
		for len(val) < 20 {
			val = " " + val
		}
		return zzKey(key) + val + " / comment"
	case 1:
		return zzKey(key) + val
	case 2:
		return zzKey(key) + "  " + val + "/ it's = 12.5 'a' / T"
	case 3:
		for len(val) < 20 {
			val = " " + val
		}
		return zzKey(key) + val + "                                      /"
	}
	for len(val) < 70 {
		val = " " + val
	}
	return zzKey(key) + val
}

func zzParse(cards ...string) *Header {
	h := NewHeader()
	all := append([]string{}, cards...)
	err := h.read(&zzReader{data: zzHeader(all...)}, 0, &z.LogSink{})
	z.Assert(err == nil, "header is read")
	z.Assert(h.End, "end of the header")
	return &h
}

// Integers have the value stated, in every layout.
//
//verif:harness F06 digits=1..3 sign=0..2
//verif:thorough digits=1..5 sign=0..2
//verif:reach int
//verif:opt timeout=60
func ZZ_F06_int() {
	n := z.Param("digits")
	b := make([]byte, n)
	want := int32(0)
	for i := range b {
		b[i] = z.Byte("digit")
		z.Assume(z.And(b[i] >= '0', b[i] <= '9'))
		want = want*10 + int32(b[i]-'0')
	}
	s := string(b)
	switch z.Param("sign") {
	case 1:
		s = "-" + s
		want = -want
	case 2:
		s = "+" + s
	}
	h := zzParse("OTHER   = 77", zzLayout("GAIN", s), "LAST    = 'x'")
	v, ok := h.Ints["GAIN"]
	z.Assert(ok && v == want, "integer value")
	_, isF := h.Floats["GAIN"]
	z.Assert(!isF, "one value only")
	z.Assert(h.Ints["OTHER"] == 77 && strings.TrimRight(h.Strings["LAST"], " ") == "x", "values of other cards")
	z.Reach("int")
}

// Floating point values with fraction and exponent, also in the notation with D.
//
//verif:harness F06 int=0,1,2 frac=0,1,2 exp=0
//verif:harness F06 int=1 frac=0,1 exp=1..5
//verif:thorough int=0..3 frac=0..3 exp=0..5
//verif:reach float
//verif:opt timeout=60 tab=128
func ZZ_F06_float() {
	ni, nf := z.Param("int"), z.Param("frac")
	if ni+nf == 0 {
		z.Stop()
	}
	s := ""
	m := 0
	for i := 0; i < ni+nf; i++ {
		if i == ni {
			s += "."
		}
		d := z.Int("digit", 0, 9)
		s += string([]byte{byte('0' + d)})
		m = m*10 + d
	}
	if nf == 0 && (z.Param("exp") == 0 || z.Bool("point")) {
		s += "."
	}
	e := 0
	if z.Param("exp") > 0 {
		e = []int{0, 2, 6, 12}[z.Choose("exponent", 4)]
		t := zzItoa(e)
		if e < 10 && z.Bool("leading zero") {
			t = "0" + t
		}
		switch z.Param("exp") {
		case 1:
			s += "E" + t
		case 2:
			s += "E+" + t
		case 3:
			s += "e-" + t
			e = -e
		case 4:
			s += "D" + t
		case 5:
			s += "d-" + t
			e = -e
		}
	}
	e -= nf
	want := float64(m)
	if e < 0 {
		want /= math.Pow10(-e)
	} else {
		want *= math.Pow10(e)
	}
	if z.Bool("negative") {
		s = "-" + s
		want = -want
	}
	h := zzParse(zzLayout("CCD-TEMP", s))
	v, ok := h.Floats["CCD-TEMP"]
	z.Assert(ok, "a float value")
	z.Assert(v == float32(want), "float value")
	_, isI := h.Ints["CCD-TEMP"]
	z.Assert(!isI, "one value only")
	z.Reach("float")
}

// Integers outside of the 32 bit range keep their value, as floating point numbers.
//
//verif:harness F06
//verif:reach big
//verif:opt timeout=60 nomerge
func ZZ_F06_big() {
	vals := []string{"2147483647", "-2147483648", "2147483648", "-2147483649", "4294967296", "9223372036854775807", "-9223372036854775808", "10000000000"}
	nums := []float64{2147483647, -2147483648, 2147483648, -2147483649, 4294967296, 9223372036854775807, -9223372036854775808, 1e10}
	k := z.Choose("value", len(vals))
	h := zzParse(zzLayout("BZERO", vals[k]))
	if k < 2 {
		z.Assert(h.Ints["BZERO"] == int32(nums[k]), "integer value")
	} else {
		z.Assert(h.Floats["BZERO"] == float32(nums[k]), "value as a float")
		_, ok := h.Ints["BZERO"]
		z.Assert(!ok, "not truncated")
	}
	img := NewImage()
	err := img.Read(&zzReader{data: zzHeader("SIMPLE  = T", "BITPIX  = 8", "NAXIS   = 1", "NAXIS1  = 1", zzLayout("BZERO", vals[k]))}, false, &z.LogSink{})
	z.Assert(err == nil && img.Bzero == float32(nums[k]), "offset of the data")
	z.Reach("big")
}

// Booleans, comments and history.
//
//verif:harness F06 len=1,2,3
//verif:thorough len=1..6
//verif:reach text
//verif:opt timeout=60
func ZZ_F06_text() {
	n := z.Param("len")
	b := make([]byte, n)
	for i := range b {
		b[i] = z.Byte("text")
		z.Assume(z.And(b[i] > 32, b[i] < 127))
	}
	s := string(b)
	h := zzParse("FLAG    = T / "+s, "COMMENT "+s, "HISTORY first "+s, "COMMENT   GAIN = 5", "OTHER   = F", "HISTORY "+s, "HISTORY GAIN    = 7", "        = 3", "        ")
	z.Assert(h.Bools["FLAG"] && !h.Bools["OTHER"], "boolean value")
	_, ok := h.Bools["OTHER"]
	z.Assert(ok && len(h.Bools) == 2, "boolean values")
	z.Assert(len(h.Ints) == 0 && len(h.Floats) == 0 && len(h.Strings) == 0, "no values in commentary")
	z.Assert(len(h.Comments) == 2 && len(h.History) == 3, "commentary lines")
	z.Assert(strings.TrimSpace(h.Comments[0]) == s && strings.TrimSpace(h.Comments[1]) == "GAIN = 5", "comments in order")
	z.Assert(strings.TrimSpace(h.History[0]) == "first "+s && strings.TrimSpace(h.History[1]) == s && strings.TrimSpace(h.History[2]) == "GAIN    = 7", "history in order")
	z.Reach("text")
}

// Strings: quotes within are doubled, everything else stands for itself, also slashes.
//
//verif:harness F06 len=1,2,3 after=0,1
//verif:thorough len=0..5 after=0,1
//verif:reach string
//verif:opt timeout=60
func ZZ_F06_string() {
	n := z.Param("len")
	s, want := "", ""
	for i := 0; i < n; i++ {
		c := z.Byte("char")
		z.Assume(z.And(c >= 32, c < 127))
		if c == '\'' {
			s += "''"
			want += "'"
		} else {
			s += string([]byte{c})
			want += string([]byte{c})
		}
	}
	card := zzKey("OBJECT") + "'" + s + "'"
	if z.Param("after") == 1 {
		card = zzKey("OBJECT") + "'" + s + "    '  / the 'target' = 'M31' / T"
	}
	h := zzParse(card, "NEXT    = 5")
	v, ok := h.Strings["OBJECT"]
	z.Assert(ok, "a string value")
	z.Assert(strings.TrimRight(v, " ") == strings.TrimRight(want, " "), "string value")
	z.Assert(h.Ints["NEXT"] == 5 && len(h.Strings) == 1, "values of other cards")
	z.Reach("string")
}

// The values the program itself uses are those of the file, in integer and in float notation.
//
//verif:harness F06 form=0..3
//verif:reach used
//verif:opt timeout=60
func ZZ_F06_used() {
	digit := func(name string) (string, float32) {
		d := z.Int(name, 0, 9)
		s, v := string([]byte{byte('0' + d)}), float32(d)
		switch z.Param("form") {
		case 0:
			return s, v
		case 1:
			return s + ".5", v + 0.5
		case 2:
			return "-" + s + "E1", -v * 10
		}
		return s + ".0D2", v * 100
	}
	zs, zv := digit("bzero")
	ss, sv := digit("bscale")
	es, ev := digit("exposure")
	ts, tv := digit("exptime")
	cards := []string{"SIMPLE  = T", "BITPIX  = 16", "NAXIS   = 1", "NAXIS1  = 1", zzKey("BZERO") + zs, zzKey("BSCALE") + ss}
	want := float32(0)
	has := z.Choose("exposure cards", 4)
	if has&2 != 0 {
		cards = append(cards, zzKey("EXPTIME")+ts)
		want = tv
	}
	if has&1 != 0 {
		cards = append(cards, zzKey("EXPOSURE")+es)
		want = ev
	}
	img := NewImage()
	err := img.Read(&zzReader{data: zzHeader(cards...)}, false, &z.LogSink{})
	z.Assert(err == nil, "header is read")
	z.Assert(img.Bzero == zv, "offset of the data")
	z.Assert(img.Bscale == sv, "scale of the data")
	z.Assert(img.Exposure == want, "exposure")
	z.Assert(img.Bitpix == 16 && len(img.Naxisn) == 1 && img.Naxisn[0] == 1, "type and dimensions")
	z.Reach("used")
}

// Without scale and offset, samples stand for themselves; values behind END do not count.
//
//verif:harness F06
//verif:reach defaults
//verif:opt timeout=60
func ZZ_F06_defaults() {
	h := zzHeader("SIMPLE  = T", "BITPIX  = 16", "NAXIS   = 1", "NAXIS1  = 1", "END", "BZERO   = 5", "EXPOSURE= 7")
	d := z.Byte("low")
	img := NewImage()
	err := img.Read(&zzReader{data: append(h, 0, d)}, true, &z.LogSink{})
	z.Assert(err == nil && len(img.Data) == 1 && img.Data[0] == float32(d), "samples stand for themselves")
	z.Assert(img.Exposure == 0, "no exposure")
	z.Reach("defaults")
}

// Values in continued strings are put together, and end with the first line which does not continue.
//
//verif:harness F06 len=1,2
//verif:thorough len=1..4
//verif:reach continued
//verif:opt timeout=60
func ZZ_F06_continue() {
	n := z.Param("len")
	b := make([]byte, n)
	for i := range b {
		b[i] = z.Byte("char")
		z.Assume(z.And(z.And(b[i] > 32, b[i] < 127), z.And(b[i] != '\'', b[i] != '&')))
	}
	s := string(b)
	h := zzParse("OBJECT  = 'abc&'", "CONTINUE  '"+s+"&'", "CONTINUE  'd''"+s+"' / comment", "CONTINUE  'ignored'", "OTHER   = '"+s+"&'", "GAIN    = 2", "CONTINUE  'ignored'")
	z.Assert(strings.TrimRight(h.Strings["OBJECT"], " ") == "abc"+s+"d'"+s, "continued string")
	z.Assert(strings.TrimRight(h.Strings["OTHER"], " ") == s+"&", "string with an ampersand")
	z.Assert(h.Ints["GAIN"] == 2 && len(h.Strings) == 2, "other values")
	z.Reach("continued")
}

// Sequences of cards, also across the end of a header block: each card takes effect, continuations belong to the
// string directly before, and the data follows the header.
//
//verif:harness F06 first=0..9 n=3 fill=0,31
//verif:harness F06 first=0,1 n=4 fill=30
//verif:thorough first=0..9 n=4 fill=0,29,30,31,32,33
//verif:reach sequence
//verif:opt timeout=60 noobs
func ZZ_F06_sequence() {
	menu := []string{"OBJECT  = 'M 31&'", "CONTINUE  'abc&'", "CONTINUE  'xyz' / end", "COMMENT some", "HISTORY more", "",
		"FILTER  = 'Ha&'  / band", "GAIN    = 139", "EXPOSURE= 1.5", "?!"}
	cards := []string{"SIMPLE  = T", "BITPIX  = 8", "NAXIS   = 1", "NAXIS1  = 2"}
	for i := 0; i < z.Param("fill"); i++ {
		cards = append(cards, "I"+zzItoa(i+10)+"     = "+zzItoa(i))
	}
	obj, fil, last, comments, history, gain, exposure := "", "", 0, 0, 0, false, false
	for i := 0; i < z.Param("n"); i++ {
		k := z.Param("first")
		if i > 0 {
			k = z.Choose("card", len(menu))
		}
		cards = append(cards, menu[k])
		was := last
		last = 0
		switch k {
		case 0:
			obj, last = "M 31&", 1
		case 6:
			fil, last = "Ha&", 2
		case 1, 2:
			s := &obj
			if was == 2 {
				s = &fil
			}
			if was > 0 && (*s)[len(*s)-1] == '&' {
				*s = (*s)[:len(*s)-1] + []string{"abc&", "xyz"}[k-1]
				last = was
			}
		case 3:
			comments++
		case 4:
			history++
		case 7:
			gain = true
		case 8:
			exposure = true
		}
	}
	img := NewImage()
	err := img.Read(&zzReader{data: append(zzHeader(cards...), 5, 6)}, true, &z.LogSink{})
	z.Assert(err == nil, "the file is read")
	h := &img.Header
	z.Assert(h.Strings["OBJECT"] == obj && h.Strings["FILTER"] == fil, "strings with their continuations")
	z.Assert(len(h.Comments) >= comments && len(h.History) >= history, "comments and history")
	v, ok := h.Ints["GAIN"]
	z.Assert(ok == gain && (!ok || v == 139), "numbers")
	z.Assert(!exposure || img.Exposure == 1.5, "the exposure")
	for i := 0; i < z.Param("fill"); i++ {
		z.Assert(h.Ints["I"+zzItoa(i+10)] == int32(i), "cards before")
	}
	z.Assert(len(img.Data) == 2 && img.Data[0] == 5 && img.Data[1] == 6, "the data follows the header")
	z.Reach("sequence")
}
