package ops

import (
	"bytes"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

func zzContext() *Context {
	return &Context{Log: &z.LogSink{}, MaxThreads: 2, MemoryMB: 1000, StackMemoryMB: 700}
}

func zzImage(id int, dims ...int) *fits.Image {
	n := 1
	naxisn := []int32{}
	for _, d := range dims {
		n *= d
		naxisn = append(naxisn, int32(d))
	}
	data := make([]float32, n)
	for i := range data {
		data[i] = float32(i+id) + 1
	}
	f := fits.NewImageFromNaxisn(naxisn, data)
	f.ID = id
	return f
}

func zzPlain(name string) []byte {
	b, ok := z.FSGet(name)
	z.Assert(ok, "the file is there")
	if strings.HasSuffix(name, ".gz") {
		p, err := z.Gunzip(append([]byte{}, b...))
		z.Assert(err == nil, "the file is complete")
		return p
	}
	return b
}

var zzPatterns = []string{"%d.fits", "out%04d.fits", "dir/a%d_b.fits.gz", "x%02d.tif", "a_%d.jpg", "%3d.fit"}

// Images with different identifiers are saved under different names, all of the files are complete.
//
//verif:harness F08 pattern=0..5 lo=0 hi=12
//verif:harness F08 pattern=0..2 lo=95 hi=105
//verif:harness F08 pattern=0..2 lo=-3 hi=3
//verif:harness F08 pattern=0,1 lo=995 hi=10005
//verif:harness F08 pattern=1 lo=4090 hi=4100
//verif:harness F08 pattern=0,1 lo=65530 hi=65540
//verif:thorough pattern=0..5 lo=0,995,9990 hi=10010
//verif:reach names
//verif:opt timeout=60 fs noobs
func ZZ_F08_names() {
	z.FS()
	p := zzPatterns[z.Param("pattern")]
	a, b := z.Int("a", z.Param("lo"), z.Param("hi")), z.Int("b", z.Param("lo"), z.Param("hi"))
	z.Assume(a < b)
	op := NewOpSave(p, EMMinMax, 1)
	c := zzContext()
	for _, id := range []int{a, b} {
		f := zzImage(7, 1, 2)
		f.ID = id
		g, err := op.Apply(f, c)
		z.Assert(err == nil && g == f, "image is saved and passed on")
	}
	z.Assert(len(z.FSNames()) == 2, "different files")
	z.Reach("names")
}

// A pattern without placeholder is the name.
//
//verif:harness F08 name=0..3
//verif:reach verbatim
//verif:opt timeout=60 fs noobs
func ZZ_F08_verbatim() {
	z.FS()
	p := []string{"a.fits", "100%.fits", "50%_x.tif", "%s%v.fits"}[z.Param("name")]
	f := zzImage(7, 1, 2)
	f.ID = z.Int("id", 0, 99)
	_, err := NewOpSave(p, EMMinMax, 1).Apply(f, zzContext())
	z.Assert(err == nil, "image is saved")
	names := z.FSNames()
	z.Assert(len(names) == 1 && names[0] == p, "the pattern is the name")
	z.Reach("verbatim")
}

var zzSaveNames = []string{"a.fits", "a.FIT.gz", "a.tif", "a.tiff", "a.jpg", "a.jpeg", "a.fts.gzip"}

// Saving succeeds exactly if everything was written, and then the file has just the new content.
//
//verif:harness F04 name=0..6 color=0,1
//verif:reach saved
//verif:opt timeout=60 fs noobs
func ZZ_F04_save() {
	z.FS()
	name := zzSaveNames[z.Param("name")]
	var f *fits.Image
	if z.Param("color") == 0 {
		f = zzImage(3, 2, 1)
	} else {
		f = zzImage(3, 2, 1, 3)
	}
	var want bytes.Buffer
	var err error
	switch {
	case strings.Contains(name, ".f") || strings.Contains(name, ".F"):
		err = f.Write(&want)
	case strings.Contains(name, ".t") && z.Param("color") == 0:
		err = f.WriteMonoTIFF16(&want, 0, 255, 1)
	case strings.Contains(name, ".t"):
		err = f.WriteTIFF16(&want, 0, 255, 1)
	case z.Param("color") == 0:
		err = f.WriteMonoJPG(&want, 0, 255, 1, 95)
	default:
		err = f.WriteJPG(&want, 0, 255, 1, 95)
	}
	z.Assert(err == nil, "the image can be written")
	if z.Bool("previous") {
		old := make([]byte, 7000)
		z.FSPut(name, old)
	}
	switch z.Choose("failing", 4) {
	case 1:
		z.FSFail("open", 0, 0)
	case 2:
		z.FSFail("write", z.Choose("at", 3), z.Choose("partial", 2)*3)
	case 3:
		z.FSFail("close", 0, 0)
	}
	g, err := NewOpSave(name, EM0_255, 1).Apply(f, zzContext())
	z.Assert(z.FSFailures() == 0 || err != nil, "every failure is an error")
	z.Assert(z.FSFailures() > 0 || err == nil, "no error without a failure")
	if err == nil {
		z.Assert(g == f, "the image is passed on")
		b := zzPlain2(name)
		z.Assert(len(b) == want.Len() && bytes.Equal(b, want.Bytes()), "exactly the new content")
		z.Reach("saved")
	}
}

func zzPlain2(name string) []byte {
	b, ok := z.FSGet(name)
	z.Assert(ok, "the file is there")
	if strings.HasSuffix(name, "z") || strings.HasSuffix(name, ".gzip") {
		p, err := z.Gunzip(append([]byte{}, b...))
		z.Assert(err == nil, "the file is complete")
		return p
	}
	return b
}

// What cannot be saved is an error: unknown suffixes, dimensions the format does not have, no image.
//
//verif:harness F04
//verif:reach refused
//verif:opt timeout=60 fs noobs
func ZZ_F04_refused() {
	z.FS()
	var f *fits.Image
	name := "a.tif"
	switch z.Choose("case", 6) {
	case 0:
		f, name = zzImage(3, 2, 1), "a.png"
	case 1:
		f, name = zzImage(3, 2, 1), "fits"
	case 2:
		f = zzImage(3, 2, 1, 2)
	case 3:
		f = zzImage(3, 2)
	case 4:
		f, name = zzImage(3, 2, 1, 4), "a.jpg"
	case 5:
	}
	g, err := NewOpSave(name, EM0_255, 1).Apply(f, zzContext())
	z.Assert(err != nil && g == nil, "an error is reported")
	z.Reach("refused")
}

// zzOutside: the path is absolute or leads outside of the current directory
func zzOutside(p string) bool {
	if len(p) > 0 && p[0] == '/' {
		return true
	}
	depth := 0
	for len(p) > 0 {
		n := 0
		for n < len(p) && p[n] != '/' {
			n++
		}
		part := p[:n]
		if part == ".." {
			depth--
			if depth < 0 {
				return true
			}
		} else if part != "" && part != "." {
			depth++
		}
		if n == len(p) {
			break
		}
		p = p[n+1:]
	}
	return false
}

func zzRun(promises []Promise) {
	for _, p := range promises {
		f, err := p()
		z.Assert(f != nil || err != nil, "an image or an error")
	}
}

func zzCheckOpened() {
	for _, n := range z.FSOpened() {
		z.Assert(!zzOutside(n), "no file outside of the current directory is opened")
	}
}

// Loading one file.
//
//verif:harness F09 pre=0..3 len=0..4
//verif:thorough pre=0..3 len=0..6
//verif:reach load
//verif:opt timeout=60 fs noobs
func ZZ_F09_load() {
	z.FS()
	b := make([]byte, z.Param("len"))
	for i := range b {
		b[i] = []byte{'.', '/', 'a'}[z.Choose("char", 3)]
	}
	name := []string{"", "a", "a/", "../"}[z.Param("pre")] + string(b)
	op := NewOpLoad(0, name)
	promises, err := op.MakePromises(nil, zzContext())
	if err == nil {
		z.Assert(len(promises) == 1, "one promise")
		zzRun(promises)
	}
	zzCheckOpened()
	if !strings.Contains(name, "..") && !zzOutside(name) {
		z.Assert(err == nil && len(z.FSOpened()) == 1 && z.FSOpened()[0] == name, "other files are opened")
		z.Reach("load")
	}
}

// The same with arbitrary characters.
//
//verif:harness F09 len=1..3
//verif:thorough len=1..4
//verif:reach any
//verif:opt timeout=60 fs noobs
func ZZ_F09_any() {
	z.FS()
	b := make([]byte, z.Param("len"))
	for i := range b {
		b[i] = z.Byte("char")
	}
	promises, err := NewOpLoad(0, string(b)).MakePromises(nil, zzContext())
	if err == nil {
		zzRun(promises)
	}
	zzCheckOpened()
	z.Reach("any")
}

// Loading all files which match a pattern: whatever the pattern yields.
//
//verif:harness F09 n=1,2
//verif:reach many
//verif:opt timeout=60 fs noobs
func ZZ_F09_many() {
	z.FS()
	names := []string{"a.fits", "/etc/a.fits", "../a.fits", "sub/b.fits", "sub/../../a.fits", "..", "/"}
	var found []string
	good := 0
	for i := 0; i < z.Param("n"); i++ {
		n := names[z.Choose("name", len(names))]
		found = append(found, n)
		if !zzOutside(n) {
			good++
		}
	}
	for _, n := range found {
		z.FSPut(n, []byte{})
	}
	z.FSGlob(found)
	promises, err := NewOpLoadMany([]string{"*.fits"}).MakePromises(nil, zzContext())
	z.Assert((err == nil) == (good > 0), "an error if there is nothing to load")
	if err == nil {
		zzRun(promises)
	}
	zzCheckOpened()
	z.Assert(len(z.FSOpened()) == good, "all other files are opened")
	z.Reach("many")
}
