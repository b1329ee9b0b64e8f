package ref

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzStatsFrame: a frame whose statistics differ from those of the others
func zzStatsFrame(i int) *fits.Image {
	f := zzFrame(i, i+2, 0, float32(i)+0.5)
	f.Data = []float32{float32(i), float32(i) + 2}
	f.Naxisn, f.Pixels = []int32{2, 1}, 2
	f.Stats = stats.NewStats(f.Data, 2)
	return f
}

// zzStatsRow is the line for the frame
func zzStatsRow(i int) string {
	v := float32(i)
	return fmt.Sprintf("[%d,%f,%f,%f,%f,%f,%d,%f]", i, v, v+1, v+2, v+1, float32(1), i+2, v+0.5)
}

func zzStatsFile(name string, rows []bool) {
	b, ok := z.FSGet(name)
	some := false
	for _, r := range rows {
		some = some || r
	}
	if !some {
		return // nothing to write
	}
	z.Assert(ok, "the file is written")
	text := string(b)
	for i, r := range rows {
		n := 0
		if r {
			n = 1
		}
		z.Assert(strings.Count(text, zzStatsRow(i)) == n, "one line for each frame which was passed on, with the values of its statistics")
	}
	z.Assert(strings.HasPrefix(text, "<html>") && strings.Count(text, "<html>") == 1, "the file begins with the header")
	z.Assert(bytes.HasSuffix(bytes.TrimSpace(b), []byte("</html>")) && strings.Count(text, "</html>") == 1, "the file ends with the trailer")
	head := strings.Index(text, "['ID'")
	last := strings.LastIndex(text[:strings.Index(text, "function sort")], "]")
	for i, r := range rows {
		if r {
			k := strings.Index(text, zzStatsRow(i))
			z.Assert(head >= 0 && k > head && k < last, "lines are within the table")
		}
	}
}

// The statistics of all frames passed on are in the file, whichever frames are skipped or fail, in one call or
// several (as for batches), and with several exports in a pipeline.
//
//verif:harness F10 n=1,2,3 batches=1 exports=1,2 sched=0
//verif:harness F10 n=2 batches=1 exports=1 sched=1
//verif:harness F10 n=2,3 batches=2 exports=1,2 sched=0
//verif:thorough n=1..4 batches=1,2,3 exports=1,2 sched=0,1
//verif:reach exported
//verif:opt fs timeout=120 noobs
func ZZ_F10_complete() {
	z.FS()
	c := zzContext(2)
	n, batches, exports := z.Param("n"), z.Param("batches"), z.Param("exports")
	if z.Choose("previous", 2) == 1 {
		z.FSPut("a.html", []byte("old content which is longer than nothing"))
	}
	frames, fail, rows := make([]*fits.Image, n), make([]bool, n), make([]bool, n)
	failed := false
	for i := range frames {
		frames[i] = zzStatsFrame(i)
		switch z.Choose("frame", 3) {
		case 0:
			rows[i] = true
		case 1:
			frames[i] = nil // skipped
		case 2:
			fail[i] = true
			failed = true
		}
	}
	names := []string{"a.html", "b.html"}
	var seq *ops.OpSequence
	if exports == 1 {
		seq = ops.NewOpSequence(NewOpExportStats(names[0]))
	} else {
		seq = ops.NewOpSequence(NewOpExportStats(names[0]), NewOpExportStats(names[1]))
	}
	per := (n + batches - 1) / batches
	for lo := 0; lo < n; lo += per {
		hi := lo + per
		if hi > n {
			hi = n
		}
		outs, err := seq.MakePromises(zzNewInputs(frames, fail).ins[lo:hi], c)
		z.Assert(err == nil && len(outs) == hi-lo, "one result per frame")
		res, err := ops.MaterializeAll(outs, 2, false)
		if !failed {
			var want []*fits.Image
			for _, f := range frames[lo:hi] {
				if f != nil {
					want = append(want, f)
				}
			}
			z.Assert(err == nil && len(res) == len(want), "frames are passed on")
			for i := range res {
				z.Assert(res[i] == want[i], "frames are passed on")
			}
		}
	}
	if !failed {
		for i := 0; i < exports; i++ {
			zzStatsFile(names[i], rows)
		}
	}
	z.Reach("exported")
}

// Many frames, in batches, some skipped.
//
//verif:harness F10 n=12,20 batches=1,3 exports=1,2
//verif:thorough n=9..24 batches=1..4 exports=1,2
//verif:reach many
//verif:opt fs timeout=60 noobs
func ZZ_F10_many() {
	z.FS()
	c := zzContext(2)
	n, batches, exports := z.Param("n"), z.Param("batches"), z.Param("exports")
	frames, rows := make([]*fits.Image, n), make([]bool, n)
	skip := []int{-1, 0, n / 2, n - 1}[z.Choose("skipped", 4)]
	for i := range frames {
		if i != skip && i%5 != 3 {
			frames[i], rows[i] = zzStatsFrame(i), true
		}
	}
	names := []string{"a.html", "b.html"}
	seq := ops.NewOpSequence(NewOpExportStats(names[0]))
	if exports == 2 {
		seq = ops.NewOpSequence(NewOpExportStats(names[0]), NewOpExportStats(names[1]))
	}
	per := (n + batches - 1) / batches
	for lo := 0; lo < n; lo += per {
		hi := lo + per
		if hi > n {
			hi = n
		}
		outs, err := seq.MakePromises(zzNewInputs(frames, make([]bool, n)).ins[lo:hi], c)
		z.Assert(err == nil && len(outs) == hi-lo, "one result per frame")
		_, err = ops.MaterializeAll(outs, 1+z.Choose("threads", 3), false)
		z.Assert(err == nil, "frames are passed on")
	}
	for i := 0; i < exports; i++ {
		zzStatsFile(names[i], rows)
	}
	z.Reach("many")
}

// Failures to write the file are errors.
//
//verif:harness F10 n=1,2 kind=0,1,2
//verif:reach failure
//verif:opt fs timeout=120 noobs
func ZZ_F10_failures() {
	z.FS()
	c := zzContext(1)
	n := z.Param("n")
	at := z.Choose("at", 3)
	z.FSFail([]string{"open", "write", "close"}[z.Param("kind")], at, z.Choose("partial", 2))
	op := NewOpExportStats("a.html")
	var ins []ops.Promise
	rows := make([]bool, n)
	for i := 0; i < n; i++ {
		f := zzStatsFrame(i)
		ins = append(ins, func() (*fits.Image, error) { return f, nil })
		rows[i] = true
	}
	outs, err := op.MakePromises(ins, c)
	z.Assert(err == nil && len(outs) == n, "one result per frame")
	some := false
	for _, o := range outs {
		_, err := o()
		some = some || err != nil
	}
	z.Assert(some == (z.FSFailures() > 0), "failures to write are errors, and only these")
	if !some {
		zzStatsFile("a.html", rows)
	}
	z.Assert(z.FSUnclosed() == 0, "files are closed")
	z.Reach("failure")
}
