package stack

import (
	"runtime"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// zzRecorder is a batch step: it loads all of its inputs and returns one image
type zzRecorder struct {
	ops.OpBase
	sizes, threads []int
	seen           []int // number of batches in which a frame was processed, by frame ID
	last           []int
	result         func(ids []int) *fits.Image
}

func (r *zzRecorder) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	r.sizes, r.threads = append(r.sizes, len(ins)), append(r.threads, c.MaxThreads)
	return []ops.Promise{func() (*fits.Image, error) {
		ids := []int{}
		for _, in := range ins {
			f, err := in()
			if err != nil {
				return nil, err
			}
			r.seen[f.ID]++
			ids = append(ids, f.ID)
		}
		return r.result(ids), nil
	}}, nil
}

// Every frame is processed in exactly one batch, and what is in memory at the same time fits the budget:
// the frames of a batch, one temporary per thread, dark and flat, and with several batches the stack of
// stacks and the reference frame. If one thread and four frames fit, processing goes ahead.
//
//verif:harness K04 nf=1..5 w=256 cpus=1,3
//verif:harness K04 nf=3,7 w=300 cpus=2
//verif:harness K04 nf=12 w=256 cpus=8
//verif:harness K04 nf=25,40 w=256 cpus=4
//verif:harness K04 nf=17 w=999 cpus=2
//verif:harness K04 nf=3,11 w=540672,1048576,2097151 cpus=2
//verif:thorough nf=1..12 w=256 cpus=1..8
//verif:thorough nf=3,7,20 w=300,100,999 cpus=2,5
//verif:reach batches
//verif:reach refused
//verif:opt timeout=60
func ZZ_K04_batches() {
	nf, w := z.Param("nf"), int32(z.Param("w"))
	runtime.GOMAXPROCS(z.Param("cpus"))
	mem := z.Int("memory", 0, 24+z.Param("cpus"))
	axes := []int32{w, 1024}
	if w > 1024 { // frames of hundreds of megapixels
		mem *= int(w) / 256
	}
	c := &ops.Context{Log: &z.LogSink{}, MemoryMB: 99, StackMemoryMB: mem, MaxThreads: z.Param("cpus")}
	extra := 0
	if z.Choose("dark", 2) == 1 {
		c.DarkFrame = &fits.Image{Naxisn: axes}
		extra++
	}
	if z.Choose("flat", 2) == 1 {
		c.FlatFrame = &fits.Image{Naxisn: axes}
		extra++
	}
	ins := make([]ops.Promise, nf)
	for i := range ins {
		id := i
		ins[i] = func() (*fits.Image, error) { return &fits.Image{ID: id, Naxisn: axes}, nil }
	}
	rec := &zzRecorder{OpBase: ops.OpBase{Type: "zz"}, seen: make([]int, nf), result: func(ids []int) *fits.Image {
		return fits.NewImageFromNaxisn([]int32{1, 1}, []float32{1})
	}}
	avail := mem * 1024 * 1024 / (int(w) * 1024 * 4)
	res, err := NewOpStackBatches(ops.NewOpSequence(rec)).Apply(ins, c)
	if err != nil {
		z.Assert(avail-1-extra < 4, "stacking is possible if one thread and four frames fit into memory")
		z.Assert(res == nil, "no result with an error")
		z.Reach("refused")
		return
	}
	for i := range rec.seen {
		z.Assert(rec.seen[i] == 1, "every frame is processed in exactly one batch")
	}
	total := 0
	for i, n := range rec.sizes {
		z.Assert(n >= 1, "no empty batch")
		total += n
		need := n + rec.threads[i] + extra
		if len(rec.sizes) > 1 {
			need += 2
		}
		z.Assert(rec.threads[i] >= 1, "at least one thread")
		z.Assert(need <= avail, "frames in memory at the same time fit into the memory budget")
	}
	z.Assert(total == nf, "batches cover all frames")
	z.Reach("batches")
}

// Nothing to process, or batches which fail, are errors.
//
//verif:harness K04 kind=0..5
//verif:reach error
func ZZ_K04_errors() {
	c := &ops.Context{Log: &z.LogSink{}, MemoryMB: 99, StackMemoryMB: 100, MaxThreads: 2}
	runtime.GOMAXPROCS(2)
	n, kind := 1+z.Choose("n", 3), z.Param("kind")
	bad := z.Choose("bad", n)
	axes := []int32{256, 1024}
	switch kind {
	case 0:
		n = 0
	case 1:
		axes = []int32{0, 1024}
	case 2:
		axes = []int32{256}
	}
	ins := make([]ops.Promise, n)
	for i := range ins {
		id := i
		ins[i] = func() (*fits.Image, error) {
			if kind == 3 && id == bad {
				return nil, zzErr("failed")
			}
			return &fits.Image{ID: id, Naxisn: axes}, nil
		}
	}
	rec := &zzRecorder{OpBase: ops.OpBase{Type: "zz"}, seen: make([]int, n), result: func(ids []int) *fits.Image {
		return fits.NewImageFromNaxisn([]int32{1, 1}, []float32{1})
	}}
	seq := ops.NewOpSequence(rec)
	if kind == 4 {
		seq = nil
	} else if kind == 5 {
		seq = ops.NewOpSequence()
		z.Assume(n > 1)
	}
	res, err := NewOpStackBatches(seq).Apply(ins, c)
	z.Assert(err != nil && res == nil, "error is reported")
	z.Reach("error")
}

type zzErr string

func (e zzErr) Error() string { return string(e) }

// The stack of several batches is the mean of the batch results weighted by their frames, and
// its exposure is the sum of the exposures of all frames.
//
//verif:harness K05 nb=1..4 np=1,2
//verif:thorough nb=1..6 np=1..3
//verif:reach incremental
func ZZ_K05_incremental() {
	nb, np := z.Param("nb"), z.Param("np")
	var st *fits.Image
	sum, n, exp := make([]float32, np), float32(0), float32(0)
	var results []*fits.Image
	var origs [][]float32
	for b := 0; b < nb; b++ {
		data := make([]float32, np)
		cnt := z.SmallF32("frames", 1, 20)
		for p := range data {
			data[p] = z.SmallF32("v", -9000, 9000)
			sum[p] += data[p] * cnt
		}
		orig := append([]float32{}, data...)
		n += cnt
		img := fits.NewImageFromNaxisn([]int32{int32(np), 1}, data)
		img.Exposure = z.SmallF32("exposure", 0, 9000)
		exp += img.Exposure
		st = StackIncremental(st, img, cnt)
		results, origs = append(results, img), append(origs, orig)
	}
	for p := range sum {
		z.Assert(st.Data[p] == sum[p], "weighted sum of the batches")
	}
	StackIncrementalFinalize(st, n)
	for p := range sum {
		z.Assert(z.Or(st.Data[p] == sum[p]*(1/n), st.Data[p] == sum[p]/n), "weighted mean of the batches")
	}
	for b, img := range results {
		for p := range img.Data {
			z.Assert(img.Data[p] == origs[b][p], "batch results are not modified")
		}
	}
	z.Assert(st.Exposure == exp, "exposure is the sum of the exposures")
	z.Observe("stack", st.Data)
	z.Reach("incremental")
}

// Whole pipeline: the mean stack in batches is the mean of all frames, with the sum of their exposures.
//
//verif:harness K05 nf=8 mem=6,50 cpus=1
//verif:thorough nf=8,16 mem=6,50 cpus=1
//verif:thorough nf=8 mem=7 cpus=2
//verif:reach pipeline
func ZZ_K05_pipeline() {
	nf := z.Param("nf")
	runtime.GOMAXPROCS(z.Param("cpus"))
	c := &ops.Context{Log: &z.LogSink{}, MemoryMB: 99, StackMemoryMB: z.Param("mem"), MaxThreads: 2}
	// the dark frame determines the memory needs
	c.DarkFrame = &fits.Image{Naxisn: []int32{256, 1024}}
	ins, sum, exp := make([]ops.Promise, nf), []float32{0, 0}, float32(0)
	for i := range ins {
		img := fits.NewImageFromNaxisn([]int32{2, 1}, []float32{z.SmallF32("v", -9000, 9000), z.SmallF32("v", -9000, 9000)})
		img.ID = i
		img.Exposure = z.SmallF32("exposure", 0, 900)
		sum[0] += img.Data[0]
		sum[1] += img.Data[1]
		exp += img.Exposure
		ins[i] = func() (*fits.Image, error) { return img, nil }
	}
	st, err := NewOpStackBatches(ops.NewOpSequence(NewOpStack(StMean, StWeightNone, 2, 2))).Apply(ins, c)
	z.Assert(err == nil, "no error")
	for p := range sum {
		z.Assert(st.Data[p] == sum[p]/float32(nf), "mean of all frames")
	}
	z.Assert(st.Exposure == exp, "exposure is the sum of the exposures")
	z.Reach("pipeline")
}

// Every frame has the same share in the result, also if the last batch has fewer frames.
//
//verif:harness K05 nf=3,5,7,11 mem=6,7 cpus=1
//verif:harness K05 nf=7 mem=50 cpus=1
//verif:thorough nf=1..20 mem=6..9,50 cpus=1
//verif:reach share
//verif:opt tab=64 nomerge timeout=60
func ZZ_K05_share() {
	nf := z.Param("nf")
	runtime.GOMAXPROCS(z.Param("cpus"))
	c := &ops.Context{Log: &z.LogSink{}, MemoryMB: 99, StackMemoryMB: z.Param("mem"), MaxThreads: 2}
	c.DarkFrame = &fits.Image{Naxisn: []int32{256, 1024}}
	v, bg := z.SmallF32("v", 1, 9), z.SmallF32("background", 0, 3)
	which := z.Choose("frame", nf)
	ins := make([]ops.Promise, nf)
	for i := range ins {
		d := bg
		if i == which {
			d += v
		}
		img := fits.NewImageFromNaxisn([]int32{2, 1}, []float32{d, d})
		img.ID = i
		ins[i] = func() (*fits.Image, error) { return img, nil }
	}
	st, err := NewOpStackBatches(ops.NewOpSequence(NewOpStack(StMean, StWeightNone, 2, 2))).Apply(ins, c)
	z.Assert(err == nil, "no error")
	want := bg + v/float32(nf)
	for _, d := range st.Data {
		z.Assert(d > want*0.9999 && d < want*1.0001, "every frame has the same share")
	}
	z.Reach("share")
}

// Batches of different size cannot be combined.
//
//verif:harness K05 kind=0..2
//verif:reach mismatch
func ZZ_K05_mismatch() {
	runtime.GOMAXPROCS(1)
	c := &ops.Context{Log: &z.LogSink{}, MemoryMB: 99, StackMemoryMB: 6, MaxThreads: 2, DarkFrame: &fits.Image{Naxisn: []int32{256, 1024}}}
	dims := [][]int32{{2, 1}, {3, 1}, {1, 2}, {1, 1}}
	a := dims[z.Param("kind")]
	b := dims[z.Param("kind")+1]
	ins := make([]ops.Promise, 8)
	for i := range ins {
		id := i
		ins[i] = func() (*fits.Image, error) { return &fits.Image{ID: id, Naxisn: []int32{256, 1024}}, nil }
	}
	k := 0
	rec := &zzRecorder{OpBase: ops.OpBase{Type: "zz"}, seen: make([]int, 8), result: func(ids []int) *fits.Image {
		k++
		d := a
		if k > 1 {
			d = b
		}
		return fits.NewImageFromNaxisn(d, make([]float32, d[0]*d[1]))
	}}
	_, err := NewOpStackBatches(ops.NewOpSequence(rec)).Apply(ins, c)
	z.Assume(len(rec.sizes) > 1)
	z.Assert(err != nil, "batches of different size are an error")
	z.Reach("mismatch")
}
