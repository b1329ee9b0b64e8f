package ops

import (
	"errors"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	z "github.com/mlnoga/nightlight/internal/zzverif"
)

// Every promise is materialised exactly once, never more than the permitted number at a time; results come in
// the order of the promises, failures give an error.
//
//verif:harness C01 n=0..3 threads=1,2 forget=0 sched=0..2
//verif:harness C01 n=2,3 threads=3 forget=0 sched=1,2
//verif:harness C01 n=1..3 threads=1,2,4 forget=1 sched=1
//verif:harness C01 n=4 threads=2,3 forget=0 sched=2
//verif:harness C01 n=3 threads=1,2,3 forget=0 sched=3
//verif:thorough n=0..4 threads=1..4 forget=0,1 sched=0..2
//verif:thorough n=3 threads=2,3 forget=0 sched=3
//verif:reach all
//verif:opt race timeout=100
func ZZ_C01_all() {
	n, threads := z.Param("n"), z.Param("threads")
	frames := make([]*fits.Image, n)
	kinds := make([]int, n)
	calls := make([]int, n)
	running, most, failed := 0, 0, 0
	var mu sync.Mutex
	ins := make([]Promise, n)
	want := []*fits.Image{}
	for i := range ins {
		i := i
		frames[i] = zzImage((2*i+1)%n, 1, 1) // the results do not depend on how frames are numbered
		kinds[i] = z.Choose("kind", 4) // frame, no frame, error, another error
		if kinds[i] == 0 {
			want = append(want, frames[i])
		}
		if kinds[i] > 1 {
			failed++
		}
		ins[i] = func() (*fits.Image, error) {
			mu.Lock()
			calls[i]++
			running++
			if running > most {
				most = running
			}
			mu.Unlock()
			z.Yield()
			mu.Lock()
			running--
			mu.Unlock()
			switch kinds[i] {
			case 0:
				return frames[i], nil
			case 1:
				return nil, nil
			case 2:
				return nil, errors.New("broken")
			}
			return nil, errors.New("missing")
		}
	}
	outs, err := MaterializeAll(ins, threads, z.Param("forget") == 1)
	z.Assert(running == 0, "all promises are done")
	z.Assert(most <= threads, "not more than the permitted number run at a time")
	for i := range calls {
		z.Assert(calls[i] == 1, "each promise runs exactly once")
	}
	z.Assert((err != nil) == (failed > 0), "a failing promise is an error")
	if z.Param("forget") == 1 {
		z.Assert(len(outs) == 0, "results are forgotten")
	} else {
		z.Assert(len(outs) == len(want), "every result is returned")
		for i := range want {
			z.Assert(outs[i] == want[i], "results are in the order of the promises")
		}
	}
	z.Reach("all")
}

// The same for many promises, one of which may fail.
//
//verif:harness C01 n=8,16,30 threads=1,2,3,8 forget=0,1
//verif:thorough n=7..9,15..17,30,63..65 threads=1..4,8,16 forget=0,1
//verif:reach many
//verif:opt timeout=60
func ZZ_C01_many() {
	n, threads := z.Param("n"), z.Param("threads")
	frames, kinds, calls := make([]*fits.Image, n), make([]int, n), make([]int, n)
	running, most := 0, 0
	bad := []int{0, 1, threads - 1, threads, n / 2, n - 2, n - 1}[z.Choose("bad", 7)]
	kinds[bad%n] = z.Choose("kind", 4)
	var mu sync.Mutex
	ins := make([]Promise, n)
	want := []*fits.Image{}
	failed := false
	for i := range ins {
		i := i
		frames[i] = zzImage(n-1-i/2, 1, 1)
		if kinds[i] == 0 {
			want = append(want, frames[i])
		}
		failed = failed || kinds[i] > 1
		ins[i] = func() (*fits.Image, error) {
			mu.Lock()
			calls[i]++
			running++
			if running > most {
				most = running
			}
			mu.Unlock()
			z.Yield()
			mu.Lock()
			running--
			mu.Unlock()
			switch kinds[i] {
			case 0:
				return frames[i], nil
			case 1:
				return nil, nil
			case 2:
				return nil, errors.New("broken")
			}
			return frames[i], errors.New("missing")
		}
	}
	outs, err := MaterializeAll(ins, threads, z.Param("forget") == 1)
	z.Assert(running == 0, "all promises are done")
	z.Assert(most <= threads, "not more than the permitted number run at a time")
	for i := range calls {
		z.Assert(calls[i] == 1, "each promise runs exactly once")
	}
	z.Assert((err != nil) == failed, "a failing promise is an error")
	switch {
	case z.Param("forget") == 1:
		z.Assert(len(outs) == 0, "results are forgotten")
	case !failed:
		z.Assert(len(outs) == len(want), "every result is returned")
		for i := range want {
			z.Assert(outs[i] == want[i], "results are in the order of the promises")
		}
	}
	z.Reach("many")
}

// A step for tests: adds its number after doubling, or fails, or skips the frame
type zzStep struct {
	OpUnaryBase
	no, kind int
	seen     *[]int
}

func zzNewStep(no, kind int, seen *[]int) *zzStep {
	s := &zzStep{OpUnaryBase: OpUnaryBase{OpBase: OpBase{Type: "zz"}}, no: no, kind: kind, seen: seen}
	s.OpUnaryBase.Apply = s.Apply
	return s
}

func (s *zzStep) MakePromises(ins []Promise, c *Context) ([]Promise, error) {
	switch s.kind {
	case 3:
		return nil, errors.New("cannot start")
	case 4, 5: // takes all frames and passes none on, or a new one
		*s.seen = append(*s.seen, s.no)
		if s.kind == 4 {
			return nil, nil
		}
		f := zzImage(s.no, 1, 1)
		return []Promise{func() (*fits.Image, error) { return f, nil }}, nil
	}
	return s.OpUnaryBase.MakePromises(ins, c)
}

func (s *zzStep) Apply(f *fits.Image, c *Context) (*fits.Image, error) {
	*s.seen = append(*s.seen, s.no)
	z.Assert(f != nil, "a step is only applied to a frame")
	switch s.kind {
	case 1:
		return nil, errors.New("step failed")
	case 2:
		return nil, nil
	}
	for i := range f.Data {
		f.Data[i] = f.Data[i]*2 + float32(s.no)
	}
	return f, nil
}

// Steps run in order, each on the result of the one before; the first failing step determines the result, a
// skipped frame reaches no further step.
//
//verif:harness J02 n=0..4 nested=0
//verif:harness J02 n=2,3 nested=1,2
//verif:thorough n=0..6 nested=0
//verif:thorough n=1..5 nested=1,2
//verif:reach ran
//verif:opt tab=64 nomerge timeout=60
func ZZ_J02_sequence() {
	n := z.Param("n")
	seen := []int{}
	kinds := make([]int, n)
	steps := []Operator{}
	for i := range kinds {
		kinds[i] = z.Choose("kind", 4) // works, fails, skips the frame, cannot start
		steps = append(steps, zzNewStep(i, kinds[i], &seen))
	}
	var seq *OpSequence
	switch z.Param("nested") {
	case 0:
		seq = NewOpSequence(steps...)
	case 1:
		seq = NewOpSequence(NewOpSequence(steps[:1]...), NewOpSequence(steps[1:]...))
	case 2:
		seq = NewOpSequence()
		seq.Append(steps[0])
		seq.Append(NewOpSequence(steps[1:]...))
	}
	f := zzImage(1, 2, 1)
	f.Data[0] = z.FracF32("pixel", -31, 32, 2)
	v := f.Data[0]
	loads := 0
	outs, err := seq.MakePromises([]Promise{func() (*fits.Image, error) { loads++; return f, nil }}, zzContext())
	start := true
	for _, k := range kinds {
		start = start && k != 3
	}
	if !start {
		z.Assert(err != nil && outs == nil, "a step which cannot start is an error")
		z.Assert(len(seen) == 0 && loads == 0, "nothing runs then")
		z.Reach("ran")
		return
	}
	z.Assert(err == nil && len(outs) == 1, "one result per frame")
	z.Assert(len(seen) == 0 && loads == 0, "nothing runs before the result is wanted")
	g, err := outs[0]()
	z.Assert(loads == 1, "the frame is loaded once")
	want := 0
	for want < n && kinds[want] == 0 {
		want++
	}
	if want < n { // stopped there
		z.Assert(g == nil && (err != nil) == (kinds[want] == 1), "the result is that of the first step which fails or skips")
		want++
	} else {
		z.Assert(g == f && err == nil, "the frame is returned")
	}
	z.Assert(len(seen) == want, "no step is left out or repeated")
	for i := range seen {
		z.Assert(seen[i] == i, "steps run in order")
	}
	if g != nil {
		for i := 0; i < n; i++ {
			v = v*2 + float32(i)
		}
		z.Assert(g.Data[0] == v, "each step works on the result of the one before")
	}
	z.Reach("ran")
}

// Long sequences, also nested ones, with a step which fails, skips the frame or cannot start.
//
//verif:harness J02 n=9,17 depth=1..4
//verif:thorough n=7..9,15..17,33 depth=1..8
//verif:reach long
//verif:opt timeout=60
func ZZ_J02_long() {
	n, depth := z.Param("n"), z.Param("depth")
	seen := []int{}
	bad, kind := n, 0
	if k := z.Choose("bad", 7); k < 6 {
		bad, kind = []int{0, 1, n / 2, n - 3, n - 2, n - 1}[k], 1+z.Choose("kind", 3)
	}
	steps := []Operator{}
	for i := 0; i < n; i++ {
		k := 0
		if i == bad {
			k = kind
		}
		steps = append(steps, zzNewStep(i, k, &seen))
	}
	// every depth-th step begins a sequence of its own, which is the last step of the sequence around it
	for i := n - 1 - n%depth; i > 0; i -= depth {
		steps = append(append([]Operator{}, steps[:i]...), NewOpSequence(steps[i:]...))
	}
	f := zzImage(1, 1, 1)
	f.Data[0] = 1
	outs, err := NewOpSequence(steps...).MakePromises([]Promise{func() (*fits.Image, error) { return f, nil }}, zzContext())
	if kind == 3 {
		z.Assert(err != nil && outs == nil && len(seen) == 0, "a step which cannot start is an error")
		z.Reach("long")
		return
	}
	z.Assert(err == nil && len(outs) == 1 && len(seen) == 0, "one result per frame")
	g, err := outs[0]()
	want := n
	if bad < n {
		want = bad + 1
		z.Assert(g == nil && (err != nil) == (kind == 1), "the result is that of the first step which fails or skips")
	} else {
		z.Assert(g == f && err == nil, "the frame is returned")
	}
	z.Assert(len(seen) == want, "no step is left out or repeated")
	for i := range seen {
		z.Assert(seen[i] == i, "steps run in order")
	}
	z.Reach("long")
}

// Each frame passes through the steps on its own.
//
//verif:harness J02 frames=2,3,20
//verif:reach frames
//verif:opt timeout=60
func ZZ_J02_frames() {
	n := z.Param("frames")
	seen := []int{}
	seq := NewOpSequence(zzNewStep(1, 0, &seen), zzNewStep(2, 0, &seen))
	ins := make([]Promise, n)
	frames := make([]*fits.Image, n)
	bad := z.Choose("failing", n+1)
	for i := range ins {
		i := i
		frames[i] = zzImage(i, 1, 1)
		ins[i] = func() (*fits.Image, error) {
			if i == bad {
				return nil, errors.New("cannot load")
			}
			return frames[i], nil
		}
	}
	outs, err := seq.MakePromises(ins, zzContext())
	z.Assert(err == nil && len(outs) == n, "one result per frame")
	for i := n - 1; i >= 0; i-- {
		was := frames[i].Data[0]
		g, err := outs[i]()
		if i == bad {
			z.Assert(g == nil && err != nil, "a frame which cannot be loaded is an error")
			continue
		}
		z.Assert(err == nil && g == frames[i], "each frame is returned in its place")
		z.Assert(g.Data[0] == (was*2+1)*2+2, "each frame passes every step once")
	}
	_, err = seq.MakePromises(nil, zzContext())
	z.Assert(err != nil, "steps without frames are an error")
	z.Reach("frames")
}

// Saving without a name does nothing.
//
//verif:harness J02
//verif:reach inactive
//verif:opt timeout=60 fs
func ZZ_J02_save() {
	z.FS()
	f := zzImage(1, 2, 1)
	f.Data[0] = z.AnyF32("pixel")
	v := f.Data[0]
	outs, err := NewOpSave("", EMMinMax, 1).MakePromises([]Promise{func() (*fits.Image, error) { return f, nil }}, zzContext())
	z.Assert(err == nil && len(outs) == 1, "one result per frame")
	g, err := outs[0]()
	z.Assert(err == nil && g == f && z.SameBits(g.Data[0], v), "the frame is passed on as it is")
	z.Reach("inactive")
}

// A step may take all frames and pass on none, or others: the steps which follow run all the same, in order.
//
//verif:harness J02 n=1..4 nested=0,1
//verif:thorough n=1..6 nested=0,1
//verif:reach empty
//verif:opt timeout=60
func ZZ_J02_none() {
	n := z.Param("n")
	seen := []int{}
	steps := []Operator{}
	last := 5
	for i := 0; i < n; i++ {
		last = 4 + z.Choose("kind", 2)
		steps = append(steps, zzNewStep(i, last, &seen))
	}
	seq := NewOpSequence(steps...)
	if z.Param("nested") == 1 {
		seq = NewOpSequence(NewOpSequence(steps[:1]...))
		seq.Append(steps[1:]...)
	}
	f := zzImage(9, 1, 1)
	outs, err := seq.MakePromises([]Promise{func() (*fits.Image, error) { return f, nil }}, zzContext())
	z.Assert(err == nil, "steps succeed")
	z.Assert(len(outs) == last-4, "the result is that of the last step")
	z.Assert(len(seen) == n, "no step is left out or repeated")
	for i := range seen {
		z.Assert(seen[i] == i, "steps run in order")
	}
	if len(outs) == 1 {
		g, err := outs[0]()
		z.Assert(err == nil && g.ID == n-1, "the result is that of the last step")
	}
	z.Reach("empty")
}
