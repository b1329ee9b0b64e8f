package main

import (
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	info   *FnInfo
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	regs   []Value
	bind   []Value
	defers []deferred
	res    ssa.Value // register in the caller receiving the result (nil: discard)
	kind   frameKind
	after  func(st *State, ret Value) // native continuation on return (must be pure wrt closure state)
}
type frameKind uint8

const (
	fkNormal     frameKind = iota
	fkDefer                // deferred call run by RunDefers
	fkDeferPanic           // deferred call during panicking
)

type deferred struct {
	callee *Closure
	args   []Value
}

type Thread struct {
	id     int
	frames []*Frame
	done   bool
	// blocked: predicate for being runnable again
	blocked   func(st *State) bool
	why       string
	panicking bool
	recovered bool
	panicVal  Value
	panicMsg  string
	vc        map[int]int
	ticks     int    // instructions completed
	passed    [3]int // operation for which preemption was decided
	unwinding bool   // runs deferred calls after a panic
}

type Input struct {
	Name string
	Kind string
	T    *Term
	S    string // fixed text inputs
}
type Obs struct {
	Name string
	V    Value
	T    types.Type
}

type State struct {
	ex               *Exec
	id               int
	over             map[int]*Obj
	threads          []*Thread
	cur              int
	pc               []*Term
	model            *Model
	inputs           []Input
	names            map[string]int
	obs              []Obs
	reach            []string
	steps            int
	forks            int
	at               *Stop
	dead             bool
	ended            string
	preempt          int
	nthreads         int
	shadow           map[[2]int]*shadowCell
	initing          bool
	schedTrace       []int
	expectPanicDepth int
	unsure           bool
	extra            map[string]Value
	gates            []string
}

type Stop struct {
	parent   *Stop
	thread   int
	depth    int
	block    *ssa.BasicBlock
	onReturn bool
}

type shadowCell struct {
	wt, wc int // last writer thread, clock
	r      map[int]int
	loc    string
}

func (st *State) clone() *State {
	ex := st.ex
	c := *st
	ex.nextState++
	c.id = ex.nextState
	ex.nextState++
	st.id = ex.nextState // both lose ownership of shared chunks
	c.over = make(map[int]*Obj, len(st.over)+8)
	for k, v := range st.over {
		c.over[k] = v
	}
	c.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		c.threads[i] = t.clone()
	}
	c.pc = st.pc[:len(st.pc):len(st.pc)]
	c.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	c.obs = st.obs[:len(st.obs):len(st.obs)]
	c.reach = st.reach[:len(st.reach):len(st.reach)]
	c.schedTrace = st.schedTrace[:len(st.schedTrace):len(st.schedTrace)]
	c.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		c.names[k] = v
	}
	if st.shadow != nil {
		c.shadow = make(map[[2]int]*shadowCell, len(st.shadow))
		for k, v := range st.shadow {
			c.shadow[k] = v
		}
	}
	if st.extra != nil {
		c.extra = map[string]Value{}
		for k, v := range st.extra {
			c.extra[k] = v
		}
	}
	ex.Forks++
	return &c
}
func (t *Thread) clone() *Thread {
	c := *t
	c.frames = make([]*Frame, len(t.frames))
	for i, f := range t.frames {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		c.frames[i] = &g
	}
	if t.vc != nil {
		c.vc = map[int]int{}
		for k, v := range t.vc {
			c.vc[k] = v
		}
	}
	return &c
}

func (st *State) th() *Thread { return st.threads[st.cur] }
func (st *State) top() *Frame {
	t := st.threads[st.cur]
	return t.frames[len(t.frames)-1]
}

func (st *State) assume(t *Term) {
	if t.IsConst() {
		if t.val == 0 {
			st.dead = true
		}
		return
	}
	if t.op == OAnd {
		st.assume(t.args[0])
		st.assume(t.args[1])
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], t)
	if st.model != nil {
		if v, ok := st.model.GetOK(t); !ok || v == 0 {
			st.model = nil
		}
	}
}

// known looks the condition up among the path's facts
func (st *State) known(c *Term) (bool, bool) {
	if c.IsConst() {
		return c.val == 1, true
	}
	n := st.ex.tt.Not(c)
	for i := len(st.pc) - 1; i >= 0; i-- {
		if st.pc[i] == c {
			return true, true
		}
		if st.pc[i] == n {
			return false, true
		}
	}
	compound := c.op == OAnd || c.op == OOr || c.op == ONot && (c.args[0].op == OAnd || c.args[0].op == OOr)
	if !compound {
		return false, false
	}
	// terms share subterms: each one is looked at once, and not too many of them
	facts := make(map[*Term]bool, len(st.pc))
	for _, p := range st.pc {
		facts[p] = true
	}
	memo := map[*Term][2]bool{}
	budget := 2000
	var look func(c *Term) (bool, bool)
	look = func(c *Term) (bool, bool) {
		if c.IsConst() {
			return c.val == 1, true
		}
		if r, ok := memo[c]; ok {
			return r[0], r[1]
		}
		if budget--; budget < 0 {
			return false, false
		}
		r, ok := false, false
		switch {
		case facts[c]:
			r, ok = true, true
		case facts[st.ex.tt.Not(c)]:
			r, ok = false, true
		case c.op == OAnd || c.op == OOr:
			stop := c.op == OOr // value which decides on its own
			a, aok := look(c.args[0])
			if aok && a == stop {
				r, ok = stop, true
				break
			}
			b, bok := look(c.args[1])
			if bok && b == stop {
				r, ok = stop, true
			} else if aok && bok {
				r, ok = !stop, true
			}
		case c.op == ONot:
			if a := c.args[0]; a.op == OAnd || a.op == OOr {
				r, ok = look(a)
				r = !r
			}
		}
		memo[c] = [2]bool{r, ok}
		return r, ok
	}
	return look(c)
}

// FnInfo caches per-function analysis
type FnInfo struct {
	reg    map[ssa.Value]int
	nreg   int
	ipdom  map[*ssa.BasicBlock]*ssa.BasicBlock
	region map[*ssa.BasicBlock]*regionInfo
}
type regionInfo struct {
	join   *ssa.BasicBlock // nil: function exit
	ok     bool
	cyclic bool
	calls  bool
	instrs int
}

func (ex *Exec) fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := ex.fninfo[fn]; ok {
		return fi
	}
	fi := &FnInfo{reg: map[ssa.Value]int{}, region: map[*ssa.BasicBlock]*regionInfo{}}
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	ex.fninfo[fn] = fi
	return fi
}

func (fi *FnInfo) computeIpdom(fn *ssa.Function) {
	n := len(fn.Blocks)
	// postdom sets as bitsets incl. virtual exit n
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = make([]bool, n)
		for j := range pd[i] {
			pd[i][j] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := make([]bool, n)
			if len(b.Succs) > 0 {
				for j := range nw {
					nw[j] = true
				}
				for _, s := range b.Succs {
					for j := range nw {
						nw[j] = nw[j] && pd[s.Index][j]
					}
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != pd[i][j] {
					pd[i] = nw
					ch = true
					break
				}
			}
		}
	}
	fi.ipdom = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// immediate: postdominator j!=i that is postdominated by all others
		cnt := func(k int) int {
			c := 0
			for _, x := range pd[k] {
				if x {
					c++
				}
			}
			return c
		}
		best := -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j] {
				if best < 0 || cnt(j) > cnt(best) {
					best = j
				}
			}
		}
		if best >= 0 {
			fi.ipdom[b] = fn.Blocks[best]
		}
	}
}

func (ex *Exec) regionOf(fn *ssa.Function, b *ssa.BasicBlock) *regionInfo {
	fi := ex.fnInfo(fn)
	if r, ok := fi.region[b]; ok {
		return r
	}
	if fi.ipdom == nil {
		fi.computeIpdom(fn)
	}
	r := &regionInfo{join: fi.ipdom[b], ok: true}
	state := map[*ssa.BasicBlock]int{}
	var dfs func(x *ssa.BasicBlock)
	dfs = func(x *ssa.BasicBlock) {
		if x == r.join {
			return
		}
		if x == b || state[x] == 1 {
			r.cyclic = true
			return
		}
		if state[x] == 2 {
			return
		}
		state[x] = 1
		for _, in := range x.Instrs {
			r.instrs++
			switch y := in.(type) {
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() != "append" && bi.Name() != "copy" && bi.Name() != "delete" && bi.Name() != "close" && bi.Name() != "recover" {
					break
				}
				if f := y.Call.StaticCallee(); f != nil && ex.pureIntrinsic(f) {
					break
				}
				r.calls = true
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer, *ssa.RunDefers:
				r.ok = false
			case *ssa.UnOp:
				if y.Op.String() == "<-" {
					r.ok = false
				}
			case *ssa.Return, *ssa.Panic:
			}
		}
		for _, s := range x.Succs {
			dfs(s)
		}
		state[x] = 2
	}
	for _, s := range b.Succs {
		dfs(s)
	}
	if r.instrs > 400 {
		r.ok = false
	}
	fi.region[b] = r
	return r
}

func deadline(d time.Duration) time.Time { return time.Now().Add(d) }
