package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type forkReq struct{ cond *Term }
type blockReq struct {
	pred func(*State) bool
	why  string
}
type unsupported struct{ msg string }
type goPanic struct {
	val Value
	msg string
}
type endPath struct{ why string }
type yieldReq struct{}

type Violation struct {
	Kind   string // assert, panic, deadlock, race
	Msg    string
	Where  string
	Inputs []Input
	Model  *Model
	Sched  []int
	Gates  []string
	Sig    string
	doc    *replayDoc
}

type Exec struct {
	prog                                  *ssa.Program
	mod                                   string
	tt                                    *TermTable
	sol                                   *Solver
	lay                                   Layouts
	base                                  map[int]*Obj
	globals                               map[*ssa.Global]int
	inited                                map[*ssa.Package]int
	fninfo                                map[*ssa.Function]*FnInfo
	nextObj                               int
	nextState                             int
	baseOwner                             int
	Forks, Merges, Paths, Steps, Branches int
	Asserts                               int
	AssertSites                           map[string]int
	ReachCount                            map[string]int
	Unsupported                           map[string]int
	Unknowns                              int
	Dead                                  int
	NComplete                             int
	Violations                            []Violation
	Deadline                              time.Time
	TimedOut                              bool
	MaxSteps                              int
	MaxPaths                              int
	Params                                map[string]int
	opt                                   Options
	called                                map[*ssa.Function]bool
	intr                                  map[string]intrinsic
	redirect                              map[string]*ssa.Function
	completed                             []*CompletedPath
	funcByName                            map[string]*ssa.Function
	strTab                                map[string]*Str
	trace                                 bool
	typeByName                            map[string]types.Type
	ufMath                                bool
	asm                                   map[string]*asmPkg
	constCache                            map[*ssa.Const]Value
	harnessPos                            string

	jsonTypes map[string]types.Type
	stopAll   bool
	CutByViol bool
	regexps   map[int]*rxInfo
	ctxNames  map[string]bool
	nfresh    int
	jsonVals  []Iface
}

type Options struct {
	NoMerge    bool
	MergeLoops bool
	AC         bool // float sums independent of order
	UF         bool
	Tab        int
	Sched      int // max preemptive switches explored; -1: deterministic
	Race       bool
	MaxViol    int
	QTimeout   int
	DeadlockOK bool
	NoZeroSign bool
}

type CompletedPath struct {
	Inputs []Input
	Model  *Model
	Obs    []Obs
	Reach  []string
	Sched  []int
	Gates  []string
}

func (ex *Exec) fn(st *State) string {
	return st.top().fn.String()
}

// ---- deciding ----

func (st *State) decide(c *Term) bool {
	if c.IsConst() {
		return c.val == 1
	}
	if v, ok := st.known(c); ok {
		return v
	}
	panic(forkReq{c})
}

func (ex *Exec) check(st *State, extra *Term) (Res, *Model) {
	if time.Now().After(ex.Deadline) {
		ex.TimedOut = true
		panic(endPath{"timeout"})
	}
	r, m := ex.sol.Check(st.pc, extra)
	if r == RSat && m != nil {
		if ex.tt.hasUF(st.pc, extra) {
			// prefer a model in which the uninterpreted operations have their actual values
			rm := &Model{vars: m.vars, memo: map[*Term]uint64{}, real: true}
			ok := true
			for i := 0; i < len(st.pc) && ok; i++ {
				v, k := rm.GetOK(st.pc[i])
				ok = v == 1 && k
			}
			if ok && extra != nil {
				v, k := rm.GetOK(extra)
				ok = v == 1 && k
			}
			if ok {
				return r, rm
			}
		}
		// guard against encoder/evaluator disagreement
		ok := true
		for _, p := range st.pc {
			if m.Get(p) != 1 {
				ok = false
			}
		}
		if extra != nil && m.Get(extra) != 1 {
			ok = false
		}
		if !ok {
			ex.Unsupported["model disagrees with evaluator"]++
			if os.Getenv("GOSYM_DEBUG") != "" {
				for _, p := range append(append([]*Term{}, st.pc...), extra) {
					if p != nil && m.Get(p) != 1 {
						fmt.Fprintln(os.Stderr, "DISAGREE:", ex.tt.Show(p, 6))
						seen := map[*Term]bool{}
						var walk func(t *Term)
						walk = func(t *Term) {
							if seen[t] {
								return
							}
							seen[t] = true
							for _, a := range t.args {
								walk(a)
							}
							if t.op == OFLt || t.op == OFLe || t.op == OFEq {
								s := t.args[0].sort
								_, has := m.vars[t.args[0]]
								fmt.Fprintln(os.Stderr, "   cmp", t.op, fval(s, m.Get(t.args[0])), fval(s, m.Get(t.args[1])), ex.tt.Show(t.args[0], 2), ex.tt.Show(t.args[1], 2), has)
							}
							if t.op == OUF {
								_, has := m.vars[t]
								fmt.Fprintln(os.Stderr, "   uf", t.id, t.name, fval(Sort{K: KF32, W: 32}, m.Get(t)), has)
							}
						}
						walk(p)
					}
				}
			}
			return RUnknown, nil
		}
	}
	return r, m
}

// sides determines which sides of a condition are feasible. Returns states (nil if infeasible)
func (ex *Exec) sides(st *State, c *Term) (tS, fS *State) {
	if v, ok := st.known(c); ok {
		if v {
			return st, nil
		}
		return nil, st
	}
	ex.Branches++
	nc := ex.tt.Not(c)
	if v, other, ok := ex.freeChoice(st, c); ok {
		m := st.model
		o := st.clone()
		st.forks++
		o.forks++
		st.assume(c)
		st.model = m.with(c, v)
		o.assume(nc)
		o.model = m.with(c, other)
		return st, o
	}
	var mt, mf *Model
	rt, rf := RUnknown, RUnknown
	if st.model != nil {
		if v, ok := st.model.GetOK(c); !ok {
			st.model = nil
		} else if v == 1 {
			rt, mt = RSat, st.model
		} else {
			rf, mf = RSat, st.model
		}
	}
	if mt == nil {
		rt, mt = ex.check(st, c)
	}
	if mf == nil {
		if rt == RUnsat && st.model == nil {
			rf, mf = ex.check(st, nc)
		} else if rf != RSat {
			rf, mf = ex.check(st, nc)
		}
	}
	if rt == RUnknown || rf == RUnknown {
		ex.Unknowns++
	}
	if rt == RUnsat && rf == RUnsat {
		return nil, nil
	}
	if rt == RUnsat {
		st.assume(nc)
		st.model = mf
		return nil, st
	}
	if rf == RUnsat {
		st.assume(c)
		st.model = mt
		return st, nil
	}
	o := st.clone()
	st.forks++
	o.forks++
	st.assume(c)
	st.model = mt
	o.assume(nc)
	o.model = mf
	if rt == RUnknown {
		st.unsure = true
	}
	if rf == RUnknown {
		o.unsure = true
	}
	return st, o
}

// freeChoice: a scheduling decision is constrained by earlier comparisons of the same decision only, so
// that both sides of its comparison to one of two or more values left are feasible whenever the path is
func (ex *Exec) freeChoice(st *State, c *Term) (val, other uint64, ok bool) {
	if c.op != OEq || !c.args[1].IsConst() && !c.args[0].IsConst() {
		return 0, 0, false
	}
	a, k := c.args[0], c.args[1]
	if a.IsConst() {
		a, k = k, a
	}
	if a.op != OVar || !strings.HasPrefix(a.name, "sched#") {
		return 0, 0, false
	}
	other = ^uint64(0)
	for v := uint64(0); v <= uint64(a.hi); v++ {
		if is, known := st.known(ex.tt.Eq(a, ex.tt.Const(int(a.sort.W), v))); known && !is {
			if v == k.val {
				return 0, 0, false
			}
		} else if known {
			return 0, 0, false
		} else if v != k.val && other == ^uint64(0) {
			other = v
		}
	}
	return k.val, other, other != ^uint64(0)
}

// with is the model with another value of the variable compared in c
func (m *Model) with(c *Term, v uint64) *Model {
	if m == nil {
		return nil
	}
	a := c.args[0]
	if a.IsConst() {
		a = c.args[1]
	}
	n := &Model{vars: make(map[*Term]uint64, len(m.vars)+1), memo: map[*Term]uint64{}, real: m.real}
	for k, x := range m.vars {
		n.vars[k] = x
	}
	n.vars[a] = v
	return n
}

func (st *State) ensureModel() bool {
	if st.model != nil {
		return true
	}
	r, m := st.ex.check(st, nil)
	if r == RSat {
		st.model = m
		return true
	}
	if r == RUnsat {
		panic(endPath{"infeasible"})
	}
	st.ex.Unknowns++
	return false
}

// concretize forks over the feasible values of t
func (st *State) concretize(t *Term) uint64 {
	for {
		if t.IsConst() {
			return t.val
		}
		// a value fixed by a fact?
		for i := len(st.pc) - 1; i >= 0; i-- {
			p := st.pc[i]
			if p.op == OEq {
				if p.args[0] == t && p.args[1].IsConst() {
					return p.args[1].val
				}
				if p.args[1] == t && p.args[0].IsConst() {
					return p.args[0].val
				}
			}
		}
		v := uint64(0)
		if st.ensureModel() {
			v = st.model.Get(t)
		} else if t.op == OVar && t.lo >= 0 && t.hi-t.lo < 64 {
			// no model at hand: try all values of the variable
			for v = uint64(t.lo); v < uint64(t.hi); v++ {
				if is, ok := st.known(st.ex.tt.Eq(t, st.ex.tt.Const(int(t.sort.W), v))); !ok || is {
					break
				}
			}
		} else {
			panic(unsupported{"concretize: solver gave no model"})
		}
		c := st.ex.tt.Eq(t, st.ex.tt.Const(int(t.sort.W), v))
		if c.IsConst() {
			if c.val == 1 {
				return v
			}
			panic(endPath{"infeasible"})
		}
		if st.decide(c) {
			return v
		}
	}
}
func (st *State) concInt(v Value) int {
	t := v.(*Term)
	return int(signExt(st.concretize(t), int(t.sort.W)))
}

// ---- main loop ----

func (ex *Exec) run(st *State, stop *Stop) (res []*State) {
	for {
		if ex.stopAll || len(ex.Violations) >= ex.opt.MaxViol && ex.opt.MaxViol > 0 {
			ex.CutByViol = true
			return nil
		}
		if ex.Paths > ex.MaxPaths || time.Now().After(ex.Deadline) {
			ex.TimedOut = true
			ex.stopAll = true
			return nil
		}
		ev := ex.steps(st, stop)
		switch e := ev.(type) {
		case nil:
			return nil
		case atStop:
			return []*State{st}
		case endPath:
			ex.finish(st, e.why)
			return nil
		case forkReq:
			a, b := ex.sides(st, e.cond)
			if a == nil && b == nil {
				ex.Dead++
				return nil
			}
			if a != nil && b != nil {
				r1 := ex.run(a, stop)
				r2 := ex.run(b, stop)
				return append(r1, r2...)
			}
			if a != nil {
				st = a
			} else {
				st = b
			}
		case branchEv:
			out, cont := ex.branch(st, e, stop)
			if cont == nil {
				return out
			}
			st = cont
		}
	}
}

type atStop struct{}
type branchEv struct {
	cond *Term
	t, f *ssa.BasicBlock
}

func (ex *Exec) jump(st *State, to *ssa.BasicBlock) {
	f := st.top()
	f.prev = f.block
	f.block = to
	f.idx = 0
}

func (st *State) hitStop(stop *Stop) *Stop {
	th := st.th()
	f := th.frames[len(th.frames)-1]
	for s := stop; s != nil; s = s.parent {
		if !s.onReturn && s.thread == th.id && s.depth == len(th.frames) && s.block == f.block && f.idx == 0 {
			return s
		}
	}
	return nil
}

func (ex *Exec) branch(st *State, e branchEv, stop *Stop) ([]*State, *State) {
	f := st.top()
	if v, ok := st.known(e.cond); ok {
		if v {
			ex.jump(st, e.t)
		} else {
			ex.jump(st, e.f)
		}
		if s := st.hitStop(stop); s != nil {
			st.at = s
			return []*State{st}, nil
		}
		return nil, st
	}
	ri := ex.regionOf(f.fn, f.block)
	canMerge := !ex.opt.NoMerge && ri.ok && (!ri.cyclic || ex.opt.MergeLoops) && !st.initing
	if ri.join == nil {
		if len(f.defers) > 0 || len(st.th().frames) <= 1 || f.kind != fkNormal || f.after != nil {
			canMerge = false
		}
	}
	if st.th().panicking {
		canMerge = false
	}
	if !canMerge {
		a, b := ex.sides(st, e.cond)
		var out []*State
		if a != nil && b != nil {
			ex.jump(a, e.t)
			ex.jump(b, e.f)
			out = append(out, ex.runFrom(a, stop)...)
			out = append(out, ex.runFrom(b, stop)...)
			return out, nil
		}
		if a != nil {
			ex.jump(a, e.t)
			return ex.cont(a, stop)
		}
		if b != nil {
			ex.jump(b, e.f)
			return ex.cont(b, stop)
		}
		ex.Dead++
		return nil, nil
	}
	// speculative execution of both sides up to the join
	var a, b *State
	nc := ex.tt.Not(e.cond)
	if ri.calls || ri.cyclic {
		a, b = ex.sides(st, e.cond)
		if a == nil && b == nil {
			ex.Dead++
			return nil, nil
		}
		if a == nil || b == nil {
			if a != nil {
				ex.jump(a, e.t)
				return ex.cont(a, stop)
			}
			ex.jump(b, e.f)
			return ex.cont(b, stop)
		}
	} else {
		a = st
		b = st.clone()
		a.assume(e.cond)
		b.assume(nc)
		ex.Branches++
	}
	basePC := st.pc
	_ = basePC
	npc := 0
	for npc < len(a.pc) && npc < len(b.pc) && a.pc[npc] == b.pc[npc] {
		npc++
	}
	orig := b.model
	if a.model != nil {
		orig = a.model
	}
	stop2 := &Stop{parent: stop, thread: st.th().id, depth: len(st.th().frames), block: ri.join, onReturn: ri.join == nil}
	ex.jump(a, e.t)
	ex.jump(b, e.f)
	ra := ex.runFrom(a, stop2)
	rb := ex.runFrom(b, stop2)
	var out []*State
	var at []*State
	var aN, bN []*State
	for _, s := range ra {
		if s.at == stop2 {
			s.at = nil
			aN = append(aN, s)
		} else {
			out = append(out, s)
		}
	}
	for _, s := range rb {
		if s.at == stop2 {
			s.at = nil
			bN = append(bN, s)
		} else {
			out = append(out, s)
		}
	}
	// evaluate phis before merging
	for _, s := range append(append([]*State{}, aN...), bN...) {
		if ri.join != nil {
			ex.phis(s)
		}
	}
	if len(aN) == 1 && len(bN) == 1 {
		if m := ex.merge(aN[0], bN[0], e.cond, npc, orig); m != nil {
			ex.Merges++
			at = append(at, m)
		} else {
			at = append(aN, bN...)
		}
	} else {
		at = append(aN, bN...)
	}
	if len(at) == 1 && len(out) == 0 {
		return ex.cont(at[0], stop)
	}
	for _, s := range at {
		// speculation may have kept an infeasible side alive
		if s.model == nil && len(at) > 1 {
			r, m := RUnknown, (*Model)(nil)
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(endPath); !ok {
							panic(r)
						}
					}
				}()
				r, m = ex.check(s, nil)
			}()
			if r == RUnsat {
				ex.Dead++
				continue
			}
			if r == RUnknown {
				ex.Unknowns++
				s.unsure = true
			}
			s.model = m
		}
		out = append(out, ex.runFrom(s, stop)...)
	}
	return out, nil
}

func (ex *Exec) cont(st *State, stop *Stop) ([]*State, *State) {
	if s := st.hitStop(stop); s != nil {
		st.at = s
		return []*State{st}, nil
	}
	return nil, st
}

func (ex *Exec) runFrom(st *State, stop *Stop) []*State {
	if s := st.hitStop(stop); s != nil {
		st.at = s
		return []*State{st}
	}
	return ex.run(st, stop)
}

// phis of the current block, leaving idx after them
func (ex *Exec) phis(st *State) {
	f := st.top()
	if f.idx != 0 {
		return
	}
	var vals []Value
	n := 0
	for _, in := range f.block.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, pr := range f.block.Preds {
			if pr == f.prev {
				vals = append(vals, ex.val(st, f, p.Edges[i]))
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		f.regs[f.info.reg[f.block.Instrs[i].(ssa.Value)]] = vals[i]
	}
	f.idx = n
}

func (ex *Exec) merge(a, b *State, c *Term, npc int, orig *Model) *State {
	if len(a.gates) != len(b.gates) || a.cur != b.cur || len(a.threads) != len(b.threads) || len(a.inputs) != len(b.inputs) || len(a.obs) != len(b.obs) || a.preempt != b.preempt {
		return nil
	}
	for i := range a.inputs {
		if a.inputs[i].T != b.inputs[i].T || a.inputs[i].S != b.inputs[i].S {
			return nil
		}
	}
	for i := range a.obs {
		if a.obs[i].Name != b.obs[i].Name || !valEq(a.obs[i].V, b.obs[i].V) {
			return nil
		}
	}
	type regUpd struct {
		f *Frame
		i int
		v Value
	}
	var ru []regUpd
	for ti := range a.threads {
		x, y := a.threads[ti], b.threads[ti]
		if x.done != y.done || len(x.frames) != len(y.frames) || x.panicking != y.panicking || (x.blocked == nil) != (y.blocked == nil) {
			return nil
		}
		for fi := range x.frames {
			fx, fy := x.frames[fi], y.frames[fi]
			if fx.fn != fy.fn || fx.block != fy.block || fx.idx != fy.idx || len(fx.defers) != len(fy.defers) {
				return nil
			}
			topF := ti == a.cur && fi == len(x.frames)-1
			for r := range fx.regs {
				va, vb := fx.regs[r], fy.regs[r]
				if va == nil && vb == nil {
					continue
				}
				if va == nil || vb == nil {
					if topF {
						ru = append(ru, regUpd{fx, r, nil})
						continue
					}
					return nil
				}
				if valEq(va, vb) {
					continue
				}
				m, ok := ex.mergeVal(c, va, vb)
				if !ok {
					if topF && !ex.liveAt(fx, r) {
						ru = append(ru, regUpd{fx, r, nil})
						continue
					}
					return nil
				}
				ru = append(ru, regUpd{fx, r, m})
			}
		}
	}
	type hu struct {
		o, i int
		v    Value
	}
	var hus []hu
	var adds []int
	for id, ob := range b.over {
		oa, ok := a.over[id]
		if !ok {
			if bo, ok2 := ex.base[id]; ok2 {
				oa = bo
			} else {
				adds = append(adds, id)
				continue
			}
		}
		if oa == ob {
			continue
		}
		if oa.mp != nil || ob.mp != nil {
			if !mapEq(oa.mp, ob.mp) {
				return nil
			}
			continue
		}
		if oa.ch != nil {
			if len(oa.ch.buf) != len(ob.ch.buf) || oa.ch.closed != ob.ch.closed || len(oa.ch.sendq) != len(ob.ch.sendq) || len(oa.ch.recvq) != len(ob.ch.recvq) {
				return nil
			}
			for i := range oa.ch.buf {
				if !valEq(oa.ch.buf[i], ob.ch.buf[i]) {
					return nil
				}
			}
			continue
		}
		if oa.n != ob.n {
			return nil
		}
		for ci := range ob.chunks {
			if oa.chunks[ci] == ob.chunks[ci] {
				continue
			}
			va, vb := oa.chunks[ci].v, ob.chunks[ci].v
			for k := range vb {
				if valEq(va[k], vb[k]) {
					continue
				}
				m, ok := ex.mergeVal(c, va[k], vb[k])
				if !ok {
					return nil
				}
				hus = append(hus, hu{id, ci*chunkSz + k, m})
			}
		}
	}
	for id, oa := range a.over {
		if _, ok := b.over[id]; ok {
			continue
		}
		ob, ok := ex.base[id]
		if !ok {
			continue // allocated only on side a
		}
		if oa.mp != nil || oa.ch != nil {
			return nil
		}
		for ci := range ob.chunks {
			if oa.chunks[ci] == ob.chunks[ci] {
				continue
			}
			for k := range ob.chunks[ci].v {
				va, vb := oa.chunks[ci].v[k], ob.chunks[ci].v[k]
				if valEq(va, vb) {
					continue
				}
				m, ok := ex.mergeVal(c, va, vb)
				if !ok {
					return nil
				}
				hus = append(hus, hu{id, ci*chunkSz + k, m})
			}
		}
	}
	// commit
	for _, u := range ru {
		u.f.regs[u.i] = u.v
	}
	for _, id := range adds {
		a.over[id] = b.over[id]
	}
	for _, h := range hus {
		a.set(h.o, h.i, h.v)
	}
	tt := ex.tt
	xa, xb := tt.tTrue, tt.tTrue
	cl := map[*Term]bool{}
	conjLeaves(c, cl)
	for _, p := range a.pc[npc:] {
		if !cl[p] {
			xa = tt.And(xa, p)
		}
	}
	nc := tt.Not(c)
	for _, p := range b.pc[npc:] {
		if p != nc {
			xb = tt.And(xb, p)
		}
	}
	a.pc = a.pc[:npc:npc]
	a.model = orig
	ext := tt.And(tt.Or(nc, xa), tt.Or(c, xb))
	a.assume(ext)
	for k, v := range b.names {
		if v > a.names[k] {
			a.names[k] = v
		}
	}
	if len(b.reach) > len(a.reach) {
		a.reach = b.reach
	}
	a.steps = max(a.steps, b.steps)
	a.unsure = a.unsure || b.unsure
	if b.shadow != nil {
		for k, v := range b.shadow {
			if _, ok := a.shadow[k]; !ok {
				a.shadow[k] = v
			}
		}
	}
	return a
}

func mapEq(a, b *MapData) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || len(a.keys) != len(b.keys) {
		return false
	}
	for i := range a.keys {
		if !valEq(a.keys[i], b.keys[i]) || !valEq(a.vals[i], b.vals[i]) {
			return false
		}
	}
	return true
}

// liveAt: may register r be used from the current point on? (conservative: defined in a block dominating the current block)
func (ex *Exec) liveAt(f *Frame, r int) bool {
	for v, i := range f.info.reg {
		if i != r {
			continue
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return true // parameter
		}
		b := in.Block()
		if b == f.block {
			return true
		}
		return b.Dominates(f.block)
	}
	return true
}

func (ex *Exec) finish(st *State, why string) {
	if why == "infeasible" {
		ex.Dead++
		return
	}
	ex.Paths++
	if strings.HasPrefix(why, "unsupported") || why == "timeout" || why == "steps" {
		ex.Unsupported[why]++
	}
}

// steps executes until an event
func (ex *Exec) steps(st *State, stop *Stop) (ev interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case forkReq:
				ev = e
			case endPath:
				ev = e
			case blockReq:
				th := st.th()
				th.blocked = e.pred
				th.why = e.why
				func() {
					defer func() {
						if r := recover(); r != nil {
							switch x := r.(type) {
							case forkReq: // which thread runs next
								ev = x
							case endPath:
								ev = x
							default:
								panic(r)
							}
						}
					}()
					if x := ex.schedule(st); x != nil {
						ev = *x
					} else {
						ev = contEv{}
					}
				}()
			case yieldReq:
				ev = contEv{}
			case unsupported:
				ev = endPath{"unsupported: " + e.msg + " in " + st.stack(4)}
			case goPanic:
				func() {
					defer func() {
						if r := recover(); r != nil {
							if x, ok := r.(endPath); ok {
								ev = x
								return
							}
							panic(r)
						}
					}()
					ex.raise(st, e)
					ev = contEv{}
				}()
			case engError:
				ev = endPath{"unsupported: engine: " + e.msg + " in " + st.stack(4)}
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "ENGINE PANIC", r, "at", st.stack(4))
					os.Stderr.Write(debug.Stack())
				}
				ev = endPath{fmt.Sprintf("unsupported: engine panic %v in %s", r, st.stack(4))}
			}
		}
	}()
	n := 0
	for {
		th := st.th()
		if len(th.frames) == 0 {
			if x := ex.threadDone(st); x != nil {
				return *x
			}
			continue
		}
		n++
		st.steps++
		ex.Steps++
		if n&1023 == 0 && time.Now().After(ex.Deadline) {
			ex.TimedOut = true
			return endPath{"timeout"}
		}
		if st.steps > ex.MaxSteps {
			if !st.initing {
				ex.violation(st, "hang", "no termination within the step bound at "+st.stack(3))
			}
			return endPath{"steps"}
		}
		f := th.frames[len(th.frames)-1]
		if f.idx == 0 {
			ex.phis(st)
		}
		in := f.block.Instrs[f.idx]
		if ex.trace {
			fmt.Fprintf(os.Stderr, "[s%d t%d d%d] %s: %s\n", st.id, th.id, len(th.frames), f.fn.Name(), in)
		}
		switch x := in.(type) {
		case *ssa.If:
			c := ex.val(st, f, x.Cond).(*Term)
			if c.IsConst() {
				if c.val == 1 {
					ex.jump(st, f.block.Succs[0])
				} else {
					ex.jump(st, f.block.Succs[1])
				}
				if s := st.hitStop(stop); s != nil {
					st.at = s
					return atStop{}
				}
				continue
			}
			return branchEv{c, f.block.Succs[0], f.block.Succs[1]}
		case *ssa.Jump:
			ex.jump(st, f.block.Succs[0])
			if s := st.hitStop(stop); s != nil {
				st.at = s
				return atStop{}
			}
			continue
		case *ssa.Return:
			var rv Value
			if len(x.Results) == 1 {
				rv = ex.val(st, f, x.Results[0])
			} else if len(x.Results) > 1 {
				t := make(Tuple, len(x.Results))
				for i, r := range x.Results {
					t[i] = ex.val(st, f, r)
				}
				rv = t
			}
			if s := ex.doReturn(st, rv, stop); s != nil {
				st.at = s
				return atStop{}
			}
			continue
		}
		ex.instr(st, f, in)
		th.ticks++
	}
}

type contEv struct{}

func (st *State) stack(n int) string {
	th := st.th()
	var p []string
	for i := len(th.frames) - 1; i >= 0 && len(p) < n; i-- {
		f := th.frames[i]
		pos := ""
		if f.block != nil && f.idx < len(f.block.Instrs) {
			ps := st.ex.prog.Fset.Position(f.block.Instrs[f.idx].Pos())
			if ps.Line == 0 {
				// nearest position
				for j := f.idx; j >= 0; j-- {
					if q := st.ex.prog.Fset.Position(f.block.Instrs[j].Pos()); q.Line > 0 {
						ps = q
						break
					}
				}
			}
			if ps.Line > 0 {
				fn := ps.Filename
				if i := strings.LastIndex(fn, "/"); i >= 0 {
					fn = fn[i+1:]
				}
				pos = fmt.Sprintf("@%s:%d", fn, ps.Line)
			}
		}
		p = append(p, f.fn.String()+pos)
	}
	return strings.Join(p, " < ")
}

func (ex *Exec) doReturn(st *State, rv Value, stop *Stop) *Stop {
	th := st.th()
	f := th.frames[len(th.frames)-1]
	depth := len(th.frames)
	th.frames = th.frames[:depth-1]
	switch f.kind {
	case fkDefer:
		// resume caller at its RunDefers
		return nil
	case fkDeferPanic:
		if th.recovered {
			th.panicking, th.recovered = false, false
			th.panicVal = nil
			g := th.frames[len(th.frames)-1]
			if g.fn.Recover != nil {
				g.prev = g.block
				g.block = g.fn.Recover
				g.idx = 0
				return nil
			}
			var z Value
			res := g.fn.Signature.Results()
			if res.Len() == 1 {
				z = ex.zero(res.At(0).Type())
			} else if res.Len() > 1 {
				t := Tuple{}
				for i := 0; i < res.Len(); i++ {
					t = append(t, ex.zero(res.At(i).Type()))
				}
				z = t
			}
			return ex.doReturn(st, z, stop)
		}
		ex.unwind(st)
		return nil
	}
	if f.after != nil {
		f.after(st, rv)
		return nil
	}
	if len(th.frames) > 0 {
		g := th.frames[len(th.frames)-1]
		if f.res != nil {
			g.regs[g.info.reg[f.res]] = rv
		}
	}
	for s := stop; s != nil; s = s.parent {
		if s.onReturn && s.thread == th.id && s.depth == depth {
			return s
		}
	}
	return nil
}

func (ex *Exec) raise(st *State, e goPanic) {
	th := st.th()
	th.panicking = true
	th.recovered = false
	th.panicVal = e.val
	th.panicMsg = e.msg + " at " + st.stack(5)
	ex.unwind(st)
}

func (ex *Exec) unwind(st *State) {
	th := st.th()
	for len(th.frames) > 0 {
		f := th.frames[len(th.frames)-1]
		if f.kind == fkDeferPanic && len(f.defers) == 0 {
			// a deferred call itself panicked
			th.frames = th.frames[:len(th.frames)-1]
			continue
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if d.callee.fn != nil && !ex.isIntrinsic(d.callee.fn) && d.callee.name == "" {
				ex.pushFrame(st, d.callee.fn, d.args, d.callee.bind, nil)
				st.top().kind = fkDeferPanic
				return
			}
			th.unwinding = true
			ex.callNative(st, d.callee, d.args, nil)
			th.unwinding = false
			continue
		}
		th.frames = th.frames[:len(th.frames)-1]
	}
	// panic escapes
	ex.violation(st, "panic", th.panicMsg)
	panic(endPath{"panic"})
}

func (ex *Exec) violation(st *State, kind, msg string) {
	if st.initing {
		panic(endPath{"init panic: " + msg})
	}
	if st.extra != nil {
		if _, ok := st.extra["panicsOK"]; ok && kind == "panic" {
			return
		}
	}
	r, m := RSat, st.model
	if m == nil {
		r, m = ex.check(st, nil)
	}
	if r == RUnsat {
		ex.Dead++
		panic(endPath{"infeasible"})
	}
	if r == RUnknown {
		ex.Unknowns++
		ex.Unsupported["violation candidate with unknown feasibility: "+msg]++
		return
	}
	ex.Violations = append(ex.Violations, Violation{Kind: kind, Msg: msg, Inputs: st.inputs, Model: m, Where: "", Sched: st.schedTrace, Gates: st.gates})
}

// threadDone: the current thread finished
func (ex *Exec) threadDone(st *State) *endPath {
	th := st.th()
	th.done = true
	if th.id == 0 {
		if !st.initing {
			st.complete()
		}
		return &endPath{"done"}
	}
	return ex.schedule(st)
}

func (st *State) complete() {
	ex := st.ex
	if st.model == nil && len(ex.completed) < 64 {
		r, m := ex.check(st, nil)
		if r == RUnsat {
			panic(endPath{"infeasible"})
		}
		st.model = m
	}
	for _, l := range st.reach {
		if st.model != nil || !st.unsure {
			ex.ReachCount[l]++
		}
	}
	ex.NComplete++
	if st.model != nil && (len(ex.completed) < 40 || ex.NComplete%97 == 0 && len(ex.completed) < 120) {
		ex.completed = append(ex.completed, &CompletedPath{Inputs: st.inputs, Model: st.model, Obs: st.obs, Reach: st.reach, Sched: st.schedTrace, Gates: st.gates})
	}
}

// schedule picks another runnable thread; nil result means continue
func (ex *Exec) schedule(st *State) *endPath {
	var run []int
	n := len(st.threads)
	for k := 1; k <= n; k++ {
		i := (st.cur + k) % n
		t := st.threads[i]
		if t.done {
			continue
		}
		if t.blocked != nil && !t.blocked(st) {
			continue
		}
		run = append(run, i)
	}
	if len(run) == 0 {
		var why []string
		for _, t := range st.threads {
			if !t.done {
				why = append(why, fmt.Sprintf("thread %d: %s", t.id, t.why))
			}
		}
		ex.violation(st, "deadlock", "all goroutines are asleep: "+strings.Join(why, "; "))
		return &endPath{"deadlock"}
	}
	pick := run[0]
	if ex.opt.Sched >= 0 && len(run) > 1 {
		sort.Ints(run)
		v, forked := st.schedChoice(len(run))
		_ = forked
		pick = run[v]
	}
	st.cur = pick
	st.threads[pick].blocked = nil
	return nil
}

// schedChoice returns a symbolic scheduling decision in 0..n-1; forks through the solver
func (st *State) schedChoice(n int) (int, bool) {
	k := len(st.schedTrace)
	t := st.ex.tt.Var(fmt.Sprintf("sched#%d|%d", k, n), BV(8), 0, int64(n-1), true)
	v := int(st.concretize(t))
	st.schedTrace = append(st.schedTrace[:k:k], v)
	return v, true
}

// preemption point before a visible operation
func (ex *Exec) schedPoint(st *State) {
	if ex.opt.Sched <= 0 || len(st.threads) < 2 || st.th().unwinding {
		return
	}
	// the decision for this operation of the thread, which may be re-executed after forks and while blocked
	th := st.th()
	f := th.frames[len(th.frames)-1]
	op := [3]int{th.ticks, len(th.frames), len(f.defers)}
	if th.passed == op {
		return
	}
	if st.preempt >= ex.opt.Sched {
		return
	}
	var others []int
	for i, t := range st.threads {
		if i == st.cur || t.done || (t.blocked != nil && !t.blocked(st)) {
			continue
		}
		others = append(others, i)
	}
	if len(others) == 0 {
		return
	}
	v, _ := st.schedChoice(len(others) + 1)
	th.passed = op
	if v == 0 {
		return
	}
	st.preempt++
	st.cur = others[v-1]
	st.threads[st.cur].blocked = nil
	panic(yieldReq{})
}

// ---- values ----

func (ex *Exec) val(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		if c, ok := ex.constCache[x]; ok {
			return c
		}
		c := ex.constVal(x)
		ex.constCache[x] = c
		return c
	case *ssa.Global:
		return Ptr{obj: ex.global(x)}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return &Closure{name: "builtin:" + x.Name()}
	}
	i, ok := f.info.reg[v]
	if !ok {
		panic(engErr("no register for " + v.String()))
	}
	r := f.regs[i]
	if r == nil {
		panic(engErr("undefined register " + v.Name() + " = " + v.String() + " in " + f.fn.String()))
	}
	return r
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ex.zero(t)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		panic(engErr("const interface"))
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return &Str{s: constant.StringVal(c.Value)}
		}
		n, _ := constant.Int64Val(c.Value)
		return &Str{s: string(rune(n))}
	}
	s, ok := ex.sortOf(t)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			panic(engErr("const of type param " + tp.String()))
		}
		return Opaque{"const " + c.String()}
	}
	switch s.K {
	case KBool:
		return ex.tt.Bool(constant.BoolVal(c.Value))
	case KF32:
		f, _ := constant.Float32Val(constant.ToFloat(c.Value))
		return ex.tt.F32(f)
	case KF64:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return ex.tt.F64(f)
	}
	iv := constant.ToInt(c.Value)
	if n, ok := constant.Int64Val(iv); ok {
		return ex.tt.Const(int(s.W), uint64(n))
	}
	n, _ := constant.Uint64Val(iv)
	return ex.tt.Const(int(s.W), n)
}

func (ex *Exec) setReg(f *Frame, v ssa.Value, x Value) {
	f.regs[f.info.reg[v]] = x
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, args, bind []Value, res ssa.Value) {
	if fn.Blocks == nil {
		panic(unsupported{"function without body " + fn.String()})
	}
	ex.called[fn] = true
	info := ex.fnInfo(fn)
	f := &Frame{fn: fn, info: info, block: fn.Blocks[0], regs: make([]Value, info.nreg), res: res}
	for i, p := range fn.Params {
		f.regs[info.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[info.reg[p]] = bind[i]
	}
	th := st.th()
	if len(th.frames) > 400 {
		panic(unsupported{"stack depth"})
	}
	th.frames = append(th.frames[:len(th.frames):len(th.frames)], f)
}

// ---- memory ----

func (ex *Exec) nilPanic() {
	panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
}

func (ex *Exec) access(st *State, obj, off int, write bool) {
	if !ex.opt.Race || len(st.threads) < 2 {
		return
	}
	if fn := st.top().fn; strings.HasPrefix(fn.Name(), "Model_") || strings.HasPrefix(fn.Name(), "fs") {
		if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/zzverif") {
			return // the operating system is free of races
		}
	}
	ex.raceAccess(st, obj, off, write)
}

func (ex *Exec) loadLeaf(st *State, p Ptr, k int) Value {
	if p.obj == 0 {
		ex.nilPanic()
	}
	o := st.obj(p.obj)
	if p.sym == nil {
		if p.off+k < 0 || p.off+k >= o.n {
			panic(engErr(fmt.Sprintf("load out of object: off %d n %d", p.off+k, o.n)))
		}
		ex.access(st, p.obj, p.off+k, false)
		return o.get(p.off + k)
	}
	// ite chain
	s := p.sym
	var r Value
	lo, hi := max(0, int(s.idx.lo)), s.n-1
	if s.idx.hi >= 0 && s.idx.hi < int64(hi) {
		hi = int(s.idx.hi)
	}
	if hi-lo > 4096 {
		panic(unsupported{"symbolic index into large array"})
	}
	for i := hi; i >= lo; i-- {
		off := p.off + i*s.stride + k
		ex.access(st, p.obj, off, false)
		v := o.get(off)
		if r == nil {
			r = v
			continue
		}
		m, ok := ex.mergeVal(ex.tt.Eq(s.idx, ex.tt.Int(int64(i))), v, r)
		if !ok {
			i := int(st.concretize(s.idx))
			return o.get(p.off + i*s.stride + k)
		}
		r = m
	}
	return r
}
func (ex *Exec) load(st *State, p Ptr, t types.Type) Value {
	if isAgg(t) {
		n := ex.slots(t)
		if p.obj == 0 {
			ex.nilPanic()
		}
		r := make(Agg, n)
		for i := range r {
			r[i] = ex.loadLeaf(st, p, i)
		}
		return r
	}
	return ex.loadLeaf(st, p, 0)
}
func (ex *Exec) store(st *State, p Ptr, v Value) {
	if p.obj == 0 {
		ex.nilPanic()
	}
	if a, ok := v.(Agg); ok {
		for i, x := range a {
			ex.storeLeaf(st, p, i, x)
		}
		return
	}
	ex.storeLeaf(st, p, 0, v)
}
func (ex *Exec) storeLeaf(st *State, p Ptr, k int, v Value) {
	if p.sym == nil {
		ex.access(st, p.obj, p.off+k, true)
		st.set(p.obj, p.off+k, v)
		return
	}
	s := p.sym
	o := st.obj(p.obj)
	lo, hi := max(0, int(s.idx.lo)), s.n-1
	if s.idx.hi >= 0 && s.idx.hi < int64(hi) {
		hi = int(s.idx.hi)
	}
	if hi-lo > 4096 {
		panic(unsupported{"symbolic store into large array"})
	}
	var upd []Value
	for i := lo; i <= hi; i++ {
		m, ok := ex.mergeVal(ex.tt.Eq(s.idx, ex.tt.Int(int64(i))), v, o.get(p.off+i*s.stride+k))
		if !ok {
			i := int(st.concretize(s.idx))
			st.set(p.obj, p.off+i*s.stride+k, v)
			return
		}
		upd = append(upd, m)
	}
	for i, m := range upd {
		off := p.off + (lo+i)*s.stride + k
		ex.access(st, p.obj, off, true)
		if !valEq(o.get(off), m) {
			st.set(p.obj, off, m)
		}
	}
}

// index computes a pointer to element idx of n elements starting at base
func (ex *Exec) indexPtr(st *State, base Ptr, n int, idx *Term, signed bool, es int) Ptr {
	tt := ex.tt
	var i *Term
	if signed {
		i = tt.SExt(idx, 64)
	} else {
		i = tt.ZExt(idx, 64)
	}
	if i.IsConst() {
		k := i.Signed()
		if k < 0 || k >= int64(n) {
			panic(goPanic{msg: fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, n)})
		}
		base.off += int(k) * es
		return base
	}
	in := tt.Cmp(OULt, i, tt.Int(int64(n)))
	if !st.decide(in) {
		panic(goPanic{msg: fmt.Sprintf("runtime error: index out of range with length %d", n)})
	}
	if n == 1 {
		return base
	}
	// fixed by facts?
	for j := len(st.pc) - 1; j >= 0; j-- {
		p := st.pc[j]
		if p.op == OEq && (p.args[0] == i && p.args[1].IsConst()) {
			base.off += int(p.args[1].val) * es
			return base
		}
	}
	if base.sym != nil || es == 0 {
		k := int(st.concretize(i))
		base.off += k * es
		return base
	}
	base.sym = &SymIdx{idx: i, stride: es, n: n}
	return base
}

func (ex *Exec) elem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	panic(engErr("elem of " + t.String()))
}

func (ex *Exec) instr(st *State, f *Frame, in ssa.Instruction) {
	tt := ex.tt
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := st.alloc(ex.zeroFlat(t, nil))
		ex.setReg(f, x, Ptr{obj: id})
	case *ssa.BinOp:
		ex.setReg(f, x, ex.binop(st, f, x))
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			ex.chanRecv(st, f, x)
			break
		}
		ex.setReg(f, x, ex.unop(st, f, x))
	case *ssa.ChangeType:
		ex.setReg(f, x, ex.val(st, f, x.X))
	case *ssa.ChangeInterface:
		ex.setReg(f, x, ex.val(st, f, x.X))
	case *ssa.Convert:
		ex.setReg(f, x, ex.convert(st, ex.val(st, f, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		ex.setReg(f, x, ex.convert(st, ex.val(st, f, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		ex.setReg(f, x, Iface{x.X.Type(), ex.val(st, f, x.X)})
	case *ssa.Extract:
		ex.setReg(f, x, ex.val(st, f, x.Tuple).(Tuple)[x.Index])
	case *ssa.Field:
		a := ex.val(st, f, x.X).(Agg)
		s := x.X.Type().Underlying().(*types.Struct)
		o := ex.fieldOff(s, x.Field)
		ft := s.Field(x.Field).Type()
		if isAgg(ft) {
			n := ex.slots(ft)
			ex.setReg(f, x, Agg(a[o:o+n:o+n]))
		} else {
			ex.setReg(f, x, a[o])
		}
	case *ssa.FieldAddr:
		p := ex.val(st, f, x.X).(Ptr)
		if p.obj == 0 {
			ex.nilPanic()
		}
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p.off += ex.fieldOff(s, x.Field)
		ex.setReg(f, x, p)
	case *ssa.IndexAddr:
		base := ex.val(st, f, x.X)
		idx := ex.val(st, f, x.Index).(*Term)
		sg := isSigned(x.Index.Type())
		switch b := base.(type) {
		case Slice:
			ex.setReg(f, x, ex.indexPtr(st, Ptr{obj: b.obj, off: b.off}, b.len, idx, sg, b.es))
		case Ptr:
			if b.obj == 0 {
				ex.nilPanic()
			}
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			ex.setReg(f, x, ex.indexPtr(st, b, int(at.Len()), idx, sg, ex.slots(at.Elem())))
		default:
			panic(engErr("indexaddr"))
		}
	case *ssa.Index:
		base := ex.val(st, f, x.X)
		idx := ex.val(st, f, x.Index).(*Term)
		sg := isSigned(x.Index.Type())
		switch b := base.(type) {
		case *Str:
			ex.setReg(f, x, ex.strIndex(st, b, idx, sg))
		case Agg:
			at := x.X.Type().Underlying().(*types.Array)
			es := ex.slots(at.Elem())
			tmp := st.alloc(append([]Value(nil), b...))
			p := ex.indexPtr(st, Ptr{obj: tmp}, int(at.Len()), idx, sg, es)
			ex.setReg(f, x, ex.load(st, p, at.Elem()))
		default:
			panic(engErr("index"))
		}
	case *ssa.Lookup:
		base := ex.val(st, f, x.X)
		if s, ok := base.(*Str); ok {
			ex.setReg(f, x, ex.strIndex(st, s, ex.val(st, f, x.Index).(*Term), isSigned(x.Index.Type())))
			break
		}
		v, ok := ex.mapGet(st, base.(MapRef), ex.val(st, f, x.Index))
		if !ok {
			v = ex.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			ex.setReg(f, x, Tuple{v, tt.Bool(ok)})
		} else {
			ex.setReg(f, x, v)
		}
	case *ssa.MakeMap:
		ex.nextObj++
		st.over[ex.nextObj] = &Obj{owner: st.id, mp: &MapData{idx: map[string]int{}}}
		ex.setReg(f, x, MapRef{ex.nextObj})
	case *ssa.MapUpdate:
		ex.mapSet(st, ex.val(st, f, x.Map).(MapRef), ex.val(st, f, x.Key), ex.val(st, f, x.Value))
	case *ssa.MakeChan:
		n := st.concInt(ex.val(st, f, x.Size))
		ex.nextObj++
		st.over[ex.nextObj] = &Obj{owner: st.id, ch: &ChanData{cap: n, hand: map[int]Value{}, done: map[int]bool{}, es: x.Type().Underlying().(*types.Chan).Elem()}}
		ex.setReg(f, x, ChanRef{ex.nextObj})
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, ex.val(st, f, v))
		}
		ex.setReg(f, x, &Closure{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeSlice:
		lt, ct := ex.val(st, f, x.Len).(*Term), ex.val(st, f, x.Cap).(*Term)
		et := x.Type().Underlying().(*types.Slice).Elem()
		es := ex.slots(et)
		// negative or huge lengths panic
		lim := tt.Int(1 << 40)
		l64 := ex.toI64(lt, x.Len.Type())
		c64 := ex.toI64(ct, x.Cap.Type())
		if !st.decide(tt.And(tt.Cmp(OSLe, tt.Int(0), l64), tt.Cmp(OSLe, l64, lim))) {
			panic(goPanic{msg: "runtime error: makeslice: len out of range"})
		}
		if !st.decide(tt.And(tt.Cmp(OSLe, l64, c64), tt.Cmp(OSLe, c64, lim))) {
			panic(goPanic{msg: "runtime error: makeslice: cap out of range"})
		}
		n := int(st.concretize(l64))
		c := int(st.concretize(c64))
		if c*es > 1<<22 {
			panic(unsupported{fmt.Sprintf("allocation of %d elements", c)})
		}
		ex.setReg(f, x, ex.makeSlice(st, et, n, c))
	case *ssa.Slice:
		ex.setReg(f, x, ex.slice(st, f, x))
	case *ssa.SliceToArrayPointer:
		s := ex.val(st, f, x.X).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			panic(goPanic{msg: "runtime error: cannot convert slice to array pointer"})
		}
		ex.setReg(f, x, Ptr{obj: s.obj, off: s.off})
	case *ssa.Store:
		p := ex.val(st, f, x.Addr).(Ptr)
		v := ex.val(st, f, x.Val)
		ex.store(st, p, v)
	case *ssa.TypeAssert:
		ex.setReg(f, x, ex.typeAssert(st, ex.val(st, f, x.X), x))
	case *ssa.Range:
		ex.setReg(f, x, ex.rangeIter(st, ex.val(st, f, x.X)))
	case *ssa.Next:
		ex.setReg(f, x, ex.next(st, f, x))
	case *ssa.Panic:
		v := ex.val(st, f, x.X)
		msg := "panic"
		if i, ok := v.(Iface); ok {
			if s, ok := i.v.(*Str); ok && s.b == nil {
				msg = "panic: " + s.s
			} else if i.t != nil {
				msg = "panic: " + i.t.String()
			}
		}
		panic(goPanic{val: v, msg: msg})
	case *ssa.Defer:
		cl, args := ex.callee(st, f, &x.Call)
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferred{cl, args})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			rest := f.defers[:len(f.defers)-1]
			if d.callee.fn != nil && d.callee.name == "" && !ex.isIntrinsic(d.callee.fn) {
				f.defers = rest
				ex.pushFrame(st, d.callee.fn, d.args, d.callee.bind, nil)
				st.top().kind = fkDefer
			} else {
				// stays on the list while it forks, blocks or is preempted, as it is executed again then
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(goPanic); ok {
							f.defers = rest
						}
						panic(r)
					}
				}()
				ex.callNative(st, d.callee, d.args, nil)
				f.defers = rest
			}
			return
		}
	case *ssa.Go:
		cl, args := ex.callee(st, f, &x.Call)
		f.idx++
		ex.spawn(st, cl, args)
		ex.schedPointAfter(st)
		return
	case *ssa.Send:
		ex.chanSend(st, f, x)
	case *ssa.Select:
		ex.selectOp(st, f, x)
	case *ssa.Call:
		cl, args := ex.callee(st, f, &x.Call)
		if cl == nil || (cl.fn == nil && cl.name == "") {
			ex.nilPanic()
		}
		if cl.name == "" && !ex.isIntrinsic(cl.fn) {
			if cl.fn.Blocks == nil {
				if v, ok := ex.callAsm(st, cl.fn, args); ok {
					ex.setReg(f, x, v)
					break
				}
				if st.initing {
					ex.setReg(f, x, ex.zeroResult(cl.fn.Signature))
					break
				}
			}
			if cl.fn.Synthetic == "package initializer" && cl.fn.Name() == "init" && cl.fn.Pkg != nil {
				// module packages eagerly (operator registries), others on first use of a global
				if strings.HasPrefix(cl.fn.Pkg.Pkg.Path(), ex.mod) {
					ex.initPackage(cl.fn.Pkg, false)
				}
				break
			}
			f.idx++
			ex.pushFrame(st, cl.fn, args, cl.bind, x)
			return
		}
		nf := len(st.th().frames)
		v := ex.callNative(st, cl, args, x)
		if len(st.th().frames) > nf {
			// the intrinsic pushed a frame; result delivered on its return
			f.idx++
			return
		}
		if v == nil {
			v = Tuple{}
		}
		ex.setReg(f, x, v)
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
	f.idx++
}

func (ex *Exec) zeroResult(sig *types.Signature) Value {
	r := sig.Results()
	if r.Len() == 1 {
		return ex.zero(r.At(0).Type())
	}
	t := Tuple{}
	for i := 0; i < r.Len(); i++ {
		t = append(t, ex.zero(r.At(i).Type()))
	}
	return t
}

func (ex *Exec) toI64(t *Term, typ types.Type) *Term {
	if isSigned(typ) {
		return ex.tt.SExt(t, 64)
	}
	return ex.tt.ZExt(t, 64)
}

func (ex *Exec) makeSlice(st *State, et types.Type, n, c int) Slice {
	es := ex.slots(et)
	vals := make([]Value, 0, c*es)
	if !isAgg(et) {
		z := ex.zeroLeaf(et)
		for i := 0; i < c; i++ {
			vals = append(vals, z)
		}
	} else {
		z := ex.zeroFlat(et, nil)
		for i := 0; i < c; i++ {
			vals = append(vals, z...)
		}
	}
	return Slice{obj: st.alloc(vals), len: n, cap: c, es: es}
}

// callee resolves the function value and arguments of a call
func (ex *Exec) callee(st *State, f *Frame, c *ssa.CallCommon) (*Closure, []Value) {
	var args []Value
	if c.IsInvoke() {
		v := ex.val(st, f, c.Value)
		i, ok := v.(Iface)
		if !ok {
			panic(engErr(fmt.Sprintf("invoke on %T", v)))
		}
		if i.t == nil {
			ex.nilPanic()
		}
		fn := ex.lookupMethod(i.t, c.Method)
		if fn == nil {
			panic(unsupported{"method " + c.Method.Name() + " of " + i.t.String()})
		}
		args = append(args, i.v)
		for _, a := range c.Args {
			args = append(args, ex.val(st, f, a))
		}
		if r, ok := ex.redirect[fnKey(fn)]; ok && st.top().fn != r {
			fn = r
		}
		return &Closure{fn: fn}, args
	}
	v := ex.val(st, f, c.Value)
	cl, ok := v.(*Closure)
	if !ok {
		panic(unsupported{fmt.Sprintf("call of %T %v", v, v)})
	}
	for _, a := range c.Args {
		args = append(args, ex.val(st, f, a))
	}
	if cl != nil && cl.fn != nil && cl.name == "" && len(ex.redirect) > 0 {
		if r, ok := ex.redirect[fnKey(cl.fn)]; ok && st.top().fn != r {
			cl = &Closure{fn: r}
		}
	}
	return cl, args
}

// inModel: calls made by a model function itself are not redirected again
func (ex *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := ex.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return ex.prog.MethodValue(sel)
}

// ---- globals and package initialisation ----

func (ex *Exec) global(g *ssa.Global) int {
	if id, ok := ex.globals[g]; ok {
		if g.Pkg != nil && ex.inited[g.Pkg] == 0 {
			ex.initPackage(g.Pkg, false)
		}
		return id
	}
	ex.nextObj++
	id := ex.nextObj
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := newObj(0, ex.zeroFlat(t, nil))
	o.label = g.String()
	ex.base[id] = o
	ex.globals[g] = id
	if g.Pkg != nil {
		ex.initPackage(g.Pkg, false)
	}
	return id
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/cpu": true, "reflect": true, "time": true, "net": true, "internal/poll": true, "internal/godebug": true, "log": true, "net/http": true, "internal/runtime/maps": true,
	"github.com/klauspost/cpuid": true, "github.com/pbnjay/memory": true, "testing": true, "flag": true, "crypto/rand": true, "math/rand": true}

func (ex *Exec) initPackage(p *ssa.Package, force bool) {
	if ex.inited[p] != 0 {
		return
	}
	ex.inited[p] = 1
	path := p.Pkg.Path()
	if noInit[path] {
		return
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	ex.nextState++
	s := &State{ex: ex, id: ex.nextState, over: map[int]*Obj{}, names: map[string]int{}, initing: true}
	s.threads = []*Thread{{id: 0}}
	ex.pushFrame(s, fn, nil, nil, nil)
	saveT, saveM, saveP := ex.MaxSteps, ex.opt, ex.Paths
	ex.MaxSteps = 200000000
	steps := ex.Steps
	for {
		ev := ex.steps(s, nil)
		if e, ok := ev.(endPath); ok {
			if e.why != "done" {
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "init", path, ":", e.why)
				}
				ex.ctxNames["init of "+path+": "+e.why] = true
			}
			break
		}
		if _, ok := ev.(contEv); ok {
			continue
		}
		if ev != nil {
			ex.ctxNames["init of "+path+": fork"] = true
			break
		}
	}
	ex.MaxSteps, ex.opt, ex.Paths = saveT, saveM, saveP
	ex.Steps = steps
	for id, o := range s.over {
		ex.base[id] = o
	}
	ex.inited[p] = 2
}

func (ex *Exec) spawn(st *State, cl *Closure, args []Value) {
	st.nthreads++
	th := &Thread{id: st.nthreads}
	if ex.opt.Race {
		cur := st.th()
		if cur.vc == nil {
			cur.vc = map[int]int{cur.id: 1}
		}
		th.vc = map[int]int{}
		for k, v := range cur.vc {
			th.vc[k] = v
		}
		th.vc[th.id] = 1
		cur.vc[cur.id]++
	}
	st.threads = append(st.threads[:len(st.threads):len(st.threads)], th)
	save := st.cur
	st.cur = len(st.threads) - 1
	if cl.fn == nil || ex.isIntrinsic(cl.fn) {
		st.cur = save
		panic(unsupported{"go of intrinsic"})
	}
	ex.pushFrame(st, cl.fn, args, cl.bind, nil)
	st.cur = save
}
func (ex *Exec) schedPointAfter(st *State) {}

func (ex *Exec) raceAccess(st *State, obj, off int, write bool) {
	th := st.th()
	if th.vc == nil {
		th.vc = map[int]int{th.id: 1}
	}
	if st.shadow == nil {
		st.shadow = map[[2]int]*shadowCell{}
	}
	k := [2]int{obj, off}
	old := st.shadow[k]
	c := &shadowCell{wt: -1, r: map[int]int{}}
	if old != nil {
		c.wt, c.wc, c.loc = old.wt, old.wc, old.loc
		if old.wt >= 0 && old.wt != th.id && th.vc[old.wt] < old.wc {
			ex.violation(st, "race", "data race: write at "+old.loc+" unordered with access at "+st.stack(2))
			panic(endPath{"race"})
		}
		if write {
			for t, k := range old.r {
				if t != th.id && th.vc[t] < k {
					ex.violation(st, "race", "data race: read unordered with write at "+st.stack(2))
					panic(endPath{"race"})
				}
			}
		} else {
			for t, k := range old.r {
				c.r[t] = k
			}
		}
	}
	if write {
		c.wt, c.wc = th.id, th.vc[th.id]
		c.loc = st.top().fn.Name()
	} else {
		c.r[th.id] = th.vc[th.id]
	}
	st.shadow[k] = c
}

func vcJoin(a, b map[int]int) map[int]int {
	r := map[int]int{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		if v > r[k] {
			r[k] = v
		}
	}
	return r
}

func conjLeaves(t *Term, m map[*Term]bool) {
	m[t] = true
	if t.op == OAnd {
		conjLeaves(t.args[0], m)
		conjLeaves(t.args[1], m)
	}
}
