package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var nanF = math.NaN()

type callCtx struct {
	ex   *Exec
	st   *State
	fn   *ssa.Function
	args []Value
	call *ssa.Call
}
type intrinsic func(c *callCtx) Value

const symPkg = "internal/zzverif"

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) isIntrinsic(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	_, ok := ex.intr[fnKey(fn)]
	if ok {
		return true
	}
	return ex.pkgIntrinsic(fn) != nil
}

// functions whose effect is only textual or diagnostic
func (ex *Exec) pkgIntrinsic(fn *ssa.Function) intrinsic {
	if fn.Pkg == nil && fn.Object() == nil {
		return nil
	}
	var path string
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	switch path {
	case "log", "runtime/debug", "runtime/pprof":
		return func(c *callCtx) Value { return c.ex.zeroResult(c.fn.Signature) }
	case "time":
		return func(c *callCtx) Value { return c.ex.zeroResult(c.fn.Signature) }
	}
	return nil
}

func (ex *Exec) pureIntrinsic(fn *ssa.Function) bool {
	k := fnKey(fn)
	return strings.HasPrefix(k, "math.") && ex.isIntrinsic(fn)
}

func (ex *Exec) callNative(st *State, cl *Closure, args []Value, call *ssa.Call) Value {
	if cl.name != "" {
		if strings.HasPrefix(cl.name, "builtin:") {
			return ex.builtin(st, cl.name[8:], args, call)
		}
		if f, ok := ex.intr["closure:"+cl.name]; ok {
			return f(&callCtx{ex, st, nil, append(append([]Value{}, cl.bind...), args...), call})
		}
		panic(unsupported{"closure " + cl.name})
	}
	f, ok := ex.intr[fnKey(cl.fn)]
	if !ok {
		f = ex.pkgIntrinsic(cl.fn)
	}
	return f(&callCtx{ex, st, cl.fn, args, call})
}

func (c *callCtx) T(i int) *Term { return c.args[i].(*Term) }
func (c *callCtx) str(i int) string {
	s := c.args[i].(*Str)
	if s.b != nil || s.opaque {
		panic(unsupported{"symbolic name"})
	}
	return s.s
}

func (ex *Exec) symVar(st *State, name, kind string, s Sort, lo, hi int64, ranged bool) *Term {
	n := st.names[name]
	st.names[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	vn := full
	if kind == "f32num" || kind == "f32fin" {
		vn = full + "|" + kind
		kind = "f32"
	}
	if ranged {
		vn = fmt.Sprintf("%s|%d|%d", full, lo, hi)
	}
	if ranged && lo == hi {
		t := ex.tt.Const(int(s.W), uint64(lo))
		st.inputs = append(st.inputs, Input{Name: full, Kind: kind, T: t})
		return t
	}
	t := ex.tt.Var(vn, s, lo, hi, ranged)
	st.inputs = append(st.inputs[:len(st.inputs):len(st.inputs)], Input{Name: full, Kind: kind, T: t})
	return t
}

func (ex *Exec) setupIntrinsics() {
	m := map[string]intrinsic{}
	ex.intr = m
	S := ex.mod + "/" + symPkg + "."
	tt := ex.tt

	m[S+"Bool"] = func(c *callCtx) Value { return ex.symVar(c.st, c.str(0), "bool", SBool, 0, 0, false) }
	rng := func(kind string, w int) intrinsic {
		return func(c *callCtx) Value {
			lo, hi := c.st.concretize(c.T(1)), c.st.concretize(c.T(2))
			t := ex.symVar(c.st, c.str(0), kind, BV(64), int64(lo), int64(hi), true)
			return tt.Extract(t, 0, w)
		}
	}
	m[S+"Int"] = rng("int", 64)
	m[S+"Int32"] = rng("int", 32)
	m[S+"Int64"] = func(c *callCtx) Value { return ex.symVar(c.st, c.str(0), "int", BV(64), 0, 0, false) }
	m[S+"AnyInt"] = m[S+"Int64"]
	m[S+"AnyInt32"] = func(c *callCtx) Value { return ex.symVar(c.st, c.str(0), "int", BV(32), 0, 0, false) }
	m[S+"AnyInt16"] = func(c *callCtx) Value { return ex.symVar(c.st, c.str(0), "int", BV(16), 0, 0, false) }
	m[S+"Byte"] = func(c *callCtx) Value { return ex.symVar(c.st, c.str(0), "byte", BV(8), 0, 0, false) }
	m[S+"AnyF32"] = func(c *callCtx) Value {
		return tt.FromBits(SF32, ex.symVar(c.st, c.str(0), "f32", BV(32), 0, 0, false))
	}
	m[S+"AnyF64"] = func(c *callCtx) Value {
		return tt.FromBits(SF64, ex.symVar(c.st, c.str(0), "f64", BV(64), 0, 0, false))
	}
	// float32 that is not NaN
	m[S+"NumF32"] = func(c *callCtx) Value {
		b := ex.symVar(c.st, c.str(0), "f32num", BV(32), 0, 0, false)
		t := tt.FromBits(SF32, b)
		ex.doAssume(c.st, tt.Cmp(OULe, tt.Bin(OBAnd, b, tt.Const(32, 0x7fffffff)), tt.Const(32, 0x7f800000)))
		tt.setNum(t)
		return t
	}
	// float32 that is neither NaN nor infinite
	m[S+"FiniteF32"] = func(c *callCtx) Value {
		t := tt.FromBits(SF32, ex.symVar(c.st, c.str(0), "f32fin", BV(32), 0, 0, false))
		ex.doAssume(c.st, tt.Cmp(OULt, tt.Bin(OBAnd, t.args[0], tt.Const(32, 0x7fffffff)), tt.Const(32, 0x7f800000)))
		tt.setNum(t)
		tt.inff[t] = true
		return t
	}
	// integer-valued float in lo..hi
	m[S+"SmallF32"] = func(c *callCtx) Value {
		lo, hi := c.st.concretize(c.T(1)), c.st.concretize(c.T(2))
		t := ex.symVar(c.st, c.str(0), "int", BV(64), int64(lo), int64(hi), true)
		return tt.IntToF(t, true, SF32)
	}
	// integer-valued float in lo..hi divided by 2^k
	m[S+"FracF32"] = func(c *callCtx) Value {
		lo, hi, k := c.st.concretize(c.T(1)), c.st.concretize(c.T(2)), c.st.concretize(c.T(3))
		t := ex.symVar(c.st, c.str(0), "int", BV(64), int64(lo), int64(hi), true)
		return tt.FBin(OFDiv, tt.IntToF(t, true, SF32), tt.F32(float32(math.Ldexp(1, int(k)))))
	}
	m[S+"Choose"] = func(c *callCtx) Value {
		n := c.st.concretize(c.T(1))
		name := c.str(0)
		k := c.st.names[name]
		t := tt.Var(fmt.Sprintf("%s#%d|0|%d", name, k, n-1), BV(64), 0, int64(n)-1, true)
		if n == 1 {
			t = tt.Int(0)
		}
		v := c.st.concretize(t)
		full := name
		if k > 0 {
			full = fmt.Sprintf("%s#%d", name, k)
		}
		c.st.names[name] = k + 1
		c.st.inputs = append(c.st.inputs[:len(c.st.inputs):len(c.st.inputs)], Input{Name: full, Kind: "int", T: tt.Int(int64(v))})
		return tt.Int(int64(v))
	}
	m[S+"Concrete"] = func(c *callCtx) Value { return tt.Int(int64(c.st.concretize(c.T(0)))) }
	m[S+"Param"] = func(c *callCtx) Value {
		v, ok := ex.Params[c.str(0)]
		if !ok {
			panic(unsupported{"missing param " + c.str(0)})
		}
		return tt.Int(int64(v))
	}
	m[S+"Assume"] = func(c *callCtx) Value { ex.doAssume(c.st, c.T(0)); return Tuple{} }
	m[S+"Assert"] = func(c *callCtx) Value {
		ex.doAssert(c.st, c.T(0), c.args[1].(*Str).s)
		return Tuple{}
	}
	m[S+"Reach"] = func(c *callCtx) Value {
		c.st.reach = append(c.st.reach[:len(c.st.reach):len(c.st.reach)], c.str(0))
		return Tuple{}
	}
	m[S+"Observe"] = func(c *callCtx) Value {
		i := c.args[1].(Iface)
		c.st.obs = append(c.st.obs[:len(c.st.obs):len(c.st.obs)], Obs{c.str(0), ex.snapshot(c.st, i.v, i.t, 0), i.t})
		return Tuple{}
	}
	m[S+"And"] = func(c *callCtx) Value { return tt.And(c.T(0), c.T(1)) }
	m[S+"Or"] = func(c *callCtx) Value { return tt.Or(c.T(0), c.T(1)) }
	m[S+"Implies"] = func(c *callCtx) Value { return tt.Or(tt.Not(c.T(0)), c.T(1)) }
	m[S+"IteF32"] = func(c *callCtx) Value { return tt.Ite(c.T(0), c.T(1), c.T(2)) }
	m[S+"IteInt"] = func(c *callCtx) Value { return tt.Ite(c.T(0), c.T(1), c.T(2)) }
	m[S+"SameBits"] = func(c *callCtx) Value { return tt.Eq(tt.ToBits(c.T(0)), tt.ToBits(c.T(1))) }
	m[S+"Symbolic"] = func(c *callCtx) Value { return tt.tTrue }
	m[S+"PanicsOK"] = func(c *callCtx) Value {
		if c.st.extra == nil {
			c.st.extra = map[string]Value{}
		}
		c.st.extra["panicsOK"] = true
		return Tuple{}
	}
	m[S+"Stop"] = func(c *callCtx) Value {
		c.st.complete()
		panic(endPath{"stopped"})
	}
	m[S+"Text"] = func(c *callCtx) Value {
		// string of n symbolic bytes
		name, n := c.str(0), int(c.st.concretize(c.T(1)))
		var b []*Term
		for i := 0; i < n; i++ {
			b = append(b, ex.symVar(c.st, name, "byte", BV(8), 0, 0, false))
		}
		return mkStr(b)
	}
	m[S+"JSON"] = ex.jsonDoc
	m[S+"NumGoroutinesRunnable"] = func(c *callCtx) Value {
		return tt.Int(int64(len(c.st.threads)))
	}

	ex.mathIntrinsics(m)
	ex.fmtIntrinsics(m)

	// sync
	lockSlot := func(c *callCtx) Ptr {
		p := c.args[0].(Ptr)
		if p.obj == 0 {
			ex.nilPanic()
		}
		return p
	}
	lock := func(c *callCtx) Value {
		ex.schedPoint(c.st)
		p := lockSlot(c)
		v := c.st.obj(p.obj).get(p.off).(*Term)
		if v.IsConst() && v.val == 0 {
			c.st.set(p.obj, p.off, tt.Const(int(v.sort.W), 1))
			ex.syncVC(c.st, p.obj)
			return Tuple{}
		}
		panic(blockReq{func(s *State) bool { return s.obj(p.obj).get(p.off).(*Term).val == 0 }, "mutex lock"})
	}
	unlock := func(c *callCtx) Value {
		p := lockSlot(c)
		v := c.st.obj(p.obj).get(p.off).(*Term)
		if v.val == 0 {
			panic(goPanic{msg: "fatal error: sync: unlock of unlocked mutex"})
		}
		c.st.set(p.obj, p.off, tt.Const(int(v.sort.W), 0))
		ex.syncVC(c.st, p.obj)
		return Tuple{}
	}
	m["(*sync.Mutex).Lock"] = lock
	m["(*sync.Mutex).Unlock"] = unlock
	m["(*sync.RWMutex).Lock"] = lock
	m["(*sync.RWMutex).Unlock"] = unlock
	m["(*sync.RWMutex).RLock"] = lock
	m["(*sync.RWMutex).RUnlock"] = unlock
	m["(*sync.Mutex).TryLock"] = func(c *callCtx) Value {
		p := lockSlot(c)
		v := c.st.obj(p.obj).get(p.off).(*Term)
		if v.val == 0 {
			c.st.set(p.obj, p.off, tt.Const(int(v.sort.W), 1))
			ex.syncVC(c.st, p.obj)
			return tt.tTrue
		}
		return tt.tFals
	}
	wgAdd := func(c *callCtx, d int64) Value {
		p := lockSlot(c)
		v := c.st.obj(p.obj).get(p.off).(*Term)
		n := int64(v.val) + d
		if n < 0 {
			panic(goPanic{msg: "sync: negative WaitGroup counter"})
		}
		c.st.set(p.obj, p.off, tt.Const(int(v.sort.W), uint64(n)))
		ex.syncVC(c.st, p.obj)
		return Tuple{}
	}
	m["(*sync.WaitGroup).Add"] = func(c *callCtx) Value { return wgAdd(c, int64(c.st.concretize(c.T(1)))) }
	m["(*sync.WaitGroup).Done"] = func(c *callCtx) Value { ex.schedPoint(c.st); return wgAdd(c, -1) }
	m["(*sync.WaitGroup).Wait"] = func(c *callCtx) Value {
		p := lockSlot(c)
		ex.schedPoint(c.st)
		if c.st.obj(p.obj).get(p.off).(*Term).val == 0 {
			ex.syncVC(c.st, p.obj)
			return Tuple{}
		}
		panic(blockReq{func(s *State) bool { return s.obj(p.obj).get(p.off).(*Term).val == 0 }, "WaitGroup.Wait"})
	}
	m["(*sync.Pool).Get"] = func(c *callCtx) Value {
		// a pool may always be empty: call New
		p := c.args[0].(Ptr)
		t := c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "New" {
				v := c.st.obj(p.obj).get(p.off + ex.fieldOff(t, i)).(*Closure)
				if v == nil || v.fn == nil {
					return Iface{}
				}
				ex.pushFrame(c.st, v.fn, nil, v.bind, c.call)
				return nil
			}
		}
		return Iface{}
	}
	m["(*sync.Pool).Put"] = func(c *callCtx) Value { return Tuple{} }
	m["(*sync.Once).Do"] = func(c *callCtx) Value {
		p := c.args[0].(Ptr)
		// find first slot
		v := c.st.obj(p.obj).get(p.off).(*Term)
		if v.val != 0 {
			return Tuple{}
		}
		c.st.set(p.obj, p.off, tt.Const(int(v.sort.W), 1))
		cl := c.args[1].(*Closure)
		ex.pushFrame(c.st, cl.fn, nil, cl.bind, nil)
		if c.call != nil {
			ex.setReg(c.st.th().frames[len(c.st.th().frames)-2], c.call, Tuple{})
		}
		return nil
	}
	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool"} {
		T := "(*sync/atomic." + ty + ")."
		m[T+"Load"] = ex.atomicOp(func(o *Term, a []Value) (*Term, Value) { return o, o }, ty == "Bool")
		m[T+"Store"] = ex.atomicOp(func(o *Term, a []Value) (*Term, Value) { return a[0].(*Term), Tuple{} }, ty == "Bool")
		m[T+"Add"] = ex.atomicOp(func(o *Term, a []Value) (*Term, Value) { n := tt.Bin(OAdd, o, a[0].(*Term)); return n, n }, false)
		m[T+"Swap"] = ex.atomicOp(func(o *Term, a []Value) (*Term, Value) { return a[0].(*Term), o }, ty == "Bool")
		m[T+"CompareAndSwap"] = ex.atomicOp(func(o *Term, a []Value) (*Term, Value) {
			e := tt.Eq(o, a[0].(*Term))
			return tt.Ite(e, a[1].(*Term), o), e
		}, ty == "Bool")
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		m["sync/atomic.Load"+ty] = ex.atomicOp(func(o *Term, a []Value) (*Term, Value) { return o, o }, false)
		m["sync/atomic.Store"+ty] = ex.atomicOp(func(o *Term, a []Value) (*Term, Value) { return a[0].(*Term), Tuple{} }, false)
		m["sync/atomic.Add"+ty] = ex.atomicOp(func(o *Term, a []Value) (*Term, Value) { n := tt.Bin(OAdd, o, a[0].(*Term)); return n, n }, false)
		m["sync/atomic.CompareAndSwap"+ty] = ex.atomicOp(func(o *Term, a []Value) (*Term, Value) {
			e := tt.Eq(o, a[0].(*Term))
			return tt.Ite(e, a[1].(*Term), o), e
		}, false)
	}

	// values of any type: one slot with an interface
	anyOp := func(f func(c *callCtx, o Iface) (Iface, Value)) intrinsic {
		return func(c *callCtx) Value {
			p := lockSlot(c)
			ex.schedPoint(c.st)
			n, r := f(c, c.st.obj(p.obj).get(p.off).(Iface))
			c.st.set(p.obj, p.off, n)
			ex.syncVC(c.st, p.obj)
			return r
		}
	}
	m["(*sync/atomic.Value).Load"] = anyOp(func(c *callCtx, o Iface) (Iface, Value) { return o, o })
	m["(*sync/atomic.Value).Store"] = anyOp(func(c *callCtx, o Iface) (Iface, Value) {
		n := c.args[1].(Iface)
		if n.t == nil {
			panic(goPanic{msg: "sync/atomic: store of nil value into Value"})
		}
		if o.t != nil && !types.Identical(o.t, n.t) {
			panic(goPanic{msg: "sync/atomic: store of inconsistently typed value into Value"})
		}
		return n, Tuple{}
	})
	m["(*sync/atomic.Value).Swap"] = anyOp(func(c *callCtx, o Iface) (Iface, Value) { return c.args[1].(Iface), o })
	// condition variables: counters of tickets given and of those which may go on
	m["(*sync.copyChecker).check"] = func(c *callCtx) Value { return Tuple{} }
	notify := func(f func(c *callCtx, wait, next uint64) (uint64, uint64, Value)) intrinsic {
		return func(c *callCtx) Value {
			p := lockSlot(c)
			get := func(i int) *Term { return c.st.obj(p.obj).get(p.off + i).(*Term) }
			w, n := get(0), get(1)
			w2, n2, r := f(c, w.val, n.val)
			c.st.set(p.obj, p.off, tt.Const(int(w.sort.W), w2))
			c.st.set(p.obj, p.off+1, tt.Const(int(n.sort.W), n2))
			ex.syncVC(c.st, p.obj)
			return r
		}
	}
	m["sync.runtime_notifyListAdd"] = notify(func(c *callCtx, w, n uint64) (uint64, uint64, Value) { return w + 1, n, tt.Const(32, w) })
	m["sync.runtime_notifyListNotifyAll"] = notify(func(c *callCtx, w, n uint64) (uint64, uint64, Value) { return w, w, Tuple{} })
	m["sync.runtime_notifyListNotifyOne"] = notify(func(c *callCtx, w, n uint64) (uint64, uint64, Value) {
		if n < w {
			n++
		}
		return w, n, Tuple{}
	})
	m["sync.runtime_notifyListWait"] = func(c *callCtx) Value {
		p := lockSlot(c)
		t := c.T(1).val
		ready := func(s *State) bool { return s.obj(p.obj).get(p.off+1).(*Term).val > t }
		if !ready(c.st) {
			panic(blockReq{ready, "Cond.Wait"})
		}
		ex.syncVC(c.st, p.obj)
		return Tuple{}
	}
	m["github.com/mlnoga/nightlight/internal/zzverif.zzAssign"] = func(c *callCtx) Value {
		e, target := c.args[0].(Iface), c.args[1].(Iface)
		if target.t == nil {
			panic(goPanic{msg: "errors: target cannot be nil"})
		}
		pt, ok := target.t.Underlying().(*types.Pointer)
		if !ok {
			panic(goPanic{msg: "errors: target must be a non-nil pointer"})
		}
		p := target.v.(Ptr)
		if p.obj == 0 {
			ex.nilPanic()
		}
		if types.IsInterface(pt.Elem()) {
			if !types.AssignableTo(e.t, pt.Elem()) {
				return tt.tFals
			}
			c.st.set(p.obj, p.off, e)
			return tt.tTrue
		}
		if !types.Identical(e.t, pt.Elem()) {
			return tt.tFals
		}
		ex.store(c.st, p, e.v)
		return tt.tTrue
	}

	// runtime & environment
	konst := func(v int64) intrinsic { return func(c *callCtx) Value { return tt.Int(v) } }
	cpus := func(c *callCtx) Value {
		if v, ok := ex.Params["cpus"]; ok {
			return tt.Int(int64(v))
		}
		return tt.Int(2)
	}
	m["runtime.NumCPU"] = cpus
	m["runtime.GOMAXPROCS"] = cpus
	m["runtime.NumGoroutine"] = konst(1)
	m["runtime.GC"] = func(c *callCtx) Value { return Tuple{} }
	m["runtime.KeepAlive"] = func(c *callCtx) Value { return Tuple{} }
	m["runtime.SetFinalizer"] = func(c *callCtx) Value { return Tuple{} }
	m["runtime.ReadMemStats"] = func(c *callCtx) Value { return Tuple{} }
	m["runtime.Gosched"] = func(c *callCtx) Value { ex.schedPoint(c.st); return Tuple{} }
	m["internal/abi.NoEscape"] = func(c *callCtx) Value { return c.args[0] }
	m["internal/abi.Escape"] = func(c *callCtx) Value { return c.args[0] }
	m["github.com/pbnjay/memory.TotalMemory"] = konst(8 << 30)
	m["(github.com/klauspost/cpuid.CPUInfo).AVX2"] = func(c *callCtx) Value {
		if v, ok := ex.Params["avx2"]; ok {
			return tt.Bool(v != 0)
		}
		return tt.Bool(hostAVX2)
	}
	for _, n := range []string{"AVX", "FMA3", "SSE", "SSE2", "SSE42", "POPCNT"} {
		m["(github.com/klauspost/cpuid.CPUInfo)."+n] = m["(github.com/klauspost/cpuid.CPUInfo).AVX2"]
	}
	m["unique.runtime_blockUntilEmptyFinalizerQueue"] = func(c *callCtx) Value { return Tuple{} }
	m["os.Getenv"] = func(c *callCtx) Value { return emptyStr }
	m["os.Exit"] = func(c *callCtx) Value { panic(endPath{"exit"}) }

	// bytealg
	bytesOf := func(c *callCtx, v Value) []*Term {
		switch x := v.(type) {
		case *Str:
			ex.noOpaque(x)
			return ex.strBytes(x)
		case Slice:
			r := make([]*Term, x.len)
			if x.len > 0 {
				o := c.st.obj(x.obj)
				for i := range r {
					r[i] = o.get(x.off + i).(*Term)
				}
			}
			return r
		}
		panic(unsupported{"bytes"})
	}
	indexByte := func(c *callCtx) Value {
		b := bytesOf(c, c.args[0])
		for i, t := range b {
			if c.st.decide(tt.Eq(t, c.T(1))) {
				return tt.Int(int64(i))
			}
		}
		return tt.Int(-1)
	}
	m["internal/bytealg.IndexByte"] = indexByte
	m["internal/bytealg.IndexByteString"] = indexByte
	lastIndexByte := func(c *callCtx) Value {
		b := bytesOf(c, c.args[0])
		for i := len(b) - 1; i >= 0; i-- {
			if c.st.decide(tt.Eq(b[i], c.T(1))) {
				return tt.Int(int64(i))
			}
		}
		return tt.Int(-1)
	}
	m["internal/bytealg.LastIndexByte"] = lastIndexByte
	m["internal/bytealg.LastIndexByteString"] = lastIndexByte
	count := func(c *callCtx) Value {
		r := tt.Int(0)
		for _, t := range bytesOf(c, c.args[0]) {
			r = tt.Bin(OAdd, r, tt.Ite(tt.Eq(t, c.T(1)), tt.Int(1), tt.Int(0)))
		}
		return r
	}
	m["internal/bytealg.Count"] = count
	m["internal/bytealg.CountString"] = count
	beq := func(c *callCtx) Value {
		a, b := bytesOf(c, c.args[0]), bytesOf(c, c.args[1])
		if len(a) != len(b) {
			return tt.tFals
		}
		r := tt.tTrue
		for i := range a {
			r = tt.And(r, tt.Eq(a[i], b[i]))
		}
		return r
	}
	m["bytes.Equal"] = beq
	m["internal/bytealg.Equal"] = beq
	index := func(c *callCtx) Value {
		a, b := bytesOf(c, c.args[0]), bytesOf(c, c.args[1])
		for i := 0; i+len(b) <= len(a); i++ {
			r := tt.tTrue
			for j := range b {
				r = tt.And(r, tt.Eq(a[i+j], b[j]))
			}
			if c.st.decide(r) {
				return tt.Int(int64(i))
			}
		}
		return tt.Int(-1)
	}
	for _, k := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		m[k] = index
	}
	m["internal/bytealg.MakeNoZero"] = func(c *callCtx) Value {
		n := c.st.concInt(c.args[0])
		return ex.makeSlice(c.st, types.Typ[types.Uint8], n, n)
	}
	m["internal/stringslite.Clone"] = func(c *callCtx) Value { return c.args[0] }
	m["strings.Clone"] = m["internal/stringslite.Clone"]

	// reflection helpers used by sort.Slice
	m["internal/reflectlite.ValueOf"] = func(c *callCtx) Value { return Agg{Opaque{"rv"}, c.args[0], Opaque{"rv"}} }
	m["(internal/reflectlite.Value).Len"] = func(c *callCtx) Value {
		return tt.Int(int64(c.args[0].(Agg)[1].(Iface).v.(Slice).len))
	}
	m["internal/reflectlite.Swapper"] = func(c *callCtx) Value {
		return &Closure{name: "swapper", bind: []Value{c.args[0]}}
	}
	m["closure:swapper"] = func(c *callCtx) Value {
		s := c.args[0].(Iface).v.(Slice)
		i, j := c.st.concInt(c.args[1]), c.st.concInt(c.args[2])
		if i < 0 || j < 0 || i >= s.len || j >= s.len {
			panic(goPanic{msg: "reflect: slice index out of range"})
		}
		o := c.st.obj(s.obj)
		for k := 0; k < s.es; k++ {
			a, b := o.get(s.off+i*s.es+k), o.get(s.off+j*s.es+k)
			c.st.set(s.obj, s.off+i*s.es+k, b)
			c.st.set(s.obj, s.off+j*s.es+k, a)
			o = c.st.obj(s.obj)
		}
		return Tuple{}
	}
	// testing
	fail := func(c *callCtx) Value {
		ex.violation(c.st, "assert", "test failed")
		panic(endPath{"test failure"})
	}
	for _, n := range []string{"Errorf", "Error", "Fatal", "Fatalf", "Fail", "FailNow"} {
		m["(*testing.common)."+n] = fail
		m["(*testing.T)."+n] = fail
	}
	for _, n := range []string{"Log", "Logf", "Helper"} {
		m["(*testing.common)."+n] = func(c *callCtx) Value { return Tuple{} }
	}
	ex.jsonIntrinsics(m)
	ex.regexIntrinsics(m)
	ex.miscIntrinsics(m)
}

func (ex *Exec) atomicOp(f func(o *Term, a []Value) (*Term, Value), isBool bool) intrinsic {
	return func(c *callCtx) Value {
		p := c.args[0].(Ptr)
		if p.obj == 0 {
			ex.nilPanic()
		}
		ex.schedPoint(c.st)
		o := c.st.obj(p.obj).get(p.off).(*Term)
		tt := ex.tt
		args := c.args[1:]
		if isBool {
			// stored as uint32
			a2 := make([]Value, len(args))
			for i, a := range args {
				a2[i] = tt.Ite(a.(*Term), tt.Const(int(o.sort.W), 1), tt.Const(int(o.sort.W), 0))
			}
			args = a2
		}
		n, r := f(o, args)
		if n != o {
			c.st.set(p.obj, p.off, n)
		}
		ex.syncVC(c.st, p.obj)
		if t, ok := r.(*Term); ok && isBool && t.sort.K == KBV {
			return tt.Not(tt.Eq(t, tt.Const(int(t.sort.W), 0)))
		}
		return r
	}
}

func (ex *Exec) doAssume(st *State, c *Term) {
	if c.IsConst() {
		if c.val == 0 {
			panic(endPath{"infeasible"})
		}
		return
	}
	if v, ok := st.known(c); ok {
		if !v {
			panic(endPath{"infeasible"})
		}
		return
	}
	st.assume(c)
	if st.model == nil {
		r, m := ex.check(st, nil)
		if r == RUnsat {
			panic(endPath{"infeasible"})
		}
		st.model = m
		if r == RUnknown {
			ex.Unknowns++
			st.unsure = true
		}
	}
}

func (ex *Exec) doAssert(st *State, c *Term, msg string) {
	ex.Asserts++
	if c.IsConst() && c.val == 1 {
		ex.AssertSites[msg]++
		return
	}
	if v, ok := st.known(c); ok && v {
		ex.AssertSites[msg]++
		return
	}
	nc := ex.tt.Not(c)
	var r Res
	var m *Model
	if st.model != nil {
		if v, ok := st.model.GetOK(nc); ok && v == 1 {
			r, m = RSat, st.model
		}
	}
	if m == nil {
		r, m = ex.check(st, nc)
	}
	switch r {
	case RUnsat:
		ex.AssertSites[msg]++
		return
	case RSat:
		ex.Violations = append(ex.Violations, Violation{Kind: "assert", Msg: msg, Where: st.stack(2), Inputs: st.inputs, Model: m, Sched: st.schedTrace, Gates: st.gates})
		if c.IsConst() {
			panic(endPath{"violated"})
		}
		// continue on the side where it holds, if any
		st.assume(c)
		if st.model == nil {
			r, m := ex.check(st, nil)
			if r == RUnsat {
				panic(endPath{"violated"})
			}
			st.model = m
		}
		return
	default:
		ex.Unknowns++
		ex.Unsupported["assertion undecided (solver unknown): "+msg]++
		st.assume(c)
		st.unsure = true
	}
}

// snapshot copies the observable value so later mutation does not change it
func (ex *Exec) snapshot(st *State, v Value, t types.Type, d int) Value {
	switch x := v.(type) {
	case Slice:
		r := make(Agg, 0, x.len)
		if x.len > 0 {
			o := st.obj(x.obj)
			for i := 0; i < x.len*x.es; i++ {
				r = append(r, o.get(x.off+i))
			}
		}
		return r
	case Iface:
		if x.t == nil {
			return &Str{s: "<nil>"}
		}
		return &Str{s: "<iface>"}
	}
	return v
}

// ---- math ----

func (ex *Exec) mathIntrinsics(m map[string]intrinsic) {
	tt := ex.tt
	un := func(name string, f func(float64) float64, sym func(st *State, a *Term) *Term) {
		m["math."+name] = func(c *callCtx) Value {
			a := c.T(0)
			if a.IsConst() {
				return tt.F64(f(a.Float()))
			}
			if sym != nil {
				return sym(c.st, a)
			}
			return ex.mathUF(c.st, name, a)
		}
		m["math."+strings.ToLower(name)] = m["math."+name]
	}
	un("Sqrt", math.Sqrt, func(st *State, a *Term) *Term { return tt.FSqrt(a) })
	un("Floor", math.Floor, func(st *State, a *Term) *Term { return tt.FRound(0, a) })
	un("Ceil", math.Ceil, func(st *State, a *Term) *Term { return tt.FRound(1, a) })
	un("Trunc", math.Trunc, func(st *State, a *Term) *Term { return tt.FRound(2, a) })
	un("Round", math.Round, func(st *State, a *Term) *Term { return tt.FRound(3, a) })
	un("RoundToEven", math.RoundToEven, func(st *State, a *Term) *Term { return tt.FRound(4, a) })
	un("Abs", math.Abs, func(st *State, a *Term) *Term { return tt.FAbs(a) })
	for n, f := range mathUnary {
		un(n, f, nil)
	}
	bin := func(name string, f func(a, b float64) float64, sym func(st *State, a, b *Term) *Term) {
		m["math."+name] = func(c *callCtx) Value {
			a, b := c.T(0), c.T(1)
			if a.IsConst() && b.IsConst() {
				return tt.F64(f(a.Float(), b.Float()))
			}
			if sym != nil {
				return sym(c.st, a, b)
			}
			return ex.mathUF(c.st, name, a, b)
		}
		m["math."+strings.ToLower(name)] = m["math."+name]
	}
	bin("Pow", math.Pow, func(st *State, a, b *Term) *Term {
		if b.IsConst() {
			switch b.Float() {
			case 1:
				return a
			case 2:
				return tt.FBin(OFMul, a, a)
			case 0:
				return tt.F64(1)
			}
		}
		return ex.mathUF(st, "Pow", a, b)
	})
	bin("Atan2", math.Atan2, nil)
	bin("Mod", math.Mod, nil)
	bin("Hypot", math.Hypot, nil)
	bin("Copysign", math.Copysign, nil)
	bin("Max", math.Max, func(st *State, a, b *Term) *Term {
		inf := tt.F64(math.Inf(1))
		return tt.Ite(tt.Or(tt.FEq(a, inf), tt.FEq(b, inf)), inf, ex.fminmax(a, b, true))
	})
	bin("Min", math.Min, func(st *State, a, b *Term) *Term {
		inf := tt.F64(math.Inf(-1))
		return tt.Ite(tt.Or(tt.FEq(a, inf), tt.FEq(b, inf)), inf, ex.fminmax(a, b, false))
	})
	m["math.Modf"] = func(c *callCtx) Value {
		a := c.T(0)
		i := tt.FRound(2, a)
		return Tuple{i, tt.FBin(OFSub, a, i)}
	}
	m["math.IsNaN"] = func(c *callCtx) Value { return tt.FIsNaN(c.T(0)) }
	m["math.IsInf"] = func(c *callCtx) Value {
		a, s := c.T(0), int64(c.st.concretize(c.T(1)))
		switch {
		case s > 0:
			return tt.FEq(a, tt.F64(math.Inf(1)))
		case s < 0:
			return tt.FEq(a, tt.F64(math.Inf(-1)))
		}
		return tt.FIsInf(a)
	}
	m["math.Inf"] = func(c *callCtx) Value {
		return tt.F64(math.Inf(int(int64(c.st.concretize(c.T(0))))))
	}
	m["math.NaN"] = func(c *callCtx) Value { return tt.F64(math.NaN()) }
	m["math.Signbit"] = func(c *callCtx) Value {
		return tt.Cmp(OSLt, tt.ToBits(c.T(0)), tt.Const(64, 0))
	}
	m["math.Float32bits"] = func(c *callCtx) Value { return tt.ToBits(c.T(0)) }
	m["math.Float64bits"] = func(c *callCtx) Value { return tt.ToBits(c.T(0)) }
	m["math.Float32frombits"] = func(c *callCtx) Value { return tt.FromBits(SF32, c.T(0)) }
	m["math.Float64frombits"] = func(c *callCtx) Value { return tt.FromBits(SF64, c.T(0)) }
	m["math.FMA"] = func(c *callCtx) Value {
		return ex.mathUF(c.st, "FMA", c.T(0), c.T(1), c.T(2))
	}
	m["math/bits.Len"] = func(c *callCtx) Value {
		a := c.T(0)
		r := tt.Int(0)
		for i := 0; i < int(a.sort.W); i++ {
			r = tt.Ite(tt.Cmp(OULe, tt.Const(int(a.sort.W), 1<<uint(i)), a), tt.Int(int64(i+1)), r)
		}
		return r
	}
	m["math/bits.Len64"] = m["math/bits.Len"]
	m["math/bits.Len32"] = m["math/bits.Len"]
}

// mathUF: transcendental functions are uninterpreted, with range facts that hold for every input
func (ex *Exec) mathUF(st *State, name string, args ...*Term) *Term {
	tt := ex.tt
	bits := tt.UF("uf_math_"+name, BV(64), args...)
	r := tt.FromBits(SF64, bits)
	z, one := tt.F64(0), tt.F64(1)
	var fact *Term
	notNaNArgs := tt.tTrue
	for _, a := range args {
		notNaNArgs = tt.And(notNaNArgs, tt.Not(tt.FIsNaN(a)))
	}
	imp := func(a, b *Term) *Term { return tt.Or(tt.Not(a), b) }
	inf := tt.F64(math.Inf(1))
	ninf := tt.F64(math.Inf(-1))
	switch name {
	case "Exp", "Exp2":
		fact = tt.And(imp(notNaNArgs, tt.FLe(z, r)), imp(tt.FLe(args[0], z), tt.FLe(r, one)))
		fact = tt.And(fact, imp(tt.FLe(z, args[0]), tt.FLe(one, r)))
		fact = tt.And(fact, imp(tt.FEq(args[0], z), tt.FEq(r, one)))
	case "Sin", "Cos":
		fact = imp(tt.And(notNaNArgs, tt.Not(tt.FIsInf(args[0]))), tt.And(tt.FLe(tt.F64(-1), r), tt.FLe(r, one)))
	case "Hypot":
		fact = imp(notNaNArgs, tt.FLe(z, r))
	case "Pow":
		a, b := args[0], args[1]
		fact = imp(tt.And(notNaNArgs, tt.FLe(z, a)), tt.FLe(z, r))
		fact = tt.And(fact, imp(tt.AndN(tt.FLe(z, a), tt.FLe(a, one), tt.FLe(z, b)), tt.FLe(r, one)))
		fact = tt.And(fact, imp(tt.AndN(tt.FEq(a, z), tt.FLt(z, b)), tt.FEq(r, z)))
		fact = tt.And(fact, imp(tt.FEq(a, one), tt.FEq(r, one)))
		fact = tt.And(fact, imp(tt.AndN(tt.FLe(one, a), tt.FLe(z, b)), tt.FLe(one, r)))
		fact = tt.And(fact, imp(tt.AndN(tt.FLt(z, a), tt.FLt(a, inf), notNaNArgs), tt.Not(tt.FIsNaN(r))))
	case "Cbrt":
		fact = imp(notNaNArgs, tt.Not(tt.FIsNaN(r)))
		fact = tt.And(fact, imp(tt.FLe(z, args[0]), tt.FLe(z, r)))
	case "Log", "Log2", "Log10":
		fact = imp(tt.And(tt.FLt(z, args[0]), tt.FLt(args[0], inf)), tt.And(tt.FLt(ninf, r), tt.FLt(r, inf)))
		fact = tt.And(fact, imp(tt.And(tt.FLe(z, args[0]), tt.FLe(args[0], one)), tt.FLe(r, z)))
		fact = tt.And(fact, imp(tt.FLe(one, args[0]), tt.FLe(z, r)))
	}
	if fact != nil {
		st.assume(fact)
	}
	return r
}

// ---- fmt ----

func (ex *Exec) fmtIntrinsics(m map[string]intrinsic) {
	tt := ex.tt
	variadic := func(c *callCtx, v Value) []Iface {
		s := v.(Slice)
		r := make([]Iface, s.len)
		for i := range r {
			r[i] = c.st.obj(s.obj).get(s.off + i).(Iface)
		}
		return r
	}
	m["fmt.Sprintf"] = func(c *callCtx) Value {
		return ex.format(c.st, c.args[0].(*Str), variadic(c, c.args[1]))
	}
	m["fmt.Sprint"] = func(c *callCtx) Value {
		a := variadic(c, c.args[0])
		if len(a) == 1 {
			return ex.format(c.st, &Str{s: "%v"}, a)
		}
		return &Str{s: "?", opaque: true}
	}
	m["fmt.Sprintln"] = func(c *callCtx) Value { return &Str{s: "?", opaque: true} }
	mkErr := func(c *callCtx, s *Str, args []Iface) Value {
		// *errors.errorString carrying the text; wrapped errors keep their identity through fmt.wrapError
		for _, a := range args {
			if a.t != nil && strings.Contains(c.args[0].(*Str).s, "%w") && types.Implements(a.t, errorIface()) {
				if t := ex.typeByName["fmt.wrapError"]; t != nil {
					id := c.st.alloc([]Value{s, a})
					return Iface{types.NewPointer(t), Ptr{obj: id}}
				}
			}
		}
		t := ex.typeByName["errors.errorString"]
		id := c.st.alloc([]Value{s})
		return Iface{ex.ptrTo(t), Ptr{obj: id}}
	}
	m["fmt.Errorf"] = func(c *callCtx) Value {
		args := variadic(c, c.args[1])
		return mkErr(c, ex.format(c.st, c.args[0].(*Str), args), args)
	}
	write := func(c *callCtx, w Iface, s *Str) Value {
		ok := Tuple{tt.Int(0), Iface{}}
		if w.t == nil {
			ex.nilPanic()
		}
		switch w.t.String() {
		case "io.discard", "*os.File", "*github.com/mlnoga/nightlight/internal/zzverif.LogSink":
			return ok
		}
		if s.opaque {
			panic(unsupported{"formatted text written to " + w.t.String()})
		}
		ms := ex.prog.MethodSets.MethodSet(w.t)
		sel := ms.Lookup(nil, "Write")
		if sel == nil {
			panic(unsupported{"Write of " + w.t.String()})
		}
		fn := ex.prog.MethodValue(sel)
		bs := ex.strBytes(s)
		vals := make([]Value, len(bs))
		for i := range bs {
			vals[i] = bs[i]
		}
		sl := Slice{obj: c.st.alloc(vals), len: len(bs), cap: len(bs), es: 1}
		if ex.isIntrinsic(fn) {
			return ex.callNative(c.st, &Closure{fn: fn}, []Value{w.v, sl}, c.call)
		}
		var res ssa.Value
		if c.call != nil {
			res = c.call
		}
		ex.pushFrame(c.st, fn, []Value{w.v, sl}, nil, res)
		return nil
	}
	m["fmt.Fprintf"] = func(c *callCtx) Value {
		return write(c, c.args[0].(Iface), ex.format(c.st, c.args[1].(*Str), variadic(c, c.args[2])))
	}
	m["fmt.Fprint"] = func(c *callCtx) Value {
		a := variadic(c, c.args[1])
		s := &Str{s: "?", opaque: true}
		if len(a) == 1 {
			s = ex.format(c.st, &Str{s: "%v"}, a)
		}
		return write(c, c.args[0].(Iface), s)
	}
	m["fmt.Fprintln"] = func(c *callCtx) Value {
		a := variadic(c, c.args[1])
		s := &Str{s: "?", opaque: true}
		if len(a) == 1 {
			s = ex.format(c.st, &Str{s: "%v\n"}, a)
		} else if len(a) == 0 {
			s = &Str{s: "\n"}
		}
		return write(c, c.args[0].(Iface), s)
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		m[n] = func(c *callCtx) Value { return Tuple{tt.Int(0), Iface{}} }
	}
	m["fmt.Sscanf"] = func(c *callCtx) Value { panic(unsupported{"fmt.Sscanf"}) }
}

var errIf *types.Interface

func errorIface() *types.Interface {
	if errIf == nil {
		errIf = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	}
	return errIf
}

func (ex *Exec) ptrTo(t types.Type) types.Type {
	return types.NewPointer(t)
}

// itoa: decimal text of a symbolic signed integer; forks on sign and digit count
func (ex *Exec) itoa(st *State, t *Term, signed bool) *Str {
	if t.IsConst() {
		if signed {
			return &Str{s: strconv.FormatInt(t.Signed(), 10)}
		}
		return &Str{s: strconv.FormatUint(t.val, 10)}
	}
	tt := ex.tt
	var n *Term
	neg := false
	if signed {
		n = tt.SExt(t, 64)
		if st.decide(tt.Cmp(OSLt, n, tt.Int(0))) {
			neg = true
			n = tt.Neg(n)
		}
	} else {
		n = tt.ZExt(t, 64)
	}
	d := 1
	p := uint64(10)
	for d < 20 {
		if st.decide(tt.Cmp(OULt, n, tt.Const(64, p))) {
			break
		}
		d++
		if d < 20 {
			p *= 10
		}
	}
	var b []*Term
	if neg {
		b = append(b, tt.Const(8, '-'))
	}
	// digits as fresh constrained values would need quantification; use division chain
	q := n
	ds := make([]*Term, d)
	for i := d - 1; i >= 0; i-- {
		dig := tt.Bin(OURem, q, tt.Int(10))
		ds[i] = tt.Bin(OAdd, tt.Extract(dig, 0, 8), tt.Const(8, '0'))
		q = tt.Bin(OUDiv, q, tt.Int(10))
	}
	return mkStr(append(b, ds...))
}

// format implements the verbs the code uses; unsupported symbolic content yields opaque text
func (ex *Exec) format(st *State, f *Str, args []Iface) *Str {
	if f.b != nil || f.opaque {
		return &Str{s: "?", opaque: true}
	}
	tt := ex.tt
	out := &Str{}
	ai := 0
	s := f.s
	for i := 0; i < len(s); {
		if s[i] != '%' {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				j = len(s) - i
			}
			out = ex.strConcat(out, &Str{s: s[i : i+j]})
			i += j
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			return &Str{s: "?", opaque: true}
		}
		spec := s[i : j+1]
		verb := s[j]
		i = j + 1
		if verb == '%' {
			out = ex.strConcat(out, &Str{s: "%"})
			continue
		}
		if ai >= len(args) {
			out = ex.strConcat(out, &Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[ai]
		ai++
		out = ex.strConcat(out, ex.fmtOne(st, spec, verb, a))
		if out.opaque {
			return out
		}
	}
	if ai < len(args) {
		return &Str{s: "?", opaque: true}
	}
	_ = tt
	return out
}

func (ex *Exec) fmtOne(st *State, spec string, verb byte, a Iface) *Str {
	op := &Str{s: "?", opaque: true}
	if a.t == nil {
		return &Str{s: fmt.Sprintf(spec, nil)}
	}
	if types.Implements(a.t, errorIface()) {
		return op
	}
	if n, ok := a.t.(*types.Named); ok && n.NumMethods() > 0 {
		return op
	}
	switch v := a.v.(type) {
	case *Str:
		if v.opaque {
			return op
		}
		if v.b == nil {
			return &Str{s: fmt.Sprintf(spec, v.s)}
		}
		if verb != 's' && verb != 'v' {
			return op
		}
		return ex.pad(v, spec)
	case *Term:
		if v.IsConst() {
			return &Str{s: fmt.Sprintf(spec, goConst(v, a.t))}
		}
		if v.sort.K == KBV && (verb == 'd' || verb == 'v') {
			return ex.pad(ex.itoa(st, v, isSigned(a.t)), spec)
		}
		if v.sort.K == KBool {
			if st.decide(v) {
				return &Str{s: fmt.Sprintf(spec, true)}
			}
			return &Str{s: fmt.Sprintf(spec, false)}
		}
		return op
	}
	return op
}

func (ex *Exec) pad(s *Str, spec string) *Str {
	fl := spec[1 : len(spec)-1]
	left, zero := false, false
	for len(fl) > 0 && strings.IndexByte("+-# 0", fl[0]) >= 0 {
		if fl[0] == '-' {
			left = true
		}
		if fl[0] == '0' {
			zero = true
		}
		if fl[0] == '+' {
			return &Str{s: "?", opaque: true}
		}
		fl = fl[1:]
	}
	w, prec := 0, -1
	if k := strings.IndexByte(fl, '.'); k >= 0 {
		prec, _ = strconv.Atoi(fl[k+1:])
		fl = fl[:k]
	}
	w, _ = strconv.Atoi(fl)
	if prec >= 0 && s.Len() > prec {
		s = mkStr(ex.strBytes(s)[:prec])
	}
	n := w - s.Len()
	if n <= 0 {
		return s
	}
	if left {
		return ex.strConcat(s, &Str{s: strings.Repeat(" ", n)})
	}
	if zero {
		if s.Len() > 0 {
			b0 := ex.strByte(s, 0)
			if b0.IsConst() && b0.val == '-' {
				return ex.strConcat(ex.strConcat(&Str{s: "-"}, &Str{s: strings.Repeat("0", n)}), mkStr(ex.strBytes(s)[1:]))
			}
		}
		return ex.strConcat(&Str{s: strings.Repeat("0", n)}, s)
	}
	return ex.strConcat(&Str{s: strings.Repeat(" ", n)}, s)
}

func goConst(v *Term, t types.Type) interface{} {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v.val
	}
	switch b.Kind() {
	case types.Bool:
		return v.val == 1
	case types.Int:
		return int(v.Signed())
	case types.Int8:
		return int8(v.Signed())
	case types.Int16:
		return int16(v.Signed())
	case types.Int32:
		return int32(v.Signed())
	case types.Int64:
		return v.Signed()
	case types.Uint:
		return uint(v.val)
	case types.Uint8:
		return uint8(v.val)
	case types.Uint16:
		return uint16(v.val)
	case types.Uint32:
		return uint32(v.val)
	case types.Uint64:
		return v.val
	case types.Float32:
		return math.Float32frombits(uint32(v.val))
	case types.Float64:
		return math.Float64frombits(v.val)
	}
	return v.val
}
