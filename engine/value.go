package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, *Str, Ptr, Slice, Iface, *Closure, MapRef, ChanRef, Agg, Tuple, *RangeIter, Opaque
type Value interface{}

type Str struct {
	s      string
	b      []*Term // symbolic bytes; nil when concrete
	opaque bool
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type SymIdx struct {
	idx    *Term // 64 bit, 0 <= idx < n
	stride int
	n      int
}
type Ptr struct {
	obj int
	off int
	sym *SymIdx
}

type Slice struct {
	obj, off, len, cap, es int
}

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	// intrinsic continuation
	name string
}
type MapRef struct{ id int }
type ChanRef struct{ id int }
type Agg []Value
type Tuple []Value
type Opaque struct{ what string }

type RangeIter struct {
	str   *Str
	keys  []Value
	vals  []Value
	pos   int
	m     int
	isStr bool
}

// ---- layout ----
type Layouts struct {
	size map[types.Type]int
	offs map[*types.Struct][]int
	flat map[types.Type][]types.Type
}

func (ex *Exec) slots(t types.Type) int {
	if n, ok := ex.lay.size[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += ex.slots(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * ex.slots(u.Elem())
	}
	ex.lay.size[t] = n
	return n
}
func (ex *Exec) fieldOff(s *types.Struct, i int) int {
	o, ok := ex.lay.offs[s]
	if !ok {
		o = make([]int, s.NumFields()+1)
		for j := 0; j < s.NumFields(); j++ {
			o[j+1] = o[j] + ex.slots(s.Field(j).Type())
		}
		ex.lay.offs[s] = o
	}
	return o[i]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (ex *Exec) sortOf(t types.Type) (Sort, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Sort{}, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return BV(64), true
	case types.Int32, types.Uint32, types.UntypedRune:
		return BV(32), true
	case types.Int16, types.Uint16:
		return BV(16), true
	case types.Int8, types.Uint8:
		return BV(8), true
	case types.Float32:
		return SF32, true
	case types.Float64, types.UntypedFloat:
		return SF64, true
	}
	return Sort{}, false
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var emptyStr = &Str{}

// zeroLeaf is the zero value of a non-aggregate type
func (ex *Exec) zeroLeaf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if s, ok := ex.sortOf(t); ok {
			if s.K == KBool {
				return ex.tt.tFals
			}
			if s.IsFloat() {
				return ex.tt.FBits(s, 0)
			}
			return ex.tt.Const(int(s.W), 0)
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		return Opaque{"zero " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{es: ex.slots(u.Elem())}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		return Tuple{}
	}
	return Opaque{"zero " + t.String()}
}

func (ex *Exec) zeroFlat(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = ex.zeroFlat(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		if u.Len() == 0 {
			return out
		}
		if !isAgg(u.Elem()) {
			z := ex.zeroLeaf(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				out = append(out, z)
			}
			return out
		}
		start := len(out)
		out = ex.zeroFlat(u.Elem(), out)
		n := len(out) - start
		for i := int64(1); i < u.Len(); i++ {
			out = append(out, out[start:start+n]...)
		}
		return out
	}
	return append(out, ex.zeroLeaf(t))
}

func (ex *Exec) zero(t types.Type) Value {
	if isAgg(t) {
		return Agg(ex.zeroFlat(t, nil))
	}
	return ex.zeroLeaf(t)
}

// flatten value of type t into slots
func flatten(v Value) []Value {
	if a, ok := v.(Agg); ok {
		return a
	}
	return []Value{v}
}

// ---- heap ----
const chunkSz = 32

type chunk struct {
	owner int
	v     []Value
}
type Obj struct {
	owner  int
	n      int
	es     int // element slots hint
	chunks []*chunk
	// map payload
	mp    *MapData
	ch    *ChanData
	label string
	typ   types.Type
}

type MapData struct {
	keys   []Value
	vals   []Value // flattened aggregated as Agg or leaf
	idx    map[string]int
	hasSym bool
}
type parked struct {
	tid int
	v   Value
}
type ChanData struct {
	cap    int
	buf    []Value
	closed bool
	sendq  []parked
	recvq  []int
	hand   map[int]Value
	done   map[int]bool
	es     types.Type
	vc     map[int]int
}

func newObj(owner int, vals []Value) *Obj {
	o := &Obj{owner: owner, n: len(vals)}
	if len(vals) <= 2*chunkSz {
		o.chunks = []*chunk{{owner: owner, v: vals}}
		return o
	}
	for i := 0; i < len(vals); i += chunkSz {
		j := min(i+chunkSz, len(vals))
		o.chunks = append(o.chunks, &chunk{owner: owner, v: vals[i:j:j]})
	}
	return o
}
func (o *Obj) get(i int) Value {
	if len(o.chunks) == 1 {
		return o.chunks[0].v[i]
	}
	return o.chunks[i/chunkSz].v[i%chunkSz]
}

type Heap struct {
	base map[int]*Obj
	over map[int]*Obj
}

func (st *State) obj(id int) *Obj {
	if o, ok := st.over[id]; ok {
		return o
	}
	if o, ok := st.ex.base[id]; ok {
		return o
	}
	panic(engErr(fmt.Sprintf("dangling object %d", id)))
}

// wobj returns a writable object
func (st *State) wobj(id int) *Obj {
	o, ok := st.over[id]
	if ok && o.owner == st.id {
		return o
	}
	if !ok {
		o = st.obj(id)
	}
	c := *o
	c.owner = st.id
	c.chunks = append([]*chunk(nil), o.chunks...)
	if o.mp != nil {
		m := *o.mp
		m.keys = append([]Value(nil), o.mp.keys...)
		m.vals = append([]Value(nil), o.mp.vals...)
		m.idx = make(map[string]int, len(o.mp.idx))
		for k, v := range o.mp.idx {
			m.idx[k] = v
		}
		c.mp = &m
	}
	if o.ch != nil {
		m := *o.ch
		m.buf = append([]Value(nil), o.ch.buf...)
		m.sendq = append([]parked(nil), o.ch.sendq...)
		m.recvq = append([]int(nil), o.ch.recvq...)
		m.hand = map[int]Value{}
		for k, v := range o.ch.hand {
			m.hand[k] = v
		}
		m.done = map[int]bool{}
		for k, v := range o.ch.done {
			m.done[k] = v
		}
		c.ch = &m
	}
	st.over[id] = &c
	return &c
}
func (st *State) set(id, i int, v Value) {
	o := st.wobj(id)
	ci, k := 0, i
	if len(o.chunks) > 1 {
		ci, k = i/chunkSz, i%chunkSz
	}
	c := o.chunks[ci]
	if c.owner != st.id {
		c = &chunk{owner: st.id, v: append([]Value(nil), c.v...)}
		o.chunks[ci] = c
	}
	c.v[k] = v
}

func (st *State) alloc(vals []Value) int {
	st.ex.nextObj++
	id := st.ex.nextObj
	st.over[id] = newObj(st.id, vals)
	return id
}

type engError struct{ msg string }

func (e engError) Error() string { return e.msg }
func engErr(s string) engError   { return engError{s} }

func valEq(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		if !ok || x.Len() != y.Len() {
			return false
		}
		if x == y {
			return true
		}
		if x.b == nil && y.b == nil {
			return x.s == y.s
		}
		if x.b == nil || y.b == nil {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && valEq(x.v, y.v)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return false
		}
		if x.sym != nil && y.sym != nil {
			return x.obj == y.obj && x.off == y.off && *x.sym == *y.sym
		}
		return x == y
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.fn != y.fn || x.name != y.name || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !valEq(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case Slice, MapRef, ChanRef, Opaque:
		return a == b
	case nil:
		return b == nil
	}
	return false
}

// merge two values under condition c; ok=false when not expressible
func (ex *Exec) mergeVal(c *Term, a, b Value) (Value, bool) {
	if valEq(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		return ex.tt.Ite(c, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok || x.Len() != y.Len() || x.opaque || y.opaque {
			return nil, false
		}
		n := x.Len()
		bs := make([]*Term, n)
		for i := 0; i < n; i++ {
			bs[i] = ex.tt.Ite(c, ex.strByte(x, i), ex.strByte(y, i))
		}
		return &Str{b: bs}, true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Agg, len(x))
		for i := range x {
			v, ok := ex.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			v, ok := ex.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := ex.mergeVal(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	}
	return nil, false
}

func (ex *Exec) strByte(s *Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return ex.tt.Const(8, uint64(s.s[i]))
}
func (ex *Exec) strBytes(s *Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = ex.tt.Const(8, uint64(s.s[i]))
	}
	return r
}
func mkStr(b []*Term) *Str {
	for _, t := range b {
		if !t.IsConst() {
			return &Str{b: b}
		}
	}
	x := make([]byte, len(b))
	for i, t := range b {
		x[i] = byte(t.val)
	}
	return &Str{s: string(x)}
}

func f64bits(f float64) uint64 { return math.Float64bits(f) }
