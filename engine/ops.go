package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) binop(st *State, f *Frame, x *ssa.BinOp) Value {
	a, b := ex.val(st, f, x.X), ex.val(st, f, x.Y)
	return ex.binopV(st, x.Op, a, b, x.X.Type(), x.Y.Type())
}

func (ex *Exec) binopV(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	tt := ex.tt
	switch op {
	case token.EQL:
		return ex.equal(st, a, b)
	case token.NEQ:
		return tt.Not(ex.equal(st, a, b))
	}
	if sa, ok := a.(*Str); ok {
		sb := b.(*Str)
		if op == token.ADD {
			return ex.strConcat(sa, sb)
		}
		ex.noOpaque(sa)
		ex.noOpaque(sb)
		lt := ex.strLess(sa, sb)
		switch op {
		case token.LSS:
			return lt
		case token.GTR:
			return ex.strLess(sb, sa)
		case token.LEQ:
			return tt.Not(ex.strLess(sb, sa))
		case token.GEQ:
			return tt.Not(lt)
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported{fmt.Sprintf("binop %v on %T %T", op, a, b)})
	}
	if x.sort.IsFloat() {
		switch op {
		case token.ADD:
			return tt.FBin(OFAdd, x, y)
		case token.SUB:
			return tt.FBin(OFSub, x, y)
		case token.MUL:
			return tt.FBin(OFMul, x, y)
		case token.QUO:
			return tt.FBin(OFDiv, x, y)
		case token.LSS:
			return tt.FLt(x, y)
		case token.LEQ:
			return tt.FLe(x, y)
		case token.GTR:
			return tt.FLt(y, x)
		case token.GEQ:
			return tt.FLe(y, x)
		}
	}
	if x.sort.K == KBool {
		switch op {
		case token.AND, token.LAND:
			return tt.And(x, y)
		case token.OR, token.LOR:
			return tt.Or(x, y)
		}
	}
	sg := isSigned(ta)
	w := int(x.sort.W)
	switch op {
	case token.ADD:
		return tt.Bin(OAdd, x, y)
	case token.SUB:
		return tt.Bin(OSub, x, y)
	case token.MUL:
		return tt.Bin(OMul, x, y)
	case token.QUO, token.REM:
		if !st.decide(tt.Not(tt.Eq(y, tt.Const(w, 0)))) {
			panic(goPanic{msg: "runtime error: integer divide by zero"})
		}
		switch {
		case op == token.QUO && sg:
			return tt.Bin(OSDiv, x, y)
		case op == token.QUO:
			return tt.Bin(OUDiv, x, y)
		case sg:
			return tt.Bin(OSRem, x, y)
		}
		return tt.Bin(OURem, x, y)
	case token.AND:
		return tt.Bin(OBAnd, x, y)
	case token.OR:
		return tt.Bin(OBOr, x, y)
	case token.XOR:
		return tt.Bin(OBXor, x, y)
	case token.AND_NOT:
		return tt.Bin(OBAnd, x, tt.BNot(y))
	case token.SHL, token.SHR:
		if isSigned(tb) {
			if !st.decide(tt.Cmp(OSLe, tt.Const(int(y.sort.W), 0), y)) {
				panic(goPanic{msg: "runtime error: negative shift amount"})
			}
		}
		yw := int(y.sort.W)
		var s *Term
		var big *Term
		if yw > w {
			big = tt.Not(tt.Cmp(OULt, y, tt.Const(yw, uint64(w))))
			s = tt.Extract(y, 0, w)
		} else {
			s = tt.ZExt(y, w)
			if yw < 8 || uint64(w) > mask(yw) {
				big = tt.tFals
			} else {
				big = tt.Not(tt.Cmp(OULt, s, tt.Const(w, uint64(w))))
			}
		}
		var r, o *Term
		if op == token.SHL {
			r, o = tt.Bin(OShl, x, s), tt.Const(w, 0)
		} else if sg {
			r, o = tt.Bin(OAShr, x, s), tt.Bin(OAShr, x, tt.Const(w, uint64(w-1)))
		} else {
			r, o = tt.Bin(OLShr, x, s), tt.Const(w, 0)
		}
		return tt.Ite(big, o, r)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OULt, OULe
		if sg {
			lt, le = OSLt, OSLe
		}
		switch op {
		case token.LSS:
			return tt.Cmp(lt, x, y)
		case token.LEQ:
			return tt.Cmp(le, x, y)
		case token.GTR:
			return tt.Cmp(lt, y, x)
		default:
			return tt.Cmp(le, y, x)
		}
	}
	panic(unsupported{"binop " + op.String()})
}

func (ex *Exec) noOpaque(s *Str) {
	if s.opaque {
		panic(unsupported{"content of unformatted text"})
	}
}

func (ex *Exec) strConcat(a, b *Str) *Str {
	if a.opaque || b.opaque {
		return &Str{s: "?", opaque: true}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.b == nil && b.b == nil {
		return &Str{s: a.s + b.s}
	}
	r := append(append([]*Term{}, ex.strBytes(a)...), ex.strBytes(b)...)
	return &Str{b: r}
}

func (ex *Exec) strLess(a, b *Str) *Term {
	if a.b == nil && b.b == nil {
		return ex.tt.Bool(a.s < b.s)
	}
	tt := ex.tt
	n := min(a.Len(), b.Len())
	r := tt.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := ex.strByte(a, i), ex.strByte(b, i)
		r = tt.Ite(tt.Cmp(OULt, x, y), tt.tTrue, tt.Ite(tt.Eq(x, y), r, tt.tFals))
	}
	return r
}

func (ex *Exec) equal(st *State, a, b Value) *Term {
	tt := ex.tt
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort.IsFloat() {
			return tt.FEq(x, y)
		}
		return tt.Eq(x, y)
	case *Str:
		y := b.(*Str)
		ex.noOpaque(x)
		ex.noOpaque(y)
		if x.Len() != y.Len() {
			return tt.tFals
		}
		if x.b == nil && y.b == nil {
			return tt.Bool(x.s == y.s)
		}
		r := tt.tTrue
		for i := 0; i < x.Len(); i++ {
			r = tt.And(r, tt.Eq(ex.strByte(x, i), ex.strByte(y, i)))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported{"iface compare mixed"})
		}
		if x.t == nil || y.t == nil {
			return tt.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tt.tFals
		}
		return ex.equal(st, x.v, y.v)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			if _, ok := b.(Slice); ok {
				return tt.Bool(x.obj == b.(Slice).obj)
			}
			panic(unsupported{"ptr compare"})
		}
		if x.sym != nil || y.sym != nil {
			if x.obj != y.obj {
				return tt.tFals
			}
			return tt.Eq(ex.ptrOff(x), ex.ptrOff(y))
		}
		return tt.Bool(x == y)
	case Slice:
		y := b.(Slice)
		if x.obj == 0 || y.obj == 0 {
			return tt.Bool(x.obj == y.obj)
		}
	case MapRef:
		return tt.Bool(x == b.(MapRef))
	case ChanRef:
		return tt.Bool(x == b.(ChanRef))
	case *Closure:
		y, _ := b.(*Closure)
		xn := x == nil || x.fn == nil && x.name == ""
		yn := y == nil || y.fn == nil && y.name == ""
		if xn || yn {
			return tt.Bool(xn && yn)
		}
	case Agg:
		y := b.(Agg)
		r := tt.tTrue
		for i := range x {
			r = tt.And(r, ex.equal(st, x[i], y[i]))
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("compare %T %T", a, b)})
}

func (ex *Exec) ptrOff(p Ptr) *Term {
	if p.sym == nil {
		return ex.tt.Int(int64(p.off))
	}
	return ex.tt.Bin(OAdd, ex.tt.Int(int64(p.off)), ex.tt.Bin(OMul, p.sym.idx, ex.tt.Int(int64(p.sym.stride))))
}

func (ex *Exec) unop(st *State, f *Frame, x *ssa.UnOp) Value {
	v := ex.val(st, f, x.X)
	tt := ex.tt
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported{fmt.Sprintf("deref of %T", v)})
		}
		return ex.load(st, p, x.Type())
	case token.SUB:
		t := v.(*Term)
		if t.sort.IsFloat() {
			return tt.FNeg(t)
		}
		return tt.Neg(t)
	case token.NOT:
		return tt.Not(v.(*Term))
	case token.XOR:
		return tt.BNot(v.(*Term))
	}
	panic(unsupported{"unop " + x.Op.String()})
}

func (ex *Exec) convert(st *State, v Value, from, to types.Type) Value {
	tt := ex.tt
	fu, tu := from.Underlying(), to.Underlying()
	if t, ok := v.(*Term); ok {
		if s, ok := ex.sortOf(to); ok {
			if t.sort.IsFloat() {
				if s.IsFloat() {
					return tt.FConv(t, s)
				}
				return tt.FToI(t, int(s.W), isSigned(to))
			}
			if s.IsFloat() {
				return tt.IntToF(t, isSigned(from), s)
			}
			if s.K == KBool {
				return t
			}
			w := int(s.W)
			if w <= int(t.sort.W) {
				return tt.Extract(t, 0, w)
			}
			if isSigned(from) {
				return tt.SExt(t, w)
			}
			return tt.ZExt(t, w)
		}
		if isString(to) { // rune to string
			if t.IsConst() {
				return &Str{s: string(rune(t.Signed()))}
			}
			c := st.concretize(t)
			return &Str{s: string(rune(int32(c)))}
		}
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return Opaque{"uintptr to unsafe.Pointer"}
		}
	}
	switch x := v.(type) {
	case *Str:
		if _, ok := tu.(*types.Slice); ok {
			el := tu.(*types.Slice).Elem()
			if s, _ := ex.sortOf(el); s == BV(8) {
				ex.noOpaque(x)
				bs := ex.strBytes(x)
				vals := make([]Value, len(bs))
				for i := range bs {
					vals[i] = bs[i]
				}
				return Slice{obj: st.alloc(vals), len: len(bs), cap: len(bs), es: 1}
			}
			// runes
			ex.noOpaque(x)
			cs := ex.concStr(st, x)
			var vals []Value
			for _, r := range cs {
				vals = append(vals, tt.Const(32, uint64(r)))
			}
			return Slice{obj: st.alloc(vals), len: len(vals), cap: len(vals), es: 1}
		}
		return x
	case Slice:
		if isString(to) {
			el := fu.(*types.Slice).Elem()
			if s, _ := ex.sortOf(el); s == BV(8) {
				return ex.bytesToStr(st, x)
			}
			var sb strings.Builder
			for i := 0; i < x.len; i++ {
				sb.WriteRune(rune(int32(st.concretize(st.obj(x.obj).get(x.off + i).(*Term)))))
			}
			return &Str{s: sb.String()}
		}
		return x
	case Ptr:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if x.obj == 0 {
				return tt.Int(0)
			}
			return tt.Int(int64(x.obj)*0x100000 + int64(x.off)*8)
		}
		return x
	}
	return v
}

func (ex *Exec) bytesToStr(st *State, x Slice) *Str {
	b := make([]*Term, x.len)
	if x.len > 0 {
		o := st.obj(x.obj)
		for i := range b {
			ex.access(st, x.obj, x.off+i, false)
			t, ok := o.get(x.off + i).(*Term)
			if !ok {
				panic(unsupported{"bytes to string"})
			}
			b[i] = t
		}
	}
	return mkStr(b)
}

// concStr forces a concrete string (forking over values)
func (ex *Exec) concStr(st *State, s *Str) string {
	ex.noOpaque(s)
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(st.concretize(t))
	}
	return string(b)
}

func (ex *Exec) strIndex(st *State, s *Str, idx *Term, sg bool) Value {
	ex.noOpaque(s)
	n := s.Len()
	i := idx
	if sg {
		i = ex.tt.SExt(idx, 64)
	} else {
		i = ex.tt.ZExt(idx, 64)
	}
	if !st.decide(ex.tt.Cmp(OULt, i, ex.tt.Int(int64(n)))) {
		panic(goPanic{msg: fmt.Sprintf("runtime error: index out of range with length %d", n)})
	}
	if i.IsConst() {
		return ex.strByte(s, int(i.val))
	}
	if n > 4096 {
		return ex.strByte(s, int(st.concretize(i)))
	}
	var r *Term
	for k := n - 1; k >= 0; k-- {
		if r == nil {
			r = ex.strByte(s, k)
		} else if int64(k) >= i.lo && int64(k) <= i.hi {
			r = ex.tt.Ite(ex.tt.Eq(i, ex.tt.Int(int64(k))), ex.strByte(s, k), r)
		}
	}
	return r
}

func (ex *Exec) slice(st *State, f *Frame, x *ssa.Slice) Value {
	tt := ex.tt
	base := ex.val(st, f, x.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.toI64(ex.val(st, f, v).(*Term), v.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	var n, c int
	var obj, off, es int
	var str *Str
	switch b := base.(type) {
	case *Str:
		ex.noOpaque(b)
		n = b.Len()
		c = n
		str = b
	case Slice:
		n, c, obj, off, es = b.len, b.cap, b.obj, b.off, b.es
	case Ptr:
		if b.obj == 0 {
			ex.nilPanic()
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		es = ex.slots(at.Elem())
		n = int(at.Len())
		c = n
		obj, off = b.obj, b.off
		if b.sym != nil {
			off += int(st.concretize(b.sym.idx)) * b.sym.stride
		}
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", base)})
	}
	if lo == nil {
		lo = tt.Int(0)
	}
	if hi == nil {
		hi = tt.Int(int64(n))
	}
	capT := tt.Int(int64(c))
	if mx != nil {
		if !st.decide(tt.Cmp(OULe, mx, capT)) {
			panic(goPanic{msg: "runtime error: slice bounds out of range (max)"})
		}
	} else {
		mx = capT
	}
	if !st.decide(tt.And(tt.Cmp(OULe, hi, mx), tt.Cmp(OULe, lo, hi))) {
		panic(goPanic{msg: fmt.Sprintf("runtime error: slice bounds out of range [%s:%s] with capacity %d", ex.showInt(st, lo), ex.showInt(st, hi), c)})
	}
	l, h, m := int(st.concretize(lo)), int(st.concretize(hi)), int(st.concretize(mx))
	if str != nil {
		if str.b == nil {
			return &Str{s: str.s[l:h]}
		}
		return mkStr(str.b[l:h])
	}
	if obj == 0 {
		return Slice{es: es}
	}
	return Slice{obj: obj, off: off + l*es, len: h - l, cap: m - l, es: es}
}

func (ex *Exec) showInt(st *State, t *Term) string {
	if t.IsConst() {
		return fmt.Sprint(t.Signed())
	}
	if st.model != nil {
		return fmt.Sprintf("%d", signExt(st.model.Get(t), int(t.sort.W)))
	}
	return "?"
}

// ---- maps ----

func keyStr(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.IsConst() {
			return fmt.Sprintf("t%d:%d:%x", x.sort.K, x.sort.W, x.val), true
		}
		return "", false
	case *Str:
		if x.opaque {
			panic(unsupported{"opaque map key"})
		}
		if x.b == nil {
			return "s" + x.s, true
		}
		return "", false
	case Ptr:
		if x.sym == nil {
			return fmt.Sprintf("p%d:%d", x.obj, x.off), true
		}
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := keyStr(x.v)
		return "i" + x.t.String() + k, ok
	case Agg:
		r := "a"
		for _, e := range x {
			k, ok := keyStr(e)
			if !ok {
				return "", false
			}
			r += k + "|"
		}
		return r, true
	case ChanRef:
		return fmt.Sprintf("c%d", x.id), true
	}
	return "", false
}

func (ex *Exec) mapFind(st *State, m *MapData, k Value) int {
	if ks, ok := keyStr(k); ok {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		if !m.hasSym {
			return -1
		}
	}
	for i, mk := range m.keys {
		if a, ok := mk.(*Str); ok {
			if b := k.(*Str); a.Len() != b.Len() {
				continue
			}
		}
		if st.decide(ex.equal(st, mk, k)) {
			return i
		}
	}
	return -1
}
func (ex *Exec) mapGet(st *State, r MapRef, k Value) (Value, bool) {
	if r.id == 0 {
		return nil, false
	}
	ex.access(st, r.id, 0, false)
	m := st.obj(r.id).mp
	i := ex.mapFind(st, m, k)
	if i < 0 {
		return nil, false
	}
	return m.vals[i], true
}
func (ex *Exec) mapSet(st *State, r MapRef, k, v Value) {
	if r.id == 0 {
		panic(goPanic{msg: "assignment to entry in nil map"})
	}
	i := ex.mapFind(st, st.obj(r.id).mp, k)
	ex.access(st, r.id, 0, true)
	m := st.wobj(r.id).mp
	if i >= 0 {
		m.vals[i] = v
		return
	}
	if ks, ok := keyStr(k); ok {
		m.idx[ks] = len(m.keys)
	} else {
		m.hasSym = true
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}
func (ex *Exec) mapDelete(st *State, r MapRef, k Value) {
	if r.id == 0 {
		return
	}
	i := ex.mapFind(st, st.obj(r.id).mp, k)
	if i < 0 {
		return
	}
	m := st.wobj(r.id).mp
	m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
	m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
	m.idx = map[string]int{}
	for j, k := range m.keys {
		if ks, ok := keyStr(k); ok {
			m.idx[ks] = j
		}
	}
}

func (ex *Exec) rangeIter(st *State, v Value) Value {
	switch x := v.(type) {
	case *Str:
		ex.noOpaque(x)
		return &RangeIter{str: x, isStr: true}
	case MapRef:
		it := &RangeIter{m: x.id}
		if x.id != 0 {
			m := st.obj(x.id).mp
			it.keys = append(it.keys, m.keys...)
			it.vals = append(it.vals, m.vals...)
		}
		return it
	}
	panic(unsupported{fmt.Sprintf("range over %T", v)})
}

func (ex *Exec) next(st *State, f *Frame, x *ssa.Next) Value {
	it := ex.val(st, f, x.Iter).(*RangeIter)
	tt := ex.tt
	if it.isStr {
		if it.pos >= it.str.Len() {
			return Tuple{tt.tFals, tt.Int(0), tt.Const(32, 0)}
		}
		b := ex.strByte(it.str, it.pos)
		n := *it
		if b.IsConst() && b.val < 0x80 || !b.IsConst() && st.decide(tt.Cmp(OULt, b, tt.Const(8, 0x80))) {
			n.pos++
			ex.setReg(f, x.Iter.(ssa.Value), &n)
			return Tuple{tt.tTrue, tt.Int(int64(it.pos)), tt.ZExt(b, 32)}
		}
		var buf []byte
		for i := it.pos; i < it.str.Len() && i < it.pos+4; i++ {
			buf = append(buf, byte(st.concretize(ex.strByte(it.str, i))))
		}
		r, sz := utf8.DecodeRune(buf)
		n.pos += sz
		ex.setReg(f, x.Iter.(ssa.Value), &n)
		return Tuple{tt.tTrue, tt.Int(int64(it.pos)), tt.Const(32, uint64(r))}
	}
	tup := x.Type().(*types.Tuple)
	zero := func(i int) Value {
		t := tup.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return tt.tFals
		}
		return ex.zero(t)
	}
	if it.pos >= len(it.keys) {
		return Tuple{tt.tFals, zero(1), zero(2)}
	}
	n := *it
	n.pos++
	ex.setReg(f, x.Iter.(ssa.Value), &n)
	return Tuple{tt.tTrue, it.keys[it.pos], it.vals[it.pos]}
}

// ---- type assertions ----

func (ex *Exec) typeAssert(st *State, v Value, x *ssa.TypeAssert) Value {
	i, ok := v.(Iface)
	if !ok {
		panic(unsupported{fmt.Sprintf("type assert on %T", v)})
	}
	match := false
	var res Value
	if i.t != nil {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			match = types.Implements(i.t, it)
			res = i
		} else {
			match = types.Identical(i.t, x.AssertedType)
			res = i.v
		}
	}
	if !match {
		if !x.CommaOk {
			d := "nil"
			if i.t != nil {
				d = i.t.String()
			}
			panic(goPanic{msg: "interface conversion: interface is " + d + ", not " + x.AssertedType.String()})
		}
		return Tuple{ex.zero(x.AssertedType), ex.tt.tFals}
	}
	if x.CommaOk {
		return Tuple{res, ex.tt.tTrue}
	}
	return res
}

// ---- channels ----

func (ex *Exec) chanWake(st *State) {}

func (ex *Exec) chanSend(st *State, f *Frame, x *ssa.Send) {
	r := ex.val(st, f, x.Chan).(ChanRef)
	v := ex.val(st, f, x.X)
	ex.schedPoint(st)
	th := st.th()
	if r.id == 0 {
		panic(blockReq{func(*State) bool { return false }, "send on nil channel"})
	}
	c := st.obj(r.id).ch
	if c.done[th.id] {
		c = st.wobj(r.id).ch
		delete(c.done, th.id)
		ex.syncVC(st, r.id)
		return
	}
	if c.closed {
		panic(goPanic{msg: "send on closed channel"})
	}
	if c.cap > 0 {
		if len(c.buf) < c.cap {
			c = st.wobj(r.id).ch
			c.buf = append(c.buf, v)
			ex.syncVC(st, r.id)
			return
		}
		id := r.id
		panic(blockReq{func(s *State) bool { c := s.obj(id).ch; return c.closed || len(c.buf) < c.cap }, "chan send"})
	}
	id, me := r.id, th.id
	if len(c.recvq) > 0 {
		c = st.wobj(id).ch
		rt := c.recvq[0]
		c.recvq = append([]int(nil), c.recvq[1:]...)
		c.hand[rt] = v
		ex.syncVC(st, id)
		return
	}
	for _, p := range c.sendq {
		if p.tid == me {
			panic(blockReq{func(s *State) bool { c := s.obj(id).ch; return c.closed || c.done[me] }, "chan send"})
		}
	}
	c = st.wobj(id).ch
	c.sendq = append(c.sendq, parked{me, v})
	ex.syncVC(st, id)
	panic(blockReq{func(s *State) bool { c := s.obj(id).ch; return c.closed || c.done[me] }, "chan send"})
}

// syncVC: happens-before edges through a synchronisation object (both directions: release and acquire)
func (ex *Exec) syncVC(st *State, id int) {
	if !ex.opt.Race {
		return
	}
	th := st.th()
	if th.vc == nil {
		th.vc = map[int]int{th.id: 1}
	}
	var ovc map[int]int
	if st.extra == nil {
		st.extra = map[string]Value{}
	}
	k := fmt.Sprintf("vc%d", id)
	if v, ok := st.extra[k]; ok {
		ovc = v.(map[int]int)
	}
	j := vcJoin(th.vc, ovc)
	st.extra[k] = j
	th.vc = vcJoin(j, nil)
	th.vc[th.id]++
}

func (ex *Exec) tryRecv(st *State, id int) (Value, bool, bool) {
	th := st.th()
	c := st.obj(id).ch
	if v, ok := c.hand[th.id]; ok {
		c = st.wobj(id).ch
		delete(c.hand, th.id)
		ex.syncVC(st, id)
		return v, true, true
	}
	if len(c.buf) > 0 {
		c = st.wobj(id).ch
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		ex.syncVC(st, id)
		return v, true, true
	}
	if len(c.sendq) > 0 {
		c = st.wobj(id).ch
		p := c.sendq[0]
		c.sendq = append([]parked(nil), c.sendq[1:]...)
		c.done[p.tid] = true
		ex.unparkRecv(c, th.id)
		ex.syncVC(st, id)
		return p.v, true, true
	}
	if c.closed {
		ex.syncVC(st, id)
		return ex.zero(c.es), false, true
	}
	return nil, false, false
}
func (ex *Exec) unparkRecv(c *ChanData, id int) {
	var q []int
	for _, t := range c.recvq {
		if t != id {
			q = append(q, t)
		}
	}
	c.recvq = q
}

func (ex *Exec) chanRecv(st *State, f *Frame, x *ssa.UnOp) {
	r := ex.val(st, f, x.X).(ChanRef)
	ex.schedPoint(st)
	if r.id == 0 {
		panic(blockReq{func(*State) bool { return false }, "receive from nil channel"})
	}
	v, ok, ready := ex.tryRecv(st, r.id)
	if ready {
		if x.CommaOk {
			ex.setReg(f, x, Tuple{v, ex.tt.Bool(ok)})
		} else {
			ex.setReg(f, x, v)
		}
		return
	}
	id, me := r.id, st.th().id
	c := st.obj(id).ch
	if c.cap == 0 {
		in := false
		for _, t := range c.recvq {
			in = in || t == me
		}
		if !in {
			c = st.wobj(id).ch
			c.recvq = append(c.recvq, me)
		}
	}
	panic(blockReq{func(s *State) bool {
		c := s.obj(id).ch
		_, h := c.hand[me]
		return h || len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
	}, "chan receive"})
}

func (ex *Exec) selectOp(st *State, f *Frame, x *ssa.Select) {
	ex.schedPoint(st)
	tt := ex.tt
	var ready []int
	for i, s := range x.States {
		r := ex.val(st, f, s.Chan).(ChanRef)
		if r.id == 0 {
			continue
		}
		c := st.obj(r.id).ch
		if s.Dir == types.SendOnly {
			if c.closed || c.cap > 0 && len(c.buf) < c.cap || len(c.recvq) > 0 {
				ready = append(ready, i)
			}
		} else if len(c.buf) > 0 || len(c.sendq) > 0 || c.closed {
			ready = append(ready, i)
		}
	}
	mk := func(idx int, ok bool, v Value, vi int) {
		t := Tuple{tt.Int(int64(idx)), tt.Bool(ok)}
		n := 0
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				e := ex.elem(s.Chan.Type())
				if n == vi && v != nil {
					t = append(t, v)
				} else {
					t = append(t, ex.zero(e))
				}
				n++
			}
		}
		ex.setReg(f, x, t)
	}
	if len(ready) == 0 {
		if !x.Blocking {
			mk(-1, false, nil, -1)
			return
		}
		type cd struct {
			id   int
			send bool
		}
		var cs []cd
		for _, s := range x.States {
			r := ex.val(st, f, s.Chan).(ChanRef)
			cs = append(cs, cd{r.id, s.Dir == types.SendOnly})
		}
		panic(blockReq{func(s *State) bool {
			for _, k := range cs {
				if k.id == 0 {
					continue
				}
				c := s.obj(k.id).ch
				if c.closed || k.send && (c.cap > 0 && len(c.buf) < c.cap || len(c.recvq) > 0) || !k.send && (len(c.buf) > 0 || len(c.sendq) > 0) {
					return true
				}
			}
			return false
		}, "select"})
	}
	pick := ready[0]
	if len(ready) > 1 && ex.opt.Sched >= 0 {
		v, _ := st.schedChoice(len(ready))
		pick = ready[v]
	}
	s := x.States[pick]
	r := ex.val(st, f, s.Chan).(ChanRef)
	if s.Dir == types.SendOnly {
		v := ex.val(st, f, s.Send)
		c := st.wobj(r.id).ch
		if c.closed {
			panic(goPanic{msg: "send on closed channel"})
		}
		if c.cap > 0 {
			c.buf = append(c.buf, v)
		} else {
			rt := c.recvq[0]
			c.recvq = append([]int(nil), c.recvq[1:]...)
			c.hand[rt] = v
		}
		ex.syncVC(st, r.id)
		mk(pick, false, nil, -1)
		return
	}
	v, ok, _ := ex.tryRecv(st, r.id)
	vi := 0
	for i := 0; i < pick; i++ {
		if x.States[i].Dir == types.RecvOnly {
			vi++
		}
	}
	mk(pick, ok, v, vi)
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, name string, args []Value, call *ssa.Call) Value {
	tt := ex.tt
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return tt.Int(int64(x.len))
		case *Str:
			ex.noOpaque(x)
			return tt.Int(int64(x.Len()))
		case MapRef:
			if x.id == 0 {
				return tt.Int(0)
			}
			return tt.Int(int64(len(st.obj(x.id).mp.keys)))
		case ChanRef:
			if x.id == 0 {
				return tt.Int(0)
			}
			return tt.Int(int64(len(st.obj(x.id).ch.buf)))
		case Ptr:
			return tt.Int(call.Call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case Agg:
			return tt.Int(call.Call.Args[0].Type().Underlying().(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return tt.Int(int64(x.cap))
		case ChanRef:
			if x.id == 0 {
				return tt.Int(0)
			}
			return tt.Int(int64(st.obj(x.id).ch.cap))
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case *Str:
			ex.noOpaque(y)
			for _, t := range ex.strBytes(y) {
				add = append(add, t)
			}
			if s.es == 0 {
				s.es = 1
			}
		case Slice:
			if y.len == 0 {
				return s
			}
			o := st.obj(y.obj)
			if s.es == 0 {
				s.es = y.es
			}
			for i := 0; i < y.len*y.es; i++ {
				ex.access(st, y.obj, y.off+i, false)
				add = append(add, o.get(y.off+i))
			}
		}
		es := s.es
		if es == 0 {
			// zero-size elements
			n := 0
			if y, ok := args[1].(Slice); ok {
				n = y.len
			}
			s.len += n
			s.cap = max(s.cap, s.len)
			if s.obj == 0 {
				s.obj = st.alloc(nil)
			}
			return s
		}
		n := len(add) / es
		if n == 0 {
			return s
		}
		if s.obj != 0 && s.len+n <= s.cap {
			for i, v := range add {
				ex.access(st, s.obj, s.off+s.len*es+i, true)
				st.set(s.obj, s.off+s.len*es+i, v)
			}
			s.len += n
			return s
		}
		nc := growCap(s.cap, s.len+n)
		vals := make([]Value, 0, nc*es)
		if s.len > 0 {
			o := st.obj(s.obj)
			for i := 0; i < s.len*es; i++ {
				ex.access(st, s.obj, s.off+i, false)
				vals = append(vals, o.get(s.off+i))
			}
		}
		vals = append(vals, add...)
		var z []Value
		et := ex.elem(call.Type())
		if nc > s.len+n {
			z = ex.zeroFlat(et, nil)
		}
		for len(vals) < nc*es {
			vals = append(vals, z...)
		}
		return Slice{obj: st.alloc(vals), len: s.len + n, cap: nc, es: es}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case *Str:
			ex.noOpaque(y)
			n := min(d.len, y.Len())
			for i := 0; i < n; i++ {
				src = append(src, ex.strByte(y, i))
			}
		case Slice:
			n := min(d.len, y.len)
			if n > 0 {
				o := st.obj(y.obj)
				for i := 0; i < n*y.es; i++ {
					ex.access(st, y.obj, y.off+i, false)
					src = append(src, o.get(y.off+i))
				}
			}
		}
		for i, v := range src {
			ex.access(st, d.obj, d.off+i, true)
			st.set(d.obj, d.off+i, v)
		}
		if d.es == 0 {
			return tt.Int(0)
		}
		return tt.Int(int64(len(src) / max(d.es, 1)))
	case "delete":
		ex.mapDelete(st, args[0].(MapRef), args[1])
		return Tuple{}
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.id != 0 {
				st.wobj(x.id).mp = &MapData{idx: map[string]int{}}
			}
		case Slice:
			z := ex.zeroFlat(ex.elem(call.Call.Args[0].Type()), nil)
			for i := 0; i < x.len*x.es; i++ {
				st.set(x.obj, x.off+i, z[i%len(z)])
			}
		}
		return Tuple{}
	case "close":
		r := args[0].(ChanRef)
		if r.id == 0 {
			panic(goPanic{msg: "close of nil channel"})
		}
		c := st.wobj(r.id).ch
		if c.closed {
			panic(goPanic{msg: "close of closed channel"})
		}
		c.closed = true
		ex.syncVC(st, r.id)
		return Tuple{}
	case "panic":
		panic(goPanic{val: args[0], msg: "panic"})
	case "recover":
		th := st.th()
		if th.panicking && !th.recovered {
			th.recovered = true
			v := th.panicVal
			if v == nil {
				return Iface{t: types.Typ[types.String], v: &Str{s: th.panicMsg}}
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return Tuple{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(*Term)
			y, ok2 := a.(*Term)
			if !ok1 || !ok2 {
				panic(unsupported{"min/max strings"})
			}
			if x.sort.IsFloat() {
				r = ex.fminmax(x, y, name == "max")
				continue
			}
			lt := OULt
			if isSigned(call.Type()) {
				lt = OSLt
			}
			c := tt.Cmp(lt, x, y)
			if name == "max" {
				c = tt.Cmp(lt, y, x)
			}
			r = tt.Ite(c, x, y)
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			ex.nilPanic()
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{obj: s.obj, off: s.off}
	case "StringData":
		s := args[0].(*Str)
		var vals []Value
		for _, t := range ex.strBytes(s) {
			vals = append(vals, t)
		}
		return Ptr{obj: st.alloc(vals)}
	case "String":
		p := args[0].(Ptr)
		n := st.concInt(args[1])
		return ex.bytesToStr(st, Slice{obj: p.obj, off: p.off, len: n, cap: n, es: 1})
	case "Slice":
		p := args[0].(Ptr)
		n := st.concInt(args[1])
		es := ex.slots(ex.elem(call.Type()))
		return Slice{obj: p.obj, off: p.off, len: n, cap: n, es: es}
	case "Add":
		p := args[0].(Ptr)
		n := st.concInt(args[1])
		if n == 0 {
			return p
		}
	}
	panic(unsupported{"builtin " + name})
}

func (ex *Exec) fminmax(x, y *Term, mx bool) *Term {
	tt := ex.tt
	nan := tt.Or(tt.FIsNaN(x), tt.FIsNaN(y))
	c := tt.FLt(x, y)
	if mx {
		c = tt.FLt(y, x)
	}
	// equal zeros: min prefers -0, max prefers +0
	r := tt.Ite(c, x, y)
	if !(x.op == ODy || y.op == ODy) {
		eq := tt.FEq(x, y)
		bx, by := tt.ToBits(x), tt.ToBits(y)
		op := OBOr
		if mx {
			op = OBAnd
		}
		if eq != tt.tFals && bitsAble(x) && bitsAble(y) {
			r = tt.Ite(eq, tt.FromBits(x.sort, tt.Bin(op, bx, by)), r)
		}
	}
	return tt.Ite(nan, tt.FConst(x.sort, nanF), r)
}

func growCap(old, need int) int {
	// mirrors the runtime's growth closely enough: observable capacity is not relied upon
	c := old
	if c == 0 {
		c = need
	}
	for c < need {
		if c < 256 {
			c *= 2
		} else {
			c += c/4 + 192
		}
	}
	return c
}
