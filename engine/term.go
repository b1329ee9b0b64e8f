package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Kinds of SMT sorts used by the encoder
type Kind uint8

const (
	KBool Kind = iota
	KBV
	KF32
	KF64
)

type Sort struct {
	K Kind
	W uint8
}

var (
	SBool = Sort{KBool, 1}
	SF32  = Sort{KF32, 32}
	SF64  = Sort{KF64, 64}
)

func BV(w int) Sort { return Sort{KBV, uint8(w)} }

func (s Sort) IsFloat() bool { return s.K == KF32 || s.K == KF64 }

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF // uninterpreted application: name, args
	ONot
	OAnd
	OOr
	OIte
	OEq // bool/bv equality
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OExtract // val = lo ; width from sort
	OZExt
	OSExt
	// floats
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFSqrt
	OFRound // val: 0 floor 1 ceil 2 trunc 3 nearest-away 4 nearest-even
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFConv   // float <-> float
	OFToS    // float -> signed bv (truncation; in range guaranteed by guard)
	OFToU    // float -> unsigned bv
	OSToF    // signed bv -> float
	OUToF    // unsigned bv -> float
	OFromBit // bv -> float
	OToBit   // float -> bv
	ODy      // exact dyadic: args[0] (bv32/64 signed) * 2^-val
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle"}

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	val  uint64
	name string
	// signed interval, for bv
	lo, hi            int64
	bitOK, grid, uf   int8
	bits, conv, fbits *Term // memo of ToBits, FConv, FromBits
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) Signed() int64 {
	return signExt(t.val, int(t.sort.W))
}
func signExt(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}
func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

type tkey struct {
	op         Op
	sort       Sort
	a0, a1, a2 int32
	val        uint64
	name       string
}

type TermTable struct {
	mm            map[mmKey]*Term
	mmo           map[*Term]int
	tabi          map[*Term]*tabInfo
	tabm          map[*Term]*Term
	nn, num, inff map[*Term]bool // floats known not to be NaN (num), nor infinite (inff)
	m             map[tkey]*Term
	mN            map[string]*Term
	n             int
	tTrue         *Term
	tFals         *Term
	ufs           map[string]ufSig
	smallConst    [6][512]*Term
	lin           map[*Term]*linForm
	linRep        map[string]*Term
	linBusy       bool
	exm           map[exKey]*Term
	ivs           map[*Term]*fiv
	Tab           int  // tabulate inexact functions of integers with at most this many values
	gridUsed      map[int64]float64
	AC            bool
	UFMode        bool // inexact float arithmetic as uninterpreted functions
	NoZeroSign    bool
	OverNeg       bool // an approximation was used (sign of zero)
}

type exKey struct {
	t     *Term
	lo, w int
}

type ufSig struct {
	args []Sort
	res  Sort
}

func NewTT() *TermTable {
	tt := &TermTable{m: map[tkey]*Term{}, mN: map[string]*Term{}, ufs: map[string]ufSig{}, lin: map[*Term]*linForm{}, linRep: map[string]*Term{}, ivs: map[*Term]*fiv{}, exm: map[exKey]*Term{}}
	tt.tTrue = tt.mk(OConst, SBool, 1, "")
	tt.tFals = tt.mk(OConst, SBool, 0, "")
	return tt
}

func (tt *TermTable) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	if len(args) > 3 {
		key := fmt.Sprint(op, s, val, name)
		for _, a := range args {
			key += "," + strconv.Itoa(a.id)
		}
		if t, ok := tt.mN[key]; ok {
			return t
		}
		t := &Term{id: tt.n, op: op, sort: s, val: val, name: name, args: append([]*Term(nil), args...)}
		tt.n++
		tt.setRange(t)
		tt.mN[key] = t
		return t
	}
	k := tkey{op: op, sort: s, val: val, name: name, a0: -1, a1: -1, a2: -1}
	if len(args) > 0 {
		k.a0 = int32(args[0].id)
	}
	if len(args) > 1 {
		k.a1 = int32(args[1].id)
	}
	if len(args) > 2 {
		k.a2 = int32(args[2].id)
	}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{id: tt.n, op: op, sort: s, val: val, name: name}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	tt.n++
	tt.setRange(t)
	tt.m[k] = t
	return t
}

func minS(w int) int64 { return -1 << uint(w-1) }
func maxS(w int) int64 { return int64(mask(w - 1)) }

func (tt *TermTable) setRange(t *Term) {
	if t.sort.K != KBV {
		return
	}
	w := int(t.sort.W)
	t.lo, t.hi = minS(w), maxS(w)
	lim := func(lo, hi int64, ok bool) {
		if ok && lo >= minS(w) && hi <= maxS(w) {
			t.lo, t.hi = lo, hi
		}
	}
	switch t.op {
	case OConst:
		t.lo = t.Signed()
		t.hi = t.lo
	case OAdd:
		a, b := t.args[0], t.args[1]
		l, o1 := addOv(a.lo, b.lo)
		h, o2 := addOv(a.hi, b.hi)
		lim(l, h, o1 && o2)
	case OSub:
		a, b := t.args[0], t.args[1]
		l, o1 := subOv(a.lo, b.hi)
		h, o2 := subOv(a.hi, b.lo)
		lim(l, h, o1 && o2)
	case OMul:
		a, b := t.args[0], t.args[1]
		var mn, mx int64
		ok := true
		for i, p := range [4][2]int64{{a.lo, b.lo}, {a.lo, b.hi}, {a.hi, b.lo}, {a.hi, b.hi}} {
			v, o := mulOv(p[0], p[1])
			ok = ok && o
			if i == 0 || v < mn {
				mn = v
			}
			if i == 0 || v > mx {
				mx = v
			}
		}
		if a == b && mn < 0 {
			mn = 0
		}
		lim(mn, mx, ok)
	case OFToS:
		if v, ok := tt.iv(t.args[0]); ok && v.lo > -9e18 && v.hi < 9e18 {
			lim(int64(math.Trunc(v.lo)), int64(math.Trunc(v.hi)), true)
		}
	case ONeg:
		a := t.args[0]
		if a.lo > minS(w) {
			lim(-a.hi, -a.lo, true)
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		lim(min(a.lo, b.lo), max(a.hi, b.hi), true)
	case OZExt:
		a := t.args[0]
		if a.lo >= 0 {
			lim(a.lo, a.hi, true)
		} else {
			lim(0, int64(mask(int(a.sort.W))), a.sort.W < 63)
		}
	case OSExt:
		lim(t.args[0].lo, t.args[0].hi, true)
	case OExtract:
		a := t.args[0]
		if t.val == 0 && a.lo >= minS(w) && a.hi <= maxS(w) {
			lim(a.lo, a.hi, true)
		}
	case OBAnd:
		a, b := t.args[0], t.args[1]
		if a.lo >= 0 && b.lo >= 0 {
			lim(0, min(a.hi, b.hi), true)
		} else if a.lo >= 0 {
			lim(0, a.hi, true)
		} else if b.lo >= 0 {
			lim(0, b.hi, true)
		}
	case OBOr, OBXor:
		a, b := t.args[0], t.args[1]
		if a.lo >= 0 && b.lo >= 0 {
			m := max(a.hi, b.hi)
			lim(0, int64(mask(bits.Len64(uint64(m)))), true)
		}
	case OLShr:
		a, b := t.args[0], t.args[1]
		if b.IsConst() {
			if a.lo >= 0 {
				lim(0, a.hi>>min(b.val, 63), true)
			} else if b.val > 0 && b.val < uint64(w) {
				lim(0, int64(mask(w-int(b.val))), true)
			}
		}
	case OAShr:
		a, b := t.args[0], t.args[1]
		if b.IsConst() {
			s := min(b.val, 63)
			lim(a.lo>>s, a.hi>>s, true)
		}
	case OShl:
		a, b := t.args[0], t.args[1]
		if b.IsConst() && b.val < 62 {
			l, o1 := mulOv(a.lo, 1<<b.val)
			h, o2 := mulOv(a.hi, 1<<b.val)
			lim(l, h, o1 && o2)
		}
	case OSDiv:
		a, b := t.args[0], t.args[1]
		if b.IsConst() && b.Signed() > 0 {
			lim(a.lo/b.Signed(), a.hi/b.Signed(), true)
		} else if a.lo > minS(w) {
			m := max(1, a.hi, -a.lo) // also covers division by zero: 1 or -1
			lim(-m, m, true)
		}
	case OSRem:
		a, b := t.args[0], t.args[1]
		if b.IsConst() && b.Signed() > 0 {
			m := b.Signed() - 1
			l, h := -m, m
			if a.lo >= 0 {
				l = 0
				h = min(h, a.hi)
			}
			lim(l, h, true)
		} else {
			lim(min(0, a.lo), max(0, a.hi), true)
		}
	case OUDiv:
		a, b := t.args[0], t.args[1]
		if b.IsConst() && b.val > 0 && a.lo >= 0 && b.lo > 0 {
			lim(a.lo/b.lo, a.hi/b.lo, true)
		} else if a.lo >= 0 && b.lo > 0 {
			lim(0, a.hi, true)
		}
	case OURem:
		a, b := t.args[0], t.args[1]
		if b.IsConst() && b.lo > 0 {
			h := b.lo - 1
			if a.lo >= 0 {
				h = min(h, a.hi)
			}
			lim(0, h, true)
		}
	}
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0) || b == 0
}
func subOv(a, b int64) (int64, bool) {
	c := a - b
	return c, (c < a) == (b > 0) || b == 0
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return c, true
}

// ---- constructors ----

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.tTrue
	}
	return tt.tFals
}
func (tt *TermTable) Const(w int, v uint64) *Term {
	v &= mask(w)
	if v < 512 {
		var i int
		switch w {
		case 8:
			i = 0
		case 16:
			i = 1
		case 32:
			i = 2
		case 64:
			i = 3
		default:
			i = -1
		}
		if i >= 0 {
			if t := tt.smallConst[i][v]; t != nil {
				return t
			}
			t := tt.mk(OConst, BV(w), v, "")
			tt.smallConst[i][v] = t
			return t
		}
	}
	return tt.mk(OConst, BV(w), v, "")
}
func (tt *TermTable) Int(v int64) *Term { return tt.Const(64, uint64(v)) }
func (tt *TermTable) F32(v float32) *Term {
	return tt.mk(OConst, SF32, uint64(math.Float32bits(v)), "")
}
func (tt *TermTable) F64(v float64) *Term { return tt.mk(OConst, SF64, math.Float64bits(v), "") }
func (tt *TermTable) FBits(s Sort, v uint64) *Term {
	return tt.mk(OConst, s, v, "")
}
func (t *Term) Float() float64 {
	if t.sort.K == KF32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}
func (tt *TermTable) FConst(s Sort, v float64) *Term {
	if s.K == KF32 {
		return tt.F32(float32(v))
	}
	return tt.F64(v)
}

func (tt *TermTable) Var(name string, s Sort, lo, hi int64, ranged bool) *Term {
	t := tt.mk(OVar, s, 0, name)
	if ranged {
		t.lo, t.hi = lo, hi
	}
	return t
}

// hasUF: any of the terms depends on an uninterpreted operation
func (tt *TermTable) hasUF(ts []*Term, x *Term) bool {
	if len(tt.ufs) == 0 {
		return false
	}
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if t.uf == 0 {
			t.uf = -1
			if t.op == OUF {
				t.uf = 1
			}
			for _, a := range t.args {
				if has(a) {
					t.uf = 1
				}
			}
		}
		return t.uf > 0
	}
	for _, t := range ts {
		if has(t) {
			return true
		}
	}
	return x != nil && has(x)
}

func (tt *TermTable) UF(name string, res Sort, args ...*Term) *Term {
	if _, ok := tt.ufs[name]; !ok {
		sg := ufSig{res: res}
		for _, a := range args {
			sg.args = append(sg.args, a.sort)
		}
		tt.ufs[name] = sg
	}
	return tt.mk(OUF, res, 0, name, args...)
}

func (tt *TermTable) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tt.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OSLt:
		return tt.mk(OSLe, SBool, 0, "", a.args[1], a.args[0])
	case OSLe:
		return tt.mk(OSLt, SBool, 0, "", a.args[1], a.args[0])
	case OULt:
		return tt.mk(OULe, SBool, 0, "", a.args[1], a.args[0])
	case OULe:
		return tt.mk(OULt, SBool, 0, "", a.args[1], a.args[0])
	}
	return tt.mk(ONot, SBool, 0, "", a)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == tt.Not(b) {
		return tt.tFals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, SBool, 0, "", a, b)
}
func (tt *TermTable) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == tt.Not(b) {
		return tt.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, SBool, 0, "", a, b)
}
func (tt *TermTable) AndN(ts ...*Term) *Term {
	r := tt.tTrue
	for _, t := range ts {
		r = tt.And(r, t)
	}
	return r
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tt.Ite(c.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %v %v", a.sort, b.sort))
	}
	if a.sort.K == KBool {
		if a.IsConst() {
			if a.val == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.IsConst() {
			if b.val == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		return tt.Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return tt.Ite(c, a, b.args[2])
	}
	if a.sort.IsFloat() {
		if da, ka, ok := tt.asDy(a); ok {
			if db, kb, ok2 := tt.asDy(b); ok2 && (a.op == ODy || b.op == ODy || true) {
				da2, db2, k, ok3 := tt.dyAlign(da, ka, db, kb)
				if ok3 {
					if t := tt.dy(a.sort, tt.Ite(c, da2, db2), k); t != nil {
						return t
					}
				}
			}
		}
	}
	return tt.mk(OIte, a.sort, 0, "", c, a, b)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.sort.IsFloat() {
		return tt.FEq(a, b)
	}
	if a.IsConst() && b.IsConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.sort.K == KBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
	}
	if a.sort.K == KBV {
		if a.hi < b.lo || b.hi < a.lo {
			return tt.tFals
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			switch a.op {
			case OIte:
				x, y := a.args[1], a.args[2]
				if x.IsConst() || y.IsConst() {
					return tt.Ite(a.args[0], tt.Eq(x, b), tt.Eq(y, b))
				}
			case OZExt:
				w := int(a.args[0].sort.W)
				if b.val&^mask(w) != 0 {
					return tt.tFals
				}
				return tt.Eq(a.args[0], tt.Const(w, b.val))
			case OSExt:
				w := int(a.args[0].sort.W)
				if signExt(b.val&mask(w), w) != b.Signed() {
					return tt.tFals
				}
				return tt.Eq(a.args[0], tt.Const(w, b.val))
			case OAdd:
				if a.args[1].IsConst() {
					return tt.Eq(a.args[0], tt.Const(int(a.sort.W), b.val-a.args[1].val))
				}
			}
		} else if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort || a.op == OSExt && b.op == OSExt && a.args[0].sort == b.args[0].sort {
			return tt.Eq(a.args[0], b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, SBool, 0, "", a, b)
}

func foldBin(op Op, w int, x, y uint64) (uint64, bool) {
	sx, sy := signExt(x, w), signExt(y, w)
	switch op {
	case OAdd:
		return (x + y) & mask(w), true
	case OSub:
		return (x - y) & mask(w), true
	case OMul:
		return (x * y) & mask(w), true
	case OUDiv:
		if y == 0 {
			return mask(w), true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		if sy == 0 {
			if sx >= 0 {
				return mask(w), true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & mask(w), true
		}
		return uint64(sx/sy) & mask(w), true
	case OSRem:
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & mask(w), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & mask(w), true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sx>>y) & mask(w), true
	}
	return 0, false
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("bin sort mismatch %v %v %v", opNames[op], a.sort, b.sort))
	}
	w := int(a.sort.W)
	if a.IsConst() && b.IsConst() {
		v, _ := foldBin(op, w, a.val, b.val)
		return tt.Const(w, v)
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	zero := b.IsConst() && b.val == 0
	switch op {
	case OAdd:
		if zero {
			return a
		}
		if b.IsConst() && a.op == OAdd && a.args[1].IsConst() {
			return tt.Bin(OAdd, a.args[0], tt.Const(w, a.args[1].val+b.val))
		}
	case OSub:
		if zero {
			return a
		}
		if a == b {
			return tt.Const(w, 0)
		}
		if b.IsConst() {
			return tt.Bin(OAdd, a, tt.Const(w, -b.val))
		}
		if a.op == OAdd {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
		}
	case OMul:
		if zero {
			return b
		}
		if b.IsConst() && b.val == 1 {
			return a
		}
	case OBAnd:
		if zero {
			return b
		}
		if a == b {
			return a
		}
		if b.IsConst() && b.val == mask(w) {
			return a
		}
		if b.IsConst() && a.lo >= 0 && b.lo >= 0 {
			// mask that keeps all bits of a
			m := mask(bits.Len64(uint64(a.hi)))
			if b.val&m == m {
				return a
			}
		}
	case OBOr, OBXor:
		if zero {
			return a
		}
		if op == OBOr && a == b {
			return a
		}
	case OShl, OLShr, OAShr:
		if zero {
			return a
		}
		if a.IsConst() && a.val == 0 {
			return a
		}
		if op == OLShr && b.IsConst() && b.val < 64 {
			if b.val >= uint64(w) {
				return tt.Const(w, 0)
			}
			if a.lo >= 0 && a.hi>>b.val == 0 {
				return tt.Const(w, 0)
			}
		}
	case OUDiv, OSDiv:
		if b.IsConst() && b.val == 1 {
			return a
		}
		if op == OSDiv && a.lo >= 0 && b.lo > 0 {
			return tt.Bin(OUDiv, a, b)
		}
		if op == OUDiv && b.IsConst() && bits.OnesCount64(b.val) == 1 {
			return tt.Bin(OLShr, a, tt.Const(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OURem, OSRem:
		if op == OSRem && a.lo >= 0 && b.lo > 0 {
			return tt.Bin(OURem, a, b)
		}
		if op == OURem && b.IsConst() && bits.OnesCount64(b.val) == 1 {
			return tt.Bin(OBAnd, a, tt.Const(w, b.val-1))
		}
		if op == OURem && a.lo >= 0 && b.lo > 0 && a.hi < b.lo {
			return a
		}
	}
	t := tt.mk(op, a.sort, 0, "", a, b)
	switch op {
	case OAdd, OSub:
		return tt.linCanon(t, a, b)
	case OMul:
		if b.IsConst() {
			return tt.linCanon(t, a)
		}
	}
	return t
}

func (tt *TermTable) Neg(a *Term) *Term {
	if a.IsConst() {
		return tt.Const(int(a.sort.W), -a.val)
	}
	if a.op == ONeg {
		return a.args[0]
	}
	return tt.linCanon(tt.mk(ONeg, a.sort, 0, "", a), a)
}
func (tt *TermTable) BNot(a *Term) *Term {
	if a.IsConst() {
		return tt.Const(int(a.sort.W), ^a.val)
	}
	return tt.mk(OBNot, a.sort, 0, "", a)
}

func (tt *TermTable) Cmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("cmp sort mismatch")
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OULt:
			return tt.Bool(a.val < b.val)
		case OULe:
			return tt.Bool(a.val <= b.val)
		case OSLt:
			return tt.Bool(a.Signed() < b.Signed())
		case OSLe:
			return tt.Bool(a.Signed() <= b.Signed())
		}
	}
	if a == b {
		return tt.Bool(op == OULe || op == OSLe)
	}
	uns := op == OULt || op == OULe
	if !uns || (a.lo >= 0 && b.lo >= 0) {
		if op == OSLt || op == OULt {
			if a.hi < b.lo {
				return tt.tTrue
			}
			if a.lo >= b.hi {
				return tt.tFals
			}
		} else {
			if a.hi <= b.lo {
				return tt.tTrue
			}
			if a.lo > b.hi {
				return tt.tFals
			}
		}
	}
	if b.IsConst() && a.op == OIte && (a.args[1].IsConst() || a.args[2].IsConst()) {
		return tt.Ite(a.args[0], tt.Cmp(op, a.args[1], b), tt.Cmp(op, a.args[2], b))
	}
	if a.IsConst() && b.op == OIte && (b.args[1].IsConst() || b.args[2].IsConst()) {
		return tt.Ite(b.args[0], tt.Cmp(op, a, b.args[1]), tt.Cmp(op, a, b.args[2]))
	}
	if op == OSLt && (a.op == OIte) != (b.op == OIte) {
		if r := tt.minMaxCmpI(a, b); r != nil {
			return r
		}
	}
	if op == OSLe && (a.op == OIte) != (b.op == OIte) {
		if r := tt.minMaxCmpI(b, a); r != nil {
			return tt.Not(r)
		}
	}
	return tt.mk(op, SBool, 0, "", a, b)
}

// minMaxCmpI: a < b where one side is a minimum or maximum of integers
func (tt *TermTable) minMaxCmpI(a, b *Term) *Term {
	k := mmKey{OSLt, a, b}
	if r, ok := tt.mm[k]; ok {
		return r
	}
	which := func(t *Term) int {
		if t.op != OIte {
			return 0
		}
		c, x, y := t.args[0], t.args[1], t.args[2]
		if x.IsConst() || y.IsConst() {
			return 0
		}
		if c == tt.Cmp(OSLt, x, y) || c == tt.Cmp(OSLe, x, y) {
			return 1
		}
		if c == tt.Cmp(OSLt, y, x) || c == tt.Cmp(OSLe, y, x) {
			return 2
		}
		return 0
	}
	var r *Term
	if m := which(a); m != 0 {
		p, q := tt.Cmp(OSLt, a.args[1], b), tt.Cmp(OSLt, a.args[2], b)
		if m == 1 {
			r = tt.Or(p, q)
		} else {
			r = tt.And(p, q)
		}
	} else if m := which(b); m != 0 {
		p, q := tt.Cmp(OSLt, a, b.args[1]), tt.Cmp(OSLt, a, b.args[2])
		if m == 1 {
			r = tt.And(p, q)
		} else {
			r = tt.Or(p, q)
		}
	}
	if tt.mm == nil {
		tt.mm = map[mmKey]*Term{}
	}
	tt.mm[k] = r
	return r
}

func (tt *TermTable) Extract(a *Term, lo, w int) *Term {
	if lo == 0 && w == int(a.sort.W) {
		return a
	}
	if a.IsConst() {
		return tt.Const(w, a.val>>uint(lo))
	}
	switch a.op {
	case OZExt, OSExt:
		in := a.args[0]
		iw := int(in.sort.W)
		if lo+w <= iw {
			return tt.Extract(in, lo, w)
		}
		if lo == 0 {
			if a.op == OZExt {
				return tt.ZExt(in, w)
			}
			return tt.SExt(in, w)
		}
		if lo >= iw && a.op == OZExt {
			return tt.Const(w, 0)
		}
	case OExtract:
		return tt.Extract(a.args[0], int(a.val)+lo, w)
	case OLShr:
		if a.args[1].IsConst() {
			s := int(a.args[1].val)
			if s+lo+w <= int(a.sort.W) {
				return tt.Extract(a.args[0], lo+s, w)
			}
		}
	case OShl:
		if a.args[1].IsConst() {
			s := int(a.args[1].val)
			if lo >= s {
				return tt.Extract(a.args[0], lo-s, w)
			}
			if lo+w <= s {
				return tt.Const(w, 0)
			}
		}
	case OBOr, OBAnd, OBXor:
		x := tt.Extract(a.args[0], lo, w)
		y := tt.Extract(a.args[1], lo, w)
		if x.op != OExtract || y.op != OExtract {
			return tt.Bin(a.op, x, y)
		}
	case OIte:
		k := exKey{a, lo, w}
		if r, ok := tt.exm[k]; ok {
			return r
		}
		x, y := tt.Extract(a.args[1], lo, w), tt.Extract(a.args[2], lo, w)
		var r *Term
		if x.op != OExtract || y.op != OExtract {
			r = tt.Ite(a.args[0], x, y)
		} else {
			r = tt.mk(OExtract, BV(w), uint64(lo), "", a)
		}
		tt.exm[k] = r
		return r
	case OAdd, OSub, OMul:
		if lo == 0 {
			return tt.Bin(a.op, tt.Extract(a.args[0], 0, w), tt.Extract(a.args[1], 0, w))
		}
	}
	return tt.mk(OExtract, BV(w), uint64(lo), "", a)
}
func (tt *TermTable) ZExt(a *Term, w int) *Term {
	if w == int(a.sort.W) {
		return a
	}
	if w < int(a.sort.W) {
		return tt.Extract(a, 0, w)
	}
	if a.IsConst() {
		return tt.Const(w, a.val)
	}
	if a.op == OZExt {
		return tt.ZExt(a.args[0], w)
	}
	return tt.mk(OZExt, BV(w), 0, "", a)
}
func (tt *TermTable) SExt(a *Term, w int) *Term {
	if w == int(a.sort.W) {
		return a
	}
	if w < int(a.sort.W) {
		return tt.Extract(a, 0, w)
	}
	if a.IsConst() {
		return tt.Const(w, uint64(a.Signed()))
	}
	if a.op == OSExt {
		return tt.SExt(a.args[0], w)
	}
	if a.op == OZExt {
		return tt.ZExt(a.args[0], w)
	}
	if a.lo >= 0 && a.op != OVar {
		return tt.ZExt(a, w)
	}
	return tt.mk(OSExt, BV(w), 0, "", a)
}

// ---- floats ----

func mantBits(s Sort) int {
	if s.K == KF32 {
		return 24
	}
	return 53
}

// asDy views t as n*2^-k exactly, when possible
func (tt *TermTable) asDy(t *Term) (*Term, int, bool) {
	switch t.op {
	case ODy:
		return t.args[0], int(int64(t.val)), true
	case OConst:
		f := t.Float()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return nil, 0, false
		}
		if f == 0 {
			if math.Signbit(f) && !tt.NoZeroSign {
				return nil, 0, false
			}
			return tt.Int(0), 0, true
		}
		fr, e := math.Frexp(f)
		m := int64(fr * (1 << 53))
		k := 53 - e
		tz := bits.TrailingZeros64(uint64(m))
		m >>= uint(tz)
		k -= tz
		if k < 0 && k > -30 {
			v, ok := mulOv(m, 1<<uint(-k))
			if ok && v < 1<<53 && v > -(1<<53) {
				m, k = v, 0
			}
		}
		if k > 200 || k < -200 {
			return nil, 0, false
		}
		return tt.Int(m), k, true
	}
	return nil, 0, false
}

func (tt *TermTable) dyAlign(a *Term, ka int, b *Term, kb int) (*Term, *Term, int, bool) {
	if ka == kb && a.sort == b.sort {
		return a, b, ka, true
	}
	a, b = tt.SExt(a, 64), tt.SExt(b, 64)
	sh := func(t *Term, s int) (*Term, bool) {
		if s == 0 {
			return t, true
		}
		if t.IsConst() && t.val == 0 {
			return t, true
		}
		if s > 52 {
			return nil, false
		}
		l, o1 := mulOv(t.lo, 1<<uint(s))
		h, o2 := mulOv(t.hi, 1<<uint(s))
		if !o1 || !o2 || l < -(1<<53) || h > 1<<53 {
			return nil, false
		}
		return tt.Bin(OMul, t, tt.Int(1<<uint(s))), true
	}
	var ok bool
	if ka < kb {
		a, ok = sh(a, kb-ka)
		return a, b, kb, ok
	}
	b, ok = sh(b, ka-kb)
	return a, b, ka, ok
}

// dy builds the float n*2^-k if exact for sort s, else nil
func (tt *TermTable) dy(s Sort, n *Term, k int) *Term {
	lim := int64(1) << uint(mantBits(s))
	if n.lo < -lim || n.hi > lim {
		return nil
	}
	if k > 120 || k < -90 {
		return nil
	}
	if n.IsConst() {
		return tt.FConst(s, math.Ldexp(float64(n.Signed()), -k))
	}
	if k > 0 {
		if l := tt.linOf(n); len(l.at) > 0 && l.twos() > 0 {
			sh := min(l.twos(), k)
			n = tt.linTerm(l.divExact(1<<uint(sh)), 64)
			k -= sh
		}
	}
	w := 64
	if n.lo > -(1<<30) && n.hi < 1<<30 {
		w = 32
	}
	n = tt.SExt(n, w)
	return tt.mk(ODy, s, uint64(int64(k)), "", n)
}

func isDy(t *Term) bool { return t.op == ODy }

func (tt *TermTable) FBin(op Op, a, b *Term) *Term {
	s := a.sort
	if s != b.sort {
		panic("fbin sorts")
	}
	if a.IsConst() && b.IsConst() {
		return tt.FBits(s, evalFBin(op, s, a.val, b.val))
	}
	if op == OFAdd || op == OFMul {
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	if isDy(a) || isDy(b) {
		if na, ka, ok := tt.asDy(a); ok {
			if nb, kb, ok := tt.asDy(b); ok {
				if t := tt.dyBin(op, s, na, ka, nb, kb, a, b); t != nil {
					return t
				}
			}
		}
	}
	if t := tt.tabulate(a, b, func(x, y *Term) *Term { return tt.FBin(op, x, y) }); t != nil {
		return t
	}
	if b.IsConst() {
		f := b.Float()
		switch op {
		case OFMul, OFDiv:
			if f == 1 {
				return a
			}
		case OFAdd:
			if f == 0 && math.Signbit(f) {
				return a
			}
		case OFSub:
			if f == 0 && !math.Signbit(f) {
				return a
			}
		}
		if f != f {
			return tt.FConst(s, math.NaN())
		}
	}
	if a.IsConst() && a.Float() != a.Float() {
		return tt.FConst(s, math.NaN())
	}
	// distribute over ite with constant branches (keeps exact arithmetic exact)
	if a.op == OIte && (isLeafF(a.args[1]) || isLeafF(a.args[2])) && (b.IsConst() || isDy(b)) {
		return tt.Ite(a.args[0], tt.FBin(op, a.args[1], b), tt.FBin(op, a.args[2], b))
	}
	if b.op == OIte && (isLeafF(b.args[1]) || isLeafF(b.args[2])) && (a.IsConst() || isDy(a)) {
		return tt.Ite(b.args[0], tt.FBin(op, a, b.args[1]), tt.FBin(op, a, b.args[2]))
	}
	if tt.UFMode {
		if tt.AC && op == OFAdd && (isUFAdd(a) || isUFAdd(b)) {
			return tt.acSum(s, a, b)
		}
		if (op == OFAdd || op == OFMul) && a.id > b.id {
			a, b = b, a
		}
		nm := map[Op]string{OFAdd: "uf_fadd", OFSub: "uf_fsub", OFMul: "uf_fmul", OFDiv: "uf_fdiv"}[op] + strconv.Itoa(int(s.W))
		t := tt.mkUFF(nm, s, a, b)
		if x, ok := tt.iv(a); ok {
			if y, ok := tt.iv(b); ok {
				if v, ok := ivBin(op, s, x, y); ok {
					if op == OFMul && a == b {
						v.lo = math.Max(v.lo, 0)
					}
					tt.setIv(t, v)
				}
			}
		}
		return t
	}
	return tt.mk(op, s, 0, "", a, b)
}

func isUFAdd(t *Term) bool {
	return t.op == OFromBit && t.args[0].op == OUF && strings.HasPrefix(t.args[0].name, "uf_fadd")
}

// acSum adds in a canonical order: rounding differences due to the order of additions are ignored
func (tt *TermTable) acSum(s Sort, a, b *Term) *Term {
	var leaves []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if isUFAdd(t) {
			walk(t.args[0].args[0])
			walk(t.args[0].args[1])
			return
		}
		leaves = append(leaves, t)
	}
	walk(a)
	walk(b)
	sort.SliceStable(leaves, func(i, j int) bool { return leaves[i].id < leaves[j].id })
	var exact *Term
	var rest []*Term
	for _, l := range leaves {
		if isDy(l) || l.IsConst() {
			if exact == nil {
				exact = l
			} else {
				exact = tt.FBin(OFAdd, exact, l)
			}
		} else {
			rest = append(rest, l)
		}
	}
	if exact != nil && isUFAdd(exact) { // not exact after all
		exact = nil
		rest = leaves
	}
	if exact != nil {
		rest = append(rest, exact)
	}
	was := tt.AC
	tt.AC = false
	defer func() { tt.AC = was }()
	r := rest[0]
	for _, l := range rest[1:] {
		r = tt.FBin(OFAdd, r, l)
	}
	return r
}

func (tt *TermTable) mkUFF(nm string, s Sort, args ...*Term) *Term {
	return tt.FromBits(s, tt.UF(nm, BV(int(s.W)), args...))
}

func isLeafF(t *Term) bool { return t.IsConst() || t.op == ODy }

func (tt *TermTable) dyBin(op Op, s Sort, na *Term, ka int, nb *Term, kb int, a, b *Term) *Term {
	switch op {
	case OFAdd, OFSub:
		x, y, k, ok := tt.dyAlign(na, ka, nb, kb)
		if !ok {
			return nil
		}
		o := OAdd
		if op == OFSub {
			o = OSub
		}
		return tt.dy(s, tt.Bin(o, x, y), k)
	case OFMul:
		x, y := tt.SExt(na, 64), tt.SExt(nb, 64)
		// sign of zero: x*y with a zero factor and a negative other factor gives -0
		if !(x.lo > 0 || y.lo > 0 || (x.lo >= 0 && y.lo >= 0)) {
			tt.OverNeg = true
		}
		m := tt.Bin(OMul, x, y)
		if m.lo <= -(1<<60) || m.hi >= 1<<60 {
			return nil
		}
		r := tt.dy(s, m, ka+kb)
		if r != nil && !x.IsConst() && !y.IsConst() {
			// narrow multiplication width
			if m.lo > -(1<<30) && m.hi < 1<<30 {
				m2 := tt.Bin(OMul, tt.Extract(x, 0, 32), tt.Extract(y, 0, 32))
				m2.lo, m2.hi = m.lo, m.hi
				return tt.dy(s, m2, ka+kb)
			}
		}
		return r
	case OFDiv:
		if nb.IsConst() {
			v := nb.Signed()
			if v != 0 && v&(-v) == v { // positive power of two
				sh := bits.TrailingZeros64(uint64(v))
				return tt.dy(s, na, ka+sh-kb)
			}
			if v > 0 {
				sh := bits.TrailingZeros64(uint64(v))
				if q := tt.linOf(na).divExact(v >> uint(sh)); q != nil {
					return tt.dy(s, tt.linTerm(q, 64), ka+sh-kb)
				}
			}
		}
	}
	return nil
}

// tabulate gives f over the finitely many values of a dyadic as a chain of constants
func (tt *TermTable) tabulate(a, b *Term, f func(x, y *Term) *Term) *Term {
	d, swap := a, false
	if b != nil {
		if a.IsConst() {
			d, swap = b, true
		} else if !b.IsConst() {
			return nil
		}
	}
	if tt.Tab == 0 || d.op != ODy {
		return nil
	}
	n := d.args[0]
	if n.hi-n.lo >= int64(tt.Tab) {
		return nil
	}
	var r *Term
	for v := n.hi; v >= n.lo; v-- {
		c := tt.FConst(d.sort, math.Ldexp(float64(v), -int(int64(d.val))))
		var y *Term
		if swap {
			y = f(a, c)
		} else {
			y = f(c, b)
		}
		if r == nil {
			r = y
		} else {
			r = tt.Ite(tt.Eq(n, tt.Const(int(n.sort.W), uint64(v))), y, r)
		}
	}
	return r
}

func (tt *TermTable) FNeg(a *Term) *Term {
	if a.IsConst() {
		return tt.FBits(a.sort, a.val^(1<<(a.sort.W-1)))
	}
	if a.op == ODy {
		tt.OverNeg = true
		if t := tt.dy(a.sort, tt.Neg(a.args[0]), int(int64(a.val))); t != nil {
			return t
		}
	}
	if a.op == OFNeg {
		return a.args[0]
	}
	return tt.mk(OFNeg, a.sort, 0, "", a)
}
func (tt *TermTable) FAbs(a *Term) *Term {
	if a.IsConst() {
		return tt.FBits(a.sort, a.val&^(1<<(a.sort.W-1)))
	}
	if a.op == ODy {
		n := a.args[0]
		if n.lo >= 0 {
			return a
		}
		m := tt.Ite(tt.Cmp(OSLt, n, tt.Const(int(n.sort.W), 0)), tt.Neg(n), n)
		if m.op == OIte {
			m.lo, m.hi = 0, max(-n.lo, n.hi)
		}
		if t := tt.dy(a.sort, m, int(int64(a.val))); t != nil {
			return t
		}
	}
	return tt.mk(OFAbs, a.sort, 0, "", a)
}
func (tt *TermTable) FSqrt(a *Term) *Term {
	if a.IsConst() {
		if a.sort.K == KF32 {
			return tt.F32(float32(math.Sqrt(a.Float())))
		}
		return tt.F64(math.Sqrt(a.Float()))
	}
	if t := tt.tabulate(a, nil, func(x, y *Term) *Term { return tt.FSqrt(x) }); t != nil {
		return t
	}
	if a.op == OIte && (isLeafF(a.args[1]) || isLeafF(a.args[2])) {
		return tt.Ite(a.args[0], tt.FSqrt(a.args[1]), tt.FSqrt(a.args[2]))
	}
	if tt.UFMode {
		t := tt.mkUFF("uf_fsqrt"+strconv.Itoa(int(a.sort.W)), a.sort, a)
		if x, ok := tt.iv(a); ok && x.lo >= 0 {
			if v, ok := outward(a.sort, math.Sqrt(x.lo), math.Sqrt(x.hi), false); ok {
				tt.setIv(t, v)
			}
		}
		return t
	}
	return tt.mk(OFSqrt, a.sort, 0, "", a)
}
func evalRound(mode uint64, f float64) float64 {
	switch mode {
	case 0:
		return math.Floor(f)
	case 1:
		return math.Ceil(f)
	case 2:
		return math.Trunc(f)
	case 3:
		return math.Round(f)
	}
	return math.RoundToEven(f)
}
func (tt *TermTable) FRound(mode int, a *Term) *Term {
	if a.IsConst() {
		return tt.FConst(a.sort, evalRound(uint64(mode), a.Float()))
	}
	if a.op == ODy {
		k := int(int64(a.val))
		if k <= 0 {
			return a
		}
		if k < 60 && mode <= 2 {
			n := tt.SExt(a.args[0], 64)
			fl := tt.Bin(OAShr, n, tt.Int(int64(k)))
			var r *Term
			exact := tt.Eq(tt.Bin(OBAnd, n, tt.Int(int64(mask(k)))), tt.Int(0))
			switch mode {
			case 0:
				r = fl
			case 1:
				r = tt.Ite(exact, fl, tt.Bin(OAdd, fl, tt.Int(1)))
			case 2:
				r = tt.Ite(tt.Or(exact, tt.Cmp(OSLe, tt.Int(0), n)), fl, tt.Bin(OAdd, fl, tt.Int(1)))
			}
			if t := tt.dy(a.sort, r, 0); t != nil {
				return t
			}
		}
	}
	if a.op == OIte && (isLeafF(a.args[1]) || isLeafF(a.args[2])) {
		return tt.Ite(a.args[0], tt.FRound(mode, a.args[1]), tt.FRound(mode, a.args[2]))
	}
	return tt.mk(OFRound, a.sort, uint64(mode), "", a)
}

func (tt *TermTable) FIsNaN(a *Term) *Term {
	if a.IsConst() {
		return tt.Bool(a.Float() != a.Float())
	}
	if a.op == ODy || tt.num[a] {
		return tt.tFals
	}
	if _, ok := tt.iv(a); ok {
		return tt.tFals
	}
	switch a.op {
	case OFNeg, OFAbs:
		return tt.FIsNaN(a.args[0])
	case OFConv:
		return tt.FIsNaN(a.args[0])
	case OSToF, OUToF:
		return tt.tFals
	case OIte:
		return tt.Ite(a.args[0], tt.FIsNaN(a.args[1]), tt.FIsNaN(a.args[2]))
	}
	return tt.mk(OFIsNaN, SBool, 0, "", a)
}
func (tt *TermTable) FIsInf(a *Term) *Term {
	if _, ok := tt.iv(a); ok {
		return tt.tFals
	}
	if tt.inff[a] {
		return tt.tFals
	}
	if a.IsConst() {
		return tt.Bool(math.IsInf(a.Float(), 0))
	}
	switch a.op {
	case ODy, OSToF, OUToF:
		return tt.tFals
	case OIte:
		return tt.Ite(a.args[0], tt.FIsInf(a.args[1]), tt.FIsInf(a.args[2]))
	}
	return tt.mk(OFIsInf, SBool, 0, "", a)
}

func (tt *TermTable) fcmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("fcmp sorts")
	}
	if a.IsConst() && b.IsConst() {
		return tt.Bool(evalFCmp(op, a.Float(), b.Float()))
	}
	if a.IsConst() && a.Float() != a.Float() || b.IsConst() && b.Float() != b.Float() {
		return tt.tFals
	}
	if a == b {
		if op == OFLt {
			return tt.tFals
		}
		return tt.Not(tt.FIsNaN(a))
	}
	if a.op == ODy && b.op == ODy {
		x, y, _, ok := tt.dyAlign(a.args[0], int(int64(a.val)), b.args[0], int(int64(b.val)))
		if ok {
			return tt.icmp(op, x, y)
		}
	}
	if a.op == ODy && b.IsConst() {
		return tt.dyCmpConst(op, a, b.Float(), false)
	}
	if b.op == ODy && a.IsConst() {
		return tt.dyCmpConst(op, b, a.Float(), true)
	}
	switch tt.ivCmp(op, a, b) {
	case 1:
		return tt.tTrue
	case -1:
		return tt.tFals
	}
	// same widening conversion on both sides
	if a.op == OFConv && a.sort.K == KF64 {
		if b.op == OFConv {
			return tt.fcmp(op, a.args[0], b.args[0])
		}
		if b.IsConst() {
			f := b.Float()
			if float64(float32(f)) == f {
				return tt.fcmp(op, a.args[0], tt.F32(float32(f)))
			}
		}
	}
	if b.op == OFConv && b.sort.K == KF64 && a.IsConst() {
		f := a.Float()
		if float64(float32(f)) == f {
			return tt.fcmp(op, tt.F32(float32(f)), b.args[0])
		}
	}
	if a.op == OIte && (isLeafF(a.args[1]) || isLeafF(a.args[2])) && (isLeafF(b)) {
		return tt.Ite(a.args[0], tt.fcmp(op, a.args[1], b), tt.fcmp(op, a.args[2], b))
	}
	if b.op == OIte && (isLeafF(b.args[1]) || isLeafF(b.args[2])) && (isLeafF(a)) {
		return tt.Ite(b.args[0], tt.fcmp(op, a, b.args[1]), tt.fcmp(op, a, b.args[2]))
	}
	if tt.notNaN(a) && tt.notNaN(b) {
		if op == OFLe {
			return tt.Not(tt.fcmp(OFLt, b, a))
		}
		// comparing a minimum or maximum with a plain value
		if r := tt.minMaxCmp(op, a, b); r != nil {
			return r
		}
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(op, SBool, 0, "", a, b)
}

// minMaxOf recognises ite(x<y, x, y) and its variants: 1 minimum, 2 maximum
func (tt *TermTable) minMaxOf(t *Term) int {
	if t.op != OIte {
		return 0
	}
	if r, ok := tt.mmo[t]; ok {
		return r
	}
	if tt.mmo == nil {
		tt.mmo = map[*Term]int{}
	}
	tt.mmo[t] = 0 // while it is being determined
	r := tt.minMaxOf1(t)
	tt.mmo[t] = r
	return r
}

func (tt *TermTable) minMaxOf1(t *Term) int {
	c, x, y := t.args[0], t.args[1], t.args[2]
	if c == tt.fcmp(OFLt, x, y) || c == tt.fcmp(OFLe, x, y) {
		return 1
	}
	if c == tt.fcmp(OFLt, y, x) || c == tt.fcmp(OFLe, y, x) {
		return 2
	}
	return 0
}

type mmKey struct {
	op   Op
	a, b *Term
}

// all operands are known not to be NaN
func (tt *TermTable) minMaxCmp(op Op, a, b *Term) *Term {
	k := mmKey{op, a, b}
	if r, ok := tt.mm[k]; ok {
		return r
	}
	ma, mb := 0, 0
	if b.op != OIte {
		ma = tt.minMaxOf(a)
	}
	if a.op != OIte {
		mb = tt.minMaxOf(b)
	}
	if ma == 0 && mb == 0 {
		return nil
	}
	var r *Term
	switch {
	case op == OFEq:
		r = tt.And(tt.Not(tt.fcmp(OFLt, a, b)), tt.Not(tt.fcmp(OFLt, b, a)))
	case ma != 0:
		p, q := tt.fcmp(op, a.args[1], b), tt.fcmp(op, a.args[2], b)
		if ma == 1 {
			r = tt.Or(p, q)
		} else {
			r = tt.And(p, q)
		}
	default:
		p, q := tt.fcmp(op, a, b.args[1]), tt.fcmp(op, a, b.args[2])
		if mb == 1 {
			r = tt.And(p, q)
		} else {
			r = tt.Or(p, q)
		}
	}
	if tt.mm == nil {
		tt.mm = map[mmKey]*Term{}
	}
	tt.mm[k] = r
	return r
}

func (tt *TermTable) setNum(t *Term) {
	if tt.num == nil {
		tt.num, tt.inff = map[*Term]bool{}, map[*Term]bool{}
	}
	tt.num[t] = true
}

// notNaN: a float which is no NaN by construction
func (tt *TermTable) notNaN(t *Term) bool {
	switch t.op {
	case OConst:
		return t.Float() == t.Float()
	case ODy, OSToF, OUToF:
		return true
	case OFNeg, OFAbs, OFConv:
		return tt.notNaN(t.args[0])
	case OIte:
		if r, ok := tt.nn[t]; ok {
			return r
		}
		r := tt.notNaN(t.args[1]) && tt.notNaN(t.args[2])
		if tt.nn == nil {
			tt.nn = map[*Term]bool{}
		}
		tt.nn[t] = r
		return r
	}
	if _, ok := tt.iv(t); ok {
		return true
	}
	return tt.num[t]
}
func (tt *TermTable) icmp(op Op, x, y *Term) *Term {
	switch op {
	case OFLt:
		return tt.Cmp(OSLt, x, y)
	case OFLe:
		return tt.Cmp(OSLe, x, y)
	}
	return tt.Eq(x, y)
}

// dyCmpConst compares n*2^-k with finite or infinite constant c; swapped: c op dy
func (tt *TermTable) dyCmpConst(op Op, d *Term, c float64, swapped bool) *Term {
	n := d.args[0]
	k := int(int64(d.val))
	if math.IsInf(c, 1) {
		return tt.Bool(!swapped && op != OFEq)
	}
	if math.IsInf(c, -1) {
		return tt.Bool(swapped && op != OFEq)
	}
	r := new(big.Rat).SetFloat64(c)
	sc := new(big.Int).Lsh(big.NewInt(1), uint(abs(k)))
	if k >= 0 {
		r.Mul(r, new(big.Rat).SetInt(sc))
	} else {
		r.Quo(r, new(big.Rat).SetInt(sc))
	}
	fl := new(big.Int).Div(r.Num(), r.Denom()) // floor (denominator > 0, Euclidean)
	isInt := r.IsInt()
	w := int(n.sort.W)
	// clamp the bound to a value comparable within the bv width
	lim := new(big.Int).Lsh(big.NewInt(1), uint(w-2))
	if fl.CmpAbs(lim) >= 0 {
		if op == OFEq {
			return tt.tFals
		}
		pos := fl.Sign() > 0
		return tt.Bool(pos != swapped)
	}
	f := tt.Const(w, uint64(fl.Int64()))
	if op == OFEq {
		if !isInt {
			return tt.tFals
		}
		return tt.Eq(n, f)
	}
	if !swapped {
		// n op r
		if isInt && op == OFLt {
			return tt.Cmp(OSLt, n, f)
		}
		return tt.Cmp(OSLe, n, f) // n<=r or n<r nonint: n<=floor
	}
	// r op n
	if isInt && op == OFLe {
		return tt.Cmp(OSLe, f, n)
	}
	return tt.Cmp(OSLt, f, n)
}
func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func (tt *TermTable) FLt(a, b *Term) *Term { return tt.fcmp(OFLt, a, b) }
func (tt *TermTable) FLe(a, b *Term) *Term { return tt.fcmp(OFLe, a, b) }
func (tt *TermTable) FEq(a, b *Term) *Term { return tt.fcmp(OFEq, a, b) }

func (tt *TermTable) FConv(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.IsConst() {
		return tt.FBits(s, convBits(a.sort, s, a.val))
	}
	if a.op == ODy {
		if t := tt.dy(s, a.args[0], int(int64(a.val))); t != nil {
			return t
		}
	}
	if t := tt.tabulate(a, nil, func(x, y *Term) *Term { return tt.FConv(x, s) }); t != nil {
		return t
	}
	if a.op == OFConv && a.args[0].sort == s && s.K == KF32 {
		// f32->f64->f32 is identity (up to NaN payload)
		return a.args[0]
	}
	if a.op == OIte {
		if a.conv == nil {
			a.conv = tt.Ite(a.args[0], tt.FConv(a.args[1], s), tt.FConv(a.args[2], s))
		}
		return a.conv
	}
	if tt.UFMode && s.K == KF32 {
		t := tt.mkUFF("uf_f64to32", s, a)
		if x, ok := tt.iv(a); ok {
			if v, ok := outward(s, x.lo, x.hi, false); ok {
				tt.setIv(t, v)
			}
		}
		return t
	}
	return tt.mk(OFConv, s, 0, "", a)
}
func convBits(from, to Sort, v uint64) uint64 {
	if from.K == KF32 {
		return math.Float64bits(float64(math.Float32frombits(uint32(v))))
	}
	return uint64(math.Float32bits(float32(math.Float64frombits(v))))
}

func (tt *TermTable) FromBits(s Sort, b *Term) *Term {
	if b.IsConst() {
		return tt.FBits(s, b.val)
	}
	if b.op == OToBit {
		return b.args[0]
	}
	if b.op == OIte {
		if b.fbits == nil {
			b.fbits = tt.Ite(b.args[0], tt.FromBits(s, b.args[1]), tt.FromBits(s, b.args[2]))
		}
		return b.fbits
	}
	return tt.mk(OFromBit, s, 0, "", b)
}
func (tt *TermTable) ToBits(a *Term) *Term {
	if a.IsConst() {
		return tt.Const(int(a.sort.W), a.val)
	}
	switch a.op {
	case OFromBit:
		return a.args[0]
	case OIte:
		if a.bits == nil {
			a.bits = tt.Ite(a.args[0], tt.ToBits(a.args[1]), tt.ToBits(a.args[2]))
		}
		return a.bits
	case OFNeg:
		return tt.Bin(OBXor, tt.ToBits(a.args[0]), tt.Const(int(a.sort.W), 1<<(a.sort.W-1)))
	case OFAbs:
		return tt.Bin(OBAnd, tt.ToBits(a.args[0]), tt.Const(int(a.sort.W), mask(int(a.sort.W)-1)))
	}
	return tt.mk(OToBit, BV(int(a.sort.W)), 0, "", a)
}

func (tt *TermTable) IntToF(a *Term, signed bool, s Sort) *Term {
	if a.IsConst() {
		if signed {
			if s.K == KF32 {
				return tt.F32(float32(a.Signed()))
			}
			return tt.F64(float64(a.Signed()))
		}
		if s.K == KF32 {
			return tt.F32(float32(a.val))
		}
		return tt.F64(float64(a.val))
	}
	n := a
	ok := true
	if signed {
		n = tt.SExt(a, 64)
	} else {
		if a.sort.W < 64 {
			n = tt.ZExt(a, 64)
		} else if a.lo < 0 {
			ok = false
		}
	}
	if ok {
		if t := tt.dy(s, n, 0); t != nil {
			return t
		}
	}
	op := OSToF
	if !signed {
		op = OUToF
	}
	return tt.mk(op, s, 0, "", a)
}

// FToI: Go conversion float -> integer of width w. Out of range follows amd64.
func (tt *TermTable) FToI(a *Term, w int, signed bool) *Term {
	if a.IsConst() {
		return tt.Const(w, fToIConst(a.Float(), w, signed))
	}
	if a.op == ODy {
		t := tt.FRound(2, a)
		if n, k, ok := tt.asDy(t); ok && k <= 0 && k > -40 {
			n = tt.SExt(n, 64)
			if k < 0 {
				n = tt.Bin(OShl, n, tt.Int(int64(-k)))
			}
			return tt.Extract(n, 0, w)
		}
	}
	if a.op == OIte {
		return tt.Ite(a.args[0], tt.FToI(a.args[1], w, signed), tt.FToI(a.args[2], w, signed))
	}
	if a.op == OFRound && a.val == 2 {
		a = a.args[0]
	}
	lo, hi := -math.Ldexp(1, 63), math.Ldexp(1, 63)
	iw := 64
	if signed && w == 32 || w < 32 {
		iw = 32
		lo, hi = -math.Ldexp(1, 31), math.Ldexp(1, 31)
	}
	s := a.sort
	var inr *Term
	lc := tt.FConst(s, lo-1)
	if lc.Float() == lo {
		inr = tt.And(tt.FLe(lc, a), tt.FLt(a, tt.FConst(s, hi)))
	} else {
		inr = tt.And(tt.FLt(lc, a), tt.FLt(a, tt.FConst(s, hi)))
	}
	conv := tt.mk(OFToS, BV(iw), 0, "", a)
	r := tt.Ite(inr, conv, tt.Const(iw, 1<<uint(iw-1)))
	if !signed && w == 64 {
		big := tt.FLe(tt.FConst(s, hi), a)
		r2 := tt.mk(OFToU, BV(64), 0, "", a)
		r = tt.Ite(tt.And(big, tt.FLt(a, tt.FConst(s, math.Ldexp(1, 64)))), r2, r)
	}
	return tt.Extract(r, 0, w)
}

func fToIConst(f float64, w int, signed bool) uint64 {
	iw := 64
	if signed && w == 32 || w < 32 {
		iw = 32
	}
	if !signed && w == 64 && f >= math.Ldexp(1, 63) && f < math.Ldexp(1, 64) {
		return uint64(f)
	}
	lim := math.Ldexp(1, iw-1)
	tr := math.Trunc(f)
	if !(tr >= -lim && tr < lim) {
		return (1 << uint(iw-1)) & mask(w)
	}
	return uint64(int64(tr)) & mask(w)
}

func evalFBin(op Op, s Sort, x, y uint64) uint64 {
	if s.K == KF32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	case OFDiv:
		r = a / b
	}
	return math.Float64bits(r)
}
func evalFCmp(op Op, a, b float64) bool {
	switch op {
	case OFLt:
		return a < b
	case OFLe:
		return a <= b
	}
	return a == b
}
