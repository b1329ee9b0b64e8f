package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Grid encoding, used with uninterpreted float arithmetic: as uninterpreted results only ever get
// compared, a float is encoded by its position relative to the dyadic numbers in the query, as a
// fixed point number. Dyadic numbers (up to 8 binary digits after the point) are exact, other
// results may lie anywhere, and there is room for 255 of them between neighbouring dyadics.
// IEEE monotonicity facts about the uninterpreted operations are asserted as axioms.
const (
	gridW    = 48
	gridF    = 16
	gridDy   = 8
	gridInf  = int64(1)<<(gridW-1) - 1
	gridNaN  = -int64(1) << (gridW - 1)
	gridMaxV = float64(1 << 29)
)

func gridLit(v int64) string { return bvLit(gridW, uint64(v)&mask(gridW)) }

func isFloatUF(t *Term) bool {
	return t.op == OUF && (strings.HasPrefix(t.name, "uf_f") || strings.HasPrefix(t.name, "uf_math_"))
}

// gridConst maps a constant to its grid position
func (tt *TermTable) gridConst(t *Term) (int64, bool) {
	f := t.Float()
	switch {
	case f != f:
		return gridNaN, true
	case f > gridMaxV || f < -gridMaxV:
		if math.IsInf(f, 1) {
			return gridInf, true
		}
		if math.IsInf(f, -1) {
			return -gridInf, true
		}
		return 0, false
	}
	x := math.Ldexp(f, gridDy)
	if x == math.Floor(x) {
		return int64(x) << (gridF - gridDy), true
	}
	g := int64(math.Floor(math.Ldexp(f, gridF)))
	if g&(1<<(gridF-gridDy)-1) == 0 {
		g++
	}
	if tt.gridUsed == nil {
		tt.gridUsed = map[int64]float64{}
	}
	if o, ok := tt.gridUsed[g]; ok && o != f {
		return 0, false
	}
	tt.gridUsed[g] = f
	return g, true
}

// gridable: the term can be expressed in the grid encoding
func (tt *TermTable) gridable(t *Term) bool {
	if t.op == OConst {
		if t.sort.IsFloat() {
			_, ok := tt.gridConst(t)
			return ok
		}
		return true
	}
	if t.grid != 0 {
		return t.grid > 0
	}
	t.grid = -1
	ok := func() bool {
		if t.sort.IsFloat() {
			switch t.op {
			case ODy:
				v, ok := tt.iv(t)
				if !ok || v.lo < -gridMaxV || v.hi > gridMaxV || int64(t.val) > gridDy || int64(t.val) < 0 {
					return false
				}
				return tt.gridable(t.args[0])
			case OFromBit:
				return isFloatUF(t.args[0]) && tt.gridable(t.args[0])
			case OFConv:
				return t.sort.K == KF64 && tt.gridable(t.args[0])
			case OFNeg, OFAbs, OIte:
			case OFRound:
				if _, ok := tt.iv(t.args[0]); !ok || t.val > 1 {
					return false
				}
			default:
				return false
			}
		} else {
			switch t.op {
			case OVar, ONot, OAnd, OOr, OEq, OIte, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr,
				OULt, OULe, OSLt, OSLe, OBNot, ONeg, OExtract, OZExt, OSExt, OFLt, OFLe, OFEq, OFIsNaN, OFIsInf:
				for _, a := range t.args {
					if isFloatUF(a) { // bit pattern of a result
						return false
					}
				}
			case OUF:
			case OFToS:
				if v, ok := tt.iv(t.args[0]); !ok || v.lo < -gridMaxV || v.hi > gridMaxV {
					return false
				}
			default:
				return false
			}
		}
		for _, a := range t.args {
			if !tt.gridable(a) {
				return false
			}
		}
		return true
	}()
	if ok {
		t.grid = 1
	}
	return ok
}

func (s *Solver) gridQuery(pc []*Term, extra *Term) bool {
	for _, p := range pc {
		if !s.tt.gridable(p) {
			return false
		}
	}
	return extra == nil || s.tt.gridable(extra)
}

// gridExpr renders float operations; "" if the operation is rendered as usual
func (s *Solver) gridExpr(t *Term) string {
	r := func(i int) string { return s.ref(t.args[i]) }
	num := func(i int) bool {
		if t.args[i].op == OConst {
			return t.args[i].Float() == t.args[i].Float()
		}
		_, ok := s.tt.iv(t.args[i])
		return ok || s.tt.notNaN(t.args[i])
	}
	if t.sort.IsFloat() {
		switch t.op {
		case ODy:
			n := t.args[0]
			w := int(n.sort.W)
			x := r(0)
			if w < gridW {
				x = fmt.Sprintf("((_ sign_extend %d) %s)", gridW-w, x)
			} else if w > gridW {
				x = fmt.Sprintf("((_ extract %d 0) %s)", gridW-1, x)
			}
			return "(bvshl " + x + " " + gridLit(int64(gridF)-int64(t.val)) + ")"
		case OFromBit, OFConv:
			return r(0)
		case OFNeg:
			return "(bvneg " + r(0) + ")"
		case OFAbs:
			return "(ite (bvslt " + r(0) + " " + gridLit(0) + ") (bvneg " + r(0) + ") " + r(0) + ")"
		case OFRound:
			x := r(0)
			if t.val == 1 {
				x = "(bvadd " + x + " " + gridLit(1<<gridF-1) + ")"
			}
			return "(bvshl (bvashr " + x + " " + gridLit(gridF) + ") " + gridLit(gridF) + ")"
		}
		return ""
	}
	switch t.op {
	case OFLt, OFLe, OFEq:
		e := "(" + map[Op]string{OFLt: "bvslt", OFLe: "bvsle", OFEq: "="}[t.op] + " " + r(0) + " " + r(1) + ")"
		for i := 0; i < 2; i++ {
			if !num(i) {
				e = "(and " + e + " (not (= " + r(i) + " " + gridLit(gridNaN) + ")))"
			}
		}
		return e
	case OFIsNaN:
		if num(0) {
			return "false"
		}
		return "(= " + r(0) + " " + gridLit(gridNaN) + ")"
	case OFIsInf:
		if _, ok := s.tt.iv(t.args[0]); ok {
			return "false"
		}
		return "(or (= " + r(0) + " " + gridLit(gridInf) + ") (= " + r(0) + " " + gridLit(-gridInf) + "))"
	case OFToS:
		x := r(0)
		x = "(ite (bvslt " + x + " " + gridLit(0) + ") (bvadd " + x + " " + gridLit(1<<gridF-1) + ") " + x + ")"
		x = "(bvashr " + x + " " + gridLit(gridF) + ")"
		if w := int(t.sort.W); w > gridW {
			return fmt.Sprintf("((_ sign_extend %d) %s)", w-gridW, x)
		} else if w < gridW {
			return fmt.Sprintf("((_ extract %d 0) %s)", w-1, x)
		}
		return x
	}
	return ""
}

func gridBound(f float64, up bool) int64 {
	x := math.Ldexp(math.Max(-gridMaxV*2, math.Min(gridMaxV*2, f)), gridDy)
	if up {
		return int64(math.Ceil(x)) << (gridF - gridDy)
	}
	return int64(math.Floor(x)) << (gridF - gridDy)
}

// gridAxioms asserts what is known about an uninterpreted result
func (s *Solver) gridAxioms(t *Term) {
	tt := s.tt
	so := SF32
	if t.sort.W == 64 {
		so = SF64
	}
	f := tt.FromBits(so, t)
	v, ok := tt.iv(f)
	n := "t" + strconv.Itoa(t.id)
	ax := func(x string) { s.send("(assert " + x + ")\n") }
	le := func(a, b string) string { return "(bvsle " + a + " " + b + ")" }
	imp := func(a, b string) { ax("(=> " + a + " " + b + ")") }
	z, one := gridLit(0), gridLit(1<<gridF)
	if !ok {
		return
	}
	ax(le(gridLit(gridBound(v.lo, false)), n))
	ax(le(n, gridLit(gridBound(v.hi, true))))
	for _, a := range t.args {
		if !a.sort.IsFloat() {
			return
		}
		if _, ok := tt.iv(a); !ok {
			return
		}
	}
	a := s.ref(t.args[0])
	b := ""
	if len(t.args) > 1 {
		b = s.ref(t.args[1])
	}
	// prev calls fn for earlier results of the same operation
	prev := func(fn func(u *Term, un string)) {
		k := 0
		for i := len(s.gridApps[t.name]) - 1; i >= 0 && k < 10; i-- {
			u := s.gridApps[t.name][i]
			if !s.defined[u] || u == t {
				continue
			}
			if _, ok := tt.iv(tt.FromBits(so, u)); !ok {
				continue
			}
			k++
			fn(u, "t"+strconv.Itoa(u.id))
		}
	}
	unary := func() {
		prev(func(u *Term, un string) {
			x := s.ref(u.args[0])
			imp(le(x, a), le(un, n))
			imp(le(a, x), le(n, un))
		})
	}
	base := strings.TrimSuffix(strings.TrimSuffix(t.name, "32"), "64")
	switch base {
	case "uf_fadd":
		imp(le(z, b), le(a, n))
		imp(le(b, z), le(n, a))
		imp(le(z, a), le(b, n))
		imp(le(a, z), le(n, b))
		prev(func(u *Term, un string) {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if t.args[i] == u.args[j] {
						x, y := s.ref(t.args[1-i]), s.ref(u.args[1-j])
						imp(le(x, y), le(n, un))
						imp(le(y, x), le(un, n))
					}
				}
			}
		})
	case "uf_fsub":
		imp(le(z, b), le(n, a))
		imp(le(b, z), le(a, n))
		ax("(= " + le(a, b) + " " + le(n, z) + ")")
		ax("(= " + le(b, a) + " " + le(z, n) + ")")
		prev(func(u *Term, un string) {
			if t.args[0] == u.args[0] {
				y := s.ref(u.args[1])
				imp(le(b, y), le(un, n))
				imp(le(y, b), le(n, un))
			}
			if t.args[1] == u.args[1] {
				y := s.ref(u.args[0])
				imp(le(a, y), le(n, un))
				imp(le(y, a), le(un, n))
			}
		})
	case "uf_fmul":
		if t.args[0] == t.args[1] {
			ax(le(z, n))
			break
		}
		imp("(= "+le(z, a)+" "+le(z, b)+")", le(z, n))
		imp("(or (and "+le(z, a)+" "+le(b, z)+") (and "+le(a, z)+" "+le(z, b)+"))", le(n, z))
		for i := 0; i < 2; i++ {
			x, y := s.ref(t.args[i]), s.ref(t.args[1-i])
			if c := t.args[1-i]; !c.IsConst() {
				imp("(and "+le(z, x)+" "+le(one, y)+")", le(x, n))
				imp("(and "+le(z, x)+" "+le(y, one)+")", le(n, x))
			} else if c.Float() >= 1 {
				imp(le(z, x), le(x, n))
				imp(le(x, z), le(n, x))
			} else if c.Float() >= 0 {
				imp(le(z, x), le(n, x))
				imp(le(x, z), le(x, n))
			}
		}
		prev(func(u *Term, un string) {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if t.args[i] == u.args[j] {
						c, x, y := s.ref(t.args[i]), s.ref(t.args[1-i]), s.ref(u.args[1-j])
						imp("(and "+le(z, c)+" "+le(x, y)+")", le(n, un))
						imp("(and "+le(z, c)+" "+le(y, x)+")", le(un, n))
						imp("(and "+le(c, z)+" "+le(x, y)+")", le(un, n))
						imp("(and "+le(c, z)+" "+le(y, x)+")", le(n, un))
					}
				}
			}
		})
	case "uf_fdiv":
		imp("(and "+le(z, a)+" "+le(z, b)+")", le(z, n))
		imp("(and "+le(a, z)+" "+le(b, z)+")", le(z, n))
		imp("(and "+le(z, a)+" "+le(b, z)+")", le(n, z))
		imp("(and "+le(a, z)+" "+le(z, b)+")", le(n, z))
		imp("(and "+le(z, a)+" "+le(one, b)+")", le(n, a))
		imp("(and "+le(a, z)+" "+le(one, b)+")", le(a, n))
		imp("(and "+le(z, a)+" (bvslt "+z+" "+b+") "+le(b, one)+")", le(a, n))
		imp("(and "+le(z, a)+" "+le(a, b)+")", le(n, one))
		imp("(and (bvslt "+z+" "+b+") "+le(b, a)+")", le(one, n))
		prev(func(u *Term, un string) {
			if t.args[1] == u.args[1] {
				y := s.ref(u.args[0])
				imp("(and "+le(z, b)+" "+le(a, y)+")", le(n, un))
				imp("(and "+le(z, b)+" "+le(y, a)+")", le(un, n))
			}
		})
	case "uf_fsqrt":
		imp(le(one, a), "(and "+le(one, n)+" "+le(n, a)+")")
		imp(le(a, one), "(and "+le(a, n)+" "+le(n, one)+")")
		unary()
	case "uf_f64to":
		imp(le(z, a), le(z, n))
		imp(le(a, z), le(n, z))
		unary()
	}
	s.gridApps[t.name] = append(s.gridApps[t.name], t)
}

// gridValue converts a model value back
func gridValue(so Sort, v uint64) uint64 {
	x := signExt(v, gridW)
	s := SF32
	if so.W == 64 {
		s = SF64
	}
	switch {
	case x == gridNaN:
		return fenc(s, math.NaN())
	case x == gridInf:
		return fenc(s, math.Inf(1))
	case x == -gridInf:
		return fenc(s, math.Inf(-1))
	}
	return fenc(s, math.Ldexp(float64(x), -gridF))
}
