package main

import (
	"math"
	"strings"
)

// Model assigns raw bits to variables (and to uninterpreted applications)
type Model struct {
	vars map[*Term]uint64
	memo map[*Term]uint64
	real bool           // uninterpreted operations have their actual values
	bad  map[*Term]bool // values depending on applications that are not part of the model
}

// GetOK: the value, and whether it follows from the model
func (m *Model) GetOK(t *Term) (uint64, bool) {
	v := m.Get(t)
	return v, !m.bad[t]
}

// realUF evaluates an uninterpreted operation
func (m *Model) realUF(t *Term) (uint64, bool) {
	base := strings.TrimSuffix(strings.TrimSuffix(t.name, "32"), "64")
	s := SF32
	if t.sort.W == 64 {
		s = SF64
	}
	a := func(i int) uint64 { return m.Get(t.args[i]) }
	switch base {
	case "uf_fadd":
		return evalFBin(OFAdd, s, a(0), a(1)), true
	case "uf_fsub":
		return evalFBin(OFSub, s, a(0), a(1)), true
	case "uf_fmul":
		return evalFBin(OFMul, s, a(0), a(1)), true
	case "uf_fdiv":
		return evalFBin(OFDiv, s, a(0), a(1)), true
	case "uf_fsqrt":
		return fenc(s, math.Sqrt(fval(s, a(0)))), true
	case "uf_f64to":
		return convBits(SF64, SF32, a(0)), true
	case "uf_fma":
		x, y, z := fval(SF32, a(0)), fval(SF32, a(1)), fval(SF32, a(2))
		p := x * y // exact in double precision
		sum := p + z
		// round to odd, then to single precision
		if bb := sum - p; !math.IsInf(sum, 0) && sum == sum {
			e := (p - (sum - bb)) + (z - bb)
			if e != 0 && math.Float64bits(sum)&1 == 0 {
				if (e > 0) == (sum > 0) || sum == 0 {
					sum = math.Float64frombits(math.Float64bits(sum) + 1)
				} else {
					sum = math.Float64frombits(math.Float64bits(sum) - 1)
				}
			}
		}
		return uint64(math.Float32bits(float32(sum))), true
	}
	if n, ok := strings.CutPrefix(t.name, "uf_math_"); ok {
		x := make([]float64, len(t.args))
		for i := range x {
			if t.args[i].sort.K != KF64 {
				return 0, false
			}
			x[i] = fval(SF64, a(i))
		}
		two := map[string]func(float64, float64) float64{"Pow": math.Pow, "Hypot": math.Hypot, "Atan2": math.Atan2, "Mod": math.Mod}
		if f, ok := mathUnary[n]; ok && len(x) == 1 {
			return math.Float64bits(f(x[0])), true
		}
		if f, ok := two[n]; ok && len(x) == 2 {
			return math.Float64bits(f(x[0], x[1])), true
		}
	}
	return 0, false
}

func (m *Model) Get(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		v, ok := m.vars[t]
		if !ok {
			// unconstrained: choose a default within range
			if t.sort.K == KBV && (t.lo > 0 || t.hi < 0) {
				v = uint64(t.lo) & mask(int(t.sort.W))
			}
		}
		return v
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval(t)
	m.memo[t] = v
	if len(m.bad) > 0 {
		for _, a := range t.args {
			if m.bad[a] {
				m.bad[t] = true
			}
		}
	}
	return v
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func fval(s Sort, v uint64) float64 {
	if s.K == KF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fenc(s Sort, f float64) uint64 {
	if s.K == KF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (m *Model) eval(t *Term) uint64 {
	a := func(i int) uint64 { return m.Get(t.args[i]) }
	w := int(t.sort.W)
	switch t.op {
	case OUF:
		if v, ok := m.vars[t]; ok && !m.real {
			return v
		}
		v, ok := m.realUF(t)
		if !ok && m.real {
			v, ok = m.vars[t]
		}
		if !ok || !m.real {
			if m.bad == nil {
				m.bad = map[*Term]bool{}
			}
			m.bad[t] = true
		}
		return v
	case ONot:
		return 1 - a(0)
	case OAnd:
		if a(0) == 0 {
			return 0
		}
		return a(1)
	case OOr:
		if a(0) == 1 {
			return 1
		}
		return a(1)
	case OIte:
		if a(0) == 1 {
			return a(1)
		}
		return a(2)
	case OEq:
		return b2u(a(0) == a(1))
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		v, _ := foldBin(t.op, w, a(0), a(1))
		return v
	case OBNot:
		return ^a(0) & mask(w)
	case ONeg:
		return -a(0) & mask(w)
	case OULt:
		return b2u(a(0) < a(1))
	case OULe:
		return b2u(a(0) <= a(1))
	case OSLt, OSLe:
		iw := int(t.args[0].sort.W)
		x, y := signExt(a(0), iw), signExt(a(1), iw)
		if t.op == OSLt {
			return b2u(x < y)
		}
		return b2u(x <= y)
	case OExtract:
		return (a(0) >> t.val) & mask(w)
	case OZExt:
		return a(0)
	case OSExt:
		return uint64(signExt(a(0), int(t.args[0].sort.W))) & mask(w)
	case OFAdd, OFSub, OFMul, OFDiv:
		return evalFBin(t.op, t.sort, a(0), a(1))
	case OFSqrt:
		return fenc(t.sort, math.Sqrt(fval(t.sort, a(0))))
	case OFRound:
		return fenc(t.sort, evalRound(t.val, fval(t.sort, a(0))))
	case OFNeg:
		return a(0) ^ (1 << uint(w-1))
	case OFAbs:
		return a(0) &^ (1 << uint(w-1))
	case OFLt, OFLe, OFEq:
		s := t.args[0].sort
		return b2u(evalFCmp(t.op, fval(s, a(0)), fval(s, a(1))))
	case OFIsNaN:
		f := fval(t.args[0].sort, a(0))
		return b2u(f != f)
	case OFIsInf:
		return b2u(math.IsInf(fval(t.args[0].sort, a(0)), 0))
	case OFConv:
		return convBits(t.args[0].sort, t.sort, a(0))
	case OFToS:
		f := math.Trunc(fval(t.args[0].sort, a(0)))
		if !(f >= -math.Ldexp(1, w-1) && f < math.Ldexp(1, w-1)) {
			return 0
		}
		return uint64(int64(f)) & mask(w)
	case OFToU:
		f := math.Trunc(fval(t.args[0].sort, a(0)))
		if !(f >= 0 && f < math.Ldexp(1, w)) {
			return 0
		}
		return uint64(f)
	case OSToF:
		v := signExt(a(0), int(t.args[0].sort.W))
		if t.sort.K == KF32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OUToF:
		if t.sort.K == KF32 {
			return uint64(math.Float32bits(float32(a(0))))
		}
		return math.Float64bits(float64(a(0)))
	case OFromBit, OToBit:
		return a(0)
	case ODy:
		n := signExt(a(0), int(t.args[0].sort.W))
		return fenc(t.sort, math.Ldexp(float64(n), -int(int64(t.val))))
	}
	panic("eval op")
}

// mathUnary: functions of package math which are uninterpreted to the solver
var mathUnary = map[string]func(float64) float64{"Exp": math.Exp, "Exp2": math.Exp2, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh, "Cbrt": math.Cbrt, "Erf": math.Erf, "Gamma": math.Gamma}
