package main

import "math"

// Interval analysis of floats: a term with a known interval is a finite number in it.
type fiv struct{ lo, hi float64 }

func (tt *TermTable) setIv(t *Term, v fiv) {
	tt.ivs[t] = &v
}

func (tt *TermTable) iv(t *Term) (fiv, bool) {
	if !t.sort.IsFloat() {
		return fiv{}, false
	}
	switch t.op {
	case OConst:
		f := t.Float()
		return fiv{f, f}, !math.IsNaN(f) && !math.IsInf(f, 0)
	case ODy:
		k := -int(int64(t.val))
		n := t.args[0]
		return outward(t.sort, math.Ldexp(float64(n.lo), k), math.Ldexp(float64(n.hi), k), n.hi > 1<<53 || n.lo < -(1<<53))
	}
	if v, ok := tt.ivs[t]; ok {
		if v == nil {
			return fiv{}, false
		}
		return *v, true
	}
	v, ok := tt.ivCalc(t)
	if ok {
		tt.ivs[t] = &v
	} else {
		tt.ivs[t] = nil
	}
	return v, ok
}

func outward(s Sort, lo, hi float64, loose bool) (fiv, bool) {
	if math.IsNaN(lo) || math.IsNaN(hi) || math.IsInf(lo, 0) || math.IsInf(hi, 0) {
		return fiv{}, false
	}
	if s.K == KF32 {
		l, h := float32(lo), float32(hi)
		if float64(l) != lo || loose {
			l = math.Nextafter32(l, float32(math.Inf(-1)))
		}
		if float64(h) != hi || loose {
			h = math.Nextafter32(h, float32(math.Inf(1)))
		}
		// zero is exact under monotone rounding
		if lo >= 0 && l < 0 {
			l = 0
		}
		if hi <= 0 && h > 0 {
			h = 0
		}
		lo, hi = float64(l), float64(h)
	} else if loose {
		l0, h0 := lo, hi
		lo, hi = math.Nextafter(lo, math.Inf(-1)), math.Nextafter(hi, math.Inf(1))
		if l0 >= 0 && lo < 0 {
			lo = 0
		}
		if h0 <= 0 && hi > 0 {
			hi = 0
		}
	}
	if math.IsInf(lo, 0) || math.IsInf(hi, 0) {
		return fiv{}, false
	}
	return fiv{lo, hi}, true
}

func (tt *TermTable) ivCalc(t *Term) (fiv, bool) {
	switch t.op {
	case OFAdd, OFSub, OFMul, OFDiv:
		a, ok := tt.iv(t.args[0])
		if !ok {
			return fiv{}, false
		}
		b, ok := tt.iv(t.args[1])
		if !ok {
			return fiv{}, false
		}
		v, ok := ivBin(t.op, t.sort, a, b)
		if ok && t.op == OFMul && t.args[0] == t.args[1] && v.lo < 0 {
			v.lo = 0
		}
		return v, ok
	case OFSqrt:
		a, ok := tt.iv(t.args[0])
		if !ok || a.lo < 0 {
			return fiv{}, false
		}
		return outward(t.sort, math.Sqrt(a.lo), math.Sqrt(a.hi), false)
	case OFNeg:
		a, ok := tt.iv(t.args[0])
		return fiv{-a.hi, -a.lo}, ok
	case OFAbs:
		a, ok := tt.iv(t.args[0])
		if a.lo >= 0 {
			return a, ok
		}
		if a.hi <= 0 {
			return fiv{-a.hi, -a.lo}, ok
		}
		return fiv{0, math.Max(-a.lo, a.hi)}, ok
	case OFRound:
		a, ok := tt.iv(t.args[0])
		return fiv{math.Floor(a.lo), math.Ceil(a.hi)}, ok
	case OFConv:
		a, ok := tt.iv(t.args[0])
		if !ok {
			return a, ok
		}
		return outward(t.sort, a.lo, a.hi, false)
	case OSToF:
		n := t.args[0]
		return outward(t.sort, float64(n.lo), float64(n.hi), true)
	case OUToF:
		n := t.args[0]
		if n.lo >= 0 {
			return outward(t.sort, float64(n.lo), float64(n.hi), true)
		}
	case OIte:
		a, ok := tt.iv(t.args[1])
		if !ok {
			return a, false
		}
		b, ok := tt.iv(t.args[2])
		v := fiv{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi)}
		// clamps: ite(x<c, c, x) and so on
		if ok {
			if c := t.args[0]; c.op == OFLt || c.op == OFLe {
				x, y := c.args[0], c.args[1]
				if x.op == OFConv && x.sort.K == KF64 && t.sort.K == KF32 {
					x = x.args[0]
				}
				if y.op == OFConv && y.sort.K == KF64 && t.sort.K == KF32 {
					y = y.args[0]
				}
				switch {
				case t.args[1] == x && t.args[2] == y: // minimum
					v = fiv{math.Min(a.lo, b.lo), math.Min(a.hi, b.hi)}
				case t.args[1] == y && t.args[2] == x: // maximum
					v = fiv{math.Max(a.lo, b.lo), math.Max(a.hi, b.hi)}
				}
			}
		}
		return v, ok
	}
	return fiv{}, false
}

func ivBin(op Op, s Sort, a, b fiv) (fiv, bool) {
	switch op {
	case OFAdd:
		return outward(s, a.lo+b.lo, a.hi+b.hi, s.K == KF32)
	case OFSub:
		return outward(s, a.lo-b.hi, a.hi-b.lo, s.K == KF32)
	case OFMul, OFDiv:
		if op == OFDiv && b.lo <= 0 && b.hi >= 0 {
			return fiv{}, false
		}
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, x := range []float64{a.lo, a.hi} {
			for _, y := range []float64{b.lo, b.hi} {
				v := x * y
				if op == OFDiv {
					v = x / y
				}
				lo, hi = math.Min(lo, v), math.Max(hi, v)
			}
		}
		return outward(s, lo, hi, s.K == KF32)
	}
	return fiv{}, false
}

// ivCmp decides a comparison by intervals: 1 true, -1 false, 0 open
func (tt *TermTable) ivCmp(op Op, a, b *Term) int {
	x, ok := tt.iv(a)
	if !ok {
		return 0
	}
	y, ok := tt.iv(b)
	if !ok {
		return 0
	}
	switch op {
	case OFLt:
		if x.hi < y.lo {
			return 1
		}
		if x.lo >= y.hi {
			return -1
		}
	case OFLe:
		if x.hi <= y.lo {
			return 1
		}
		if x.lo > y.hi {
			return -1
		}
	case OFEq:
		if x.hi < y.lo || x.lo > y.hi {
			return -1
		}
	}
	return 0
}
