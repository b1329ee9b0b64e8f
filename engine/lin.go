package main

import (
	"math/bits"
	"sort"
	"strconv"
)

// Linear forms: the signed integer value of a bit-vector term as const + sum of
// coefficient*atom, when no step can wrap. Used to give sums built in different orders
// one representative and to see cancellations.
type linForm struct {
	at []*Term
	co []int64
	c  int64
}

const linMax = 72

func (tt *TermTable) linOf(t *Term) *linForm {
	if l, ok := tt.lin[t]; ok {
		return l
	}
	l := tt.linCalc(t)
	if l == nil {
		l = &linForm{at: []*Term{t}, co: []int64{1}}
	}
	tt.lin[t] = l
	return l
}

func (tt *TermTable) linCalc(t *Term) *linForm {
	w := int(t.sort.W)
	switch t.op {
	case OConst:
		return &linForm{c: t.Signed()}
	case OSExt:
		return tt.linOf(t.args[0])
	case OZExt:
		if t.args[0].lo >= 0 {
			return tt.linOf(t.args[0])
		}
	case OExtract:
		a := t.args[0]
		if t.val == 0 && a.lo >= minS(w) && a.hi <= maxS(w) {
			return tt.linOf(a)
		}
	case OAdd, OSub:
		a, b := t.args[0], t.args[1]
		var l, h int64
		var o1, o2 bool
		if t.op == OAdd {
			l, o1 = addOv(a.lo, b.lo)
			h, o2 = addOv(a.hi, b.hi)
		} else {
			l, o1 = subOv(a.lo, b.hi)
			h, o2 = subOv(a.hi, b.lo)
		}
		if o1 && o2 && l >= minS(w) && h <= maxS(w) {
			s := int64(1)
			if t.op == OSub {
				s = -1
			}
			return linAdd(tt.linOf(a), tt.linOf(b), s)
		}
	case ONeg:
		if t.args[0].lo > minS(w) {
			return linAdd(&linForm{}, tt.linOf(t.args[0]), -1)
		}
	case OMul:
		a, b := t.args[0], t.args[1]
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			k := b.Signed()
			l, o1 := mulOv(a.lo, k)
			h, o2 := mulOv(a.hi, k)
			if k < 0 {
				l, h = h, l
			}
			if o1 && o2 && l >= minS(w) && h <= maxS(w) {
				return linAdd(&linForm{}, tt.linOf(a), k)
			}
		}
	case OShl:
		a, b := t.args[0], t.args[1]
		if b.IsConst() && b.val < 40 {
			k := int64(1) << b.val
			l, o1 := mulOv(a.lo, k)
			h, o2 := mulOv(a.hi, k)
			if o1 && o2 && l >= minS(w) && h <= maxS(w) {
				return linAdd(&linForm{}, tt.linOf(a), k)
			}
		}
	}
	return nil
}

// a + k*b, nil if too large
func linAdd(a, b *linForm, k int64) *linForm {
	if len(a.at)+len(b.at) > linMax {
		return nil
	}
	r := &linForm{at: make([]*Term, 0, len(a.at)+len(b.at)), co: make([]int64, 0, len(a.at)+len(b.at))}
	kc, ok := mulOv(b.c, k)
	if !ok {
		return nil
	}
	if r.c, ok = addOv(a.c, kc); !ok {
		return nil
	}
	i, j := 0, 0
	for i < len(a.at) || j < len(b.at) {
		switch {
		case j == len(b.at) || i < len(a.at) && a.at[i].id < b.at[j].id:
			r.at, r.co = append(r.at, a.at[i]), append(r.co, a.co[i])
			i++
		case i == len(a.at) || b.at[j].id < a.at[i].id:
			c, ok := mulOv(b.co[j], k)
			if !ok {
				return nil
			}
			r.at, r.co = append(r.at, b.at[j]), append(r.co, c)
			j++
		default:
			c, ok := mulOv(b.co[j], k)
			if !ok {
				return nil
			}
			if c, ok = addOv(c, a.co[i]); !ok {
				return nil
			}
			if c != 0 {
				r.at, r.co = append(r.at, a.at[i]), append(r.co, c)
			}
			i, j = i+1, j+1
		}
	}
	return r
}

func (l *linForm) key(w int) string {
	b := make([]byte, 0, 8*len(l.at)+16)
	b = strconv.AppendInt(b, int64(w), 10)
	b = append(b, ':')
	b = strconv.AppendInt(b, l.c, 10)
	for i := range l.at {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(l.at[i].id), 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, l.co[i], 10)
	}
	return string(b)
}

// interval of the form
func (l *linForm) rng() (lo, hi int64, ok bool) {
	lo, hi, ok = l.c, l.c, true
	for i, a := range l.at {
		x, o1 := mulOv(a.lo, l.co[i])
		y, o2 := mulOv(a.hi, l.co[i])
		if x > y {
			x, y = y, x
		}
		var o3, o4 bool
		lo, o3 = addOv(lo, x)
		hi, o4 = addOv(hi, y)
		if !o1 || !o2 || !o3 || !o4 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// linCanon replaces a freshly built sum by the representative of its linear form
func (tt *TermTable) linCanon(t *Term, args ...*Term) *Term {
	if t.op == OConst || tt.linBusy {
		return t
	}
	l := tt.linOf(t)
	if len(l.at) == 1 && l.at[0] == t && l.co[0] == 1 && l.c == 0 {
		return t
	}
	w := int(t.sort.W)
	k := l.key(w)
	if r, ok := tt.linRep[k]; ok {
		return r
	}
	n := 0
	for _, a := range args {
		n += len(tt.linOf(a).at)
	}
	r := t
	if len(l.at) < n || len(l.at) == 0 {
		tt.linBusy = true
		r = tt.linBuild(l, w)
		tt.linBusy = false
	}
	if lo, hi, ok := l.rng(); ok && lo >= minS(w) && hi <= maxS(w) && r.op != OConst {
		r.lo, r.hi = max(r.lo, lo), min(r.hi, hi)
	}
	tt.linRep[k] = r
	return r
}

func (tt *TermTable) linBuild(l *linForm, w int) *Term {
	var r *Term
	for pass := 0; pass < 2; pass++ {
		for i, a := range l.at {
			if (l.co[i] > 0) != (pass == 0) {
				continue
			}
			k := l.co[i]
			if k < 0 {
				k = -k
			}
			x := tt.Bin(OMul, tt.SExt(a, w), tt.Const(w, uint64(k)))
			switch {
			case r == nil && pass == 0:
				r = x
			case r == nil:
				r = tt.Neg(x)
			case pass == 0:
				r = tt.Bin(OAdd, r, x)
			default:
				r = tt.Bin(OSub, r, x)
			}
		}
	}
	if r == nil {
		return tt.Const(w, uint64(l.c))
	}
	return tt.Bin(OAdd, r, tt.Const(w, uint64(l.c)))
}

// common power of two of all coefficients
func (l *linForm) twos() int {
	n := 63
	if l.c != 0 {
		n = bits.TrailingZeros64(uint64(l.c))
	}
	for _, c := range l.co {
		n = min(n, bits.TrailingZeros64(uint64(c)))
	}
	return n
}

func (l *linForm) divExact(d int64) *linForm {
	if d == 0 || l.c%d != 0 {
		return nil
	}
	r := &linForm{at: l.at, c: l.c / d, co: make([]int64, len(l.co))}
	for i, c := range l.co {
		if c%d != 0 {
			return nil
		}
		r.co[i] = c / d
	}
	return r
}

func (tt *TermTable) linTerm(l *linForm, w int) *Term {
	if r, ok := tt.linRep[l.key(w)]; ok {
		return r
	}
	if len(l.at) == 1 && l.co[0] == 1 && l.c == 0 {
		return tt.SExt(l.at[0], w)
	}
	t := tt.linBuild(l, w)
	return t
}

var _ = sort.Ints
