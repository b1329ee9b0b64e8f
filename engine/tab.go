package main

import "strings"

// Tabulation of formulas: a boolean subformula over floating point terms which depends on few
// integer variables with few values is replaced by the equivalent formula over these variables.
// This keeps floating point bit-blasting out of the solver; the solver still decides the query.

type tabInfo struct {
	vars []*Term
	prod int64
	fp   bool
	ok   bool
}

const tabMax = 4096

func (tt *TermTable) tabInfo(t *Term) *tabInfo {
	if i, ok := tt.tabi[t]; ok {
		return i
	}
	if tt.tabi == nil {
		tt.tabi, tt.tabm = map[*Term]*tabInfo{}, map[*Term]*Term{}
	}
	i := &tabInfo{ok: true, prod: 1, fp: t.sort.IsFloat()}
	switch {
	case t.op == OVar:
		i.vars = []*Term{t}
		switch {
		case strings.HasPrefix(t.name, "$"):
			i.ok = false
		case t.sort == SBool:
			i.prod = 2
		case t.sort.K == KBV && t.hi-t.lo >= 0 && t.hi-t.lo < tabMax:
			i.prod = t.hi - t.lo + 1
		default:
			i.ok = false
		}
	case t.op == OUF && !isFloatUF(t):
		i.ok = false
	}
	for _, a := range t.args {
		ai := tt.tabInfo(a)
		i.fp = i.fp || ai.fp
		if !ai.ok {
			i.ok = false
		}
		if !i.ok {
			continue
		}
	vars:
		for _, v := range ai.vars {
			for _, w := range i.vars {
				if v == w {
					continue vars
				}
			}
			i.vars = append(i.vars[:len(i.vars):len(i.vars)], v)
			i.prod *= tt.tabInfo(v).prod
			if i.prod > tabMax || len(i.vars) > 6 {
				i.ok = false
				break
			}
		}
	}
	if !i.ok {
		i.vars = nil
	}
	tt.tabi[t] = i
	return i
}

func (tt *TermTable) tabBool(t *Term) *Term {
	if tt.Tab == 0 || t == nil || t.sort != SBool || t.IsConst() {
		return t
	}
	i := tt.tabInfo(t)
	if !i.fp {
		return t
	}
	if r, ok := tt.tabm[t]; ok {
		return r
	}
	r := t
	if i.ok && i.prod <= int64(max(tt.Tab, 64))*4 && i.prod <= tabMax {
		if x := tt.tabTable(t, i); x != nil {
			r = x
		}
	} else {
		switch t.op {
		case OAnd:
			r = tt.tTrue
			for _, a := range t.args {
				r = tt.And(r, tt.tabBool(a))
			}
		case OOr:
			r = tt.tFals
			for _, a := range t.args {
				r = tt.Or(r, tt.tabBool(a))
			}
		case ONot:
			r = tt.Not(tt.tabBool(t.args[0]))
		case OIte:
			r = tt.Ite(tt.tabBool(t.args[0]), tt.tabBool(t.args[1]), tt.tabBool(t.args[2]))
		}
	}
	tt.tabm[t] = r
	return r
}

// tabTable gives t as a decision tree over its variables
func (tt *TermTable) tabTable(t *Term, i *tabInfo) *Term {
	vals := map[*Term]uint64{}
	bad := false
	var rec func(k int) *Term
	rec = func(k int) *Term {
		if k == len(i.vars) {
			m := &Model{vars: vals, memo: map[*Term]uint64{}, real: true, bad: map[*Term]bool{}}
			v := m.Get(t)
			if m.bad[t] {
				bad = true
			}
			return tt.Bool(v != 0)
		}
		v := i.vars[k]
		if v.sort == SBool {
			vals[v] = 1
			x := rec(k + 1)
			vals[v] = 0
			return tt.Ite(v, x, rec(k+1))
		}
		// runs of values with the same result become ranges
		type run struct {
			lo, hi int64
			r      *Term
		}
		var runs []run
		for x := v.lo; x <= v.hi && !bad; x++ {
			vals[v] = uint64(x) & mask(int(v.sort.W))
			r := rec(k + 1)
			if n := len(runs); n > 0 && runs[n-1].r == r {
				runs[n-1].hi = x
			} else {
				runs = append(runs, run{x, x, r})
			}
		}
		if len(runs) == 0 {
			return tt.tFals
		}
		r := runs[0].r
		for _, u := range runs[1:] {
			r = tt.Ite(tt.Cmp(OSLe, tt.Const(int(v.sort.W), uint64(u.lo)&mask(int(v.sort.W))), v), u.r, r)
		}
		return r
	}
	r := rec(0)
	if bad {
		return nil
	}
	return r
}
