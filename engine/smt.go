package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math"
	"math/bits"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	RUnknown Res = iota
	RSat
	RUnsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Solver: one incremental SMT process
type Solver struct {
	tt                  *TermTable
	bin                 []string
	cmd                 *exec.Cmd
	in                  *bufio.Writer
	inC                 io.WriteCloser
	out                 *bufio.Reader
	levels              [][]*Term // terms defined per level
	defined             map[*Term]bool
	stack               []*Term // asserted terms per level (one per level)
	vars                []*Term
	apps                map[*Term]bool
	Queries             int
	Sat, Unsat, Unknown int
	Time                time.Duration
	TimeoutMS           int
	log                 io.Writer
	sb                  strings.Builder
	MaxQ                time.Duration
	errs                int
	hard                int
	OneShots            int
	LastErr             string
	grid                bool
	gsol                *Solver
	gridApps            map[string][]*Term
	GridQueries         int
}

func NewSolver(tt *TermTable, timeoutMS int) *Solver {
	s := &Solver{tt: tt, TimeoutMS: timeoutMS}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:6000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.levels = [][]*Term{nil}
	s.defined = map[*Term]bool{}
	s.apps = map[*Term]bool{}
	s.stack = nil
	s.gridApps = map[string][]*Term{}
	s.send("(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", min(s.TimeoutMS, 700)))
	s.send("(define-sort F32 () (_ FloatingPoint 8 24))\n(define-sort F64 () (_ FloatingPoint 11 53))\n")
	return nil
}
func (s *Solver) Close() {
	if s.gsol != nil {
		s.gsol.Close()
	}
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) sortName(so Sort) string {
	if s.grid && so.IsFloat() {
		return "(_ BitVec " + strconv.Itoa(gridW) + ")"
	}
	switch so.K {
	case KBool:
		return "Bool"
	case KBV:
		return "(_ BitVec " + strconv.Itoa(int(so.W)) + ")"
	case KF32:
		return "F32"
	}
	return "F64"
}
func toFP(so Sort) string {
	if so.K == KF32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}
func bvLit(w int, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func litStr(t *Term) string {
	switch t.sort.K {
	case KBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case KBV:
		return bvLit(int(t.sort.W), t.val)
	}
	f := t.Float()
	if f != f {
		if t.sort.K == KF32 {
			return "(_ NaN 8 24)"
		}
		return "(_ NaN 11 53)"
	}
	return "(" + toFP(t.sort) + " " + bvLit(int(t.sort.W), t.val) + ")"
}

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		if s.grid && t.sort.IsFloat() {
			g, _ := s.tt.gridConst(t)
			return gridLit(g)
		}
		return litStr(t)
	}
	if t.op == OVar {
		return "v" + strconv.Itoa(t.id)
	}
	return "t" + strconv.Itoa(t.id)
}

func (s *Solver) define(root *Term) {
	if root.op == OConst || s.defined[root] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || s.defined[f.t] {
			st = st[:len(st)-1]
			continue
		}
		deps := s.deps(f.t)
		if f.i < len(deps) {
			a := deps[f.i]
			f.i++
			if a.op != OConst && !s.defined[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		s.emit(f.t)
		st = st[:len(st)-1]
	}
}

func (s *Solver) emit(t *Term) {
	s.defined[t] = true
	l := len(s.levels) - 1
	s.levels[l] = append(s.levels[l], t)
	if t.op == OVar {
		s.send("(declare-const v" + strconv.Itoa(t.id) + " " + s.sortName(t.sort) + ")\n")
		if t.sort.K == KBV {
			w := int(t.sort.W)
			if t.lo != minS(w) {
				s.send("(assert (bvsle " + bvLit(w, uint64(t.lo)&mask(w)) + " v" + strconv.Itoa(t.id) + "))\n")
			}
			if t.hi != maxS(w) {
				s.send("(assert (bvsle v" + strconv.Itoa(t.id) + " " + bvLit(w, uint64(t.hi)&mask(w)) + "))\n")
			}
		}
		return
	}
	e := s.expr(t)
	if s.grid && isFloatUF(t) {
		s.send("(define-fun t" + strconv.Itoa(t.id) + " () (_ BitVec " + strconv.Itoa(gridW) + ") " + e + ")\n")
		s.gridAxioms(t)
		return
	}
	if t.op == OToBit {
		// bits of an arithmetic result: fresh constant tied to the value
		n := "t" + strconv.Itoa(t.id)
		so := t.args[0].sort
		s.send("(declare-const " + n + " " + s.sortName(t.sort) + ")\n")
		x := s.ref(t.args[0])
		nan := "#x7fc00000"
		if so.K == KF64 {
			nan = "#x7ff8000000000001"
		}
		s.send("(assert (ite (fp.isNaN " + x + ") (= " + n + " " + nan + ") (= (" + toFP(so) + " " + n + ") " + x + ")))\n")
		return
	}
	s.send("(define-fun t" + strconv.Itoa(t.id) + " () " + s.sortName(t.sort) + " " + e + ")\n")
}

// bitsRef returns a BV expression for float t when it is available without fp theory
func (s *Solver) bitsRef(t *Term) (string, bool) {
	if t.op == OConst {
		return bvLit(int(t.sort.W), t.val), true
	}
	if bitsAble(t) {
		return s.ref(s.tt.ToBits(t)), true
	}
	return "", false
}

// bitsAble: the term's bits are expressible without floating-point arithmetic
func bitsAble(t *Term) bool {
	switch t.op {
	case OConst, OFromBit:
		return true
	case OIte, OFNeg, OFAbs:
		if t.bitOK == 0 {
			t.bitOK = 1
			for i, a := range t.args {
				if (t.op != OIte || i > 0) && !bitsAble(a) {
					t.bitOK = -1
					break
				}
			}
		}
		return t.bitOK > 0
	}
	return false
}

// deps: the terms an emitted definition refers to
func (s *Solver) deps(t *Term) []*Term {
	if s.grid {
		return t.args
	}
	switch t.op {
	case OFLt, OFLe, OFEq:
		if bitsAble(t.args[0]) && bitsAble(t.args[1]) {
			return []*Term{s.tt.ToBits(t.args[0]), s.tt.ToBits(t.args[1])}
		}
	case OFIsNaN, OFIsInf:
		if bitsAble(t.args[0]) {
			return []*Term{s.tt.ToBits(t.args[0])}
		}
	}
	return t.args
}

// narrow: number of bits which hold both operands and the result of an operation as signed
// numbers, if that is clearly less than its width
func narrow(t *Term) int {
	k := 2
	for _, x := range []*Term{t, t.args[0], t.args[1]} {
		for _, v := range []int64{x.lo, x.hi} {
			if v < 0 {
				v = ^v
			}
			k = max(k, bits.Len64(uint64(v))+1)
		}
	}
	if t.op == OUDiv || t.op == OURem {
		if t.args[0].lo < 0 || t.args[1].lo < 0 {
			return 0
		}
	}
	if k+8 > int(t.sort.W) {
		return 0
	}
	return k
}

func (s *Solver) expr(t *Term) string {
	r := func(i int) string { return s.ref(t.args[i]) }
	if s.grid {
		if e := s.gridExpr(t); e != "" {
			return e
		}
	}
	switch t.op {
	case OUF:
		if _, ok := s.ufDecl(t); ok {
			x := "(" + t.name
			for i := range t.args {
				x += " " + r(i)
			}
			s.apps[t] = true
			return x + ")"
		}
	case ONot, OBNot, ONeg:
		return "(" + opNames[t.op] + " " + r(0) + ")"
	case OMul, OUDiv, OSDiv, OURem, OSRem:
		if k := narrow(t); k > 0 {
			return fmt.Sprintf("((_ sign_extend %d) (%s ((_ extract %d 0) %s) ((_ extract %d 0) %s)))", int(t.sort.W)-k, opNames[t.op], k-1, r(0), k-1, r(1))
		}
		return "(" + opNames[t.op] + " " + r(0) + " " + r(1) + ")"
	case OAnd, OOr, OEq, OAdd, OSub, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr, OULt, OULe, OSLt, OSLe:
		return "(" + opNames[t.op] + " " + r(0) + " " + r(1) + ")"
	case OIte:
		return "(ite " + r(0) + " " + r(1) + " " + r(2) + ")"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.sort.W)-1, t.val, r(0))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.W-t.args[0].sort.W, r(0))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.args[0].sort.W, r(0))
	case OFAdd:
		return "(fp.add RNE " + r(0) + " " + r(1) + ")"
	case OFSub:
		return "(fp.sub RNE " + r(0) + " " + r(1) + ")"
	case OFMul:
		return "(fp.mul RNE " + r(0) + " " + r(1) + ")"
	case OFDiv:
		return "(fp.div RNE " + r(0) + " " + r(1) + ")"
	case OFSqrt:
		return "(fp.sqrt RNE " + r(0) + ")"
	case OFRound:
		return "(fp.roundToIntegral " + [...]string{"RTN", "RTP", "RTZ", "RNA", "RNE"}[t.val] + " " + r(0) + ")"
	case OFNeg:
		return "(fp.neg " + r(0) + ")"
	case OFAbs:
		return "(fp.abs " + r(0) + ")"
	case OFLt, OFLe, OFEq:
		a, b := t.args[0], t.args[1]
		if bitsAble(a) && bitsAble(b) {
			x, _ := s.bitsRef(a)
			y, _ := s.bitsRef(b)
			return bvFCmp(t.op, a.sort, a, b, x, y, s.tt.notNaN)
		}
		return "(" + map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.op] + " " + r(0) + " " + r(1) + ")"
	case OFIsNaN:
		if x, ok := s.bitsRef(t.args[0]); ok {
			return bvIsNaN(t.args[0].sort, x)
		}
		return "(fp.isNaN " + r(0) + ")"
	case OFIsInf:
		if x, ok := s.bitsRef(t.args[0]); ok {
			a, i := absInf(t.args[0].sort, x)
			return "(= " + a + " " + i + ")"
		}
		return "(fp.isInfinite " + r(0) + ")"
	case OFConv:
		return "(" + toFP(t.sort) + " RNE " + r(0) + ")"
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.sort.W, r(0))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.sort.W, r(0))
	case OSToF:
		return "(" + toFP(t.sort) + " RNE " + r(0) + ")"
	case OUToF:
		if t.sort.K == KF32 {
			return "((_ to_fp_unsigned 8 24) RNE " + r(0) + ")"
		}
		return "((_ to_fp_unsigned 11 53) RNE " + r(0) + ")"
	case OFromBit:
		return "(" + toFP(t.sort) + " " + r(0) + ")"
	case OToBit:
		return ""
	case ODy:
		k := int(int64(t.val))
		base := "(" + toFP(t.sort) + " RNE " + r(0) + ")"
		if k == 0 {
			return base
		}
		c := math.Ldexp(1, -k)
		var lit string
		if t.sort.K == KF32 {
			lit = bvLit(32, uint64(math.Float32bits(float32(c))))
		} else {
			lit = bvLit(64, math.Float64bits(c))
		}
		return "(fp.mul RNE " + base + " (" + toFP(t.sort) + " " + lit + "))"
	}
	panic(fmt.Sprint("smt expr op ", t.op))
}

func (s *Solver) ufDecl(t *Term) (string, bool) {
	// declared at the level of first use; z3 pops declarations, so track like terms
	key := s.tt.mk(OVar, SBool, 0, "$uf$"+t.name)
	if !s.defined[key] {
		s.defined[key] = true
		l := len(s.levels) - 1
		s.levels[l] = append(s.levels[l], key)
		sg := s.tt.ufs[t.name]
		x := "(declare-fun " + t.name + " ("
		for _, a := range sg.args {
			x += s.sortName(a) + " "
		}
		res := sg.res
		if s.grid && isFloatUF(t) {
			res = BV(gridW)
		}
		s.send(x + ") " + s.sortName(res) + ")\n")
	}
	return t.name, true
}

func absInf(so Sort, x string) (string, string) {
	if so.K == KF32 {
		return "(bvand " + x + " #x7fffffff)", "#x7f800000"
	}
	return "(bvand " + x + " #x7fffffffffffffff)", "#x7ff0000000000000"
}
func bvIsNaN(so Sort, x string) string {
	a, inf := absInf(so, x)
	return "(bvugt " + a + " " + inf + ")"
}

// order-preserving key: sign set -> negated magnitude
func bvFCmp(op Op, so Sort, ta, tb *Term, x, y string, num func(*Term) bool) string {
	w := int(so.W)
	zero := bvLit(w, 0)
	key := func(t *Term, e string) string {
		if t.IsConst() {
			v := t.val
			m := v & mask(w-1)
			if v>>uint(w-1) == 1 {
				m = -m & mask(w)
			}
			return bvLit(w, m)
		}
		mag := "(bvand " + e + " " + bvLit(w, mask(w-1)) + ")"
		return "(ite (bvslt " + e + " " + zero + ") (bvneg " + mag + ") " + mag + ")"
	}
	cmp := map[Op]string{OFLt: "bvslt", OFLe: "bvsle", OFEq: "="}[op]
	e := "(" + cmp + " " + key(ta, x) + " " + key(tb, y) + ")"
	r := "(and"
	if !num(ta) {
		r += " (not " + bvIsNaN(so, x) + ")"
	}
	if !num(tb) {
		r += " (not " + bvIsNaN(so, y) + ")"
	}
	if r == "(and" {
		return e
	}
	return r + " " + e + ")"
}

func (s *Solver) push(t *Term) {
	s.levels = append(s.levels, nil)
	s.send("(push 1)\n")
	s.define(t)
	s.send("(assert " + s.ref(t) + ")\n")
	s.stack = append(s.stack, t)
}
func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	s.send(fmt.Sprintf("(pop %d)\n", n))
	for i := 0; i < n; i++ {
		l := len(s.levels) - 1
		for _, t := range s.levels[l] {
			delete(s.defined, t)
			delete(s.apps, t)
		}
		s.levels = s.levels[:l]
		s.stack = s.stack[:len(s.stack)-1]
	}
}

// Check decides satisfiability of conj(pc) and extra; returns a model if sat
func (s *Solver) Check(pc []*Term, extra *Term) (Res, *Model) {
	s.Queries++
	if s.tt.Tab > 0 && !s.grid {
		p := make([]*Term, 0, len(pc))
		for _, t := range pc {
			p = append(p, s.tt.tabBool(t))
		}
		pc, extra = p, s.tt.tabBool(extra)
	}
	if s.tt.UFMode && !s.grid && s.gridQuery(pc, extra) {
		if s.gsol == nil {
			s.gsol = NewSolver(s.tt, s.TimeoutMS)
			s.gsol.grid = true
			if f := os.Getenv("GOSYM_GRIDLOG"); f != "" {
				s.gsol.log, _ = os.Create(f)
			}
		}
		g := s.gsol
		t0 := time.Now()
		res, m := g.Check(pc, extra)
		d := time.Since(t0)
		s.Time += d
		s.GridQueries++
		s.errs, g.errs, s.LastErr = s.errs+g.errs, 0, s.LastErr+g.LastErr
		g.LastErr = ""
		s.OneShots, g.OneShots = s.OneShots+g.OneShots, 0
		if d > s.MaxQ {
			s.MaxQ = d
		}
		switch res {
		case RSat:
			s.Sat++
		case RUnsat:
			s.Unsat++
		default:
			s.Unknown++
		}
		return res, m
	}
	if s.hard >= 3 && s.Queries&7 != 0 {
		t0 := time.Now()
		s.OneShots++
		res, m := s.solveFresh(pc, extra)
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxQ {
			s.MaxQ = d
		}
		if d < 60*time.Millisecond {
			s.hard--
		}
		switch res {
		case RSat:
			s.Sat++
		case RUnsat:
			s.Unsat++
		default:
			s.Unknown++
		}
		return res, m
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.errs++
			s.LastErr = err.Error()
			return RUnknown, nil
		}
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxQ {
			s.MaxQ = d
		}
	}()
	// sync the stack with pc
	k := 0
	for k < len(pc) && k < len(s.stack) && s.stack[k] == pc[k] {
		k++
	}
	s.pop(len(s.stack) - k)
	for ; k < len(pc); k++ {
		s.push(pc[k])
	}
	if extra != nil {
		s.push(extra)
	}
	s.send("(check-sat)\n(echo \"@@\")\n")
	s.in.Flush()
	ans, err := s.readUntil()
	if err != nil {
		s.errs++
		s.LastErr = "solver died: " + err.Error()
		s.Close()
		s.Unknown++
		return RUnknown, nil
	}
	res := RUnknown
	if strings.Contains(ans, "(error") {
		s.errs++
		s.LastErr = ans
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", ans)
		}
		s.Close()
		s.Unknown++
		return RUnknown, nil
	} else if strings.HasPrefix(ans, "sat") {
		res = RSat
	} else if strings.HasPrefix(ans, "unsat") {
		res = RUnsat
	}
	if res != RUnknown {
		s.hard = max(0, s.hard-1)
	}
	var m *Model
	if res == RSat {
		m = s.getModel()
		if m == nil {
			res = RUnknown
		}
	}
	if s.cmd != nil && extra != nil {
		s.pop(1)
	}
	if res == RUnknown {
		s.hard++
		s.OneShots++
		res, m = s.solveFresh(pc, extra)
	}
	switch res {
	case RSat:
		s.Sat++
	case RUnsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	return res, m
}

func (s *Solver) readUntil() (string, error) {
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		if strings.HasPrefix(l, "@@") {
			return sb.String(), nil
		}
		sb.WriteString(l)
	}
}

func (s *Solver) getModel() *Model {
	q := s.modelTerms()
	m := &Model{vars: map[*Term]uint64{}, memo: map[*Term]uint64{}}
	if len(q) == 0 {
		return m
	}
	s.send("(get-value (")
	for _, t := range q {
		s.send(s.ref(t) + " ")
	}
	s.send("))\n(echo \"@@\")\n")
	s.in.Flush()
	ans, err := s.readUntil()
	if err != nil || strings.Contains(ans, "(error") {
		s.errs++
		s.LastErr = ans
		s.Close()
		return nil
	}
	return s.parseModel(ans, q)
}

func (s *Solver) parseModel(ans string, q []*Term) *Model {
	m := &Model{vars: map[*Term]uint64{}, memo: map[*Term]uint64{}}
	toks := tokenize(ans)
	// ((v1 val) (v2 val) ...)
	i := 1
	byName := map[string]*Term{}
	for _, t := range q {
		byName[s.ref(t)] = t
	}
	for i < len(toks)-1 {
		if toks[i] != "(" {
			break
		}
		name := toks[i+1]
		val := toks[i+2]
		t := byName[name]
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, _ = strconv.ParseUint(val[2:], 2, 64)
		default:
			s.errs++
			s.LastErr = "bad model value " + val
			return nil
		}
		if t != nil && s.grid && isFloatUF(t) {
			m.vars[t] = gridValue(t.sort, v)
		} else if t != nil {
			m.vars[t] = v
		}
		i += 4
	}
	return m
}

func tokenize(x string) []string {
	var r []string
	i := 0
	for i < len(x) {
		c := x[i]
		switch {
		case c == '(' || c == ')':
			r = append(r, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(x) && !strings.ContainsRune("() \n\t\r", rune(x[j])) {
				j++
			}
			r = append(r, x[i:j])
			i = j
		}
	}
	return r
}

// oneShot renders the query as a self-contained script and lists the model terms
func (s *Solver) oneShot(pc []*Term, extra *Term) (string, []*Term) {
	var sb strings.Builder
	t := &Solver{tt: s.tt, levels: [][]*Term{nil}, defined: map[*Term]bool{}, apps: map[*Term]bool{}, gridApps: map[string][]*Term{}, grid: s.grid}
	t.in = bufio.NewWriter(&sb)
	t.send("(define-sort F32 () (_ FloatingPoint 8 24))\n(define-sort F64 () (_ FloatingPoint 11 53))\n")
	for _, p := range append(append([]*Term{}, pc...), extra) {
		if p == nil {
			continue
		}
		t.define(p)
		t.send("(assert " + t.ref(p) + ")\n")
	}
	t.send("(check-sat)\n")
	t.in.Flush()
	return sb.String(), t.modelTerms()
}

func (s *Solver) modelTerms() []*Term {
	var q []*Term
	for t := range s.defined {
		if t.op == OVar && !strings.HasPrefix(t.name, "$uf$") || s.apps[t] {
			q = append(q, t)
		}
	}
	return q
}

// solveFresh decides a hard query in a separate process (full preprocessing)
func (s *Solver) solveFresh(pc []*Term, extra *Term) (Res, *Model) {
	txt, q := s.oneShot(pc, extra)
	if len(q) > 0 {
		txt += "(get-value ("
		for _, t := range q {
			txt += s.ref(t) + " "
		}
		txt += "))\n"
	}
	t0 := time.Now()
	out := s.race(txt)
	if d := time.Since(t0); d > 2*time.Second && os.Getenv("GOSYM_DUMP") != "" {
		f := fmt.Sprintf("%s/q%d-%d-%.1f.smt2", os.Getenv("GOSYM_DUMP"), os.Getpid(), s.Queries, d.Seconds())
		os.WriteFile(f, []byte(txt), 0o644)
	}
	switch {
	case strings.HasPrefix(out, "unsat"):
		return RUnsat, nil
	case strings.HasPrefix(out, "sat"):
		if strings.Contains(out, "(error") {
			s.errs++
			s.LastErr = out
			return RUnknown, nil
		}
		m := s.parseModel(out[3:], q)
		if m == nil {
			return RUnknown, nil
		}
		return RSat, m
	}
	if strings.Contains(out, "(error") {
		s.errs++
		s.LastErr = out
	}
	return RUnknown, nil
}

// race runs cvc5, joined by z3 if it takes longer, and returns the first conclusive answer
func (s *Solver) race(txt string) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.TimeoutMS)*time.Millisecond+2*time.Second)
	defer cancel()
	res := make(chan string, 2)
	run := func(pre string, name string, args ...string) {
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Stdin = strings.NewReader(pre + txt)
		b, _ := cmd.Output()
		out := string(b)
		if strings.HasPrefix(out, "sat") && strings.Contains(out, "(error") {
			out = "unknown"
		}
		res <- out
	}
	go run("(set-option :produce-models true)\n(set-logic ALL)\n", "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.TimeoutMS), "-")
	n := 1
	started := false
	z3 := func() {
		if !started {
			started = true
			n++
			go run("", "z3-new", "-in", "-smt2", "-memory:6000", fmt.Sprintf("-t:%d", s.TimeoutMS))
		}
	}
	late := time.After(250 * time.Millisecond)
	out := ""
	for n > 0 {
		select {
		case out = <-res:
			n--
			if strings.HasPrefix(out, "sat") || strings.HasPrefix(out, "unsat") {
				return out
			}
			z3()
		case <-late:
			z3()
		}
	}
	return out
}
