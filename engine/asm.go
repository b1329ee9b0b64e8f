package main

// Interpreter for the Go assembly (amd64, AVX2) functions of the code under
// verification, over symbolic vector lanes.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type asmIns struct {
	op   string
	args []string
}
type asmFunc struct {
	name   string
	ins    []asmIns
	labels map[string]int
}
type asmPkg struct {
	funcs map[string]*asmFunc
	data  map[string][]uint32
	err   string
}

var asmNoComment = regexp.MustCompile(`//.*$`)

func parseAsmDir(dir string) *asmPkg {
	p := &asmPkg{funcs: map[string]*asmFunc{}, data: map[string][]uint32{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.s"))
	for _, fn := range files {
		b, err := os.ReadFile(fn)
		if err != nil {
			continue
		}
		if strings.HasSuffix(fn, "_arm64.s") || strings.HasSuffix(fn, "_386.s") || strings.HasSuffix(fn, "_arm.s") {
			continue
		}
		defs := map[string]string{}
		var cur *asmFunc
		text := regexp.MustCompile(`(?s)/\*.*?\*/`).ReplaceAllString(string(b), " ")
		text = strings.ReplaceAll(text, "\\\n", " ")
		for _, line := range strings.Split(text, "\n") {
			line = strings.TrimSpace(asmNoComment.ReplaceAllString(line, ""))
			if line == "" {
				continue
			}
			if strings.HasPrefix(line, "#define") {
				f := strings.Fields(line)
				if len(f) == 3 {
					defs[f[1]] = f[2]
				} else if len(f) > 3 {
					p.err = "macro " + line
				}
				continue
			}
			if strings.HasPrefix(line, "#") {
				continue
			}
			for _, part := range strings.Split(line, ";") {
				part = strings.TrimSpace(part)
				for {
					i := strings.Index(part, ":")
					if i < 0 || strings.ContainsAny(part[:i], " \t(,") {
						break
					}
					if cur != nil {
						cur.labels[part[:i]] = len(cur.ins)
					}
					part = strings.TrimSpace(part[i+1:])
				}
				if part == "" {
					continue
				}
				op, rest, _ := strings.Cut(part, " ")
				if i := strings.IndexAny(op, "\t"); i >= 0 {
					op, rest = part[:i], part[i+1:]
				}
				args := splitArgs(rest)
				for i, a := range args {
					if d, ok := defs[a]; ok {
						args[i] = d
					}
				}
				switch op {
				case "TEXT":
					nm := args[0]
					nm = strings.TrimPrefix(nm[:strings.Index(nm, "(")], "·")
					nm = strings.TrimSuffix(nm, "<>")
					cur = &asmFunc{name: nm, labels: map[string]int{}}
					p.funcs[nm] = cur
				case "GLOBL":
				case "DATA":
					// DATA sym<>+off(SB)/4, $val
					m := regexp.MustCompile(`^·?(\w+)(?:<>)?(?:\+(\w+))?\(SB\)/(\d+)$`).FindStringSubmatch(args[0])
					if m == nil || len(args) != 2 {
						p.err = "DATA " + line
						continue
					}
					off, _ := strconv.ParseInt(m[2], 0, 64)
					if m[2] == "" {
						off = 0
					}
					vs := strings.TrimPrefix(args[1], "$")
					var words []uint32
					sz, _ := strconv.Atoi(m[3])
					if strings.Contains(vs, ".") && !strings.HasPrefix(vs, "0x") {
						f, err := strconv.ParseFloat(strings.Trim(vs, "()"), 64)
						if err != nil {
							p.err = "DATA " + line
						}
						if sz == 4 {
							words = []uint32{f32b(float32(f))}
						} else {
							u := f64bits(f)
							words = []uint32{uint32(u), uint32(u >> 32)}
						}
					} else {
						v, err := strconv.ParseInt(vs, 0, 64)
						if err != nil {
							u, err2 := strconv.ParseUint(vs, 0, 64)
							if err2 != nil {
								p.err = "DATA " + line
							}
							v = int64(u)
						}
						words = []uint32{uint32(v)}
						if sz == 8 {
							words = append(words, uint32(uint64(v)>>32))
						} else if sz != 4 {
							p.err = "DATA size " + line
						}
					}
					if off%4 != 0 {
						p.err = "DATA align " + line
					}
					d := p.data[m[1]]
					for len(d) < int(off/4)+len(words) {
						d = append(d, 0)
					}
					copy(d[off/4:], words)
					p.data[m[1]] = d
				default:
					if cur == nil {
						p.err = "code outside TEXT: " + line
						continue
					}
					cur.ins = append(cur.ins, asmIns{op, args})
				}
			}
		}
	}
	return p
}

func f32b(f float32) uint32 { return uint32(convBits(SF64, SF32, f64bits(float64(f)))) }

func splitArgs(s string) []string {
	var out []string
	d, b := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[b:i]))
				b = i + 1
			}
		}
	}
	if strings.TrimSpace(s[b:]) != "" {
		out = append(out, strings.TrimSpace(s[b:]))
	}
	return out
}

// a general purpose register: pointer into an object (off in bytes) or integer
type asmReg struct {
	obj  int // 0: integer
	data string
	off  int64
}
type asmVM struct {
	ex   *Exec
	st   *State
	p    *asmPkg
	r    map[string]asmReg
	v    [16][4]asmChunk
	in   map[int]interface{} // FP offset -> asmReg or *Term
	out  map[int]*Term
	flag int // sign of last compare
}

// 64 bits: either a float64 or two 32 bit lanes
type asmChunk struct {
	d    *Term
	w    [2]*Term // F32 sorted
	isD  bool
	zero bool
}

func (m *asmVM) bad(f string, a ...interface{}) {
	panic(unsupported{"assembly: " + fmt.Sprintf(f, a...)})
}

func (m *asmVM) lane(v, i int) *Term {
	c := &m.v[v][i/2]
	tt := m.ex.tt
	if c.isD {
		b := tt.ToBits(c.d)
		c.w[0] = tt.FromBits(SF32, tt.Extract(b, 0, 32))
		c.w[1] = tt.FromBits(SF32, tt.Extract(b, 32, 32))
		c.isD = false
	}
	if c.w[0] == nil {
		z := tt.F32(0)
		c.w = [2]*Term{z, z}
	}
	return c.w[i%2]
}
func (m *asmVM) setLane(v, i int, t *Term) {
	m.lane(v, i)
	m.v[v][i/2].w[i%2] = t
}
func (m *asmVM) dbl(v, i int) *Term {
	c := m.v[v][i]
	if c.isD {
		return c.d
	}
	tt := m.ex.tt
	lo, hi := tt.ToBits(m.lane(v, 2*i)), tt.ToBits(m.lane(v, 2*i+1))
	b := tt.Bin(OBOr, tt.ZExt(lo, 64), tt.Bin(OShl, tt.ZExt(hi, 64), tt.Int(32)))
	return tt.FromBits(SF64, b)
}
func (m *asmVM) setDbl(v, i int, t *Term) { m.v[v][i] = asmChunk{d: t, isD: true} }
func (m *asmVM) clearUpper(v int) {
	m.v[v][2], m.v[v][3] = asmChunk{}, asmChunk{}
}

// addresses
type asmAddr struct {
	fp  bool
	off int64
	reg asmReg
}

var reFP = regexp.MustCompile(`^\w*\+(\d+)\(FP\)$`)
var reSB = regexp.MustCompile(`^·?(\w+)(?:<>)?(?:\+(\w+))?\(SB\)$`)
var reMem = regexp.MustCompile(`^([-+\w*() ]*?)\((\w+)\)(?:\((\w+)\*(\d+)\))?$`)

func (m *asmVM) addr(s string) (asmAddr, bool) {
	if x := reFP.FindStringSubmatch(s); x != nil {
		o, _ := strconv.Atoi(x[1])
		return asmAddr{fp: true, off: int64(o)}, true
	}
	if x := reSB.FindStringSubmatch(s); x != nil {
		o, _ := strconv.ParseInt(x[2], 0, 64)
		return asmAddr{reg: asmReg{data: x[1], off: o}}, true
	}
	if x := reMem.FindStringSubmatch(s); x != nil && x[2] != "FP" && x[2] != "SB" {
		r, ok := m.r[x[2]]
		if !ok {
			return asmAddr{}, false
		}
		if x[1] != "" {
			r.off += m.imm(x[1])
		}
		if x[3] != "" {
			k, _ := strconv.Atoi(x[4])
			r.off += m.r[x[3]].off * int64(k)
		}
		return asmAddr{reg: r}, true
	}
	return asmAddr{}, false
}

// constant expressions: numbers, + - * << ( )
func (m *asmVM) imm(s string) int64 {
	s = strings.ReplaceAll(strings.TrimPrefix(s, "$"), " ", "")
	pos := 0
	var expr func() int64
	prim := func() int64 {
		if pos < len(s) && s[pos] == '(' {
			pos++
			v := expr()
			pos++
			return v
		}
		b := pos
		if pos < len(s) && (s[pos] == '-' || s[pos] == '+') {
			pos++
		}
		for pos < len(s) && (s[pos] >= '0' && s[pos] <= '9' || s[pos] == 'x' || s[pos] >= 'a' && s[pos] <= 'f' || s[pos] >= 'A' && s[pos] <= 'F') {
			pos++
		}
		v, err := strconv.ParseInt(s[b:pos], 0, 64)
		if err != nil {
			m.bad("immediate %s", s)
		}
		return v
	}
	mul := func() int64 {
		v := prim()
		for pos < len(s) {
			if s[pos] == '*' {
				pos++
				v *= prim()
			} else if strings.HasPrefix(s[pos:], "<<") {
				pos += 2
				v <<= uint(prim())
			} else {
				break
			}
		}
		return v
	}
	expr = func() int64 {
		v := mul()
		for pos < len(s) && (s[pos] == '+' || s[pos] == '-' || s[pos] == '|') {
			c := s[pos]
			pos++
			w := mul()
			switch c {
			case '+':
				v += w
			case '-':
				v -= w
			default:
				v |= w
			}
		}
		return v
	}
	v := expr()
	if pos != len(s) {
		m.bad("immediate %s", s)
	}
	return v
}

// load32 reads 4 bytes as F32
func (m *asmVM) load32(a asmAddr, k int) *Term {
	tt := m.ex.tt
	if a.fp {
		t, ok := m.in[int(a.off)+4*k].(*Term)
		if !ok {
			m.bad("FP load at %d", a.off)
		}
		return t
	}
	r := a.reg
	o := r.off + int64(4*k)
	if r.data != "" {
		d := m.p.data[r.data]
		if o%4 != 0 {
			m.bad("unaligned data access")
		}
		if o < 0 || int(o/4) >= len(d) {
			return m.wild()
		}
		return tt.FBits(SF32, uint64(d[o/4]))
	}
	if r.obj == 0 {
		m.bad("load through integer")
	}
	if o%4 != 0 {
		m.bad("unaligned access")
	}
	ob := m.st.obj(r.obj)
	if o < 0 || int(o/4) >= ob.n {
		return m.wild()
	}
	m.ex.access(m.st, r.obj, int(o/4), false)
	t, ok := ob.get(int(o / 4)).(*Term)
	if !ok || t.sort != SF32 {
		m.bad("non float32 memory")
	}
	return t
}

// memory outside of the object: anything
func (m *asmVM) wild() *Term {
	m.ex.nfresh++
	return m.ex.tt.FromBits(SF32, m.ex.tt.Var(fmt.Sprintf("wild!%d", m.ex.nfresh), BV(32), 0, 0, false))
}
func (m *asmVM) store32(a asmAddr, k int, t *Term) {
	if a.fp {
		m.out[int(a.off)+4*k] = t
		return
	}
	r := a.reg
	o := r.off + int64(4*k)
	if r.obj == 0 || o%4 != 0 {
		m.bad("store")
	}
	ob := m.st.obj(r.obj)
	if o < 0 || int(o/4) >= ob.n {
		// memory corruption outside of any known object; not observable here
		m.ex.Unsupported["assembly store outside of its object"]++
		return
	}
	m.ex.access(m.st, r.obj, int(o/4), true)
	m.st.set(r.obj, int(o/4), t)
}

func vreg(s string) (int, int, bool) { // index, lanes
	if len(s) >= 2 && (s[0] == 'X' || s[0] == 'Y') {
		n, err := strconv.Atoi(s[1:])
		if err == nil && n < 16 {
			if s[0] == 'X' {
				return n, 4, true
			}
			return n, 8, true
		}
	}
	return 0, 0, false
}

// operand: n 32 bit lanes of a register or memory
func (m *asmVM) lanes(s string, n int) []*Term {
	out := make([]*Term, n)
	if v, _, ok := vreg(s); ok {
		for i := range out {
			out[i] = m.lane(v, i)
		}
		return out
	}
	a, ok := m.addr(s)
	if !ok {
		m.bad("operand %s", s)
	}
	for i := range out {
		out[i] = m.load32(a, i)
	}
	return out
}
func (m *asmVM) dbls(s string, n int) []*Term {
	out := make([]*Term, n)
	v, _, ok := vreg(s)
	if !ok {
		m.bad("double operand %s", s)
	}
	for i := range out {
		out[i] = m.dbl(v, i)
	}
	return out
}
func (m *asmVM) setLanes(s string, ts []*Term, zeroUpper bool) {
	v, _, ok := vreg(s)
	if !ok {
		m.bad("dest %s", s)
	}
	for i, t := range ts {
		m.setLane(v, i, t)
	}
	if zeroUpper && len(ts) <= 4 {
		m.clearUpper(v)
	}
}
func (m *asmVM) setDbls(s string, ts []*Term, zeroUpper bool) {
	v, _, ok := vreg(s)
	if !ok {
		m.bad("dest %s", s)
	}
	for i, t := range ts {
		m.setDbl(v, i, t)
	}
	if zeroUpper && len(ts) <= 2 {
		m.clearUpper(v)
	}
}

func (m *asmVM) gval(s string) asmReg {
	if strings.HasPrefix(s, "$") {
		return asmReg{off: m.imm(s)}
	}
	if r, ok := m.r[s]; ok {
		return r
	}
	if a, ok := m.addr(s); ok && a.fp {
		if r, ok := m.in[int(a.off)].(asmReg); ok {
			return r
		}
	}
	m.bad("integer operand %s", s)
	return asmReg{}
}

func (m *asmVM) bitop(op Op, a, b *Term) *Term {
	tt := m.ex.tt
	x, y := tt.ToBits(a), tt.ToBits(b)
	if op == OBAnd {
		// keep floating point structure for the usual masks
		for k := 0; k < 2; k++ {
			if x.IsConst() {
				switch uint32(x.val) {
				case 0xffffffff:
					return b
				case 0:
					return tt.F32(0)
				case 0x7fffffff:
					return tt.FAbs(b)
				}
			}
			x, y, a, b = y, x, b, a
		}
	}
	return tt.FromBits(SF32, tt.Bin(op, x, y))
}

func (ex *Exec) callAsm(st *State, fn *ssa.Function, args []Value) (Value, bool) {
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), ex.mod) {
		return nil, false
	}
	dir := filepath.Dir(ex.prog.Fset.Position(fn.Pos()).Filename)
	p, ok := ex.asm[dir]
	if !ok {
		p = parseAsmDir(dir)
		if ex.asm == nil {
			ex.asm = map[string]*asmPkg{}
		}
		ex.asm[dir] = p
	}
	f := p.funcs[fn.Name()]
	if f == nil {
		return nil, false
	}
	if p.err != "" {
		panic(unsupported{"assembly: " + p.err})
	}
	m := &asmVM{ex: ex, st: st, p: p, r: map[string]asmReg{}, in: map[int]interface{}{}, out: map[int]*Term{}}
	// arguments
	off := 0
	align := func(n int) { off = (off + n - 1) / n * n }
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		switch t := sig.Params().At(i).Type().Underlying().(type) {
		case *types.Slice:
			align(8)
			s := args[i].(Slice)
			if s.es != 1 && s.obj != 0 {
				m.bad("slice element size")
			}
			m.in[off], m.in[off+8], m.in[off+16] = asmReg{obj: s.obj, off: int64(4 * s.off)}, asmReg{off: int64(s.len)}, asmReg{off: int64(s.cap)}
			off += 24
		case *types.Basic:
			switch t.Kind() {
			case types.Float32:
				align(4)
				m.in[off] = args[i].(*Term)
				off += 4
			case types.Int64, types.Int, types.Uint64, types.Uintptr:
				align(8)
				m.in[off] = asmReg{off: int64(st.concretize(args[i].(*Term)))}
				off += 8
			default:
				m.bad("parameter type %s", t)
			}
		default:
			m.bad("parameter type %s", t)
		}
	}
	align(8)
	type ro struct {
		off int
		s   Sort
	}
	var ros []ro
	for i := 0; i < sig.Results().Len(); i++ {
		s, ok := ex.sortOf(sig.Results().At(i).Type())
		if !ok || !s.IsFloat() {
			m.bad("result type")
		}
		if s == SF32 {
			align(4)
			ros = append(ros, ro{off, s})
			off += 4
		} else {
			align(8)
			ros = append(ros, ro{off, s})
			off += 8
		}
	}
	ex.called[fn] = true
	m.exec(f)
	var res Tuple
	for _, r := range ros {
		t := m.out[r.off]
		if t == nil || t.sort != r.s {
			m.bad("result not stored")
		}
		res = append(res, t)
	}
	if len(res) == 1 {
		return res[0], true
	}
	return res, true
}

func (m *asmVM) exec(f *asmFunc) {
	tt := m.ex.tt
	pc := 0
	jmp := func(l string) {
		t, ok := f.labels[l]
		if !ok {
			m.bad("label %s", l)
		}
		pc = t
	}
	width := func(s string) int {
		_, n, ok := vreg(s)
		if !ok {
			m.bad("register %s", s)
		}
		return n
	}
	var ca, cb asmReg
	for steps := 0; ; steps++ {
		if steps > 2000000 {
			m.bad("step limit")
		}
		if pc >= len(f.ins) {
			m.bad("fell off the end")
		}
		in := f.ins[pc]
		pc++
		a := in.args
		op := in.op
		// three operand vector float ops: VOPPS src2, src1, dst
		vop := strings.HasPrefix(op, "V")
		core := strings.TrimPrefix(op, "V")
		switch core {
		case "ADDPS", "SUBPS", "MULPS", "DIVPS", "MINPS", "MAXPS", "ANDPS", "XORPS", "ORPS", "ANDPD", "XORPD", "ORPD", "PXOR", "PAND":
			dst := a[len(a)-1]
			n := width(dst)
			if !vop {
				n = 4
			}
			s2 := m.lanes(a[0], n)
			s1 := m.lanes(a[1], n)
			out := make([]*Term, n)
			for i := range out {
				x, y := s1[i], s2[i]
				switch core {
				case "ADDPS":
					out[i] = tt.FBin(OFAdd, x, y)
				case "SUBPS":
					out[i] = tt.FBin(OFSub, x, y)
				case "MULPS":
					out[i] = tt.FBin(OFMul, x, y)
				case "DIVPS":
					out[i] = tt.FBin(OFDiv, x, y)
				case "MINPS":
					out[i] = tt.Ite(tt.FLt(x, y), x, y)
				case "MAXPS":
					out[i] = tt.Ite(tt.FLt(y, x), x, y)
				case "ANDPS", "ANDPD", "PAND":
					out[i] = m.bitop(OBAnd, x, y)
				case "XORPS", "XORPD", "PXOR":
					if a[0] == a[1] {
						out[i] = tt.F32(0)
					} else {
						out[i] = m.bitop(OBXor, x, y)
					}
				default:
					out[i] = m.bitop(OBOr, x, y)
				}
			}
			m.setLanes(dst, out, vop)
			continue
		case "ADDPD", "SUBPD", "MULPD", "DIVPD":
			dst := a[len(a)-1]
			n := width(dst) / 2
			if !vop {
				n = 2
			}
			s2, s1 := m.dbls(a[0], n), m.dbls(a[1], n)
			out := make([]*Term, n)
			o := map[string]Op{"ADDPD": OFAdd, "SUBPD": OFSub, "MULPD": OFMul, "DIVPD": OFDiv}[core]
			for i := range out {
				out[i] = tt.FBin(o, s1[i], s2[i])
			}
			m.setDbls(dst, out, vop)
			continue
		case "ADDSD", "SUBSD", "MULSD", "DIVSD":
			if vop {
				m.bad("%s", op)
			}
			o := map[string]Op{"ADDSD": OFAdd, "SUBSD": OFSub, "MULSD": OFMul, "DIVSD": OFDiv}[core]
			m.setDbls(a[1], []*Term{tt.FBin(o, m.dbls(a[1], 1)[0], m.dbls(a[0], 1)[0])}, false)
			continue
		case "ADDSS", "SUBSS", "MULSS", "DIVSS", "MINSS", "MAXSS":
			if vop {
				m.bad("%s", op)
			}
			x, y := m.lanes(a[1], 1)[0], m.lanes(a[0], 1)[0]
			var r *Term
			switch core {
			case "MINSS":
				r = tt.Ite(tt.FLt(x, y), x, y)
			case "MAXSS":
				r = tt.Ite(tt.FLt(y, x), x, y)
			default:
				o := map[string]Op{"ADDSS": OFAdd, "SUBSS": OFSub, "MULSS": OFMul, "DIVSS": OFDiv}[core]
				r = tt.FBin(o, x, y)
			}
			m.setLanes(a[1], []*Term{r}, false)
			continue
		case "MOVUPS", "MOVAPS", "MOVUPD", "MOVAPD":
			if v, n, ok := vreg(a[1]); ok {
				if !vop {
					n = 4
				}
				if s, _, ok := vreg(a[0]); ok {
					for i := 0; i < n/2; i++ {
						m.v[v][i] = m.v[s][i]
					}
					if vop && n == 4 {
						m.clearUpper(v)
					}
				} else {
					m.setLanes(a[1], m.lanes(a[0], n), vop)
				}
			} else {
				ad, ok := m.addr(a[1])
				if !ok {
					m.bad("%v", in)
				}
				for i, t := range m.lanes(a[0], width(a[0])) {
					m.store32(ad, i, t)
				}
			}
			continue
		case "FMADD231PS", "FMADD213PS", "FMADD132PS":
			n := width(a[2])
			x, y, d := m.lanes(a[0], n), m.lanes(a[1], n), m.lanes(a[2], n)
			out := make([]*Term, n)
			for i := range out {
				switch core {
				case "FMADD231PS":
					out[i] = m.fma(y[i], x[i], d[i])
				case "FMADD213PS":
					out[i] = m.fma(y[i], d[i], x[i])
				default:
					out[i] = m.fma(d[i], x[i], y[i])
				}
			}
			m.setLanes(a[2], out, true)
			continue
		}
		switch op {
		case "VPERMPS":
			src, idx := m.lanes(a[0], 8), m.lanes(a[1], 8)
			out := make([]*Term, 8)
			for i := range out {
				b := tt.ToBits(idx[i])
				if !b.IsConst() {
					m.bad("symbolic permutation")
				}
				out[i] = src[b.val&7]
			}
			m.setLanes(a[2], out, true)
		case "VPERMILPS":
			k := m.imm(a[0])
			n := width(a[2])
			src := m.lanes(a[1], n)
			out := make([]*Term, n)
			for i := range out {
				out[i] = src[i&^3+int(k>>uint(2*(i&3)))&3]
			}
			m.setLanes(a[2], out, true)
		case "VPERMILPD":
			k := m.imm(a[0])
			n := width(a[2]) / 2
			src := m.dbls(a[1], n)
			out := make([]*Term, n)
			for i := range out {
				out[i] = src[i&^1+int(k>>uint(i))&1]
			}
			m.setDbls(a[2], out, true)
		case "VPERM2F128":
			k := m.imm(a[0])
			s2, _, _ := vreg(a[1])
			s1, _, _ := vreg(a[2])
			d, _, _ := vreg(a[3])
			var out [4]asmChunk
			for h := 0; h < 2; h++ {
				sel := int(k>>uint(4*h)) & 15
				if sel&8 != 0 {
					continue
				}
				s := s1
				if sel&2 != 0 {
					s = s2
				}
				out[2*h], out[2*h+1] = m.v[s][2*(sel&1)], m.v[s][2*(sel&1)+1]
			}
			m.v[d] = out
		case "VEXTRACTF128":
			k := int(m.imm(a[0])) & 1
			s, _, _ := vreg(a[1])
			d, _, ok := vreg(a[2])
			if !ok {
				m.bad("%v", in)
			}
			c0, c1 := m.v[s][2*k], m.v[s][2*k+1]
			m.v[d] = [4]asmChunk{c0, c1}
		case "VBROADCASTSS":
			t := m.lanes(a[0], 1)[0]
			n := width(a[1])
			out := make([]*Term, n)
			for i := range out {
				out[i] = t
			}
			m.setLanes(a[1], out, true)
		case "VCVTPS2PD":
			n := width(a[1]) / 2
			src := m.lanes(a[0], n)
			out := make([]*Term, n)
			for i := range out {
				out[i] = tt.FConv(src[i], SF64)
			}
			m.setDbls(a[1], out, true)
		case "CVTSQ2SD":
			r := m.gval(a[0])
			m.setDbls(a[1], []*Term{tt.F64(float64(r.off))}, false)
		case "CVTSD2SS":
			m.setLanes(a[1], []*Term{tt.FConv(m.dbls(a[0], 1)[0], SF32)}, false)
		case "CVTSS2SD":
			m.setDbls(a[1], []*Term{tt.FConv(m.lanes(a[0], 1)[0], SF64)}, false)
		case "VMASKMOVPS":
			n := width(a[1])
			if v, _, ok := vreg(a[2]); ok { // load
				_ = v
				ad, ok2 := m.addr(a[0])
				if !ok2 {
					m.bad("%v", in)
				}
				out := make([]*Term, n)
				for i, mk := range m.lanes(a[1], n) {
					b := tt.ToBits(mk)
					if !b.IsConst() {
						m.bad("symbolic mask")
					}
					out[i] = tt.F32(0)
					if b.val>>31&1 == 1 {
						out[i] = m.load32(ad, i)
					}
				}
				m.setLanes(a[2], out, true)
				break
			}
			ad, ok := m.addr(a[2])
			if !ok {
				m.bad("%v", in)
			}
			src, mk := m.lanes(a[0], n), m.lanes(a[1], n)
			for i := range src {
				b := tt.ToBits(mk[i])
				if !b.IsConst() {
					m.bad("symbolic mask")
				}
				if b.val>>31&1 == 1 {
					m.store32(ad, i, src[i])
				}
			}
		case "MOVSS":
			if v, _, ok := vreg(a[1]); ok {
				if s, _, ok := vreg(a[0]); ok {
					m.setLane(v, 0, m.lane(s, 0))
				} else {
					t := m.lanes(a[0], 1)[0]
					m.v[v][0], m.v[v][1] = asmChunk{}, asmChunk{}
					m.setLane(v, 0, t)
				}
				break
			}
			ad, ok := m.addr(a[1])
			if !ok {
				m.bad("%v", in)
			}
			m.store32(ad, 0, m.lanes(a[0], 1)[0])
		case "MOVSD":
			ad, ok := m.addr(a[1])
			if !ok || !ad.fp {
				m.bad("%v", in)
			}
			m.out[int(ad.off)] = m.dbls(a[0], 1)[0]
		case "MOVQ":
			m.r[a[1]] = m.gval(a[0])
		case "LEAQ":
			ad, ok := m.addr(a[0])
			if !ok || ad.fp {
				m.bad("%v", in)
			}
			m.r[a[1]] = ad.reg
		case "SHLQ", "SHRQ", "ADDQ", "SUBQ", "INCQ", "DECQ", "XORQ", "ANDQ", "NEGQ", "IMULQ":
			d := a[len(a)-1]
			x := asmReg{off: 1}
			if len(a) == 2 {
				x = m.gval(a[0])
			}
			y := m.r[d]
			isP := func(r asmReg) bool { return r.obj != 0 || r.data != "" }
			switch op {
			case "ADDQ", "INCQ":
				if isP(x) && isP(y) {
					m.bad("%v", in)
				}
				if isP(x) {
					x, y = y, x
				}
				y.off += x.off
			case "SUBQ", "DECQ":
				if isP(x) {
					if x.obj != y.obj || x.data != y.data {
						m.bad("pointer difference")
					}
					y = asmReg{off: y.off - x.off}
				} else {
					y.off -= x.off
				}
			default:
				if op == "XORQ" && len(a) == 2 && a[0] == a[1] {
					y = asmReg{}
					break
				}
				if isP(x) || isP(y) {
					// a dead register (never defined) may hold anything
					m.bad("%v on pointer", in)
				}
				switch op {
				case "SHLQ":
					y.off <<= uint(x.off & 63)
				case "SHRQ":
					y.off = int64(uint64(y.off) >> uint(x.off&63))
				case "XORQ":
					y.off ^= x.off
				case "ANDQ":
					y.off &= x.off
				case "NEGQ":
					y.off = -y.off
				case "IMULQ":
					y.off *= x.off
				}
			}
			m.r[d] = y
			ca, cb = y, asmReg{obj: y.obj, data: y.data}
		case "CMPQ":
			ca, cb = m.gval(a[0]), m.gval(a[1])
		case "TESTQ":
			if a[0] != a[1] {
				m.bad("%v", in)
			}
			ca, cb = m.gval(a[0]), asmReg{}
		case "JMP":
			jmp(a[0])
		case "JL", "JLT", "JGE", "JG", "JGT", "JLE", "JE", "JEQ", "JNE", "JZ", "JNZ", "JLS", "JHI", "JB", "JCS", "JCC", "JAE":
			if ca.obj != cb.obj || ca.data != cb.data {
				m.bad("compare of unrelated pointers")
			}
			var c bool
			switch op {
			case "JL", "JLT", "JB", "JCS":
				c = ca.off < cb.off
			case "JGE", "JCC", "JAE":
				c = ca.off >= cb.off
			case "JG", "JGT", "JHI":
				c = ca.off > cb.off
			case "JLE", "JLS":
				c = ca.off <= cb.off
			case "JE", "JEQ", "JZ":
				c = ca.off == cb.off
			default:
				c = ca.off != cb.off
			}
			if c {
				jmp(a[0])
			}
		case "VZEROUPPER":
			for i := range m.v {
				m.clearUpper(i)
			}
		case "NOP":
		case "RET":
			return
		default:
			m.bad("instruction %s", op)
		}
	}
}

func (m *asmVM) fma(a, b, c *Term) *Term {
	tt := m.ex.tt
	// exact product and sum: no rounding to distinguish
	if p := tt.FBin(OFMul, a, b); p.IsConst() || p.op == ODy || isExactConstMul(a, b) {
		if s := tt.FBin(OFAdd, p, c); s.op == ODy || s.IsConst() || isExactConstMul(a, b) {
			return s
		}
	}
	return tt.mkUFF("uf_fma32", SF32, a, b, c)
}

// multiplication by a small power of two is exact (barring overflow and underflow)
func isExactConstMul(a, b *Term) bool {
	for _, t := range []*Term{a, b} {
		if t.IsConst() {
			switch t.Float() {
			case 1, -1:
				return true
			}
		}
	}
	return false
}

// the implementation selected at run time is the one of this machine
var hostAVX2 = func() bool {
	b, _ := os.ReadFile("/proc/cpuinfo")
	for _, f := range strings.Fields(string(b)) {
		if f == "avx2" {
			return true
		}
	}
	return false
}()
