package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Show prints a term to the given depth
func (tt *TermTable) Show(t *Term, d int) string {
	if t.IsConst() {
		if t.sort.IsFloat() {
			return fmt.Sprintf("%g", t.Float())
		}
		if t.sort.K == KBool {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(t.Signed())
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := fmt.Sprintf("(%d", t.op)
	if t.name != "" {
		s = "(" + t.name
	}
	for _, a := range t.args {
		s += " " + tt.Show(a, d-1)
	}
	return s + ")"
}

func NewExec(prog *ssa.Program, mod string, opt Options, params map[string]int) *Exec {
	ex := &Exec{prog: prog, mod: mod, tt: NewTT(), base: map[int]*Obj{}, globals: map[*ssa.Global]int{}, inited: map[*ssa.Package]int{},
		fninfo: map[*ssa.Function]*FnInfo{}, AssertSites: map[string]int{}, ReachCount: map[string]int{}, Unsupported: map[string]int{},
		called: map[*ssa.Function]bool{}, redirect: map[string]*ssa.Function{}, constCache: map[*ssa.Const]Value{}, typeByName: map[string]types.Type{},
		ctxNames: map[string]bool{}, regexps: map[int]*rxInfo{}, Params: params, opt: opt}
	ex.lay.size = map[types.Type]int{}
	ex.lay.offs = map[*types.Struct][]int{}
	ex.MaxSteps = 30000000
	ex.MaxPaths = 2000000
	ex.nextObj = 0
	ex.Deadline = time.Now().Add(time.Hour)
	ex.tt.UFMode = opt.UF
	ex.tt.AC = opt.AC
	ex.tt.Tab = opt.Tab
	ex.tt.NoZeroSign = opt.NoZeroSign
	q := opt.QTimeout
	if q == 0 {
		q = 20000
	}
	ex.sol = NewSolver(ex.tt, q)
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case "errors":
			if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
				ex.typeByName["errors.errorString"] = o.Type()
			}
		case "fmt":
			if o := p.Pkg.Scope().Lookup("wrapError"); o != nil {
				ex.typeByName["fmt.wrapError"] = o.Type()
			}
		case mod + "/internal/star":
			if f, ok := p.Members["zzModelMinimize"].(*ssa.Function); ok {
				ex.redirect["gonum.org/v1/gonum/optimize.Minimize"] = f
			}
		case mod + "/" + symPkg:
			for n, m := range p.Members {
				if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Model_") {
					if k, ok := modelTargets[n]; ok {
						ex.redirect[k] = f
					}
				}
			}
		}
	}
	ex.setupIntrinsics()
	return ex
}

// standard-library functions replaced by models written in Go (package zzverif)
var modelTargets = map[string]string{
	"Model_os_OpenFile":       "os.OpenFile",
	"Model_os_Open":           "os.Open",
	"Model_os_Create":         "os.Create",
	"Model_os_ReadFile":       "os.ReadFile",
	"Model_os_Remove":         "os.Remove",
	"Model_os_Rename":         "os.Rename",
	"Model_os_MkdirAll":       "os.MkdirAll",
	"Model_os_CreateTemp":     "os.CreateTemp",
	"Model_os_Chmod":          "os.Chmod",
	"Model_file_Write":        "(*os.File).Write",
	"Model_file_WriteString":  "(*os.File).WriteString",
	"Model_file_Read":         "(*os.File).Read",
	"Model_file_Close":        "(*os.File).Close",
	"Model_file_Name":         "(*os.File).Name",
	"Model_file_Sync":         "(*os.File).Sync",
	"Model_file_Truncate":     "(*os.File).Truncate",
	"Model_file_Chmod":        "(*os.File).Chmod",
	"Model_gz_NewWriter":      "compress/gzip.NewWriter",
	"Model_gz_Write":          "(*compress/gzip.Writer).Write",
	"Model_gz_Close":          "(*compress/gzip.Writer).Close",
	"Model_gz_Flush":          "(*compress/gzip.Writer).Flush",
	"Model_gz_NewReader":      "compress/gzip.NewReader",
	"Model_gz_Read":           "(*compress/gzip.Reader).Read",
	"Model_gz_RClose":         "(*compress/gzip.Reader).Close",
	"Model_gz_NewWriterLevel": "compress/gzip.NewWriterLevel",
	"Model_os_WriteFile":      "os.WriteFile",
	"Model_file_Seek":         "(*os.File).Seek",
	"Model_jpeg_Encode":       "image/jpeg.Encode",
	"Model_errors_Is":         "errors.Is",
	"Model_errors_As":         "errors.As",
	"Model_filepath_Glob":     "path/filepath.Glob",
	"Model_rand_Perm":         "math/rand.Perm",
}

// ---- JSON: concrete structure, symbolic leaves ----
// zzverif.JSON(template, vals...) yields text in which the i-th "$" was replaced by a marker
func (ex *Exec) jsonDoc(c *callCtx) Value {
	t := c.args[0].(*Str).s
	vs := c.args[1].(Slice)
	var sb strings.Builder
	k := 0
	for i := 0; i < len(t); i++ {
		if t[i] != '$' {
			sb.WriteByte(t[i])
			continue
		}
		v := c.st.obj(vs.obj).get(vs.off + k).(Iface)
		k++
		if s, ok := v.v.(*Str); ok && s.b == nil {
			b, _ := json.Marshal(s.s)
			sb.Write(b)
			continue
		}
		if tm, ok := v.v.(*Term); ok && tm.IsConst() {
			b, err := json.Marshal(goConst(tm, v.t))
			if err == nil {
				sb.Write(b)
				continue
			}
		}
		ex.jsonVals = append(ex.jsonVals, v)
		sb.WriteString(fmt.Sprintf("\"\\u0001%d\"", len(ex.jsonVals)-1))
	}
	vals := []Value{}
	for _, b := range []byte(sb.String()) {
		vals = append(vals, ex.tt.Const(8, uint64(b)))
	}
	return Slice{obj: c.st.alloc(vals), len: len(vals), cap: len(vals), es: 1}
}

type jsonErr struct{ msg string }

func (ex *Exec) mkError(st *State, msg string) Iface {
	id := st.alloc([]Value{&Str{s: msg}})
	return Iface{ex.ptrTo(ex.typeByName["errors.errorString"]), Ptr{obj: id}}
}

func (ex *Exec) concBytes(st *State, s Slice) ([]byte, bool) {
	b := make([]byte, s.len)
	if s.len == 0 {
		return b, true
	}
	o := st.obj(s.obj)
	for i := range b {
		t, ok := o.get(s.off + i).(*Term)
		if !ok || !t.IsConst() {
			return nil, false
		}
		b[i] = byte(t.val)
	}
	return b, true
}

func (ex *Exec) jsonIntrinsics(m map[string]intrinsic) {
	m["encoding/json.Unmarshal"] = func(c *callCtx) Value {
		data, ok := ex.concBytes(c.st, c.args[0].(Slice))
		if !ok {
			panic(unsupported{"json.Unmarshal of symbolic text"})
		}
		dst := c.args[1].(Iface)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported{"json.Unmarshal into non-pointer"})
		}
		p := dst.v.(Ptr)
		if !json.Valid(data) {
			return ex.mkError(c.st, "invalid character in JSON")
		}
		var steps []jsonStep
		if e := ex.jsonPlan(c.st, data, p, pt.Elem(), &steps, true); e != "" {
			return ex.mkError(c.st, e)
		}
		// perform leaf stores; custom unmarshalers are called through a continuation chain
		return ex.jsonRun(c, steps, 0)
	}
	marshal := func(indent bool) intrinsic {
		return func(c *callCtx) Value {
			v := c.args[0].(Iface)
			if v.t == nil {
				return ex.jsonText(c.st, []byte("null"))
			}
			var pieces []jsonPiece
			if e := ex.jsonEncode(c.st, v.v, v.t, &pieces); e != "" {
				return Tuple{Slice{}, ex.mkError(c.st, e)}
			}
			pre, ind := "", ""
			if indent {
				pre, ind = c.str(1), c.str(2)
			}
			return ex.jsonJoin(c, pieces, 0, nil, indent, pre, ind)
		}
	}
	m["encoding/json.Marshal"] = marshal(false)
	m["encoding/json.MarshalIndent"] = marshal(true)
	m["(encoding/json.RawMessage).String"] = func(c *callCtx) Value { return emptyStr }
}

// ---- json.Marshal: text with markers for symbolic leaves; custom marshalers run through a continuation chain ----
type jsonPiece struct {
	text string
	fn   *ssa.Function // custom MarshalJSON
	recv Value
}

func (ex *Exec) jsonText(st *State, b []byte) Value {
	vals := make([]Value, len(b))
	for i, x := range b {
		vals[i] = ex.tt.Const(8, uint64(x))
	}
	return Tuple{Slice{obj: st.alloc(vals), len: len(vals), cap: len(vals), es: 1}, Iface{}}
}

func (ex *Exec) jsonJoin(c *callCtx, pieces []jsonPiece, k int, done []byte, indent bool, pre, ind string) Value {
	st := c.st
	for k < len(pieces) {
		s := pieces[k]
		k++
		if s.fn == nil {
			done = append(append([]byte{}, done...), s.text...)
			continue
		}
		ex.pushFrame(st, s.fn, []Value{s.recv}, nil, nil)
		call, kk, sofar := c.call, k, done
		st.top().after = func(s2 *State, ret Value) {
			t := ret.(Tuple)
			e, _ := t[1].(Iface)
			var r Value
			if e.t != nil {
				r = Tuple{Slice{}, e}
			} else {
				b, ok := ex.concBytes(s2, t[0].(Slice))
				if !ok {
					panic(unsupported{"MarshalJSON yields symbolic text"})
				}
				var buf bytes.Buffer
				if json.Compact(&buf, b) != nil {
					r = Tuple{Slice{}, ex.mkError(s2, "json: error calling MarshalJSON")}
				} else {
					r = ex.jsonJoin(&callCtx{ex: ex, st: s2, call: call}, pieces, kk, append(append([]byte{}, sofar...), buf.Bytes()...), indent, pre, ind)
					if r == nil {
						return
					}
				}
			}
			if call != nil && len(s2.th().frames) > 0 {
				ex.setReg(s2.top(), call, r)
			}
		}
		return nil
	}
	if indent {
		var buf bytes.Buffer
		json.Indent(&buf, done, pre, ind)
		done = buf.Bytes()
	}
	return ex.jsonText(st, done)
}

func (ex *Exec) jsonEncode(st *State, v Value, t types.Type, out *[]jsonPiece) string {
	emit := func(s string) { *out = append(*out, jsonPiece{text: s}) }
	if t.String() == "encoding/json.RawMessage" {
		sl := v.(Slice)
		if sl.obj == 0 {
			emit("null")
			return ""
		}
		b, ok := ex.concBytes(st, sl)
		if !ok {
			panic(unsupported{"RawMessage of symbolic text"})
		}
		emit(string(b))
		return ""
	}
	if p, ok := v.(Ptr); ok {
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr && p.obj == 0 {
			emit("null")
			return ""
		}
	}
	if sel := ex.prog.MethodSets.MethodSet(t).Lookup(nil, "MarshalJSON"); sel != nil {
		if _, isIf := t.Underlying().(*types.Interface); !isIf {
			*out = append(*out, jsonPiece{fn: ex.prog.MethodValue(sel), recv: v})
			return ""
		}
	}
	if sel := ex.prog.MethodSets.MethodSet(t).Lookup(nil, "MarshalText"); sel != nil {
		panic(unsupported{"json.Marshal with MarshalText"})
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return ex.jsonEncodeAt(st, v.(Ptr), u.Elem(), out)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			emit("null")
			return ""
		}
		return ex.jsonEncode(st, i.v, i.t, out)
	case *types.Struct, *types.Array:
		id := st.alloc(append([]Value{}, v.(Agg)...))
		return ex.jsonEncodeAt(st, Ptr{obj: id}, t, out)
	case *types.Slice:
		sl := v.(Slice)
		if sl.obj == 0 {
			emit("null")
			return ""
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			panic(unsupported{"json.Marshal of bytes"})
		}
		emit("[")
		for i := 0; i < sl.len; i++ {
			if i > 0 {
				emit(",")
			}
			if e := ex.jsonEncodeAt(st, Ptr{obj: sl.obj, off: sl.off + i*sl.es}, u.Elem(), out); e != "" {
				return e
			}
		}
		emit("]")
		return ""
	case *types.Basic:
		if s, ok := v.(*Str); ok && s.b == nil {
			if s.opaque {
				panic(unsupported{"json.Marshal of opaque text"})
			}
			b, _ := json.Marshal(s.s)
			emit(string(b))
			return ""
		}
		if tm, ok := v.(*Term); ok && tm.IsConst() {
			b, err := json.Marshal(goConst(tm, t))
			if err != nil {
				return err.Error()
			}
			emit(string(b))
			return ""
		}
		ex.jsonVals = append(ex.jsonVals, Iface{t, v})
		emit(fmt.Sprintf("\"\\u0001%d\"", len(ex.jsonVals)-1))
		return ""
	case *types.Signature, *types.Chan:
		return "json: unsupported type: " + t.String()
	}
	panic(unsupported{"json.Marshal of " + t.String()})
}

// jsonEncodeAt encodes the addressable value at p
func (ex *Exec) jsonEncodeAt(st *State, p Ptr, t types.Type, out *[]jsonPiece) string {
	if sel := ex.prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(nil, "MarshalJSON"); sel != nil && t.String() != "encoding/json.RawMessage" {
		if _, isIf := t.Underlying().(*types.Interface); !isIf {
			*out = append(*out, jsonPiece{fn: ex.prog.MethodValue(sel), recv: p})
			return ""
		}
	}
	emit := func(s string) { *out = append(*out, jsonPiece{text: s}) }
	switch u := t.Underlying().(type) {
	case *types.Struct:
		emit("{")
		n := 0
		e := ex.jsonFields(st, p, u, u, &n, out)
		emit("}")
		return e
	case *types.Array:
		emit("[")
		es := ex.slots(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			if i > 0 {
				emit(",")
			}
			if e := ex.jsonEncodeAt(st, Ptr{obj: p.obj, off: p.off + i*es}, u.Elem(), out); e != "" {
				return e
			}
		}
		emit("]")
		return ""
	}
	return ex.jsonEncode(st, ex.load(st, p, t), t, out)
}

func (ex *Exec) jsonFields(st *State, p Ptr, u, root *types.Struct, n *int, out *[]jsonPiece) string {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		parts := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")
		name := parts[0]
		if name == "-" && len(parts) == 1 {
			continue
		}
		q := p
		q.off += ex.fieldOff(u, i)
		if f.Anonymous() && name == "" {
			if es, ok := f.Type().Underlying().(*types.Struct); ok {
				if e := ex.jsonFields(st, q, es, root, n, out); e != "" {
					return e
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		omitEmpty := false
		for _, o := range parts[1:] {
			if o != "omitempty" {
				panic(unsupported{"json.Marshal with options " + strings.Join(parts, ",")})
			}
			omitEmpty = true
		}
		if name == "" {
			name = f.Name()
		}
		if ex.jsonDepthOwner(root, name) != u { // hidden by a field of the same name further out
			continue
		}
		b, _ := json.Marshal(name)
		var val []jsonPiece
		if e := ex.jsonEncodeAt(st, q, f.Type(), &val); e != "" {
			return e
		}
		if omitEmpty {
			text, symbolic := "", false
			for _, v := range val {
				text += v.text
				symbolic = symbolic || v.fn != nil || strings.Contains(v.text, "\\u0001")
			}
			empty := ""
			switch u := f.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
				empty = "null"
			case *types.Slice:
				empty = "null []"
			case *types.Map:
				empty = "null {}"
			case *types.Basic:
				if symbolic {
					tm, ok := ex.load(st, q, f.Type()).(*Term)
					if !ok {
						panic(unsupported{"json.Marshal with omitempty on a symbolic value"})
					}
					zero := tm
					switch {
					case u.Info()&types.IsFloat != 0:
						zero = ex.tt.FEq(tm, ex.tt.FConst(tm.sort, 0))
					case u.Info()&types.IsBoolean != 0:
						zero = ex.tt.Not(tm)
					default:
						zero = ex.tt.Eq(tm, ex.tt.Const(int(tm.sort.W), 0))
					}
					if st.decide(zero) {
						continue
					}
				}
				empty = map[bool]string{true: `""`, false: "0 -0 false"}[u.Info()&types.IsString != 0]
			}
			if !symbolic && text != "" && strings.Contains(" "+empty+" ", " "+text+" ") {
				continue
			}
		}
		if *n > 0 {
			*out = append(*out, jsonPiece{text: ","})
		}
		*n++
		*out = append(*out, jsonPiece{text: string(b) + ":"})
		*out = append(*out, val...)
	}
	return ""
}

// jsonDepthOwner: the (embedded) struct which provides the field of the given name
func (ex *Exec) jsonDepthOwner(s *types.Struct, name string) *types.Struct {
	for i := 0; i < s.NumFields(); i++ {
		tag := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0]
		if tag == name || tag == "" && s.Field(i).Name() == name && !s.Field(i).Anonymous() {
			return s
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if es, ok := s.Field(i).Type().Underlying().(*types.Struct); ok && s.Field(i).Anonymous() {
			if r := ex.jsonDepthOwner(es, name); r != nil {
				return r
			}
		}
	}
	return nil
}

type jsonStep struct {
	p    Ptr
	v    Value
	fn   *ssa.Function // custom UnmarshalJSON
	data []byte
}

func (ex *Exec) jsonRun(c *callCtx, steps []jsonStep, k int) Value {
	st := c.st
	for k < len(steps) {
		s := steps[k]
		k++
		if s.fn == nil {
			ex.store(st, s.p, s.v)
			continue
		}
		vals := make([]Value, len(s.data))
		for i, b := range s.data {
			vals[i] = ex.tt.Const(8, uint64(b))
		}
		sl := Slice{obj: st.alloc(vals), len: len(vals), cap: len(vals), es: 1}
		ex.pushFrame(st, s.fn, []Value{s.p, sl}, nil, nil)
		call := c.call
		kk := k
		st.top().after = func(s2 *State, ret Value) {
			e, _ := ret.(Iface)
			var r Value = e
			if e.t == nil {
				r = ex.jsonRun(&callCtx{ex: ex, st: s2, call: call}, steps, kk)
				if r == nil {
					return
				}
			}
			if call != nil && len(s2.th().frames) > 0 {
				ex.setReg(s2.top(), call, r)
			}
		}
		return nil
	}
	return Iface{}
}

func (ex *Exec) jsonPlan(st *State, data []byte, p Ptr, t types.Type, out *[]jsonStep, top bool) string {
	tt := ex.tt
	txt := strings.TrimSpace(string(data))
	// custom unmarshaler on *T
	if ms := ex.prog.MethodSets.MethodSet(types.NewPointer(t)); txt != "null" || true {
		if sel := ms.Lookup(nil, "UnmarshalJSON"); sel != nil {
			fn := ex.prog.MethodValue(sel)
			if fn != nil && t.String() != "encoding/json.RawMessage" {
				*out = append(*out, jsonStep{p: p, fn: fn, data: []byte(txt)})
				return ""
			}
		}
	}
	if t.String() == "encoding/json.RawMessage" {
		vals := make([]Value, len(txt))
		for i := range vals {
			vals[i] = tt.Const(8, uint64(txt[i]))
		}
		*out = append(*out, jsonStep{p: p, v: Slice{obj: st.alloc(vals), len: len(vals), cap: len(vals), es: 1}})
		return ""
	}
	if txt == "null" {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			*out = append(*out, jsonStep{p: p, v: ex.zeroLeaf(t)})
		}
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var mp map[string]json.RawMessage
		if json.Unmarshal([]byte(txt), &mp) != nil {
			return "json: cannot unmarshal into Go struct"
		}
		// preserve document order
		dec := json.NewDecoder(strings.NewReader(txt))
		dec.Token()
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return err.Error()
			}
			var raw json.RawMessage
			if dec.Decode(&raw) != nil {
				return "bad json"
			}
			fp, ft, ok := ex.jsonField(u, p, k.(string))
			if !ok {
				continue
			}
			if e := ex.jsonPlan(st, raw, fp, ft, out, false); e != "" {
				return e
			}
		}
		return ""
	case *types.Pointer:
		cur := ex.load(st, p, t).(Ptr)
		if cur.obj == 0 {
			cur = Ptr{obj: st.alloc(ex.zeroFlat(u.Elem(), nil))}
			*out = append(*out, jsonStep{p: p, v: cur})
		}
		return ex.jsonPlan(st, data, cur, u.Elem(), out, false)
	case *types.Slice, *types.Array:
		var arr []json.RawMessage
		if json.Unmarshal([]byte(txt), &arr) != nil {
			return "json: cannot unmarshal into Go array"
		}
		if ar, ok := u.(*types.Array); ok {
			es := ex.slots(ar.Elem())
			for i, raw := range arr {
				if int64(i) >= ar.Len() {
					break
				}
				q := p
				q.off += i * es
				if e := ex.jsonPlan(st, raw, q, ar.Elem(), out, false); e != "" {
					return e
				}
			}
			for i := len(arr); i < int(ar.Len()); i++ {
				q := p
				q.off += i * es
				*out = append(*out, jsonStep{p: q, v: ex.zero(ar.Elem())})
			}
			return ""
		}
		et := u.(*types.Slice).Elem()
		sl := ex.makeSlice(st, et, len(arr), len(arr))
		*out = append(*out, jsonStep{p: p, v: sl})
		for i, raw := range arr {
			if e := ex.jsonPlan(st, raw, Ptr{obj: sl.obj, off: i * sl.es}, et, out, false); e != "" {
				return e
			}
		}
		return ""
	case *types.Basic:
		var s string
		if json.Unmarshal([]byte(txt), &s) == nil {
			if strings.HasPrefix(s, "\x01") {
				var k int
				fmt.Sscanf(s[1:], "%d", &k)
				v := ex.jsonVals[k]
				if !types.Identical(v.t.Underlying(), t.Underlying()) {
					panic(unsupported{"json leaf type mismatch " + v.t.String() + " / " + t.String()})
				}
				*out = append(*out, jsonStep{p: p, v: v.v})
				return ""
			}
			if u.Info()&types.IsString == 0 {
				return "json: cannot unmarshal string into Go value of type " + t.String()
			}
			*out = append(*out, jsonStep{p: p, v: &Str{s: s}})
			return ""
		}
		// decode natively with the right Go type
		var rt reflect.Type
		switch u.Kind() {
		case types.Bool:
			rt = reflect.TypeOf(false)
		case types.Int:
			rt = reflect.TypeOf(int(0))
		case types.Int8:
			rt = reflect.TypeOf(int8(0))
		case types.Int16:
			rt = reflect.TypeOf(int16(0))
		case types.Int32:
			rt = reflect.TypeOf(int32(0))
		case types.Int64:
			rt = reflect.TypeOf(int64(0))
		case types.Uint8:
			rt = reflect.TypeOf(uint8(0))
		case types.Uint16:
			rt = reflect.TypeOf(uint16(0))
		case types.Uint32:
			rt = reflect.TypeOf(uint32(0))
		case types.Uint64, types.Uint:
			rt = reflect.TypeOf(uint64(0))
		case types.Float32:
			rt = reflect.TypeOf(float32(0))
		case types.Float64:
			rt = reflect.TypeOf(float64(0))
		default:
			return "json: cannot unmarshal number into Go value of type " + t.String()
		}
		rv := reflect.New(rt)
		if err := json.Unmarshal([]byte(txt), rv.Interface()); err != nil {
			return err.Error()
		}
		e := rv.Elem()
		var v Value
		switch {
		case rt.Kind() == reflect.Bool:
			v = tt.Bool(e.Bool())
		case e.CanInt():
			v = tt.Const(int(rt.Size())*8, uint64(e.Int()))
		case e.CanUint():
			v = tt.Const(int(rt.Size())*8, e.Uint())
		case rt.Kind() == reflect.Float32:
			v = tt.F32(float32(e.Float()))
		default:
			v = tt.F64(e.Float())
		}
		*out = append(*out, jsonStep{p: p, v: v})
		return ""
	case *types.Map:
		panic(unsupported{"json into map"})
	case *types.Interface:
		return "json: cannot unmarshal object into Go value of type " + t.String()
	}
	panic(unsupported{"json into " + t.String()})
}

// jsonField resolves a key among the struct's (and embedded structs') fields
func (ex *Exec) jsonField(s *types.Struct, p Ptr, key string) (Ptr, types.Type, bool) {
	try := func(fold bool) (Ptr, types.Type, bool) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			name := strings.Split(tag, ",")[0]
			if name == "-" || !f.Exported() || f.Anonymous() && name == "" {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			if name == key || fold && strings.EqualFold(name, key) {
				q := p
				q.off += ex.fieldOff(s, i)
				return q, f.Type(), true
			}
		}
		return Ptr{}, nil, false
	}
	if q, t, ok := try(false); ok {
		return q, t, true
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Anonymous() || strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0] != "" {
			continue
		}
		if es, ok := f.Type().Underlying().(*types.Struct); ok {
			q := p
			q.off += ex.fieldOff(s, i)
			if r, t, ok := ex.jsonField(es, q, key); ok {
				return r, t, true
			}
		}
	}
	return try(true)
}

// ---- regular expressions over symbolic bytes ----
type rxInfo struct {
	src   string
	prog  *syntax.Prog
	names []string
	ncap  int
}

func (ex *Exec) regexIntrinsics(m map[string]intrinsic) {
	mk := func(c *callCtx) (Ptr, bool) {
		src := c.str(0)
		re, err := syntax.Parse(src, syntax.Perl)
		if err != nil {
			return Ptr{}, false
		}
		names := re.CapNames()
		pr, err := syntax.Compile(re.Simplify())
		if err != nil {
			return Ptr{}, false
		}
		pt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		id := c.st.alloc(ex.zeroFlat(pt, nil))
		ex.regexps[id] = &rxInfo{src: src, prog: pr, names: names, ncap: len(names)}
		return Ptr{obj: id}, true
	}
	m["regexp.MustCompile"] = func(c *callCtx) Value {
		p, ok := mk(c)
		if !ok {
			panic(goPanic{msg: "regexp: Compile"})
		}
		return p
	}
	m["regexp.Compile"] = func(c *callCtx) Value {
		p, ok := mk(c)
		if !ok {
			return Tuple{Ptr{}, ex.mkError(c.st, "regexp")}
		}
		return Tuple{p, Iface{}}
	}
	get := func(c *callCtx) *rxInfo {
		r := ex.regexps[c.args[0].(Ptr).obj]
		if r == nil {
			panic(unsupported{"unknown regexp"})
		}
		return r
	}
	m["(*regexp.Regexp).SubexpNames"] = func(c *callCtx) Value {
		r := get(c)
		vals := []Value{}
		for _, n := range r.names {
			vals = append(vals, &Str{s: n})
		}
		return Slice{obj: c.st.alloc(vals), len: len(vals), cap: len(vals), es: 1}
	}
	m["(*regexp.Regexp).NumSubexp"] = func(c *callCtx) Value { return ex.tt.Int(int64(get(c).ncap - 1)) }
	m["(*regexp.Regexp).FindSubmatch"] = func(c *callCtx) Value {
		r := get(c)
		s := c.args[1].(Slice)
		in := make([]*Term, s.len)
		for i := range in {
			in[i] = c.st.obj(s.obj).get(s.off + i).(*Term)
		}
		cap := ex.rxMatch(c.st, r, in)
		if cap == nil {
			return Slice{es: 1}
		}
		vals := make([]Value, r.ncap)
		for i := 0; i < r.ncap; i++ {
			if cap[2*i] < 0 || cap[2*i+1] < 0 {
				vals[i] = Slice{es: 1}
			} else {
				vals[i] = Slice{obj: s.obj, off: s.off + cap[2*i], len: cap[2*i+1] - cap[2*i], cap: cap[2*i+1] - cap[2*i], es: 1}
			}
		}
		return Slice{obj: c.st.alloc(vals), len: len(vals), cap: len(vals), es: 1}
	}
	mt := func(c *callCtx) Value {
		r := get(c)
		var in []*Term
		switch x := c.args[1].(type) {
		case *Str:
			ex.noOpaque(x)
			in = ex.strBytes(x)
		case Slice:
			for i := 0; i < x.len; i++ {
				in = append(in, c.st.obj(x.obj).get(x.off+i).(*Term))
			}
		}
		return ex.tt.Bool(ex.rxMatch(c.st, r, in) != nil)
	}
	m["(*regexp.Regexp).MatchString"] = mt
	m["(*regexp.Regexp).Match"] = mt
	_ = regexp.MustCompile
}

// rxMatch: leftmost-first backtracking match; byte tests on symbolic input fork the path.
// Bytes >= 0x80 are treated as runes of their own (RuneError for class tests), as for invalid UTF-8.
func (ex *Exec) rxMatch(st *State, r *rxInfo, in []*Term) []int {
	p := r.prog
	visited := map[[2]int]bool{}
	caps := make([]int, 2*r.ncap)
	var res []int
	test := func(inst *syntax.Inst, t *Term) bool {
		if t.IsConst() {
			ru := rune(t.val)
			if ru >= 0x80 {
				ru = 0xFFFD
			}
			return inst.MatchRune(ru)
		}
		// build the set of bytes accepted
		c := ex.tt.tFals
		lo := -1
		acc := func(b int) bool {
			ru := rune(b)
			if b >= 0x80 {
				ru = 0xFFFD
			}
			return inst.MatchRune(ru)
		}
		for b := 0; b <= 256; b++ {
			ok := b < 256 && acc(b)
			if ok && lo < 0 {
				lo = b
			}
			if !ok && lo >= 0 {
				var q *Term
				if lo == b-1 {
					q = ex.tt.Eq(t, ex.tt.Const(8, uint64(lo)))
				} else {
					q = ex.tt.tTrue
					if lo > 0 {
						q = ex.tt.Cmp(OULe, ex.tt.Const(8, uint64(lo)), t)
					}
					if b-1 < 255 {
						q = ex.tt.And(q, ex.tt.Cmp(OULe, t, ex.tt.Const(8, uint64(b-1))))
					}
				}
				c = ex.tt.Or(c, q)
				lo = -1
			}
		}
		return st.decide(c)
	}
	var rec func(pc, pos int) bool
	rec = func(pc, pos int) bool {
		k := [2]int{pc, pos}
		if visited[k] {
			return false
		}
		visited[k] = true
		in0 := &p.Inst[pc]
		switch in0.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			return rec(int(in0.Out), pos) || rec(int(in0.Arg), pos)
		case syntax.InstCapture:
			if int(in0.Arg) < len(caps) {
				old := caps[in0.Arg]
				caps[in0.Arg] = pos
				if rec(int(in0.Out), pos) {
					return true
				}
				caps[in0.Arg] = old
				return false
			}
			return rec(int(in0.Out), pos)
		case syntax.InstEmptyWidth:
			f := syntax.EmptyOp(in0.Arg)
			if f&syntax.EmptyBeginText != 0 && pos != 0 || f&syntax.EmptyEndText != 0 && pos != len(in) {
				return false
			}
			if f&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				panic(unsupported{"regexp line/word boundary"})
			}
			return rec(int(in0.Out), pos)
		case syntax.InstMatch:
			res = append([]int(nil), caps...)
			return true
		case syntax.InstFail:
			return false
		case syntax.InstNop:
			return rec(int(in0.Out), pos)
		}
		if pos >= len(in) {
			return false
		}
		if in0.Op == syntax.InstRuneAny {
			return rec(int(in0.Out), pos+1)
		}
		if test(in0, in[pos]) {
			return rec(int(in0.Out), pos+1)
		}
		return false
	}
	for s := 0; s <= len(in); s++ {
		for i := range caps {
			caps[i] = -1
		}
		caps[0] = s
		if rec(p.Start, s) {
			if res[1] < 0 {
				res[1] = len(in)
			}
			return res
		}
	}
	return nil
}

func (ex *Exec) miscIntrinsics(m map[string]intrinsic) {
	S := ex.mod + "/" + symPkg + "."
	tt := ex.tt
	m[S+"Gate"] = func(c *callCtx) Value {
		ex.schedPoint(c.st)
		c.st.gates = append(c.st.gates[:len(c.st.gates):len(c.st.gates)], c.str(0))
		return Tuple{}
	}
	m[S+"Yield"] = func(c *callCtx) Value { ex.schedPoint(c.st); return Tuple{} }
	m[S+"Opaque"] = func(c *callCtx) Value { return tt.Bool(c.args[0].(*Str).opaque) }
	m["strconv.FormatInt"] = func(c *callCtx) Value {
		if c.T(1).IsConst() && c.T(1).val == 10 {
			return ex.itoa(c.st, c.T(0), true)
		}
		panic(unsupported{"FormatInt base"})
	}
	m["strconv.FormatFloat"] = func(c *callCtx) Value {
		for i := 0; i < 4; i++ {
			if !c.T(i).IsConst() {
				return &Str{s: "?", opaque: true}
			}
		}
		f, _ := goConst(c.T(0), types.Typ[types.Float64]).(float64)
		return &Str{s: strconv.FormatFloat(f, byte(c.T(1).val), int(int64(c.T(2).val)), int(c.T(3).val))}
	}
	m["image.RegisterFormat"] = func(c *callCtx) Value { return Tuple{} }
	m["strconv.Itoa"] = func(c *callCtx) Value { return ex.itoa(c.st, c.T(0), true) }
	m["strconv.ParseFloat"] = func(c *callCtx) Value {
		s := c.args[0].(*Str)
		if s.b == nil && !s.opaque {
			f, err := parseFloat(s.s, int(c.st.concretize(c.T(1))))
			var e Value = Iface{}
			if err != nil {
				e = ex.mkError(c.st, err.Error())
			}
			return Tuple{tt.F64(f), e}
		}
		return ex.symParseFloat(c.st, s)
	}
	m["math.Float64frombits"] = func(c *callCtx) Value { return tt.FromBits(SF64, c.T(0)) }
	_ = math.Pi
}

// decimal text with symbolic digits: sign, digits, optional fraction; value exact for short texts
func (ex *Exec) symParseFloat(st *State, s *Str) Value {
	ex.noOpaque(s)
	tt := ex.tt
	b := ex.strBytes(s)
	i := 0
	neg := false
	isB := func(t *Term, c byte) bool { return st.decide(tt.Eq(t, tt.Const(8, uint64(c)))) }
	isD := func(t *Term) bool {
		return st.decide(tt.And(tt.Cmp(OULe, tt.Const(8, '0'), t), tt.Cmp(OULe, t, tt.Const(8, '9'))))
	}
	if i < len(b) {
		if isB(b[i], '-') {
			neg = true
			i++
		} else if isB(b[i], '+') {
			i++
		}
	}
	n := tt.Int(0)
	nd, frac := 0, 0
	dot := false
	for ; i < len(b); i++ {
		if isD(b[i]) {
			n = tt.Bin(OAdd, tt.Bin(OMul, n, tt.Int(10)), tt.Bin(OSub, tt.ZExt(b[i], 64), tt.Int('0')))
			nd++
			if dot {
				frac++
			}
			continue
		}
		if !dot && isB(b[i], '.') {
			dot = true
			continue
		}
		break
	}
	e10 := int64(0)
	if i < len(b) && nd > 0 && (isB(b[i], 'e') || isB(b[i], 'E')) {
		i++
		eneg := false
		if i < len(b) && isB(b[i], '-') {
			eneg = true
			i++
		} else if i < len(b) && isB(b[i], '+') {
			i++
		}
		e := tt.Int(0)
		ed := 0
		for ; i < len(b) && isD(b[i]); i++ {
			e = tt.Bin(OAdd, tt.Bin(OMul, e, tt.Int(10)), tt.Bin(OSub, tt.ZExt(b[i], 64), tt.Int('0')))
			ed++
		}
		if ed == 0 {
			return Tuple{tt.F64(0), ex.mkError(st, "invalid syntax")}
		}
		if ed > 3 {
			panic(unsupported{"ParseFloat of exponent text"})
		}
		e10 = int64(st.concretize(e))
		if eneg {
			e10 = -e10
		}
	}
	if i < len(b) || nd == 0 || nd > 15 || frac > 15 {
		if i < len(b) && nd > 0 {
			return Tuple{tt.F64(0), ex.mkError(st, "invalid syntax")}
		}
		if nd == 0 {
			return Tuple{tt.F64(0), ex.mkError(st, "invalid syntax")}
		}
		panic(unsupported{"ParseFloat of long text"})
	}
	// n < 10^15 exactly representable; n/10^frac correctly rounded
	n = tt.ranged(n, 0, int64(math.Pow10(nd))-1)
	f := tt.IntToF(n, true, SF64)
	e10 -= int64(frac)
	if e10 > 22 || e10 < -22 {
		panic(unsupported{"ParseFloat of large exponent"})
	}
	if e10 < 0 {
		f = tt.FBin(OFDiv, f, tt.F64(math.Pow10(int(-e10))))
	} else if e10 > 0 {
		f = tt.FBin(OFMul, f, tt.F64(math.Pow10(int(e10))))
	}
	if neg {
		f = tt.FNeg(f)
	}
	return Tuple{f, Iface{}}
}

func (tt *TermTable) ranged(t *Term, lo, hi int64) *Term {
	return t
}

func parseFloat(s string, bits int) (float64, error) { return strconv.ParseFloat(s, bits) }
