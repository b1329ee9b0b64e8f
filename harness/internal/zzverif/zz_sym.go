// Package zzverif is the harness interface: under the symbolic engine every
// function here is an intrinsic; natively the values come from a replay file.
package zzverif

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/valyala/fastrand"
)

type doc struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Inputs  map[string]string `json:"inputs"`
	Gates   []string          `json:"gates"`
}

var cur doc
var names = map[string]int{}
var mu sync.Mutex
var gatePos int
var panicsOK bool

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := names[name]
	names[name] = k + 1
	full := name
	if k > 0 {
		full = fmt.Sprintf("%s#%d", name, k)
	}
	s, ok := cur.Inputs[full]
	if !ok {
		return 0
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		result("missing", "bad input "+s)
	}
	return v
}

func result(kind, msg string) {
	fmt.Printf("\nZZRESULT %s %s\n", kind, msg)
	os.Exit(3)
}

// Main replays one recorded path.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println("ZZRESULT missing", err)
		return
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		fmt.Println("ZZRESULT missing", err)
		return
	}
	h, ok := hs[cur.Harness]
	if !ok {
		fmt.Println("ZZRESULT missing harness")
		return
	}
	if panicsOK {
		return
	}
	func() {
		defer func() {
			if panicsOK {
				recover()
			}
		}()
		h()
	}()
	fmt.Println("\nZZRESULT ok")
}

func Bool(name string) bool                    { return next(name) != 0 }
func Int(name string, lo, hi int) int          { return int(next(name)) }
func Int32(name string, lo, hi int) int32      { return int32(next(name)) }
func Int64(name string) int64                  { return int64(next(name)) }
func AnyInt(name string) int                   { return int(next(name)) }
func AnyInt32(name string) int32               { return int32(next(name)) }
func AnyInt16(name string) int16               { return int16(next(name)) }
func Byte(name string) byte                    { return byte(next(name)) }
func AnyF32(name string) float32               { return math.Float32frombits(uint32(next(name))) }
func AnyF64(name string) float64               { return math.Float64frombits(next(name)) }
func FiniteF32(name string) float32            { return math.Float32frombits(uint32(next(name))) }
func NumF32(name string) float32               { return math.Float32frombits(uint32(next(name))) }
func SmallF32(name string, lo, hi int) float32 { return float32(int64(next(name))) }
func FracF32(name string, lo, hi, k int) float32 {
	return float32(int64(next(name))) / float32(math.Ldexp(1, k))
}
func Choose(name string, n int) int { return int(next(name)) }
func Concrete(v int) int            { return v }
func Param(name string) int         { return cur.Params[name] }
func Text(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return string(b)
}

func Assume(b bool) {
	if !b {
		result("assume", "assumption does not hold natively")
	}
}
func Assert(b bool, msg string) {
	if !b {
		result("assert", msg)
	}
}
func Reach(label string) {}

// Observe records a value compared between engine and native run
func Observe(name string, v interface{}) {
	var sb strings.Builder
	sb.WriteString(name + "=")
	show(&sb, reflect.ValueOf(v))
	fmt.Println("ZZOBS " + sb.String())
}
func show(sb *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			sb.WriteString("1 ")
		} else {
			sb.WriteString("0 ")
		}
	case reflect.Int, reflect.Int64:
		fmt.Fprintf(sb, "%x ", uint64(v.Int()))
	case reflect.Int32:
		fmt.Fprintf(sb, "%x ", uint32(v.Int()))
	case reflect.Int16:
		fmt.Fprintf(sb, "%x ", uint16(v.Int()))
	case reflect.Int8:
		fmt.Fprintf(sb, "%x ", uint8(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(sb, "%x ", v.Uint())
	case reflect.Float32:
		if v.Float() != v.Float() {
			sb.WriteString("nan ")
		} else {
			fmt.Fprintf(sb, "%x ", math.Float32bits(float32(v.Float())))
		}
	case reflect.Float64:
		if v.Float() != v.Float() {
			sb.WriteString("nan ")
		} else {
			fmt.Fprintf(sb, "%x ", math.Float64bits(v.Float()))
		}
	case reflect.String:
		fmt.Fprintf(sb, "%q ", v.String())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			show(sb, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			show(sb, v.Field(i))
		}
	}
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteF32(c bool, a, b float32) float32 {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func SameBits(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
func Symbolic() bool             { return false }
func PanicsOK()                  { panicsOK = true }
func Stop() {
	fmt.Println("\nZZRESULT ok")
	os.Exit(0)
}

// JSON fills the i-th $ of the template with the i-th value
func JSON(template string, vals ...interface{}) []byte {
	var sb strings.Builder
	k := 0
	for i := 0; i < len(template); i++ {
		if template[i] != '$' {
			sb.WriteByte(template[i])
			continue
		}
		b, err := json.Marshal(vals[k])
		if err != nil {
			result("assume", "value not representable in JSON")
		}
		sb.Write(b)
		k++
	}
	return []byte(sb.String())
}

var gateMu sync.Mutex
var gateCond = sync.NewCond(&gateMu)

// Gate makes the native run pass the gates in the order of the symbolic schedule
func Gate(label string) {
	if len(cur.Gates) == 0 {
		return
	}
	gateMu.Lock()
	defer gateMu.Unlock()
	dl := time.Now().Add(1500 * time.Millisecond)
	go func() {
		time.Sleep(1600 * time.Millisecond)
		gateCond.Broadcast()
	}()
	for gatePos < len(cur.Gates) && cur.Gates[gatePos] != label {
		if time.Now().After(dl) {
			return
		}
		gateCond.Wait()
	}
	gatePos++
	gateCond.Broadcast()
}
func Yield() {}

// LogSink swallows text
type LogSink struct{}

func (*LogSink) Write(p []byte) (int, error) { return len(p), nil }

func SameF32(a, b float32) bool {
	return math.Float32bits(a) == math.Float32bits(b) || a != a && b != b
}
func IsNaN32(a float32) bool { return a != a }

// Random numbers of the code under test: every value, or with RngSeed the actual sequence
var rngState uint32

func init() { fastrand.Hook = rng }
func rng(maxN uint32, full bool) uint32 {
	if full {
		return uint32(AnyInt32("rng"))
	}
	if maxN == 0 {
		return 0
	}
	if rngState != 0 {
		x := rngState
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		rngState = x
		return uint32((uint64(x) * uint64(maxN)) >> 32)
	}
	return uint32(Choose("rng", int(maxN)))
}

// RngSeed makes random numbers follow the generator of package fastrand
func RngSeed(seed int) { rngState = uint32(seed) }

// Model_rand_Perm stands for math/rand.Perm: rotations, forwards and backwards
func Model_rand_Perm(n int) []int {
	p := make([]int, n)
	if n == 0 {
		return p
	}
	m := n
	if m > 5 {
		m = 5
	}
	rot, rev := Choose("permRotation", m), Choose("permReversed", 2) == 1
	for i := range p {
		k := i
		if rev {
			k = n - 1 - i
		}
		p[i] = (k*1 + rot) % n
	}
	return p
}
