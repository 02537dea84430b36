// Package verifrt is the interface between the harnesses and the symbolic
// engine. The engine intercepts these functions; the bodies here run natively
// when a counterexample is replayed against the real code.
package verifrt

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"strings"
)

// Replay is a counterexample.
type Replay struct {
	Params map[string]int64  `json:"params"`
	Vars   map[string]string `json:"vars"`
	Draws  []string          `json:"draws"`
	Hashes []string          `json:"hashes"`
}

var R Replay
var Failed []string
var Reached = map[string]bool{}
var DrawValues []*big.Int

// InMapToGroup: the caller is hashing to the curve, which the engine evaluates
// with the real hash function.
func InMapToGroup() bool {
	pc := make([]uintptr, 64)
	fs := runtime.CallersFrames(pc[:runtime.Callers(1, pc)])
	for {
		f, more := fs.Next()
		if strings.HasSuffix(f.Function, ".MapToGroup") {
			return true
		}
		if !more {
			return false
		}
	}
}

type stop struct{}

func Load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &R); err != nil {
		panic(err)
	}
}

func val(name string) *big.Int {
	s, ok := R.Vars[name]
	if !ok {
		return nil
	}
	z, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad value for " + name)
	}
	return z
}

// Int is any integer in [lo, hi].
func Int(name string, lo, hi *big.Int) *big.Int {
	z := val(name)
	if z == nil {
		z = new(big.Int).Set(lo)
	}
	return z
}

// I64 is any int64 in [lo, hi].
func I64(name string, lo, hi int64) int64 {
	z := val(name)
	if z == nil {
		return lo
	}
	return z.Int64()
}

func Bool(name string) bool {
	z := val(name)
	return z != nil && z.Sign() != 0
}

// Bytes are n arbitrary bytes.
func Bytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		if z := val(fmt.Sprintf("%s[%d]", name, i)); z != nil {
			r[i] = byte(z.Int64())
		}
	}
	return r
}

// Str is an arbitrary string of n bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Bits is any number of n bits (with the top bit set if top).
func Bits(name string, n int, top bool) *big.Int {
	r := new(big.Int)
	for i := 0; i < n; i++ {
		if top && i == n-1 {
			r.SetBit(r, i, 1)
			continue
		}
		if z := val(fmt.Sprintf("%s.%d", name, i)); z != nil {
			r.SetBit(r, i, uint(z.Int64()))
		}
	}
	return r
}

func Param(name string) int64 {
	v, ok := R.Params[name]
	if !ok {
		panic("no parameter " + name)
	}
	return v
}

func Assume(c bool) {
	if !c {
		panic(stop{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		Failed = append(Failed, msg)
		panic(stop{})
	}
}

// All is the conjunction of its arguments.
func All(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Reach(label string)   { Reached[label] = true }
func Expect(labels string) {}

// Try runs f and reports whether it returned without panicking.
func Try(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(stop); is {
				panic(r)
			}
			ok = false
		}
	}()
	f()
	return true
}

// Run executes a harness and returns the failures.
func Run(f func()) []string {
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(stop); is {
					return
				}
				Failed = append(Failed, fmt.Sprintf("the code panics: %v", r))
			}
		}()
		f()
	}()
	return Failed
}

var snaps [][2]interface{}

// Snap records the state reachable from the arguments.
func Snap(ps ...interface{}) int {
	snaps = append(snaps, [2]interface{}{ps, dump(ps)})
	return len(snaps) - 1
}

// Unchanged reports whether that state is as recorded.
func Unchanged(id int) bool {
	return dump(snaps[id][0].([]interface{})) == snaps[id][1].(string)
}

func dump(ps []interface{}) string {
	var sb strings.Builder
	var rec func(v reflect.Value, d int)
	rec = func(v reflect.Value, d int) {
		if d > 40 {
			sb.WriteString("...")
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			sb.WriteString("&")
			rec(v.Elem(), d+1)
		case reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			rec(v.Elem(), d+1)
		case reflect.Struct:
			sb.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i), d+1)
				sb.WriteString(" ")
			}
			sb.WriteString("}")
		case reflect.Slice:
			if v.IsNil() {
				// a nil nat and an empty nat are the same number
				sb.WriteString("[]")
				return
			}
			fallthrough
		case reflect.Array:
			sb.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), d+1)
				sb.WriteString(" ")
			}
			sb.WriteString("]")
		case reflect.Map:
			fmt.Fprintf(&sb, "map%d", v.Len())
			keys := v.MapKeys()
			var parts []string
			for _, k := range keys {
				outer := sb
				sb = strings.Builder{}
				rec(k, d+1)
				sb.WriteString(":")
				rec(v.MapIndex(k), d+1)
				parts = append(parts, sb.String())
				sb = outer
			}
			// order-independent
			for i := range parts {
				for j := i + 1; j < len(parts); j++ {
					if parts[j] < parts[i] {
						parts[i], parts[j] = parts[j], parts[i]
					}
				}
			}
			sb.WriteString(strings.Join(parts, ","))
		case reflect.Bool:
			fmt.Fprint(&sb, v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(&sb, v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprint(&sb, v.Uint())
		case reflect.String:
			fmt.Fprintf(&sb, "%q", v.String())
		case reflect.Float64:
			fmt.Fprint(&sb, v.Float())
		default:
			fmt.Fprint(&sb, v.Kind())
		}
	}
	for _, p := range ps {
		rec(reflect.ValueOf(p), 0)
		sb.WriteString(";")
	}
	return sb.String()
}

// Draws is the number of random numbers drawn so far; Draw(i) is the i-th.
func Draws() int { return len(DrawValues) }
func Draw(i int) *big.Int {
	return new(big.Int).Set(DrawValues[i])
}

// DrawBounds are the exclusive upper bounds the draws were made with.
var DrawBounds []*big.Int

// DrawBound is the bound of the i-th draw.
func DrawBound(i int) *big.Int { return DrawBounds[i] }

// Native: the harness runs outside the engine, to replay a counterexample.
func Native() bool { return true }

// Hashes is the number of hash outputs computed so far (only in the engine).
func Hashes() int { return 0 }

// SameHashes: the next hash outputs are those numbered i to n-1. Natively equal
// inputs have equal outputs anyway.
func SameHashes(i, n int) {}

// Same compares everything reachable from two values.
func Same(x, y interface{}) bool {
	return dump([]interface{}{x}) == dump([]interface{}{y})
}
