// Package zzverif is the harness interface. The symbolic engine replaces every
// function of it; this file is what the same calls do when a harness runs on
// the compiled code, with the inputs read from a recorded counterexample or
// sample.
package zzverif

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
)

var (
	inputs map[string]string
	names  = map[string]int{}
	obs    []string
)

type stopT struct {
	outcome, msg string
}

func get(name string) (string, bool) {
	n := names[name]
	names[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	s, ok := inputs[strings.Replace(name, "|", "_", -1)]
	return s, ok
}

func getU(name string) uint64 {
	s, ok := get(name)
	if !ok {
		return 0
	}
	if strings.HasPrefix(s, "-") {
		v, _ := strconv.ParseInt(s, 10, 64)
		return uint64(v)
	}
	v, _ := strconv.ParseUint(s, 10, 64)
	return v
}

func Byte(name string) byte       { return byte(getU(name)) }
func Int(name string) int         { return int(getU(name)) }
func Int64(name string) int64     { return int64(getU(name)) }
func Uint64(name string) uint64   { return getU(name) }
func Uint32(name string) uint32   { return uint32(getU(name)) }
func Int32(name string) int32     { return int32(getU(name)) }
func Uint16(name string) uint16   { return uint16(getU(name)) }
func Float64(name string) float64 { return math.Float64frombits(getU(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(getU(name))) }

func Bool(name string) bool {
	s, _ := get(name)
	return s == "true" || s == "1"
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(getU(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// String returns an arbitrary string of n bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose returns a value in [0, n); the engine explores each of them.
func Choose(name string, n int) int { return int(getU(name)) }

// Concrete forks on the value of x.
func Concrete(x int) int { return x }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stopT{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		panic(stopT{"violation", label})
	}
}

func Fail(label string) { panic(stopT{"violation", label}) }

func Reach(label string) {}
func Note(label string)  {}

// Observe records values which must be the same in the engine and here.
func Observe(label string, vals ...interface{}) {
	s := label
	for _, v := range vals {
		s += " "
		switch x := v.(type) {
		case nil:
			s += "nil"
		case bool:
			s += strconv.FormatBool(x)
		case float64:
			if x != x {
				s += "nan"
			} else {
				s += fmt.Sprintf("f%x", math.Float64bits(x))
			}
		case float32:
			s += fmt.Sprintf("f%x", math.Float32bits(x))
		case string:
			s += fmt.Sprintf("%q", x)
		case []byte:
			s += fmt.Sprintf("%q", string(x))
		case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr:
			s += fmt.Sprintf("%d", x)
		default:
			s += "?"
		}
	}
	obs = append(obs, s)
}

func Engine() bool   { return false }
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
func Stop()          { panic(stopT{"ok", ""}) }

func Crash(f func()) bool         { f(); return false }
func CrashPoint(name string)      {}
func CrashN() int                 { return 0 }
func CrashMem(b []byte)           {}
func Unmap(b []byte)              {}
func MapAddr(b []byte) uintptr    { return 0 }
func Serial()                     {}
func Yield()                      { runtime.Gosched() }
func Goroutines() int             { return 0 }
func Now() int64                  { return time.Now().UnixNano() }
func Timer(ch chan time.Time) int { return 0 }
func TimerFunc(f func()) int      { return 0 }
func TimerStop(id int) bool       { return false }
func TimerArm(id int)             {}

func Quiesce() int {
	time.Sleep(50 * time.Millisecond)
	return 0
}

// Entries counts the entries of all maps reachable from v.
func Entries(v interface{}) int {
	n := 0
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem())
			}
		case reflect.Interface:
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			n += v.Len()
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		}
	}
	walk(reflect.ValueOf(v))
	return n
}

// Field and IsStruct are used by models of decoders, in the engine only.
func Field(v interface{}, tag, name string) interface{} { panic("engine only") }
func IsStruct(v interface{}) bool                       { panic("engine only") }

func TypeName(v interface{}) string { return fmt.Sprintf("%T", v) }

// Dir is a scratch directory; in the engine it is a path of the file model.
func Dir() string {
	d := os.Getenv("ZZ_DIR")
	if d == "" {
		panic("ZZ_DIR is not set")
	}
	return d
}

// RunNative runs one harness on recorded inputs.
func RunNative(hs map[string]func()) {
	var in struct {
		Harness string            `json:"harness"`
		Inputs  map[string]string `json:"inputs"`
	}
	b, err := ioutil.ReadFile(os.Getenv("ZZ_IN"))
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	inputs = in.Inputs
	out := map[string]interface{}{}
	done := make(chan stopT, 1)
	go func() {
		res := stopT{"panic", "goroutine exited"}
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(stopT); ok {
					res = s
				} else {
					buf := make([]byte, 3000)
					buf = buf[:runtime.Stack(buf, false)]
					res = stopT{"panic", fmt.Sprint(r) + "\n" + string(buf)}
				}
			}
			done <- res
		}()
		hs[in.Harness]()
		res = stopT{"ok", ""}
	}()
	select {
	case r := <-done:
		out["outcome"], out["msg"] = r.outcome, r.msg
	case <-time.After(20 * time.Second):
		out["outcome"], out["msg"] = "hang", "no answer within 20 s"
	}
	out["obs"] = obs
	b, _ = json.Marshal(out)
	if err := ioutil.WriteFile(os.Getenv("ZZ_OUT"), b, 0644); err != nil {
		panic(err)
	}
}

func Alias(b []byte) []byte      { return b }
func Name(b []byte, name string) {}
