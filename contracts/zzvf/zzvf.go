// Package zzvf is the vocabulary of the contracts in /verif/contracts. It is
// added to the module by an overlay only: it never becomes part of the tree.
//
// The verifier (/verif/gocv) gives each function its logical meaning. The
// bodies here give the same functions a run-time meaning, used to replay a
// counterexample, or to search for one, on the real code.
package zzvf

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"
)

type skip struct{}
type failed struct{ label, detail string }

// Requires states a precondition.
func Requires(c bool) {
	if !c {
		panic(skip{})
	}
}

// Assume restricts the inputs a lemma speaks about.
func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

// Ensures states a postcondition.
func Ensures(label string, c bool) {
	if !c {
		panic(failed{label, ""})
	}
}

// EnsuresSeq states that two octet sequences are equal.
func EnsuresSeq(label string, got, want []byte) {
	if !bytes.Equal(got, want) {
		panic(failed{label, fmt.Sprintf("got %x want %x", short(got), short(want))})
	}
}

// EnsuresEq states that two values are equal, slices by content, pointers by
// what they point to, floats bit for bit.
func EnsuresEq(label string, got, want interface{}) {
	if !same(reflect.ValueOf(got), reflect.ValueOf(want), 0) {
		panic(failed{label, fmt.Sprintf("got %s want %s", clip(fmt.Sprintf("%#v", got)), clip(fmt.Sprintf("%#v", want)))})
	}
}

// EnsuresSuffix states that rest is what remains of whole after some octets
// have been taken from its front.
func EnsuresSuffix(label string, rest, whole []byte) {
	if !bytes.HasSuffix(whole, rest) {
		panic(failed{label, fmt.Sprintf("%x is no suffix of %x", short(rest), short(whole))})
	}
}

// BufBytes is the unread content of a buffer.
func BufBytes(b *bytes.Buffer) []byte { return append([]byte{}, b.Bytes()...) }

// Modifies is the frame: what the call that follows may change.
func Modifies(ptrs ...interface{}) {}

// LoopBuf is a loop invariant: after k rounds the buffer holds f(k).
//
// f may take the rounds of the enclosing loops first: it speaks only of loops
// nested as deep as it has parameters.
func LoopBuf(b *bytes.Buffer, f interface{}) {}

// LoopReads is a loop invariant: after k rounds the buffer and the variables
// the loop carries are what read makes of f(k).
func LoopReads(b *bytes.Buffer, f, read interface{}) {}

// Front is a precondition: the buffer holds the octets of head, then rest.
func Front(b *bytes.Buffer, head, rest []byte) {
	b.Reset()
	b.Write(head)
	b.Write(rest)
}

// LoopBufWhen is a loop invariant: after k rounds, if when holds, the buffer
// holds f(k).
func LoopBufWhen(b *bytes.Buffer, when, f interface{}) {}

// LoopInv is a loop invariant: f(k) holds after k rounds.
func LoopInv(f interface{}) {}

// LoopList is a loop invariant: after k rounds the list being built is f(k).
func LoopList(f interface{}) {}

// Names says that an error's text contains one of the forms of a value.
func Names(err error, forms ...interface{}) bool {
	if err == nil {
		return false
	}
	for _, f := range forms {
		if strings.Contains(err.Error(), fmt.Sprint(f)) {
			return true
		}
	}
	return false
}

// RunPending lets the goroutines started so far run until they block or end.
func RunPending() { time.Sleep(20 * time.Millisecond) }

func short(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}
func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func same(a, b reflect.Value, d int) bool {
	if d > 40 {
		return true
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float()) || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		return same(a.Elem(), b.Elem(), d+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), d+1)
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !same(a.MapIndex(k), b.MapIndex(k), d+1) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	}
	return a.Kind() == reflect.Func && a.IsNil() && b.IsNil() || a.Kind() == reflect.Chan && a.Pointer() == b.Pointer()
}

// ---- replay and search ---------------------------------------------------------

// Outcome of one run of a contract on the real code.
func Run(f func()) (out string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case skip:
					done <- "SKIP"
				case failed:
					done <- "FAIL " + x.label + ": " + x.detail
				default:
					done <- "FAIL no panic: " + fmt.Sprint(r)
				}
				return
			}
			done <- "OK"
		}()
		f()
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(60 * time.Second):
		return "FAIL terminates: no answer within 60 s"
	}
}

type Gen struct {
	R   *rand.Rand
	Any []interface{} // dynamic types tried for interface values
	Ptr map[reflect.Type]reflect.Value
}

var edge = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 17, 31, 32, 49, 50, 63, 64, 65, 75, 76, 77, 85, 87, 127, 128, 129, 206, 252, 253, 254, 255, 256, 257, 479, 480, 481,
	1023, 1024, 1025, 1475, 1476, 1477, 32767, 32768, 65534, 65535, 65536, 65537, 1<<22 - 2, 1<<22 - 1, 1 << 22, 1<<23 - 1, 1 << 23, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func (g *Gen) Uint() uint64 {
	switch g.R.Intn(6) {
	case 0, 1:
		return edge[g.R.Intn(len(edge))]
	case 2:
		return uint64(g.R.Intn(6))
	case 3:
		return -edge[g.R.Intn(len(edge))]
	case 4:
		return uint64(1)<<uint(g.R.Intn(64)) - uint64(g.R.Intn(2))
	}
	return g.R.Uint64() >> uint(g.R.Intn(64))
}

func (g *Gen) Len() int {
	switch g.R.Intn(12) {
	case 0:
		return 0
	case 1, 2:
		return 1
	case 3, 4:
		return 2
	case 5:
		return 3
	case 6, 7:
		return 3 + g.R.Intn(6)
	case 8, 9:
		return g.R.Intn(30)
	case 10:
		return g.R.Intn(60)
	}
	return 240 + g.R.Intn(30)
}

var tagBytes = []byte{0x0c, 0x1c, 0x2c, 0x19, 0x29, 0x3e, 0x3f, 0x4e, 0x4f, 0x0e, 0x0f, 0x1e, 0x1f, 0x2e, 0x2f, 0x5e, 0x5f, 0x21, 0x22, 0x23, 0x24, 0x31, 0x32, 0x44, 0x55, 0x65, 0x75, 0x82, 0x85, 0x91, 0xa4, 0xb4, 0xc4, 0x00, 0x10, 0x11, 0x09, 0x08, 0x04, 0xfe, 0xff}

func (g *Gen) Bytes() []byte {
	n := g.Len()
	b := make([]byte, n)
	mode := g.R.Intn(3)
	for i := range b {
		switch {
		case mode == 0 || g.R.Intn(3) == 0:
			b[i] = tagBytes[g.R.Intn(len(tagBytes))]
		case mode == 1:
			b[i] = byte(g.R.Intn(8))
		default:
			b[i] = byte(g.R.Intn(256))
		}
	}
	return b
}

func (g *Gen) Value(t reflect.Type, d int) reflect.Value {
	if f, ok := g.Ptr[t]; ok {
		var as []reflect.Value
		for i := 0; i < f.Type().NumIn(); i++ {
			as = append(as, g.Value(f.Type().In(i), d+1))
		}
		return f.Call(as)[0]
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.R.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(g.Uint())
		if t.Kind() == reflect.Int && g.R.Intn(3) > 0 {
			x = int64(g.R.Intn(20))
		}
		v.SetInt(x << uint(64-t.Bits()) >> uint(64-t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(g.Uint() << uint(64-t.Bits()) >> uint(64-t.Bits()))
	case reflect.Float32:
		if g.R.Intn(3) == 0 {
			v.SetFloat(float64(g.R.Intn(200) - 100))
		} else {
			v.SetFloat(float64(math.Float32frombits(g.R.Uint32())))
		}
	case reflect.Float64:
		if g.R.Intn(3) == 0 {
			v.SetFloat(float64(g.R.Intn(200) - 100))
		} else {
			v.SetFloat(math.Float64frombits(g.R.Uint64()))
		}
	case reflect.String:
		n := g.Len()
		var s strings.Builder
		for i := 0; i < n; i++ {
			if g.R.Intn(12) == 0 {
				s.WriteRune([]rune{'é', '世', 'ß', 0x1F600, 'z'}[g.R.Intn(5)])
			} else {
				s.WriteByte(byte('a' + g.R.Intn(26)))
			}
		}
		v.SetString(s.String())
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.Set(reflect.ValueOf(g.Bytes()).Convert(t))
			break
		}
		n := g.R.Intn(4)
		if g.R.Intn(10) == 0 {
			n = g.R.Intn(12)
		}
		if d > 6 {
			n = 0
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(g.Value(t.Elem(), d+1))
		}
		if n == 0 && g.R.Intn(2) == 0 {
			v.Set(reflect.Zero(t))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.Value(t.Elem(), d+1))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				v.Field(i).Set(g.Value(t.Field(i).Type, d+1))
			}
		}
	case reflect.Ptr:
		if d < 8 && g.R.Intn(12) > 0 {
			p := reflect.New(t.Elem())
			p.Elem().Set(g.Value(t.Elem(), d+1))
			v.Set(p)
		}
	case reflect.Interface:
		if t.NumMethod() > 0 || g.R.Intn(14) == 0 || d > 6 {
			break
		}
		a := g.Any[g.R.Intn(len(g.Any))]
		v.Set(g.Value(reflect.TypeOf(a), d+1))
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := g.R.Intn(4); i > 0; i-- {
			v.SetMapIndex(g.Value(t.Key(), d+1), g.Value(t.Elem(), d+1))
		}
	}
	return v
}

var BaseAny = []interface{}{false, uint8(0), uint16(0), uint32(0), uint32(0), int32(0), int32(0), uint64(0), int(0), int8(0), int16(0), int64(0), uint(0), float32(0), float32(0), float64(0), float64(0), "", "", []byte{}, struct{ A int }{}, []uint32{}, (*int)(nil), map[string]int{}}

// Search runs contract fn on generated inputs until one violates it.
func Search(name string, fn interface{}, any []interface{}, gens []interface{}, custom interface{}, seed int64, from, n int, budget time.Duration) {
	f := reflect.ValueOf(fn)
	start := time.Now()
	runs, skips := 0, 0
	trace := os.Getenv("ZZ_TRACE") != ""
	for i := from; i < from+n; i++ {
		if time.Since(start) > budget {
			break
		}
		g := &Gen{R: rand.New(rand.NewSource(seed*1000003 + int64(i))), Any: append(append([]interface{}{}, BaseAny...), any...), Ptr: map[reflect.Type]reflect.Value{}}
		for _, x := range gens {
			v := reflect.ValueOf(x)
			g.Ptr[v.Type().Out(0)] = v
		}
		var args []reflect.Value
		if custom != nil && (i-from < 60 || g.R.Intn(4) > 0) {
			args = reflect.ValueOf(custom).Call([]reflect.Value{reflect.ValueOf(g)})
		} else {
			for k := 0; k < f.Type().NumIn(); k++ {
				args = append(args, g.Value(f.Type().In(k), 0))
			}
		}
		desc := ""
		for _, a := range args {
			desc += clip(fmt.Sprintf("%#v", a.Interface())) + "; "
		}
		if trace {
			fmt.Printf("ZZTRY iter=%d seed=%d args=%q\n", i, seed, desc)
		}
		out := Run(func() { f.Call(args) })
		if out == "SKIP" {
			skips++
			continue
		}
		runs++
		if out != "OK" {
			fmt.Fprintf(os.Stdout, "ZZ %s FAIL iter=%d seed=%d args=%q why=%q\n", name, i, seed, desc, out)
			return
		}
	}
	fmt.Fprintf(os.Stdout, "ZZ %s PASS runs=%d skips=%d\n", name, runs, skips)
}
