package encoding

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// Reference meaning of ASHRAE 135 clause 20.2, written from the standard.

// zzOver is 1 if v is above the limit, and 0 if not.
func zzOver(v, limit uint64) uint32 { return uint32((limit - v) >> 63) }

// zzUintLen is the number of octets an unsigned value needs.
func zzUintLen(v uint32) uint32 {
	return 1 + zzOver(uint64(v), 0xff) + zzOver(uint64(v), 0xffff) + zzOver(uint64(v), 0xffffff)
}

// zzUint is the content of an unsigned or enumerated value: fewest octets.
//
//vf:opaque
//vf:length zzUintLen
func zzUint(v uint32) []byte { return zzUintOctets(v) }

func zzUintOctets(v uint32) []byte {
	switch {
	case v <= 0xff:
		return []byte{byte(v)}
	case v <= 0xffff:
		return []byte{byte(v >> 8), byte(v)}
	case v <= 0xffffff:
		return []byte{byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// zzIntLen is the number of octets a signed value needs.
func zzIntLen(v int32) uint32 {
	m := uint64(uint32(v ^ v>>31))
	return 1 + zzOver(m, 0x7f) + zzOver(m, 0x7fff) + zzOver(m, 0x7fffff)
}

// zzInt is the content of a signed value: two's complement, fewest octets.
//
//vf:opaque
//vf:length zzIntLen
func zzInt(v int32) []byte {
	switch {
	case v >= -128 && v <= 127:
		return []byte{byte(v)}
	case v >= -32768 && v <= 32767:
		return []byte{byte(v >> 8), byte(v)}
	case v >= -8388608 && v <= 8388607:
		return []byte{byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func zz32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func zz64(v uint64) []byte {
	return []byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func zzObjID(t btypes.ObjectType, i btypes.ObjectInstance) []byte {
	return zz32(uint32(t)&0x3ff<<22 | uint32(i)&0x3fffff)
}

// zzTagged is a tag header followed by its content.
func zzTagged(num uint8, context bool, content []byte) []byte {
	return append(zzTag(num, context, uint32(len(content))), content...)
}

// zzTag is ASHRAE 135 clause 20.2.1: the octets of a tag header.
//
//vf:opaque
//vf:nonempty
func zzTag(num uint8, context bool, length uint32) []byte {
	var class byte
	if context {
		class = 8
	}
	var b []byte
	first := num
	if num > 14 {
		first = 15
	}
	lvt := length
	if length > 4 {
		lvt = 5
	}
	b = append(b, first<<4|class|byte(lvt))
	if num > 14 {
		b = append(b, num)
	}
	if length > 4 {
		if length <= 253 {
			b = append(b, byte(length))
		} else if length <= 65535 {
			b = append(b, 254, byte(length>>8), byte(length))
		} else {
			b = append(b, 255, byte(length>>24), byte(length>>16), byte(length>>8), byte(length))
		}
	}
	return b
}

// zzSupported: the values the library accepts; binary says that the value is
// the present value of a binary output or binary value.
func zzSupported(i interface{}, binary bool) bool {
	switch v := i.(type) {
	case null.Null:
		return true
	case uint32:
		return true
	case float32, float64, bool, string, int32, btypes.Enumerated:
		return !binary
	case btypes.ObjectID:
		return !binary && v.Type <= 1023 && v.Instance <= 4194303
	}
	return false
}

// zzVal is the octets of an application value.
//
//vf:opaque
func zzVal(i interface{}, binary bool) []byte {
	switch v := i.(type) {
	case null.Null:
		return []byte{0}
	case bool:
		if v {
			return []byte{0x11}
		}
		return []byte{0x10}
	case uint32:
		if binary {
			return zzTagged(9, false, zzUint(v))
		}
		return zzTagged(2, false, zzUint(v))
	case int32:
		return zzTagged(3, false, zzInt(v))
	case float32:
		return zzTagged(4, false, zz32(math.Float32bits(v)))
	case float64:
		return zzTagged(5, false, zz64(math.Float64bits(v)))
	case string:
		return zzTagged(7, false, append([]byte{0}, []byte(v)...))
	case btypes.Enumerated:
		return zzTagged(9, false, zzUint(uint32(v)))
	case btypes.ObjectID:
		return zzTagged(12, false, zzObjID(v.Type, v.Instance))
	}
	return nil
}

// Writing an application value: its octets, or an error and no panic.
//
//vf:lemma
//vf:prop C01 C02
func zz_appdata_encode(i interface{}, binary bool) {
	e := NewEncoder()
	err := e.AppData(i, binary)
	vf.Ensures("a value is accepted exactly when its type is supported", (err == nil) == zzSupported(i, binary))
	vf.Ensures("a refused value leaves the encoder in error", (e.Error() == nil) == (err == nil))
	if err == nil {
		vf.EnsuresSeq("octets of the value", e.Bytes(), zzVal(i, binary))
	}
}

//vf:lemma
//vf:prop C01
func zz_appdata_roundtrip(i interface{}, binary bool) {
	vf.Assume(zzSupported(i, binary))
	e := NewEncoder()
	err := e.AppData(i, binary)
	vf.Ensures("encoded", err == nil)
	d := NewDecoder(e.Bytes())
	v, err := d.AppData()
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	if en, ok := i.(btypes.Enumerated); ok {
		vf.EnsuresEq("an enumerated comes back as its number", v, uint32(en))
	} else {
		vf.EnsuresEq("the same value comes back", v, i)
	}
	vf.Ensures("exactly the octets written are consumed", len(d.Bytes()) == 0)
}
