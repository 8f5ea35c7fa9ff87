package data

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ = vf.Requires

// zzReply is a reply with the given number of properties, the first of which
// has the value v.
func zzReply(n uint8, v interface{}, rest []btypes.Property) (d btypes.PropertyData, v0 interface{}) {
	if n == 0 {
		return d, nil
	}
	d.Object.Properties = append([]btypes.Property{{Data: v}}, rest...)
	return d, v
}

//vf:lemma
//vf:prop C26
func zz_to_int(n uint8, v interface{}, rest []btypes.Property) {
	d, v0 := zzReply(n, v, rest)
	ok, got := ToInt(d)
	want, is := v0.(int)
	vf.Ensures("succeeds exactly when the reply holds such a value", ok == is)
	if is {
		vf.Ensures("the value unchanged", got == want)
	}
}

//vf:lemma
//vf:prop C26
func zz_to_float32(n uint8, v interface{}, rest []btypes.Property) {
	d, v0 := zzReply(n, v, rest)
	ok, got := ToFloat32(d)
	want, is := v0.(float32)
	vf.Ensures("succeeds exactly when the reply holds such a value", ok == is)
	if is {
		vf.EnsuresEq("the value unchanged", got, want)
	}
}

//vf:lemma
//vf:prop C26
func zz_to_float64(n uint8, v interface{}, rest []btypes.Property) {
	d, v0 := zzReply(n, v, rest)
	ok, got := ToFloat64(d)
	want, is := v0.(float64)
	vf.Ensures("succeeds exactly when the reply holds such a value", ok == is)
	if is {
		vf.EnsuresEq("the value unchanged", got, want)
	}
}

//vf:lemma
//vf:prop C26
func zz_to_bool(n uint8, v interface{}, rest []btypes.Property) {
	d, v0 := zzReply(n, v, rest)
	ok, got := ToBool(d)
	want, is := v0.(bool)
	vf.Ensures("succeeds exactly when the reply holds such a value", ok == is)
	if is {
		vf.Ensures("the value unchanged", got == want)
	}
}

//vf:lemma
//vf:prop C26
func zz_to_str(n uint8, v interface{}, rest []btypes.Property) {
	d, v0 := zzReply(n, v, rest)
	ok, got := ToStr(d)
	want, is := v0.(string)
	vf.Ensures("succeeds exactly when the reply holds such a value", ok == is)
	if is {
		vf.Ensures("the value unchanged", got == want)
	}
}

//vf:lemma
//vf:prop C26
func zz_to_uint32(n uint8, v interface{}, rest []btypes.Property) {
	d, v0 := zzReply(n, v, rest)
	ok, got := ToUint32(d)
	want, is := v0.(uint32)
	vf.Ensures("succeeds exactly when the reply holds such a value", ok == is)
	if is {
		vf.Ensures("the value unchanged", got == want)
	}
}

//vf:lemma
//vf:prop C26
func zz_to_bits(n uint8, v interface{}, rest []btypes.Property) {
	d, v0 := zzReply(n, v, rest)
	ok, got := ToBitString(d)
	want, is := v0.(*btypes.BitString)
	vf.Ensures("succeeds exactly when the reply holds such a value", ok == is)
	if is {
		vf.Ensures("the value unchanged", got == want)
	}
}

//vf:lemma
//vf:prop C26
func zz_to_list(n uint8, v interface{}, rest []btypes.Property) {
	d, v0 := zzReply(n, v, rest)
	ok, got := ToArr(d)
	want, is := v0.([]interface{})
	vf.Ensures("succeeds exactly when the reply holds such a value", ok == is)
	if is {
		vf.EnsuresEq("the value unchanged", got, want)
	}
}
