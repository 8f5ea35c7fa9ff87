package priority

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ = vf.Requires

// zzSlot is the entry of a priority, 1 the highest.
func zzSlot(p *Float32, n int) *float32 {
	switch n {
	case 1:
		return p.P1
	case 2:
		return p.P2
	case 3:
		return p.P3
	case 4:
		return p.P4
	case 5:
		return p.P5
	case 6:
		return p.P6
	case 7:
		return p.P7
	case 8:
		return p.P8
	case 9:
		return p.P9
	case 10:
		return p.P10
	case 11:
		return p.P11
	case 12:
		return p.P12
	case 13:
		return p.P13
	case 14:
		return p.P14
	case 15:
		return p.P15
	}
	return p.P16
}

func zzList(list []interface{}) btypes.PropertyData {
	return btypes.PropertyData{Object: btypes.Object{Properties: []btypes.Property{{Data: list}}}}
}

// zzEntry states what a priority holds given the entry of the list.
func zzEntry(got *float32, v interface{}) {
	switch x := v.(type) {
	case null.Null:
		vf.Ensures("a null entry leaves the priority empty", got == nil)
	case float32:
		vf.Ensures("a real entry is there", got != nil)
		if got != nil {
			vf.EnsuresEq("a real entry is unchanged", *got, x)
		}
	case uint32:
		vf.Ensures("a binary or multi-state entry is there", got != nil)
		if got != nil {
			vf.EnsuresEq("with its number", *got, float32(x))
		}
	}
}

// A list of n entries, all but one of which are null, whatever that one is.
//
//vf:lemma
//vf:prop C26
//vf:short 20
func zz_priority_entry(n, at uint8, v interface{}, t btypes.ObjectType) {
	vf.Assume(n <= 20)
	var list []interface{}
	for i := 0; i < int(n); i++ {
		if i == int(at) {
			list = append(list, v)
		} else {
			list = append(list, null.Null{})
		}
	}
	p := BuildFloat32(zzList(list), t)
	vf.Ensures("a priority array", p != nil)
	for i := 1; i <= 16; i++ {
		if i == int(at)+1 && at < n {
			zzEntry(zzSlot(p, i), v)
		} else {
			vf.Ensures("every other priority is empty", zzSlot(p, i) == nil)
		}
	}
}

// Sixteen entries, the first non-empty of which has the effect.
//
//vf:lemma
//vf:prop C26
func zz_priority_effective(from uint8, f, g float32, t btypes.ObjectType) {
	vf.Assume(from <= 16)
	var list []interface{}
	for i := 0; i < 16; i++ {
		switch {
		case i < int(from):
			list = append(list, null.Null{})
		case i == int(from):
			list = append(list, f)
		default:
			list = append(list, g)
		}
	}
	p := BuildFloat32(zzList(list), t)
	top := p.HighestFloat32()
	vf.Ensures("some value has the effect unless all are null", (top != nil) == (from < 16))
	if top != nil {
		vf.EnsuresEq("the first non-empty priority", *top, f)
	}
	for i := 1; i <= 16; i++ {
		s := zzSlot(p, i)
		vf.Ensures("entry n is priority n", (s != nil) == (i-1 >= int(from)))
		if i-1 > int(from) && s != nil {
			vf.EnsuresEq("with its value", *s, g)
		}
	}
}

//vf:lemma
//vf:prop C26
func zz_priority_none(t btypes.ObjectType, v interface{}) {
	if _, is := v.([]interface{}); is {
		return
	}
	for i := 0; i < 2; i++ {
		var d btypes.PropertyData
		if i == 1 {
			d.Object.Properties = []btypes.Property{{Data: v}}
		}
		p := BuildFloat32(d, t)
		vf.Ensures("a reply without an array is an empty priority array", p != nil)
		for n := 1; n <= 16; n++ {
			vf.Ensures("every priority is empty", zzSlot(p, n) == nil)
		}
		vf.Ensures("nothing has the effect", p.HighestFloat32() == nil)
	}
}

// Any priority array that is not built from a list: the effective value is the
// first that is there.
//
//vf:lemma
//vf:prop C26
func zz_priority_highest(p Float32) {
	top := p.HighestFloat32()
	for n := 1; n <= 16; n++ {
		if s := zzSlot(&p, n); s != nil {
			vf.Ensures("the first non-empty priority", top == s)
			return
		}
	}
	vf.Ensures("nothing has the effect", top == nil)
}
