package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzSent is a value a device may send: v, or null where v is none.
func zzSent(v interface{}) interface{} {
	if zzSupported(v, false) {
		return v
	}
	return null.Null{}
}

// zzSentVal is the octets of a value sent.
//
//vf:opaque
//vf:nonempty
func zzSentVal(v interface{}) []byte { return zzVal(zzSent(v), false) }

// zzBack is what a value sent comes back as: an enumerated as its number.
func zzBack(v interface{}) interface{} {
	if n, ok := v.(btypes.Enumerated); ok {
		return uint32(n)
	}
	return v
}

// zzBackSent is what a value sent comes back as.
//
//vf:opaque
func zzBackSent(v interface{}) interface{} { return zzBack(zzSent(v)) }

// The octets of the last m values.
//
//vf:fold
func zzValsFrom(vals []interface{}, m int) []byte {
	if m == 0 {
		return nil
	}
	return append(zzSentVal(vals[len(vals)-m]), zzValsFrom(vals, m-1)...)
}

// The first k values as they come back.
//
//vf:fold
func zzGot(vals []interface{}, k int) []interface{} {
	if k == 0 {
		return nil
	}
	return append(zzGot(vals, k-1), zzBackSent(vals[k-1]))
}

// A well-formed reply yields object, property, index and all its values.
//
//vf:lemma
//vf:prop C13
func zz_readreply_decode(o btypes.ObjectID, p btypes.PropertyType, index uint32, vals []interface{}) {
	vf.Assume(zzPropRefOk(o, p) && len(vals) > 0)
	b := append(zzPropRef(o, p, index), zzBracket(3, 6)...)
	b = append(b, zzValsFrom(vals, len(vals))...)
	b = append(b, zzBracket(3, 7)...)
	d := NewDecoder(b)
	vf.LoopInv(func(k int) bool { return k <= len(vals) && len(zzGot(vals, k)) == k })
	vf.LoopInv(func(k int) bool { return d.err == nil })
	vf.LoopBuf(d.buff, func(k int) []byte { return append(zzValsFrom(vals, len(vals)-k), 0x3f) })
	vf.LoopList(func(k int) []interface{} { return zzGot(vals, k) })
	var got btypes.PropertyData
	err := d.ReadProperty(&got)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	vf.Ensures("same object", got.Object.ID == o)
	vf.Ensures("one property", len(got.Object.Properties) == 1)
	if len(got.Object.Properties) != 1 {
		return
	}
	vf.Ensures("same property", got.Object.Properties[0].Type == p)
	vf.Ensures("same array index", got.Object.Properties[0].ArrayIndex == index)
	data := got.Object.Properties[0].Data
	if len(vals) == 1 {
		vf.EnsuresEq("the value itself", data, zzBackSent(vals[0]))
	} else {
		vf.EnsuresEq("all values in order", data, zzGot(vals, len(vals)))
	}
}
