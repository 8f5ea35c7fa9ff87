package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzRequest is the header of a confirmed request of this client: not
// segmented, number of segments unspecified, up to 1476 octets.
func zzRequest(id, service uint8) []byte { return []byte{0, 0x05, id, service} }

// zzPropRef is object identifier, property and, unless the whole array is
// meant, array index, under tags 0, 1 and 2.
func zzPropRef(o btypes.ObjectID, p btypes.PropertyType, index uint32) []byte {
	b := zzTagged(0, true, zzObjID(o.Type, o.Instance))
	b = append(b, zzTagged(1, true, zzUint(uint32(p)))...)
	if index != 0xffffffff {
		b = append(b, zzTagged(2, true, zzUint(index))...)
	}
	return b
}

func zzPropRefOk(o btypes.ObjectID, p btypes.PropertyType) bool {
	return o.Type <= 1023 && o.Instance <= 4194303 && p <= 4194303
}

//vf:lemma
//vf:prop C09
func zz_readprop_encode(id uint8, data btypes.PropertyData) {
	e := NewEncoder()
	err := e.ReadProperty(id, data)
	if len(data.Object.Properties) == 0 {
		vf.Ensures("a request without a property is refused", err != nil)
		return
	}
	p := data.Object.Properties[0]
	vf.Ensures("accepted exactly when object and property are in range", (err == nil) == zzPropRefOk(data.Object.ID, p.Type))
	if err == nil {
		vf.EnsuresSeq("octets of the request", e.Bytes(), append(zzRequest(id, 12), zzPropRef(data.Object.ID, p.Type, p.ArrayIndex)...))
	}
}

//vf:lemma
//vf:prop C09
func zz_readprop_roundtrip(o btypes.ObjectID, p btypes.PropertyType, index uint32) {
	vf.Assume(zzPropRefOk(o, p))
	var got btypes.PropertyData
	d := NewDecoder(zzPropRef(o, p, index))
	err := d.ReadProperty(&got)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	vf.Ensures("same object", got.Object.ID == o)
	vf.Ensures("one property", len(got.Object.Properties) == 1)
	if len(got.Object.Properties) == 1 {
		vf.Ensures("same property", got.Object.Properties[0].Type == p)
		vf.Ensures("same array index", got.Object.Properties[0].ArrayIndex == index)
	}
}
