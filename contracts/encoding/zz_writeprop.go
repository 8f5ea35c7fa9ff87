package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzBinary: the value is the present value of a binary output or binary value.
func zzBinary(o btypes.ObjectID, p btypes.PropertyType) bool {
	return (o.Type == 4 || o.Type == 5) && p == 85
}

//vf:lemma
//vf:prop C10
func zz_writeprop_encode(id uint8, data btypes.PropertyData) {
	e := NewEncoder()
	err := e.WriteProperty(id, data)
	if len(data.Object.Properties) == 0 {
		vf.Ensures("a request without a property is refused", err != nil)
		return
	}
	p := data.Object.Properties[0]
	o := data.Object.ID
	bin := zzBinary(o, p.Type)
	vf.Ensures("accepted exactly when identifier, property and value can be encoded", (err == nil) == (zzPropRefOk(o, p.Type) && zzSupported(p.Data, bin)))
	if err == nil {
		want := append(zzRequest(id, 15), zzPropRef(o, p.Type, p.ArrayIndex)...)
		want = append(want, zzBracket(3, 6)...)
		want = append(want, zzVal(p.Data, bin)...)
		want = append(want, zzBracket(3, 7)...)
		if p.Priority != 0 {
			want = append(want, zzTagged(4, true, zzUint(uint32(p.Priority)))...)
		}
		vf.EnsuresSeq("octets of the request", e.Bytes(), want)
	}
}
