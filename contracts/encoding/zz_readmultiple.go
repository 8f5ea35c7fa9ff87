package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

//vf:lemma
//vf:prop C11
func zz_readmultiple_encode(id uint8, data btypes.MultiplePropertyData) {
	e := NewEncoder()
	err := e.ReadMultipleProperty(id, data)
	vf.Ensures("accepted exactly when every object identifier is in range", (err == nil) == zzObjectsOk(data.Objects, false, len(data.Objects)))
	if err == nil {
		vf.EnsuresSeq("octets of the request", e.Bytes(), append(zzRequest(id, 14), zzObjects(data.Objects, false, len(data.Objects))...))
	}
}

//vf:lemma
//vf:prop C12
func zz_writemultiple_encode(id uint8, data btypes.MultiplePropertyData) {
	e := NewEncoder()
	err := e.WriteMultiProperty(id, data)
	vf.Ensures("accepted exactly when every identifier and value can be encoded", (err == nil) == zzObjectsOk(data.Objects, true, len(data.Objects)))
	if err == nil {
		vf.EnsuresSeq("octets of the request", e.Bytes(), append(zzRequest(id, 16), zzObjects(data.Objects, true, len(data.Objects))...))
	}
}
