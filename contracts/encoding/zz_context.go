package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzCtxUint is an unsigned or enumerated under a context tag.
//
//vf:opaque
//vf:nonempty
func zzCtxUint(num uint8, v uint32) []byte { return zzTagged(num, true, zzUint(v)) }

// zzCtxObjID is an object identifier under a context tag.
//
//vf:opaque
//vf:nonempty
func zzCtxObjID(num uint8, t btypes.ObjectType, i btypes.ObjectInstance) []byte {
	return zzTagged(num, true, zzObjID(t, i))
}

//vf:contract (*Encoder).contextUnsigned
//vf:prop C09 C10 C11 C12
func zz_contextUnsigned(e *Encoder, num uint8, v uint32) {
	old := vf.BufBytes(e.buff)
	vf.Modifies(e.buff)
	e.contextUnsigned(num, v)
	if e.err != nil {
		vf.EnsuresSeq("nothing is written after an error", vf.BufBytes(e.buff), old)
		return
	}
	vf.EnsuresSeq("tag and content", vf.BufBytes(e.buff), append(old, zzCtxUint(num, v)...))
}
