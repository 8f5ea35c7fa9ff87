package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

//vf:contract (*Encoder).contextObjectID
//vf:prop C09 C10 C11 C12
func zz_contextObjectID(e *Encoder, num uint8, t btypes.ObjectType, i btypes.ObjectInstance) {
	bad := e.err != nil
	old := vf.BufBytes(e.buff)
	vf.Modifies(e.buff, &e.err)
	e.contextObjectID(num, t, i)
	if bad {
		vf.Ensures("an error stays", e.err != nil)
		vf.EnsuresSeq("nothing is written after an error", vf.BufBytes(e.buff), old)
		return
	}
	vf.Ensures("an identifier out of range is an error", (e.err == nil) == (t <= 1023 && i <= 4194303))
	if e.err == nil {
		vf.EnsuresSeq("tag and identifier", vf.BufBytes(e.buff), append(old, zzCtxObjID(num, t, i)...))
	}
}
