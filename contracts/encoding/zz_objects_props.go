package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

//vf:contract (*Encoder).properties
//vf:prop C11 C12
func zz_properties(e *Encoder, props []btypes.Property, write bool) {
	bad := e.err != nil
	old := vf.BufBytes(e.buff)
	vf.Modifies(e.buff, &e.err)
	ok := func() bool { return e.err == nil }
	vf.LoopInv(func(k int) bool { return ok() == (!bad && zzPropsOk(props, write, k)) })
	vf.LoopBufWhen(e.buff, func() bool { return bad || ok() }, func(k int) []byte {
		if bad {
			return old
		}
		return append(old, zzProps(props, write, k)...)
	})
	e.properties(props, write)
	if bad {
		vf.Ensures("an error stays", e.err != nil)
		vf.EnsuresSeq("nothing is written after an error", vf.BufBytes(e.buff), old)
		return
	}
	vf.Ensures("an error exactly when a value cannot be encoded", ok() == zzPropsOk(props, write, len(props)))
	if ok() {
		vf.EnsuresSeq("octets of all properties in order", vf.BufBytes(e.buff), append(old, zzProps(props, write, len(props))...))
	}
}
