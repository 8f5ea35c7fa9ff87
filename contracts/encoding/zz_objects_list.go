package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

//vf:contract (*Encoder).objects
//vf:prop C11 C12
func zz_enc_objects(e *Encoder, objs []btypes.Object, write bool) {
	bad := e.err != nil
	old := vf.BufBytes(e.buff)
	vf.Modifies(e.buff, &e.err)
	ok := func() bool { return e.err == nil }
	vf.LoopInv(func(k int) bool { return ok() == (!bad && zzObjectsOk(objs, write, k)) })
	vf.LoopBufWhen(e.buff, func() bool { return bad || ok() }, func(k int) []byte {
		if bad {
			return old
		}
		return append(old, zzObjects(objs, write, k)...)
	})
	err := e.objects(objs, write)
	if bad {
		vf.Ensures("an error stays", e.err != nil)
		vf.EnsuresSeq("nothing is written after an error", vf.BufBytes(e.buff), old)
		return
	}
	vf.Ensures("an error exactly when an identifier or value cannot be encoded", (ok() && err == nil) == zzObjectsOk(objs, write, len(objs)))
	if ok() {
		vf.EnsuresSeq("octets of all objects in order", vf.BufBytes(e.buff), append(old, zzObjects(objs, write, len(objs))...))
	}
}
