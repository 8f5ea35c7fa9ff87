package encoding

import vf "github.com/NubeDev/bacnet/zzvf"

//vf:contract (*Encoder).contextEnumerated
//vf:prop C09 C10 C11 C12
func zz_contextEnumerated(e *Encoder, num uint8, v uint32) {
	old := vf.BufBytes(e.buff)
	vf.Modifies(e.buff)
	e.contextEnumerated(num, v)
	if e.err != nil {
		vf.EnsuresSeq("nothing is written after an error", vf.BufBytes(e.buff), old)
		return
	}
	vf.EnsuresSeq("tag and content", vf.BufBytes(e.buff), append(old, zzCtxUint(num, v)...))
}
