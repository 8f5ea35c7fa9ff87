package encoding

import vf "github.com/NubeDev/bacnet/zzvf"

//vf:contract (*Encoder).tag
//vf:prop C02
func zz_tag(e *Encoder, t tagInfo) {
	vf.Requires(!t.Opening && !t.Closing)
	old := vf.BufBytes(e.buff)
	vf.Modifies(e.buff)
	e.tag(t)
	if e.err != nil {
		vf.EnsuresSeq("nothing is written after an error", vf.BufBytes(e.buff), old)
		return
	}
	vf.EnsuresSeq("tag header octets", vf.BufBytes(e.buff), append(old, zzTag(uint8(t.ID), t.Context, t.Value)...))
}
