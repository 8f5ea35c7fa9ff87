package encoding

import vf "github.com/NubeDev/bacnet/zzvf"

// The octets of an unsigned value, whatever follows them.
//
//vf:contract (*Decoder).unsigned
//vf:prop C01 C05 C13 C14
//vf:ghost zzUint
func zz_decoder_unsigned(d *Decoder, length int, v uint32, rest []byte) {
	vf.Requires(d.err == nil && length == int(zzUintLen(v)))
	vf.Front(d.buff, zzUint(v), rest)
	vf.Modifies(d.buff)
	got := d.unsigned(length)
	vf.Ensures("no error", d.err == nil)
	vf.Ensures("the value sent", got == v)
	vf.EnsuresSeq("what follows is left", vf.BufBytes(d.buff), rest)
}
