package encoding

import vf "github.com/NubeDev/bacnet/zzvf"

// The octets of a signed value, whatever follows them.
//
//vf:contract (*Decoder).signed
//vf:prop C01 C05 C13 C14
//vf:ghost zzInt
func zz_decoder_signed(d *Decoder, length int, v int32, rest []byte) {
	vf.Requires(d.err == nil && length == int(zzIntLen(v)))
	vf.Front(d.buff, zzInt(v), rest)
	vf.Modifies(d.buff)
	got := d.signed(length)
	vf.Ensures("no error", d.err == nil)
	vf.Ensures("the value sent", got == v)
	vf.EnsuresSeq("what follows is left", vf.BufBytes(d.buff), rest)
}
