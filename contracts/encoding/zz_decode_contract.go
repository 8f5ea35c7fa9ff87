package encoding

import vf "github.com/NubeDev/bacnet/zzvf"

// The octets of a value sent, whatever follows them.
//
//vf:contract (*Decoder).AppData
//vf:prop C01 C05 C13 C14
//vf:ghost zzSentVal
func zz_decoder_appdata(d *Decoder, v interface{}, rest []byte) {
	vf.Requires(d.err == nil)
	vf.Front(d.buff, zzSentVal(v), rest)
	vf.Modifies(d.buff)
	got, err := d.AppData()
	vf.Ensures("decoded without error", err == nil && d.err == nil)
	vf.EnsuresEq("the value sent", got, zzBackSent(v))
	vf.EnsuresSeq("what follows is left", vf.BufBytes(d.buff), rest)
}
