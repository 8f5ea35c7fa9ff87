package encoding

import vf "github.com/NubeDev/bacnet/zzvf"

// Any value, appended to what the encoder holds.
//
//vf:contract (*Encoder).AppData
//vf:prop C01 C02 C10 C12
func zz_encoder_appdata(e *Encoder, i interface{}, binary bool) {
	bad := e.err != nil
	old := vf.BufBytes(e.buff)
	vf.Modifies(e.buff, &e.err)
	err := e.AppData(i, binary)
	if bad {
		vf.Ensures("an error stays", e.err != nil)
		vf.EnsuresSeq("nothing is written after an error", vf.BufBytes(e.buff), old)
		return
	}
	vf.Ensures("refused exactly when the type is not supported", (err == nil) == zzSupported(i, binary))
	vf.Ensures("a refused value leaves the encoder in error", (err == nil) == (e.err == nil))
	if err == nil {
		vf.EnsuresSeq("octets of the value", vf.BufBytes(e.buff), append(old, zzVal(i, binary)...))
	}
}
