package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzBVLC is the four octets of a BACnet/IP header (annex J.2).
func zzBVLC(t byte, f btypes.BacFunc, length uint16) []byte {
	return []byte{t, byte(f), byte(length >> 8), byte(length)}
}

//vf:lemma
//vf:prop C16
func zz_bvlc_encode(b btypes.BVLC) {
	e := NewEncoder()
	err := e.BVLC(b)
	vf.Ensures("encoded without error", err == nil)
	vf.EnsuresSeq("octets of the header and the payload", e.Bytes(), append(zzBVLC(b.Type, b.Function, b.Length), b.Data...))
}

//vf:lemma
//vf:prop C16
func zz_bvlc_decode(t byte, f btypes.BacFunc, length uint16, rest []byte) {
	var got btypes.BVLC
	d := NewDecoder(append(zzBVLC(t, f, length), rest...))
	err := d.BVLC(&got)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	vf.Ensures("type", got.Type == t)
	vf.Ensures("function", got.Function == f)
	vf.Ensures("length", got.Length == length)
	vf.EnsuresSeq("the payload remains", d.Bytes(), rest)
}

//vf:lemma
//vf:prop C16
func zz_bvlc_truncated(t byte, f btypes.BacFunc, length uint16, cut int) {
	vf.Assume(cut >= 0 && cut < 4)
	var got btypes.BVLC
	d := NewDecoder(zzBVLC(t, f, length)[:cut])
	err := d.BVLC(&got)
	vf.Ensures("a truncated header is an error", err != nil || d.Error() != nil)
}
