package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

func zzInstance(n int32) bool { return n >= 0 && n <= 4194303 }

// zzRange is the optional range of a Who-Is (clause 16.10): both limits as
// unsigned numbers under tags 0 and 1, or nothing.
func zzRange(low, high int32) []byte {
	if !zzInstance(low) || !zzInstance(high) {
		return nil
	}
	return append(zzTagged(0, true, zzUint(uint32(low))), zzTagged(1, true, zzUint(uint32(high)))...)
}

//vf:lemma
//vf:prop C15
func zz_whois_encode(low, high int32) {
	e := NewEncoder()
	err := e.WhoIs(low, high)
	vf.Ensures("encoded without error", err == nil)
	vf.EnsuresSeq("octets of the Who-Is", e.Bytes(), append([]byte{0x10, 8}, zzRange(low, high)...))
}

//vf:lemma
//vf:prop C15
func zz_whois_decode(low, high int32, l, h int32) {
	d := NewDecoder(zzRange(low, high))
	err := d.WhoIs(&l, &h)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	if zzInstance(low) && zzInstance(high) {
		vf.Ensures("low limit", l == low)
		vf.Ensures("high limit", h == high)
	} else {
		vf.Ensures("all devices", l == btypes.WhoIsAll && h == btypes.WhoIsAll)
	}
}

// The whole message, through the header codec, as a receiver reads it.
//
//vf:lemma
//vf:prop C15
func zz_whois_message(low, high int32) {
	e := NewEncoder()
	err := e.WhoIs(low, high)
	vf.Ensures("encoded without error", err == nil)
	var a btypes.APDU
	d := NewDecoder(e.Bytes())
	err = d.APDU(&a)
	vf.Ensures("header decoded", err == nil && d.Error() == nil)
	vf.Ensures("an unconfirmed Who-Is", a.DataType == btypes.UnconfirmedServiceRequest && a.UnconfirmedService == btypes.ServiceUnconfirmedWhoIs)
	vf.EnsuresSeq("the range is the rest", a.RawData, zzRange(low, high))
}

//vf:lemma
//vf:prop C15
func zz_whois_truncated(low, high int32, cut int) {
	b := zzRange(low, high)
	vf.Assume(cut > 0 && cut < len(b))
	var l, h int32
	d := NewDecoder(b[:cut])
	err := d.WhoIs(&l, &h)
	vf.Ensures("a truncated range is an error", err != nil || d.Error() != nil)
}
