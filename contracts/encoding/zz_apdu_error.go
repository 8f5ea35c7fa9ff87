package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzErrorPDU is the octets of an error reply (clauses 20.1.7 and 21): class
// and code are enumerated, bare or wrapped in an opening and closing tag.
func zzErrorPDU(id, service uint8, class, code uint32, wrapped bool, num uint8) []byte {
	b := []byte{0x50, id, service}
	if wrapped {
		b = append(b, zzBracket(num, 6)...)
	}
	b = append(b, zzTagged(9, false, zzUintOctets(class))...)
	b = append(b, zzTagged(9, false, zzUintOctets(code))...)
	if wrapped {
		b = append(b, zzBracket(num, 7)...)
	}
	return b
}

//vf:lemma
//vf:prop C08
func zz_error_decode(id, service uint8, class, code uint32, wrapped bool, num uint8, rest []byte) {
	vf.Assume(class <= 65535)
	var a btypes.APDU
	d := NewDecoder(append(zzErrorPDU(id, service, class, code, wrapped, num), rest...))
	err := d.APDU(&a)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	vf.Ensures("type, invoke id and service", a.DataType == btypes.Error && a.InvokeId == id && a.Service == btypes.ServiceConfirmed(service))
	vf.Ensures("error class", a.Error.Class == bacerr.ErrorClass(class))
	vf.Ensures("error code", a.Error.Code == bacerr.ErrorCode(code))
}

//vf:lemma
//vf:prop C08
func zz_error_truncated(id, service uint8, class, code uint32, wrapped bool, num uint8, cut int) {
	b := zzErrorPDU(id, service, class, code, wrapped, num)
	vf.Assume(cut >= 0 && cut < len(b))
	var a btypes.APDU
	d := NewDecoder(b[:cut])
	err := d.APDU(&a)
	vf.Ensures("a truncated error reply is an error", err != nil || d.Error() != nil)
}
