package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzIAm is the content of an I-Am (clause 16.10.2): object identifier,
// unsigned maximum size, enumerated segmentation, unsigned vendor.
func zzIAm(id btypes.IAm) []byte {
	b := zzTagged(12, false, zzObjID(id.ID.Type, id.ID.Instance))
	b = append(b, zzTagged(2, false, zzUint(id.MaxApdu))...)
	b = append(b, zzTagged(9, false, zzUint(uint32(id.Segmentation)))...)
	return append(b, zzTagged(2, false, zzUint(id.Vendor))...)
}

func zzIAmOk(id btypes.IAm) bool { return id.ID.Type <= 1023 && id.ID.Instance <= 4194303 }

//vf:lemma
//vf:prop C15
func zz_iam_encode(id btypes.IAm) {
	e := NewEncoder()
	err := e.IAm(id)
	vf.Ensures("accepted exactly when the identifier is in range", (err == nil) == zzIAmOk(id))
	if err == nil {
		vf.EnsuresSeq("octets of the I-Am", e.Bytes(), append([]byte{0x10, 0}, zzIAm(id)...))
	}
}

//vf:lemma
//vf:prop C15
func zz_iam_decode(id btypes.IAm, rest []byte) {
	vf.Assume(zzIAmOk(id))
	var got btypes.IAm
	d := NewDecoder(append(zzIAm(id), rest...))
	err := d.IAm(&got)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	vf.Ensures("object identifier", got.ID == id.ID)
	vf.Ensures("maximum size", got.MaxApdu == id.MaxApdu)
	vf.Ensures("segmentation", got.Segmentation == id.Segmentation)
	vf.Ensures("vendor", got.Vendor == id.Vendor)
	vf.EnsuresSeq("exactly the I-Am is consumed", d.Bytes(), rest)
}

//vf:lemma
//vf:prop C15
func zz_iam_truncated(id btypes.IAm, cut int) {
	vf.Assume(zzIAmOk(id))
	b := zzIAm(id)
	vf.Assume(cut >= 0 && cut < len(b))
	var got btypes.IAm
	d := NewDecoder(b[:cut])
	err := d.IAm(&got)
	vf.Ensures("a truncated I-Am is an error", err != nil || d.Error() != nil)
}
