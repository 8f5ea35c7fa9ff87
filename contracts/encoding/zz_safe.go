package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
)

// Whatever octets arrive: no panic, termination, bounded allocation. Each lemma
// is one way a received datagram is decoded.

//vf:lemma
//vf:prop C03 C04
//vf:term
//vf:alloc
//vf:use safe
func zz_safe_appdata(b []byte) {
	d := NewDecoder(b)
	d.AppData()
	d.AppData()
}

//vf:lemma
//vf:prop C03 C04
//vf:term
//vf:alloc
//vf:use safe
func zz_safe_bvlc(b []byte) {
	var bvlc btypes.BVLC
	NewDecoder(b).BVLC(&bvlc)
}

//vf:lemma
//vf:prop C03 C04
//vf:term
//vf:alloc
//vf:use safe
func zz_safe_npdu(b []byte) {
	var n btypes.NPDU
	NewDecoder(b).NPDU(&n)
}

//vf:lemma
//vf:prop C03 C04
//vf:term
//vf:alloc
//vf:use safe
func zz_safe_apdu(b []byte) {
	var a btypes.APDU
	NewDecoder(b).APDU(&a)
}

//vf:lemma
//vf:prop C03 C04
//vf:term
//vf:alloc
//vf:use safe
func zz_safe_iam(b []byte) {
	var i btypes.IAm
	NewDecoder(b).IAm(&i)
}

//vf:lemma
//vf:prop C03 C04
//vf:term
//vf:alloc
//vf:use safe
func zz_safe_whois(b []byte) {
	var low, high int32
	NewDecoder(b).WhoIs(&low, &high)
}

//vf:lemma
//vf:prop C03 C04
//vf:term
//vf:alloc
//vf:use safe
func zz_safe_readproperty(b []byte) {
	var p btypes.PropertyData
	NewDecoder(b).ReadProperty(&p)
}

//vf:lemma
//vf:prop C03 C04
//vf:term
//vf:alloc
//vf:use safe
//vf:merge
func zz_safe_readmultiple(b []byte) {
	var m btypes.MultiplePropertyData
	NewDecoder(b).ReadMultiplePropertyAck(&m)
}

// One after another, in the order a datagram is decoded.

//vf:lemma
//vf:prop C03 C04
//vf:term
//vf:alloc
//vf:use safe
//vf:merge
func zz_safe_datagram(b []byte, payload uint8) {
	var bvlc btypes.BVLC
	var n btypes.NPDU
	var a btypes.APDU
	d := NewDecoder(b)
	d.BVLC(&bvlc)
	d.NPDU(&n)
	d.APDU(&a)
	switch payload {
	case 0:
		var i btypes.IAm
		d.IAm(&i)
	case 1:
		var low, high int32
		d.WhoIs(&low, &high)
	case 2:
		var p btypes.PropertyData
		d.ReadProperty(&p)
	case 3:
		var m btypes.MultiplePropertyData
		d.ReadMultiplePropertyAck(&m)
	default:
		d.AppData()
	}
}
