package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzSegsCode is the code of clause 20.1.2.4 of a number of segments: the
// largest one that does not announce more.
func zzSegsCode(n uint) byte {
	switch {
	case n > 64:
		return 7
	case n == 64:
		return 6
	case n >= 32:
		return 5
	case n >= 16:
		return 4
	case n >= 8:
		return 3
	case n >= 4:
		return 2
	case n >= 2:
		return 1
	}
	return 0 // unspecified
}

// zzApduCode is the code of clause 20.1.2.5 of a standard size.
func zzApduCode(n uint) (byte, bool) {
	switch n {
	case 50:
		return 0, true
	case 128:
		return 1, true
	case 206:
		return 2, true
	case 480:
		return 3, true
	case 1024:
		return 4, true
	case 1476:
		return 5, true
	}
	return 0, false
}

// zzAPDU is ASHRAE 135 clause 20.1: the octets of an application header.
func zzAPDU(a *btypes.APDU) []byte {
	b := []byte{byte(a.DataType)}
	if a.SegmentedMessage {
		b[0] += 8
	}
	if a.MoreFollows {
		b[0] += 4
	}
	if a.SegmentedResponseAccepted {
		b[0] += 2
	}
	if a.DataType == btypes.UnconfirmedServiceRequest {
		return append(b, byte(a.UnconfirmedService))
	}
	if a.DataType == btypes.ConfirmedServiceRequest {
		size, _ := zzApduCode(a.MaxApdu)
		b = append(b, zzSegsCode(a.MaxSegs)<<4|size)
	}
	b = append(b, a.InvokeId)
	if a.SegmentedMessage {
		b = append(b, a.Sequence, a.WindowNumber)
	}
	return append(b, byte(a.Service))
}

// zzAPDUOk: a header of the three kinds with a size of the standard.
func zzAPDUOk(a *btypes.APDU) bool {
	switch a.DataType {
	case btypes.UnconfirmedServiceRequest:
		return !a.SegmentedMessage && !a.MoreFollows && !a.SegmentedResponseAccepted
	case btypes.ConfirmedServiceRequest:
		_, ok := zzApduCode(a.MaxApdu)
		return ok
	case btypes.ComplexAck:
		return !a.SegmentedResponseAccepted
	}
	return false
}

//vf:lemma
//vf:prop C07
func zz_apdu_encode(a btypes.APDU) {
	vf.Assume(zzAPDUOk(&a))
	e := NewEncoder()
	err := e.APDU(a)
	vf.Ensures("no error", err == nil && e.Error() == nil)
	vf.EnsuresSeq("octets of the application header", e.Bytes(), zzAPDU(&a))
}

// Whatever the size and number of segments.
//
//vf:lemma
//vf:prop C07
func zz_apdu_segments(segs, size uint) {
	e := NewEncoder()
	err := e.APDU(btypes.APDU{DataType: btypes.ConfirmedServiceRequest, MaxSegs: segs, MaxApdu: size})
	b := e.Bytes()
	vf.Ensures("four octets", err == nil && e.Error() == nil && len(b) == 4)
	if len(b) != 4 {
		return
	}
	code := b[1] >> 4
	vf.Ensures("no more segments announced than given", code == 0 || code < 7 && uint(1)<<code <= segs || code == 7 && segs > 64)
	if c, ok := zzApduCode(size); ok {
		vf.Ensures("code of the size", b[1]&15 == c)
	}
}

// The octets of a header, followed by any payload, give the header back and
// the payload.
//
//vf:lemma
//vf:prop C07
func zz_apdu_roundtrip(a btypes.APDU, payload []byte) {
	vf.Assume(zzAPDUOk(&a))
	var got btypes.APDU
	d := NewDecoder(append(zzAPDU(&a), payload...))
	err := d.APDU(&got)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	vf.Ensures("type", got.DataType == a.DataType)
	vf.Ensures("flags", got.SegmentedMessage == a.SegmentedMessage && got.MoreFollows == a.MoreFollows &&
		got.SegmentedResponseAccepted == a.SegmentedResponseAccepted)
	if a.DataType == btypes.UnconfirmedServiceRequest {
		vf.Ensures("service", got.UnconfirmedService == a.UnconfirmedService)
		vf.EnsuresSeq("the rest is the payload", got.RawData, payload)
		return
	}
	vf.Ensures("invoke id", got.InvokeId == a.InvokeId)
	vf.Ensures("service", got.Service == a.Service)
	if a.SegmentedMessage {
		vf.Ensures("sequence and window", got.Sequence == a.Sequence && got.WindowNumber == a.WindowNumber)
	}
	if a.DataType == btypes.ConfirmedServiceRequest {
		vf.Ensures("maximum size", got.MaxApdu == a.MaxApdu)
		vf.EnsuresSeq("the rest is the payload", got.RawData, payload)
	} else {
		vf.EnsuresSeq("the payload is left", d.Bytes(), payload)
	}
}

// A simple acknowledgement.
//
//vf:lemma
//vf:prop C07
func zz_apdu_simpleack(id, service uint8) {
	var got btypes.APDU
	d := NewDecoder([]byte{byte(btypes.SimpleAck), id, service})
	err := d.APDU(&got)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	vf.Ensures("type, invoke id and service", got.DataType == btypes.SimpleAck && got.InvokeId == id && got.Service == btypes.ServiceConfirmed(service))
}

// A header cut short is an error.
//
//vf:lemma
//vf:prop C07
func zz_apdu_truncated(a btypes.APDU, cut int) {
	vf.Assume(zzAPDUOk(&a))
	b := zzAPDU(&a)
	vf.Assume(cut >= 0 && cut < len(b))
	var got btypes.APDU
	d := NewDecoder(b[:cut])
	err := d.APDU(&got)
	vf.Ensures("a header cut short is an error", err != nil || d.Error() != nil)
}
