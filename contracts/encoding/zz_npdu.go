package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	vf "github.com/NubeDev/bacnet/zzvf"
)

func zz16(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }

// zzNPDU is ASHRAE 135 clause 6.2: the octets of a network header.
func zzNPDU(n *btypes.NPDU) []byte {
	dest := n.Destination != nil && n.Destination.Net != 0
	src := n.Source != nil && n.Source.Net != 0
	control := byte(n.Priority)
	if n.IsNetworkLayerMessage {
		control += 0x80
	}
	if dest {
		control += 0x20
	}
	if src {
		control += 0x08
	}
	if n.ExpectingReply {
		control += 0x04
	}
	b := []byte{n.Version, control}
	if dest {
		b = append(b, zz16(n.Destination.Net)...)
		b = append(b, n.Destination.Len)
		b = append(b, n.Destination.Adr...)
	}
	if src {
		b = append(b, zz16(n.Source.Net)...)
		b = append(b, n.Source.Len)
		b = append(b, n.Source.Adr...)
	}
	if dest {
		b = append(b, n.HopCount)
	}
	if n.IsNetworkLayerMessage {
		b = append(b, byte(n.NetworkLayerMessageType))
		if n.NetworkLayerMessageType >= 0x80 {
			b = append(b, zz16(n.VendorId)...)
		}
	}
	return b
}

// zzNPDUOk: a header that can be written.
func zzNPDUOk(n *btypes.NPDU) bool {
	return n.Priority <= 3 &&
		(n.Destination == nil || len(n.Destination.Adr) == int(n.Destination.Len)) &&
		(n.Source == nil || len(n.Source.Adr) == int(n.Source.Len))
}

//vf:lemma
//vf:prop C06
func zz_npdu_encode(n *btypes.NPDU) {
	vf.Assume(n != nil && zzNPDUOk(n))
	e := NewEncoder()
	e.NPDU(n)
	vf.Ensures("no error", e.Error() == nil)
	vf.EnsuresSeq("octets of the network header", e.Bytes(), zzNPDU(n))
}

// The octets of a header, followed by any payload, give the header back and
// leave the payload.
//
//vf:lemma
//vf:prop C06
func zz_npdu_roundtrip(n *btypes.NPDU, payload []byte) {
	vf.Assume(n != nil && zzNPDUOk(n))
	vf.Assume(!n.IsNetworkLayerMessage || n.NetworkLayerMessageType != ndpu.NetworkIs && n.NetworkLayerMessageType != ndpu.IamRouterToNetwork)
	var got btypes.NPDU
	d := NewDecoder(append(zzNPDU(n), payload...))
	nets, err := d.NPDU(&got)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	vf.Ensures("no networks listed", len(nets) == 0)
	vf.EnsuresSeq("the payload is left", d.Bytes(), payload)
	vf.Ensures("version", got.Version == n.Version)
	vf.Ensures("flags", got.IsNetworkLayerMessage == n.IsNetworkLayerMessage && got.ExpectingReply == n.ExpectingReply)
	vf.Ensures("priority", got.Priority == n.Priority)
	dest := n.Destination != nil && n.Destination.Net != 0
	src := n.Source != nil && n.Source.Net != 0
	vf.Ensures("destination present", (got.Destination != nil) == dest)
	vf.Ensures("source present", (got.Source != nil) == src)
	if dest && got.Destination != nil {
		vf.Ensures("destination network and length", got.Destination.Net == n.Destination.Net && got.Destination.Len == n.Destination.Len)
		vf.EnsuresSeq("destination address", got.Destination.Adr, n.Destination.Adr)
		vf.Ensures("hop count", got.HopCount == n.HopCount)
	}
	if src && got.Source != nil {
		vf.Ensures("source network and length", got.Source.Net == n.Source.Net && got.Source.Len == n.Source.Len)
		vf.EnsuresSeq("source address", got.Source.Adr, n.Source.Adr)
	}
	if n.IsNetworkLayerMessage {
		vf.Ensures("message type", got.NetworkLayerMessageType == n.NetworkLayerMessageType)
		if n.NetworkLayerMessageType >= 0x80 {
			vf.Ensures("vendor id", got.VendorId == n.VendorId)
		}
	}
}

// A header cut short is an error.
//
//vf:lemma
//vf:prop C06
func zz_npdu_truncated(n *btypes.NPDU, cut int) {
	vf.Assume(n != nil && zzNPDUOk(n))
	b := zzNPDU(n)
	vf.Assume(cut >= 0 && cut < len(b))
	var got btypes.NPDU
	_, err := NewDecoder(b[:cut]).NPDU(&got)
	vf.Ensures("a header cut short is an error", err != nil)
}

// Network-Number-Is yields its network number.
//
//vf:lemma
//vf:prop C06
func zz_npdu_networkis(n *btypes.NPDU, net uint16, rest []byte) {
	vf.Assume(n != nil && zzNPDUOk(n))
	vf.Assume(n.IsNetworkLayerMessage && n.NetworkLayerMessageType == ndpu.NetworkIs)
	var got btypes.NPDU
	d := NewDecoder(append(append(zzNPDU(n), zz16(net)...), rest...))
	_, err := d.NPDU(&got)
	vf.Ensures("decoded without error", err == nil)
	vf.Ensures("a source", got.Source != nil)
	if got.Source != nil {
		vf.Ensures("network number", got.Source.Net == net)
	}
}
