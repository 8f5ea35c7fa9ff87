package bacnet

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzNetHeader is the number of octets of the network header that b starts with
// (clause 6.2.2), or ok false if b is too short for it.
func zzNetHeader(b []byte) (n int, ok bool) {
	if len(b) < 2 {
		return 0, false
	}
	n = 2
	for _, bit := range [2]byte{0x20, 0x08} {
		if b[1]&bit != 0 {
			if len(b) < n+3 {
				return 0, false
			}
			n += 3 + int(b[n+2])
		}
	}
	if b[1]&0x20 != 0 {
		n++
	}
	if b[1]&0x80 != 0 {
		n++
	}
	return n, n <= len(b)
}

// What comes in after a whole network header is not taken for a reply unless
// it is an acknowledgement or an error with the transaction's invoke id.
//
//vf:lemma
//vf:prop C17
//vf:use handle
//vf:sealed bacerr.ErrorClass.String bacerr.ErrorCode.String
func zz_handle_any(src btypes.Address, b []byte) {
	c := zzClient(&zzLink{})
	one := zzOpen(c)
	go c.handleMsg(&src, append([]byte{}, b...))
	got, err := c.tsm.Receive(one, zzSoon)
	if err != nil {
		return
	}
	vf.Ensures("a reply comes in a whole BACnet/IP datagram", len(b) >= 4 && b[0] == 0x81 && int(b[2])<<8|int(b[3]) == len(b))
	vf.Ensures("a reply comes in a message for this device", b[1] == 4 && len(b) >= 10 || b[1] == 10 || b[1] == 11)
	net := b[4:]
	if b[1] == 4 {
		net = b[10:]
	}
	n, ok := zzNetHeader(net)
	vf.Ensures("a reply has a whole network header", ok)
	vf.Ensures("a reply is of version 1 and of the application layer", net[0] == 1 && net[1]&0x80 == 0)
	apdu := net[n:]
	vf.Ensures("a reply has an invoke id", len(apdu) >= 2)
	vf.Ensures("a reply has the invoke id of the transaction", int(apdu[1]) == one)
	switch r := got.(type) {
	case []byte:
		vf.Ensures("octets are an acknowledgement", apdu[0]>>4 == 2 || apdu[0]>>4 == 3)
		vf.EnsuresSeq("an acknowledgement is delivered unchanged", r, apdu)
	case error:
		vf.Ensures("an error is an error reply", apdu[0]>>4 == 5)
	default:
		vf.Ensures("a reply is octets or an error", false)
	}
}

// Nor is anything announced but an I-Am, or what the network layer answers.
//
//vf:lemma
//vf:prop C17
//vf:use handle
//vf:sealed bacerr.ErrorClass.String bacerr.ErrorCode.String
func zz_handle_any_announced(src btypes.Address, b []byte, start, end int) {
	c := zzClient(&zzLink{})
	go c.handleMsg(&src, append([]byte{}, b...))
	got, _ := c.utsm.Subscribe(start, end)
	if len(got) == 0 {
		return
	}
	vf.Ensures("announced once", len(got) == 1)
	vf.Ensures("announced from a whole BACnet/IP datagram", len(b) >= 4 && b[0] == 0x81 && int(b[2])<<8|int(b[3]) == len(b))
	vf.Ensures("announced from a message for this device", b[1] == 4 && len(b) >= 10 || b[1] == 10 || b[1] == 11)
	net := b[4:]
	if b[1] == 4 {
		net = b[10:]
	}
	n, ok := zzNetHeader(net)
	vf.Ensures("announced from a whole network header", ok)
	vf.Ensures("announced from version 1", net[0] == 1)
	network := net[1]&0x80 != 0
	switch got[0].(type) {
	case btypes.IAm:
		vf.Ensures("an I-Am is an unconfirmed I-Am", !network && len(net)-n >= 2 && net[n]>>4 == 1 && net[n+1] == 0)
	case btypes.NPDU:
		vf.Ensures("a network number is the answer Network-Number-Is", network && net[n-1] == 0x13)
	case []btypes.Address:
		vf.Ensures("networks are the answer I-Am-Router-To-Network", network && net[n-1] == 1)
	default:
		vf.Ensures("announced is an I-Am or an answer of the network layer", false)
	}
}
