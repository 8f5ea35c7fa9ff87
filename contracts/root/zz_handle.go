package bacnet

import (
	"context"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/encoding"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzOpen takes a transaction id.
func zzOpen(c *client) int {
	id, err := c.tsm.ID(context.Background())
	vf.Assume(err == nil)
	return id
}

// zzNet is the octets of a network header (clause 6.2) without destination;
// routed says that the message comes from a device behind a router.
func zzNet(routed bool, net uint16, adr []byte) []byte {
	if !routed {
		return []byte{1, 0}
	}
	return append([]byte{1, 8, byte(net >> 8), byte(net), byte(len(adr))}, adr...)
}

func zzCat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

// zzDirect: the octets of a message that came straight from its sender, or
// through a BBMD, in which case they name the sender.
func zzDirect(broadcast, forwarded bool, from [6]byte, npdu []byte) []byte {
	if forwarded {
		return zzFrame(4, append(from[:], npdu...))
	}
	if broadcast {
		return zzFrame(11, npdu)
	}
	return zzFrame(10, npdu)
}

//vf:lemma
//vf:prop C17
func zz_handle_ack(src btypes.Address, broadcast, forwarded bool, from [6]byte, routed bool, net uint16, adr []byte, complex bool, flags, invoke uint8, rest []byte) {
	vf.Assume(len(adr) <= 255 && len(rest) >= 3 && len(rest) < 2000 && flags < 16)
	c := zzClient(&zzLink{})
	one, two := zzOpen(c), zzOpen(c)
	pdu := append([]byte{0x20 | flags, invoke}, rest...)
	if complex {
		pdu = append([]byte{0x30 | flags, invoke}, rest...)
	}
	go c.handleMsg(&src, zzDirect(broadcast, forwarded, from, zzCat(zzNet(routed, net, adr), pdu)))
	got, err := c.tsm.Receive(one, zzSoon)
	vf.Ensures("delivered to the transaction exactly when it has the invoke id", (err == nil) == (int(invoke) == one))
	if err == nil {
		b, ok := got.([]byte)
		vf.Ensures("an acknowledgement is delivered as octets", ok)
		vf.EnsuresSeq("the acknowledgement is delivered unchanged", b, pdu)
	}
	got, err = c.tsm.Receive(two, zzSoon)
	vf.Ensures("delivered to the other transaction exactly when it has the invoke id", (err == nil) == (int(invoke) == two))
	if err == nil {
		b, ok := got.([]byte)
		vf.Ensures("an acknowledgement is delivered as octets", ok)
		vf.EnsuresSeq("the acknowledgement is delivered unchanged", b, pdu)
	}
}

//vf:lemma
//vf:prop C17
//vf:sealed bacerr.ErrorClass.String bacerr.ErrorCode.String
func zz_handle_error(src btypes.Address, routed bool, net uint16, adr []byte, invoke, service, class, code uint8) {
	vf.Assume(len(adr) <= 255)
	c := zzClient(&zzLink{})
	one, two := zzOpen(c), zzOpen(c)
	pdu := []byte{0x50, invoke, service, 0x91, class, 0x91, code}
	go c.handleMsg(&src, zzFrame(10, zzCat(zzNet(routed, net, adr), pdu)))
	for _, id := range []int{one, two} {
		got, err := c.tsm.Receive(id, zzSoon)
		vf.Ensures("delivered to exactly the transaction with the invoke id", (err == nil) == (int(invoke) == id))
		if err != nil {
			continue
		}
		e, ok := got.(error)
		vf.Ensures("delivered as an error", ok)
		k, d := bacerr.ErrorClass(class), bacerr.ErrorCode(code)
		vf.Ensures("that names the class", vf.Names(e, k, k.String(), class))
		vf.Ensures("that names the code", vf.Names(e, d, d.String(), code))
	}
}

//vf:lemma
//vf:prop C17
func zz_handle_iam(src btypes.Address, broadcast, forwarded bool, from [6]byte, routed bool, net uint16, adr []byte, iam btypes.IAm, start, end int) {
	vf.Assume(len(adr) <= 255 && iam.ID.Type == btypes.DeviceType && iam.ID.Instance <= 4194303)
	c := zzClient(&zzLink{})
	one := zzOpen(c)
	enc := encoding.NewEncoder()
	vf.Assume(enc.IAm(iam) == nil && len(enc.Bytes()) < 100) // its octets are the subject of C15
	go c.handleMsg(&src, zzDirect(broadcast, forwarded, from, zzCat(zzNet(routed, net, adr), enc.Bytes())))
	got, err := c.utsm.Subscribe(start, end)
	vf.Ensures("a subscription ends without error", err == nil)
	if int(iam.ID.Instance) < start || int(iam.ID.Instance) > end {
		vf.Ensures("announced under the instance number only", len(got) == 0)
	} else {
		vf.Ensures("announced once", len(got) == 1)
		if len(got) != 1 {
			return
		}
		r, ok := got[0].(btypes.IAm)
		vf.Ensures("announced as an I-Am", ok)
		vf.Ensures("the identity announced", r.ID == iam.ID && r.MaxApdu == iam.MaxApdu && r.Segmentation == iam.Segmentation && r.Vendor == iam.Vendor)
		want := src
		if forwarded {
			want = btypes.Address{Mac: from[:], MacLen: 6}
		}
		if routed && net > 0 {
			want.Net = net
		}
		if routed && len(adr) > 0 {
			want.Adr = adr
		}
		vf.Ensures("the network number of the routed source, or else of the sender", r.Addr.Net == want.Net)
		vf.EnsuresSeq("the hardware address of the routed source, or else of the sender", r.Addr.Adr, want.Adr)
		vf.EnsuresSeq("the address of the sender", r.Addr.Mac, want.Mac)
		vf.Ensures("the length of the address of the sender", r.Addr.MacLen == want.MacLen)
	}
	_, err = c.tsm.Receive(one, zzSoon)
	vf.Ensures("no transaction gets an I-Am", err != nil)
}
