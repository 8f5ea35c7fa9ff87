package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// What a receiver relies on, whatever the octets: kind, invoke id and content.
//
//vf:contract (*Decoder).APDU
//vf:prop C17
//vf:group handle
//vf:use safe
func zz_handle_apdu(d *Decoder, x *btypes.APDU) {
	vf.Requires(x != nil && d.err == nil && len(x.RawData) == 0 && x.InvokeId == 0 && x.UnconfirmedService == 0)
	old := vf.BufBytes(d.buff)
	vf.Modifies(d.buff, &d.err, x)
	err := d.APDU(x)
	if err != nil {
		return
	}
	vf.Ensures("a message has a header", len(old) >= 2)
	if len(old) < 2 {
		return
	}
	vf.Ensures("kind of message", byte(x.DataType) == old[0]&0xf0)
	switch x.DataType {
	case btypes.SimpleAck, btypes.ComplexAck, btypes.Error:
		vf.Ensures("a reply has an invoke id", x.InvokeId == old[1])
	case btypes.UnconfirmedServiceRequest:
		vf.Ensures("service", byte(x.UnconfirmedService) == old[1])
	}
}

//vf:contract (*Decoder).IAm
//vf:prop C17
//vf:group handle
//vf:use safe
//vf:merge
func zz_handle_dec_iam(d *Decoder, x *btypes.IAm) {
	vf.Requires(x != nil)
	vf.Modifies(d.buff, &d.err, x)
	d.IAm(x)
}

//vf:contract (*Decoder).WhoIs
//vf:prop C17
//vf:group handle
//vf:merge
func zz_handle_dec_whois(d *Decoder, low, high *int32) {
	vf.Requires(low != nil && high != nil)
	vf.Modifies(d.buff, &d.err, low, high)
	d.WhoIs(low, high)
}
