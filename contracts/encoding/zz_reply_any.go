package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// What a client relies on for the content of a reply it knows nothing about.

//vf:contract (*Decoder).ReadProperty
//vf:prop C18
//vf:group reply
//vf:use safe
//vf:merge
func zz_reply_ReadProperty(d *Decoder, x *btypes.PropertyData) {
	vf.Requires(x != nil)
	was := d.err
	vf.Modifies(d.buff, &d.err, x)
	d.ReadProperty(x)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

//vf:contract (*Decoder).ReadMultiplePropertyAck
//vf:prop C18
//vf:group reply
//vf:use safe
//vf:merge
func zz_reply_ReadMultiplePropertyAck(d *Decoder, x *btypes.MultiplePropertyData) {
	vf.Requires(x != nil)
	was := d.err
	vf.Modifies(d.buff, &d.err, x)
	d.ReadMultiplePropertyAck(x)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

// The header of a reply: nothing is said of one with an error.
//
//vf:contract (*Decoder).APDU
//vf:prop C18
//vf:group reply
//vf:use safe
//vf:merge
func zz_reply_APDU(d *Decoder, a *btypes.APDU) {
	vf.Requires(a != nil && d.err == nil)
	b, was := vf.BufBytes(d.buff), a.Error
	vf.Modifies(d.buff, &d.err, a)
	err := d.APDU(a)
	if len(b) >= 3 && (b[0]>>4 == 2 || b[0]>>4 == 3 && b[0]&8 == 0) {
		vf.Ensures("an acknowledgement is decoded", err == nil && a.Error == was)
	}
	if err != nil {
		return
	}
	vf.Ensures("of the type the octets say", len(b) > 0 && byte(a.DataType) == b[0]&0xf0)
	if a.DataType == btypes.ComplexAck || a.DataType == btypes.SimpleAck {
		vf.Ensures("long enough for a header", len(b) >= 3)
		if len(b) < 3 {
			return
		}
		vf.Ensures("segmented or not", a.SegmentedMessage == (b[0]&8 != 0))
		vf.Ensures("of the service", a.SegmentedMessage && a.DataType == btypes.ComplexAck || byte(a.Service) == b[2])
	}
}
