package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

//vf:contract (*Decoder).BVLC
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
//vf:merge
func zz_safe_dec_BVLC(d *Decoder, x *btypes.BVLC) {
	vf.Requires(x != nil && len(x.Data) == 0)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, x)
	d.BVLC(x)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

//vf:contract (*Decoder).NPDU
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
//vf:merge
func zz_safe_dec_NPDU(d *Decoder, x *btypes.NPDU) {
	vf.Requires(x != nil)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, x)
	d.NPDU(x)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

//vf:contract (*Decoder).APDU
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
//vf:merge
func zz_safe_dec_APDU(d *Decoder, x *btypes.APDU) {
	vf.Requires(x != nil)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, x)
	d.APDU(x)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

//vf:contract (*Decoder).IAm
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
//vf:merge
func zz_safe_dec_IAm(d *Decoder, x *btypes.IAm) {
	vf.Requires(x != nil)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, x)
	d.IAm(x)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

//vf:contract (*Decoder).ReadProperty
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
//vf:merge
func zz_safe_dec_ReadProperty(d *Decoder, x *btypes.PropertyData) {
	vf.Requires(x != nil)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, x)
	d.ReadProperty(x)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

//vf:contract (*Decoder).ReadMultiplePropertyAck
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
//vf:merge
func zz_safe_dec_ReadMultiplePropertyAck(d *Decoder, x *btypes.MultiplePropertyData) {
	vf.Requires(x != nil)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, x)
	d.ReadMultiplePropertyAck(x)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

//vf:contract (*Decoder).WhoIs
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
//vf:merge
func zz_safe_dec_WhoIs(d *Decoder, x, y *int32) {
	vf.Requires(x != nil && y != nil)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, x, y)
	d.WhoIs(x, y)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}
