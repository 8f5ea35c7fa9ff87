package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ btypes.Object

//vf:contract (*Decoder).tagNumber
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_tagNumber(d *Decoder) {
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err)
	tag, _ := d.tagNumber()
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
	vf.Ensures("something is taken, or there is an error", d.err != nil || len(now) < len(old))
	vf.Ensures("without octets there is no tag", tag == 0 || len(now) < len(old))
}

//vf:contract (*Decoder).value
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_value(d *Decoder, meta tagMeta) {
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err)
	d.value(meta)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

//vf:contract (*Decoder).tagNumberAndValue
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_tagNumberAndValue(d *Decoder) {
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err)
	tag, _, _ := d.tagNumberAndValue()
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
	vf.Ensures("something is taken, or there is an error", d.err != nil || len(now) < len(old))
	vf.Ensures("without octets there is no tag", tag == 0 || len(now) < len(old))
}
