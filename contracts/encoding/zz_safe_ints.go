package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ btypes.Object

//vf:contract (*Decoder).unsigned
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_unsigned(d *Decoder, n int) {
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err)
	d.unsigned(n)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
	vf.Ensures("something is taken, or there is an error", d.err != nil || len(now) < len(old))
}

//vf:contract (*Decoder).signed
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_signed(d *Decoder, n int) {
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err)
	d.signed(n)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}
