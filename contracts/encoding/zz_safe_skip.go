package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ btypes.Object

//vf:contract (*Decoder).Skip
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_Skip(d *Decoder, n uint32) {
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err)
	err := d.Skip(n)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
	vf.Ensures("the error is returned", (err == nil) == (d.err == nil))
}
