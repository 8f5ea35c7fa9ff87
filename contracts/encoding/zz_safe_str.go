package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ btypes.Object

//vf:contract (*Decoder).string
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_string(d *Decoder, s *string, n int) {
	vf.Requires(s != nil)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, s)
	err := d.string(s, n)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
	vf.Ensures("the error is returned", err == d.err)
}
