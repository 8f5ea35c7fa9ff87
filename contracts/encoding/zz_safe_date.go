package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ btypes.Object

//vf:contract (*Decoder).date
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_date(d *Decoder, t *btypes.Date, n int) {
	vf.Requires(t != nil)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, t)
	d.date(t, n)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}

//vf:contract (*Decoder).time
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_time(d *Decoder, t *btypes.Time, n int) {
	vf.Requires(t != nil)
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err, t)
	d.time(t, n)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
}
