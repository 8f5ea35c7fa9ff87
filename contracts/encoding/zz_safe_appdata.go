package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ btypes.Object

//vf:contract (*Decoder).AppDataOfTag
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_AppDataOfTag(d *Decoder, tag uint8, n int) {
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err)
	_, err := d.AppDataOfTag(tag, n)
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
	vf.Ensures("an error is returned", d.err == nil || err != nil)
}

//vf:contract (*Decoder).AppData
//vf:group safe
//vf:use safe
//vf:term
//vf:alloc
func zz_safe_AppData(d *Decoder) {
	old, was := vf.BufBytes(d.buff), d.err
	vf.Modifies(d.buff, &d.err)
	_, err := d.AppData()
	now := vf.BufBytes(d.buff)
	vf.EnsuresSuffix("octets are only taken from the front", now, old)
	vf.Ensures("an error stays", was == nil || d.err != nil)
	vf.Ensures("something is taken, or there is an error", err != nil || len(now) < len(old))
	vf.Ensures("an error is returned", d.err == nil || err != nil)
}
