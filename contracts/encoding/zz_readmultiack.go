package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// One result of a multiple read, and the results for one object.
type zzRes struct {
	Type  btypes.PropertyType
	Index uint32 // 0xffffffff: not part of an array
	Vals  []interface{}
}
type zzObjRes struct {
	ID  btypes.ObjectID
	Res []zzRes
}

// An object identifier a device may send.
func zzObjIDOk(o btypes.ObjectID) bool { return o.Type <= 1023 && o.Instance <= 4194303 }

// The last m results of an object.
//
//vf:fold
func zzResFrom(res []zzRes, m int) []byte {
	if m == 0 {
		return nil
	}
	r := res[len(res)-m]
	b := zzCtxUint(2, uint32(r.Type))
	if r.Index != 0xffffffff {
		b = append(b, zzCtxUint(3, r.Index)...)
	}
	b = append(b, zzBracket(4, 6)...)
	b = append(b, zzValsFrom(r.Vals, len(r.Vals))...)
	b = append(b, zzBracket(4, 7)...)
	return append(b, zzResFrom(res, m-1)...)
}

// The results of the last m objects.
//
//vf:fold
func zzObjsFrom(objs []zzObjRes, m int) []byte {
	if m == 0 {
		return nil
	}
	o := objs[len(objs)-m]
	b := zzCtxObjID(0, o.ID.Type&1023, o.ID.Instance&4194303)
	b = append(b, zzBracket(1, 6)...)
	b = append(b, zzResFrom(o.Res, len(o.Res))...)
	b = append(b, zzBracket(1, 7)...)
	return append(b, zzObjsFrom(objs, m-1)...)
}

// What the first k results are reported as.
//
//vf:fold
func zzGotRes(res []zzRes, k int) []btypes.Property {
	if k == 0 {
		return nil
	}
	r := res[k-1]
	p := btypes.Property{Type: r.Type, ArrayIndex: r.Index}
	if len(r.Vals) == 1 {
		p.Data = zzBackSent(r.Vals[0])
	} else {
		p.Data = zzGot(r.Vals, len(r.Vals))
	}
	return append(zzGotRes(res, k-1), p)
}

// What the first k objects are reported as.
//
//vf:fold
func zzGotObjs(objs []zzObjRes, k int) []btypes.Object {
	if k == 0 {
		return nil
	}
	o := objs[k-1]
	id := btypes.ObjectID{Type: o.ID.Type & 1023, Instance: o.ID.Instance & 4194303}
	return append(zzGotObjs(objs, k-1), btypes.Object{ID: id, Properties: zzGotRes(o.Res, len(o.Res))})
}

// Every result the device sent is reported once, in order.
//
//vf:lemma
//vf:prop C14
func zz_readmultiack(objs []zzObjRes) {
	d := NewDecoder(zzObjsFrom(objs, len(objs)))
	zzAckLoops(d, objs, nil)
	var got btypes.MultiplePropertyData
	err := d.ReadMultiplePropertyAck(&got)
	vf.Ensures("decoded without error", err == nil && d.Error() == nil)
	vf.EnsuresEq("every object and result once, in order", got.Objects, zzGotObjs(objs, len(objs)))
}

// The loops over objects, results and values.
func zzAckLoops(d *Decoder, objs []zzObjRes, rest []byte) {
	n := len(objs)
	vf.LoopInv(func(i int) bool { return i <= n && d.err == nil })
	vf.LoopBuf(d.buff, func(i int) []byte { return append(zzObjsFrom(objs, n-i), rest...) })
	vf.LoopList(func(i int) []btypes.Object { return zzGotObjs(objs, i) })
	after := func(i int) []byte {
		return append(append(zzBracket(1, 7), zzObjsFrom(objs, n-i-1)...), rest...)
	}
	vf.LoopInv(func(i, j int) bool { return j <= len(objs[i].Res) && d.err == nil })
	vf.LoopReads(d.buff, func(i, j int) []byte {
		return append(zzResFrom(objs[i].Res, len(objs[i].Res)-j), after(i)...)
	}, d.tagNumberAndValue)
	vf.LoopList(func(i, j int) []btypes.Property { return zzGotRes(objs[i].Res, j) })
	vals := func(i, j int) []interface{} { return objs[i].Res[j].Vals }
	vf.LoopInv(func(i, j, k int) bool {
		return k <= len(vals(i, j)) && d.err == nil && len(zzGot(vals(i, j), k)) == k
	})
	vf.LoopReads(d.buff, func(i, j, k int) []byte {
		b := append(zzValsFrom(vals(i, j), len(vals(i, j))-k), zzBracket(4, 7)...)
		return append(append(b, zzResFrom(objs[i].Res, len(objs[i].Res)-j-1)...), after(i)...)
	}, d.tagNumber)
	vf.LoopList(func(i, j, k int) []interface{} { return zzGot(vals(i, j), k) })
}
