package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
)

// The first k properties of a read or write access specification.
//
//vf:fold
func zzProps(props []btypes.Property, write bool, k int) []byte {
	if k == 0 {
		return nil
	}
	b := zzProps(props, write, k-1)
	p := props[k-1]
	b = append(b, zzCtxUint(0, uint32(p.Type))...)
	if p.ArrayIndex != 0xffffffff {
		b = append(b, zzCtxUint(1, p.ArrayIndex)...)
	}
	if write {
		b = append(b, zzBracket(2, 6)...)
		b = append(b, zzVal(p.Data, false)...)
		b = append(b, zzBracket(2, 7)...)
		if p.Priority != 0 {
			b = append(b, zzCtxUint(3, uint32(p.Priority))...)
		}
	}
	return b
}

// Whether the first k properties can be encoded.
//
//vf:fold
func zzPropsOk(props []btypes.Property, write bool, k int) bool {
	if k == 0 {
		return true
	}
	return zzPropsOk(props, write, k-1) && (!write || zzSupported(props[k-1].Data, false))
}

// The first k objects.
//
//vf:fold
func zzObjects(objs []btypes.Object, write bool, k int) []byte {
	if k == 0 {
		return nil
	}
	b := zzObjects(objs, write, k-1)
	o := objs[k-1]
	b = append(b, zzCtxObjID(0, o.ID.Type, o.ID.Instance)...)
	b = append(b, zzBracket(1, 6)...)
	b = append(b, zzProps(o.Properties, write, len(o.Properties))...)
	return append(b, zzBracket(1, 7)...)
}

//vf:fold
func zzObjectsOk(objs []btypes.Object, write bool, k int) bool {
	if k == 0 {
		return true
	}
	o := objs[k-1]
	return zzObjectsOk(objs, write, k-1) && o.ID.Type <= 1023 && o.ID.Instance <= 4194303 &&
		zzPropsOk(o.Properties, write, len(o.Properties))
}
