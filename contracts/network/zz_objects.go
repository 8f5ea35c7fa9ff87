package network

import (
	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzAsk: a read of an entry of the object list of a device.
func zzAskEntry(rp btypes.PropertyData, id btypes.ObjectInstance, index uint32) bool {
	return rp.Object.ID.Type == btypes.DeviceType && rp.Object.ID.Instance == id && len(rp.Object.Properties) == 1 &&
		rp.Object.Properties[0].Type == btypes.PropObjectList && rp.Object.Properties[0].ArrayIndex == index
}

// zzIDs: the objects of a list, unless something in it is none.
func zzIDs(list []interface{}) (r []btypes.ObjectID, ok bool) {
	for _, x := range list {
		id, ok := x.(btypes.ObjectID)
		if !ok {
			return nil, false
		}
		r = append(r, id)
	}
	return r, true
}

func zzSameIDs(a, b []btypes.ObjectID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// The whole list in one reply, of up to four entries of any kind.
//
//vf:lemma
//vf:prop C22
//vf:bounded 600
func zz_device_objects(id btypes.ObjectInstance, n uint8, a, b, x, y interface{}) {
	vf.Assume(n >= 1 && n <= 4)
	list := []interface{}{a, b, x, y}[:n]
	c := &zzClient{reply: []btypes.PropertyData{zzValue(list)}}
	if n == 1 {
		c.reply[0] = zzValue(a)
	}
	d := &Device{network: c}
	got, err := d.DeviceObjects(id, false)
	vf.Ensures("one read of the whole list", len(c.reads) == 1 && zzAskEntry(c.reads[0], id, bacnet.ArrayAll))
	want, ok := zzIDs(list)
	if ok {
		vf.Ensures("exactly the objects received", err == nil && zzSameIDs(got, want))
	} else if n > 1 {
		vf.Ensures("an error if an entry is no object", err != nil)
	}
}

// The list entry by entry, up to three of any kind.
//
//vf:lemma
//vf:prop C22
//vf:bounded 600
func zz_device_objects_each(id btypes.ObjectInstance, n uint8, cut bool, a, b, x interface{}) {
	vf.Assume(n <= 3)
	list := []interface{}{a, b, x}[:n]
	c := &zzClient{reply: []btypes.PropertyData{zzValue(uint32(n))}}
	for _, v := range list {
		c.reply = append(c.reply, zzValue(v))
	}
	if cut { // the last read fails
		c.reply = c.reply[:n]
	}
	d := &Device{network: c}
	got, err := d.deviceObjectsBuilder(id)
	want, ok := zzIDs(list)
	for i, r := range c.reads {
		vf.Ensures("reads of the entries in their order", i <= int(n) && zzAskEntry(r, id, uint32(i)))
	}
	if ok && !cut {
		vf.Ensures("every entry is read once", len(c.reads) == int(n)+1)
		vf.Ensures("exactly the objects received", err == nil && zzSameIDs(got, want))
	} else {
		vf.Ensures("an error if an entry is missing or no object", err != nil)
	}
}
