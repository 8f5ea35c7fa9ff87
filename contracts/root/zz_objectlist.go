package bacnet

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzLister is a link to a device with a list of objects, each of which has a
// name and a description: it answers what it is asked and counts for which
// entries of the list.
type zzLister struct {
	zzLink
	c    *client
	list []btypes.ObjectID
	max  int
	seen []int // how often an entry was asked for
	next int   // the first entry not asked for yet
	odd  int   // questions it does not know, or that are too large
}

func zzListerOf(list []btypes.ObjectID, max int) *zzLister {
	l := &zzLister{zzLink: zzLink{mine: &btypes.Address{}}, list: list, max: max, seen: make([]int, len(list)+1), next: 1}
	l.c = zzClient(&l.zzLink)
	l.c.dataLink = l
	return l
}

func zzID(id btypes.ObjectID) []byte {
	v := uint32(id.Type)<<22 | uint32(id.Instance)
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// zzName is the name of an object: its identifier, as four letters.
func zzName(id btypes.ObjectID) string {
	return string([]byte{'a' + byte(id.Type&15), 'a' + byte(id.Instance&15), 'n'})
}

func zzText(prop byte, id btypes.ObjectID) []byte {
	s := []byte(zzName(id))
	if prop == 28 {
		s[2] = 'd'
	}
	return append([]byte{0x29, prop, 0x4e, 0x74, 0}, append(s, 0x4f)...)
}

func (l *zzLister) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	if len(data)-4 > l.max && data[9] == 14 {
		l.odd++
		return len(data), nil
	}
	id, b := data[8], data[10:]
	var r []byte
	switch {
	case data[9] == 12 && len(b) == 9 && b[5] == 0x19 && b[6] == 76 && b[7] == 0x29 && b[8] == 0:
		l.seen[0]++
		r = append([]byte{0x30, id, 12}, b...)
		r = append(r, 0x3e, 0x21, byte(len(l.list)), 0x3f)
	case data[9] == 14:
		r = []byte{0x30, id, 14}
		for len(b) > 6 {
			r = append(r, b[:6]...)
			o := btypes.ObjectID{Type: btypes.ObjectType(uint16(b[1])<<2 | uint16(b[2])>>6), Instance: btypes.ObjectInstance(uint32(b[2]&63)<<16 | uint32(b[3])<<8 | uint32(b[4]))}
			for b = b[6:]; len(b) > 0 && b[0] != 0x1f; {
				switch {
				case len(b) > 4 && b[0] == 9 && b[1] == 76 && b[2] == 0x19 && b[3] >= 1 && int(b[3]) <= len(l.list):
					l.seen[b[3]]++
					if int(b[3]) == l.next {
						l.next++
					}
					r = append(r, 0x29, 76, 0x39, b[3], 0x4e, 0xc4)
					r = append(append(r, zzID(l.list[b[3]-1])...), 0x4f)
					b = b[4:]
				case len(b) > 2 && b[0] == 9 && (b[1] == 77 || b[1] == 28):
					r = append(r, zzText(b[1], o)...)
					b = b[2:]
				default:
					l.odd++
					return len(data), nil
				}
			}
			if len(b) > 0 {
				b = b[1:]
			}
			r = append(r, 0x1f)
		}
	default:
		l.odd++
		return len(data), nil
	}
	go l.c.tsm.Send(int(id), r)
	return len(data), nil
}

// The list of a device of up to five objects, for any maximum size it may
// have: every entry is asked for once, and every object returned.
//
//vf:lemma
//vf:prop C22
//vf:use none
//vf:bounded 600
func zz_object_list(n, max uint8, a, b, x, y, z uint16) {
	vf.Assume(n <= 5 && max <= 130)
	var list []btypes.ObjectID
	for i, v := range []uint16{a, b, x, y, z} {
		if i < int(n) {
			list = append(list, btypes.ObjectID{Type: btypes.ObjectType(v >> 12), Instance: btypes.ObjectInstance(v & 0xfff)})
		}
	}
	l := zzListerOf(list, int(max))
	dev := btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: 7}, MaxApdu: uint32(max)}
	err := l.c.objectList(&dev)
	vf.Ensures("no question the device does not know, or that is too large", l.odd == 0)
	if err != nil {
		vf.Ensures("a list is found unless the device takes no requests of the size", max < 50)
		return
	}
	for _, k := range l.seen {
		vf.Ensures("each entry is asked for once", k == 1)
	}
	for _, id := range list {
		vf.Ensures("each object is found", dev.Objects[id.Type][id.Instance].ID == id)
	}
	for _, o := range dev.ObjectSlice() {
		in := false
		for _, id := range list {
			in = in || o.ID == id
		}
		vf.Ensures("no other object is found", in)
	}
}

// The names and descriptions of up to six objects, one of them possibly of a
// proprietary type, which has none.
//
//vf:lemma
//vf:prop C22
//vf:use none
//vf:bounded 600
func zz_object_names(n, own uint8) {
	vf.Assume(n <= 6)
	dev := btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: 7}, MaxApdu: 480}
	var list []btypes.Object
	for i := 0; i < int(n); i++ {
		id := btypes.ObjectID{Type: btypes.ObjectType(i % 3), Instance: btypes.ObjectInstance(i)}
		if i == int(own) {
			id.Type = 300
		}
		list = append(list, btypes.Object{ID: id})
	}
	dev.Objects = make(btypes.ObjectMap)
	objectCopy(dev.Objects, list)
	l := zzListerOf(nil, 480)
	err := l.c.allObjectInformation(&dev)
	vf.Ensures("no error", err == nil && l.odd == 0)
	vf.Ensures("as many objects as before", len(dev.ObjectSlice()) == int(n))
	for _, o := range list {
		got := dev.Objects[o.ID.Type][o.ID.Instance]
		vf.Ensures("the object", got.ID == o.ID)
		if o.ID.Type == 300 {
			vf.Ensures("a proprietary object keeps no name", got.Name == "" && got.Description == "")
		} else {
			name := zzName(o.ID)
			vf.Ensures("its own name and description", got.Name == name && got.Description == name[:2]+"d")
		}
	}
}

// Whatever a device answers: no panic, and as many entries as asked for or an
// error.
//
//vf:lemma
//vf:prop C22
//vf:use reply
func zz_objects_range_any(kind uint8, reply []byte, start uint8) {
	vf.Assume(start >= 1)
	dev := btypes.Device{MaxApdu: 480}
	l := zzPeerOf(&dev)
	l.replies = []interface{}{zzAnswer(kind, reply)}
	objs, err := l.c.objectsRange(dev, int(start), int(start)+1)
	vf.Ensures("as many entries as asked for or an error", err != nil || len(objs) == 2)
}

//vf:lemma
//vf:prop C22
//vf:use reply
func zz_object_length_any(kind uint8, reply []byte) {
	dev := btypes.Device{MaxApdu: 480}
	l := zzPeerOf(&dev)
	l.replies = []interface{}{zzAnswer(kind, reply)}
	n, err := l.c.objectListLen(dev)
	vf.Ensures("a length or an error", err != nil || n >= 0)
}

//vf:lemma
//vf:prop C22
//vf:use reply
func zz_object_names_any(kind uint8, reply []byte, a, b btypes.ObjectID) {
	vf.Assume(a.Type <= 1023 && b.Type <= 1023 && a.Instance <= 4194303 && b.Instance <= 4194303)
	dev := btypes.Device{MaxApdu: 480, Objects: make(btypes.ObjectMap)}
	objs := []btypes.Object{{ID: a}, {ID: b}}
	objectCopy(dev.Objects, objs)
	n := len(dev.ObjectSlice())
	l := zzPeerOf(&dev)
	l.replies = []interface{}{zzAnswer(kind, reply)}
	l.c.objectInformation(&dev, objs)
	vf.Ensures("no object is added or lost", len(dev.ObjectSlice()) == n)
}

// The batches of a list of any length up to 65535, for each maximum size of the standard:
// they cover it from the first entry to the last. That a batch asks for the
// entries it is told is taken from objectsRange, for which see object_list.
//
//vf:lemma
//vf:prop C22
//vf:use range
func zz_object_batches(list []btypes.ObjectID, max uint8) {
	vf.Assume(max < 6 && len(list) <= 65535)
	for i, m := range []uint32{50, 128, 206, 480, 1024, 1476} {
		if i == int(max) {
			zzBatches(list, m)
		}
	}
}

func zzBatches(list []btypes.ObjectID, max uint32) {
	l := zzListerOf(nil, 0)
	l.list, l.seen = list, make([]int, len(list)+1)
	dev := btypes.Device{MaxApdu: max}
	size := int(max) / 20
	vf.LoopInv(func(k int) bool {
		return k*size <= len(list) && l.next == k*size+1 || k*size > len(list) && l.next == len(list)+1
	})
	vf.LoopInv(func(k int) bool { return k*size <= len(list) })
	vf.LoopInv(func(k int) bool { return (k-1)*size < len(list) })
	err := l.c.objectList(&dev)
	vf.Ensures("all entries are asked for", err != nil || l.next == len(list)+1)
}

//vf:contract (*client).objectsRange
//vf:group range
//vf:assumed
func zz_range_objectsRange(c *client, dev btypes.Device, start, end int) {
	l := c.dataLink.(*zzLister)
	vf.Requires(start == l.next && start <= end && end <= len(l.list))
	vf.Requires((end-start+1)*20 <= int(dev.MaxApdu))
	vf.Modifies(&l.next)
	_, err := c.objectsRange(dev, start, end)
	vf.Ensures("the entries are asked for", err != nil || l.next == end+1)
}

//vf:contract (*client).objectListLen
//vf:group range
//vf:assumed
func zz_range_objectListLen(c *client, dev btypes.Device) {
	l := c.dataLink.(*zzLister)
	n, err := c.objectListLen(dev)
	vf.Ensures("the length of the list", err != nil || n == len(l.list))
}
