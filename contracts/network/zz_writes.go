package network

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzSame: both hold the same value.
func zzSame(got, want interface{}) { vf.EnsuresEq("exactly the value given", got, want) }

func zzWrote(d *Device, c *zzClient, t btypes.ObjectType, i btypes.ObjectInstance, p btypes.PropertyType, prio uint8, want interface{}, err error) {
	zzOne(d, c, c.writes, c.reads, t, i, p, zzAll)
	vf.Ensures("an error is passed on", (err != nil) == c.fail)
	if len(c.writes) != 1 || len(c.writes[0].Object.Properties) != 1 {
		return
	}
	w := c.writes[0].Object.Properties[0]
	vf.Ensures("the priority given", uint8(w.Priority) == prio)
	zzSame(w.Data, want)
}

//vf:lemma
//vf:prop C25
func zz_write(dev btypes.Device, fail bool, w Write) {
	d, c := zzFor(dev, fail)
	in := w
	err := d.Write(&w)
	if w.WriteNull {
		zzWrote(d, c, in.ObjectType, in.ObjectID, in.Prop, in.WritePriority, null.Null{}, err)
		return
	}
	switch v := in.WriteValue.(type) {
	case uint32:
		zzWrote(d, c, in.ObjectType, in.ObjectID, in.Prop, in.WritePriority, v, err)
	case float32:
		zzWrote(d, c, in.ObjectType, in.ObjectID, in.Prop, in.WritePriority, v, err)
	case float64:
		zzWrote(d, c, in.ObjectType, in.ObjectID, in.Prop, in.WritePriority, v, err)
	case string:
		zzWrote(d, c, in.ObjectType, in.ObjectID, in.Prop, in.WritePriority, v, err)
	default:
		vf.Ensures("a value of another type is refused", err != nil)
		vf.Ensures("before anything is sent", len(c.writes) == 0 && len(c.reads) == 0)
	}
}

//vf:lemma
//vf:prop C25
func zz_write_analogue(dev btypes.Device, fail bool, p Point, v float32) {
	d, c := zzFor(dev, fail)
	err := d.PointWriteAnalogue(&p, v)
	zzWrote(d, c, p.ObjectType, p.ObjectID, zzPresentValue, p.WritePriority, v, err)
}

//vf:lemma
//vf:prop C25
func zz_write_bool(dev btypes.Device, fail bool, p Point, v uint32) {
	d, c := zzFor(dev, fail)
	err := d.PointWriteBool(&p, v)
	zzWrote(d, c, p.ObjectType, p.ObjectID, zzPresentValue, p.WritePriority, v, err)
}

//vf:lemma
//vf:prop C25
func zz_write_state(dev btypes.Device, fail bool, p Point, v uint32) {
	d, c := zzFor(dev, fail)
	err := d.PointWriteMultiState(&p, v)
	zzWrote(d, c, p.ObjectType, p.ObjectID, zzPresentValue, p.WritePriority, v, err)
}

//vf:lemma
//vf:prop C25
func zz_write_point_name(dev btypes.Device, fail bool, p Point, v string) {
	d, c := zzFor(dev, fail)
	err := d.WritePointName(&p, v)
	zzWrote(d, c, p.ObjectType, p.ObjectID, zzObjectName, 0, v, err)
}

//vf:lemma
//vf:prop C25
func zz_write_device_name(dev btypes.Device, fail bool, id btypes.ObjectInstance, v string) {
	d, c := zzFor(dev, fail)
	err := d.WriteDeviceName(id, v)
	zzWrote(d, c, 8, id, zzObjectName, 0, v, err)
}

//vf:lemma
//vf:prop C25
func zz_release(dev btypes.Device, fail bool, p Point, prio uint8) {
	d, c := zzFor(dev, fail)
	err := d.PointReleasePriority(&p, prio)
	if prio < 1 || prio > 16 {
		vf.Ensures("a priority outside 1 to 16 is refused", err != nil)
		vf.Ensures("before anything is sent", len(c.writes) == 0 && len(c.reads) == 0)
		return
	}
	zzWrote(d, c, p.ObjectType, p.ObjectID, zzPresentValue, prio, null.Null{}, err)
}

//vf:lemma
//vf:prop C25
func zz_release_nothing(dev btypes.Device, fail bool, prio uint8) {
	d, c := zzFor(dev, fail)
	err := d.PointReleasePriority(nil, prio)
	vf.Ensures("no point is refused", err != nil)
	vf.Ensures("before anything is sent", len(c.writes) == 0 && len(c.reads) == 0)
}
