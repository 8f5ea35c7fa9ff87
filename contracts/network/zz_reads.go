package network

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// the standard's numbers of the properties and of "no array index"
const (
	zzPresentValue  = 85
	zzPriorityArray = 87
	zzObjectName    = 77
	zzUnits         = 117
	zzAll           = 0xFFFFFFFF
)

func zzFor(dev btypes.Device, fail bool, v ...interface{}) (*Device, *zzClient) {
	c := &zzClient{fail: fail}
	for _, x := range v {
		c.reply = append(c.reply, zzValue(x))
	}
	return &Device{dev: dev, network: c}, c
}

//vf:lemma
//vf:prop C25
func zz_read(dev btypes.Device, fail bool, v interface{}, o Object) {
	d, c := zzFor(dev, fail, v)
	got, err := d.Read(&o)
	zzOne(d, c, c.reads, c.writes, o.ObjectType, o.ObjectID, o.Prop, o.ArrayIndex)
	vf.Ensures("an error is passed on", (err != nil) == fail)
	if err == nil {
		vf.EnsuresEq("what the device answered", got, zzValue(v))
	}
}

//vf:lemma
//vf:prop C25
func zz_read_nothing(dev btypes.Device, v interface{}) {
	d, c := zzFor(dev, false, v)
	_, err := d.Read(nil)
	vf.Ensures("no object is refused", err != nil)
	vf.Ensures("nothing is asked", len(c.reads) == 0 && len(c.writes) == 0)
}

//vf:lemma
//vf:prop C25
func zz_read_float(dev btypes.Device, fail bool, v interface{}, p Point) {
	d, c := zzFor(dev, fail, v)
	got, err := d.PointReadFloat32(&p)
	zzOne(d, c, c.reads, c.writes, p.ObjectType, p.ObjectID, zzPresentValue, zzAll)
	vf.Ensures("an error is passed on", (err != nil) == fail)
	if want, is := v.(float32); is && err == nil {
		vf.EnsuresEq("the value the device answered", got, want)
	}
}

//vf:lemma
//vf:prop C25
func zz_read_bool(dev btypes.Device, fail bool, v interface{}, p Point) {
	d, c := zzFor(dev, fail, v)
	got, err := d.PointReadBool(&p)
	zzOne(d, c, c.reads, c.writes, p.ObjectType, p.ObjectID, zzPresentValue, zzAll)
	vf.Ensures("an error is passed on", (err != nil) == fail)
	if want, is := v.(uint32); is && err == nil {
		vf.Ensures("the value the device answered", got == want)
	}
}

//vf:lemma
//vf:prop C25
func zz_read_state(dev btypes.Device, fail bool, v interface{}, p Point) {
	d, c := zzFor(dev, fail, v)
	got, err := d.PointReadMultiState(&p)
	zzOne(d, c, c.reads, c.writes, p.ObjectType, p.ObjectID, zzPresentValue, zzAll)
	vf.Ensures("an error is passed on", (err != nil) == fail)
	if want, is := v.(uint32); is && err == nil {
		vf.Ensures("the value the device answered", got == want)
	}
}

//vf:lemma
//vf:prop C25
func zz_read_priority(dev btypes.Device, fail bool, f float32, p Point) {
	d, c := zzFor(dev, fail, []interface{}{null.Null{}, f, null.Null{}})
	got, err := d.PointReadPriority(&p)
	zzOne(d, c, c.reads, c.writes, p.ObjectType, p.ObjectID, zzPriorityArray, zzAll)
	vf.Ensures("an error is passed on", (err != nil) == fail)
	if err == nil {
		vf.Ensures("the priorities the device answered", got != nil && got.P1 == nil && got.P2 != nil && got.P3 == nil && got.P16 == nil)
		if got != nil && got.P2 != nil {
			vf.EnsuresEq("with their values", *got.P2, f)
		}
	}
}

//vf:lemma
//vf:prop C25
func zz_read_name(dev btypes.Device, fail bool, v interface{}, p Point) {
	d, c := zzFor(dev, fail, v)
	got, err := d.ReadPointName(&p)
	zzOne(d, c, c.reads, c.writes, p.ObjectType, p.ObjectID, zzObjectName, zzAll)
	vf.Ensures("an error is passed on", (err != nil) == fail)
	if want, is := v.(string); is && err == nil {
		vf.Ensures("the name the device answered", got == want)
	}
}

//vf:lemma
//vf:prop C25
func zz_read_device_name(dev btypes.Device, fail bool, v interface{}, id btypes.ObjectInstance) {
	d, c := zzFor(dev, fail, v)
	got, err := d.ReadDeviceName(id)
	zzOne(d, c, c.reads, c.writes, 8, id, zzObjectName, zzAll)
	vf.Ensures("an error is passed on", (err != nil) == fail)
	if want, is := v.(string); is && err == nil {
		vf.Ensures("the name the device answered", got == want)
	}
}

//vf:lemma
//vf:prop C25
func zz_read_string(dev btypes.Device, fail bool, v interface{}, o Object) {
	d, c := zzFor(dev, fail, v)
	got, err := d.ReadString(&o)
	zzOne(d, c, c.reads, c.writes, o.ObjectType, o.ObjectID, o.Prop, o.ArrayIndex)
	vf.Ensures("an error is passed on", (err != nil) == fail)
	if want, is := v.(string); is && err == nil {
		vf.Ensures("the text the device answered", got == want)
	}
}

//vf:lemma
//vf:prop C25
//vf:sealed units.Unit.String btypes.ObjectType.String
func zz_read_details(dev btypes.Device, name string, unit uint32, p Point) {
	d, c := zzFor(dev, false, name, unit)
	got, err := d.PointDetails(&p)
	vf.Ensures("no error", err == nil && got != nil)
	if got == nil {
		return
	}
	vf.Ensures("the point named", got.ObjectID == p.ObjectID && got.ObjectType == p.ObjectType)
	vf.Ensures("its name", got.Name == name)
	binary := p.ObjectType == 3 || p.ObjectType == 4 || p.ObjectType == 5
	want := 2
	if binary {
		want = 1
	}
	vf.Ensures("one request for each detail", len(c.reads) == want && len(c.writes) == 0)
	for i, r := range c.reads {
		vf.Ensures("of the object named", r.Object.ID.Type == p.ObjectType && r.Object.ID.Instance == p.ObjectID)
		vf.Ensures("of one property", len(r.Object.Properties) == 1)
		if len(r.Object.Properties) == 1 {
			prop := btypes.PropertyType(zzObjectName)
			if i == 1 {
				prop = zzUnits
			}
			vf.Ensures("the property meant", r.Object.Properties[0].Type == prop)
			vf.Ensures("the array index meant", r.Object.Properties[0].ArrayIndex == zzAll)
		}
	}
	if !binary {
		vf.Ensures("its unit", got.Unit == unit)
	}
}
