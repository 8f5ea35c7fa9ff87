package network

import (
	"errors"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ = vf.Requires

var errZZ = errors.New("refused by the device")

// zzClient is a client that records what is asked of it and answers reads with
// what it is given, one after the other.
type zzClient struct {
	fail   bool
	reply  []btypes.PropertyData
	reads  []btypes.PropertyData
	writes []btypes.PropertyData
	dests  []btypes.Device
	found  []btypes.Device // the answers to a Who-Is
}

func (c *zzClient) Close() error                     { return nil }
func (c *zzClient) ClientClose(closeLogs bool) error { return nil }
func (c *zzClient) ClientRun()                       {}
func (c *zzClient) WhoIs(wh *bacnet.WhoIsOpts) ([]btypes.Device, error) {
	if c.found == nil {
		return nil, errZZ
	}
	return c.found, nil
}
func (c *zzClient) WhatIsNetworkNumber() []*btypes.Address           { return nil }
func (c *zzClient) IAm(dest btypes.Address, iam btypes.IAm) error    { return errZZ }
func (c *zzClient) WhoIsRouterToNetwork() (resp *[]btypes.Address)   { return nil }
func (c *zzClient) Objects(dev btypes.Device) (btypes.Device, error) { return dev, errZZ }
func (c *zzClient) ReadProperty(dest btypes.Device, rp btypes.PropertyData) (btypes.PropertyData, error) {
	c.reads = append(c.reads, rp)
	c.dests = append(c.dests, dest)
	if c.fail || len(c.reply) == 0 {
		return btypes.PropertyData{}, errZZ
	}
	r := c.reply[0]
	c.reply = c.reply[1:]
	return r, nil
}
func (c *zzClient) ReadMultiProperty(dev btypes.Device, rp btypes.MultiplePropertyData) (btypes.MultiplePropertyData, error) {
	return btypes.MultiplePropertyData{}, errZZ
}
func (c *zzClient) WriteProperty(dest btypes.Device, wp btypes.PropertyData) error {
	c.writes = append(c.writes, wp)
	c.dests = append(c.dests, dest)
	if c.fail {
		return errZZ
	}
	return nil
}
func (c *zzClient) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropertyData) error {
	return errZZ
}

// zzValue is a reply with one value.
func zzValue(v interface{}) btypes.PropertyData {
	return btypes.PropertyData{Object: btypes.Object{Properties: []btypes.Property{{Data: v}}}}
}

// zzOne states that exactly one request was made, of the device and of one
// property of one object.
func zzOne(d *Device, c *zzClient, asked, others []btypes.PropertyData, t btypes.ObjectType, i btypes.ObjectInstance, p btypes.PropertyType, index uint32) {
	vf.Ensures("exactly one request", len(asked) == 1 && len(others) == 0)
	if len(asked) != 1 {
		return
	}
	r := asked[0]
	vf.Ensures("of the object named", r.Object.ID.Type == t && r.Object.ID.Instance == i)
	vf.Ensures("of one property", len(r.Object.Properties) == 1)
	if len(r.Object.Properties) != 1 {
		return
	}
	vf.Ensures("the property meant", r.Object.Properties[0].Type == p)
	vf.Ensures("the array index meant", r.Object.Properties[0].ArrayIndex == index)
	vf.Ensures("of the device", len(c.dests) == 1 && c.dests[0].ID == d.dev.ID && c.dests[0].MaxApdu == d.dev.MaxApdu && c.dests[0].Addr.Net == d.dev.Addr.Net)
	vf.EnsuresSeq("at its address", c.dests[0].Addr.Mac, d.dev.Addr.Mac)
	vf.EnsuresSeq("at its hardware address", c.dests[0].Addr.Adr, d.dev.Addr.Adr)
}
