package network

import (
	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzFound is a device as Who-Is gives it: at 10.0.0.x, on network net.
func zzFound(id uint32, x uint8, net uint16, adr uint8, size uint32, seg uint8, vendor uint32) btypes.Device {
	i := btypes.ObjectInstance(id)
	d := btypes.Device{
		DeviceID:      int(i),
		ID:            btypes.ObjectID{Type: btypes.DeviceType, Instance: i},
		Addr:          btypes.Address{Net: net, Mac: []uint8{10, 0, 0, x, 0xBA, 0xC0}, MacLen: 6, Adr: []uint8{adr}, Len: 1},
		MacMSTP:       int(adr),
		NetworkNumber: int(net),
		MaxApdu:       size,
		Segmentation:  btypes.Enumerated(seg),
		Vendor:        vendor,
		Port:          0xBAC0,
		Ip:            "10.0.0.1",
	}
	if x == 2 {
		d.Ip = "10.0.0.2"
	}
	return d
}

func zzIsFound(d *Device, f btypes.Device) bool {
	return d != nil && d.DeviceID == int(f.ID.Instance) && d.Ip == f.Ip && d.Port == f.Port && d.NetworkNumber == int(f.Addr.Net) &&
		d.MacMSTP == f.MacMSTP && d.MaxApdu == f.MaxApdu && d.Segmentation == uint32(f.Segmentation)
}

func zzAsksName(rp btypes.PropertyData, id btypes.ObjectInstance) bool {
	return rp.Object.ID.Type == btypes.DeviceType && rp.Object.ID.Instance == id
}

// Discovering devices gives one device for every answer, each with the
// identity, address and sizes of its own answer, whatever it answers to the
// reads of its names: no, one or two answers.
//
//vf:lemma
//vf:prop C23
//vf:bounded 600
func zz_device_discover(n uint8, id1, id2 uint32, net1, net2 uint16, adr1, adr2 uint8, size1, size2 uint32, seg1, seg2 uint8, v1, v2 uint32) {
	vf.Assume(n <= 2 && id1 <= 4194303 && id2 <= 4194303 && id1 != id2)
	all := []btypes.Device{zzFound(id1, 1, net1, adr1, size1, seg1, v1), zzFound(id2, 2, net2, adr2, size2, seg2, v2)}
	c := &zzClient{found: all[:n]}
	d := &Device{network: c}
	got, err := d.DeviceDiscover(&bacnet.WhoIsOpts{Low: 1, High: 2})
	vf.Ensures("one device per answer", err == nil && len(got) == int(n))
	for i, g := range got {
		vf.Ensures("the device that answered", zzIsFound(g, all[i]))
	}
	vf.Ensures("every device is asked for its details", len(c.reads) == 4*int(n))
	for i := range c.reads {
		vf.Ensures("each is asked at its own address for its own object", i/4 < len(all) && zzAsksName(c.reads[i], all[i/4].ID.Instance) &&
			c.dests[i].Addr.Net == all[i/4].Addr.Net && len(c.dests[i].Addr.Mac) == 6 && c.dests[i].Addr.Mac[3] == all[i/4].Addr.Mac[3])
	}
}

// The same for a network.
//
//vf:lemma
//vf:prop C23
//vf:bounded 600
func zz_network_discover(n uint8, id1, id2 uint32, net1, net2 uint16, adr1, adr2 uint8, size1, size2 uint32, seg1, seg2 uint8, v1, v2 uint32) {
	vf.Assume(n <= 2 && id1 <= 4194303 && id2 <= 4194303 && id1 != id2)
	all := []btypes.Device{zzFound(id1, 1, net1, adr1, size1, seg1, v1), zzFound(id2, 2, net2, adr2, size2, seg2, v2)}
	c := &zzClient{found: all[:n]}
	net := &Network{bacnet: c}
	got, err := net.NetworkDiscover(&bacnet.WhoIsOpts{Low: 1, High: 2})
	vf.Ensures("one device per answer", err == nil && len(got) == int(n))
	for i, g := range got {
		vf.Ensures("the device that answered", g.ID == all[i].ID && g.DeviceID == all[i].DeviceID && g.Ip == all[i].Ip && g.Port == all[i].Port &&
			g.NetworkNumber == all[i].NetworkNumber && g.MacMSTP == all[i].MacMSTP && g.MaxApdu == all[i].MaxApdu && g.Segmentation == all[i].Segmentation && g.Vendor == all[i].Vendor)
	}
}
