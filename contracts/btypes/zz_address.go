package btypes

import (
	"net"

	vf "github.com/NubeDev/bacnet/zzvf"
)

//vf:lemma
//vf:prop C20
func zz_address_udp(a Address) {
	u, err := a.UDPAddr()
	vf.Ensures("refused exactly if it is not six octets", (err != nil) == (len(a.Mac) != 6))
	if err != nil {
		return
	}
	ip := u.IP.To4()
	vf.Ensures("an IPv4 address", ip != nil)
	if ip != nil {
		vf.Ensures("its octets", ip[0] == a.Mac[0] && ip[1] == a.Mac[1] && ip[2] == a.Mac[2] && ip[3] == a.Mac[3])
	}
	vf.Ensures("its port", u.Port == int(a.Mac[4])*256+int(a.Mac[5]))
	vf.Ensures("of no zone", u.Zone == "")
}

//vf:lemma
//vf:prop C20
func zz_address_length(a Address) {
	vf.Assume(len(a.Adr) <= 255)
	b := a
	b.SetLength()
	if len(a.Adr) > 0 {
		vf.Ensures("announces as many octets as it has", int(b.Len) == len(a.Adr))
	} else {
		vf.Ensures("announces no other length", b.Len == a.Len)
	}
	vf.Ensures("the network stays", b.Net == a.Net && b.MacLen == a.MacLen)
	vf.EnsuresSeq("the hardware address stays", b.Adr, a.Adr)
	vf.EnsuresSeq("the link address stays", b.Mac, a.Mac)
}

//vf:lemma
//vf:prop C20
func zz_address_broadcast(a Address, on bool) {
	vf.Assume(len(a.Mac) <= 255)
	b := a
	b.SetBroadcast(on)
	if on {
		vf.Ensures("a broadcast", b.IsBroadcast() && b.MacLen == 0)
	} else {
		vf.Ensures("addressed to its octets", int(b.MacLen) == len(a.Mac))
		vf.Ensures("a broadcast only on all networks or without octets", b.IsBroadcast() == (a.Net == 0xFFFF || len(a.Mac) == 0))
	}
	vf.Ensures("the network stays", b.Net == a.Net && b.Len == a.Len)
	vf.EnsuresSeq("the hardware address stays", b.Adr, a.Adr)
	vf.EnsuresSeq("the link address stays", b.Mac, a.Mac)
}

//vf:lemma
//vf:prop C20
func zz_new_device(d Device, text string, port int, network uint16, hardware uint8) {
	vf.Assume(-100000 <= port && port <= 100000)
	ip := net.ParseIP(text).To4()
	d.Ip, d.Port, d.NetworkNumber, d.MacMSTP = text, port, int(network), int(hardware)
	was := d
	got, err := NewDevice(&d)
	vf.Ensures("refused exactly if the address is not of IPv4 or the port is none", (err != nil) == (ip == nil || port < 0 || port > 65535))
	if err != nil {
		return
	}
	want := port
	if want == 0 {
		want = 0xBAC0
	}
	vf.Ensures("a device", got != nil)
	vf.EnsuresSeq("the octets of the address and the port", got.Addr.Mac, []byte{ip[0], ip[1], ip[2], ip[3], byte(want >> 8), byte(want)})
	vf.Ensures("the network number", got.Addr.Net == network)
	vf.EnsuresSeq("the hardware address", got.Addr.Adr, []byte{hardware})
	vf.Ensures("an identity of type device", got.ID.Type == DeviceType && got.ID.Instance == was.ID.Instance)
	vf.Ensures("what else it carries", got.DeviceID == was.DeviceID && got.MaxApdu == was.MaxApdu && got.Segmentation == was.Segmentation && got.Vendor == was.Vendor)
	vf.Ensures("the address as it was given", got.Ip == text && got.Port == port && got.NetworkNumber == int(network) && got.MacMSTP == int(hardware))
	u, err := got.Addr.UDPAddr()
	vf.Ensures("reached at the port", err == nil && u.Port == want)
}
