package network

import (
	"net"

	vf "github.com/NubeDev/bacnet/zzvf"
)

// The device a network makes of an address is reached there.
//
//vf:lemma
//vf:prop C20
func zz_new_device(d Device, text string, port int, network uint16, hardware uint8) {
	vf.Assume(-100000 <= port && port <= 100000)
	ip := net.ParseIP(text).To4()
	d.Ip, d.Port, d.NetworkNumber, d.MacMSTP = text, port, int(network), int(hardware)
	max, seg := d.MaxApdu, d.Segmentation
	got, err := NewDevice(&Network{bacnet: &zzClient{}, Store: &Store{}}, &d)
	vf.Ensures("refused exactly if the address is not of IPv4 or the port is none", (err != nil) == (ip == nil || port < 0 || port > 65535))
	if err != nil {
		return
	}
	want := port
	if want == 0 {
		want = 0xBAC0
	}
	vf.Ensures("a device", got != nil)
	vf.EnsuresSeq("the octets of the address and the port", got.dev.Addr.Mac, []byte{ip[0], ip[1], ip[2], ip[3], byte(want >> 8), byte(want)})
	vf.Ensures("the network number", got.dev.Addr.Net == network)
	vf.EnsuresSeq("the hardware address", got.dev.Addr.Adr, []byte{hardware})
	vf.Ensures("its sizes", got.dev.MaxApdu == max && uint32(got.dev.Segmentation) == seg)
}
