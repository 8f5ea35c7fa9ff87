package datalink

import (
	"net"

	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ = vf.Requires

// zzIP is an IPv4 address in its form of four octets or of sixteen.
func zzIP(long bool, a [4]byte) net.IP {
	if long {
		return net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, a[0], a[1], a[2], a[3]}
	}
	return net.IP{a[0], a[1], a[2], a[3]}
}

func zzIs(got *btypes.Address, a [4]byte, port uint16) {
	vf.Ensures("an address", got != nil)
	if got == nil {
		return
	}
	vf.EnsuresSeq("four octets of address, two of port", got.Mac, []byte{a[0], a[1], a[2], a[3], byte(port >> 8), byte(port)})
	vf.Ensures("their number", got.MacLen == 6)
	vf.Ensures("not routed", got.Net == 0 && got.Len == 0 && len(got.Adr) == 0)
	u, err := got.UDPAddr()
	vf.Ensures("and back", err == nil)
	if err != nil {
		return
	}
	vf.Ensures("the port is the same", u.Port == int(port))
	back := u.IP.To4()
	vf.Ensures("the address is the same", back != nil && back[0] == a[0] && back[1] == a[1] && back[2] == a[2] && back[3] == a[3])
	twice := UDPToAddress(&u)
	vf.Ensures("and again", twice != nil && twice.MacLen == 6)
	if twice != nil {
		vf.EnsuresSeq("the same octets", twice.Mac, got.Mac)
	}
}

//vf:lemma
//vf:prop C20
func zz_udp_address(long bool, a [4]byte, port uint16) {
	zzIs(UDPToAddress(&net.UDPAddr{IP: zzIP(long, a), Port: int(port)}), a, port)
}

//vf:lemma
//vf:prop C20
func zz_ip_address(long bool, a [4]byte, port uint16) {
	zzIs(IPPortToAddress(zzIP(long, a), int(port)), a, port)
}

//vf:lemma
//vf:prop C20
func zz_no_address(ip []byte, port uint16) {
	vf.Assume(len(ip) != 4)
	if len(ip) == 16 {
		v4 := ip[10] == 0xff && ip[11] == 0xff
		for i := 0; i < 10; i++ {
			v4 = v4 && ip[i] == 0
		}
		vf.Assume(!v4)
	}
	got := UDPToAddress(&net.UDPAddr{IP: net.IP(ip), Port: int(port)})
	vf.Ensures("an address that is not of IPv4 is refused", got == nil)
	got = IPPortToAddress(net.IP(ip), int(port))
	vf.Ensures("an address that is not of IPv4 is refused", got == nil)
}
