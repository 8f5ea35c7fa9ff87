package bacnet

import (
	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzToAll: the address asks for a broadcast: on the local network, on a remote
// network, or everywhere. An address with station octets is a routed device.
func zzToAll(a btypes.Address) bool {
	if len(a.Adr) > 0 {
		return false
	}
	return a.Net == 0xffff || a.MacLen == 0 || a.Net > 0 && a.Len == 0
}

// zzFrame is the datagram for a payload (annex J.2).
func zzFrame(function byte, data []byte) []byte {
	n := len(data) + 4
	return append([]byte{0x81, function, byte(n >> 8), byte(n)}, data...)
}

//vf:lemma
//vf:prop C16
func zz_send(dest btypes.Address, data []byte, force *SetBroadcastType, down bool) {
	vf.Assume(int(dest.Len) == len(dest.Adr))
	link := &zzLink{down: down}
	c := zzClient(link)
	_, err := c.Send(dest, nil, data, force)
	if len(data) > 65531 {
		vf.Ensures("a payload whose length does not fit is refused", err != nil && len(link.sent) == 0)
		return
	}
	vf.Ensures("one datagram is sent", len(link.sent) == 1)
	vf.Ensures("a failure of the link is passed on", (err != nil) == down)
	if len(link.sent) != 1 {
		return
	}
	function := byte(10)
	if zzToAll(dest) {
		function = 11
	}
	if force != nil && force.Set {
		function = byte(force.BacFunc)
	}
	vf.EnsuresSeq("the datagram", link.sent[0].data, zzFrame(function, data))
	vf.EnsuresEq("the destination", link.sent[0].dest, dest)
}
