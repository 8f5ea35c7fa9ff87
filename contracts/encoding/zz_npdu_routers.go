package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// Bounded stand-in: at most 6 networks.
// A decoded I-Am-Router-To-Network lists every network it carries, each once.
//
//vf:lemma
//vf:prop C06
//vf:bounded 10
func zz_npdu_routers(n *btypes.NPDU, net [6]uint16, count int) {
	vf.Assume(n != nil && zzNPDUOk(n))
	vf.Assume(n.IsNetworkLayerMessage && n.NetworkLayerMessageType == ndpu.IamRouterToNetwork)
	vf.Assume(n.Source == nil && n.Destination == nil)
	vf.Assume(count >= 1 && count <= 6)
	b := zzNPDU(n)
	for i := 0; i < count; i++ {
		b = append(b, zz16(net[i])...)
	}
	var got btypes.NPDU
	list, err := NewDecoder(b).NPDU(&got)
	vf.Ensures("decoded without error", err == nil)
	for i := 0; i < count; i++ {
		times := 0
		for j := 0; j < len(list); j++ {
			if list[j].Net == net[i] {
				times++
			}
		}
		vf.Ensures("every network is listed, once", times == 1)
	}
	for j := 0; j < len(list); j++ {
		sent := false
		for i := 0; i < count; i++ {
			if list[j].Net == net[i] {
				sent = true
			}
		}
		vf.Ensures("no other network is listed", sent)
	}
}

// Bounded stand-in: a message of 150 networks, all different.
//
//vf:lemma
//vf:prop C06
//vf:bounded 400
func zz_npdu_many_routers(first uint16) {
	vf.Assume(first < 60000)
	b := []byte{1, 0x80, byte(ndpu.IamRouterToNetwork)}
	for i := 0; i < 150; i++ {
		b = append(b, zz16(first+uint16(i))...)
	}
	var got btypes.NPDU
	list, err := NewDecoder(b).NPDU(&got)
	vf.Ensures("decoded without error", err == nil)
	vf.Ensures("all networks are listed", len(list) == 150)
	for i := 0; i < len(list) && i < 150; i++ {
		vf.Ensures("each network is listed", list[i].Net == first+uint16(i))
	}
}
