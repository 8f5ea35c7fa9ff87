package encoding

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzNetHeader is the number of octets of the network header that b starts with
// (clause 6.2.2), or ok false if b is too short for it.
func zzNetHeader(b []byte) (n int, ok bool) {
	if len(b) < 2 {
		return 0, false
	}
	n = 2
	for _, bit := range [2]byte{0x20, 0x08} {
		if b[1]&bit != 0 {
			if len(b) < n+3 {
				return 0, false
			}
			n += 3 + int(b[n+2])
		}
	}
	if b[1]&0x20 != 0 {
		n++
	}
	if b[1]&0x80 != 0 {
		n++
	}
	return n, n <= len(b)
}

//vf:contract (*Decoder).NPDU
//vf:prop C17
//vf:group handle
func zz_handle_npdu(d *Decoder, x *btypes.NPDU) {
	vf.Requires(x != nil && d.err == nil && *x == btypes.NPDU{})
	old := vf.BufBytes(d.buff)
	vf.Modifies(d.buff, &d.err, x)
	_, err := d.NPDU(x)
	if err != nil {
		return
	}
	vf.Ensures("no error is left", d.err == nil)
	n, ok := zzNetHeader(old)
	vf.Ensures("the header is whole", ok)
	if !ok {
		return
	}
	vf.Ensures("version", x.Version == old[0])
	vf.Ensures("network layer message or not", x.IsNetworkLayerMessage == (old[1]&0x80 != 0))
	if old[1]&0x80 == 0 {
		vf.EnsuresSeq("the message is what follows the header", vf.BufBytes(d.buff), old[n:])
		return
	}
	vf.Ensures("message type", byte(x.NetworkLayerMessageType) == old[n-1])
	vf.Ensures("an answer has a network", x.NetworkLayerMessageType != ndpu.NetworkIs && x.NetworkLayerMessageType != ndpu.IamRouterToNetwork || x.Source != nil)
}
