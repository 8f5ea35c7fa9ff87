package bacnet

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzPeer is a link to a device that answers each request with the next of its
// replies: nil is none.
type zzPeer struct {
	zzLink
	c       *client
	fails   []bool
	replies []interface{}
	at      int // where the invoke id stands in a request
	n       int
}

func (l *zzPeer) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	i := l.n
	l.n++
	l.down = i < len(l.fails) && l.fails[i]
	if !l.down && i < len(l.replies) && l.replies[i] != nil && l.at < len(data) {
		go l.c.tsm.Send(int(data[l.at]), l.replies[i])
	}
	return l.zzLink.Send(data, npdu, dest)
}

// id is the invoke id of the request, 1 without one.
func (l *zzPeer) id() uint8 {
	if len(l.sent) > 0 && len(l.sent[0].data) > l.at {
		return l.sent[0].data[l.at]
	}
	return 1
}

// zzAnswer is the reply of a kind: none, an error that was decoded, a packet,
// or something else.
func zzAnswer(kind uint8, packet []byte) interface{} {
	switch kind {
	case 1:
		return errZZ
	case 2:
		return packet
	case 3:
		return 5
	}
	return nil
}

// zzPeerOf is a link to a device and a client for it.
func zzPeerOf(dev *btypes.Device) *zzPeer {
	l := &zzPeer{zzLink: zzLink{mine: &btypes.Address{}}}
	l.c = zzClient(&l.zzLink)
	l.c.dataLink = l
	l.at = 4 + len(zzRoute(dev)) + 2
	return l
}

// zzRoute is the network header of a request (6.2): to the network of the
// device, if it has one, and there to its hardware address.
func zzRoute(dev *btypes.Device) []byte {
	if dev.Addr.Net == 0 {
		return []byte{1, 4}
	}
	r := []byte{1, 0x24, byte(dev.Addr.Net >> 8), byte(dev.Addr.Net), byte(len(dev.Addr.Adr))}
	return append(append(r, dev.Addr.Adr...), 0xff)
}

// zzAsked: n equal datagrams with the request were sent to the device.
func zzAsked(l *zzPeer, dev *btypes.Device, request []byte, n int) {
	want := append(zzRoute(dev), request...)
	function := byte(10)
	if zzToAll(dev.Addr) {
		function = 11
	}
	if len(want) > 65531 {
		n = 0 // no packet can hold it
	}
	vf.Ensures("as many requests as attempts", len(l.sent) == n)
	for i, s := range l.sent {
		if i < n {
			vf.EnsuresSeq("the request", s.data, zzFrame(function, want))
			vf.Ensures("to the device", s.dest.Net == dev.Addr.Net && int(s.dest.Len) == len(dev.Addr.Adr))
			vf.EnsuresSeq("at its address", s.dest.Mac, dev.Addr.Mac)
			vf.EnsuresSeq("and its hardware address", s.dest.Adr, dev.Addr.Adr)
		}
	}
}

// zzReleased: the transaction is gone, and its id can be given again.
func zzReleased(l *zzPeer) {
	for id := 1; id < 4; id++ {
		vf.Ensures("no transaction is left open", l.c.tsm.Put(id) != nil)
	}
}

// zzSendable: the header of a request can hold the address.
func zzSendable(dev *btypes.Device) bool {
	return len(dev.Addr.Adr) <= 255 && (len(dev.Addr.Adr) > 0 || dev.Addr.Len == 0)
}

// zzAck: a reply of any content is the acknowledgement of the service, whole.
func zzAck(b []byte, pdu, service byte) bool {
	return len(b) >= 3 && b[0]>>4 == pdu && b[0]&8 == 0 && b[2] == service
}

// One property is read: one request, and no success without its
// acknowledgement, whatever is received.
//
//vf:lemma
//vf:prop C18
//vf:use reply
func zz_read_confirmed(dev btypes.Device, o btypes.ObjectID, p btypes.PropertyType, index uint32, fail bool, kind uint8, reply []byte) {
	vf.Assume(zzSendable(&dev))
	l := zzPeerOf(&dev)
	l.fails = []bool{fail}
	l.replies = []interface{}{zzAnswer(kind, reply)}
	rp := btypes.PropertyData{Object: btypes.Object{ID: o, Properties: []btypes.Property{{Type: p, ArrayIndex: index}}}}
	_, err := l.c.ReadProperty(dev, rp)
	zzReleased(l)
	enc := encoding.NewEncoder()
	if enc.ReadProperty(l.id(), rp) != nil {
		vf.Ensures("a request that cannot be encoded is an error and is not sent", err != nil && len(l.sent) == 0)
		return
	}
	zzAsked(l, &dev, enc.Bytes(), 1)
	if fail || kind != 2 || !zzAck(reply, 3, 12) {
		vf.Ensures("an error if it was not acknowledged", err != nil)
	}
}

// The value of the acknowledgement is the one returned.
//
//vf:lemma
//vf:prop C18
//vf:use none
//vf:bounded 600
func zz_read_value(dev btypes.Device, o btypes.ObjectID, v uint8) {
	vf.Assume(zzSendable(&dev) && o.Type <= 1023 && o.Instance <= 4194303)
	l := zzPeerOf(&dev)
	l.replies = []interface{}{[]byte{0x30, 1, 12, 0x0c, 2, 0, 0, 7, 0x19, 85, 0x3e, 0x21, v, 0x3f}}
	rp := btypes.PropertyData{Object: btypes.Object{ID: o, Properties: []btypes.Property{{Type: 85, ArrayIndex: ArrayAll}}}}
	got, err := l.c.ReadProperty(dev, rp)
	vf.Ensures("success", err == nil)
	zzReleased(l)
	vf.Ensures("the object read", got.Object.ID.Type == 8 && got.Object.ID.Instance == 7 && len(got.Object.Properties) == 1)
	if len(got.Object.Properties) == 1 {
		x, ok := got.Object.Properties[0].Data.(uint32)
		vf.Ensures("the value read", ok && x == uint32(v))
	}
}

// A write request that is not answered: the datagrams. The value is a number,
// or one of a type that cannot be written.
//
//vf:lemma
//vf:prop C18
//vf:use reply
func zz_write_request(dev btypes.Device, o btypes.ObjectID, prio uint8, x float32, bad, f1, f2 bool) {
	vf.Assume(zzSendable(&dev))
	zzWriteRequest(dev, o, btypes.Property{Type: 85, ArrayIndex: ArrayAll, Priority: btypes.NPDUPriority(prio), Data: x}, bad, f1, f2)
}

//vf:lemma
//vf:prop C18
//vf:use reply
func zz_write_property(o btypes.ObjectID, p btypes.PropertyType, index, x uint32, prio uint8) {
	zzWriteRequest(btypes.Device{}, o, btypes.Property{Type: p, ArrayIndex: index, Priority: btypes.NPDUPriority(prio), Data: x}, false, false, true)
}

func zzWriteRequest(dev btypes.Device, o btypes.ObjectID, p btypes.Property, bad, f1, f2 bool) {
	wp := btypes.PropertyData{Object: btypes.Object{ID: o, Properties: []btypes.Property{p}}}
	if bad {
		wp.Object.Properties[0].Data = zzLink{}
	}
	l := zzPeerOf(&dev)
	l.fails = []bool{f1, f2}
	err := l.c.WriteProperty(dev, wp)
	vf.Ensures("an error without acknowledgement", err != nil)
	zzReleased(l)
	enc := encoding.NewEncoder()
	if enc.WriteProperty(l.id(), wp) != nil {
		vf.Ensures("a request that cannot be encoded is not sent", len(l.sent) == 0)
		return
	}
	zzAsked(l, &dev, enc.Bytes(), 2)
}

// Whatever is received, a write succeeds exactly if an attempt is acknowledged.
//
//vf:lemma
//vf:prop C18
//vf:use reply
func zz_write_outcome(f1, f2 bool, k1, k2 uint8, r1, r2 []byte) {
	dev := btypes.Device{}
	l := zzPeerOf(&dev)
	l.fails, l.replies = []bool{f1, f2}, []interface{}{zzAnswer(k1, r1), zzAnswer(k2, r2)}
	err := l.c.WriteProperty(dev, btypes.PropertyData{Object: btypes.Object{Properties: []btypes.Property{{Type: 85, ArrayIndex: ArrayAll, Data: float32(1)}}}})
	zzReleased(l)
	zzOutcome(l, err, f1, f2, k1, k2, r1, r2, 15)
}

// zzOutcome: a write is asked for until an attempt is acknowledged, at most
// twice.
func zzOutcome(l *zzPeer, err error, f1, f2 bool, k1, k2 uint8, r1, r2 []byte, service byte) {
	vf.Ensures("one or two attempts", len(l.sent) == 1 || len(l.sent) == 2)
	last := zzAcked(f1, k1, r1, service)
	if len(l.sent) == 2 {
		vf.Ensures("no second attempt after success", !last)
		last = zzAcked(f2, k2, r2, service)
	}
	vf.Ensures("success exactly if the last attempt was acknowledged", (err == nil) == last)
}

func zzAcked(fail bool, kind uint8, reply []byte, service byte) bool {
	return !fail && kind == 2 && zzAck(reply, 2, service)
}

// A multiple write that is not answered: the datagrams.
//
//vf:lemma
//vf:prop C18
//vf:use default reply
func zz_writemulti_request(dev btypes.Device, wp btypes.MultiplePropertyData, f1, f2 bool) {
	vf.Assume(zzSendable(&dev))
	l := zzPeerOf(&dev)
	l.fails = []bool{f1, f2}
	err := l.c.WriteMultiProperty(dev, wp)
	vf.Ensures("an error without acknowledgement", err != nil)
	zzReleased(l)
	enc := encoding.NewEncoder()
	if enc.WriteMultiProperty(l.id(), wp) != nil {
		vf.Ensures("a request that cannot be encoded is not sent", len(l.sent) == 0)
		return
	}
	zzAskedWithin(l, &dev, enc.Bytes())
}

// zzAskedWithin: the request goes out, twice without an answer, unless it is
// larger than what the device takes. Whether its network header counts is left
// open.
func zzAskedWithin(l *zzPeer, dev *btypes.Device, request []byte) {
	if len(request) > int(dev.MaxApdu) {
		vf.Ensures("a request larger than the device takes is not sent", len(l.sent) == 0)
	} else if len(request)+len(zzRoute(dev)) <= int(dev.MaxApdu) || len(l.sent) > 0 {
		zzAsked(l, dev, request, 2)
	}
}

// Whatever is received, a multiple write succeeds exactly if an attempt is
// acknowledged.
//
//vf:lemma
//vf:prop C18
//vf:use reply
func zz_writemulti_outcome(f1, f2 bool, k1, k2 uint8, r1, r2 []byte) {
	dev := btypes.Device{MaxApdu: 480}
	l := zzPeerOf(&dev)
	l.fails, l.replies = []bool{f1, f2}, []interface{}{zzAnswer(k1, r1), zzAnswer(k2, r2)}
	err := l.c.WriteMultiProperty(dev, btypes.MultiplePropertyData{})
	zzReleased(l)
	zzOutcome(l, err, f1, f2, k1, k2, r1, r2, 16)
}

// A multiple read that is not answered: the datagrams.
//
//vf:lemma
//vf:prop C18
//vf:use default reply
func zz_readmulti_request(dev btypes.Device, rp btypes.MultiplePropertyData, f1, f2 bool) {
	vf.Assume(zzSendable(&dev))
	l := zzPeerOf(&dev)
	l.fails = []bool{f1, f2}
	_, err := l.c.ReadMultiProperty(dev, rp)
	vf.Ensures("an error without acknowledgement", err != nil)
	zzReleased(l)
	enc := encoding.NewEncoder()
	if enc.ReadMultipleProperty(l.id(), rp) != nil {
		vf.Ensures("a request that cannot be encoded is not sent", len(l.sent) == 0)
		return
	}
	zzAskedWithin(l, &dev, enc.Bytes())
}

// Whatever is received, a multiple read succeeds only if an attempt is
// acknowledged.
//
//vf:lemma
//vf:prop C18
//vf:use reply
func zz_readmulti_outcome(f1, f2 bool, k1, k2 uint8, r1, r2 []byte) {
	dev := btypes.Device{MaxApdu: 480}
	l := zzPeerOf(&dev)
	l.fails, l.replies = []bool{f1, f2}, []interface{}{zzAnswer(k1, r1), zzAnswer(k2, r2)}
	_, err := l.c.ReadMultiProperty(dev, btypes.MultiplePropertyData{})
	zzReleased(l)
	vf.Ensures("one or two attempts", len(l.sent) == 1 || len(l.sent) == 2)
	last := !f1 && k1 == 2 && zzAck(r1, 3, 14)
	if len(l.sent) == 2 {
		last = !f2 && k2 == 2 && zzAck(r2, 3, 14)
	}
	vf.Ensures("no success without acknowledgement", err != nil || last)
}

// Both objects of the acknowledgement are returned.
//
//vf:lemma
//vf:prop C18
//vf:use none
//vf:bounded 600
func zz_readmulti_value(v, w uint8) {
	dev := btypes.Device{MaxApdu: 480}
	l := zzPeerOf(&dev)
	l.replies = []interface{}{nil, []byte{0x30, 1, 14, 0x0c, 0, 0, 0, 7, 0x1e, 0x29, 85, 0x4e, 0x21, v, 0x4f, 0x1f, 0x0c, 0, 0, 0, 9, 0x1e, 0x29, 85, 0x4e, 0x21, w, 0x4f, 0x1f}}
	got, err := l.c.ReadMultiProperty(dev, btypes.MultiplePropertyData{})
	zzReleased(l)
	vf.Ensures("success", err == nil)
	vf.Ensures("all objects", len(got.Objects) == 2)
	for i, o := range got.Objects {
		vf.Ensures("each object", o.ID.Type == 0 && int(o.ID.Instance) == 7+2*i && len(o.Properties) == 1)
		if len(o.Properties) == 1 {
			x, ok := o.Properties[0].Data.(uint32)
			vf.Ensures("with its value", ok && x == uint32([]uint8{v, w}[i%2]))
		}
	}
}

// zzSomeReply: an acknowledgement of the service with body, maybe of another
// type, service or in segments (for the runs on the real code only).
func zzSomeReply(g *vf.Gen, pdu, service byte, body []byte) []byte {
	b := append([]byte{pdu << 4, 1, service}, body...)
	if g.R.Intn(3) == 0 {
		b[0] = []byte{2, 3, 2, 3, 0, 1, 5}[g.R.Intn(7)] << 4
	}
	if g.R.Intn(3) == 0 {
		b[2] = []byte{12, 14, 15, 16, 5, 6}[g.R.Intn(6)]
	}
	if g.R.Intn(6) == 0 {
		b = append([]byte{b[0] | 8, 1, 0, 1, b[2]}, body...)
	}
	if g.R.Intn(8) == 0 {
		b = b[:g.R.Intn(len(b)+1)]
	}
	return b
}

func zzSomeKind(g *vf.Gen) uint8 { return []uint8{2, 2, 2, 2, 2, 1, 2, 3}[g.R.Intn(8)] }

func vrand_read_confirmed(g *vf.Gen) (btypes.Device, btypes.ObjectID, btypes.PropertyType, uint32, bool, uint8, []byte) {
	reply := zzSomeReply(g, 3, 12, []byte{0x0c, 2, 0, 0, 7, 0x19, 85, 0x3e, 0x21, byte(g.R.Intn(256)), 0x3f})
	return btypes.Device{}, btypes.ObjectID{Type: 8, Instance: 7}, 85, ArrayAll, g.R.Intn(5) == 0, zzSomeKind(g), reply
}

func vrand_write_outcome(g *vf.Gen) (f1, f2 bool, k1, k2 uint8, r1, r2 []byte) {
	return g.R.Intn(4) == 0, g.R.Intn(4) == 0, zzSomeKind(g), zzSomeKind(g), zzSomeReply(g, 2, 15, nil), zzSomeReply(g, 2, 15, nil)
}

func vrand_writemulti_outcome(g *vf.Gen) (f1, f2 bool, k1, k2 uint8, r1, r2 []byte) {
	return g.R.Intn(4) == 0, g.R.Intn(4) == 0, zzSomeKind(g), zzSomeKind(g), zzSomeReply(g, 2, 16, nil), zzSomeReply(g, 2, 16, nil)
}

func vrand_readmulti_outcome(g *vf.Gen) (f1, f2 bool, k1, k2 uint8, r1, r2 []byte) {
	body := []byte{0x0c, 0, 0, 0, 7, 0x1e, 0x29, 85, 0x4e, 0x21, 5, 0x4f, 0x1f}
	return g.R.Intn(4) == 0, g.R.Intn(4) == 0, zzSomeKind(g), zzSomeKind(g), zzSomeReply(g, 3, 14, body), zzSomeReply(g, 3, 14, body)
}
