package bacnet

import (
	"time"

	"github.com/NubeDev/bacnet/btypes"
	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzAnswers is a link behind which devices answer a request: one announcement
// after the other reaches the client.
type zzAnswers struct {
	zzLink
	c    *client
	ids  []int
	what []interface{}
}

func (l *zzAnswers) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	for i := range l.what {
		go l.answer(i)
	}
	return l.zzLink.Send(data, npdu, dest)
}

func (l *zzAnswers) answer(i int) {
	time.Sleep(time.Duration(i+1) * zzSoon / 8)
	l.c.utsm.Publish(l.ids[i], l.what[i])
}

// zzLimit: the limits of the range that is asked for. Nothing below 0 and
// nothing above 4194303 is an instance number.
func zzLimit(low, high int) (int, int) {
	if low <= 0 || int64(low) == ArrayAll {
		low = 0
	}
	if high <= 0 || high > 4194303 {
		high = 4194303
	}
	return low, high
}

// The request.
//
//vf:lemma
//vf:prop C23
//vf:use none
func zz_whois_request(wh WhoIsOpts, down bool) {
	link := &zzAnswers{zzLink: zzLink{mine: &btypes.Address{}, bcast: &btypes.Address{}, down: down}}
	c := zzClient(&link.zzLink)
	low, high := zzLimit(wh.Low, wh.High)
	net := wh.NetworkNumber
	if wh.GlobalBroadcast {
		net = 0xffff
	}
	devs, err := c.WhoIs(&wh)
	vf.Ensures("a failure of the link is passed on", (err != nil) == down)
	vf.Ensures("no device without an answer", len(devs) == 0)
	vf.Ensures("one datagram is sent", len(link.sent) == 1)
	if len(link.sent) != 1 {
		return
	}
	head := []byte{1, 0}
	if net != 0 {
		head = []byte{1, 0x20, byte(net >> 8), byte(net), 0, 0xff}
	}
	all := append(append([]byte{}, head...), 0x10, 8)
	some := append(append([]byte{}, all...), zzLimits(low, high)...)
	got := link.sent[0]
	vf.Ensures("to the network asked for", got.dest.Net == net)
	if high == 4194303 && (low == 0 || wh.High != high) && len(got.data) == len(all)+4 { // no upper limit was given
		vf.EnsuresSeq("the datagram without limits", got.data, zzFrame(11, all))
	} else if low > 4194303 {
		vf.Ensures("a broadcast", len(got.data) >= 4 && got.data[1] == 11)
	} else {
		vf.EnsuresSeq("the datagram", got.data, zzFrame(11, some))
	}
}

func zzLimits(low, high int) []byte {
	return append(zzLimitOctets(0x08, low), zzLimitOctets(0x18, high)...)
}

func zzLimitOctets(tag byte, v int) []byte {
	switch {
	case v < 0x100:
		return []byte{tag | 1, byte(v)}
	case v < 0x10000:
		return []byte{tag | 2, byte(v >> 8), byte(v)}
	}
	return []byte{tag | 3, byte(v >> 16), byte(v >> 8), byte(v)}
}

// The answers: three announcements, of any devices, or of something else.
//
//vf:lemma
//vf:prop C23
//vf:use none
//vf:bounded 600
func zz_whois_answers(wh WhoIsOpts, a, b, x btypes.IAm, other uint8) {
	vf.Assume(a.ID.Instance <= 4194303 && b.ID.Instance <= 4194303 && x.ID.Instance <= 4194303)
	link := &zzAnswers{zzLink: zzLink{mine: &btypes.Address{}, bcast: &btypes.Address{}}}
	link.c = zzClient(&link.zzLink)
	link.c.dataLink = link
	iams := []btypes.IAm{a, b, x}
	for i, iam := range iams {
		link.ids = append(link.ids, int(iam.ID.Instance))
		if i == int(other) {
			link.what = append(link.what, "something else")
		} else {
			link.what = append(link.what, iam)
		}
	}
	low, high := zzLimit(wh.Low, wh.High)
	devs, err := link.c.WhoIs(&wh)
	vf.Ensures("no error", err == nil)
	k := 0
	for i, iam := range iams {
		id := iam.ID.Instance
		if i == int(other) || int(id) < low || int(id) > high {
			continue
		}
		seen := false
		for j := 0; j < i; j++ {
			if j != int(other) && iams[j].ID.Instance == id {
				seen = true
			}
		}
		if seen {
			continue
		}
		vf.Ensures("a device for the first answer of each instance", k < len(devs))
		if k < len(devs) {
			d := devs[k]
			vf.Ensures("its identity", d.DeviceID == int(id) && d.ID == iam.ID)
			vf.EnsuresEq("its address", d.Addr, iam.Addr)
			vf.Ensures("its maximum size, segmentation and vendor", d.MaxApdu == iam.MaxApdu && d.Segmentation == iam.Segmentation && d.Vendor == iam.Vendor)
			vf.Ensures("its network", d.NetworkNumber == int(iam.Addr.Net))
		}
		k++
	}
	vf.Ensures("no other devices", len(devs) == k)
}
