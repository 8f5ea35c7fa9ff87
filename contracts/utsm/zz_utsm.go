package utsm

import (
	"time"

	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ = vf.Requires

const zzSoon = 20 * time.Millisecond

func zzManager() *Manager {
	return NewManager(DefaultSubscriberTimeout(4*zzSoon), DefaultSubscriberLastReceivedTimeout(2*zzSoon))
}

// zzGot takes what a subscriber has been given.
func zzGot(s *subscriber) (r []interface{}) {
	for {
		select {
		case b := <-s.data:
			r = append(r, b)
		default:
			return r
		}
	}
}

// Three subscribers of any ranges, one of them removed again or none, and one
// announcement under any id.
//
//vf:lemma
//vf:prop C24
//vf:bounded 600
func zz_publish(a1, a2, b1, b2, c1, c2, id int, gone uint8, data uint32) {
	m := zzManager()
	subs := []*subscriber{m.newSubscriber(a1, a2, nil), m.newSubscriber(b1, b2, nil), m.newSubscriber(c1, c2, nil)}
	lo, hi := []int{a1, b1, c1}, []int{a2, b2, c2}
	if gone < 3 {
		m.removeSubscriber(subs[gone])
	}
	m.Publish(id, data)
	for i, s := range subs {
		got := zzGot(s)
		if lo[i] <= id && id <= hi[i] && i != int(gone) {
			vf.Ensures("delivered once to a subscriber whose range includes the id", len(got) == 1)
			if len(got) == 1 {
				v, ok := got[0].(uint32)
				vf.Ensures("unchanged", ok && v == data)
			}
		} else {
			vf.Ensures("delivered to no other", len(got) == 0)
		}
	}
}

// The list of subscribers, of any length up to five, after one is added and
// one is removed.
//
//vf:lemma
//vf:prop C24
//vf:bounded 600
func zz_subscribers(n, gone uint8, start, end int, timeout, last int64) {
	vf.Assume(n <= 5)
	m := NewManager(DefaultSubscriberTimeout(time.Duration(timeout)), DefaultSubscriberLastReceivedTimeout(time.Duration(last)))
	var want []*subscriber
	for i := 0; i < int(n); i++ {
		want = append(want, m.newSubscriber(i, i, nil))
	}
	s := m.newSubscriber(start, end, nil)
	vf.Ensures("with the range it asked for", s.start == start && s.end == end)
	vf.Ensures("with the timeouts it asked for", s.timeout == time.Duration(timeout) && s.lastReceivedTimeout == time.Duration(last))
	want = append(want, s)
	vf.Ensures("one more subscriber", len(m.subs) == len(want))
	if int(gone) < len(want) {
		m.removeSubscriber(want[gone])
		want = append(append([]*subscriber{}, want[:gone]...), want[gone+1:]...)
	} else {
		m.removeSubscriber(&subscriber{start: start, end: end})
	}
	vf.Ensures("exactly the one is removed", len(m.subs) == len(want))
	for i := range want {
		if i < len(m.subs) {
			vf.Ensures("the others stay in their order", m.subs[i] == want[i])
		}
	}
}

// A subscription yields what is announced under an id of its range while it
// lasts, and is gone afterwards.
//
//vf:lemma
//vf:prop C24
func zz_subscription(start, end, i int, x uint32) {
	m := zzManager()
	go m.Publish(i, x)
	got, err := m.Subscribe(start, end)
	vf.Ensures("a subscription ends without error", err == nil)
	vf.Ensures("it is gone when it has ended", len(m.subs) == 0)
	if start <= i && i <= end {
		vf.Ensures("an announcement of its range is received once", len(got) == 1)
		if len(got) == 1 {
			v, ok := got[0].(uint32)
			vf.Ensures("unchanged", ok && v == x)
		}
	} else {
		vf.Ensures("no other announcement is received", len(got) == 0)
	}
	m.Publish(i, x) // to nobody
	got, err = m.Subscribe(start, end)
	vf.Ensures("a later subscription gets no earlier announcement", err == nil && len(got) == 0)
}
