package bacnet

import (
	"errors"
	"sync"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/utsm"
	vf "github.com/NubeDev/bacnet/zzvf"
	log "github.com/sirupsen/logrus"
)

var _ = vf.Requires

// zzSoon is long enough for what is on its way to arrive.
const zzSoon = 30 * time.Millisecond

var errZZ = errors.New("link down")

// zzLink is a data link that records what is sent.
type zzLink struct {
	mine, bcast *btypes.Address
	down        bool
	sent        []zzSent
	inbox       [][]byte // what Receive returns, one after the other
	from        btypes.Address
}

type zzSent struct {
	data []byte
	dest btypes.Address
}

func (l *zzLink) GetMyAddress() *btypes.Address        { return l.mine }
func (l *zzLink) GetBroadcastAddress() *btypes.Address { return l.bcast }
func (l *zzLink) Close() error                         { return nil }
func (l *zzLink) Receive(data []byte) (*btypes.Address, int, error) {
	if len(l.inbox) == 0 {
		return nil, 0, errZZ
	}
	n := copy(data, l.inbox[0])
	l.inbox = l.inbox[1:]
	from := l.from
	return &from, n, nil
}
func (l *zzLink) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	l.sent = append(l.sent, zzSent{data: append([]byte{}, data...), dest: *dest})
	if l.down {
		return 0, errZZ
	}
	return len(data), nil
}

func zzClient(l *zzLink) *client {
	return &client{dataLink: l, tsm: tsm.New(defaultStateSize), utsm: utsm.NewManager(utsm.DefaultSubscriberTimeout(4*zzSoon), utsm.DefaultSubscriberLastReceivedTimeout(2*zzSoon)), log: log.New(),
		readBufferPool: sync.Pool{New: func() interface{} { return make([]byte, 1497) }}}
}
