package encoding

import (
	"bytes"
	"errors"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"

	"github.com/NubeDev/bacnet/zzvf"
)

var _ = zzvf.Requires

var errZZ = errors.New("earlier error")

// vgen_Encoder: an encoder that has written some octets, maybe after an error.
func vgen_Encoder(written []byte, failed bool) *Encoder {
	e := &Encoder{buff: bytes.NewBuffer(written)}
	if failed {
		e.err = errZZ
	}
	return e
}

// vgen_Decoder: a decoder with some octets left to read, maybe after an error.
func vgen_Decoder(input []byte, failed bool) *Decoder {
	d := &Decoder{buff: bytes.NewBuffer(input)}
	if failed {
		d.err = errZZ
	}
	return d
}

// zzAny: dynamic types tried for interface values when searching.
var zzAny = []interface{}{btypes.Enumerated(0), btypes.Enumerated(0), btypes.ObjectID{}, null.Null{}, btypes.Date{}, &btypes.BitString{}}
