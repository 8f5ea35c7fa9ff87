package encoding

import vf "github.com/NubeDev/bacnet/zzvf"

// zzBracket is the octets of an opening (6) or closing (7) tag.
//
//vf:opaque
//vf:nonempty
func zzBracket(num uint8, code byte) []byte {
	if num <= 14 {
		return []byte{num<<4 | 8 | code}
	}
	return []byte{0xf0 | 8 | code, num}
}

//vf:contract (*Encoder).openingTag
//vf:prop C02
func zz_openingTag(e *Encoder, num uint8) {
	old := vf.BufBytes(e.buff)
	vf.Modifies(e.buff)
	e.openingTag(num)
	if e.err != nil {
		vf.EnsuresSeq("nothing is written after an error", vf.BufBytes(e.buff), old)
		return
	}
	vf.EnsuresSeq("opening tag octets", vf.BufBytes(e.buff), append(old, zzBracket(num, 6)...))
}

//vf:contract (*Encoder).closingTag
//vf:prop C02
func zz_closingTag(e *Encoder, num uint8) {
	old := vf.BufBytes(e.buff)
	vf.Modifies(e.buff)
	e.closingTag(num)
	if e.err != nil {
		vf.EnsuresSeq("nothing is written after an error", vf.BufBytes(e.buff), old)
		return
	}
	vf.EnsuresSeq("closing tag octets", vf.BufBytes(e.buff), append(old, zzBracket(num, 7)...))
}

//vf:lemma
//vf:prop C02
func zz_bracket_readback(num uint8, closing bool) {
	e := NewEncoder()
	if closing {
		e.closingTag(num)
	} else {
		e.openingTag(num)
	}
	d := NewDecoder(e.Bytes())
	tag, meta, length := d.tagNumberAndValue()
	vf.Ensures("read without error", d.Error() == nil && len(d.Bytes()) == 0)
	vf.Ensures("same tag number", tag == num)
	vf.Ensures("same kind", meta.isOpening() == !closing && meta.isClosing() == closing)
	vf.Ensures("context class, no length", meta.isContextSpecific() && length == 0)
}
