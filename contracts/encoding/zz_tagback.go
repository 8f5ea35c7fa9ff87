package encoding

import vf "github.com/NubeDev/bacnet/zzvf"

//vf:lemma
//vf:prop C02
func zz_tag_readback(num uint8, context bool, length uint32) {
	e := NewEncoder()
	e.tag(tagInfo{ID: num, Context: context, Value: length})
	d := NewDecoder(e.Bytes())
	tag, meta, got := d.tagNumberAndValue()
	vf.Ensures("read without error", d.Error() == nil && len(d.Bytes()) == 0)
	vf.Ensures("same tag number", tag == num)
	vf.Ensures("same class", meta.isContextSpecific() == context)
	vf.Ensures("same length", got == length)
	vf.Ensures("neither opening nor closing", !meta.isOpening() && !meta.isClosing())
}
