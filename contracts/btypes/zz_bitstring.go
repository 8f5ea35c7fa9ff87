package btypes

import vf "github.com/NubeDev/bacnet/zzvf"

var _ = vf.Requires

// zzBits is any bit string that fits its capacity.
func zzBits(used uint8, value []byte) *BitString {
	vf.Assume(len(value) <= MaxBitStringBytes && used <= 8*MaxBitStringBytes && int(used) <= 8*len(value))
	return &BitString{BitUsed: used, Value: append([]byte{}, value...)}
}

// zzBit: the bit with a number, the lowest bit of an octet first.
func zzBit(value []byte, n uint8) bool { return value[n/8]&(1<<(n%8)) != 0 }

//vf:lemma
//vf:prop C21
func zz_bits_new(size int) {
	b := NewBitString(size)
	want := size
	if want < 0 {
		want = 0
	}
	if want > 15 {
		want = 15
	}
	vf.Ensures("capacity in octets", len(b.Value) == want)
	vf.Ensures("capacity in bits", int(b.BitsCapacity()) == 8*want)
	vf.Ensures("no bit in use", b.BitUsed == 0 && b.GetBitUsed() == 0 && b.BytesUsed() == 0 && len(b.GetValue()) == 0)
}

//vf:lemma
//vf:prop C21
func zz_bits_new_unset(size int, n uint8) {
	b := NewBitString(size)
	vf.Ensures("no bit is set", !b.Bit(n))
	vf.Ensures("no octet is set", b.Byte(n) == 0)
}

//vf:lemma
//vf:prop C21
func zz_bits_set(used uint8, value []byte, n, other uint8, on bool) {
	b := zzBits(used, value)
	b.SetBit(n, on)
	vf.Ensures("the capacity stays", len(b.Value) == len(value))
	if int(n) >= 8*len(value) {
		vf.Ensures("a bit outside the capacity reads as unset", !b.Bit(n))
		vf.EnsuresSeq("a bit outside the capacity is not stored", b.Value, value)
		vf.Ensures("a bit outside the capacity is not in use", b.BitUsed == used)
		return
	}
	vf.Ensures("the bit reads as it was set", b.Bit(n) == on)
	if int(other) < 8*len(value) && other != n {
		vf.Ensures("every other bit stays", b.Bit(other) == zzBit(value, other))
	}
	want := used
	if n+1 > used {
		want = n + 1
	}
	vf.Ensures("bits in use reach to the highest bit set", b.BitUsed == want && b.GetBitUsed() == want)
	vf.Ensures("octets in use hold the bits in use", b.BytesUsed() == (want+7)/8)
	vf.Ensures("the bit is in the octet's place", (b.Byte(n/8)&(1<<(n%8)) != 0) == on)
}

//vf:lemma
//vf:prop C21
func zz_bits_read(used uint8, value []byte, n uint8) {
	b := zzBits(used, value)
	got := b.Bit(n)
	if int(n) < 8*len(value) {
		vf.Ensures("the bit stored", got == zzBit(value, n))
	} else {
		vf.Ensures("a bit outside the capacity reads as unset", !got)
	}
	o := b.Byte(n)
	if int(n) < len(value) {
		vf.Ensures("the octet stored", o == value[n])
	} else {
		vf.Ensures("an octet outside the capacity reads as unset", o == 0)
	}
	vf.EnsuresSeq("reading changes nothing", b.Value, value)
	vf.Ensures("bits in use", b.GetBitUsed() == used && b.BitUsed == used)
	vf.Ensures("octets in use", int(b.BytesUsed()) == (int(used)+7)/8)
	vf.Ensures("capacity", int(b.BitsCapacity()) == 8*len(value))
}

//vf:lemma
//vf:prop C21
//vf:short 120
//vf:merge
func zz_bits_list(used uint8, value []byte, n uint8) {
	b := zzBits(used, value)
	got := b.GetValue()
	vf.Ensures("one entry per bit in use", len(got) == int(used))
	if n < used {
		vf.Ensures("with the value of the bit", got[n] == zzBit(value, n))
	}
	vf.EnsuresSeq("listing changes nothing", b.Value, value)
}

//vf:lemma
//vf:prop C21
func zz_bits_octet(used uint8, value []byte, i, other uint8, v byte) {
	b := zzBits(used, value)
	ok := b.SetByte(i, v)
	vf.Ensures("stored exactly within the capacity", ok == (int(i) < len(value)))
	if !ok {
		vf.EnsuresSeq("an octet outside the capacity is not stored", b.Value, value)
		return
	}
	vf.Ensures("the octet reads as it was set", b.Byte(i) == v)
	if int(other) < len(value) && other != i {
		vf.Ensures("every other octet stays", b.Byte(other) == value[other])
	}
}

//vf:lemma
//vf:prop C21
func zz_bits_used(used uint8, value []byte, octets, unused uint8) {
	b := zzBits(used, value)
	ok := b.SetBitsUsed(octets, unused)
	vf.Ensures("taken exactly if the octets are within the capacity and the unused bits within the octets", ok == (int(octets) <= len(value) && int(unused) <= 8*int(octets)))
	if ok {
		vf.Ensures("bits in use", int(b.BitUsed) == 8*int(octets)-int(unused))
	} else {
		vf.Ensures("bits in use stay", b.BitUsed == used)
	}
	vf.EnsuresSeq("the bits stay", b.Value, value)
}
