package encoding

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	vf "github.com/NubeDev/bacnet/zzvf"
	"golang.org/x/text/encoding/unicode"
)

// zzHead reads a tag header (20.2.1): number, value, octets taken; ok is false
// when the input ends inside the header.
func zzHead(b []byte) (num uint8, val uint32, n int, ok bool) {
	if len(b) < 1 {
		return 0, 0, 0, false
	}
	num = b[0] >> 4
	n = 1
	if num == 15 {
		if len(b) < 2 {
			return 0, 0, 0, false
		}
		num = b[1]
		n = 2
	}
	lvt := b[0] & 7
	if lvt < 5 {
		return num, uint32(lvt), n, true
	}
	if lvt > 5 {
		return num, 0, n, true
	}
	if len(b) < n+1 {
		return 0, 0, 0, false
	}
	switch b[n] {
	case 254:
		if len(b) < n+3 {
			return 0, 0, 0, false
		}
		return num, uint32(b[n+1])<<8 | uint32(b[n+2]), n + 3, true
	case 255:
		if len(b) < n+5 {
			return 0, 0, 0, false
		}
		return num, uint32(b[n+1])<<24 | uint32(b[n+2])<<16 | uint32(b[n+3])<<8 | uint32(b[n+4]), n + 5, true
	}
	return num, uint32(b[n]), n + 1, true
}

// zzBig is the unsigned number in 1 to 4 octets.
func zzBig(c []byte) uint32 {
	switch len(c) {
	case 1:
		return uint32(c[0])
	case 2:
		return uint32(c[0])<<8 | uint32(c[1])
	case 3:
		return uint32(c[0])<<16 | uint32(c[1])<<8 | uint32(c[2])
	}
	return uint32(c[0])<<24 | uint32(c[1])<<16 | uint32(c[2])<<8 | uint32(c[3])
}

// zzValidLen: the content lengths application data of a type can have.
func zzValidLen(tag uint8, n int) bool {
	switch tag {
	case 0:
		return n == 0
	case 2, 3, 9:
		return n >= 1 && n <= 4
	case 4, 10, 11, 12:
		return n == 4
	case 5:
		return n == 8
	case 7:
		return n >= 1
	case 8:
		return n >= 1 && n <= 16
	}
	return tag <= 12
}

// Decoding application data: all of the header and content and nothing more is
// consumed, or there is an error.
//
//vf:lemma
//vf:prop C05
func zz_appdata_consumed(b []byte) {
	vf.Assume(len(b) == 0 || b[0]&8 == 0)
	d := NewDecoder(b)
	_, err := d.AppData()
	rest := d.Bytes()
	tag, val, n, ok := zzHead(b)
	if err == nil {
		vf.Ensures("the tag header is complete", ok)
		if tag != 1 {
			n += int(val)
		}
		vf.Ensures("the content is complete", n <= len(b))
		vf.Ensures("the content has a length its type allows", tag == 1 || zzValidLen(tag, int(val)))
		vf.Ensures("header and content are consumed, nothing more", len(b)-len(rest) == n)
		vf.EnsuresSuffix("the rest of the input is left as it is", rest, b)
	}
}

// A UCS-2 string is big-endian, without a byte order mark.
//
//vf:lemma
//vf:prop C05
func zz_appdata_ucs2(b []byte) {
	vf.Assume(len(b) > 0 && b[0]&8 == 0)
	tag, val, n, ok := zzHead(b)
	L := int(val)
	vf.Assume(ok && tag == 7 && L >= 1 && L <= len(b)-n && b[n] == 4)
	want, err1 := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder().String(string(b[n+1 : n+L]))
	v, err := NewDecoder(b).AppData()
	vf.Ensures("decoded exactly when it is UCS-2", (err == nil) == (err1 == nil))
	if err == nil {
		s, ok := v.(string)
		vf.Ensures("character string", ok)
		vf.EnsuresSeq("character string content", []byte(s), []byte(want))
	}
}

// Complete and well-formed application data is decoded, to the value the
// standard gives it.
//
//vf:lemma
//vf:prop C05
func zz_appdata_value(b []byte, bit uint8) {
	vf.Assume(len(b) > 0 && b[0]&8 == 0)
	tag, val, n, ok := zzHead(b)
	vf.Assume(ok && tag <= 12)
	L := int(val)
	if tag == 1 {
		L = 0
		vf.Assume(val <= 1)
	} else {
		vf.Assume(L <= len(b)-n && zzValidLen(tag, L))
	}
	c := b[n : n+L]
	if tag == 7 {
		vf.Assume(c[0] == 0)
	}
	if tag == 8 {
		vf.Assume(c[0] <= 7 && int(c[0]) <= 8*(L-1))
	}
	d := NewDecoder(b)
	v, err := d.AppData()
	vf.Ensures("well-formed data is decoded", err == nil && d.Error() == nil)
	switch tag {
	case 0:
		vf.EnsuresEq("null", v, null.Null{})
	case 1:
		vf.EnsuresEq("boolean", v, val == 1)
	case 2:
		vf.EnsuresEq("unsigned", v, zzBig(c))
	case 3:
		x := zzBig(c)
		if L < 4 && c[0] >= 128 {
			x |= 0xffffffff << (8 * uint(L))
		}
		vf.EnsuresEq("signed", v, int32(x))
	case 4:
		f, ok := v.(float32)
		vf.Ensures("real", ok && math.Float32bits(f) == zzBig(c))
	case 5:
		f, ok := v.(float64)
		vf.Ensures("double", ok && math.Float64bits(f) == uint64(zzBig(c[:4]))<<32|uint64(zzBig(c[4:])))
	case 6:
		o, ok := v.([]byte)
		vf.Ensures("octet string", ok)
		vf.EnsuresSeq("octet string content", o, c)
	case 7:
		s, ok := v.(string)
		vf.Ensures("character string", ok)
		vf.EnsuresSeq("character string content", []byte(s), c[1:])
	case 8:
		s, ok := v.(*btypes.BitString)
		vf.Ensures("bit string", ok && s != nil)
		vf.Ensures("number of bits", int(s.GetBitUsed()) == 8*(L-1)-int(c[0]))
		if bit < s.GetBitUsed() {
			vf.Ensures("bit n is bit n of the string, counted from the top", s.Bit(bit) == (c[1+bit/8]&(0x80>>(bit%8)) != 0))
		}
	case 9:
		vf.EnsuresEq("enumerated", v, zzBig(c))
	case 10:
		t, ok := v.(btypes.Date)
		year := int(c[0]) + 1900
		if c[0] == 255 {
			year = 255
		}
		vf.Ensures("date", ok && t.Year == year && t.Month == int(c[1]) && t.Day == int(c[2]) && int(t.DayOfWeek) == int(c[3]))
	case 11:
		t, ok := v.(btypes.Time)
		vf.Ensures("time", ok && t.Hour == int(c[0]) && t.Minute == int(c[1]) && t.Second == int(c[2]) && t.Millisecond == 10*int(c[3]))
	case 12:
		x := zzBig(c)
		vf.EnsuresEq("object identifier", v, btypes.ObjectID{Type: btypes.ObjectType(x >> 22), Instance: btypes.ObjectInstance(x & 0x3fffff)})
	}
}
