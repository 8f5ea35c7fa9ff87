package btypes

import (
	"fmt"

	vf "github.com/NubeDev/bacnet/zzvf"
)

// zzNames: the object types with a name, by their numbers in the standard.
var zzNames = []struct {
	t    ObjectType
	name string
}{
	{0, "AnalogInput"}, {1, "AnalogOutput"}, {2, "AnalogValue"},
	{3, "BinaryInput"}, {4, "BinaryOutput"}, {5, "BinaryValue"},
	{8, "Device"}, {10, "File"}, {13, "MultiStateInput"}, {14, "MultiStateOutput"},
	{15, "NotificationClass"}, {19, "MultiStateValue"}, {20, "TrendLog"}, {40, "CharacterString"},
}

//vf:lemma
//vf:prop C27
func zz_type_to_name(t ObjectType) {
	s := t.String()
	for _, n := range zzNames {
		if t == n.t {
			vf.Ensures("the name of the type", s == n.name)
			vf.Ensures("and back", GetType(s) == t)
			return
		}
	}
	for _, n := range zzNames {
		vf.Ensures("a type without a name takes the name of no other", s != n.name)
	}
	vf.Ensures("a type without a name is shown by its number", vf.Names(fmt.Errorf("%s", s), fmt.Sprintf("%d", uint16(t))))
	vf.Ensures("text that names no type is the default", GetType(s) == AnalogInput)
}

//vf:lemma
//vf:prop C27
func zz_name_to_type(s string) {
	t := GetType(s)
	for _, n := range zzNames {
		if s == n.name {
			vf.Ensures("the type of the name", t == n.t)
			vf.Ensures("and back", t.String() == s)
			return
		}
	}
	vf.Ensures("text that names no type is the default", t == AnalogInput)
}

//vf:lemma
//vf:prop C27
func zz_type_apart(t, u ObjectType) {
	if t == u {
		return
	}
	for _, n := range zzNames {
		if t == n.t {
			vf.Ensures("no two types share a name", t.String() != u.String())
		}
	}
}

// Object maps of up to three objects, whichever types and instances they have.
//
//vf:lemma
//vf:prop C27
//vf:bounded 8
func zz_map_counts(n uint8, t, u, v ObjectType, i, j, k ObjectInstance) {
	m := ObjectMap{}
	put := func(t ObjectType, i ObjectInstance) {
		if m[t] == nil {
			m[t] = map[ObjectInstance]Object{}
		}
		m[t][i] = Object{ID: ObjectID{Type: t, Instance: i}}
	}
	want := 0
	if n > 0 {
		put(t, i)
		want++
	}
	if n > 1 {
		put(u, j)
		if !(u == t && j == i) {
			want++
		}
	}
	if n > 2 {
		put(v, k)
		if !(v == t && k == i) && !(v == u && k == j) {
			want++
		}
	}
	vf.Ensures("each object counts once", m.Len() == want)
}
