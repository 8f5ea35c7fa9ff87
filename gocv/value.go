package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val interface{}

type VStruct struct{ F []Val }
type VArr struct{ E []Val }

// Sel is one step of a path inside an object: a struct field or an element.
type Sel struct {
	Field int // -1 for element
	Idx   *Term
}
type VPtr struct {
	Obj  int // 0 = nil
	Path []Sel
}
type VSymPtr struct {
	Name string
	Idx  []*Term
	Elem types.Type
}
type VSlice struct {
	Obj           int // 0 = nil slice
	Off, Len, Cap *Term
}

// VSymSlice: input slice whose nil-ness is not yet decided
type VStr struct{ S *Seq }
type VIface struct {
	T types.Type // nil = nil interface
	V Val
}
type VSymIface struct {
	Name string
	Idx  []*Term
	T    types.Type // the interface type
}
type VMap struct{ Obj int }
type VChan struct{ Obj int }
type VFunc struct {
	Fn   *ssa.Function
	Bind []Val
	Bi   string // builtin / model
}
type VTuple struct{ E []Val }
type VOpaque struct {
	Name string
	T    types.Type
}

// ErrVal is the payload of an interface holding an error made by a modelled
// constructor (errors.New, fmt.Errorf, binary.Read ...).
type ErrVal struct {
	Id     int
	Format string
	Args   []Val
}

type Base struct {
	Name string
	Idx  []*Term
	Elem types.Type
	Hole bool
}

func (b *Base) key() string {
	var s strings.Builder
	s.WriteString(b.Name)
	for _, t := range b.Idx {
		fmt.Fprintf(&s, ",%d", t.id)
	}
	return s.String()
}

type SegKind uint8

const (
	SElems SegKind = iota
	SSlice
	SOpaque
	SZero
)

type Seg struct {
	k     SegKind
	elems []Val
	base  *Base
	off   *Term
	ln    *Term
	fn    *ssa.Function
	args  []Val
}

type Seq struct {
	segs []Seg
}

type MapEnt struct {
	K, V Val
	Del  bool
}
type MapVal struct {
	Sym  *VSymMap // nil: concrete empty base
	Ents []MapEnt // overlay, later entries win
	KT   types.Type
	VT   types.Type
	Ver  int
}
type VSymMap struct {
	Name string
	Idx  []*Term
}

type Obj struct {
	T    types.Type // element type for arrays, value type for cells
	Cell Val        // scalar / struct cell
	Arr  *Seq       // backing array
	Buf  *BufState  // bytes.Buffer
	Map  *MapVal
	Chan *ChanState
	Data map[string]Val // extra model state (mutex ...)
	RO   bool           // stands for one of several arrays: reading only
}

type BufState struct {
	S         *Seq
	Last      []Val // the byte just read by ReadByte/Read, for UnreadByte
	CanUnread bool
}

type ChanState struct {
	Q      []Val
	Cap    *Term
	Closed bool
	Sym    string // contents unknown: receives yield fresh values
	Elem   types.Type
	Label  string
}

type Resol struct {
	T    types.Type // dynamic type or nil
	V    Val
	Kind int // 0 = unresolved w/ exclusions, 1 = resolved, 2 = nil
	Excl []types.Type
}

type State struct {
	heap  *layer
	pc    []*Term
	pcSet *pcset
	known map[*Term]bool
	res   *rlayer
	okeys map[string]int
	ghost map[string]Val
	flags map[string]bool
	trace *traceNode
	jr    *journal
	glob  map[int]*Obj // package level variables, shared by all states
	ks    []*Term      // rounds of the cut loops around this point, outermost first
}

type traceNode struct {
	up  *traceNode
	msg string
}

type layer struct {
	m  map[int]*Obj
	up *layer
	d  int
}
type rlayer struct {
	m  map[string]*Resol
	up *rlayer
	d  int
}
type pcset struct {
	m  map[*Term]bool
	up *pcset
	d  int
}

type journal struct {
	heap []struct {
		id int
		o  *Obj
		in bool
	}
	pcLen int
	pcAdd []*Term
	res   []struct {
		k  string
		r  *Resol
		in bool
	}
	okeys []string
	ghost []struct {
		k  string
		v  Val
		in bool
	}
	flags []string
	trace *traceNode
}

func newState() *State {
	return &State{heap: &layer{m: map[int]*Obj{}}, pcSet: &pcset{m: map[*Term]bool{}}, known: map[*Term]bool{},
		res: &rlayer{m: map[string]*Resol{}}, okeys: map[string]int{}, ghost: map[string]Val{}, flags: map[string]bool{}}
}

func (s *State) get(id int) *Obj {
	for l := s.heap; l != nil; l = l.up {
		if o, ok := l.m[id]; ok {
			return o
		}
	}
	return s.glob[id]
}
func (s *State) put(id int, o *Obj) {
	if s.jr != nil {
		old, in := s.heap.m[id]
		s.jr.heap = append(s.jr.heap, struct {
			id int
			o  *Obj
			in bool
		}{id, old, in})
	}
	s.heap.m[id] = o
}
func (s *State) getRes(k string) *Resol {
	for l := s.res; l != nil; l = l.up {
		if o, ok := l.m[k]; ok {
			return o
		}
	}
	return nil
}
func (s *State) putRes(k string, r *Resol) {
	if s.jr != nil {
		old, in := s.res.m[k]
		s.jr.res = append(s.jr.res, struct {
			k  string
			r  *Resol
			in bool
		}{k, old, in})
	}
	s.res.m[k] = r
}
func (s *State) inPC(t *Term) bool {
	for l := s.pcSet; l != nil; l = l.up {
		if l.m[t] {
			return true
		}
	}
	return false
}
func (s *State) addPC(t *Term) {
	if t.op == OConst && t.val == 1 {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.addPC(a)
		}
		return
	}
	if s.inPC(t) {
		return
	}
	if s.jr != nil {
		s.jr.pcAdd = append(s.jr.pcAdd, t)
	}
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], t)
	s.pcSet.m[t] = true
}
func (s *State) setOkey(k string, id int) {
	if s.jr != nil {
		s.jr.okeys = append(s.jr.okeys, k)
	}
	s.okeys[k] = id
}
func (s *State) setGhost(k string, v Val) {
	if s.jr != nil {
		old, in := s.ghost[k]
		s.jr.ghost = append(s.jr.ghost, struct {
			k  string
			v  Val
			in bool
		}{k, old, in})
	}
	s.ghost[k] = v
}
func (s *State) setFlag(k string) {
	if !s.flags[k] {
		if s.jr != nil {
			s.jr.flags = append(s.jr.flags, k)
		}
		s.flags[k] = true
	}
}
func (s *State) note(f string, a ...interface{}) {
	s.trace = &traceNode{s.trace, fmt.Sprintf(f, a...)}
}

func (s *State) begin() {
	s.jr = &journal{pcLen: len(s.pc), trace: s.trace}
}
func (s *State) commit() { s.jr = nil }
func (s *State) rollback() {
	j := s.jr
	s.jr = nil
	for i := len(j.heap) - 1; i >= 0; i-- {
		e := j.heap[i]
		if e.in {
			s.heap.m[e.id] = e.o
		} else {
			delete(s.heap.m, e.id)
		}
	}
	s.pc = s.pc[:j.pcLen]
	for _, t := range j.pcAdd {
		delete(s.pcSet.m, t)
	}
	for i := len(j.res) - 1; i >= 0; i-- {
		e := j.res[i]
		if e.in {
			s.res.m[e.k] = e.r
		} else {
			delete(s.res.m, e.k)
		}
	}
	for _, k := range j.okeys {
		delete(s.okeys, k)
	}
	for i := len(j.ghost) - 1; i >= 0; i-- {
		e := j.ghost[i]
		if e.in {
			s.ghost[e.k] = e.v
		} else {
			delete(s.ghost, e.k)
		}
	}
	for _, k := range j.flags {
		delete(s.flags, k)
	}
	s.trace = j.trace
}

const maxDepth = 12

func (s *State) clone() *State {
	if s.jr != nil {
		panic("clone inside step")
	}
	// heap
	if s.heap.d >= maxDepth {
		m := map[int]*Obj{}
		var ls []*layer
		for l := s.heap; l != nil; l = l.up {
			ls = append(ls, l)
		}
		for i := len(ls) - 1; i >= 0; i-- {
			for k, v := range ls[i].m {
				m[k] = v
			}
		}
		s.heap = &layer{m: m}
	}
	if s.res.d >= maxDepth {
		m := map[string]*Resol{}
		var ls []*rlayer
		for l := s.res; l != nil; l = l.up {
			ls = append(ls, l)
		}
		for i := len(ls) - 1; i >= 0; i-- {
			for k, v := range ls[i].m {
				m[k] = v
			}
		}
		s.res = &rlayer{m: m}
	}
	if s.pcSet.d >= maxDepth {
		m := map[*Term]bool{}
		for l := s.pcSet; l != nil; l = l.up {
			for k := range l.m {
				m[k] = true
			}
		}
		s.pcSet = &pcset{m: m}
	}
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], trace: s.trace, glob: s.glob, ks: s.ks}
	hp := s.heap
	s.heap = &layer{m: map[int]*Obj{}, up: hp, d: hp.d + 1}
	n.heap = &layer{m: map[int]*Obj{}, up: hp, d: hp.d + 1}
	rp := s.res
	s.res = &rlayer{m: map[string]*Resol{}, up: rp, d: rp.d + 1}
	n.res = &rlayer{m: map[string]*Resol{}, up: rp, d: rp.d + 1}
	pp := s.pcSet
	s.pcSet = &pcset{m: map[*Term]bool{}, up: pp, d: pp.d + 1}
	n.pcSet = &pcset{m: map[*Term]bool{}, up: pp, d: pp.d + 1}
	n.known = map[*Term]bool{}
	for k, v := range s.known {
		n.known[k] = v
	}
	n.okeys = map[string]int{}
	for k, v := range s.okeys {
		n.okeys[k] = v
	}
	n.ghost = map[string]Val{}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.flags = map[string]bool{}
	for k, v := range s.flags {
		n.flags[k] = v
	}
	return n
}
