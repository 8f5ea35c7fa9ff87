package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// snapshot converts slices inside a value into immutable sequence snapshots.
func (e *Engine) snapshot(st *State, v Val, t types.Type) Val {
	switch x := v.(type) {
	case *VSlice:
		return &SeqVal{S: e.sliceSeq(st, x), T: t}
	case *VStruct:
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return v
		}
		r := &VStruct{}
		ch := false
		for i, f := range x.F {
			n := e.snapshot(st, f, u.Field(i).Type())
			if n != f {
				ch = true
			}
			r.F = append(r.F, n)
		}
		if ch {
			return r
		}
		return v
	}
	return v
}

func (e *Engine) unsnapshot(st *State, v Val) Val {
	switch x := v.(type) {
	case *SeqVal:
		el := x.T.Underlying().(*types.Slice).Elem()
		return e.newSlice(st, el, x.S)
	case *VStruct:
		r := &VStruct{}
		for _, f := range x.F {
			r.F = append(r.F, e.unsnapshot(st, f))
		}
		return r
	}
	return v
}

// opaqueCall builds the value of an opaque specification function.
func (e *Engine) opaqueCall(st *State, fn *ssa.Function, args []Val) Val {
	var as []Val
	for i, a := range args {
		as = append(as, e.snapshot(st, a, fn.Params[i].Type()))
	}
	rt := fn.Signature.Results().At(0).Type()
	if types.IsInterface(rt) {
		name, idx := e.opaqueName("oi:", fn, as)
		if e.opaqIface == nil {
			e.opaqIface = map[string]opaqDef{}
		}
		e.opaqIface[symKey(name, idx)] = opaqDef{fn, as}
		return &VSymIface{Name: name, Idx: idx, T: rt}
	}
	s := Seg{k: SOpaque, fn: fn, args: as}
	s.ln = e.opaqueLen(fn, as)
	if lf := e.P.length[fn]; lf != nil {
		var us []Val
		for _, a := range as {
			us = append(us, e.unsnapshot(st, a))
		}
		e.proveLength(fn, "%s may be empty or of another length than "+lf.Name(), lf)
		s.ln = e.asInt(e.nested(st, lf, us), lf.Signature.Results().At(0).Type())
	}
	q := &Seq{segs: []Seg{s}}
	if e.P.nonempty[fn] {
		e.proveLength(fn, "%s may be empty", nil)
		st.addPC(e.tm.Ule(e.tm.I(1), s.ln))
	}
	if t := lastScalar(as); !e.P.fold[fn] || t != nil && (t.isConst() && t.val == 0 || t.op == OAdd && sx(t.val, 64) > 0) {
		// of constants, after no round or one more: its value is known
		con := !e.P.fold[fn]
		for _, a := range as {
			if t, ok := a.(*Term); !ok || !t.isConst() {
				con = false
			}
		}
		if con || e.P.fold[fn] {
			q = e.unfoldSeg(st, q, 0)
		}
	}
	if isString(rt) {
		return &VStr{q}
	}
	return e.newSlice(st, rt.Underlying().(*types.Slice).Elem(), q)
}

// opaqueBool is the value of an opaque predicate: one of its own, tied to its
// definition where the round counter (last argument) is constant or a successor.
func (e *Engine) opaqueBool(st *State, fn *ssa.Function, args []Val) Val {
	var as []Val
	for i, a := range args {
		as = append(as, e.snapshot(st, a, fn.Params[i].Type()))
	}
	name, idx := e.opaqueName("ob:", fn, as)
	atom := e.tm.App(name, 0, idx...)
	t := lastScalar(as)
	if t == nil || !t.isConst() && !(t.op == OAdd && sx(t.val, 64) > 0) {
		return atom
	}
	k := "unb:" + fn.String()
	for _, a := range as {
		k += ";" + e.valKey(nil, a)
	}
	v, ok := st.ghost["memo:"+k]
	if !ok {
		panic(&Nested{key: k, fn: fn, args: append([]Val{unfoldMark{}}, as...)})
	}
	st.addPC(e.tm.Eq(atom, v.(*Term)))
	return v
}

func (e *Engine) opaqueLen(fn *ssa.Function, as []Val) *Term {
	name, idx := e.opaqueName("olen:", fn, as)
	return e.lenTerm(name, idx)
}

type opaqDef struct {
	fn   *ssa.Function
	args []Val
}

// opaqueName names the application of an opaque specification, numbers apart.
func (e *Engine) opaqueName(kind string, fn *ssa.Function, as []Val) (string, []*Term) {
	name := kind + fn.Name()
	var idx []*Term
	for _, a := range as {
		switch x := a.(type) {
		case *Term:
			idx = append(idx, x)
		case *VSymIface:
			name += ";I" + x.Name
			idx = append(idx, x.Idx...)
		default:
			name += ";" + e.valKey(nil, a)
		}
	}
	return name, idx
}

// proveLength proves, once, that a specification yields at least one element
// whatever its arguments, or as many as lf says.
func (e *Engine) proveLength(fn *ssa.Function, msg string, lf *ssa.Function) {
	if ok, seen := e.nonempty[fn]; seen {
		if !ok {
			unsup(msg, fn.Name())
		}
		return
	}
	if e.nonempty == nil {
		e.nonempty = map[*ssa.Function]bool{}
	}
	e.nonempty[fn] = true // for a recursive use, by induction
	defer func(m bool) { e.merge = m }(e.merge)
	e.merge = false
	st := e.freshState()
	args := []Val{unfoldMark{}}
	for _, p := range fn.Params {
		args = append(args, e.snapshot(st, e.mat(st, p.Type(), "ne:"+p.Name(), nil), p.Type()))
	}
	for _, o := range e.callPure(st, fn, args) {
		if o.kind == OKill {
			continue
		}
		ok := o.kind == ORet
		if ok {
			v := o.ret
			for _, r := range e.forking(nil, o.st, func(st *State) Val {
				q := e.seqOf(st, v)
				for lf == nil && len(q.segs) > 0 && q.segs[0].k == SOpaque && !e.implied(st, e.tm.Ule(e.tm.I(1), e.seqLen(q))) {
					q = e.unfoldSeg(st, q, 0)
				}
				if lf != nil {
					var us []Val
					for _, a := range args[1:] {
						us = append(us, e.unsnapshot(st, a))
					}
					return e.tm.Eq(e.seqLen(q), e.asInt(e.nested(st, lf, us), lf.Signature.Results().At(0).Type()))
				}
				return e.tm.Ule(e.tm.I(1), e.seqLen(q))
			}) {
				if r.kind != OKill && (r.kind != ORet || !e.implied(r.st, r.ret.(*Term))) {
					ok = false
				}
			}
		}
		if !ok {
			e.nonempty[fn] = false
			unsup(msg, fn.Name())
		}
	}
}

// unfoldSeg replaces opaque segment i of q by one unfolding of its definition.
func (e *Engine) unfoldSeg(st *State, q *Seq, i int) *Seq {
	s := q.segs[i]
	k := "unf:" + s.fn.String()
	for _, a := range s.args {
		k += ";" + e.valKey(nil, a)
	}
	var body *Seq
	if v, ok := st.ghost["memo:"+k]; ok {
		body = e.seqOf(st, v)
	} else {
		panic(&Nested{key: k, fn: s.fn, args: append([]Val{unfoldMark{}}, s.args...)})
	}
	st.addPC(e.tm.Eq(s.ln, e.seqLen(body)))
	r := &Seq{}
	for j := 0; j < i; j++ {
		r.segs = append(r.segs, q.segs[j])
	}
	for _, b := range body.segs {
		r.segs = append(r.segs, b)
	}
	r.segs = append(r.segs, q.segs[i+1:]...)
	return r
}

type unfoldMark struct{}

func (e *Engine) seqOf(st *State, v Val) *Seq {
	switch x := v.(type) {
	case *VSlice:
		return e.sliceSeq(st, x)
	case *VStr:
		return x.S
	case *SeqVal:
		return x.S
	case *Seq:
		return x
	}
	unsup("sequence expected, have %T", v)
	return nil
}

const (
	mProof = 1 // a skolem position may be used: the result is a goal
)

// matchSeq compares two sequences segment by segment. The returned term is
// the condition for equality on this path; ok=false when undecided.
func (e *Engine) matchSeq(st *State, a, b *Seq, mode int) (*Term, bool) {
	tm := e.tm
	conj := tm.T
	as, bs := append([]Seg{}, a.segs...), append([]Seg{}, b.segs...)
	norm := func(s []Seg) []Seg {
		for len(s) > 0 && s[0].k == SElems && len(s[0].elems) == 0 {
			s = s[1:]
		}
		return s
	}
	// strip equal tails as well: cheap and avoids case splits
	for n := 0; n < 10000; n++ {
		as, bs = norm(as), norm(bs)
		if conj == tm.F {
			return tm.F, true
		}
		if len(as) == 0 || len(bs) == 0 {
			for _, s := range append(as, bs...) {
				conj = tm.And(conj, tm.Eq(s.length(tm), tm.I(0)))
			}
			return conj, true
		}
		x, y := as[0], bs[0]
		if x.k == SElems && y.k == SElems {
			m := len(x.elems)
			if len(y.elems) < m {
				m = len(y.elems)
			}
			for i := 0; i < m; i++ {
				conj = tm.And(conj, e.deepEq(st, x.elems[i], y.elems[i], mode))
				if conj == tm.F {
					return conj, true
				}
			}
			as[0] = Seg{k: SElems, elems: x.elems[m:]}
			bs[0] = Seg{k: SElems, elems: y.elems[m:]}
			continue
		}
		if x.k != SElems && e.seqKey(&Seq{segs: []Seg{x}}) == e.seqKey(&Seq{segs: []Seg{y}}) {
			as, bs = as[1:], bs[1:]
			continue
		}
		if x.k == SOpaque && y.k == SOpaque && x.fn == y.fn {
			// same function: equal arguments?
			eq := tm.T
			saved := st.flags["imprecise"]
			for i := range x.args {
				eq = tm.And(eq, e.deepEq(st, x.args[i], y.args[i], 0))
			}
			if !saved && st.flags["imprecise"] {
				delete(st.flags, "imprecise")
			}
			if e.implied(st, eq) {
				as, bs = as[1:], bs[1:]
				continue
			}
			// unfold the side whose counter (last scalar argument) is larger
			if t1, t2 := lastScalar(x.args), lastScalar(y.args); t1 != nil && t2 != nil && t1.w == t2.w {
				if e.implied(st, tm.Slt(t2, t1)) {
					as = e.unfoldSeg(st, &Seq{segs: as}, 0).segs
					continue
				}
				if e.implied(st, tm.Slt(t1, t2)) {
					bs = e.unfoldSeg(st, &Seq{segs: bs}, 0).segs
					continue
				}
			}
			if e.isFold(x.fn) {
				// neither is larger: the arguments differ
				conj = tm.And(conj, eq)
				as, bs = as[1:], bs[1:]
				continue
			}
			as = e.unfoldSeg(st, &Seq{segs: as}, 0).segs
			bs = e.unfoldSeg(st, &Seq{segs: bs}, 0).segs
			continue
		}
		if x.k == SOpaque || y.k == SOpaque {
			// unfold a fold last, simple specifications first
			if x.k == SOpaque && (y.k != SOpaque || !e.isFold(x.fn) || e.isFold(y.fn)) {
				as = e.unfoldSeg(st, &Seq{segs: as}, 0).segs
			} else {
				bs = e.unfoldSeg(st, &Seq{segs: bs}, 0).segs
			}
			continue
		}
		lx, ly := x.length(tm), y.length(tm)
		if x.k == SElems || y.k == SElems {
			// one concrete run against a symbolic stretch
			if y.k == SElems {
				if !e.decide(st, tm.Ule(tm.I(1), lx)) {
					as = as[1:]
					continue
				}
				h, r := e.cutSeg(x, tm.I(1))
				v := e.segAt(st, h, tm.I(0))
				as[0] = r
				conj = tm.And(conj, e.deepEq(st, v, y.elems[0], mode))
				bs[0] = Seg{k: SElems, elems: y.elems[1:]}
			} else {
				if !e.decide(st, tm.Ule(tm.I(1), ly)) {
					bs = bs[1:]
					continue
				}
				h, r := e.cutSeg(y, tm.I(1))
				v := e.segAt(st, h, tm.I(0))
				bs[0] = r
				conj = tm.And(conj, e.deepEq(st, x.elems[0], v, mode))
				as[0] = Seg{k: SElems, elems: x.elems[1:]}
			}
			continue
		}
		// two symbolic stretches: bring them to equal length
		if lx != ly && !e.implied(st, tm.Eq(lx, ly)) {
			if e.decide(st, tm.Ule(lx, ly)) {
				h, r := e.cutSeg(y, lx)
				bs = append([]Seg{h, r}, bs[1:]...)
				y = h
			} else {
				h, r := e.cutSeg(x, ly)
				as = append([]Seg{h, r}, as[1:]...)
				x = h
			}
		}
		as, bs = as[1:], bs[1:]
		n := x.length(tm)
		if x.k == SSlice && y.k == SSlice && x.base.Name == y.base.Name && len(x.base.Idx) == len(y.base.Idx) {
			same := tm.Eq(x.off, y.off)
			for i := range x.base.Idx {
				same = tm.And(same, tm.Eq(x.base.Idx[i], y.base.Idx[i]))
			}
			if same == tm.T || e.implied(st, same) {
				continue
			}
		}
		if x.k == SZero && y.k == SZero {
			continue
		}
		if mode&mProof == 0 {
			if e.decide(st, tm.Eq(n, tm.I(0))) {
				continue
			}
			return nil, false
		}
		// skolem position
		p := tm.Zext(tm.Fresh("pos", 31), 64)
		in := tm.Ult(p, n)
		if !e.decide(st, tm.Ult(tm.I(0), n)) {
			continue
		}
		xv, yv := e.segAt(st, x, p), e.segAt(st, y, p)
		conj = tm.And(conj, tm.Or(tm.Not(in), e.deepEq(st, xv, yv, mode)))
	}
	return nil, false
}

func lastScalar(a []Val) *Term {
	for i := len(a) - 1; i >= 0; i-- {
		if t, ok := a[i].(*Term); ok && t.w == 64 {
			return t
		}
	}
	return nil
}

// deepEq: structural equality (NaN equals NaN, slices by content, pointers by
// what they point at when not identical).
func (e *Engine) deepEq(st *State, a, b Val, mode int) *Term {
	tm := e.tm
	if e.sameVal(a, b) {
		return tm.T
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || y.w != x.w {
			return tm.F
		}
		return tm.Eq(x, y)
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok || len(y.F) != len(x.F) {
			return tm.F
		}
		r := tm.T
		for i := range x.F {
			r = tm.And(r, e.deepEq(st, x.F[i], y.F[i], mode))
		}
		return r
	case *VArr:
		y, ok := b.(*VArr)
		if !ok || len(y.E) != len(x.E) {
			return tm.F
		}
		r := tm.T
		for i := range x.E {
			r = tm.And(r, e.deepEq(st, x.E[i], y.E[i], mode))
		}
		return r
	case *VStr, *VSlice, *SeqVal:
		switch b.(type) {
		case *VStr, *VSlice, *SeqVal:
		default:
			return tm.F
		}
		t, ok := e.matchSeq(st, e.seqOf(st, a), e.seqOf(st, b), mode)
		if !ok {
			unsup("sequence comparison undecided")
		}
		return t
	case *VIface, *VSymIface:
		switch b.(type) {
		case *VIface, *VSymIface:
		default:
			return tm.F
		}
		if x, ok := a.(*VSymIface); ok {
			if y, ok := b.(*VSymIface); ok && x.Name == y.Name && len(x.Idx) == len(y.Idx) {
				r := tm.T
				for i := range x.Idx {
					r = tm.And(r, tm.Eq(x.Idx[i], y.Idx[i]))
				}
				if e.implied(st, r) {
					return tm.T
				}
			}
		}
		av, bv := e.openIface(st, a), e.openIface(st, b)
		if y, ok := bv.(*VIface); ok {
			if y.T == nil {
				return tm.B(e.ifaceNil(st, av))
			}
			v, is := e.ifaceIs(st, av, y.T)
			if !is {
				return tm.F
			}
			return e.deepEq(st, v, y.V, mode)
		}
		if x, ok := av.(*VIface); ok {
			if x.T == nil {
				return tm.B(e.ifaceNil(st, bv))
			}
			v, is := e.ifaceIs(st, bv, x.T)
			if !is {
				return tm.F
			}
			return e.deepEq(st, x.V, v, mode)
		}
		sx, sy := av.(*VSymIface), bv.(*VSymIface)
		if sx.Name == sy.Name && len(sx.Idx) == len(sy.Idx) {
			r := tm.T
			for i := range sx.Idx {
				r = tm.And(r, tm.Eq(sx.Idx[i], sy.Idx[i]))
			}
			return r
		}
		st.setFlag("imprecise")
		return tm.Fresh("ifeq", 0)
	case *VPtr, *VSymPtr:
		switch b.(type) {
		case *VPtr, *VSymPtr:
		default:
			return tm.F
		}
		if px, ok := a.(*VSymPtr); ok {
			if py, ok := b.(*VSymPtr); ok && px.Name == py.Name && len(px.Idx) == len(py.Idx) {
				r := tm.T
				for i := range px.Idx {
					r = tm.And(r, tm.Eq(px.Idx[i], py.Idx[i]))
				}
				if r == tm.T || e.implied(st, r) {
					return tm.T
				}
			}
		}
		p, q := e.resolvePtr(st, a), e.resolvePtr(st, b)
		if p.Obj == 0 || q.Obj == 0 {
			return tm.B(p.Obj == q.Obj)
		}
		if e.sameVal(p, q) {
			return tm.T
		}
		return e.deepEq(st, e.load(st, p), e.load(st, q), mode)
	case *VFunc:
		return tm.F
	case *ErrVal:
		y, ok := b.(*ErrVal)
		if !ok || y.Format != x.Format || len(x.Args) != len(y.Args) {
			return tm.F
		}
		r := tm.T
		for i := range x.Args {
			r = tm.And(r, e.deepEq(st, x.Args[i], y.Args[i], mode))
		}
		return r
	case *VOpaque:
		return tm.F
	}
	if x, ok := a.(*VMap); ok {
		y, ok := b.(*VMap)
		return tm.B(ok && x.Obj == y.Obj)
	}
	if x, ok := a.(*VChan); ok {
		y, ok := b.(*VChan)
		return tm.B(ok && x.Obj == y.Obj)
	}
	unsup("deep comparison of %T", a)
	return nil
}

func (e *Engine) isFold(fn *ssa.Function) bool { return e.P.fold[fn] }

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
