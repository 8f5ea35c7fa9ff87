package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) step(fc *fctx, it *Item, st *State, in ssa.Instruction) Val {
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if isBuffer(t) {
			return e.allocCell(st, t, nil)
		}
		return e.allocCell(st, t, e.zero(t))
	case *ssa.BinOp:
		return e.binop(st, x.Op, e.ev(it, x.X), e.ev(it, x.Y), x.X.Type(), x.Y.Type())
	case *ssa.UnOp:
		return e.unop(it, st, x)
	case *ssa.ChangeType:
		return e.ev(it, x.X)
	case *ssa.ChangeInterface:
		return e.ev(it, x.X)
	case *ssa.Convert:
		return e.convert(st, e.ev(it, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		v := e.ev(it, x.X)
		return &VIface{T: x.X.Type(), V: v}
	case *ssa.MakeClosure:
		f := &VFunc{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.ev(it, b))
		}
		return f
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return &VMap{Obj: e.newObj(st, &Obj{T: x.Type(), Map: &MapVal{KT: mt.Key(), VT: mt.Elem()}})}
	case *ssa.MakeChan:
		ct := x.Type().Underlying().(*types.Chan)
		return &VChan{Obj: e.newObj(st, &Obj{T: x.Type(), Chan: &ChanState{Cap: e.asInt(e.ev(it, x.Size), x.Size.Type()), Elem: ct.Elem()}})}
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		n := e.asInt(e.ev(it, x.Len), x.Len.Type())
		c := e.asInt(e.ev(it, x.Cap), x.Cap.Type())
		max := e.tm.I(1 << 31)
		ok := e.tm.And(e.tm.Sle(e.tm.I(0), n), e.tm.Sle(n, c))
		e.runtimeCheck(st, ok, "makeslice: length out of range")
		if e.allocCheck && !n.isConst() {
			e.allocObl(st, n)
		}
		if n.isConst() && n.val <= 70000 {
			q := &Seq{}
			if n.val > 0 {
				s := Seg{k: SElems}
				z := e.zero(el)
				for i := uint64(0); i < n.val; i++ {
					s.elems = append(s.elems, z)
				}
				q.segs = append(q.segs, s)
			}
			return e.makeSl(st, el, q, n, c)
		}
		_ = max
		return e.makeSl(st, el, &Seq{segs: []Seg{{k: SZero, elems: []Val{e.zero(el)}, ln: n}}}, n, c)
	case *ssa.Slice:
		return e.sliceOp(it, st, x)
	case *ssa.FieldAddr:
		p := e.resolvePtr(st, e.ev(it, x.X))
		if p.Obj == 0 {
			gopanic("nil pointer dereference")
		}
		if o := st.get(p.Obj); o != nil && o.Cell == nil && o.Buf == nil && o.Arr == nil {
			unsup("field of %s", o.T)
		}
		return &VPtr{Obj: p.Obj, Path: append(append([]Sel{}, p.Path...), Sel{Field: x.Field})}
	case *ssa.Field:
		s, ok := e.ev(it, x.X).(*VStruct)
		if !ok {
			unsup("field of %T", e.ev(it, x.X))
		}
		return s.F[x.Field]
	case *ssa.IndexAddr:
		i := e.asInt(e.ev(it, x.Index), x.Index.Type())
		switch b := e.ev(it, x.X).(type) {
		case *VSlice:
			e.runtimeCheck(st, e.tm.And(e.tm.Sle(e.tm.I(0), i), e.tm.Slt(i, b.Len)), "index out of range")
			return &VPtr{Obj: b.Obj, Path: []Sel{{Field: -1, Idx: e.tm.Add(b.Off, i)}}}
		default:
			p := e.resolvePtr(st, b)
			if p.Obj == 0 {
				gopanic("nil pointer dereference")
			}
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.runtimeCheck(st, e.tm.And(e.tm.Sle(e.tm.I(0), i), e.tm.Slt(i, e.tm.I(at.Len()))), "index out of range")
			return &VPtr{Obj: p.Obj, Path: append(append([]Sel{}, p.Path...), Sel{Field: -1, Idx: i})}
		}
	case *ssa.Index:
		i := e.asInt(e.ev(it, x.Index), x.Index.Type())
		switch b := e.ev(it, x.X).(type) {
		case *VArr:
			e.runtimeCheck(st, e.tm.And(e.tm.Sle(e.tm.I(0), i), e.tm.Slt(i, e.tm.I(int64(len(b.E))))), "index out of range")
			return e.at(st, elems(b.E...), i)
		case *VStr:
			e.runtimeCheck(st, e.tm.And(e.tm.Sle(e.tm.I(0), i), e.tm.Slt(i, e.seqLen(b.S))), "index out of range")
			return e.at(st, b.S, i)
		}
		unsup("index of %T", e.ev(it, x.X))
	case *ssa.Lookup:
		switch b := e.ev(it, x.X).(type) {
		case *VStr:
			i := e.asInt(e.ev(it, x.Index), x.Index.Type())
			e.runtimeCheck(st, e.tm.And(e.tm.Sle(e.tm.I(0), i), e.tm.Slt(i, e.seqLen(b.S))), "index out of range")
			return e.at(st, b.S, i)
		case *VMap:
			mt := x.X.Type().Underlying().(*types.Map)
			v, ok := e.mapGet(st, b, e.ev(it, x.Index), mt)
			if x.CommaOk {
				return &VTuple{E: []Val{v, ok}}
			}
			return v
		}
		unsup("lookup in %T", e.ev(it, x.X))
	case *ssa.MapUpdate:
		m := e.ev(it, x.Map).(*VMap)
		if m.Obj == 0 {
			gopanic("assignment to entry in nil map")
		}
		e.mapSet(st, m, e.ev(it, x.Key), e.ev(it, x.Value), false)
		return nil
	case *ssa.Range:
		return e.rangeInit(st, e.ev(it, x.X), x)
	case *ssa.Next:
		return e.rangeNext(it, st, x)
	case *ssa.TypeAssert:
		return e.typeAssert(st, e.ev(it, x.X), x.AssertedType, x.CommaOk, x.X.Type())
	case *ssa.Extract:
		return e.ev(it, x.Tuple).(*VTuple).E[x.Index]
	case *ssa.Store:
		p := e.resolvePtr(st, e.ev(it, x.Addr))
		e.store(st, p, e.ev(it, x.Val))
		return nil
	case *ssa.Defer:
		d := deferred{call: &x.Call, instr: x}
		if !x.Call.IsInvoke() {
			d.fn = e.ev(it, x.Call.Value)
		} else {
			d.fn = e.ev(it, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.ev(it, a))
		}
		it.defers = append(it.defers, d)
		return nil
	case *ssa.Go:
		return e.goStmt(it, st, x)
	case *ssa.Send:
		e.chanSend(it, st, e.ev(it, x.Chan), e.ev(it, x.X))
		return nil
	case *ssa.Select:
		return e.selectStmt(it, st, x)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.MultiConvert:
		return e.convert(st, e.ev(it, x.X), x.X.Type(), x.Type())
	}
	unsup("instruction %T", in)
	return nil
}

func (e *Engine) makeSl(st *State, el types.Type, q *Seq, n, c *Term) *VSlice {
	id := e.newObj(st, &Obj{T: el, Arr: q})
	if c != n && c.isConst() && n.isConst() && c.val-n.val <= 4096 {
		z := e.zero(el)
		var ex []Val
		for i := n.val; i < c.val; i++ {
			ex = append(ex, z)
		}
		st.put(id, &Obj{T: el, Arr: e.cat(q, elems(ex...))})
		return &VSlice{Obj: id, Off: e.tm.I(0), Len: n, Cap: c}
	}
	return &VSlice{Obj: id, Off: e.tm.I(0), Len: n, Cap: n}
}

// asInt widens an integer value to 64 bits.
func (e *Engine) asInt(v Val, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		unsup("integer expected, have %T", v)
	}
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return e.tm.Sext(x, 64)
	}
	return e.tm.Zext(x, 64)
}

func (e *Engine) unop(it *Item, st *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			if v, ok := e.globalLoad(st, g); ok {
				return v
			}
		}
		return e.load(st, e.resolvePtr(st, e.ev(it, x.X)))
	case token.NOT:
		return e.tm.Not(e.ev(it, x.X).(*Term))
	case token.SUB:
		t := e.ev(it, x.X).(*Term)
		if isFloat(x.X.Type()) {
			return e.tm.Bxor(t, e.tm.C(1<<uint(t.w-1), t.w))
		}
		return e.tm.Neg(t)
	case token.XOR:
		return e.tm.Bnot(e.ev(it, x.X).(*Term))
	case token.ARROW:
		return e.chanRecv(it, st, e.ev(it, x.X), x.CommaOk, x)
	}
	unsup("unop %s", x.Op)
	return nil
}

func (e *Engine) binop(st *State, op token.Token, a, b Val, ta, tb types.Type) Val {
	switch op {
	case token.EQL, token.NEQ:
		r := e.eq(st, a, b)
		if isFloat(ta) {
			r = e.floatCmp(token.EQL, a.(*Term), b.(*Term))
		}
		if op == token.NEQ {
			return e.tm.Not(r)
		}
		return r
	}
	if x, ok := a.(*VStr); ok {
		y := b.(*VStr)
		switch op {
		case token.ADD:
			return &VStr{e.cat(x.S, y.S)}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			s1, ok1 := e.constStr(x)
			s2, ok2 := e.constStr(y)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return e.tm.B(s1 < s2)
				case token.GTR:
					return e.tm.B(s1 > s2)
				case token.LEQ:
					return e.tm.B(s1 <= s2)
				}
				return e.tm.B(s1 >= s2)
			}
			st.setFlag("imprecise")
			return e.tm.Fresh("strcmp", 0)
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T, %T", op, a, b)
	}
	tm := e.tm
	if isFloat(ta) {
		return e.floatOp(op, x, y)
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return tm.Add(x, y)
	case token.SUB:
		return tm.Sub(x, y)
	case token.MUL:
		return tm.Mul(x, y)
	case token.QUO, token.REM:
		e.runtimeCheck(st, tm.Ne(y, tm.C(0, y.w)), "integer divide by zero")
		if op == token.QUO {
			if sg {
				return e.sdiv(st, x, y)
			}
			return tm.Udiv(x, y)
		}
		if sg {
			return tm.Srem(x, y)
		}
		return tm.Urem(x, y)
	case token.AND:
		return tm.Band(x, y)
	case token.OR:
		return tm.Bor(x, y)
	case token.XOR:
		return tm.Bxor(x, y)
	case token.AND_NOT:
		return tm.Band(x, tm.Bnot(y))
	case token.SHL, token.SHR:
		if isSigned(tb) {
			e.runtimeCheck(st, tm.Sle(tm.C(0, y.w), y), "negative shift amount")
		}
		// bring the count to x's width, saturating
		var c *Term
		if y.w > x.w {
			big := tm.Ule(tm.C(uint64(x.w), y.w), y)
			c = tm.Ite(big, tm.C(uint64(x.w), x.w), tm.Extract(y, 0, x.w))
			if x.w < 8 {
				unsup("narrow shift")
			}
		} else {
			c = tm.Zext(y, x.w)
		}
		if op == token.SHL {
			return tm.Shl(x, c)
		}
		if sg {
			return tm.Ashr(x, c)
		}
		return tm.Lshr(x, c)
	case token.LSS:
		if sg {
			return tm.Slt(x, y)
		}
		return tm.Ult(x, y)
	case token.LEQ:
		if sg {
			return tm.Sle(x, y)
		}
		return tm.Ule(x, y)
	case token.GTR:
		if sg {
			return tm.Slt(y, x)
		}
		return tm.Ult(y, x)
	case token.GEQ:
		if sg {
			return tm.Sle(y, x)
		}
		return tm.Ule(y, x)
	}
	unsup("binop %s", op)
	return nil
}

func (e *Engine) sdiv(st *State, x, y *Term) *Term { return e.tm.Sdiv(x, y) }

func (e *Engine) f2(t *Term) (float64, bool) {
	if !t.isConst() {
		return 0, false
	}
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val))), true
	}
	return math.Float64frombits(t.val), true
}
func (e *Engine) fconst(f float64, w int) *Term {
	if w == 32 {
		return e.tm.C(uint64(math.Float32bits(float32(f))), 32)
	}
	return e.tm.C(math.Float64bits(f), 64)
}

func (e *Engine) floatOp(op token.Token, x, y *Term) Val {
	a, ok1 := e.f2(x)
	b, ok2 := e.f2(y)
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return e.floatCmp(op, x, y)
	}
	if ok1 && ok2 {
		if x.w == 32 {
			p, q := float32(a), float32(b)
			switch op {
			case token.ADD:
				return e.fconst(float64(p+q), 32)
			case token.SUB:
				return e.fconst(float64(p-q), 32)
			case token.MUL:
				return e.fconst(float64(p*q), 32)
			case token.QUO:
				return e.fconst(float64(p/q), 32)
			}
		}
		switch op {
		case token.ADD:
			return e.fconst(a+b, 64)
		case token.SUB:
			return e.fconst(a-b, 64)
		case token.MUL:
			return e.fconst(a*b, 64)
		case token.QUO:
			return e.fconst(a/b, 64)
		}
	}
	return e.tm.App(fmt.Sprintf("f%s%d", op, x.w), x.w, x, y)
}

func (e *Engine) floatCmp(op token.Token, x, y *Term) *Term {
	a, ok1 := e.f2(x)
	b, ok2 := e.f2(y)
	if ok1 && ok2 {
		switch op {
		case token.EQL:
			return e.tm.B(a == b)
		case token.LSS:
			return e.tm.B(a < b)
		case token.LEQ:
			return e.tm.B(a <= b)
		case token.GTR:
			return e.tm.B(a > b)
		case token.GEQ:
			return e.tm.B(a >= b)
		}
	}
	tm := e.tm
	w := x.w
	eb, mb := 8, 23
	if w == 64 {
		eb, mb = 11, 52
	}
	_ = eb
	abs := func(t *Term) *Term { return tm.Band(t, tm.C(mask(w)>>1, w)) }
	inf := tm.C((mask(w)>>1)&^mask(mb), w)
	nan := func(t *Term) *Term { return tm.Ult(inf, abs(t)) }
	zero := func(t *Term) *Term { return tm.Eq(abs(t), tm.C(0, w)) }
	ord := tm.And(tm.Not(nan(x)), tm.Not(nan(y)))
	eq := tm.And(ord, tm.Or(tm.Eq(x, y), tm.And(zero(x), zero(y))))
	neg := func(t *Term) *Term { return tm.Slt(t, tm.C(0, w)) }
	lt := func(a, b *Term) *Term {
		both := tm.And(zero(a), zero(b))
		return tm.And(ord, tm.Not(both), tm.Ite(neg(a), tm.Ite(neg(b), tm.Ult(b, a), tm.T), tm.Ite(neg(b), tm.F, tm.Ult(a, b))))
	}
	switch op {
	case token.EQL:
		return eq
	case token.LSS:
		return lt(x, y)
	case token.GTR:
		return lt(y, x)
	case token.LEQ:
		return tm.Or(lt(x, y), eq)
	case token.GEQ:
		return tm.Or(lt(y, x), eq)
	}
	panic("floatCmp")
}

// eq compares two values of the same type (may fork)
func (e *Engine) eq(st *State, a, b Val) *Term {
	tm := e.tm
	switch x := a.(type) {
	case *Term:
		return tm.Eq(x, b.(*Term))
	case *VStruct:
		y := b.(*VStruct)
		r := tm.T
		for i := range x.F {
			r = tm.And(r, e.eq(st, x.F[i], y.F[i]))
		}
		return r
	case *VArr:
		y := b.(*VArr)
		r := tm.T
		for i := range x.E {
			r = tm.And(r, e.eq(st, x.E[i], y.E[i]))
		}
		return r
	case *VStr:
		return e.seqEqTerm(st, x.S, b.(*VStr).S)
	case *VPtr, *VSymPtr:
		if px, ok := a.(*VSymPtr); ok {
			if py, ok := b.(*VSymPtr); ok && symKey(px.Name, px.Idx) == symKey(py.Name, py.Idx) {
				return tm.T
			}
		}
		if p, ok := a.(*VPtr); ok {
			if o, ok := b.(*VOpaque); ok {
				_ = o
				return tm.B(false && p.Obj == 0)
			}
		}
		p, q := e.resolvePtr(st, a), e.resolvePtr(st, b)
		if p.Obj != q.Obj || len(p.Path) != len(q.Path) {
			return tm.F
		}
		r := tm.T
		for i := range p.Path {
			if p.Path[i].Field != q.Path[i].Field {
				return tm.F
			}
			if p.Path[i].Idx != nil {
				r = tm.And(r, tm.Eq(p.Path[i].Idx, q.Path[i].Idx))
			}
		}
		return r
	case *VIface, *VSymIface:
		if o, ok := b.(*VOpaque); ok {
			_ = o
			if x, ok := a.(*VIface); ok && x.T == nil {
				return tm.F
			}
		}
		av, bv := e.openIface(st, a), e.openIface(st, b)
		if x, ok := av.(*VSymIface); ok {
			if y, ok := bv.(*VSymIface); ok {
				if symKey(x.Name, x.Idx) == symKey(y.Name, y.Idx) {
					return tm.T
				}
				e.ifaceNil(st, x)
				e.ifaceNil(st, y)
				av, bv = e.openIface(st, a), e.openIface(st, b)
			}
		}
		if y, ok := bv.(*VIface); ok {
			if y.T == nil {
				return tm.B(e.ifaceNil(st, av))
			}
			if x, ok := av.(*VIface); ok {
				if x.T == nil {
					return tm.F
				}
				if !types.Identical(x.T, y.T) {
					return tm.F
				}
				return e.ifaceValEq(st, x, y)
			}
			v, is := e.ifaceIs(st, av, y.T)
			if !is {
				return tm.F
			}
			return e.ifaceValEq(st, &VIface{T: y.T, V: v}, y)
		}
		if x, ok := av.(*VIface); ok {
			if x.T == nil {
				return tm.B(e.ifaceNil(st, bv))
			}
			v, is := e.ifaceIs(st, bv, x.T)
			if !is {
				return tm.F
			}
			return e.ifaceValEq(st, x, &VIface{T: x.T, V: v})
		}
		st.setFlag("imprecise")
		return tm.Fresh("ifeq", 0)
	case *VSlice:
		y := b.(*VSlice)
		if y.Obj == 0 && y.Len.isConst() {
			return tm.B(x.Obj == 0)
		}
		if x.Obj == 0 {
			return tm.B(y.Obj == 0)
		}
	case *VMap:
		y := b.(*VMap)
		return tm.B(x.Obj == y.Obj)
	case *VChan:
		y := b.(*VChan)
		return tm.B(x.Obj == y.Obj)
	case *VFunc:
		y := b.(*VFunc)
		xn := x.Fn == nil && x.Bi == ""
		yn := y.Fn == nil && y.Bi == ""
		if xn || yn {
			return tm.B(xn == yn)
		}
	case *VOpaque:
		switch y := b.(type) {
		case *VIface:
			if y.T == nil {
				return tm.F
			}
		case *VPtr:
			if y.Obj == 0 {
				return tm.F
			}
		case *VOpaque:
			if x.Name == y.Name {
				return tm.T
			}
		}
	case *ErrVal:
		y, ok := b.(*ErrVal)
		if ok {
			if x.Id == y.Id && x.Format == y.Format {
				return tm.T
			}
			if x.Id >= 0 && y.Id >= 0 {
				return tm.F
			}
			st.setFlag("imprecise")
			return tm.Fresh("erreq", 0)
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (e *Engine) ifaceValEq(st *State, x, y *VIface) *Term {
	if !types.Comparable(x.T) {
		gopanic("comparing uncomparable type")
	}
	if isFloat(x.T) {
		return e.floatCmp(token.EQL, x.V.(*Term), y.V.(*Term))
	}
	return e.eq(st, x.V, y.V)
}

// seqEqTerm: equality of two byte strings as a term.
func (e *Engine) seqEqTerm(st *State, a, b *Seq) *Term {
	if e.seqKey(a) == e.seqKey(b) {
		return e.tm.T
	}
	la, lb := e.seqLen(a), e.seqLen(b)
	if !e.decide(st, e.tm.Eq(la, lb)) {
		return e.tm.F
	}
	n := la
	if !n.isConst() {
		n = lb
	}
	if n.isConst() && n.val <= 4096 {
		r := e.tm.T
		for i := int64(0); i < int64(n.val); i++ {
			x := e.at(st, a, e.tm.I(i)).(*Term)
			y := e.at(st, b, e.tm.I(i)).(*Term)
			r = e.tm.And(r, e.tm.Eq(x, y))
			if r == e.tm.F {
				return r
			}
		}
		return r
	}
	// same structure, segment by segment
	if t, ok := e.matchSeq(st, a, b, 0); ok {
		return t
	}
	st.setFlag("imprecise")
	return e.tm.Fresh("streq", 0)
}

func (e *Engine) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if isString(to) {
		switch x := v.(type) {
		case *VStr:
			return x
		case *VSlice:
			if isByte(fu.(*types.Slice).Elem()) {
				return &VStr{e.sliceSeq(st, x)}
			}
		case *Term:
			if x.isConst() {
				return e.strLit(string(rune(sx(x.val, x.w))))
			}
			if e.decide(st, e.tm.Ult(e.tm.Zext(x, 64), e.tm.I(128))) {
				return &VStr{elems(e.tm.Extract(e.tm.Zext(x, 64), 0, 8))}
			}
		}
		unsup("conversion to string from %s", from)
	}
	if sl, ok := tu.(*types.Slice); ok {
		if x, ok := v.(*VStr); ok {
			if isByte(sl.Elem()) {
				return e.newSlice(st, sl.Elem(), x.S)
			}
			if s, ok := e.constStr(x); ok { // []rune
				var el []Val
				for _, r := range s {
					el = append(el, e.tm.C(uint64(r), 32))
				}
				return e.newSlice(st, sl.Elem(), elems(el...))
			}
		}
		if _, ok := v.(*VSlice); ok {
			return v
		}
	}
	x, ok := v.(*Term)
	if !ok {
		switch v.(type) {
		case *VPtr, *VSymPtr, *VSlice, *VFunc, *VMap, *VChan, *VStruct:
			return v
		}
		unsup("conversion of %T to %s", v, to)
	}
	w := width(to)
	if w < 0 {
		if _, isp := tu.(*types.Pointer); isp {
			unsup("unsafe conversion")
		}
		unsup("conversion to %s", to)
	}
	if isFloat(from) && isFloat(to) {
		if x.w == w {
			return x
		}
		if f, ok := e.f2(x); ok {
			return e.fconst(f, w)
		}
		return e.tm.App(fmt.Sprintf("fcvt%d_%d", x.w, w), w, x)
	}
	if isFloat(from) {
		if f, ok := e.f2(x); ok {
			if isSigned(to) {
				return e.tm.C(uint64(int64(f)), w)
			}
			return e.tm.C(uint64(f), w)
		}
		return e.tm.App(fmt.Sprintf("f2i%d_%s", x.w, tu), w, x)
	}
	if isFloat(to) {
		if x.isConst() {
			if isSigned(from) {
				return e.fconst(float64(sx(x.val, x.w)), w)
			}
			return e.fconst(float64(x.val), w)
		}
		sgn := "u"
		if isSigned(from) {
			sgn = "s"
		}
		y := e.asInt(x, from)
		return e.tm.App(fmt.Sprintf("i2f%s_%d", sgn, w), w, y)
	}
	if w == x.w {
		return x
	}
	if w < x.w {
		return e.tm.Extract(x, 0, w)
	}
	if isSigned(from) {
		return e.tm.Sext(x, w)
	}
	return e.tm.Zext(x, w)
}

func (e *Engine) sliceOp(it *Item, st *State, x *ssa.Slice) Val {
	tm := e.tm
	v := e.ev(it, x.X)
	get := func(s ssa.Value, d *Term) *Term {
		if s == nil {
			return d
		}
		return e.asInt(e.ev(it, s), s.Type())
	}
	lo := get(x.Low, tm.I(0))
	switch b := v.(type) {
	case *VStr:
		n := e.seqLen(b.S)
		hi := get(x.High, n)
		e.runtimeCheck(st, tm.And(tm.Sle(tm.I(0), lo), tm.Sle(lo, hi), tm.Sle(hi, n)), "slice bounds out of range")
		return &VStr{e.sub(st, b.S, lo, tm.Sub(hi, lo))}
	case *VSlice:
		hi := get(x.High, b.Len)
		mx := get(x.Max, b.Cap)
		e.runtimeCheck(st, tm.And(tm.Sle(tm.I(0), lo), tm.Sle(lo, hi), tm.Sle(hi, mx), tm.Sle(mx, b.Cap)), "slice bounds out of range")
		if b.Obj == 0 {
			return b
		}
		return &VSlice{Obj: b.Obj, Off: tm.Add(b.Off, lo), Len: tm.Sub(hi, lo), Cap: tm.Sub(mx, lo)}
	}
	p := e.resolvePtr(st, v)
	if p.Obj == 0 {
		gopanic("nil pointer dereference")
	}
	o := st.get(p.Obj)
	if o.Arr == nil || len(p.Path) > 0 {
		unsup("slice of array field")
	}
	n := e.seqLen(o.Arr)
	hi := get(x.High, n)
	mx := get(x.Max, n)
	e.runtimeCheck(st, tm.And(tm.Sle(tm.I(0), lo), tm.Sle(lo, hi), tm.Sle(hi, mx), tm.Sle(mx, n)), "slice bounds out of range")
	return &VSlice{Obj: p.Obj, Off: lo, Len: tm.Sub(hi, lo), Cap: tm.Sub(mx, lo)}
}

func (e *Engine) typeAssert(st *State, v Val, t types.Type, commaOk bool, from types.Type) Val {
	if it, ok := t.Underlying().(*types.Interface); ok {
		// assertion to an interface
		var okv bool
		switch x := e.openIface(st, v).(type) {
		case *VIface:
			if x.T == nil {
				okv = false
			} else if x.T == errDyn {
				okv = types.Identical(t, errorType) || it.NumMethods() == 0
			} else {
				okv = types.Implements(x.T, it)
			}
		case *VSymIface:
			if types.Identical(x.T, t) || it.NumMethods() == 0 {
				okv = !e.ifaceNil(st, x)
			} else if isErrorType(t) {
				okv = false // an input value is never taken to be an error
				if e.ifaceNil(st, x) {
					okv = false
				}
			} else {
				if e.ifaceNil(st, x) {
					okv = false
				} else {
					st.setFlag("imprecise")
					okv = false
				}
			}
		default:
			unsup("interface assertion on %T", v)
		}
		if commaOk {
			r := v
			if !okv {
				r = &VIface{}
			}
			return &VTuple{E: []Val{r, e.tm.B(okv)}}
		}
		if !okv {
			gopanic("interface conversion")
		}
		return v
	}
	if o, ok := v.(*VOpaque); ok {
		if types.Identical(o.T, t) {
			if commaOk {
				return &VTuple{E: []Val{v, e.tm.T}}
			}
			return v
		}
		unsup("assertion on opaque %s", o.Name)
	}
	r, is := e.ifaceIs(st, v, t)
	if commaOk {
		if !is {
			return &VTuple{E: []Val{e.zero(t), e.tm.F}}
		}
		return &VTuple{E: []Val{r, e.tm.T}}
	}
	if !is {
		gopanic("interface conversion")
	}
	return r
}

// ---- builtins --------------------------------------------------------------

func (e *Engine) builtin(st *State, name string, args []Val, at types.Type, rt types.Type) Val {
	tm := e.tm
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *VSlice:
			return x.Len
		case *VStr:
			return e.seqLen(x.S)
		case *VArr:
			return tm.I(int64(len(x.E)))
		case *VMap:
			return e.mapLen(st, x)
		case *VChan:
			if x.Obj == 0 {
				return tm.I(0)
			}
			return tm.I(int64(len(st.get(x.Obj).Chan.Q)))
		case *VPtr:
			return e.seqLen(st.get(x.Obj).Arr)
		}
	case "cap":
		switch x := args[0].(type) {
		case *VSlice:
			return x.Cap
		case *VChan:
			return st.get(x.Obj).Chan.Cap
		}
	case "append":
		x := args[0].(*VSlice)
		if len(args) == 1 {
			return x
		}
		el := at.Underlying().(*types.Slice).Elem()
		var add *Seq
		switch y := args[1].(type) {
		case *VSlice:
			add = e.sliceSeq(st, y)
		case *VStr:
			add = y.S
		}
		n := e.seqLen(add)
		if n.isConst() && n.val == 0 {
			return x
		}
		// in place when the capacity is known to suffice
		if x.Obj != 0 && x.Cap != x.Len {
			need := tm.Add(x.Len, n)
			if e.decide(st, tm.Ule(need, x.Cap)) {
				o := st.get(x.Obj)
				pre, rest := e.split(st, o.Arr, tm.Add(x.Off, x.Len))
				_, post := e.split(st, rest, n)
				no := *o
				no.Arr = e.cat(pre, add, post)
				st.put(x.Obj, &no)
				return &VSlice{Obj: x.Obj, Off: x.Off, Len: need, Cap: x.Cap}
			}
		}
		return e.newSlice(st, el, e.cat(e.sliceSeq(st, x), add))
	case "copy":
		d := args[0].(*VSlice)
		var src *Seq
		switch y := args[1].(type) {
		case *VSlice:
			src = e.sliceSeq(st, y)
		case *VStr:
			src = y.S
		}
		n := e.seqLen(src)
		if !e.decide(st, tm.Ule(n, d.Len)) {
			n = d.Len
			src, _ = e.split(st, src, n)
		}
		if d.Obj != 0 {
			o := st.get(d.Obj)
			pre, rest := e.split(st, o.Arr, d.Off)
			_, post := e.split(st, rest, n)
			no := *o
			if o.RO {
				unsup("write into a slice that stands for several")
			}
			no.Arr = e.cat(pre, src, post)
			st.put(d.Obj, &no)
		}
		return n
	case "delete":
		m := args[0].(*VMap)
		if m.Obj != 0 {
			e.mapSet(st, m, args[1], nil, true)
		}
		return nil
	case "close":
		c := args[0].(*VChan)
		if c.Obj == 0 {
			gopanic("close of nil channel")
		}
		o := *st.get(c.Obj)
		if o.Chan.Closed {
			gopanic("close of closed channel")
		}
		cs := *o.Chan
		cs.Closed = true
		o.Chan = &cs
		st.put(c.Obj, &o)
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			var lt *Term
			if isSigned(at) {
				lt = tm.Slt(y, r)
			} else {
				lt = tm.Ult(y, r)
			}
			if name == "max" {
				lt = tm.Not(lt)
			}
			r = tm.Ite(lt, y, r)
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		return &VIface{}
	case "ssa:wrapnilchk":
		p := e.resolvePtr(st, args[0])
		if p.Obj == 0 {
			gopanic("nil pointer dereference")
		}
		return p
	}
	unsup("builtin %s", name)
	return nil
}

// ---- maps ------------------------------------------------------------------

func (e *Engine) mapKeyTerms(st *State, k Val) []*Term {
	switch x := k.(type) {
	case *Term:
		return []*Term{x}
	case *VStruct:
		var r []*Term
		for _, f := range x.F {
			r = append(r, e.mapKeyTerms(st, f)...)
		}
		return r
	}
	unsup("symbolic map with key %T", k)
	return nil
}

func (e *Engine) mapGet(st *State, m *VMap, k Val, mt *types.Map) (Val, Val) {
	if m.Obj == 0 {
		return e.zero(mt.Elem()), e.tm.F
	}
	mv := st.get(m.Obj).Map
	// constant keys: direct search first
	for i := len(mv.Ents) - 1; i >= 0; i-- {
		en := mv.Ents[i]
		if e.decide(st, e.eq(st, en.K, k)) {
			if en.Del {
				return e.zero(mt.Elem()), e.tm.F
			}
			return en.V, e.tm.T
		}
	}
	if mv.Sym == nil {
		return e.zero(mt.Elem()), e.tm.F
	}
	ks := e.mapKeyTerms(st, k)
	idx := append(append([]*Term{}, mv.Sym.Idx...), ks...)
	has := e.tm.App(mv.Sym.Name+"$has", 0, idx...)
	if e.decide(st, has) {
		return e.mat(st, mt.Elem(), mv.Sym.Name+"$val", idx), e.tm.T
	}
	return e.zero(mt.Elem()), e.tm.F
}

func (e *Engine) mapSet(st *State, m *VMap, k, v Val, del bool) {
	o := *st.get(m.Obj)
	mv := *o.Map
	// drop an entry with a provably equal key
	var ents []MapEnt
	for _, en := range mv.Ents {
		if e.valKey(st, en.K) == e.valKey(st, k) {
			continue
		}
		if t := e.eq(st, en.K, k); e.decide(st, t) {
			continue
		}
		ents = append(ents, en)
	}
	if !(del && mv.Sym == nil) {
		ents = append(ents, MapEnt{K: k, V: v, Del: del})
	}
	mv.Ents = ents
	mv.Ver++
	o.Map = &mv
	st.put(m.Obj, &o)
}

func (e *Engine) mapLen(st *State, m *VMap) *Term {
	if m.Obj == 0 {
		return e.tm.I(0)
	}
	mv := st.get(m.Obj).Map
	n := 0
	for _, en := range mv.Ents {
		if !en.Del {
			n++
		}
	}
	if mv.Sym == nil {
		return e.tm.I(int64(n))
	}
	// size of the symbolic base, corrected for the overlay
	r := e.lenTerm(mv.Sym.Name+"$size", mv.Sym.Idx)
	for _, en := range mv.Ents {
		idx := append(append([]*Term{}, mv.Sym.Idx...), e.mapKeyTerms(st, en.K)...)
		has := e.tm.App(mv.Sym.Name+"$has", 0, idx...)
		if en.Del {
			r = e.tm.Sub(r, e.tm.Zext(has, 64))
		} else {
			r = e.tm.Add(r, e.tm.Zext(e.tm.Not(has), 64))
		}
	}
	return r
}

// ---- range -----------------------------------------------------------------

type rangeIter struct {
	obj int
	str *Seq
	isM bool
	m   *VMap
	mt  *types.Map
}

func (e *Engine) rangeInit(st *State, v Val, x *ssa.Range) Val {
	switch b := v.(type) {
	case *VStr:
		return &VPtr{Obj: e.newObj(st, &Obj{Cell: e.tm.I(0), T: types.Typ[types.Int], Data: map[string]Val{"str": b}})}
	case *VMap:
		return &VPtr{Obj: e.newObj(st, &Obj{Cell: e.tm.I(0), T: types.Typ[types.Int], Data: map[string]Val{"map": b}})}
	}
	unsup("range over %T", v)
	return nil
}

func (e *Engine) rangeNext(it *Item, st *State, x *ssa.Next) Val {
	p := e.ev(it, x.Iter).(*VPtr)
	o := *st.get(p.Obj)
	pos := o.Cell.(*Term)
	if s, ok := o.Data["str"].(*VStr); ok {
		n := e.seqLen(s.S)
		if !e.decide(st, e.tm.Ult(pos, n)) {
			return &VTuple{E: []Val{e.tm.F, e.tm.I(0), e.tm.C(0, 32)}}
		}
		if c, ok := e.constStr(s); ok && pos.isConst() {
			r, sz := utf8.DecodeRuneInString(c[pos.val:])
			o.Cell = e.tm.Add(pos, e.tm.I(int64(sz)))
			st.put(p.Obj, &o)
			return &VTuple{E: []Val{e.tm.T, pos, e.tm.C(uint64(r), 32)}}
		}
		b := e.at(st, s.S, pos).(*Term)
		if e.decide(st, e.tm.Ult(b, e.tm.C(128, 8))) {
			o.Cell = e.tm.Add(pos, e.tm.I(1))
			st.put(p.Obj, &o)
			return &VTuple{E: []Val{e.tm.T, pos, e.tm.Zext(b, 32)}}
		}
		unsup("range over non-ASCII symbolic string")
	}
	m := o.Data["map"].(*VMap)
	if m.Obj == 0 {
		return &VTuple{E: []Val{e.tm.F, nil, nil}}
	}
	mv := st.get(m.Obj).Map
	mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if !pos.isConst() || mv.Sym != nil {
		return e.symMapNext(it, st, p, m, mt)
	}
	i := int(pos.val)
	if i >= len(mv.Ents) {
		return &VTuple{E: []Val{e.tm.F, e.zero(mt.Key()), e.zero(mt.Elem())}}
	}
	o.Cell = e.tm.I(int64(i + 1))
	st.put(p.Obj, &o)
	return &VTuple{E: []Val{e.tm.T, mv.Ents[i].K, mv.Ents[i].V}}
}
