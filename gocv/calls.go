package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) doCall(fc *fctx, it *Item, call *ssa.CallCommon, instr ssa.Instruction) []Outcome {
	fn := e.ev(it, call.Value)
	var args []Val
	for _, a := range call.Args {
		args = append(args, e.ev(it, a))
	}
	return e.callValue(fc, it, call, fn, args, instr)
}

// then runs f on every returning outcome.
func (e *Engine) then(os []Outcome, f func(st *State, v Val) []Outcome) []Outcome {
	var r []Outcome
	for _, o := range os {
		if o.kind != ORet {
			r = append(r, o)
			continue
		}
		r = append(r, f(o.st, o.ret)...)
	}
	return r
}

func ret(st *State, v Val) []Outcome { return []Outcome{{st: st, kind: ORet, ret: v}} }

func (e *Engine) callValue(fc *fctx, it *Item, call *ssa.CallCommon, fnv Val, args []Val, instr ssa.Instruction) []Outcome {
	st := it.st
	if call.IsInvoke() {
		return e.invoke(fc, st, call, fnv, args)
	}
	switch f := fnv.(type) {
	case *VFunc:
		if f.Fn == nil {
			if b, ok := call.Value.(*ssa.Builtin); ok {
				var at types.Type
				if len(call.Args) > 0 {
					at = call.Args[0].Type()
				}
				var rt types.Type = types.NewTuple()
				if v, ok := instr.(ssa.Value); ok {
					rt = v.Type()
				}
				if b.Name() == "recover" {
					return ret(st, &VIface{})
				}
				return e.forking(it, st, func(st *State) Val { return e.builtin(st, b.Name(), args, at, rt) })
			}
			if f.Bi == "" {
				return []Outcome{{st: st, kind: OPanic, msg: "call of nil function"}}
			}
			if f.Bi == "$cancel" { // of a context: its Done is closed from now on
				c := f.Bind[0].(*VChan)
				o := *st.get(c.Obj)
				cs := *o.Chan
				cs.Closed = true
				o.Chan = &cs
				st.put(c.Obj, &o)
				return ret(st, e.zero(call.Signature().Results()))
			}
			if f.Bi == "$noop" {
				return ret(st, e.zero(call.Signature().Results()))
			}
			if strings.HasPrefix(f.Bi, "$sym:") {
				return e.forking(it, st, func(st *State) Val {
					st.setFlag("imprecise")
					return e.matResults(st, call.Signature(), e.tm.FreshName(f.Bi[5:]))
				})
			}
			return []Outcome{{st: st, kind: OUnsup, msg: "function value " + f.Bi}}
		}
		return e.callFn(fc, it, f.Fn, args, f.Bind, call)
	}
	return []Outcome{{st: st, kind: OUnsup, msg: fmt.Sprintf("call of %T", fnv)}}
}

func (e *Engine) matResults(st *State, sig *types.Signature, name string) Val {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return e.mat(st, rs.At(0).Type(), name, nil)
	}
	return e.mat(st, rs, name, nil)
}

func (e *Engine) invoke(fc *fctx, st *State, call *ssa.CallCommon, recv Val, args []Val) []Outcome {
	name := call.Method.Name()
	// resolve
	rs := e.forking(nil, st, func(st *State) Val {
		v := e.openIface(st, recv)
		if s, ok := v.(*VSymIface); ok {
			if e.ifaceNil(st, s) {
				return &VIface{}
			}
			return e.viewIface(st, s)
		}
		return v
	})
	return e.then(rs, func(st *State, v Val) []Outcome {
		x, ok := v.(*VIface)
		if !ok {
			return []Outcome{{st: st, kind: OUnsup, msg: "method " + name + " on a symbolic interface"}}
		}
		if x.T == nil {
			return []Outcome{{st: st, kind: OPanic, msg: "method call on nil interface"}}
		}
		if x.T == errDyn {
			if name == "Error" {
				return e.forking(nil, st, func(st *State) Val { return e.errString(st, x.V.(*ErrVal)) })
			}
			return []Outcome{{st: st, kind: OUnsup, msg: "method " + name + " on an error"}}
		}
		if x.T == modelDyn {
			return e.modelInvoke(fc, st, x.V, name, args, call)
		}
		m := e.P.lookupMethod(x.T, call.Method)
		if m == nil {
			return []Outcome{{st: st, kind: OUnsup, msg: "no method " + name + " on " + x.T.String()}}
		}
		it2 := &Item{st: st}
		return e.callFn(fc, it2, m, append([]Val{x.V}, args...), nil, call)
	})
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.Prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) callFn(fc *fctx, it *Item, fn *ssa.Function, args, binds []Val, call *ssa.CallCommon) []Outcome {
	st := it.st
	if o := fn.Origin(); o != nil && fnPkgPath(o) == vfPath || fnPkgPath(fn) == vfPath {
		return e.intrinsic(fc, it, fn, args, call)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if m, ok := models[name]; ok {
		e.models[name] = true
		return e.forking(it, st, func(st *State) Val { return m(e, st, args, fn) })
	}
	if h, ok := hmodels[name]; ok {
		e.models[name] = true
		return h(e, fc, st, args, fn)
	}
	if e.initMode && !isRepo(fn) {
		if fn.Name() == "init" {
			return ret(st, nil)
		}
		return e.forking(it, st, func(st *State) Val {
			rs := fn.Signature.Results()
			r := &VTuple{}
			for i := 0; i < rs.Len(); i++ {
				r.E = append(r.E, &VOpaque{Name: e.tm.FreshName("init:" + name), T: rs.At(i).Type()})
			}
			if len(r.E) == 1 {
				return r.E[0]
			}
			return r
		})
	}
	if e.P.opaque[fn] && isBool(fn.Signature.Results().At(0).Type()) {
		return e.forking(it, st, func(st *State) Val { return e.opaqueBool(st, fn, args) })
	}
	if e.P.opaque[fn] || e.sealed(fn) {
		return e.forking(it, st, func(st *State) Val { return e.opaqueCall(st, fn, args) })
	}
	d := 0
	if fc != nil {
		d = fc.depth
	}
	return e.call(st, fn, args, binds, d+1)
}

// sealed: a method that makes a text of a number, taken as some function of
// that number by the contract being verified.
func (e *Engine) sealed(fn *ssa.Function) bool {
	if e.curC == nil || len(e.curC.Sealed) == 0 || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 || !isString(fn.Signature.Results().At(0).Type()) {
		return false
	}
	if b, ok := fn.Params[0].Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	n := strings.NewReplacer("(", "", ")", "").Replace(fn.String())
	for _, s := range e.curC.Sealed {
		if strings.HasSuffix(n, "/"+s) {
			return true
		}
	}
	return false
}

// ---- contracts ---------------------------------------------------------------

func (e *Engine) contractFor(fn *ssa.Function) *Contract {
	cs := e.P.byTarget[fn]
	if len(cs) == 0 {
		return nil
	}
	if len(e.ctxs) > 0 {
		top := e.ctxs[len(e.ctxs)-1]
		if top.c.Target == fn && !top.entered {
			return top.c
		}
	}
	if e.curC == nil {
		return nil
	}
	use := e.curC.Use
	if len(use) == 0 {
		use = []string{""}
	}
	for _, g := range use {
		for _, c := range cs {
			if c.Group == g || g == "default" && c.Group == "" {
				return c
			}
		}
	}
	return nil
}

func (e *Engine) usable(c *Contract) bool {
	return e.curC != nil && c != e.curC && !e.demoted[c.Name] && e.specDepth == 0 && !e.initMode && !c.NoModel
}

type preFail struct{}

func (e *Engine) useContract(st *State, c *Contract, args []Val, depth int) []Outcome {
	saved := st.clone()
	if c.Ghost != "" {
		gs, ok := e.ghostArgs(st, c, args)
		if !ok {
			return e.callBody(saved, c.Target, args, nil, depth)
		}
		args = append(append([]Val{}, args...), gs...)
	}
	cc := &cctx{c: c, use: true}
	e.ctxs = append(e.ctxs, cc)
	e.quiet++
	os := e.callBody(st, c.Fn, args, nil, depth+1)
	e.quiet--
	e.ctxs = e.ctxs[:len(e.ctxs)-1]
	bad := cc.preFailed
	for _, o := range os {
		if o.kind == OUnsup || o.kind == OPanic {
			bad = true
			if debugHint {
				fmt.Println("contract", c.Name, "not usable:", o.msg)
			}
		}
	}
	if bad {
		e.notes["contract "+c.Name+" not usable at a call site (precondition)"]++
		return e.callBody(saved, c.Target, args[:len(c.Target.Params)], nil, depth)
	}
	e.used[c.Name] = true
	for i := 0; i < cc.reqs; i++ {
		e.countObl("precondition of "+c.Name, "z3-new")
	}
	var res []Outcome
	for _, o := range os {
		if o.kind == ORet {
			o.ret = o.st.ghost[cc.retKey]
		}
		res = append(res, o)
	}
	return res
}

// ghostArgs finds the extra parameters of contract c at a call: the arguments
// of the specification whose octets are next in the receiver's buffer, and
// what follows them.
func (e *Engine) ghostArgs(st *State, c *Contract, args []Val) ([]Val, bool) {
	p, ok := args[0].(*VPtr)
	if !ok || p.Obj == 0 {
		return nil, false
	}
	s, ok := e.load(st, p).(*VStruct)
	if !ok {
		return nil, false
	}
	for _, f := range s.F {
		q, ok := f.(*VPtr)
		if !ok || q.Obj == 0 {
			continue
		}
		o := st.get(q.Obj)
		if o == nil || o.Buf == nil || len(o.Buf.S.segs) == 0 {
			continue
		}
		g := o.Buf.S.segs[0]
		if g.k != SOpaque || g.fn.Name() != c.Ghost {
			return nil, false
		}
		var r []Val
		for _, a := range g.args {
			r = append(r, e.unsnapshot(st, a))
		}
		rest := &Seq{segs: append([]Seg{}, o.Buf.S.segs[1:]...)}
		return append(r, e.newSlice(st, types.Typ[types.Uint8], rest)), true
	}
	return nil, false
}

// havocCall replaces the body of the target of a contract in use.
func (e *Engine) havocCall(st *State, fn *ssa.Function, args []Val, cc *cctx) []Outcome {
	cc.entered = true
	cc.retKey = fmt.Sprintf("ret:%p", cc)
	return e.forking(nil, st, func(st *State) Val {
		for _, m := range cc.mods {
			e.havocLoc(st, m)
		}
		rs := fn.Signature.Results()
		var r Val
		one := func(t types.Type, n string) Val {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return e.newSlice(st, u.Elem(), e.holeSeq(u.Elem(), n))
			}
			if isString(t) {
				return &VStr{e.holeSeq(types.Typ[types.Uint8], n)}
			}
			return e.mat(st, t, e.tm.FreshName(n), nil)
		}
		switch rs.Len() {
		case 0:
		case 1:
			r = one(rs.At(0).Type(), "ret:"+fn.Name())
		default:
			t := &VTuple{}
			for i := 0; i < rs.Len(); i++ {
				t.E = append(t.E, one(rs.At(i).Type(), fmt.Sprintf("ret%d:%s", i, fn.Name())))
			}
			r = t
		}
		st.setGhost(cc.retKey, r)
		return r
	})
}

func (e *Engine) havocLoc(st *State, v Val) {
	x, ok := v.(*VIface)
	if ok {
		v = x.V
	}
	if s, ok := v.(*VSlice); ok {
		if s.Obj == 0 {
			return
		}
		o := *st.get(s.Obj)
		h := e.holeSeq(o.T, "mod")
		pre, rest := e.split(st, o.Arr, s.Off)
		_, post := e.split(st, rest, s.Len)
		h.segs[0].ln = s.Len
		o.Arr = e.cat(pre, h, post)
		st.put(s.Obj, &o)
		return
	}
	p := e.resolvePtr(st, v)
	if p.Obj == 0 {
		return
	}
	o := *st.get(p.Obj)
	switch {
	case o.Buf != nil:
		b := *o.Buf
		b.S = e.holeSeq(types.Typ[types.Uint8], "buf")
		b.CanUnread = false
		b.Last = nil
		o.Buf = &b
	case o.Arr != nil:
		h := e.holeSeq(o.T, "mod")
		h.segs[0].ln = e.seqLen(o.Arr)
		o.Arr = h
	case o.Cell != nil:
		t := pathType(o.T, p.Path)
		nv, msg := e.havocVal(st, t, "mod", nil)
		if msg != "" {
			unsup("havoc: %s", msg)
		}
		o.Cell = e.storePath(st, o.Cell, p.Path, nv)
	default:
		unsup("havoc of %s", o.T)
	}
	st.put(p.Obj, &o)
}

// bindHole replaces hole segment b by q wherever it occurs in the heap.
func (e *Engine) bindHole(st *State, b *Base, q *Seq) {
	key := b.key()
	seen := map[int]bool{}
	ids := []int{}
	for l := st.heap; l != nil; l = l.up {
		for id := range l.m {
			if !seen[id] {
				seen[id] = true
				ids = append(ids, id)
			}
		}
	}
	sub := func(s *Seq) (*Seq, bool) {
		hit := false
		for _, g := range s.segs {
			if g.k == SSlice && g.base.key() == key {
				hit = true
			}
		}
		if !hit {
			return s, false
		}
		r := &Seq{}
		for _, g := range s.segs {
			if g.k == SSlice && g.base.key() == key {
				for _, x := range q.segs {
					e.push(r, x)
				}
			} else {
				e.push(r, g)
			}
		}
		return r, true
	}
	ln := e.lenTerm(b.Name+"$len", b.Idx)
	st.addPC(e.tm.Eq(ln, e.seqLen(q)))
	nl := e.seqLen(q)
	var rec func(v Val) (Val, bool)
	rec = func(v Val) (Val, bool) {
		switch x := v.(type) {
		case *VStr:
			if s, ok := sub(x.S); ok {
				return &VStr{s}, true
			}
		case *SeqVal:
			if s, ok := sub(x.S); ok {
				return &SeqVal{S: s, T: x.T}, true
			}
		case *VSlice:
			if x.Len == ln {
				return &VSlice{Obj: x.Obj, Off: x.Off, Len: nl, Cap: nl}, true
			}
		case *VStruct:
			r := &VStruct{F: append([]Val{}, x.F...)}
			ch := false
			for i := range r.F {
				n, c := rec(r.F[i])
				if c {
					r.F[i] = n
					ch = true
				}
			}
			if ch {
				return r, true
			}
		case *VTuple:
			r := &VTuple{E: append([]Val{}, x.E...)}
			ch := false
			for i := range r.E {
				n, c := rec(r.E[i])
				if c {
					r.E[i] = n
					ch = true
				}
			}
			if ch {
				return r, true
			}
		case *VIface:
			if n, c := rec(x.V); c {
				return &VIface{T: x.T, V: n}, true
			}
		}
		return v, false
	}
	for _, id := range ids {
		o := st.get(id)
		if o == nil {
			continue
		}
		n := *o
		ch := false
		if o.Buf != nil {
			if s, ok := sub(o.Buf.S); ok {
				bb := *o.Buf
				bb.S = s
				n.Buf = &bb
				ch = true
			}
		}
		if o.Arr != nil {
			if s, ok := sub(o.Arr); ok {
				n.Arr = s
				ch = true
			}
		}
		if o.Cell != nil {
			if v, ok := rec(o.Cell); ok {
				n.Cell = v
				ch = true
			}
		}
		if ch {
			st.put(id, &n)
		}
	}
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "ret:") {
			if n, ok := rec(v); ok {
				st.setGhost(k, n)
			}
		}
	}
}

// ---- intrinsics ---------------------------------------------------------------

func (e *Engine) labelOf(v Val) string {
	if s, ok := v.(*VStr); ok {
		if c, ok := e.constStr(s); ok {
			return c
		}
	}
	return "?"
}

func (e *Engine) intrinsic(fc *fctx, it *Item, fn *ssa.Function, args []Val, call *ssa.CallCommon) []Outcome {
	st := it.st
	var top *cctx
	if len(e.ctxs) > 0 {
		top = e.ctxs[len(e.ctxs)-1]
	}
	use := top != nil && top.use
	name := fn.Name()
	if i := strings.Index(name, "["); i > 0 {
		name = name[:i]
	}
	kill := []Outcome{{st: st, kind: OKill}}
	// finish proves or assumes a condition
	finish := func(label string, os []Outcome) []Outcome {
		return e.then(os, func(st *State, v Val) []Outcome {
			c := v.(*Term)
			if !use {
				e.reach[label]++
				if !e.oblige(st, label, c) {
					return []Outcome{{st: st, kind: OKill}}
				}
			}
			if c == e.tm.F || use && !e.feasible(st, c) {
				return []Outcome{{st: st, kind: OKill}}
			}
			st.addPC(c)
			return ret(st, nil)
		})
	}
	switch name {
	case "Assume", "Requires":
		c := args[0].(*Term)
		if use && name == "Requires" {
			if !e.implied(st, c) {
				top.preFailed = true
				if debugHint {
					fmt.Println("precondition of", top.c.Name, "not met:", c)
				}
				return kill
			}
			top.reqs++
			return ret(st, nil)
		}
		if c == e.tm.F || !e.feasible(st, c) {
			return kill
		}
		st.addPC(c)
		return ret(st, nil)
	case "Ensures":
		return finish(e.labelOf(args[0]), ret(st, args[1]))
	case "EnsuresSeq":
		if use {
			return e.forking(it, st, func(st *State) Val {
				e.assumeSeq(st, e.seqOf(st, args[1]), e.seqOf(st, args[2]))
				return nil
			})
		}
		return finish(e.labelOf(args[0]), e.forking(it, st, func(st *State) Val {
			t, ok := e.matchSeq(st, e.seqOf(st, args[1]), e.seqOf(st, args[2]), mProof)
			if !ok {
				unsup("sequence comparison undecided")
			}
			return t
		}))
	case "EnsuresEq":
		if use {
			return e.forking(it, st, func(st *State) Val {
				if x, ok := args[1].(*VSymIface); ok {
					// the result of the call: it is that value
					switch r := st.ghost[top.retKey].(type) {
					case *VSymIface:
						if e.sameVal(r, x) {
							st.setGhost(top.retKey, args[2])
							return nil
						}
					case *VTuple:
						for i, v := range r.E {
							if y, ok := v.(*VSymIface); ok && e.sameVal(y, x) {
								n := &VTuple{E: append([]Val{}, r.E...)}
								n.E[i] = args[2]
								st.setGhost(top.retKey, n)
								return nil
							}
						}
					}
				}
				a, b := e.viewIface(st, args[1]), e.viewIface(st, args[2])
				if x, ok := a.(*VIface); ok {
					if y, ok := b.(*VIface); ok && x.T != nil && y.T != nil {
						if xs, ok := x.V.(*VSlice); ok {
							if ys, ok := y.V.(*VSlice); ok {
								e.assumeSeq(st, e.sliceSeq(st, xs), e.sliceSeq(st, ys))
								return nil
							}
						}
						if xs, ok := x.V.(*VStr); ok {
							if ys, ok := y.V.(*VStr); ok {
								e.assumeSeq(st, xs.S, ys.S)
								return nil
							}
						}
					}
				}
				st.addPC(e.deepEq(st, args[1], args[2], 0))
				return nil
			})
		}
		return finish(e.labelOf(args[0]), e.forking(it, st, func(st *State) Val { return e.deepEq(st, args[1], args[2], mProof) }))
	case "EnsuresSuffix":
		if use {
			return e.forking(it, st, func(st *State) Val {
				a, w := e.seqOf(st, args[1]), e.seqOf(st, args[2])
				if len(a.segs) == 1 && a.segs[0].k == SSlice && a.segs[0].base.Hole {
					if len(w.segs) == 0 {
						e.bindHole(st, a.segs[0].base, &Seq{})
						return nil
					}
					n := e.seqLen(w)
					if len(w.segs) == 1 && w.segs[0].k == SSlice {
						r := w.segs[0]
						rem := a.segs[0].ln // what remains is a length of its own
						st.addPC(e.tm.Ule(rem, n))
						r.off = e.tm.Add(r.off, e.tm.Sub(n, rem))
						r.ln = rem
						e.bindHole(st, a.segs[0].base, &Seq{segs: []Seg{r}})
						st.setFlag("imprecise")
						return nil
					}
					m := e.tm.Zext(e.tm.Fresh("adv", 31), 64)
					st.addPC(e.tm.Ule(m, n))
					_, r := e.split(st, w, m)
					e.bindHole(st, a.segs[0].base, r)
					st.setFlag("imprecise")
					return nil
				}
				unsup("suffix of a bound buffer")
				return nil
			})
		}
		return finish(e.labelOf(args[0]), e.forking(it, st, func(st *State) Val {
			a, w := e.seqOf(st, args[1]), e.seqOf(st, args[2])
			la, lw := e.seqLen(a), e.seqLen(w)
			if !e.decide(st, e.tm.Ule(la, lw)) {
				return e.tm.F
			}
			_, r := e.split(st, w, e.tm.Sub(lw, la))
			t, ok := e.matchSeq(st, a, r, mProof)
			if !ok {
				unsup("suffix undecided")
			}
			return t
		}))
	case "BufBytes":
		return e.forking(it, st, func(st *State) Val {
			p := e.resolvePtr(st, args[0])
			if p.Obj == 0 {
				return e.zero(types.NewSlice(types.Typ[types.Uint8]))
			}
			o := st.get(p.Obj)
			return e.newSlice(st, types.Typ[types.Uint8], o.Buf.S)
		})
	case "Modifies":
		if top != nil {
			q := e.sliceSeq(st, args[0].(*VSlice))
			for _, s := range q.segs {
				top.mods = append(top.mods, s.elems...)
			}
		}
		return ret(st, nil)
	case "Front":
		// in use, the ghost arguments have been read off the buffer
		if use {
			return ret(st, nil)
		}
		return e.forking(it, st, func(st *State) Val {
			p := e.resolvePtr(st, args[0])
			o := *st.get(p.Obj)
			if o.Buf == nil || len(o.Buf.S.segs) > 1 || len(o.Buf.S.segs) == 1 && o.Buf.S.segs[0].k != SSlice {
				unsup("Front of a buffer that is not an input")
			}
			o.Buf = &BufState{S: e.cat(e.seqOf(st, args[1]), e.seqOf(st, args[2]))}
			st.put(p.Obj, &o)
			return nil
		})
	case "LoopBuf":
		if p, ok := args[0].(*VPtr); ok && !use {
			f, _ := funcArg(args[1])
			e.loopHints = append(e.loopHints, &LoopHint{Kind: "buf", Obj: p.Obj, F: f})
		}
		return ret(st, nil)
	case "LoopBufWhen":
		if p, ok := args[0].(*VPtr); ok && !use {
			w, _ := funcArg(args[1])
			f, _ := funcArg(args[2])
			e.loopHints = append(e.loopHints, &LoopHint{Kind: "buf", Obj: p.Obj, F: f, When: w})
		}
		return ret(st, nil)
	case "LoopReads":
		if p, ok := args[0].(*VPtr); ok && !use {
			f, _ := funcArg(args[1])
			r, t := funcArg(args[2])
			h := &LoopHint{Kind: "buf", Obj: p.Obj, F: f, Read: r}
			for i := 0; i < t.Results().Len(); i++ {
				h.RT = append(h.RT, t.Results().At(i).Type())
			}
			e.loopHints = append(e.loopHints, h)
		}
		return ret(st, nil)
	case "LoopInv":
		if !use {
			f, _ := funcArg(args[0])
			e.loopHints = append(e.loopHints, &LoopHint{Kind: "inv", F: f})
		}
		return ret(st, nil)
	case "LoopList":
		if !use {
			f, t := funcArg(args[0])
			e.loopHints = append(e.loopHints, &LoopHint{Kind: "list", F: f, T: t.Results().At(0).Type()})
		}
		return ret(st, nil)
	case "Names":
		return e.forking(it, st, func(st *State) Val {
			forms := e.argList(st, args[1])
			return e.names(st, args[0], forms, 0)
		})
	case "RunPending":
		return e.runAllPending(st)
	case "Reach":
		e.reach[e.labelOf(args[0])]++
		return ret(st, nil)
	}
	return e.call(st, fn, args, nil, 1)
}

// names: the text of an error contains one of the forms of a value. An error's
// arguments are looked at, and its text piece by piece: never true unless the
// text is certain to contain the form.
func (e *Engine) names(st *State, err Val, forms []Val, d int) *Term {
	x, ok := e.openIface(st, err).(*VIface)
	if !ok || x.T == nil {
		return e.tm.F
	}
	ev, ok := x.V.(*ErrVal)
	if !ok {
		unsup("text of an error of type %s", x.T)
	}
	r := e.tm.F
	for _, a := range ev.Args {
		a, ok := e.openIface(st, a).(*VIface)
		if !ok || a.T == nil {
			continue
		}
		if _, ok := a.V.(*ErrVal); ok && d < 5 {
			r = e.tm.Or(r, e.names(st, a, forms, d+1))
			continue
		}
		for _, f := range forms {
			f, ok := e.openIface(st, f).(*VIface)
			if !ok || f.T == nil || !types.Identical(a.T, f.T) {
				continue
			}
			switch v := a.V.(type) {
			case *Term:
				r = e.tm.Or(r, e.tm.Eq(v, f.V.(*Term)))
			case *VStr:
				if contains(e.units(v.S), e.units(f.V.(*VStr).S)) {
					return e.tm.T
				}
			}
		}
	}
	if t, ok := e.errString(st, ev).(*VStr); ok {
		for _, f := range forms {
			if f, ok := e.openIface(st, f).(*VIface); ok {
				if v, ok := f.V.(*VStr); ok && contains(e.units(t.S), e.units(v.S)) {
					return e.tm.T
				}
			}
		}
	}
	return r
}

// units are the elements of a sequence, and the names of its other stretches.
func (e *Engine) units(q *Seq) []string {
	var r []string
	for _, g := range q.segs {
		if g.k == SElems {
			for _, v := range g.elems {
				r = append(r, e.valKey(nil, v))
			}
		} else {
			r = append(r, e.seqKey(&Seq{segs: []Seg{g}}))
		}
	}
	return r
}

func contains(a, b []string) bool {
	for i := 0; i+len(b) <= len(a); i++ {
		j := 0
		for j < len(b) && a[i+j] == b[j] {
			j++
		}
		if j == len(b) {
			return true
		}
	}
	return false
}

func (e *Engine) assumeSeq(st *State, a, b *Seq) {
	if len(a.segs) == 1 && a.segs[0].k == SSlice && a.segs[0].base.Hole {
		e.bindHole(st, a.segs[0].base, b)
		return
	}
	t, ok := e.matchSeq(st, a, b, 0)
	if !ok {
		unsup("assumed sequence equality cannot be used")
	}
	st.addPC(t)
}

// funcArg is a function given as an interface value.
func funcArg(v Val) (*VFunc, *types.Signature) {
	x := v.(*VIface)
	return x.V.(*VFunc), x.T.Underlying().(*types.Signature)
}
