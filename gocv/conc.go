package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- package level variables ---------------------------------------------------

func stdErr(name string) *VIface {
	h := fnv.New32a()
	h.Write([]byte(name))
	return &VIface{T: errDyn, V: &ErrVal{Id: -int(h.Sum32()), Format: "global:" + name}}
}

func (e *Engine) globalObj(st *State, g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	id := e.nextObj
	e.nextObj++
	o := &Obj{T: t}
	repo := g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
	switch {
	case isBuffer(t):
		o.Buf = &BufState{S: &Seq{}}
	case repo && e.P.mutGlob[g] && !e.initMode:
		o.Cell = e.mat(st, t, "g:"+g.String(), nil)
	case repo:
		if a, ok := t.Underlying().(*types.Array); ok {
			z := e.zero(t).(*VArr)
			o.T = a.Elem()
			o.Arr = elems(z.E...)
		} else {
			o.Cell = e.zero(t)
		}
	case isErrorType(t):
		o.Cell = stdErr(g.String())
	default:
		if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			o.Cell = &VStruct{}
		} else {
			o.Cell = &VOpaque{Name: "global " + g.String(), T: t}
		}
	}
	e.globals[g] = id
	e.globHeap[id] = o
	return id
}

func (e *Engine) globalLoad(st *State, g *ssa.Global) (Val, bool) {
	return nil, false
}

// setup runs the initialisation of the packages of the repository.
func (e *Engine) setup() {
	e.globHeap = map[int]*Obj{}
	st := newState()
	st.glob = e.globHeap
	e.initMode = true
	e.quiet++
	done := map[*types.Package]bool{}
	var rec func(p *types.Package)
	rec = func(p *types.Package) {
		if done[p] || !strings.HasPrefix(p.Path(), modPath) {
			return
		}
		done[p] = true
		for _, i := range p.Imports() {
			rec(i)
		}
		sp := e.P.Prog.Package(p)
		if sp == nil {
			return
		}
		f := sp.Func("init")
		if f == nil {
			return
		}
		outs := e.callBody(st, f, nil, nil, 0)
		ok := false
		for _, o := range outs {
			if o.kind == ORet {
				st = o.st
				ok = true
			}
		}
		if !ok {
			e.notes["package initialisation of "+p.Path()+" not executed"]++
		}
	}
	for k, pk := range e.P.Pkgs {
		if strings.HasPrefix(k, modPath) {
			rec(pk.Types)
		}
	}
	e.quiet--
	e.initMode = false
	// flatten into the shared heap
	seen := map[int]bool{}
	for l := st.heap; l != nil; l = l.up {
		for id, o := range l.m {
			if !seen[id] {
				seen[id] = true
				e.globHeap[id] = o
			}
		}
	}
	for g, id := range e.globals {
		if e.P.mutGlob[g] {
			e.globHeap[id] = &Obj{T: g.Type().Underlying().(*types.Pointer).Elem(), Cell: e.mat(st, g.Type().Underlying().(*types.Pointer).Elem(), "g:"+g.String(), nil)}
		}
	}
	e.inlined = map[string]bool{}
	e.models = map[string]bool{}
	e.steps, e.paths = 0, 0
}

func (e *Engine) freshState() *State {
	st := newState()
	st.glob = e.globHeap
	return st
}

// ---- goroutines and channels -----------------------------------------------------

func blocking(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Select:
		return x.Blocking
	}
	return false
}

// hasData: a channel the instruction receives from holds an element already.
func (e *Engine) hasData(it *Item, in ssa.Instruction) bool {
	var chans []ssa.Value
	switch x := in.(type) {
	case *ssa.UnOp:
		chans = append(chans, x.X)
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				chans = append(chans, s.Chan)
			}
		}
	}
	for _, c := range chans {
		if v, ok := e.ev(it, c).(*VChan); ok && v.Obj != 0 && len(it.st.get(v.Obj).Chan.Q) > 0 {
			return true
		}
	}
	return false
}

func hasPending(st *State) bool {
	v, ok := st.ghost["$go"].(*VTuple)
	return ok && len(v.E) > 0
}

type pendGo struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

func (e *Engine) goStmt(it *Item, st *State, x *ssa.Go) Val {
	p := &pendGo{fn: e.ev(it, x.Call.Value), call: &x.Call}
	for _, a := range x.Call.Args {
		p.args = append(p.args, e.ev(it, a))
	}
	old, _ := st.ghost["$go"].(*VTuple)
	n := &VTuple{}
	if old != nil {
		n.E = append(n.E, old.E...)
	}
	n.E = append(n.E, p)
	st.setGhost("$go", n)
	return nil
}

func (e *Engine) runOnePending(st *State) []Outcome {
	q := st.ghost["$go"].(*VTuple)
	p := q.E[0].(*pendGo)
	st.setGhost("$go", &VTuple{E: append([]Val{}, q.E[1:]...)})
	return e.callValue(nil, &Item{st: st}, p.call, p.fn, p.args, nil)
}

func (e *Engine) runAllPending(st *State) []Outcome {
	if !hasPending(st) {
		return ret(st, nil)
	}
	return e.then(e.runOnePending(st), func(st *State, v Val) []Outcome { return e.runAllPending(st) })
}

func (e *Engine) chanOf(st *State, v Val) (*VChan, *ChanState) {
	c, ok := v.(*VChan)
	if !ok {
		unsup("channel expected, have %T", v)
	}
	if c.Obj == 0 {
		return c, nil
	}
	return c, st.get(c.Obj).Chan
}

func (e *Engine) putChan(st *State, c *VChan, cs ChanState) {
	o := *st.get(c.Obj)
	o.Chan = &cs
	st.put(c.Obj, &o)
}

func (e *Engine) chanSend(it *Item, st *State, cv, v Val) {
	c, cs := e.chanOf(st, cv)
	if cs == nil {
		unsup("send on a nil channel blocks")
	}
	if cs.Closed {
		gopanic("send on closed channel")
	}
	n := *cs
	if cs.Cap != nil && cs.Sym == "" {
		if e.decide(st, e.tm.Ult(e.tm.I(0), cs.Cap)) && e.decide(st, e.tm.Ule(cs.Cap, e.tm.I(int64(len(cs.Q))))) {
			unsup("send on a full channel blocks")
		}
	}
	n.Q = append(append([]Val{}, cs.Q...), v)
	e.putChan(st, c, n)
}

func (e *Engine) recvReady(cs *ChanState) bool {
	return cs != nil && (len(cs.Q) > 0 || cs.Closed || cs.Sym != "")
}

func (e *Engine) doRecv(st *State, c *VChan, cs *ChanState) (Val, *Term) {
	if len(cs.Q) > 0 {
		n := *cs
		v := n.Q[0]
		n.Q = append([]Val{}, n.Q[1:]...)
		e.putChan(st, c, n)
		return v, e.tm.T
	}
	if cs.Sym != "" {
		return e.mat(st, cs.Elem, e.tm.FreshName(cs.Sym+"$recv"), nil), e.tm.T
	}
	return e.zero(cs.Elem), e.tm.F
}

func (e *Engine) chanRecv(it *Item, st *State, cv Val, commaOk bool, x ssa.Instruction) Val {
	c, cs := e.chanOf(st, cv)
	if cs == nil {
		unsup("receive from a nil channel blocks")
	}
	if !e.recvReady(cs) {
		if cs.Label == "ctx.done" {
			return e.recvVal(e.zero(cs.Elem), e.tm.F, commaOk)
		}
		unsup("receive blocks for ever")
	}
	v, ok := e.doRecv(st, c, cs)
	return e.recvVal(v, ok, commaOk)
}

func (e *Engine) recvVal(v Val, ok *Term, commaOk bool) Val {
	if commaOk {
		return &VTuple{E: []Val{v, ok}}
	}
	return v
}

func (e *Engine) selectStmt(it *Item, st *State, x *ssa.Select) Val {
	var ready, done []int
	for i, s := range x.States {
		_, cs := e.chanOf(st, e.ev(it, s.Chan))
		if cs == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			if cs.Closed {
				gopanic("send on closed channel")
			}
			if cs.Sym != "" || cs.Cap != nil && cs.Cap.isConst() && uint64(len(cs.Q)) < cs.Cap.val {
				ready = append(ready, i)
			}
			continue
		}
		if e.recvReady(cs) {
			ready = append(ready, i)
		} else if cs.Label == "ctx.done" {
			done = append(done, i)
		}
	}
	pick := -1
	switch {
	case len(ready) == 1:
		pick = ready[0]
	case len(ready) > 1:
		pick = ready[e.choose(len(ready))]
	case !x.Blocking:
	case len(done) > 0:
		pick = done[0]
	default:
		unsup("select blocks for ever")
	}
	r := &VTuple{E: []Val{e.tm.I(int64(pick)), e.tm.F}}
	for i, s := range x.States {
		if s.Dir == types.SendOnly {
			if i == pick {
				e.chanSend(it, st, e.ev(it, s.Chan), e.ev(it, s.Send))
			}
			continue
		}
		el := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if i == pick {
			c, cs := e.chanOf(st, e.ev(it, s.Chan))
			if !e.recvReady(cs) {
				r.E = append(r.E, e.zero(el))
				continue
			}
			v, ok := e.doRecv(st, c, cs)
			r.E[1] = ok
			r.E = append(r.E, v)
		} else {
			r.E = append(r.E, e.zero(el))
		}
	}
	return r
}

// symMapNext: one step of a range over a map with unknown content.
func (e *Engine) symMapNext(it *Item, st *State, p *VPtr, m *VMap, mt *types.Map) Val {
	st.setFlag("imprecise")
	if e.choose(2) == 0 {
		return &VTuple{E: []Val{e.tm.F, e.zero(mt.Key()), e.zero(mt.Elem())}}
	}
	k := e.mat(st, mt.Key(), e.tm.FreshName("key"), nil)
	v, ok := e.mapGet(st, m, k, mt)
	if ok.(*Term) == e.tm.F {
		panic(&Infeasible{})
	}
	return &VTuple{E: []Val{e.tm.T, k, v}}
}

// allocObl: an allocation of n elements must be justified by remaining input.
func (e *Engine) allocObl(st *State, n *Term) {
	if e.quiet > 0 {
		return
	}
	tm := e.tm
	ok := tm.Ule(n, tm.I(1024))
	seen := map[int]bool{}
	for l := st.heap; l != nil; l = l.up {
		for id := range l.m {
			if seen[id] {
				continue
			}
			seen[id] = true
			if o := st.get(id); o != nil && o.Buf != nil {
				ok = tm.Or(ok, tm.Ule(n, tm.Add(e.seqLen(o.Buf.S), tm.I(1024))))
			}
		}
	}
	if !e.decide(st, ok) {
		gopanic("allocation of a size taken from the input without input to justify it")
	}
	e.countObl("allocation bounded by the remaining input", "z3-new")
}

func (e *Engine) seqStr(q *Seq) string {
	var b strings.Builder
	for _, s := range q.segs {
		switch s.k {
		case SElems:
			b.WriteString("[")
			for _, v := range s.elems {
				if t, ok := v.(*Term); ok {
					b.WriteString(t.String() + " ")
				} else {
					b.WriteString(e.valKey(nil, v) + " ")
				}
			}
			b.WriteString("]")
		case SSlice:
			fmt.Fprintf(&b, "{%s off %s len %s}", s.base.key(), s.off, s.ln)
		case SZero:
			fmt.Fprintf(&b, "{zero %s}", s.ln)
		case SOpaque:
			fmt.Fprintf(&b, "{%s(", s.fn.Name())
			for _, a := range s.args {
				if t, ok := a.(*Term); ok {
					b.WriteString(t.String() + ",")
				} else {
					b.WriteString(e.valKey(nil, a) + ",")
				}
			}
			b.WriteString(")}")
		}
	}
	return b.String()
}
