package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Path merging (directive //vf:merge): paths of one activation that reach the
// same block are joined. Numbers become selections between the two values, so
// nothing is lost there; values of other kinds that differ are replaced by
// unknown ones, which only adds behaviours. Two paths whose difference cannot
// be expressed stay apart.

func (fc *fctx) rpo() map[*ssa.BasicBlock]int {
	if fc.order != nil {
		return fc.order
	}
	fc.order = map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			rec(s)
		}
		post = append(post, b)
	}
	if len(fc.fn.Blocks) > 0 {
		rec(fc.fn.Blocks[0])
	}
	for i, b := range post {
		fc.order[b] = len(post) - i
	}
	return fc.order
}

// live: is v possibly used from block b on (not counting phis at b itself)
func (fc *fctx) live(v ssa.Value, b *ssa.BasicBlock) bool {
	if fc.reach == nil {
		fc.reach = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	r := fc.reach[b]
	if r == nil {
		r = map[*ssa.BasicBlock]bool{b: true}
		w := []*ssa.BasicBlock{b}
		for len(w) > 0 {
			x := w[len(w)-1]
			w = w[:len(w)-1]
			for _, s := range x.Succs {
				if !r[s] {
					r[s] = true
					w = append(w, s)
				}
			}
		}
		fc.reach[b] = r
	}
	if in, ok := v.(ssa.Instruction); ok {
		// a value used from b on dominates b, or is set again before
		if d := in.Block(); d != b && !d.Dominates(b) {
			return false
		}
	}
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	for _, u := range *rs {
		if !r[u.Block()] {
			continue
		}
		return true
	}
	return false
}

type noMerge struct{}

type merger struct {
	e    *Engine
	st   *State
	a, b *State
	sel  *Term
}

func (m *merger) val(x, y Val, t types.Type) Val {
	e := m.e
	if e.sameVal(x, y) {
		return x
	}
	switch p := x.(type) {
	case *Term:
		if q, ok := y.(*Term); ok && p.w == q.w {
			return e.tm.Ite(m.sel, p, q)
		}
	case *VStruct:
		if q, ok := y.(*VStruct); ok && len(p.F) == len(q.F) {
			s, _ := t.Underlying().(*types.Struct)
			if s == nil {
				panic(noMerge{})
			}
			r := &VStruct{}
			for i := range p.F {
				r.F = append(r.F, m.val(p.F[i], q.F[i], s.Field(i).Type()))
			}
			return r
		}
	case *VArr:
		if q, ok := y.(*VArr); ok && len(p.E) == len(q.E) {
			s, _ := t.Underlying().(*types.Array)
			if s == nil {
				panic(noMerge{})
			}
			r := &VArr{}
			for i := range p.E {
				r.E = append(r.E, m.val(p.E[i], q.E[i], s.Elem()))
			}
			return r
		}
	case *VTuple:
		if q, ok := y.(*VTuple); ok && len(p.E) == len(q.E) {
			s, _ := t.(*types.Tuple)
			if s == nil {
				panic(noMerge{})
			}
			r := &VTuple{}
			for i := range p.E {
				r.E = append(r.E, m.val(p.E[i], q.E[i], s.At(i).Type()))
			}
			return r
		}
	case *VSlice:
		if q, ok := y.(*VSlice); ok && p.Obj == q.Obj && p.Obj != 0 {
			return &VSlice{Obj: p.Obj, Off: e.tm.Ite(m.sel, p.Off, q.Off), Len: e.tm.Ite(m.sel, p.Len, q.Len), Cap: e.tm.Ite(m.sel, p.Cap, q.Cap)}
		}
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Interface, *types.Basic:
	default:
		panic(noMerge{})
	}
	v, msg := e.havocVal(m.st, t, "merge", nil)
	if msg != "" {
		panic(noMerge{})
	}
	m.st.setFlag("imprecise")
	if x2, ok := v.(*VSymIface); ok {
		p, q := e.nilTerm(m.a, x), e.nilTerm(m.b, y)
		if p != nil && q != nil {
			z := e.tm.Eq(e.tm.App(x2.Name+"$dyn", 16, x2.Idx...), e.tm.C(0, 16))
			n := e.tm.Ite(m.sel, p, q)
			m.st.addPC(e.tm.Or(e.tm.Not(z), n))
			m.st.addPC(e.tm.Or(z, e.tm.Not(n)))
		}
	}
	if sl, ok := v.(*VSlice); ok && sl.Obj != 0 {
		o := *m.st.get(sl.Obj)
		o.RO = true
		m.st.heap.m[sl.Obj] = &o
	}
	return v
}

func (m *merger) seq(x, y *Seq) *Seq {
	e := m.e
	if e.seqKey(x) == e.seqKey(y) {
		return x
	}
	if len(x.segs) == 1 && len(y.segs) == 1 && x.segs[0].k == SSlice && y.segs[0].k == SSlice && x.segs[0].base.key() == y.segs[0].base.key() {
		s := x.segs[0]
		s.off = e.tm.Ite(m.sel, s.off, y.segs[0].off)
		s.ln = e.tm.Ite(m.sel, s.ln, y.segs[0].ln)
		return &Seq{segs: []Seg{s}}
	}
	panic(noMerge{})
}

// elems joins sequences that differ only in some single elements.
func (m *merger) elems(x, y *Seq, t types.Type) *Seq {
	if len(x.segs) != len(y.segs) {
		return nil
	}
	r := &Seq{segs: append([]Seg{}, x.segs...)}
	for i := range x.segs {
		p, q := x.segs[i], y.segs[i]
		if m.e.seqKey(&Seq{segs: []Seg{p}}) == m.e.seqKey(&Seq{segs: []Seg{q}}) {
			continue
		}
		if p.k != SElems || q.k != SElems || len(p.elems) != len(q.elems) {
			return nil
		}
		var l []Val
		for j := range p.elems {
			if a, ok := p.elems[j].(*Term); ok {
				if b, ok := q.elems[j].(*Term); ok && a.w == b.w {
					l = append(l, m.e.tm.Ite(m.sel, a, b))
					continue
				}
			}
			if !m.e.sameVal(p.elems[j], q.elems[j]) {
				return nil
			}
			l = append(l, p.elems[j])
		}
		r.segs[i].elems = l
	}
	return r
}

func (m *merger) obj(x, y *Obj) *Obj {
	if x == y {
		return x
	}
	e := m.e
	if (x.Buf != nil) != (y.Buf != nil) || (x.Arr != nil) != (y.Arr != nil) || x.Map != nil || x.Chan != nil || x.Data != nil || y.Map != nil || y.Chan != nil || y.Data != nil {
		panic(noMerge{})
	}
	n := *x
	switch {
	case x.Buf != nil:
		b := BufState{S: m.seq(x.Buf.S, y.Buf.S)}
		if x.Buf.CanUnread && y.Buf.CanUnread && len(x.Buf.Last) == len(y.Buf.Last) {
			same := true
			for i := range x.Buf.Last {
				if !e.sameVal(x.Buf.Last[i], y.Buf.Last[i]) {
					same = false
				}
			}
			if same {
				b.CanUnread, b.Last = true, x.Buf.Last
			}
		}
		if !b.CanUnread && x.Buf.CanUnread && y.Buf.CanUnread && len(x.Buf.Last) == 1 && len(y.Buf.Last) == 1 {
			p, ok1 := x.Buf.Last[0].(*Term)
			q, ok2 := y.Buf.Last[0].(*Term)
			if ok1 && ok2 {
				b.CanUnread, b.Last = true, []Val{e.tm.Ite(m.sel, p, q)}
			}
		}
		if !b.CanUnread && (x.Buf.CanUnread || y.Buf.CanUnread) && x.Buf.CanUnread != y.Buf.CanUnread {
			// whether a byte can be taken back is decided separately on each path
			panic(noMerge{})
		}
		n.Buf = &b
	case x.Arr != nil:
		if e.seqKey(x.Arr) == e.seqKey(y.Arr) {
			return x
		}
		lx, ly := e.seqLen(x.Arr), e.seqLen(y.Arr)
		if lx != ly {
			panic(noMerge{})
		}
		if a := m.elems(x.Arr, y.Arr, x.T); a != nil {
			n.Arr = a
			break
		}
		h := e.holeSeq(x.T, "merge")
		h.segs[0].ln = lx
		n.Arr = h
		m.st.setFlag("imprecise")
	default:
		n.Cell = m.val(x.Cell, y.Cell, x.T)
	}
	return &n
}

func heapMap(s *State) map[int]*Obj {
	r := map[int]*Obj{}
	for l := s.heap; l != nil; l = l.up {
		for k, v := range l.m {
			if _, ok := r[k]; !ok {
				r[k] = v
			}
		}
	}
	return r
}

func resMap(s *State) map[string]*Resol {
	r := map[string]*Resol{}
	for l := s.res; l != nil; l = l.up {
		for k, v := range l.m {
			if _, ok := r[k]; !ok {
				r[k] = v
			}
		}
	}
	return r
}

func holdsPtr(v Val) bool {
	switch x := v.(type) {
	case nil, *Term, *VStr:
		return false
	case *VStruct:
		for _, f := range x.F {
			if holdsPtr(f) {
				return true
			}
		}
		return false
	case *VIface:
		return x.T != nil && holdsPtr(x.V)
	case *ErrVal:
		return false
	case *VPtr:
		return x.Obj != 0
	case *VSlice:
		return x.Obj != 0
	}
	return true
}

func (e *Engine) mergeTwo(fc *fctx, x, y *Item) (r *Item) {
	if (x.ret == nil) != (y.ret == nil) || len(x.defers) != len(y.defers) || x.prev != y.prev && x.phiVals == nil {
		return nil
	}
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case noMerge, *Unsup:
				r = nil
				return
			}
			panic(p)
		}
	}()
	for i := range x.defers {
		if x.defers[i].instr != y.defers[i].instr || !e.sameVal(x.defers[i].fn, y.defers[i].fn) || len(x.defers[i].args) != len(y.defers[i].args) {
			return nil
		}
		for j := range x.defers[i].args {
			if !e.sameVal(x.defers[i].args[j], y.defers[i].args[j]) {
				return nil
			}
		}
	}
	a, b := x.st, y.st
	n := newState()
	n.glob = a.glob
	n.trace = a.trace
	sel := e.tm.Var(e.tm.FreshName("join"), 0)
	m := &merger{e: e, st: n, a: a, b: b, sel: sel}
	// path conditions
	inB := map[*Term]bool{}
	for _, t := range b.pc {
		inB[t] = true
	}
	inA := map[*Term]bool{}
	var ra, rb []*Term
	for _, t := range a.pc {
		inA[t] = true
		if inB[t] {
			n.addPC(t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pc {
		if !inA[t] {
			rb = append(rb, t)
		}
	}
	for k, v := range a.known {
		if w, ok := b.known[k]; ok && w == v {
			n.known[k] = v
		}
	}
	// materialised memory
	for k, id := range a.okeys {
		if j, ok := b.okeys[k]; ok {
			if j != id {
				return nil
			}
			n.okeys[k] = id
		} else {
			return nil
		}
	}
	for k := range b.okeys {
		if _, ok := a.okeys[k]; !ok {
			return nil
		}
	}
	pa, pb := resMap(a), resMap(b)
	for k, v := range pa {
		w := pb[k]
		if w == v || w != nil && w.Kind == v.Kind && v.Kind != 0 && (v.Kind == 2 || types.Identical(v.T, w.T) && e.sameVal(v.V, w.V)) {
			n.res.m[k] = v
			continue
		}
		if holdsPtr(v.V) || w != nil && holdsPtr(w.V) {
			return nil
		}
	}
	for k, w := range pb {
		if pa[k] == nil && holdsPtr(w.V) {
			return nil
		}
	}
	for k, v := range a.ghost {
		if w, ok := b.ghost[k]; ok && e.sameVal(v, w) {
			n.ghost[k] = v
		} else if len(k) < 5 || k[:5] != "memo:" {
			return nil
		}
	}
	for k := range b.ghost {
		if _, ok := a.ghost[k]; !ok && (len(k) < 5 || k[:5] != "memo:") {
			return nil
		}
	}
	for k := range a.flags {
		n.flags[k] = true
	}
	for k := range b.flags {
		n.flags[k] = true
	}
	// heap
	ha, hb := heapMap(a), heapMap(b)
	ids := make([]int, 0, len(ha))
	for id := range ha {
		ids = append(ids, id)
	}
	for id := range hb {
		if ha[id] == nil {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o, p := a.get(id), b.get(id)
		switch {
		case o == nil:
			n.heap.m[id] = p
		case p == nil:
			n.heap.m[id] = o
		default:
			n.heap.m[id] = m.obj(o, p)
		}
	}
	r = &Item{st: n, b: x.b, prev: x.prev, i: x.i, noPhi: x.noPhi, enter: x.enter, env: map[ssa.Value]Val{}, visits: x.visits, unroll: x.unroll, choices: x.choices, defers: x.defers}
	for v, p := range x.env {
		q, ok := y.env[v]
		if !ok || !fc.live(v, x.b) {
			continue
		}
		r.env[v] = m.val(p, q, v.Type())
	}
	if x.ret != nil || y.ret != nil {
		res := fc.fn.Signature.Results()
		var t types.Type = res
		if res.Len() == 1 {
			t = res.At(0).Type()
		}
		r.ret = m.val(x.ret, y.ret, t)
	}
	if x.phiVals != nil {
		r.phiVals = map[*ssa.Phi]Val{}
		for p, v := range x.phiVals {
			r.phiVals[p] = m.val(v, y.phiVals[p], p.Type())
		}
	}
	for _, t := range ra {
		n.addPC(e.tm.Or(e.tm.Not(sel), t))
	}
	for _, t := range rb {
		n.addPC(e.tm.Or(sel, t))
	}
	return r
}

func (e *Engine) mergeItems(fc *fctx, items []*Item) []*Item {
	if len(items) < 2 {
		return items
	}
	for _, it := range items {
		if it.phiVals == nil && it.i == 0 && !it.noPhi {
			it.phiVals = map[*ssa.Phi]Val{}
			for _, in := range it.b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, pr := range it.b.Preds {
					if pr == it.prev {
						it.phiVals[p] = e.ev(it, p.Edges[k])
						break
					}
				}
			}
		}
	}
	var res []*Item
	for _, it := range items {
		done := false
		for i, r := range res {
			if j := e.mergeTwo(fc, r, it); j != nil {
				res[i] = j
				done = true
				break
			}
		}
		if !done {
			res = append(res, it)
		}
	}
	return res
}

func sameVisits(a, b *Item) bool {
	for k, v := range a.visits {
		if b.visits[k] != v {
			return false
		}
	}
	for k, v := range b.visits {
		if a.visits[k] != v {
			return false
		}
	}
	return true
}

// exploreMerging is explore with the paths joined where they meet.
func (e *Engine) exploreMerging(fc *fctx, items []*Item, lp *Loop) (outs []Outcome, backs, exits []*Item) {
	work := append([]*Item{}, items...)
	ord := fc.rpo()
	for len(work) > 0 {
		best := 0
		for i, it := range work {
			if it.i > 0 || it.noPhi { // finish what is under way
				best = i
				break
			}
			if ord[it.b] < ord[work[best].b] {
				best = i
			}
		}
		it := work[best]
		group := []*Item{it}
		var rest []*Item
		for i, w := range work {
			if i == best {
				continue
			}
			if it.i == 0 && !it.noPhi && w.b == it.b && w.i == 0 && !w.noPhi && w.enter == it.enter && sameVisits(it, w) {
				group = append(group, w)
			} else {
				rest = append(rest, w)
			}
		}
		work = rest
		if len(group) > 1 {
			group = e.mergeItems(fc, group)
		}
		for _, g := range group {
			if g.enter != nil {
				l := g.enter
				g.enter = nil
				os, exs := e.cutLoop(fc, g, []*Item{g}, l)
				outs = append(outs, os...)
				for _, x := range exs {
					n, o, b, ex := e.arrive(fc, x, lp)
					work = append(work, n...)
					outs = append(outs, o...)
					backs = append(backs, b...)
					exits = append(exits, ex...)
				}
				continue
			}
			next, os, bk, ex := e.runItem(fc, g, lp)
			work = append(work, next...)
			outs = append(outs, os...)
			backs = append(backs, bk...)
			exits = append(exits, ex...)
		}
	}
	// what leaves the region, or goes round again, is joined as well
	backs = e.mergeGroups(fc, backs)
	exits = e.mergeGroups(fc, exits)
	return
}

func (e *Engine) mergeGroups(fc *fctx, items []*Item) []*Item {
	type key struct {
		b, p *ssa.BasicBlock
	}
	var order []key
	g := map[key][]*Item{}
	for _, it := range items {
		k := key{it.b, it.prev}
		if it.i != 0 || it.noPhi {
			return items
		}
		if _, ok := g[k]; !ok {
			order = append(order, k)
		}
		g[k] = append(g[k], it)
	}
	var res []*Item
	for _, k := range order {
		res = append(res, e.mergeItems(fc, g[k])...)
	}
	return res
}

// nilTerm says when an interface value is nil, or is nil if that is unknown.
func (e *Engine) nilTerm(st *State, q Val) *Term {
	switch z := e.viewIface(st, q).(type) {
	case *VIface:
		return e.tm.B(z.T == nil)
	case *VSymIface:
		return e.tm.Eq(e.tm.App(z.Name+"$dyn", 16, z.Idx...), e.tm.C(0, 16))
	}
	return nil
}

// mergeOuts joins the ways a call returns, keeping apart those that differ in
// which results are nil.
func (e *Engine) mergeOuts(fc *fctx, outs []Outcome) []Outcome {
	var res []Outcome
	var order []string
	g := map[string][]*Item{}
	for _, o := range outs {
		if o.kind != ORet {
			res = append(res, o)
			continue
		}
		k := ""
		vs := []Val{o.ret}
		if t, ok := o.ret.(*VTuple); ok {
			vs = t.E
		}
		for _, v := range vs {
			switch z := e.viewIface(o.st, v).(type) {
			case *VIface:
				if z.T == nil {
					k += "n"
				} else {
					k += "v"
				}
			case *VSymIface:
				k += "?"
			default:
				k += "-"
			}
		}
		if _, ok := g[k]; !ok {
			order = append(order, k)
		}
		g[k] = append(g[k], &Item{st: o.st, ret: o.ret})
	}
	for _, k := range order {
		var ms []*Item
		for _, it := range g[k] {
			done := false
			for i, r := range ms {
				if j := e.mergeTwo(fc, r, it); j != nil {
					ms[i] = j
					done = true
					break
				}
			}
			if !done {
				ms = append(ms, it)
			}
		}
		for _, it := range ms {
			res = append(res, Outcome{st: it.st, kind: ORet, ret: it.ret})
		}
	}
	return res
}
