package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopHint: an invariant supplied by a contract. Kind "buf": the content of
// buffer object Obj after k iterations is f(k). Kind "list": some slice the
// loop builds equals f(k).
type LoopHint struct {
	Kind string // buf, list, inv
	Obj  int
	F    *VFunc
	T    types.Type
	When *VFunc // the hint speaks only of states where this holds
	Read *VFunc // the buffer is what this leaves of f(k), its results (of
	// types RT) are the values the loop carries
	RT []types.Type
}

// at: does the hint speak of loops nested this deep
func (h *LoopHint) at(ks []*Term) bool { return len(h.F.Fn.Params) == len(ks)+1 }

func kargs(ks []*Term, k *Term) (r []Val) {
	for _, x := range ks {
		r = append(r, x)
	}
	return append(r, k)
}

type trip struct {
	phi *ssa.Phi
	N   *Term // number of iterations allowed by the exit test (64 bit)
}

// step of an induction phi, if all back edges add the same constant, or the
// same value that does not change in the loop and is a constant here
func induction(it *Item, p *ssa.Phi, l *Loop) (int64, bool) {
	if width(p.Type()) <= 0 || isFloat(p.Type()) {
		return 0, false
	}
	var c int64
	n := 0
	for i, pr := range p.Block().Preds {
		if !l.blocks[pr] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) || b.X != ssa.Value(p) {
			return 0, false
		}
		var v int64
		if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
			v = k.Int64()
		} else if t, ok := it.env[b.Y].(*Term); ok && t.isConst() && outside(b.Y, l) {
			v = sx(t.val, t.w)
		} else {
			return 0, false
		}
		if b.Op == token.SUB {
			v = -v
		}
		if n > 0 && v != c {
			return 0, false
		}
		c = v
		n++
	}
	return c, n > 0 && c != 0
}

// outside: v is computed before the loop.
func outside(v ssa.Value, l *Loop) bool {
	in, ok := v.(ssa.Instruction)
	return !ok || !l.blocks[in.Block()]
}

func (e *Engine) entryPhis(it *Item, l *Loop) map[*ssa.Phi]Val {
	if it.phiVals != nil {
		return it.phiVals
	}
	r := map[*ssa.Phi]Val{}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range l.head.Preds {
			if pr == it.prev {
				r[p] = e.ev(it, p.Edges[k])
				break
			}
		}
	}
	return r
}

// trips finds exit tests over induction variables and their iteration bounds.
func (e *Engine) trips(it *Item, l *Loop) []trip {
	entry := e.entryPhis(it, l)
	var res []trip
	tm := e.tm
	for b := range l.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		stay := 0
		if l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
			continue
		}
		if l.blocks[b.Succs[1]] {
			stay = 1
		}
		c, ok := x.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := c.Op
		if stay == 1 { // condition must be false to stay
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			default:
				continue
			}
		}
		X, Y := c.X, c.Y
		find := func(v ssa.Value) (*ssa.Phi, int64, bool) {
			d := int64(0)
			for {
				switch y := v.(type) {
				case *ssa.Phi:
					if y.Block() == l.head {
						return y, d, true
					}
					return nil, 0, false
				case *ssa.BinOp:
					k, ok := y.Y.(*ssa.Const)
					if !ok || k.Value == nil || width(y.Type()) <= 0 || (y.Op != token.ADD && y.Op != token.SUB) {
						return nil, 0, false
					}
					if y.Op == token.ADD {
						d += k.Int64()
					} else {
						d -= k.Int64()
					}
					v = y.X
				case *ssa.Convert:
					v = y.X
				default:
					return nil, 0, false
				}
			}
		}
		p, d, ok := find(X)
		if !ok {
			p, d, ok = find(Y)
			if !ok {
				continue
			}
			X, Y = Y, X
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		st, ok := induction(it, p, l)
		if !ok {
			continue
		}
		bound, ok := e.evalOutside(it, Y, l)
		if !ok {
			continue
		}
		iv, ok := entry[p].(*Term)
		if !ok {
			continue
		}
		B := e.asInt(bound, Y.Type())
		I := tm.Add(e.asInt(iv, p.Type()), tm.I(d))
		var N *Term
		zero := tm.I(0)
		switch {
		case st == 1 && op == token.LSS:
			N = tm.Ite(tm.Slt(I, B), tm.Sub(B, I), zero)
		case st == 1 && op == token.LEQ:
			N = tm.Ite(tm.Sle(I, B), tm.Add(tm.Sub(B, I), tm.I(1)), zero)
		case st == -1 && op == token.GTR:
			N = tm.Ite(tm.Slt(B, I), tm.Sub(I, B), zero)
		case st == -1 && op == token.GEQ:
			N = tm.Ite(tm.Sle(B, I), tm.Add(tm.Sub(I, B), tm.I(1)), zero)
		case st > 1 && (op == token.LSS || op == token.LEQ) && I.isConst() && B.isConst():
			N = tm.I(rounds(sx(I.val, 64), sx(B.val, 64), st, op == token.LEQ))
		case st < -1 && (op == token.GTR || op == token.GEQ) && I.isConst() && B.isConst():
			N = tm.I(rounds(-sx(I.val, 64), -sx(B.val, 64), -st, op == token.GEQ))
		case st > 1 && (op == token.LSS || op == token.LEQ):
			// an upper bound
			N = tm.Ite(tm.Sle(I, B), tm.Add(tm.Sub(B, I), tm.I(1)), zero)
		case op == token.NEQ && st == 1:
			N = tm.Sub(B, I)
		default:
			continue
		}
		if e.implied(it.st, tm.Slt(I, B)) && st == 1 && op == token.LSS {
			N = tm.Sub(B, I)
		} else if st == 1 && op == token.LSS && e.implied(it.st, tm.Sle(I, B)) {
			N = tm.Sub(B, I)
		}
		res = append(res, trip{p, N})
	}
	return res
}

// rounds: how many of i, i+st, ... are below b (or equal to it)
func rounds(i, b, st int64, eq bool) int64 {
	if eq {
		b++
	}
	if i >= b {
		return 0
	}
	return (b - i + st - 1) / st
}

// halves: the loop goes on while a number is left that every round makes
// smaller by shifting or dividing it.
func halves(l *Loop) bool {
	for b := range l.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]] {
			continue
		}
		c, ok := x.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		v := c.X
		for {
			y, ok := v.(*ssa.Convert)
			if !ok {
				break
			}
			v = y.X
		}
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != l.head {
			continue
		}
		bt, ok := p.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		n := 0
		for i, pr := range p.Block().Preds {
			if !l.blocks[pr] {
				continue
			}
			y, ok := p.Edges[i].(*ssa.BinOp)
			if !ok || y.X != ssa.Value(p) || y.Op != token.SHL && (bt.Info()&types.IsUnsigned == 0 || y.Op != token.SHR && y.Op != token.QUO) {
				n = -100
				continue
			}
			k, ok := y.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Int64() < 1 || y.Op == token.QUO && k.Int64() < 2 {
				n = -100
				continue
			}
			n++
		}
		if n > 0 {
			return true
		}
	}
	return false
}

func (e *Engine) evalOutside(it *Item, v ssa.Value, l *Loop) (Val, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		// a field of a fixed object: what it holds when the loop is entered
		if f, ok := x.X.(*ssa.FieldAddr); ok && e.peek && x.Op == token.MUL && l.blocks[x.Block()] {
			a, ok := e.evalOutside(it, f.X, l)
			if !ok {
				return nil, false
			}
			if p, ok := a.(*VPtr); ok && p.Obj != 0 {
				if o := it.st.get(p.Obj); o != nil && o.Cell != nil {
					if s, ok := e.loadPath(it.st, o.Cell, p.Path).(*VStruct); ok && f.Field < len(s.F) {
						t, ok := s.F[f.Field].(*Term)
						return t, ok
					}
				}
			}
			return nil, false
		}
	case *ssa.Const:
		return e.constVal(x), true
	case *ssa.Parameter, *ssa.FreeVar:
		return it.env[v], true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if !l.blocks[x.Block()] {
				r, ok := it.env[v]
				return r, ok
			}
			a, ok := e.evalOutside(it, x.Call.Args[0], l)
			if !ok {
				return nil, false
			}
			switch a.(type) {
			case *VSlice, *VStr:
				return e.builtin(it.st, "len", []Val{a}, x.Call.Args[0].Type(), x.Type()), true
			}
			return nil, false
		}
	case *ssa.Convert:
		if l.blocks[x.Block()] {
			a, ok := e.evalOutside(it, x.X, l)
			if !ok {
				return nil, false
			}
			if _, ok := a.(*Term); !ok {
				return nil, false
			}
			return e.convert(it.st, a, x.X.Type(), x.Type()), true
		}
	}
	if in, ok := v.(ssa.Instruction); ok && !l.blocks[in.Block()] {
		r, ok := it.env[v]
		return r, ok
	}
	return nil, false
}

func (e *Engine) decideUnroll(fc *fctx, it *Item, l *Loop) bool {
	most := int64(400)
	if e.bounded == 0 && e.hinted(it) {
		most = 16 // the contract has invariants for its loops
	}
	short := int64(16)
	if e.curC != nil && e.curC.Short > 0 {
		short = int64(e.curC.Short)
	}
	e.peek = true // only whether to unroll depends on it
	ts := e.trips(it, l)
	e.peek = false
	for _, t := range ts {
		if t.N.isConst() && sx(t.N.val, 64) <= most {
			return true
		}
		if e.implied(it.st, e.tm.Ule(t.N, e.tm.I(short))) {
			return true
		}
	}
	if halves(l) {
		return true
	}
	// a loop that waits for messages takes one round for each that comes
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if blocking(in) {
				return true
			}
		}
	}
	// a loop over a concrete map or string iterator
	for _, in := range l.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if p, ok := it.env[nx.Iter].(*VPtr); ok {
				o := it.st.get(p.Obj)
				if m, ok := o.Data["map"].(*VMap); ok && (m.Obj == 0 || it.st.get(m.Obj).Map.Sym == nil) {
					return true
				}
				if s, ok := o.Data["str"].(*VStr); ok {
					if n := e.seqLen(s.S); n.isConst() {
						return true
					}
				}
			}
		}
	}
	return false
}

type loopCfg struct {
	phiHavoc  map[*ssa.Phi]bool
	heap      map[string]bool    // "obj" or "obj/path" havocked
	bufMode   map[int]int        // 0 try hint/suffix, 1 prefix, 2 arbitrary
	bad       map[*LoopHint]bool // hints that do not hold here
	noPhiHint map[*ssa.Phi]map[*LoopHint]bool
	noTrip    bool
	errGoes   map[string]bool
	eager     map[*LoopHint][]string // what was generalised only for the hint
}

// drop: the hint does not hold here
func (c *loopCfg) drop(h *LoopHint) {
	c.bad[h] = true
	for _, k := range c.eager[h] {
		delete(c.heap, k)
	}
	delete(c.eager, h)
}

// cutLoop explores one round of a loop from a state that stands for all rounds
// of all the arrivals: it is an arrival, or what several have in common.
func (e *Engine) cutLoop(fc *fctx, it *Item, from []*Item, l *Loop) (outs []Outcome, exits []*Item) {
	tm := e.tm
	cfg := fc.cfgs[l]
	if cfg == nil {
		cfg = &loopCfg{phiHavoc: map[*ssa.Phi]bool{}, heap: map[string]bool{}, bufMode: map[int]int{}, bad: map[*LoopHint]bool{}, noPhiHint: map[*ssa.Phi]map[*LoopHint]bool{}, errGoes: map[string]bool{}, eager: map[*LoopHint][]string{}}
		if fc.cfgs == nil {
			fc.cfgs = map[*Loop]*loopCfg{}
		}
		fc.cfgs[l] = cfg // shared by every arrival at the loop within this activation
	}
	entry := e.entryPhis(it, l)
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	ks := it.st.ks
	e.trying++
	before := len(e.fails)
	defer func() {
		e.trying--
		bad := len(e.fails) > before
		for _, o := range outs {
			o.st.ks = ks
			bad = bad || o.kind == OPanic
		}
		if bad {
			e.failed()
		}
		for _, x := range exits {
			x.st.ks = ks
		}
	}()
	e.cutLoops[fmt.Sprintf("%s#%d", fc.fn.String(), l.head.Index)] = true
	for pass := 0; pass < 40; pass++ {
		nObl, nFail, nUn := len(e.obls), len(e.fails), len(e.undec)
		if os.Getenv("GOCV_DEBUG") == "loops" {
			fmt.Fprintf(os.Stderr, "loop %s#%d pass %d cfg %d/%d pc %d q %d\n", shortFn(fc.fn.String()), l.head.Index, pass, len(cfg.phiHavoc), len(cfg.heap), len(it.st.pc), e.sol.Queries)
			for p := range cfg.phiHavoc {
				fmt.Fprintf(os.Stderr, "  var %s\n", p.Comment)
			}
			for h := range cfg.heap {
				id, path := parseHeapKey(h)
				fmt.Fprintf(os.Stderr, "  cell %s %s\n", h, pathType2(it.st.get(id), path))
			}
			for h := range cfg.bad {
				fmt.Fprintf(os.Stderr, "  not %s %s\n", h.Kind, h.F.Fn)
			}
		}
		restart := false
		base := it.fork(it.st.clone())
		base.phiVals, base.enter = nil, nil
		st := base.st
		k := tm.Zext(tm.Fresh("k", 31), 64)
		st.setFlag("loop")
		// iteration bound
		var N *Term
		if !cfg.noTrip {
			for _, t := range e.trips(it, l) {
				if N == nil {
					N = t.N
				}
			}
			if N != nil {
				st.addPC(tm.Ule(k, N))
			}
		}
		st.ks = append(ks[:len(ks):len(ks)], k)
		phiHint := map[*ssa.Phi]*LoopHint{}
		for _, h := range e.loopHints {
			// what the contract says of a buffer is tried at once
			if h.Kind != "buf" || !h.at(ks) || cfg.bad[h] || it.st.get(h.Obj) == nil {
				continue
			}
			if key := fmt.Sprint(h.Obj); !cfg.heap[key] {
				cfg.heap[key] = true
				cfg.eager[h] = append(cfg.eager[h], key)
			}
			for _, c := range h.carried(it, l, phis) {
				if c.phi != nil {
					cfg.phiHavoc[c.phi] = true
				} else if key := fmt.Sprint(c.obj); c.obj != 0 && !cfg.heap[key] {
					cfg.heap[key] = true
					cfg.eager[h] = append(cfg.eager[h], key)
				}
			}
			break
		}
		for _, p := range phis {
			c, ind := induction(it, p, l)
			if ind {
				iv := entry[p].(*Term)
				w := iv.w
				var kk *Term
				if w == 64 {
					kk = k
				} else if w < 64 {
					kk = tm.Extract(k, 0, w)
				}
				base.env[p] = tm.Add(iv, tm.Mul(kk, tm.C(uint64(c), w)))
				continue
			}
			if !cfg.phiHavoc[p] {
				base.env[p] = entry[p]
				continue
			}
			{
				done := false
				for _, h := range e.loopHints {
					if h.Kind == "list" && h.When == nil && h.at(ks) && !cfg.noPhiHint[p][h] && types.Identical(h.T, p.Type()) {
						v, ok := e.hintVal(st, h, ks, k)
						if ok {
							base.env[p] = v
							phiHint[p] = h
							done = true
							break
						}
					}
				}
				if done {
					continue
				}
			}
			v, err := e.havocVal(st, p.Type(), "phi:"+p.Comment, entry[p])
			if err != "" {
				return []Outcome{{st: it.st, kind: OUnsup, msg: "loop in " + fc.fn.String() + ": " + err, fn: fc.fn.String()}}, nil
			}
			base.env[p] = v
			st.setFlag("imprecise")
		}
		// heap
		hintUsed := map[int]*LoopHint{}
		errStays := map[string]*Term{}
		for key := range cfg.heap {
			id, path := parseHeapKey(key)
			o := st.get(id)
			if o == nil {
				continue
			}
			n := *o
			switch {
			case o.Buf != nil:
				b := *o.Buf
				b.CanUnread = false
				b.Last = nil
				done := false
				{
					for _, h := range e.loopHints {
						if !h.at(ks) || cfg.bad[h] {
							continue
						}
						if h.Kind == "buf" && h.Obj == id && (h.When != nil || h.Read != nil) {
							// given to the states where it holds below
							hintUsed[id] = h
							b.S = e.holeSeq(types.Typ[types.Uint8], "buf")
							st.setFlag("imprecise")
							done = true
							break
						}
						if h.Kind == "buf" && h.Obj == id {
							if v, ok := e.hintVal(st, h, ks, k); ok {
								b.S = e.seqOf(st, v)
								hintUsed[id] = h
								done = true
								break
							}
						}
					}
				}
				if !done {
					st.setFlag("imprecise")
					switch cfg.bufMode[id] {
					case 0:
						if len(o.Buf.S.segs) == 1 && o.Buf.S.segs[0].k == SSlice {
							s := o.Buf.S.segs[0]
							rem := tm.Zext(tm.Fresh("rem", 31), 64)
							st.addPC(tm.Ule(rem, s.ln))
							s.off = tm.Add(s.off, tm.Sub(s.ln, rem))
							s.ln = rem
							b.S = &Seq{segs: []Seg{s}}
						} else if len(o.Buf.S.segs) == 0 {
							b.S = &Seq{}
						} else {
							cfg.bufMode[id] = 2
							b.S = e.holeSeq(types.Typ[types.Uint8], "buf")
						}
					case 1:
						b.S = e.cat(o.Buf.S, e.holeSeq(types.Typ[types.Uint8], "buf"))
					default:
						b.S = e.holeSeq(types.Typ[types.Uint8], "buf")
					}
				}
				n.Buf = &b
			case o.Arr != nil:
				st.setFlag("imprecise")
				ln := e.seqLen(o.Arr)
				h := e.holeSeq(o.T, "arr")
				h.segs[0].ln = ln
				n.Arr = h
			case o.Cell != nil && o.Map == nil && o.Chan == nil:
				ent := e.loadPath(st, o.Cell, path)
				t := pathType(o.T, path)
				listDone := false
				if _, isSl := t.Underlying().(*types.Slice); isSl {
					for _, h := range e.loopHints {
						if h.Kind != "list" || !h.at(ks) || cfg.bad[h] || !types.Identical(h.T, t) {
							continue
						}
						if h.When != nil {
							v, err := e.havocVal(st, t, "cell", ent)
							if err != "" {
								continue
							}
							st.setFlag("imprecise")
							n.Cell = e.storePath(st, o.Cell, path, v)
							hintUsed[-id] = h
							listDone = true
							break
						}
						if v, ok := e.hintVal(st, h, ks, k); ok {
							n.Cell = e.storePath(st, o.Cell, path, v)
							hintUsed[-id] = h
							listDone = true
							break
						}
					}
				}
				if !listDone {
					v, err := e.havocVal(st, t, "cell", ent)
					if err != "" {
						return []Outcome{{st: it.st, kind: OUnsup, msg: "loop in " + fc.fn.String() + ": " + err, fn: fc.fn.String()}}, nil
					}
					n.Cell = e.storePath(st, o.Cell, path, v)
					if !isErrorType(t) {
						st.setFlag("imprecise")
					} else if !cfg.errGoes[key] {
						// an error noted before the loop stays
						if p, q := e.nilTerm(it.st, ent), e.nilTerm(st, v); p != nil && q != nil {
							st.addPC(tm.Or(p, tm.Not(q)))
							errStays[key] = p
						}
					}
				}
			case o.Map != nil:
				st.setFlag("imprecise")
				m := *o.Map
				m.Sym = &VSymMap{Name: tm.FreshName("loopmap")}
				m.Ents = nil
				n.Map = &m
			case o.Chan != nil:
				c := *o.Chan
				c.Q = nil
				c.Sym = tm.FreshName("loopchan")
				n.Chan = &c
			default:
				return []Outcome{{st: it.st, kind: OUnsup, msg: "loop changes an object that cannot be generalised", fn: fc.fn.String()}}, nil
			}
			st.put(id, &n)
		}
		base.b, base.prev, base.i = l.head, it.prev, len(phis)
		base.noPhi = true
		hphi := map[*ssa.Phi]Val{}
		for _, p := range phis {
			hphi[p] = base.env[p]
		}
		k1 := tm.Add(k, tm.I(1))
		// what the contract says holds at the head of the loop
		variants := []*Item{base}
		if len(e.loopHints) > 0 {
			variants, restart = e.headStates(cfg, it, l, base, hintUsed, phis, phiHint, ks, k)
		}
		if restart {
			e.obls, e.fails, e.undec = e.obls[:nObl], e.fails[:nFail], e.undec[:nUn]
			fc.forgetInner(l)
			continue
		}
		var o []Outcome
		var ex []*Item
		for _, vr := range variants {
			if restart {
				break
			}
			hst := vr.st.clone() // header state kept for comparison
			ov, backs, exv := e.explore(fc, []*Item{vr}, l)
			o = append(o, ov...)
			ex = append(ex, exv...)
			// examine the back edges
			for _, bk := range backs {
				bst := bk.st
				// phis
				bphi := map[*ssa.Phi]Val{}
				for _, p := range phis {
					if _, ind := induction(it, p, l); ind {
						continue
					}
					var nv Val
					if bk.phiVals != nil {
						nv = bk.phiVals[p]
					}
					for i, pr := range l.head.Preds {
						if pr == bk.prev && bk.phiVals == nil {
							nv = e.ev(bk, p.Edges[i])
						}
					}
					bphi[p] = nv
					if !cfg.phiHavoc[p] {
						if !e.provEq(bst, nv, hphi[p]) {
							cfg.phiHavoc[p] = true
							restart = true
						}
						continue
					}
					if h := phiHint[p]; h != nil {
						if !e.checkHint(bst, h, ks, k1, nv) {
							cfg.notPhi(p, h)
							restart = true
						}
					}
				}
				for id, h := range hintUsed {
					if h.Read != nil && !restart && !e.checkReads(it, l, bst, h, phis, phiHint, ks, k1, bphi) {
						_ = id
						cfg.drop(h)
						restart = true
					}
				}
				// heap
				seen := map[int]bool{}
				for ly := bst.heap; ly != nil; ly = ly.up {
					for id, bo := range ly.m {
						if seen[id] {
							continue
						}
						seen[id] = true
						ho := hst.get(id)
						if ho == nil || ho == bo {
							continue
						}
						if bo.Buf != nil {
							key := fmt.Sprint(id)
							if e.seqKey(ho.Buf.S) == e.seqKey(bo.Buf.S) {
								continue
							}
							if !cfg.heap[key] {
								cfg.heap[key] = true
								restart = true
								continue
							}
							if h := hintUsed[id]; h != nil {
								if h.Read == nil && !e.checkHint(bst, h, ks, k1, &Seq{segs: bo.Buf.S.segs}) {
									cfg.drop(h)
									restart = true
								}
								continue
							}
							eo := it.st.get(id)
							switch cfg.bufMode[id] {
							case 0:
								if !e.isSuffix(bst, bo.Buf.S, ho.Buf.S) {
									cfg.bufMode[id] = 1
									restart = true
								}
							case 1:
								if !e.hasPrefix(bst, bo.Buf.S, eo.Buf.S) {
									cfg.bufMode[id] = 2
									restart = true
								}
							}
							continue
						}
						for _, d := range e.diffObj(bst, id, ho, bo) {
							if !cfg.heap[d] {
								// covered by a shorter havocked path?
								cov := false
								for kx := range cfg.heap {
									if d == kx || strings.HasPrefix(d, kx+"/") {
										cov = true
									}
								}
								if !cov {
									cfg.heap[d] = true
									restart = true
								}
							}
						}
						if h := hintUsed[-id]; h != nil {
							// list cell
							for kx := range cfg.heap {
								i2, path := parseHeapKey(kx)
								if i2 == id {
									if !e.checkHint(bst, h, ks, k1, e.loadPath(bst, bo.Cell, path)) {
										cfg.drop(h)
										restart = true
									}
								}
							}
						}
					}
				}
				for key, p := range errStays {
					id, path := parseHeapKey(key)
					if o := bst.get(id); o != nil && o.Cell != nil {
						if q := e.nilTerm(bst, e.loadPath(bst, o.Cell, path)); q != nil && e.implied(bst, tm.Or(p, tm.Not(q))) {
							continue
						}
					}
					cfg.errGoes[key] = true
					restart = true
				}
				if N != nil && !restart {
					if !e.implied(bst, tm.Ule(k1, N)) {
						cfg.noTrip = true
						restart = true
					}
				}
				if restart {
					break
				}
			}
			for _, h := range e.loopHints {
				if h.Kind != "inv" || cfg.bad[h] || restart || !h.at(ks) {
					continue
				}
				for _, bk := range backs {
					if !e.checkInv(bk.st, h, ks, k1) {
						cfg.drop(h)
						restart = true
						break
					}
				}
			}
			if e.term && !restart {
				e.checkVariant(fc, l, hst, backs, k1, N)
			}
		}
		// hints must hold on entry
		if !restart {
			for _, at := range from {
				if restart {
					break
				}
				for _, h := range e.loopHints {
					if h.Kind == "inv" && h.at(ks) && !cfg.bad[h] && !e.checkInv(at.st, h, ks, tm.I(0)) {
						cfg.drop(h)
						restart = true
					}
				}
				for id, h := range hintUsed {
					if h.Read != nil {
						if !e.checkReads(at, l, at.st, h, phis, phiHint, ks, tm.I(0), e.entryPhis(at, l)) {
							cfg.drop(h)
							restart = true
						}
					} else if id > 0 {
						if !e.checkHint(at.st.clone(), h, ks, tm.I(0), at.st.get(id).Buf.S) {
							cfg.drop(h)
							restart = true
						}
					} else {
						for kx := range cfg.heap {
							i2, path := parseHeapKey(kx)
							if i2 == -id {
								if !e.checkHint(at.st.clone(), h, ks, tm.I(0), e.loadPath(at.st, at.st.get(-id).Cell, path)) {
									cfg.drop(h)
									restart = true
								}
							}
						}
					}
				}
				for p, h := range phiHint {
					if !e.checkHint(at.st.clone(), h, ks, tm.I(0), e.entryPhis(at, l)[p]) {
						cfg.notPhi(p, h)
						restart = true
					}
				}
			}
		}
		if restart {
			e.obls, e.fails, e.undec = e.obls[:nObl], e.fails[:nFail], e.undec[:nUn]
			fc.forgetInner(l)
			continue
		}
		return o, ex
	}
	return []Outcome{{st: it.st, kind: OUnsup, msg: "no loop invariant found in " + fc.fn.String(), fn: fc.fn.String()}}, nil
}

// checkVariant: the loop ends because, on every way back to its head, the
// iteration count stays within the bound of its exit test, or a buffer becomes
// shorter, or an error that was not there is noted (and stays).
func (e *Engine) checkVariant(fc *fctx, l *Loop, hst *State, backs []*Item, k1, N *Term) {
	label := fmt.Sprintf("loop terminates in %s", shortFn(fc.fn.String()))
	if os.Getenv("GOCV_DEBUG") == "loops" {
		label += fmt.Sprint("#", l.head.Index)
	}
	tm := e.tm
	type cand struct{ buf, obj, fld int }
	var open []*State
	for _, b := range backs {
		if N != nil && e.implied(b.st, tm.Ule(k1, N)) {
			continue
		}
		open = append(open, b.st)
	}
	if N != nil && len(open) == 0 {
		for range backs {
			e.countObl(label, "z3-new")
		}
		return
	}
	open = open[:0]
	for _, b := range backs {
		open = append(open, b.st)
	}
	if len(open) == 0 {
		return
	}
	bufs := map[int]bool{}
	errs := map[[2]int]bool{}
	for _, st := range open {
		seen := map[int]bool{}
		for ly := st.heap; ly != nil; ly = ly.up {
			for id, bo := range ly.m {
				if seen[id] {
					continue
				}
				seen[id] = true
				ho := hst.get(id)
				if ho == nil || ho == bo {
					continue
				}
				if bo.Buf != nil && ho.Buf != nil {
					bufs[id] = true
				}
				if s, ok := bo.Cell.(*VStruct); ok && bo.T != nil {
					if t, ok := bo.T.Underlying().(*types.Struct); ok {
						for i := range s.F {
							if isErrorType(t.Field(i).Type()) {
								errs[[2]int{id, i}] = true
							}
						}
					}
				}
			}
		}
	}
	less := func(st *State, id int) *Term {
		bo, ho := st.get(id), hst.get(id)
		if bo == nil || ho == nil || bo.Buf == nil {
			return tm.F
		}
		return tm.Ult(e.seqLen(bo.Buf.S), e.seqLen(ho.Buf.S))
	}
	var cs []cand
	for id := range bufs {
		cs = append(cs, cand{id, 0, 0})
		for k := range errs {
			cs = append(cs, cand{id, k[0], k[1]})
		}
	}
	sort.Slice(cs, func(i, j int) bool {
		a, b := cs[i], cs[j]
		if (a.obj == 0) != (b.obj == 0) {
			return a.obj == 0
		}
		return a.buf < b.buf || a.buf == b.buf && (a.obj < b.obj || a.obj == b.obj && a.fld < b.fld)
	})
	for _, c := range cs {
		all := true
		for _, st := range open {
			goal := less(st, c.buf)
			if c.obj != 0 {
				get := func(s *State) *Term {
					if o := s.get(c.obj); o != nil {
						if x, ok := o.Cell.(*VStruct); ok && c.fld < len(x.F) {
							return e.nilTerm(st, x.F[c.fld])
						}
					}
					return nil
				}
				p, q := get(hst), get(st)
				if p == nil || q == nil {
					all = false
					break
				}
				// noted now, or (not forgotten and shorter)
				goal = tm.Or(tm.And(p, tm.Not(q)), tm.And(tm.Or(p, tm.Not(q)), goal))
			}
			if !e.implied(st, goal) {
				all = false
				break
			}
		}
		if all {
			for range open {
				e.countObl(label, "z3-new")
			}
			return
		}
	}
	if e.quiet == 0 {
		e.obls = append(e.obls, &Obl{Where: e.cur, Label: label, Fail: true})
		e.fails = append(e.fails, &Failure{Where: e.cur, Label: label, St: open[0], Neg: e.tm.T, Imprec: true, Fn: fc.fn.String()})
	}
}

func (e *Engine) holeSeq(el types.Type, p string) *Seq {
	n := e.tm.FreshName("hole:" + p)
	return &Seq{segs: []Seg{{k: SSlice, base: &Base{Name: n, Elem: el, Hole: true}, off: e.tm.I(0), ln: e.lenTerm(n+"$len", nil)}}}
}

func (e *Engine) havocVal(st *State, t types.Type, p string, entry Val) (Val, string) {
	switch t.Underlying().(type) {
	case *types.Pointer:
		return nil, "pointer changed in a loop"
	case *types.Map, *types.Chan, *types.Signature:
		return nil, "reference changed in a loop"
	case *types.Slice:
		el := t.Underlying().(*types.Slice).Elem()
		q := e.holeSeq(el, p)
		return e.newSlice(st, el, q), ""
	}
	var v Val
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(*Unsup); ok {
					msg = u.msg
					return
				}
				panic(r)
			}
		}()
		v = e.mat(st, t, e.tm.FreshName(p), nil)
	}()
	return v, msg
}

func parseHeapKey(k string) (int, []Sel) {
	parts := strings.Split(k, "/")
	var id int
	fmt.Sscan(parts[0], &id)
	var path []Sel
	for _, p := range parts[1:] {
		var f int
		fmt.Sscan(p, &f)
		path = append(path, Sel{Field: f})
	}
	return id, path
}

func pathType2(o *Obj, path []Sel) string {
	if o == nil || o.Cell == nil {
		return "?"
	}
	return fmt.Sprint(pathType(o.T, path))
}

func pathType(t types.Type, path []Sel) types.Type {
	for _, s := range path {
		t = t.Underlying().(*types.Struct).Field(s.Field).Type()
	}
	return t
}

func (e *Engine) diffObj(st *State, id int, a, b *Obj) []string {
	key := fmt.Sprint(id)
	if a.Arr != nil && b.Arr != nil {
		if e.seqKey(a.Arr) == e.seqKey(b.Arr) {
			return nil
		}
		return []string{key}
	}
	if a.Map != nil || a.Chan != nil {
		return []string{key}
	}
	var res []string
	var rec func(x, y Val, k string)
	rec = func(x, y Val, k string) {
		if e.provEq(st, x, y) {
			return
		}
		sx, ok1 := x.(*VStruct)
		sy, ok2 := y.(*VStruct)
		if ok1 && ok2 {
			for i := range sx.F {
				rec(sx.F[i], sy.F[i], fmt.Sprintf("%s/%d", k, i))
			}
			return
		}
		res = append(res, k)
	}
	rec(a.Cell, b.Cell, key)
	return res
}

// provEq: are the two values provably equal on this path (no forking)
func (e *Engine) provEq(st *State, a, b Val) bool {
	if e.sameVal(a, b) {
		return true
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if ok1 && ok2 && x.w == y.w {
		return e.implied(st, e.tm.Eq(x, y))
	}
	if p, ok := a.(*VStruct); ok {
		q := b.(*VStruct)
		for i := range p.F {
			if !e.provEq(st, p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	}
	av, bv := e.viewIface(st, a), e.viewIface(st, b)
	if p, ok := av.(*VIface); ok {
		if q, ok := bv.(*VIface); ok {
			if p.T == nil && q.T == nil {
				return true
			}
			if p.T != nil && q.T != nil && types.Identical(p.T, q.T) {
				return e.provEq(st, p.V, q.V)
			}
		}
	}
	if p, ok := a.(*ErrVal); ok {
		q, ok := b.(*ErrVal)
		return ok && p.Id == q.Id && p.Format == q.Format
	}
	return false
}

// hintVal evaluates f(k) on a state (must not fork)
func (e *Engine) hintVal(st *State, h *LoopHint, ks []*Term, k *Term) (Val, bool) {
	outs := e.callPure(st, h.F.Fn, kargs(ks, k), h.F.Bind)
	var live []Outcome
	for _, o := range outs {
		if o.kind != OKill {
			live = append(live, o)
		}
	}
	if len(live) == 1 && live[0].kind == ORet && live[0].st != st {
		// the only way on from st
		*st = *live[0].st
		return live[0].ret, true
	}
	if len(outs) != 1 || outs[0].kind != ORet {
		if debugHint {
			for _, o := range outs {
				fmt.Printf("hint %s has no value: %v %s %v\n", h.F.Fn, o.kind, o.msg, o.st.pc[len(o.st.pc)-1])
			}
		}
		return nil, false
	}
	return outs[0].ret, true
}

// checkHint proves that v equals f(k) on every continuation of st
func (e *Engine) checkHint(st *State, h *LoopHint, ks []*Term, k *Term, v Val) bool {
	if h.When != nil {
		for _, o := range e.callPure(st.clone(), h.When.Fn, nil, h.When.Bind) {
			if o.kind == OKill {
				continue
			}
			if o.kind != ORet {
				return false
			}
			g := o.ret.(*Term)
			if e.implied(o.st, e.tm.Not(g)) {
				continue
			}
			o.st.addPC(g)
			h2 := *h
			h2.When = nil
			if !e.checkHint(o.st, &h2, ks, k, v) {
				return false
			}
		}
		return true
	}
	s2 := st.clone()
	for _, o := range e.callPure(s2, h.F.Fn, kargs(ks, k), h.F.Bind) {
		if o.kind == OKill {
			continue
		}
		if o.kind != ORet {
			return false
		}
		want := o.ret
		res := e.forking(nil, o.st, func(st *State) Val {
			t, ok := e.matchSeq(st, e.seqOf(st, v), e.seqOf(st, want), mProof)
			if !ok {
				return e.tm.F
			}
			return t
		})
		for _, r := range res {
			if r.kind == OKill {
				continue
			}
			if r.kind != ORet {
				return false
			}
			if !e.implied(r.st, r.ret.(*Term)) {
				if debugHint {
					fmt.Printf("hint %s fails: %s\n  have %s\n  want %s\n", h.F.Fn, r.ret.(*Term), e.seqStr(e.seqOf(r.st, v)), e.seqStr(e.seqOf(r.st, want)))
				}
				return false
			}
		}
	}
	return true
}

var debugHint = os.Getenv("GOCV_DEBUG") == "hints"

func (e *Engine) isSuffix(st *State, a, b *Seq) bool {
	if len(a.segs) == 0 {
		return true
	}
	if len(a.segs) != 1 || len(b.segs) != 1 {
		return false
	}
	x, y := a.segs[0], b.segs[0]
	if x.k != SSlice || y.k != SSlice || x.base.key() != y.base.key() {
		return false
	}
	tm := e.tm
	return e.implied(st, tm.Eq(tm.Add(x.off, x.ln), tm.Add(y.off, y.ln))) && e.implied(st, tm.Ule(x.ln, y.ln))
}

func (e *Engine) hasPrefix(st *State, a, p *Seq) bool {
	if len(p.segs) > len(a.segs) {
		return false
	}
	for i, s := range p.segs {
		if e.seqKey(&Seq{segs: []Seg{s}}) == e.seqKey(&Seq{segs: []Seg{a.segs[i]}}) {
			continue
		}
		if i == len(p.segs)-1 && s.k == SElems && a.segs[i].k == SElems && len(a.segs[i].elems) >= len(s.elems) {
			for j := range s.elems {
				if !e.sameVal(s.elems[j], a.segs[i].elems[j]) {
					return false
				}
			}
			continue
		}
		return false
	}
	return true
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, "github.com/NubeDev/bacnet", "bacnet")
}

// checkInv proves that the invariant h holds of k on every continuation of st
func (e *Engine) checkInv(st *State, h *LoopHint, ks []*Term, k *Term) bool {
	for _, o := range e.callPure(st.clone(), h.F.Fn, kargs(ks, k), h.F.Bind) {
		if o.kind == OKill {
			continue
		}
		if o.kind != ORet || !e.implied(o.st, o.ret.(*Term)) {
			if debugHint {
				fmt.Printf("invariant %s fails: %v %v %s\n", h.F.Fn, o.kind, o.ret, o.msg)
			}
			return false
		}
	}
	return true
}

// headStates splits the state at a loop head by what the contract's
// invariants say of it after k rounds.
func (e *Engine) headStates(cfg *loopCfg, entry *Item, l *Loop, base *Item, used map[int]*LoopHint, phis []*ssa.Phi, phiHint map[*ssa.Phi]*LoopHint, ks []*Term, k *Term) (res []*Item, restart bool) {
	tm := e.tm
	res = []*Item{base}
	split := func(f *VFunc, args []Val, each func(o Outcome, it *Item)) bool {
		var next []*Item
		for _, v := range res {
			for _, o := range e.callPure(v.st.clone(), f.Fn, args, f.Bind) {
				if o.kind == OKill {
					continue
				}
				if o.kind != ORet {
					return false
				}
				g := o.ret.(*Term)
				for side := 0; side < 2; side++ {
					c := g
					if side == 1 {
						if each == nil {
							break
						}
						c = tm.Not(g)
					}
					if e.implied(o.st, tm.Not(c)) {
						continue
					}
					n := v.fork(o.st.clone())
					n.noPhi, n.phiVals, n.enter = v.noPhi, v.phiVals, v.enter
					n.st.addPC(c)
					if each != nil && side == 0 {
						each(o, n)
					}
					next = append(next, n)
				}
			}
		}
		res = next
		return true
	}
	for _, h := range e.loopHints {
		if h.Kind == "inv" && !cfg.bad[h] && h.at(ks) {
			if !split(h.F, kargs(ks, k), nil) {
				cfg.drop(h)
				return nil, true
			}
		}
	}
	for id, h := range used {
		if h.When == nil {
			continue
		}
		ok := true
		if !split(h.When, nil, func(o Outcome, it *Item) {
			v, good := e.hintVal(it.st, h, ks, k)
			if !good {
				ok = false
				return
			}
			if id > 0 {
				ob := *it.st.get(id)
				b := *ob.Buf
				b.S = e.seqOf(it.st, v)
				ob.Buf = &b
				it.st.put(id, &ob)
				return
			}
			for kx := range cfg.heap {
				if i2, path := parseHeapKey(kx); i2 == -id {
					ob := *it.st.get(i2)
					ob.Cell = e.storePath(it.st, ob.Cell, path, v)
					it.st.put(i2, &ob)
				}
			}
		}) || !ok {
			cfg.drop(h)
			return nil, true
		}
	}
	for id, h := range used {
		if h.Read == nil {
			continue
		}
		var next []*Item
		for _, v := range res {
			outs, ok := e.readAhead(v.st, id, h, ks, k)
			if !ok {
				cfg.drop(h)
				return nil, true
			}
			for _, o := range outs {
				n := v.fork(o.st)
				n.noPhi, n.phiVals, n.enter = v.noPhi, v.phiVals, v.enter
				for i, c := range h.carried(entry, l, phis) {
					if c.phi != nil && phiHint[c.phi] == nil {
						n.env[c.phi] = readVal(o.ret, i)
					} else if c.obj != 0 {
						ob := *n.st.get(c.obj)
						ob.Cell = readVal(o.ret, i)
						n.st.put(c.obj, &ob)
					}
				}
				next = append(next, n)
			}
		}
		res = next
	}
	return res, false
}

func readVal(v Val, i int) Val {
	if t, ok := v.(*VTuple); ok {
		return t.E[i]
	}
	return v
}

func (c *loopCfg) notPhi(p *ssa.Phi, h *LoopHint) {
	if c.noPhiHint[p] == nil {
		c.noPhiHint[p] = map[*LoopHint]bool{}
	}
	c.noPhiHint[p][h] = true
}

type carrier struct {
	phi *ssa.Phi
	obj int
}

// carried: the loop variables that hold the results of h.Read, found by type
func (h *LoopHint) carried(it *Item, l *Loop, phis []*ssa.Phi) []carrier {
	r := make([]carrier, len(h.RT))
	taken := map[interface{}]bool{}
next:
	for i, t := range h.RT {
		for _, p := range phis {
			if _, ind := induction(it, p, l); !ind && !taken[p] && types.Identical(p.Type(), t) {
				r[i].phi, taken[p] = p, true
				continue next
			}
		}
		for _, b := range l.head.Parent().Blocks {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Store)
				if !ok || !types.Identical(x.Val.Type(), t) {
					continue
				}
				if a, ok := x.Addr.(*ssa.Alloc); ok && !l.blocks[a.Block()] && !taken[a] {
					if p, ok := it.env[a].(*VPtr); ok && len(p.Path) == 0 {
						r[i].obj, taken[a] = p.Obj, true
						continue next
					}
				}
			}
		}
	}
	return r
}

// readAhead: the states reached when h.Read is run with f(k) in the buffer. It
// may change nothing else.
func (e *Engine) readAhead(st *State, id int, h *LoopHint, ks []*Term, k *Term) ([]Outcome, bool) {
	s2 := st.clone()
	v, ok := e.hintVal(s2, h, ks, k)
	if !ok {
		return nil, false
	}
	ob := *s2.get(id)
	b := *ob.Buf
	b.S = e.seqOf(s2, v)
	b.CanUnread, b.Last = false, nil
	ob.Buf = &b
	s2.put(id, &ob)
	var res []Outcome
	for _, o := range e.callPure(s2, h.Read.Fn, nil, h.Read.Bind) {
		if o.kind == OKill {
			continue
		}
		if o.kind != ORet {
			if debugHint {
				fmt.Printf("reading ahead %s fails: %v %s\n", h.F.Fn, o.kind, o.msg)
			}
			return nil, false
		}
		seen := map[int]bool{id: true}
		for ly := o.st.heap; ly != nil; ly = ly.up {
			for x, bo := range ly.m {
				if seen[x] {
					continue
				}
				seen[x] = true
				if ho := st.get(x); ho != nil && ho != bo && len(e.diffObj(o.st, x, ho, bo)) > 0 {
					if debugHint {
						fmt.Printf("reading ahead %s changes something else\n", h.F.Fn)
					}
					return nil, false
				}
			}
		}
		res = append(res, o)
	}
	return res, true
}

// checkReads proves that on st the buffer and the variables carried are what
// reading ahead from f(k) makes them.
func (e *Engine) checkReads(it *Item, l *Loop, st *State, h *LoopHint, phis []*ssa.Phi, phiHint map[*ssa.Phi]*LoopHint, ks []*Term, k *Term, vals map[*ssa.Phi]Val) bool {
	outs, ok := e.readAhead(st.clone(), h.Obj, h, ks, k)
	if !ok {
		return false
	}
	have := st.get(h.Obj).Buf.S
	for _, o := range outs {
		for i, c := range h.carried(it, l, phis) {
			var v Val
			switch {
			case c.phi != nil && phiHint[c.phi] == nil:
				v = vals[c.phi]
			case c.obj != 0:
				v = st.get(c.obj).Cell
			default:
				continue
			}
			if !e.provEq(o.st, readVal(o.ret, i), v) {
				if debugHint {
					fmt.Printf("reading ahead %s: result %d differs: %v %v\n", h.F.Fn, i, readVal(o.ret, i), v)
				}
				return false
			}
		}
		want := o.st.get(h.Obj).Buf.S
		for _, r := range e.forking(nil, o.st, func(st *State) Val {
			t, ok := e.matchSeq(st, have, want, mProof)
			if !ok {
				return e.tm.F
			}
			return t
		}) {
			if r.kind == OKill {
				continue
			}
			if r.kind != ORet || !e.implied(r.st, r.ret.(*Term)) {
				if debugHint {
					fmt.Printf("reading ahead %s: buffer differs\n  have %s\n  want %s\n", h.F.Fn, e.seqStr(have), e.seqStr(want))
				}
				return false
			}
		}
	}
	return true
}

// forgetInner: what was found out about the loops inside l was found out with
// a state at the head of l that is not the final one.
func (fc *fctx) forgetInner(l *Loop) {
	for x := range fc.cfgs {
		if x != l && l.blocks[x.head] {
			delete(fc.cfgs, x)
		}
	}
}

// hinted: does the contract say something of a buffer in loops as deep as this
func (e *Engine) hinted(it *Item) bool {
	for _, h := range e.loopHints {
		if h.Kind == "buf" && h.at(it.st.ks) {
			return true
		}
	}
	return false
}

type arrival struct {
	joined *Item
	from   []*Item
}

// joinArrivals groups arrivals at a loop that differ only in what the
// contract's invariants say anyway: the buffer, and what is read ahead of it.
func (e *Engine) joinArrivals(fc *fctx, l *Loop, items []*Item) (res []*arrival) {
	for _, it := range items {
		it.phiVals = e.entryPhis(it, l)
		done := false
		for _, a := range res {
			if j := e.joinTwo(fc, l, a.joined, it); j != nil {
				a.joined, a.from = j, append(a.from, it)
				done = true
				break
			}
		}
		if !done {
			res = append(res, &arrival{it, []*Item{it}})
		}
	}
	return
}

func (e *Engine) joinTwo(fc *fctx, l *Loop, x, y *Item) *Item {
	if len(x.defers) > 0 || len(y.defers) > 0 || len(x.st.ks) != len(y.st.ks) {
		return noJoin(1, "")
	}
	a, b := x.st, y.st
	for i := range a.ks {
		if a.ks[i] != b.ks[i] {
			return noJoin(2, "")
		}
	}
	bufs, cells, phs := map[int]bool{}, map[int]bool{}, map[*ssa.Phi]bool{}
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	for _, h := range e.loopHints {
		if h.Kind != "buf" || !h.at(a.ks) {
			continue
		}
		bufs[h.Obj] = true
		for _, c := range h.carried(x, l, phis) {
			if c.phi != nil {
				phs[c.phi] = true
			} else if c.obj != 0 {
				cells[c.obj] = true
			}
		}
	}
	n := newState()
	n.glob, n.trace, n.ks = a.glob, a.trace, a.ks
	inB := map[*Term]bool{}
	for _, t := range b.pc {
		inB[t] = true
	}
	for _, t := range a.pc {
		if inB[t] {
			n.addPC(t)
		}
	}
	for k, v := range a.known {
		if w, ok := b.known[k]; ok && w == v {
			n.known[k] = v
		}
	}
	drop := map[int]bool{}
	for k, id := range a.okeys {
		if j, ok := b.okeys[k]; ok && j == id {
			n.okeys[k] = id
		} else {
			drop[id] = true
		}
	}
	pa, pb := resMap(a), resMap(b)
	for k, v := range pa {
		if w := pb[k]; w == v || w != nil && w.Kind == v.Kind && v.Kind != 0 && (v.Kind == 2 || types.Identical(v.T, w.T) && e.sameVal(v.V, w.V)) {
			n.res.m[k] = v
		}
	}
	for k, v := range a.ghost {
		if strings.HasPrefix(k, "memo:") {
			continue
		}
		if w, ok := b.ghost[k]; ok && e.sameVal(v, w) {
			n.ghost[k] = v
		} else {
			return noJoin(3, "")
		}
	}
	for k := range b.ghost {
		if _, ok := a.ghost[k]; !ok && !strings.HasPrefix(k, "memo:") {
			return noJoin(4, "")
		}
	}
	for k := range a.flags {
		n.flags[k] = true
	}
	for k := range b.flags {
		n.flags[k] = true
	}
	ha, hb := heapMap(a), heapMap(b)
	var ids []int
	used := e.usedObjs(fc, x, ha)
	for id := range ha {
		if id < fc.obj0 || used[id] {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o, p := ha[id], hb[id]
		switch {
		case p == nil || drop[id]:
		case o == p:
			n.heap.m[id] = o
		case bufs[id] && o.Buf != nil && p.Buf != nil:
			q := *o
			q.Buf = &BufState{S: e.holeSeq(types.Typ[types.Uint8], "buf")}
			n.heap.m[id] = &q
		case cells[id]:
			v, msg := e.havocVal(n, o.T, "cell", o.Cell)
			if msg != "" {
				return noJoin(5, "")
			}
			q := *o
			q.Cell = v
			n.heap.m[id] = &q
		case o.Buf != nil && p.Buf != nil && e.seqKey(o.Buf.S) == e.seqKey(p.Buf.S):
			q := *o
			b := *o.Buf
			b.CanUnread, b.Last = false, nil
			q.Buf = &b
			n.heap.m[id] = &q
		case o.Arr != nil && p.Arr != nil && e.seqKey(o.Arr) == e.seqKey(p.Arr):
			n.heap.m[id] = o
		case o.Cell != nil && p.Cell != nil && o.Map == nil && o.Chan == nil && o.Data == nil && e.sameVal(o.Cell, p.Cell):
			n.heap.m[id] = o
		default:
			return noJoin(6, fmt.Sprint(id, o.T, " | ", o.Cell, " | ", p.Cell))
		}
	}
	r := &Item{st: n, b: x.b, prev: x.prev, i: x.i, noPhi: x.noPhi, env: map[ssa.Value]Val{}, visits: x.visits, unroll: x.unroll, choices: x.choices}
	for v, p := range x.env {
		q, ok := y.env[v]
		if !ok || !fc.liveIn(v, x.b) {
			continue
		}
		if !e.sameVal(p, q) {
			return noJoin(7, v.Name()+" "+v.String())
		}
		r.env[v] = p
	}
	r.phiVals = map[*ssa.Phi]Val{}
	for p, v := range x.phiVals {
		if e.sameVal(v, y.phiVals[p]) {
			r.phiVals[p] = v
		} else if !phs[p] {
			return noJoin(8, "")
		} else {
			w, msg := e.havocVal(n, p.Type(), "phi:"+p.Comment, v)
			if msg != "" {
				return noJoin(9, "")
			}
			r.phiVals[p] = w
		}
	}
	return r
}

func noJoin(why int, v string) *Item {
	if os.Getenv("GOCV_DEBUG") == "loops" {
		fmt.Fprintf(os.Stderr, "  arrivals apart: %d %s\n", why, v)
	}
	return nil
}

// usedObjs: the objects a path can still reach. What was there before this
// activation began counts as reachable.
func (e *Engine) usedObjs(fc *fctx, it *Item, h map[int]*Obj) map[int]bool {
	used := map[int]bool{}
	var walk func(v Val)
	var obj func(id int)
	seq := func(s *Seq) {
		for _, g := range s.segs {
			for _, x := range g.elems {
				walk(x)
			}
			for _, x := range g.args {
				walk(x)
			}
		}
	}
	all := func(vs []Val) {
		for _, v := range vs {
			walk(v)
		}
	}
	obj = func(id int) {
		if used[id] || id == 0 {
			return
		}
		used[id] = true
		o := h[id]
		if o == nil {
			return
		}
		walk(o.Cell)
		if o.Arr != nil {
			seq(o.Arr)
		}
		if o.Buf != nil {
			seq(o.Buf.S)
		}
		if o.Map != nil {
			for _, x := range o.Map.Ents {
				walk(x.K)
				walk(x.V)
			}
		}
		if o.Chan != nil {
			all(o.Chan.Q)
		}
		for _, v := range o.Data {
			walk(v)
		}
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case *VStruct:
			all(x.F)
		case *VArr:
			all(x.E)
		case *VTuple:
			all(x.E)
		case *VPtr:
			obj(x.Obj)
		case *VSlice:
			obj(x.Obj)
		case *VMap:
			obj(x.Obj)
		case *VChan:
			obj(x.Obj)
		case *VFunc:
			all(x.Bind)
		case *VIface:
			walk(x.V)
		case *ErrVal:
			all(x.Args)
		case *VStr:
			seq(x.S)
		case *SeqVal:
			seq(x.S)
		case nil, *Term, *VSymIface, *VSymPtr, *VOpaque:
		default:
			// may hold anything
			for id := range h {
				used[id] = true
			}
		}
	}
	for v, x := range it.env {
		if fc.liveIn(v, it.b) {
			walk(x)
		}
	}
	for _, x := range it.phiVals {
		walk(x)
	}
	all(fc.args)
	all(fc.binds)
	for k, v := range it.st.ghost {
		if !strings.HasPrefix(k, "memo:") {
			walk(v)
		}
	}
	for _, r := range resMap(it.st) {
		walk(r.V)
	}
	for _, id := range it.st.okeys {
		obj(id)
	}
	for id := range h {
		if id < fc.obj0 {
			obj(id)
		}
	}
	return used
}

// liveIn: may v, as it is on arrival at block b, still be used
func (fc *fctx) liveIn(v ssa.Value, b *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	rs := v.Referrers()
	if !ok || rs == nil {
		return true
	}
	d := in.Block()
	if d == b {
		return false
	}
	uses := map[*ssa.BasicBlock]bool{}
	for _, u := range *rs {
		if p, ok := u.(*ssa.Phi); ok {
			for i, e := range p.Edges {
				if e == v {
					uses[p.Block().Preds[i]] = true
				}
			}
			continue
		}
		uses[u.Block()] = true
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	w := []*ssa.BasicBlock{b}
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if uses[x] {
			return true
		}
		for _, s := range x.Succs {
			if s != d && !seen[s] {
				seen[s] = true
				w = append(w, s)
			}
		}
	}
	return false
}
