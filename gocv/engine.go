package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control exceptions -------------------------------------------------

type Fork struct {
	n      int
	apply  func(i int, st *State) // adds path conditions / resolutions
	choice bool
}
type Nested struct { // a pure (spec) call needed in the middle of a step
	key  string
	fn   *ssa.Function
	args []Val
}
type Unsup struct{ msg string }
type GoPanic struct{ msg string }
type Infeasible struct{}

func unsup(f string, a ...interface{})   { panic(&Unsup{fmt.Sprintf(f, a...)}) }
func gopanic(f string, a ...interface{}) { panic(&GoPanic{fmt.Sprintf(f, a...)}) }

// ---- outcomes ------------------------------------------------------------

type OutKind int

const (
	ORet OutKind = iota
	OPanic
	OUnsup
	OKill // path ended by an assumption
)

type Outcome struct {
	st   *State
	kind OutKind
	ret  Val
	msg  string
	fn   string
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	instr ssa.Instruction
}

type Item struct {
	st      *State
	env     map[ssa.Value]Val
	b, prev *ssa.BasicBlock
	i       int
	defers  []deferred
	visits  map[*ssa.BasicBlock]int
	unroll  map[*ssa.BasicBlock]bool
	choices []int
	noPhi   bool
	phiVals map[*ssa.Phi]Val // values of the phis at b, if already worked out
	enter   *Loop            // about to enter this loop
	ret     Val              // result, of a path that has returned
}

func (it *Item) fork(st *State) *Item {
	n := &Item{st: st, b: it.b, prev: it.prev, i: it.i, noPhi: it.noPhi, phiVals: it.phiVals, enter: it.enter}
	n.env = make(map[ssa.Value]Val, len(it.env)+4)
	for k, v := range it.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), it.defers...)
	n.visits = map[*ssa.BasicBlock]int{}
	for k, v := range it.visits {
		n.visits[k] = v
	}
	n.unroll = map[*ssa.BasicBlock]bool{}
	for k, v := range it.unroll {
		n.unroll[k] = v
	}
	n.choices = append([]int(nil), it.choices...)
	return n
}

type fctx struct {
	obj0  int // objects from here on were made during this activation
	cfgs  map[*Loop]*loopCfg
	order map[*ssa.BasicBlock]int
	reach map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*Loop
	depth int
	binds []Val
	args  []Val
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type cctx struct {
	c         *Contract
	use       bool
	entered   bool
	mods      []Val
	preFailed bool
	reqs      int
	retKey    string
}

type Engine struct {
	merge      bool
	P          *Program
	tm         *TM
	sol        *Solver
	nextObj    int
	globals    map[*ssa.Global]int
	ctxs       []*cctx
	obls       []*Obl
	fails      []*Failure
	undec      []string
	notes      map[string]int
	demoted    map[string]bool
	used       map[string]bool // contracts relied on
	peek       bool            // loop bounds may be read from memory
	inlined    map[string]bool // functions executed by their body
	models     map[string]bool // trusted models used
	cur        string          // current contract / lemma name
	group      string
	bounded    int
	term       bool // check termination of loops
	steps      int
	maxSteps   int
	loopInfo   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	curItem    *Item
	choiceIdx  int
	quiet      int // >0: do not record obligations
	reach      map[string]int
	paths      int
	specDepth  int
	boundedHit bool
	loopHints  []*LoopHint
	nonempty   map[*ssa.Function]bool
	opaqIface  map[string]opaqDef
	fuel       map[string]int
	cutLoops   map[string]bool
	allocCheck bool
	curC       *Contract
	initMode   bool
	deadline   time.Time
	spent      string // which budget is used up
	trying     int    // depth of passes over loops, whose failures may be taken back
	cutting    bool   // the contract is known not to hold
	texts      map[string][]*Seq
	orig       map[int]*Obj // input objects as they were
	frameBad   bool         // the contract's body changes more than it declares
	frameMsg   string
	globHeap   map[int]*Obj
}

type Obl struct {
	Where string
	Label string
	Back  string
	Fail  bool
}

type Failure struct {
	Where   string // contract or lemma
	Label   string
	St      *State
	Neg     *Term
	Imprec  bool
	Fn      string
	Unknown bool
}

func NewEngine(p *Program) *Engine {
	tm := NewTM()
	e := &Engine{orig: map[int]*Obj{}, P: p, tm: tm, sol: NewSolver(tm), nextObj: 1, globals: map[*ssa.Global]int{}, notes: map[string]int{},
		demoted: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, models: map[string]bool{},
		loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, reach: map[string]int{}, maxSteps: 12000000, fuel: map[string]int{}, cutLoops: map[string]bool{}}
	return e
}

// ---- decisions -----------------------------------------------------------

func (e *Engine) feasible(st *State, c *Term) bool {
	if e.expired() {
		return true
	}
	return e.sol.CheckSliced(st.pc, c) != Unsat
}

func (e *Engine) implied(st *State, c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if st.inPC(c) {
		return true
	}
	if v, ok := st.known[c]; ok {
		return v
	}
	if c.op == OAnd {
		all := true
		for _, a := range c.args {
			if !e.implied(st, a) {
				all = false
				break
			}
		}
		return all
	}
	if st.inPC(e.tm.Not(c)) {
		return false
	}
	r := e.sol.CheckSliced(st.pc, e.tm.Not(c)) == Unsat
	if r && st.canCache() {
		st.known[c] = true
	}
	return r
}

func (e *Engine) decide(st *State, c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if st.inPC(c) {
		return true
	}
	nc := e.tm.Not(c)
	if st.inPC(nc) {
		return false
	}
	if v, ok := st.known[c]; ok {
		return v
	}
	if !e.feasible(st, c) {
		if st.canCache() {
			st.known[c] = false
			st.known[nc] = true
		}
		return false
	}
	if !e.feasible(st, nc) {
		if st.canCache() {
			st.known[c] = true
			st.known[nc] = false
		}
		return true
	}
	panic(&Fork{n: 2, apply: func(i int, s *State) {
		if i == 0 {
			s.addPC(c)
		} else {
			s.addPC(nc)
		}
	}})
}

// choose makes a nondeterministic choice among n alternatives.
func (e *Engine) choose(n int) int {
	it := e.curItem
	if it == nil {
		unsup("choice outside a step")
	}
	if e.choiceIdx < len(it.choices) {
		r := it.choices[e.choiceIdx]
		e.choiceIdx++
		return r
	}
	panic(&Fork{n: n, choice: true})
}

// mustHold: run-time check inside code (index, nil, ...). Splits off a panic.
func (e *Engine) runtimeCheck(st *State, ok *Term, msg string) {
	if ok == e.tm.T || st.inPC(ok) {
		e.countObl(msg, "simplifier")
		return
	}
	if e.decide(st, ok) {
		e.countObl(msg, "z3-new")
		return
	}
	gopanic("%s", msg)
}

func (e *Engine) countObl(label, back string) {
	if e.quiet > 0 {
		return
	}
	e.obls = append(e.obls, &Obl{Where: e.cur, Label: label, Back: back})
}

// oblige proves cond on the current path or records a failure. It returns
// false when the path should be abandoned.
func (e *Engine) oblige(st *State, label string, cond *Term) bool {
	if e.quiet > 0 {
		return true
	}
	if cond == e.tm.T || st.inPC(cond) {
		e.countObl(label, "simplifier")
		return true
	}
	if e.expired() {
		return false
	}
	neg := e.tm.Not(cond)
	var r Res
	if neg == e.tm.T {
		r = e.sol.Check(append([]*Term{}, st.pc...))
		if len(st.pc) == 0 {
			r = Sat
		}
	} else {
		r = e.sol.CheckSliced(st.pc, neg)
	}
	back := "z3-new"
	if r == Unknown {
		r, back = e.sol.Fallback(append(append([]*Term{}, st.pc...), neg), 20)
	}
	switch r {
	case Unsat:
		e.countObl(label, back)
		return neg != e.tm.T
	case Sat:
		e.obls = append(e.obls, &Obl{Where: e.cur, Label: label, Fail: true})
		e.fails = append(e.fails, &Failure{Where: e.cur, Label: label, St: st.clone(), Neg: neg, Imprec: st.flags["imprecise"]})
		e.failed()
	default:
		e.obls = append(e.obls, &Obl{Where: e.cur, Label: label, Fail: true})
		e.undec = append(e.undec, fmt.Sprintf("%s: %s: solver gave up", e.cur, label))
	}
	if !e.feasible(st, cond) {
		return false
	}
	return true
}

// ---- running a step with forking -----------------------------------------

// forking runs f on st; when f needs a case split the split is made and f is
// run again on every case. Every surviving (state, value) is returned.
func (e *Engine) forking(it *Item, st *State, f func(st *State) Val) []Outcome {
	type job struct {
		st *State
		ch []int
	}
	work := []job{{st, nil}}
	var outs []Outcome
	n := 0
	for len(work) > 0 {
		j := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 4000 {
			return []Outcome{{st: st, kind: OUnsup, msg: "too many case splits in one step"}}
		}
		var val Val
		var ex interface{}
		saveItem, saveIdx := e.curItem, e.choiceIdx
		fi := &Item{choices: j.ch}
		e.curItem, e.choiceIdx = fi, 0
		j.st.begin()
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case *Fork, *Nested, *Unsup, *GoPanic, *Infeasible:
						ex = r
					default:
						panic(r)
					}
				}
			}()
			val = f(j.st)
		}()
		e.curItem, e.choiceIdx = saveItem, saveIdx
		switch x := ex.(type) {
		case nil:
			j.st.commit()
			outs = append(outs, Outcome{st: j.st, kind: ORet, ret: val})
		case *Fork:
			j.st.rollback()
			var cs []*State
			for i := 0; i < x.n; i++ {
				s := j.st
				if i < x.n-1 {
					s = j.st.clone()
				}
				cs = append(cs, s)
			}
			for i := x.n - 1; i >= 0; i-- {
				s := cs[i]
				ch := append([]int(nil), j.ch...)
				if x.choice {
					ch = append(ch, i)
				} else {
					x.apply(i, s)
				}
				work = append(work, job{s, ch})
			}
		case *Nested:
			j.st.rollback()
			for _, o := range e.callPure(j.st.clone(), x.fn, x.args) {
				switch o.kind {
				case ORet:
					o.st.ghost["memo:"+x.key] = o.ret
					work = append(work, job{o.st, j.ch})
				case OKill:
				default:
					outs = append(outs, o)
				}
			}
		case *Unsup:
			j.st.rollback()
			outs = append(outs, Outcome{st: j.st, kind: OUnsup, msg: x.msg})
		case *GoPanic:
			j.st.commit()
			outs = append(outs, Outcome{st: j.st, kind: OPanic, msg: x.msg})
		case *Infeasible:
			j.st.rollback()
			outs = append(outs, Outcome{st: j.st, kind: OKill})
		}
	}
	return outs
}

func (e *Engine) callPure(st *State, fn *ssa.Function, args []Val, binds ...[]Val) []Outcome {
	e.quiet++
	e.specDepth++
	defer func() { e.quiet--; e.specDepth-- }()
	if len(args) > 0 {
		if _, ok := args[0].(unfoldMark); ok {
			var as []Val
			for _, a := range args[1:] {
				as = append(as, e.unsnapshot(st, a))
			}
			args = as
		}
	}
	var bd []Val
	if len(binds) > 0 {
		bd = binds[0]
	}
	return e.callBody(st, fn, args, bd, 0)
}

// nested evaluates a pure function in the middle of a step.
func (e *Engine) nested(st *State, fn *ssa.Function, args []Val) Val {
	k := fn.String()
	for _, a := range args {
		k += ";" + e.valKey(st, a)
	}
	if v, ok := st.ghost["memo:"+k]; ok {
		return v
	}
	panic(&Nested{k, fn, args})
}

// ---- loops -----------------------------------------------------------------

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := e.loopInfo[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := res[h]
				if l == nil {
					l = &Loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					res[h] = l
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	e.loopInfo[fn] = res
	return res
}

// ---- calls -----------------------------------------------------------------

func (e *Engine) call(st *State, fn *ssa.Function, args []Val, binds []Val, depth int) []Outcome {
	if depth > 120 {
		return []Outcome{{st: st, kind: OUnsup, msg: "call depth (recursion) in " + fn.String()}}
	}
	// contract?
	if c := e.contractFor(fn); c != nil {
		var top *cctx
		if len(e.ctxs) > 0 {
			top = e.ctxs[len(e.ctxs)-1]
		}
		if top != nil && top.c == c && !top.entered {
			if top.use {
				return e.havocCall(st, fn, args, top)
			}
			top.entered = true
			pre := st.clone()
			outs := e.callBody(st, fn, args, binds, depth)
			top.entered = false
			for _, o := range outs {
				if o.kind == ORet && !e.frameBad {
					e.frameCheck(pre, o.st, top.mods)
				}
			}
			return outs
		}
		if e.usable(c) {
			return e.useContract(st, c, args, depth)
		}
	}
	return e.callBody(st, fn, args, binds, depth)
}

func (e *Engine) callBody(st *State, fn *ssa.Function, args []Val, binds []Val, depth int) []Outcome {
	if fn.Blocks == nil {
		return []Outcome{{st: st, kind: OUnsup, msg: "no body and no model for " + fn.String()}}
	}
	if e.quiet == 0 {
		e.inlined[fn.String()] = true
	}
	fc := &fctx{obj0: e.nextObj, fn: fn, loops: e.loopsOf(fn), depth: depth, binds: binds, args: args}
	it := &Item{st: st, env: map[ssa.Value]Val{}, b: fn.Blocks[0], visits: map[*ssa.BasicBlock]int{}, unroll: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		it.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		it.env[p] = binds[i]
	}
	outs, backs, exits := e.explore(fc, []*Item{it}, nil)
	if len(backs)+len(exits) > 0 {
		panic("stray loop items")
	}
	if e.merge && e.bounded == 0 {
		outs = e.mergeOuts(fc, outs)
	}
	for _, o := range outs {
		if o.kind == OPanic {
			e.failed()
			break
		}
	}
	return outs
}

// failed: outside of the passes over a loop a failure is final, the contract
// does not hold and what remains only adds to the report.
func (e *Engine) failed() {
	if e.trying > 0 || e.quiet > 0 || e.cutting {
		return
	}
	e.cutting = true
	if t := time.Now().Add(40 * time.Second); e.deadline.IsZero() || t.Before(e.deadline) {
		e.deadline = t
	}
}

func (e *Engine) explore(fc *fctx, items []*Item, lp *Loop) (outs []Outcome, backs, exits []*Item) {
	if e.merge && e.bounded == 0 {
		return e.exploreMerging(fc, items, lp)
	}
	work := items
	var parked []*Item
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.enter != nil {
			parked = append(parked, it)
		} else {
			next, os, bk, ex := e.runItem(fc, it, lp)
			work = append(work, next...)
			outs = append(outs, os...)
			backs = append(backs, bk...)
			exits = append(exits, ex...)
		}
		if len(work) > 0 || len(parked) == 0 {
			continue
		}
		// all have come to a loop: the first of the loops is next
		ord := fc.rpo()
		l := parked[0].enter
		for _, p := range parked {
			if ord[p.enter.head] < ord[l.head] {
				l = p.enter
			}
		}
		var here, later []*Item
		for _, p := range parked {
			if p.enter == l {
				p.enter = nil
				here = append(here, p)
			} else {
				later = append(later, p)
			}
		}
		parked = later
		for _, g := range e.joinArrivals(fc, l, here) {
			os, exs := e.cutLoop(fc, g.joined, g.from, l)
			outs = append(outs, os...)
			for _, x := range exs {
				n, o, b, ex := e.arrive(fc, x, lp)
				work = append(work, n...)
				outs = append(outs, o...)
				backs = append(backs, b...)
				exits = append(exits, ex...)
			}
		}
		work = append(work, parked...)
		parked = nil
	}
	return
}

// arrive handles a transfer of control it.prev -> it.b.
func (e *Engine) arrive(fc *fctx, it *Item, lp *Loop) (next []*Item, outs []Outcome, backs, exits []*Item) {
	if lp != nil {
		if it.b == lp.head {
			return nil, nil, []*Item{it}, nil
		}
		if !lp.blocks[it.b] {
			return nil, nil, nil, []*Item{it}
		}
	}
	l := fc.loops[it.b]
	if l == nil {
		return []*Item{it}, nil, nil, nil
	}
	if l.blocks[it.prev] { // back edge of an unrolled loop
		it.visits[it.b]++
		lim := 600
		if e.bounded > 0 && it.unroll[it.b] == false {
			lim = e.bounded
		}
		if it.visits[it.b] > lim {
			if e.bounded > 0 {
				e.boundedHit = true
				return nil, []Outcome{{st: it.st, kind: OKill}}, nil, nil
			}
			return nil, []Outcome{{st: it.st, kind: OUnsup, msg: "loop not bounded in " + fc.fn.String()}}, nil, nil
		}
		return []*Item{it}, nil, nil, nil
	}
	// entering the loop
	it.visits[it.b] = 0
	if e.decideUnroll(fc, it, l) {
		it.unroll[it.b] = true
		return []*Item{it}, nil, nil, nil
	}
	if e.bounded > 0 {
		it.unroll[it.b] = false
		return []*Item{it}, nil, nil, nil
	}
	if e.merge || e.hinted(it) {
		it.enter = l
		return []*Item{it}, nil, nil, nil
	}
	os, exs := e.cutLoop(fc, it, []*Item{it}, l)
	outs = append(outs, os...)
	for _, x := range exs {
		n, o, b, ex := e.arrive(fc, x, lp)
		next = append(next, n...)
		outs = append(outs, o...)
		backs = append(backs, b...)
		exits = append(exits, ex...)
	}
	return
}

// expired tells that the budget of this contract is used up: every path ends.
func (e *Engine) expired() bool {
	if e.spent != "" {
		return true
	}
	if atomic.LoadInt32(&memoryFull) != 0 {
		e.spent = "memory budget exhausted"
	} else if c := atomic.LoadInt64(&e.P.cutoff); c != 0 && time.Now().UnixNano() > c {
		e.spent = "another contract has failed, time budget cut"
	} else if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		e.spent = "time budget exhausted"
	}
	return e.spent != ""
}

var memoryFull int32

// watchMemory ends all verification once the heap reaches limit bytes.
func watchMemory(limit uint64) {
	for {
		time.Sleep(500 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > limit {
			runtime.GC()
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > limit {
				atomic.StoreInt32(&memoryFull, 1)
			}
		} else {
			atomic.StoreInt32(&memoryFull, 0)
		}
	}
}

// runItem runs one path until it forks, ends, or leaves the region.
func (e *Engine) runItem(fc *fctx, it *Item, lp *Loop) (next []*Item, outs []Outcome, backs, exits []*Item) {
	for {
		e.steps++
		if e.expired() {
			return nil, []Outcome{{st: it.st, kind: OUnsup, msg: e.spent}}, nil, nil
		}
		if e.steps > e.maxSteps {
			return nil, []Outcome{{st: it.st, kind: OUnsup, msg: "step budget exhausted"}}, nil, nil
		}
		if it.i == 0 && !it.noPhi {
			// phis
			var vals []Val
			var phis []*ssa.Phi
			pv := it.phiVals
			it.phiVals = nil
			for _, in := range it.b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if pv != nil {
					vals = append(vals, pv[p])
				} else {
					for k, pr := range it.b.Preds {
						if pr == it.prev {
							vals = append(vals, e.ev(it, p.Edges[k]))
							break
						}
					}
				}
				phis = append(phis, p)
			}
			for k, p := range phis {
				it.env[p] = vals[k]
			}
			it.i = len(phis)
		}
		it.noPhi = false
		in := it.b.Instrs[it.i]
		switch x := in.(type) {
		case *ssa.Jump:
			it.prev, it.b, it.i = it.b, it.b.Succs[0], 0
			n, o, bk, ex := e.arrive(fc, it, lp)
			if len(n) == 1 && len(o)+len(bk)+len(ex) == 0 && n[0] == it && !(it.enter != nil || e.merge && len(it.b.Preds) > 1) {
				continue
			}
			return n, o, bk, ex
		case *ssa.If:
			c := e.ev(it, x.Cond).(*Term)
			if !c.isConst() {
				if e.ifConvert(fc, it, x, c) {
					n, o, bk, ex := e.arrive(fc, it, lp)
					if len(n) == 1 && len(o)+len(bk)+len(ex) == 0 && n[0] == it && !(it.enter != nil || e.merge && len(it.b.Preds) > 1) {
						continue
					}
					return n, o, bk, ex
				}
			}
			os := e.forking(it, it.st, func(st *State) Val {
				return e.decide(st, c)
			})
			var items []*Item
			for k, o := range os {
				if o.kind != ORet {
					outs = append(outs, e.wrapOut(fc, o))
					continue
				}
				n := it
				if k < len(os)-1 {
					n = it.fork(o.st)
				}
				n.st = o.st
				t := n.b.Succs[1]
				if o.ret.(bool) {
					t = n.b.Succs[0]
				}
				n.prev, n.b, n.i = n.b, t, 0
				items = append(items, n)
			}
			for _, n := range items {
				a, o, bk, ex := e.arrive(fc, n, lp)
				next = append(next, a...)
				outs = append(outs, o...)
				backs = append(backs, bk...)
				exits = append(exits, ex...)
			}
			return
		case *ssa.Return:
			var r Val
			if len(x.Results) == 1 {
				r = e.ev(it, x.Results[0])
			} else if len(x.Results) > 1 {
				t := &VTuple{}
				for _, v := range x.Results {
					t.E = append(t.E, e.ev(it, v))
				}
				r = t
			}
			e.paths++
			return nil, []Outcome{{st: it.st, kind: ORet, ret: r}}, nil, nil
		case *ssa.Panic:
			msg := "panic"
			if v, ok := e.ev(it, x.X).(*VIface); ok {
				if s, ok := v.V.(*VStr); ok {
					if c, ok := e.constStr(s); ok {
						msg = "panic: " + c
					}
				}
			}
			return nil, []Outcome{e.wrapOut(fc, Outcome{st: it.st, kind: OPanic, msg: msg})}, nil, nil
		case *ssa.RunDefers:
			if len(it.defers) == 0 {
				it.i++
				continue
			}
			d := it.defers[len(it.defers)-1]
			it.defers = it.defers[:len(it.defers)-1]
			os := e.callValue(fc, it, d.call, d.fn, d.args, nil)
			for k, o := range os {
				if o.kind != ORet {
					outs = append(outs, e.wrapOut(fc, o))
					continue
				}
				n := it
				if k < len(os)-1 {
					n = it.fork(o.st)
				}
				n.st = o.st
				next = append(next, n)
			}
			return
		}
		if blocking(in) && hasPending(it.st) && !e.hasData(it, in) {
			os := e.runOnePending(it.st)
			for k, o := range os {
				if o.kind != ORet {
					outs = append(outs, e.wrapOut(fc, o))
					continue
				}
				n := it
				if k < len(os)-1 {
					n = it.fork(o.st)
				}
				n.st = o.st
				next = append(next, n)
			}
			return
		}
		// ordinary instruction
		var os []Outcome
		var val ssa.Value
		if v, ok := in.(ssa.Value); ok {
			val = v
		}
		if c, ok := in.(*ssa.Call); ok {
			os = e.doCall(fc, it, &c.Call, c)
		} else {
			os = e.forking(it, it.st, func(st *State) Val { return e.step(fc, it, st, in) })
		}
		if e.initMode && len(os) == 1 && os[0].kind == OUnsup {
			os[0].kind = ORet
			os[0].ret = &VOpaque{Name: "init"}
		}
		if len(os) == 1 && os[0].kind == ORet {
			it.st = os[0].st
			if val != nil {
				it.env[val] = os[0].ret
			}
			it.i++
			continue
		}
		last := -1
		for k, o := range os {
			if o.kind == ORet {
				last = k
			}
		}
		for k, o := range os {
			if o.kind != ORet {
				outs = append(outs, e.wrapOut(fc, o))
				continue
			}
			n := it
			if k != last {
				n = it.fork(o.st)
			}
			n.st = o.st
			if val != nil {
				n.env[val] = o.ret
			}
			n.i++
			next = append(next, n)
		}
		return
	}
}

func (e *Engine) wrapOut(fc *fctx, o Outcome) Outcome {
	if o.fn == "" {
		o.fn = fc.fn.String()
	}
	return o
}

// ifConvert turns a side-effect free diamond into ite terms.
func (e *Engine) ifConvert(fc *fctx, it *Item, x *ssa.If, c *Term) bool {
	T, F := it.b.Succs[0], it.b.Succs[1]
	simple := func(b *ssa.BasicBlock) bool {
		if len(b.Preds) != 1 || len(b.Succs) != 1 || len(b.Instrs) > 8 {
			return false
		}
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.Jump, *ssa.DebugRef, *ssa.IndexAddr, *ssa.Index, *ssa.Extract:
			case *ssa.UnOp:
				if y.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	var J *ssa.BasicBlock
	var tb, fb *ssa.BasicBlock
	switch {
	case T != F && simple(T) && T.Succs[0] == F:
		J, tb = F, T
	case T != F && simple(F) && F.Succs[0] == T:
		J, fb = T, F
	case simple(T) && simple(F) && T.Succs[0] == F.Succs[0]:
		J, tb, fb = T.Succs[0], T, F
	default:
		return false
	}
	if fc.loops[J] != nil || fc.loops[it.b] != nil && !fc.loops[it.b].blocks[J] {
		return false
	}
	for _, l := range fc.loops {
		if l.blocks[it.b] != l.blocks[J] {
			return false
		}
	}
	env := it.env
	run := func(b *ssa.BasicBlock, cond *Term) (map[ssa.Value]Val, bool) {
		if b == nil {
			return env, true
		}
		tmp := &Item{st: it.st, env: make(map[ssa.Value]Val, len(env)+8), b: b}
		for k, v := range env {
			tmp.env[k] = v
		}
		ok := true
		for _, in := range b.Instrs {
			if _, j := in.(*ssa.Jump); j {
				break
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch r.(type) {
						case *Fork, *Nested, *Unsup, *GoPanic, *Infeasible:
							ok = false
						default:
							panic(r)
						}
					}
				}()
				it.st.begin()
				e.quiet++
				defer func() { e.quiet-- }()
				var v Val
				if cl, isc := in.(*ssa.Call); isc {
					v = e.builtin(it.st, "len", []Val{e.ev(tmp, cl.Call.Args[0])}, cl.Call.Args[0].Type(), cl.Type())
				} else {
					v = e.step(fc, tmp, it.st, in)
				}
				if sv, isv := in.(ssa.Value); isv {
					tmp.env[sv] = v
				}
			}()
			if it.st.jr != nil {
				if ok && len(it.st.jr.heap) == 0 && len(it.st.jr.res) == 0 {
					it.st.commit()
				} else {
					it.st.rollback()
					ok = false
				}
			}
			if !ok {
				return nil, false
			}
		}
		return tmp.env, true
	}
	te, ok := run(tb, c)
	if !ok {
		return false
	}
	fe, ok := run(fb, e.tm.Not(c))
	if !ok {
		return false
	}
	tp, fp := tb, fb
	if tp == nil {
		tp = it.b
	}
	if fp == nil {
		fp = it.b
	}
	res := map[ssa.Value]Val{}
	n := 0
	for _, in := range J.Instrs {
		p, isp := in.(*ssa.Phi)
		if !isp {
			break
		}
		n++
		var a, b Val
		for k, pr := range J.Preds {
			if pr == tp {
				a = e.ev(&Item{st: it.st, env: te}, p.Edges[k])
			}
			if pr == fp {
				b = e.ev(&Item{st: it.st, env: fe}, p.Edges[k])
			}
		}
		at, ok1 := a.(*Term)
		bt, ok2 := b.(*Term)
		if ok1 && ok2 {
			res[p] = e.tm.Ite(c, at, bt)
		} else if e.sameVal(a, b) {
			res[p] = a
		} else {
			return false
		}
	}
	if n == 0 && len(J.Preds) > 2 {
		// nothing to merge
	}
	for k, v := range res {
		it.env[k] = v
	}
	it.prev, it.b, it.i = tp, J, n
	it.noPhi = true
	return true
}

func (e *Engine) sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *VPtr:
		y, ok := b.(*VPtr)
		if !ok || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *VSlice:
		y, ok := b.(*VSlice)
		return ok && *x == *y
	case *VIface:
		y, ok := b.(*VIface)
		return ok && (x.T == nil && y.T == nil || x.T != nil && y.T != nil && types.Identical(x.T, y.T) && e.sameVal(x.V, y.V))
	case *VSymIface:
		y, ok := b.(*VSymIface)
		return ok && symKey(x.Name, x.Idx) == symKey(y.Name, y.Idx)
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !e.sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *VStr:
		y, ok := b.(*VStr)
		return ok && e.seqKey(x.S) == e.seqKey(y.S)
	case *VChan:
		y, ok := b.(*VChan)
		return ok && x.Obj == y.Obj
	case *VMap:
		y, ok := b.(*VMap)
		return ok && x.Obj == y.Obj
	}
	return false
}

func symKey(n string, idx []*Term) string {
	var s strings.Builder
	s.WriteString(n)
	for _, t := range idx {
		fmt.Fprintf(&s, ",%d", t.id)
	}
	return s.String()
}

// ---- values ----------------------------------------------------------------

func (e *Engine) ev(it *Item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &VFunc{Fn: x}
	case *ssa.Builtin:
		return &VFunc{Bi: x.Name()}
	case *ssa.Global:
		return &VPtr{Obj: e.globalObj(it.st, x)}
	}
	r, ok := it.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), v.Parent()))
	}
	return r
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return e.tm.B(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return e.strLit(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return e.tm.C(uint64(i), width(t))
			}
			u, _ := constant.Uint64Val(v)
			return e.tm.C(u, width(t))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f32, _ := constant.Float32Val(c.Value)
				return e.tm.C(uint64(math.Float32bits(f32)), 32)
			}
			return e.tm.C(math.Float64bits(f), 64)
		}
	}
	unsup("constant %s", c)
	return nil
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByte(t types.Type) bool { return width(t) == 8 }

func (e *Engine) strLit(s string) *VStr {
	q := &Seq{}
	if len(s) > 0 {
		sg := Seg{k: SElems}
		for i := 0; i < len(s); i++ {
			sg.elems = append(sg.elems, e.tm.C(uint64(s[i]), 8))
		}
		q.segs = append(q.segs, sg)
	}
	return &VStr{q}
}

func (e *Engine) constStr(v *VStr) (string, bool) {
	var b []byte
	for _, sg := range v.S.segs {
		if sg.k != SElems {
			return "", false
		}
		for _, x := range sg.elems {
			t := x.(*Term)
			if !t.isConst() {
				return "", false
			}
			b = append(b, byte(t.val))
		}
	}
	return string(b), true
}

func isBuffer(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer"
}

func (e *Engine) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			return &VStr{&Seq{}}
		}
		if u.Kind() == types.UnsafePointer {
			return &VPtr{}
		}
		if u.Kind() == types.UntypedNil {
			return &VPtr{}
		}
		if w := width(t); w >= 0 {
			return e.tm.C(0, w)
		}
	case *types.Struct:
		s := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &VArr{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, e.zero(u.Elem()))
		}
		return a
	case *types.Pointer:
		return &VPtr{}
	case *types.Slice:
		return &VSlice{Off: e.tm.I(0), Len: e.tm.I(0), Cap: e.tm.I(0)}
	case *types.Interface:
		return &VIface{}
	case *types.Map:
		return &VMap{}
	case *types.Chan:
		return &VChan{}
	case *types.Signature:
		return &VFunc{}
	case *types.Tuple:
		r := &VTuple{}
		for i := 0; i < u.Len(); i++ {
			r.E = append(r.E, e.zero(u.At(i).Type()))
		}
		return r
	}
	unsup("zero of %s", t)
	return nil
}

func (e *Engine) newObj(st *State, o *Obj) int {
	id := e.nextObj
	e.nextObj++
	st.put(id, o)
	return id
}

// alloc makes a fresh cell of type t holding v.
func (e *Engine) allocCell(st *State, t types.Type, v Val) *VPtr {
	if isBuffer(t) {
		return &VPtr{Obj: e.newObj(st, &Obj{T: t, Buf: &BufState{S: &Seq{}}})}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		q := &Seq{}
		if x, ok := v.(*VArr); ok && len(x.E) > 0 {
			q.segs = []Seg{{k: SElems, elems: x.E}}
		}
		return &VPtr{Obj: e.newObj(st, &Obj{T: a.Elem(), Arr: q})}
	}
	return &VPtr{Obj: e.newObj(st, &Obj{T: t, Cell: v})}
}

// mat materialises the symbolic value of type t called name (at idx).
func (e *Engine) mat(st *State, t types.Type, name string, idx []*Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			n := e.lenTerm(name+"$len", idx)
			q := &Seq{segs: []Seg{{k: SSlice, base: &Base{Name: name + "$c", Idx: idx, Elem: types.Typ[types.Uint8]}, off: e.tm.I(0), ln: n}}}
			return &VStr{q}
		}
		if w := width(t); w >= 0 {
			return e.tm.App(name, w, idx...)
		}
	case *types.Struct:
		if isTimeTime(t) {
			return &VOpaque{Name: symKey(name, idx), T: t}
		}
		s := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.mat(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), idx))
		}
		return s
	case *types.Array:
		a := &VArr{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, e.mat(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), idx))
		}
		return a
	case *types.Pointer:
		return &VSymPtr{Name: name, Idx: idx, Elem: u.Elem()}
	case *types.Slice:
		k := "s:" + symKey(name, idx)
		id, ok := st.okeys[k]
		if !ok {
			n := e.lenTerm(name+"$len", idx)
			id = e.newObj(st, &Obj{T: u.Elem(), Arr: &Seq{segs: []Seg{{k: SSlice, base: &Base{Name: name + "$e", Idx: idx, Elem: u.Elem()}, off: e.tm.I(0), ln: n}}}})
			e.orig[id] = st.get(id)
			st.setOkey(k, id)
		}
		n := e.lenTerm(name+"$len", idx)
		return &VSlice{Obj: id, Off: e.tm.I(0), Len: n, Cap: n}
	case *types.Interface:
		return &VSymIface{Name: name, Idx: idx, T: t}
	case *types.Map:
		k := "m:" + symKey(name, idx)
		id, ok := st.okeys[k]
		if !ok {
			id = e.newObj(st, &Obj{T: t, Map: &MapVal{Sym: &VSymMap{Name: name, Idx: idx}, KT: u.Key(), VT: u.Elem()}})
			e.orig[id] = st.get(id)
			st.setOkey(k, id)
		}
		return &VMap{Obj: id}
	case *types.Chan:
		k := "c:" + symKey(name, idx)
		id, ok := st.okeys[k]
		if !ok {
			id = e.newObj(st, &Obj{T: t, Chan: &ChanState{Sym: name, Elem: u.Elem(), Label: name}})
			e.orig[id] = st.get(id)
			st.setOkey(k, id)
		}
		return &VChan{Obj: id}
	case *types.Signature:
		return &VFunc{Bi: "$sym:" + name}
	case *types.Tuple:
		r := &VTuple{}
		for i := 0; i < u.Len(); i++ {
			r.E = append(r.E, e.mat(st, u.At(i).Type(), fmt.Sprintf("%s#%d", name, i), idx))
		}
		return r
	}
	unsup("symbolic value of type %s", t)
	return nil
}

func isTimeTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// lengths of symbolic sequences are 31-bit values
func (e *Engine) lenTerm(name string, idx []*Term) *Term {
	return e.tm.Zext(e.tm.App(name, 31, idx...), 64)
}

func (e *Engine) resolvePtr(st *State, v Val) *VPtr {
	switch x := v.(type) {
	case *VPtr:
		return x
	case *VSymPtr:
		k := "p:" + symKey(x.Name, x.Idx)
		if r := st.getRes(k); r != nil {
			return r.V.(*VPtr)
		}
		panic(&Fork{n: 2, apply: func(i int, s *State) {
			nm := e.tm.App(x.Name+"$nil", 0, x.Idx...)
			if i == 1 {
				s.addPC(nm)
				s.putRes(k, &Resol{Kind: 2, V: &VPtr{}})
				return
			}
			s.addPC(e.tm.Not(nm))
			var p *VPtr
			if isBuffer(x.Elem) {
				b := &Base{Name: x.Name + "*$b", Idx: x.Idx, Elem: types.Typ[types.Uint8]}
				p = &VPtr{Obj: e.newObj(s, &Obj{T: x.Elem, Buf: &BufState{S: &Seq{segs: []Seg{{k: SSlice, base: b, off: e.tm.I(0), ln: e.lenTerm(x.Name+"*$len", x.Idx)}}}}})}
			} else {
				p = e.allocCell(s, x.Elem, e.mat(s, x.Elem, x.Name+"*", x.Idx))
			}
			e.orig[p.Obj] = s.get(p.Obj)
			s.putRes(k, &Resol{Kind: 1, V: p})
		}})
	case *VOpaque:
		unsup("dereference of opaque %s", x.Name)
	}
	unsup("pointer %T", v)
	return nil
}

var errorType = types.Universe.Lookup("error").Type()
var errDyn = types.NewNamed(types.NewTypeName(token.NoPos, nil, "$error", nil), types.NewStruct(nil, nil), nil)

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

func (e *Engine) newErr(format string, args ...Val) *VIface {
	e.tm.fresh++
	return &VIface{T: errDyn, V: &ErrVal{Id: e.tm.fresh, Format: format, Args: args}}
}

// ifaceIs decides whether the dynamic type of v is exactly t (forking if open)
func (e *Engine) ifaceIs(st *State, v Val, t types.Type) (Val, bool) {
	v = e.openIface(st, v)
	switch x := v.(type) {
	case *VIface:
		if x.T != nil && types.Identical(x.T, t) {
			return x.V, true
		}
		return nil, false
	case *VSymIface:
		k := "i:" + symKey(x.Name, x.Idx)
		r := st.getRes(k)
		if r != nil && r.Kind != 0 {
			if r.Kind == 1 && types.Identical(r.T, t) {
				return r.V, true
			}
			return nil, false
		}
		if isErrorType(x.T) {
			if e.ifaceNil(st, v) {
				return nil, false
			}
			return e.ifaceIs(st, v, t)
		}
		if r != nil {
			for _, ex := range r.Excl {
				if ex != nil && types.Identical(ex, t) {
					return nil, false
				}
			}
		}
		if !types.AssignableTo(t, x.T) {
			return nil, false
		}
		tag := e.typeTag(t)
		panic(&Fork{n: 2, apply: func(i int, s *State) {
			if i == 0 {
				s.addPC(e.tm.Eq(e.tm.App(x.Name+"$dyn", 16, x.Idx...), e.tm.C(uint64(tag), 16)))
				s.putRes(k, &Resol{Kind: 1, T: t, V: e.mat(s, t, x.Name+"#"+types.TypeString(t, nil), x.Idx)})
			} else {
				s.addPC(e.tm.Ne(e.tm.App(x.Name+"$dyn", 16, x.Idx...), e.tm.C(uint64(tag), 16)))
				n := &Resol{}
				if r != nil {
					n.Excl = append(n.Excl, r.Excl...)
				}
				n.Excl = append(n.Excl, t)
				s.putRes(k, n)
			}
		}})
	}
	unsup("type test on %T", v)
	return nil, false
}

// typeTag numbers dynamic types (1..) ; 0 is nil.
func (e *Engine) typeTag(t types.Type) int { return e.P.typeTag(t) }

func (e *Engine) ifaceNil(st *State, v Val) bool {
	v = e.openIface(st, v)
	switch x := v.(type) {
	case *VIface:
		return x.T == nil
	case *VSymIface:
		k := "i:" + symKey(x.Name, x.Idx)
		r := st.getRes(k)
		if r != nil {
			if r.Kind == 2 {
				return true
			}
			if r.Kind == 1 {
				return false
			}
			for _, ex := range r.Excl {
				if ex == nil {
					return false
				}
			}
		}
		panic(&Fork{n: 2, apply: func(i int, s *State) {
			dyn := e.tm.App(x.Name+"$dyn", 16, x.Idx...)
			if i == 0 {
				s.addPC(e.tm.Eq(dyn, e.tm.C(0, 16)))
				s.putRes(k, &Resol{Kind: 2})
				return
			}
			s.addPC(e.tm.Ne(dyn, e.tm.C(0, 16)))
			if isErrorType(x.T) {
				s.putRes(k, &Resol{Kind: 1, T: errDyn, V: &ErrVal{Id: -1, Format: "sym:" + k}})
				return
			}
			n := &Resol{}
			if r != nil {
				n.Excl = append(n.Excl, r.Excl...)
			}
			n.Excl = append(n.Excl, nil)
			s.putRes(k, n)
		}})
	case *VOpaque:
		return false
	}
	unsup("nil test on %T", v)
	return false
}

// resolved view of an interface: VIface or unresolved VSymIface
func (e *Engine) viewIface(st *State, v Val) Val {
	if x, ok := v.(*VSymIface); ok {
		r := st.getRes("i:" + symKey(x.Name, x.Idx))
		if r != nil && r.Kind == 2 {
			return &VIface{}
		}
		if r != nil && r.Kind == 1 {
			return &VIface{T: r.T, V: r.V}
		}
	}
	return v
}

// openIface is viewIface, with an opaque specification unfolded.
func (e *Engine) openIface(st *State, v Val) Val {
	for {
		v = e.viewIface(st, v)
		x, ok := v.(*VSymIface)
		if !ok || !strings.HasPrefix(x.Name, "oi:") {
			return v
		}
		d := e.opaqIface[symKey(x.Name, x.Idx)]
		k := "uni:" + d.fn.String()
		for _, a := range d.args {
			k += ";" + e.valKey(nil, a)
		}
		r, ok := st.ghost["memo:"+k]
		if !ok {
			panic(&Nested{key: k, fn: d.fn, args: append([]Val{unfoldMark{}}, d.args...)})
		}
		v = r
	}
}

// ---- sequences -------------------------------------------------------------

func (s *Seg) length(tm *TM) *Term {
	if s.k == SElems {
		return tm.I(int64(len(s.elems)))
	}
	return s.ln
}

func (e *Engine) seqLen(q *Seq) *Term {
	n := e.tm.I(0)
	for i := range q.segs {
		n = e.tm.Add(n, q.segs[i].length(e.tm))
	}
	return n
}

func (e *Engine) cat(qs ...*Seq) *Seq {
	r := &Seq{}
	for _, q := range qs {
		for _, s := range q.segs {
			e.push(r, s)
		}
	}
	return r
}

func (e *Engine) push(r *Seq, s Seg) {
	if s.k == SElems && len(s.elems) == 0 {
		return
	}
	if s.k != SElems && s.ln.isConst() && s.ln.val == 0 {
		return
	}
	if n := len(r.segs); n > 0 {
		l := r.segs[n-1]
		if l.k == SElems && s.k == SElems {
			el := make([]Val, 0, len(l.elems)+len(s.elems))
			el = append(append(el, l.elems...), s.elems...)
			r.segs = append(append([]Seg{}, r.segs[:n-1]...), Seg{k: SElems, elems: el})
			return
		}
		if l.k == SSlice && s.k == SSlice && l.base.key() == s.base.key() && e.tm.Add(l.off, l.ln) == s.off {
			r.segs = append(append([]Seg{}, r.segs[:n-1]...), Seg{k: SSlice, base: l.base, off: l.off, ln: e.tm.Add(l.ln, s.ln)})
			return
		}
		// x[0:k] ++ [x[k]] -> x[0:k+1] for scalar element families
		if l.k == SSlice && s.k == SElems && len(s.elems) >= 1 && e.isElemOf(l.base, e.tm.Add(l.off, l.ln), s.elems[0]) {
			m := Seg{k: SSlice, base: l.base, off: l.off, ln: e.tm.Add(l.ln, e.tm.I(1))}
			r.segs = append(append([]Seg{}, r.segs[:n-1]...), m)
			e.push(r, Seg{k: SElems, elems: s.elems[1:]})
			return
		}
	}
	r.segs = append(r.segs, s)
}

func (e *Engine) isElemOf(b *Base, i *Term, v Val) bool {
	idx := append(append([]*Term{}, b.Idx...), i)
	switch x := v.(type) {
	case *Term:
		return x == e.tm.App(b.Name, x.w, idx...) && x.op == OApp
	case *VSymIface:
		return symKey(x.Name, x.Idx) == symKey(b.Name, idx)
	}
	return false
}

func elems(vs ...Val) *Seq {
	if len(vs) == 0 {
		return &Seq{}
	}
	return &Seq{segs: []Seg{{k: SElems, elems: vs}}}
}

// split q at position n (0<=n<=len must hold on the path)
func (e *Engine) split(st *State, q *Seq, n *Term) (*Seq, *Seq) {
	a, b := &Seq{}, &Seq{}
	i := 0
	for ; i < len(q.segs); i++ {
		if n.isConst() && n.val == 0 {
			break
		}
		s := q.segs[i]
		if s.k == SOpaque {
			// fast path: whole segment
			L := s.ln
			if L == n {
				e.push(a, s)
				n = e.tm.I(0)
				continue
			}
			if d := e.tm.Sub(n, L); e.implied(st, e.tm.Ule(L, n)) {
				e.push(a, s)
				n = d
				continue
			}
			q2 := e.unfoldSeg(st, q, i)
			return e.split(st, &Seq{segs: append(append([]Seg{}, a.segs...), q2.segs[i:]...)}, e.tm.Add(e.seqLen(a), n))
		}
		L := s.length(e.tm)
		if n.isConst() && L.isConst() {
			if n.val >= L.val {
				e.push(a, s)
				n = e.tm.I(int64(n.val - L.val))
				continue
			}
			x, y := e.cutSeg(s, n)
			e.push(a, x)
			e.push(b, y)
			n = e.tm.I(0)
			i++
			break
		}
		if L == n {
			e.push(a, s)
			n = e.tm.I(0)
			continue
		}
		if e.decide(st, e.tm.Ule(L, n)) {
			e.push(a, s)
			n = e.tm.Sub(n, L)
			continue
		}
		if s.k == SElems { // position inside a concrete run: enumerate
			done := false
			for k := 0; k < len(s.elems); k++ {
				if e.decide(st, e.tm.Eq(n, e.tm.I(int64(k)))) {
					x, y := e.cutSeg(s, e.tm.I(int64(k)))
					e.push(a, x)
					e.push(b, y)
					done = true
					break
				}
			}
			if !done {
				panic(&Infeasible{})
			}
		} else {
			x, y := e.cutSeg(s, n)
			e.push(a, x)
			e.push(b, y)
		}
		n = e.tm.I(0)
		i++
		break
	}
	for ; i < len(q.segs); i++ {
		e.push(b, q.segs[i])
	}
	return a, b
}

func (e *Engine) cutSeg(s Seg, n *Term) (Seg, Seg) {
	switch s.k {
	case SElems:
		return Seg{k: SElems, elems: s.elems[:n.val]}, Seg{k: SElems, elems: s.elems[n.val:]}
	case SSlice:
		return Seg{k: SSlice, base: s.base, off: s.off, ln: n}, Seg{k: SSlice, base: s.base, off: e.tm.Add(s.off, n), ln: e.tm.Sub(s.ln, n)}
	case SZero:
		return Seg{k: SZero, elems: s.elems, ln: n}, Seg{k: SZero, elems: s.elems, ln: e.tm.Sub(s.ln, n)}
	}
	unsup("cut of opaque segment")
	return Seg{}, Seg{}
}

func (e *Engine) sub(st *State, q *Seq, off, ln *Term) *Seq {
	_, r := e.split(st, q, off)
	a, _ := e.split(st, r, ln)
	return a
}

func (e *Engine) segAt(st *State, s Seg, i *Term) Val {
	switch s.k {
	case SSlice:
		return e.mat(st, s.base.Elem, s.base.Name, append(append([]*Term{}, s.base.Idx...), e.tm.Add(s.off, i)))
	case SZero:
		return s.elems[0]
	case SElems:
		if i.isConst() {
			return s.elems[i.val]
		}
	}
	unsup("segAt")
	return nil
}

// at returns element i (in range on this path)
func (e *Engine) at(st *State, q *Seq, i *Term) Val {
	for si := 0; si < len(q.segs); si++ {
		s := q.segs[si]
		if s.k == SOpaque {
			if !e.decide(st, e.tm.Ult(i, s.ln)) {
				i = e.tm.Sub(i, s.ln)
				continue
			}
			q2 := e.unfoldSeg(st, q, si)
			return e.at(st, &Seq{segs: q2.segs[si:]}, i)
		}
		L := s.length(e.tm)
		if si == len(q.segs)-1 || (i.isConst() && L.isConst() && i.val < L.val) || (!(i.isConst() && L.isConst()) && e.decide(st, e.tm.Ult(i, L))) {
			if s.k == SElems && !i.isConst() {
				// scalars: ite chain ; others: enumerate
				if _, ok := s.elems[0].(*Term); ok {
					r := s.elems[len(s.elems)-1].(*Term)
					for k := len(s.elems) - 2; k >= 0; k-- {
						r = e.tm.Ite(e.tm.Eq(i, e.tm.I(int64(k))), s.elems[k].(*Term), r)
					}
					return r
				}
				for k := range s.elems {
					if e.decide(st, e.tm.Eq(i, e.tm.I(int64(k)))) {
						return s.elems[k]
					}
				}
				panic(&Infeasible{})
			}
			return e.segAt(st, s, i)
		}
		i = e.tm.Sub(i, L)
	}
	unsup("index into empty sequence")
	return nil
}

func (e *Engine) setAt(st *State, q *Seq, i *Term, v Val) *Seq {
	if len(q.segs) == 1 && q.segs[0].k == SElems {
		s := q.segs[0]
		el := append([]Val{}, s.elems...)
		if i.isConst() {
			el[i.val] = v
			return &Seq{segs: []Seg{{k: SElems, elems: el}}}
		}
		if vt, ok := v.(*Term); ok {
			for k := range el {
				el[k] = e.tm.Ite(e.tm.Eq(i, e.tm.I(int64(k))), vt, el[k].(*Term))
			}
			return &Seq{segs: []Seg{{k: SElems, elems: el}}}
		}
		for k := range el {
			if e.decide(st, e.tm.Eq(i, e.tm.I(int64(k)))) {
				el[k] = v
				return &Seq{segs: []Seg{{k: SElems, elems: el}}}
			}
		}
		panic(&Infeasible{})
	}
	a, r := e.split(st, q, i)
	_, b := e.split(st, r, e.tm.I(1))
	return e.cat(a, elems(v), b)
}

// ---- memory ----------------------------------------------------------------

func (e *Engine) load(st *State, p *VPtr) Val {
	if p.Obj == 0 {
		gopanic("nil pointer dereference")
	}
	o := st.get(p.Obj)
	if o == nil {
		unsup("dangling object")
	}
	if o.Arr != nil {
		if len(p.Path) == 0 { // whole array
			r := &VArr{}
			n := e.seqLen(o.Arr)
			if !n.isConst() {
				unsup("load of symbolic array")
			}
			for i := uint64(0); i < n.val; i++ {
				r.E = append(r.E, e.at(st, o.Arr, e.tm.I(int64(i))))
			}
			return r
		}
		return e.loadPath(st, e.at(st, o.Arr, p.Path[0].Idx), p.Path[1:])
	}
	if o.Buf != nil || o.Cell == nil {
		if isMutexLike(o.T) {
			return o.Cell
		}
		unsup("load of %s as a value", o.T)
	}
	return e.loadPath(st, o.Cell, p.Path)
}

func isMutexLike(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func (e *Engine) loadPath(st *State, v Val, path []Sel) Val {
	for _, s := range path {
		switch x := v.(type) {
		case *VStruct:
			v = x.F[s.Field]
		case *VArr:
			v = e.at(st, elems(x.E...), s.Idx)
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func (e *Engine) store(st *State, p *VPtr, v Val) {
	if p.Obj == 0 {
		gopanic("nil pointer dereference")
	}
	o := st.get(p.Obj)
	if o == nil {
		unsup("dangling object")
	}
	n := *o
	if o.Arr != nil {
		if len(p.Path) == 0 {
			a, ok := v.(*VArr)
			if !ok {
				unsup("store of %T to array", v)
			}
			n.Arr = elems(a.E...)
		} else {
			nv := v
			if len(p.Path) > 1 {
				nv = e.storePath(st, e.at(st, o.Arr, p.Path[0].Idx), p.Path[1:], v)
			}
			if o.RO {
				unsup("write into a slice that stands for several")
			}
			n.Arr = e.setAt(st, o.Arr, p.Path[0].Idx, nv)
		}
	} else if o.Buf != nil {
		unsup("store over a bytes.Buffer")
	} else {
		n.Cell = e.storePath(st, o.Cell, p.Path, v)
	}
	st.put(p.Obj, &n)
}

func (e *Engine) storePath(st *State, v Val, path []Sel, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *VStruct:
		r := &VStruct{F: append([]Val{}, x.F...)}
		r.F[path[0].Field] = e.storePath(st, x.F[path[0].Field], path[1:], nv)
		return r
	case *VArr:
		q := elems(x.E...)
		var old Val
		if len(path) > 1 {
			old = e.at(st, q, path[0].Idx)
		}
		q = e.setAt(st, q, path[0].Idx, e.storePath(st, old, path[1:], nv))
		return &VArr{E: q.segs[0].elems}
	}
	unsup("store path into %T", v)
	return nil
}

func (e *Engine) sliceSeq(st *State, v *VSlice) *Seq {
	if v.Obj == 0 {
		return &Seq{}
	}
	o := st.get(v.Obj)
	if o == nil || o.Arr == nil {
		unsup("slice of non-array object")
	}
	if v.Off.isConst() && v.Off.val == 0 && e.seqLen(o.Arr) == v.Len {
		return o.Arr
	}
	return e.sub(st, o.Arr, v.Off, v.Len)
}

func (e *Engine) newSlice(st *State, elem types.Type, q *Seq) *VSlice {
	n := e.seqLen(q)
	id := e.newObj(st, &Obj{T: elem, Arr: q})
	return &VSlice{Obj: id, Off: e.tm.I(0), Len: n, Cap: n}
}

// ---- keys ------------------------------------------------------------------

func (e *Engine) seqKey(q *Seq) string {
	var b strings.Builder
	for _, s := range q.segs {
		switch s.k {
		case SElems:
			b.WriteString("[")
			for _, v := range s.elems {
				b.WriteString(e.valKey(nil, v) + " ")
			}
			b.WriteString("]")
		case SSlice:
			fmt.Fprintf(&b, "{%s:%d:%d}", s.base.key(), s.off.id, s.ln.id)
		case SZero:
			fmt.Fprintf(&b, "{0:%d}", s.ln.id)
		case SOpaque:
			fmt.Fprintf(&b, "{%s", s.fn.String())
			for _, a := range s.args {
				b.WriteString("," + e.valKey(nil, a))
			}
			b.WriteString("}")
		}
	}
	return b.String()
}

type SeqVal struct {
	S *Seq
	T types.Type
} // immutable snapshot of a slice, used in opaque arguments

func (e *Engine) valKey(st *State, v Val) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case *VStruct:
		s := "{"
		for _, f := range x.F {
			s += e.valKey(st, f) + ";"
		}
		return s + "}"
	case *VArr:
		s := "["
		for _, f := range x.E {
			s += e.valKey(st, f) + ";"
		}
		return s + "]"
	case *VPtr:
		s := fmt.Sprintf("p%d", x.Obj)
		for _, p := range x.Path {
			if p.Field >= 0 {
				s += fmt.Sprintf(".%d", p.Field)
			} else {
				s += fmt.Sprintf("[%d]", p.Idx.id)
			}
		}
		return s
	case *VSymPtr:
		return "P" + symKey(x.Name, x.Idx)
	case *VSlice:
		if st != nil && x.Obj != 0 {
			if o := st.get(x.Obj); o != nil && o.Arr != nil {
				return fmt.Sprintf("s(%s:%d:%d)", e.seqKey(o.Arr), x.Off.id, x.Len.id)
			}
		}
		return fmt.Sprintf("S%d:%d:%d", x.Obj, x.Off.id, x.Len.id)
	case *SeqVal:
		return "q(" + e.seqKey(x.S) + ")"
	case *VStr:
		return "\"" + e.seqKey(x.S) + "\""
	case *VIface:
		if x.T == nil {
			return "nil"
		}
		return types.TypeString(x.T, nil) + "(" + e.valKey(st, x.V) + ")"
	case *VSymIface:
		return "I" + symKey(x.Name, x.Idx)
	case *VMap:
		return fmt.Sprintf("m%d", x.Obj)
	case *VChan:
		return fmt.Sprintf("c%d", x.Obj)
	case *VFunc:
		s := x.Bi
		if x.Fn != nil {
			s = x.Fn.String()
		}
		for _, b := range x.Bind {
			s += "," + e.valKey(st, b)
		}
		return "f(" + s + ")"
	case *ErrVal:
		return fmt.Sprintf("err%d%s", x.Id, x.Format)
	case *VOpaque:
		return "o" + x.Name
	case *VTuple:
		s := "("
		for _, f := range x.E {
			s += e.valKey(st, f) + ";"
		}
		return s + ")"
	case bool:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T%p", v, v)
}

// sortedKeys is a small helper for deterministic output
func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *State) canCache() bool { return s.jr == nil || len(s.jr.pcAdd) == 0 }

// frameCheck compares the heap before and after the target of the contract
// being verified against the contract's Modifies clause.
func (e *Engine) frameCheck(pre, post *State, mods []Val) {
	type mod struct {
		obj  int
		path []Sel
	}
	var ms []mod
	for _, v := range mods {
		if x, ok := v.(*VIface); ok {
			v = x.V
		}
		switch x := v.(type) {
		case *VPtr:
			ms = append(ms, mod{x.Obj, x.Path})
		case *VSymPtr:
			if r := post.getRes("p:" + symKey(x.Name, x.Idx)); r != nil {
				ms = append(ms, mod{r.V.(*VPtr).Obj, nil})
			}
		case *VSlice:
			ms = append(ms, mod{x.Obj, nil})
		case *VMap:
			ms = append(ms, mod{x.Obj, nil})
		}
	}
	seen := map[int]bool{}
	for l := post.heap; l != nil; l = l.up {
		for id, o := range l.m {
			if seen[id] {
				continue
			}
			seen[id] = true
			was := pre.get(id)
			if was == nil {
				was = e.orig[id]
			}
			if was == nil || was == o {
				continue
			}
			var paths [][]Sel
			whole := false
			for _, m := range ms {
				if m.obj == id {
					if len(m.path) == 0 {
						whole = true
					}
					paths = append(paths, m.path)
				}
			}
			if whole {
				continue
			}
			if o.Cell != nil && was.Cell != nil && sameBut(was.Cell, o.Cell, paths) {
				continue
			}
			if o.Arr != nil && was.Arr != nil && o.Arr == was.Arr || o.Buf != nil && was.Buf != nil && o.Buf.S == was.Buf.S {
				continue
			}
			e.frameBad = true
			e.frameMsg = fmt.Sprintf("changes an object of type %s", o.T)
			return
		}
	}
}

func sameBut(a, b Val, paths [][]Sel) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok {
			return false
		}
		for i := range x.F {
			var sub [][]Sel
			skip := false
			for _, p := range paths {
				if len(p) > 0 && p[0].Field == i {
					if len(p) == 1 {
						skip = true
					}
					sub = append(sub, p[1:])
				}
			}
			if !skip && !sameBut(x.F[i], y.F[i], sub) {
				return false
			}
		}
		return true
	case *VPtr:
		y, ok := b.(*VPtr)
		return ok && x.Obj == y.Obj && len(x.Path) == 0 && len(y.Path) == 0
	case *VIface:
		y, ok := b.(*VIface)
		return ok && x.T == y.T && (x.V == y.V || x.V != nil && y.V != nil && sameBut(x.V, y.V, nil))
	case *VSlice:
		y, ok := b.(*VSlice)
		return ok && *x == *y
	case *VStr:
		y, ok := b.(*VStr)
		return ok && x.S == y.S
	}
	return false
}
