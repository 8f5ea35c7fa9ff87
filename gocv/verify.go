package main

import (
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Input struct {
	Name string
	T    types.Type
	V    Val
}

type Arg struct { // one argument of the contract function
	Gen    *ssa.Function // generator, or nil
	Inputs []Input
}

type Result struct {
	C       *Contract
	Obls    []*Obl
	Fails   []*Failure
	Undec   []string
	Unsup   []string
	Args    []Arg
	Used    map[string]bool
	Inlined map[string]bool
	Models  map[string]bool
	Notes   map[string]int
	Rets    int
	Paths   int
	Kills   int
	Queries int
	Solver  time.Duration
	Wall    time.Duration
	Bounded bool
	Cut     map[string]bool
	Reach   map[string]int
	Cands   []Cand
	Frame   string // not empty: the Modifies clause does not cover the body, calls may not rely on the contract
}

func (r *Result) ok() bool { return len(r.Fails) == 0 && len(r.Undec) == 0 && len(r.Unsup) == 0 }

func (e *Engine) Verify(c *Contract) (r *Result) {
	t0 := time.Now()
	q0, s0 := e.sol.Queries, e.sol.Time
	e.obls, e.fails, e.undec = nil, nil, nil
	e.used, e.inlined, e.models, e.notes, e.cutLoops, e.reach = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]int{}, map[string]bool{}, map[string]int{}
	e.loopHints = nil
	e.spent, e.trying, e.cutting = "", 0, false
	e.frameBad, e.frameMsg, e.orig = false, "", map[int]*Obj{}
	e.curC, e.cur, e.bounded, e.term, e.allocCheck, e.merge = c, c.Name, c.Bounded, c.Term, c.Alloc, c.Merge
	e.steps, e.paths, e.boundedHit = 0, 0, false
	r = &Result{C: c}
	defer func() {
		if x := recover(); x != nil {
			r.Unsup = append(r.Unsup, fmt.Sprintf("verifier error: %v", x))
			if debugPanic {
				panic(x)
			}
		}
		if e.spent != "" {
			r.Unsup = append(r.Unsup, e.spent)
		}
		if e.frameBad {
			r.Frame = e.frameMsg
		}
		r.Obls, r.Fails, r.Undec = e.obls, e.fails, e.undec
		r.Used, r.Inlined, r.Models, r.Notes, r.Cut, r.Reach = e.used, e.inlined, e.models, e.notes, e.cutLoops, e.reach
		r.Paths, r.Bounded = e.paths, e.boundedHit || c.Bounded > 0
		r.Queries, r.Solver = e.sol.Queries-q0, e.sol.Time-s0
		r.Wall = time.Since(t0)
		e.ctxs = nil
		e.curC = nil
	}()
	st := e.freshState()
	sig := c.Fn.Signature
	type job struct {
		st   *State
		args []Val
	}
	jobs := []job{{st, nil}}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		var next []job
		g := e.P.vgen[types.TypeString(p.Type(), nil)]
		a := Arg{Gen: g}
		for ji, j := range jobs {
			if g == nil {
				v := e.mat(j.st, p.Type(), "p:"+p.Name(), nil)
				if ji == 0 {
					a.Inputs = []Input{{p.Name(), p.Type(), v}}
				}
				next = append(next, job{j.st, append(append([]Val{}, j.args...), v)})
				continue
			}
			var ga []Val
			for k := 0; k < g.Signature.Params().Len(); k++ {
				gp := g.Signature.Params().At(k)
				v := e.mat(j.st, gp.Type(), "p:"+p.Name()+"/"+gp.Name(), nil)
				ga = append(ga, v)
				if ji == 0 {
					a.Inputs = append(a.Inputs, Input{p.Name() + "/" + gp.Name(), gp.Type(), v})
				}
			}
			for _, o := range e.callPure(j.st, g, ga) {
				if o.kind == ORet {
					next = append(next, job{o.st, append(append([]Val{}, j.args...), o.ret)})
				} else if o.kind != OKill {
					r.Unsup = append(r.Unsup, "input generator: "+o.msg)
				}
			}
		}
		r.Args = append(r.Args, a)
		jobs = next
	}
	seen := map[string]bool{}
	for _, j := range jobs {
		e.ctxs = []*cctx{{c: c}}
		for _, o := range e.callBody(j.st, c.Fn, j.args, nil, 0) {
			switch o.kind {
			case ORet:
				r.Rets++
			case OKill:
				r.Kills++
			case OUnsup:
				m := o.msg + " (in " + shortFn(o.fn) + ")"
				if !seen[m] {
					seen[m] = true
					r.Unsup = append(r.Unsup, m)
				}
			case OPanic:
				lb := "no panic (" + o.msg + " in " + shortFn(o.fn) + ")"
				e.obls = append(e.obls, &Obl{Where: c.Name, Label: lb, Fail: true})
				e.fails = append(e.fails, &Failure{Where: c.Name, Label: lb, St: o.st, Neg: e.tm.T, Imprec: o.st.flags["imprecise"], Fn: o.fn})
			}
		}
	}
	if r.Rets == 0 && len(r.Unsup) == 0 && len(e.fails) == 0 {
		r.Unsup = append(r.Unsup, "vacuous: no path reaches the end of the contract")
	}
	return
}

var debugPanic = false

func (r *Result) String() string {
	s := fmt.Sprintf("%-34s obl %4d fail %d undec %d unsup %d  paths %d rets %d kills %d  q %d solver %.2fs wall %.2fs", r.C.Name, len(r.Obls), len(r.Fails), len(r.Undec), len(r.Unsup), r.Paths, r.Rets, r.Kills, r.Queries, r.Solver.Seconds(), r.Wall.Seconds())
	lab := map[string]int{}
	for _, f := range r.Fails {
		x := f.Label
		if f.Imprec {
			x += " [imprecise]"
		}
		lab[x]++
	}
	var ks []string
	for k := range lab {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += fmt.Sprintf("\n      FAIL %s x%d", k, lab[k])
	}
	if r.Frame != "" {
		s += "\n      FRAME " + r.Frame
	}
	for _, u := range r.Undec {
		s += "\n      UNDECIDED " + u
	}
	for _, u := range r.Unsup {
		s += "\n      UNSUPPORTED " + u
	}
	return s
}
