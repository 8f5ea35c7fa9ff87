package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
)

// concr turns a solver model of a failed obligation into Go source for the
// arguments of the contract function.
type concr struct {
	e       *Engine
	st      *State
	cs      []*Term
	memo    map[*Term]uint64
	pkg     *types.Package
	imports map[string]string
	budget  int
	bad     string
}

func (e *Engine) Concretize(f *Failure, args []Arg, pkg *types.Package) (src string, imports map[string]string, ok bool) {
	c := &concr{e: e, st: f.St, memo: map[*Term]uint64{}, pkg: pkg, imports: map[string]string{}, budget: 4000}
	c.cs = append(append([]*Term{}, f.St.pc...), f.Neg)
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	if e.sol.Check(c.cs) != Sat {
		return "", nil, false
	}
	// prefer short sequences throughout
	var parts []string
	for _, a := range args {
		var ins []string
		for _, in := range a.Inputs {
			ins = append(ins, c.lit(in.V, in.T, 0))
		}
		if a.Gen != nil {
			parts = append(parts, a.Gen.Name()+"("+strings.Join(ins, ", ")+")")
		} else {
			parts = append(parts, ins[0])
		}
	}
	if c.bad != "" {
		return "", nil, false
	}
	return strings.Join(parts, ", "), c.imports, true
}

func (c *concr) vals(ts []*Term) {
	var want []*Term
	for _, t := range ts {
		if t.isConst() {
			continue
		}
		if _, ok := c.memo[t]; !ok {
			want = append(want, t)
		}
	}
	if len(want) == 0 {
		return
	}
	m := map[*Term]uint64{}
	if c.e.sol.Sat(c.cs, want, m) != Sat {
		panic("model lost")
	}
	for _, t := range want {
		c.memo[t] = m[t]
		c.fix(t, m[t])
	}
}

func (c *concr) fix(t *Term, v uint64) {
	if t.w == 0 {
		if v == 1 {
			c.cs = append(c.cs, t)
		} else {
			c.cs = append(c.cs, c.e.tm.Not(t))
		}
		return
	}
	c.cs = append(c.cs, c.e.tm.Eq(t, c.e.tm.C(v, t.w)))
}

func (c *concr) val(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	c.vals([]*Term{t})
	return c.memo[t]
}

func (c *concr) length(t *Term) int {
	if t.isConst() {
		return int(t.val)
	}
	if v, ok := c.memo[t]; ok {
		return int(v)
	}
	for _, lim := range []int64{0, 1, 2, 4, 16, 300, 70000} {
		x := c.e.tm.Ule(t, c.e.tm.I(lim))
		if c.e.sol.Check(append(append([]*Term{}, c.cs...), x)) == Sat {
			c.cs = append(c.cs, x)
			return int(c.val(t))
		}
	}
	panic("sequence too long")
}

func (c *concr) tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg {
			return ""
		}
		c.imports[p.Path()] = p.Name()
		return p.Name()
	})
}

func (c *concr) accessible(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	return n.Obj().Pkg() == nil || n.Obj().Pkg() == c.pkg || n.Obj().Exported()
}

func (c *concr) lit(v Val, t types.Type, d int) string {
	c.budget--
	if c.budget < 0 || d > 12 {
		panic("too large")
	}
	e := c.e
	switch x := v.(type) {
	case *Term:
		n := c.val(x)
		s := ""
		switch {
		case x.w == 0:
			s = strconv.FormatBool(n == 1)
		case isFloat(t) && x.w == 32:
			c.imports["math"] = "math"
			return fmt.Sprintf("%s(math.Float32frombits(0x%x))", c.tname(t), uint32(n))
		case isFloat(t):
			c.imports["math"] = "math"
			return fmt.Sprintf("%s(math.Float64frombits(0x%x))", c.tname(t), n)
		case isSigned(t):
			if s2 := sx(n, x.w); s2 == math.MinInt64 {
				return c.tname(t) + "(-1<<63)"
			} else {
				s = strconv.FormatInt(s2, 10)
			}
		default:
			s = strconv.FormatUint(n, 10)
		}
		return c.tname(t) + "(" + s + ")"
	case *VStr:
		return c.tname(t) + "(" + strconv.Quote(string(c.bytes(x.S))) + ")"
	case *VStruct:
		u := t.Underlying().(*types.Struct)
		var fs []string
		for i := range x.F {
			fl := u.Field(i)
			if fl.Name() == "_" || !fl.Exported() && fl.Pkg() != c.pkg {
				continue
			}
			fs = append(fs, fl.Name()+": "+c.lit(x.F[i], fl.Type(), d+1))
		}
		return c.tname(t) + "{" + strings.Join(fs, ", ") + "}"
	case *VArr:
		el := t.Underlying().(*types.Array).Elem()
		var fs []string
		for i := range x.E {
			fs = append(fs, c.lit(x.E[i], el, d+1))
		}
		return c.tname(t) + "{" + strings.Join(fs, ", ") + "}"
	case *VSlice:
		el := t.Underlying().(*types.Slice).Elem()
		n := c.length(x.Len)
		if n == 0 {
			return c.tname(t) + "(nil)"
		}
		// the original content: from the input object
		st := c.st
		o := st.get(x.Obj)
		if o == nil || o.Arr == nil {
			panic("slice")
		}
		base := c.inputBase(x)
		if base == nil {
			panic("slice without a base")
		}
		if width(el) == 8 {
			return c.tname(t) + "(" + strconv.Quote(string(c.bytes(&Seq{segs: []Seg{{k: SSlice, base: base, off: e.tm.I(0), ln: x.Len}}}))) + ")"
		}
		if n > 64 {
			panic("too long")
		}
		var fs []string
		for i := 0; i < n; i++ {
			ev := e.mat(st, el, base.Name, append(append([]*Term{}, base.Idx...), e.tm.I(int64(i))))
			fs = append(fs, c.lit(ev, el, d+1))
		}
		return c.tname(t) + "{" + strings.Join(fs, ", ") + "}"
	case *VSymPtr:
		if c.val(e.tm.App(x.Name+"$nil", 0, x.Idx...)) == 1 {
			return "(" + c.tname(t) + ")(nil)"
		}
		if isBuffer(x.Elem) {
			c.imports["bytes"] = "bytes"
			q := &Seq{segs: []Seg{{k: SSlice, base: &Base{Name: x.Name + "*$b", Idx: x.Idx, Elem: types.Typ[types.Uint8]}, off: e.tm.I(0), ln: e.lenTerm(x.Name+"*$len", x.Idx)}}}
			return "bytes.NewBuffer([]byte(" + strconv.Quote(string(c.bytes(q))) + "))"
		}
		s := c.lit(e.mat(c.st, x.Elem, x.Name+"*", x.Idx), x.Elem, d+1)
		if _, ok := x.Elem.Underlying().(*types.Struct); ok {
			return "&" + s
		}
		return "func() " + c.tname(t) + " { x := " + s + "; return &x }()"
	case *VSymIface:
		tag := c.val(e.tm.App(x.Name+"$dyn", 16, x.Idx...))
		if tag == 0 {
			return "nil"
		}
		ty := c.e.P.typeOf(int(tag))
		if isErrorType(x.T) {
			c.imports["errors"] = "errors"
			return "errors.New(\"an error\")"
		}
		if ty == nil || !c.accessible(ty) || !types.AssignableTo(ty, x.T) || types.IsInterface(ty) {
			if x.T.Underlying().(*types.Interface).NumMethods() > 0 {
				return "nil"
			}
			return "struct{ Other int }{1}"
		}
		return c.lit(e.mat(c.st, ty, x.Name+"#"+types.TypeString(ty, nil), x.Idx), ty, d+1)
	case *VMap:
		return "nil"
	case *VFunc, *VChan:
		return "nil"
	case *VOpaque:
		return c.tname(t) + "{}"
	}
	panic(fmt.Sprintf("no literal for %T", v))
}

// inputBase finds the family of symbols that are the elements of an input slice.
func (c *concr) inputBase(x *VSlice) *Base {
	for k, id := range c.st.okeys {
		if id == x.Obj && strings.HasPrefix(k, "s:") {
			// recover name and index from the length symbol
			l := x.Len
			for l.op == OZext {
				l = l.args[0]
			}
			if l.op == OApp || l.op == OVar {
				return &Base{Name: strings.TrimSuffix(l.name, "$len") + "$e", Idx: l.args}
			}
		}
	}
	return nil
}

func (c *concr) bytes(q *Seq) []byte {
	var r []byte
	e := c.e
	for _, s := range q.segs {
		n := c.length(s.length(e.tm))
		var ts []*Term
		for i := 0; i < n; i++ {
			t, ok := e.segAt(c.st, s, e.tm.I(int64(i))).(*Term)
			if !ok {
				panic("bytes")
			}
			ts = append(ts, t)
		}
		for len(ts) > 0 {
			k := len(ts)
			if k > 200 {
				k = 200
			}
			c.vals(ts[:k])
			for _, t := range ts[:k] {
				r = append(r, byte(c.val(t)))
			}
			ts = ts[k:]
		}
	}
	return r
}

func (p *Program) typeOf(tag int) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.tagTypes[tag]
}
