package main

import (
	"fmt"
	"go/types"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type model func(e *Engine, st *State, a []Val, fn *ssa.Function) Val
type hmodel func(e *Engine, fc *fctx, st *State, a []Val, fn *ssa.Function) []Outcome

// modelDyn is the dynamic type of values made by models of library interfaces.
var modelDyn = types.NewNamed(types.NewTypeName(0, nil, "$model", nil), types.NewStruct(nil, nil), nil)

type mctx struct{ done *VChan }
type mopaque struct{ name string }
type mtype struct{ t types.Type }

var models map[string]model
var hmodels map[string]hmodel

func (e *Engine) buf(st *State, v Val) (int, *Obj, *BufState) {
	p := e.resolvePtr(st, v)
	if p.Obj == 0 {
		gopanic("nil pointer dereference")
	}
	o := st.get(p.Obj)
	if o.Buf == nil {
		unsup("not a modelled buffer: %s", o.T)
	}
	return p.Obj, o, o.Buf
}

// front is the state of a buffer whose first segment is not an opaque
// specification, so that what is read next, and whether there is any, is known.
func (e *Engine) front(st *State, v Val) (int, *Obj, *BufState) {
	id, o, b := e.buf(st, v)
	for len(b.S.segs) > 0 && b.S.segs[0].k == SOpaque {
		e.putBuf(st, id, &BufState{S: e.unfoldSeg(st, b.S, 0), CanUnread: b.CanUnread, Last: b.Last})
		o = st.get(id)
		b = o.Buf
	}
	return id, o, b
}

func (e *Engine) putBuf(st *State, id int, b *BufState) {
	o := *st.get(id)
	o.Buf = b
	st.put(id, &o)
}

func (e *Engine) bufWrite(st *State, v Val, q *Seq) {
	id, _, b := e.buf(st, v)
	e.putBuf(st, id, &BufState{S: e.cat(b.S, q)})
}

// bufTake removes the first n octets (n <= len holds).
func (e *Engine) bufTake(st *State, id int, b *BufState, n *Term) *Seq {
	h, r := e.split(st, b.S, n)
	nb := &BufState{S: r}
	if len(h.segs) > 0 {
		l := h.segs[len(h.segs)-1]
		if ln := l.length(e.tm); l.k != SOpaque {
			nb.CanUnread = true
			if l.k == SElems {
				nb.Last = []Val{l.elems[len(l.elems)-1]}
			} else {
				nb.Last = []Val{e.segAt(st, l, e.tm.Sub(ln, e.tm.I(1)))}
			}
		}
	}
	e.putBuf(st, id, nb)
	return h
}

func (e *Engine) nilErr() Val { return &VIface{} }

func tup(vs ...Val) *VTuple { return &VTuple{E: vs} }

func order(v Val) (big bool) {
	if x, ok := v.(*VIface); ok && x.T != nil {
		return strings.Contains(x.T.String(), "big")
	}
	unsup("byte order unknown")
	return
}

// encode v of type t as encoding/binary does; ok=false: invalid type.
func (e *Engine) binEnc(st *State, v Val, t types.Type, big bool) (*Seq, bool) {
	tm := e.tm
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.String, types.UnsafePointer, types.Complex64, types.Complex128:
			return nil, false
		}
		x := v.(*Term)
		if x.w == 0 {
			return elems(tm.Zext(x, 8)), true
		}
		var el []Val
		for i := 0; i < x.w/8; i++ {
			el = append(el, tm.Extract(x, i*8, 8))
		}
		if big {
			for i, j := 0, len(el)-1; i < j; i, j = i+1, j-1 {
				el[i], el[j] = el[j], el[i]
			}
		}
		return elems(el...), true
	case *types.Struct:
		q := &Seq{}
		for i := 0; i < u.NumFields(); i++ {
			s, ok := e.binEnc(st, v.(*VStruct).F[i], u.Field(i).Type(), big)
			if !ok {
				return nil, false
			}
			q = e.cat(q, s)
		}
		return q, true
	case *types.Array:
		q := &Seq{}
		for _, x := range v.(*VArr).E {
			s, ok := e.binEnc(st, x, u.Elem(), big)
			if !ok {
				return nil, false
			}
			q = e.cat(q, s)
		}
		return q, true
	case *types.Slice:
		if width(u.Elem()) == 8 {
			return e.seqOf(st, v), true
		}
		s := e.seqOf(st, v)
		q := &Seq{}
		for _, g := range s.segs {
			if g.k != SElems {
				unsup("binary encoding of a symbolic slice of %s", u.Elem())
			}
			for _, x := range g.elems {
				r, ok := e.binEnc(st, x, u.Elem(), big)
				if !ok {
					return nil, false
				}
				q = e.cat(q, r)
			}
		}
		if _, ok := e.binEnc(st, e.zero(u.Elem()), u.Elem(), big); !ok {
			return nil, false
		}
		return q, true
	}
	return nil, false
}

func (e *Engine) binSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.String, types.UnsafePointer, types.Complex64, types.Complex128:
			return -1
		}
		if width(t) == 0 {
			return 1
		}
		return width(t) / 8
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := e.binSize(u.Field(i).Type())
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	case *types.Array:
		k := e.binSize(u.Elem())
		if k < 0 {
			return -1
		}
		return k * int(u.Len())
	}
	return -1
}

func (e *Engine) binDec(st *State, q []Val, t types.Type, big bool) (Val, []Val) {
	tm := e.tm
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w := width(t)
		if w == 0 {
			return tm.Ne(q[0].(*Term), tm.C(0, 8)), q[1:]
		}
		n := w / 8
		var r *Term
		for i := 0; i < n; i++ {
			b := q[i].(*Term)
			if !big {
				b = q[n-1-i].(*Term)
			}
			if r == nil {
				r = b
			} else {
				r = tm.Concat(r, b)
			}
		}
		return r, q[n:]
	case *types.Struct:
		s := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, q = e.binDec(st, q, u.Field(i).Type(), big)
			s.F = append(s.F, v)
		}
		return s, q
	case *types.Array:
		a := &VArr{}
		for i := int64(0); i < u.Len(); i++ {
			var v Val
			v, q = e.binDec(st, q, u.Elem(), big)
			a.E = append(a.E, v)
		}
		return a, q
	}
	unsup("binary decoding of %s", t)
	return nil, nil
}

func (e *Engine) flat(st *State, q *Seq, n int) []Val {
	var r []Val
	for i := 0; i < n; i++ {
		r = append(r, e.at(st, q, e.tm.I(int64(i))))
	}
	return r
}

func dynOf(st *State, e *Engine, v Val) *VIface {
	switch x := e.openIface(st, v).(type) {
	case *VIface:
		return x
	case *VSymIface:
		if e.ifaceNil(st, x) {
			return &VIface{}
		}
		unsup("dynamic type of %s unknown", x.Name)
	}
	unsup("interface expected, have %T", v)
	return nil
}

func mBinWrite(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
	w := dynOf(st, e, a[0])
	if w.T == nil {
		gopanic("nil writer")
	}
	big := order(a[1])
	d := dynOf(st, e, a[2])
	bad := func() Val { return e.newErr("binary.Write: some values are not fixed-sized") }
	if d.T == nil {
		return bad()
	}
	v, t := d.V, d.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		pp := e.resolvePtr(st, v)
		if pp.Obj == 0 {
			gopanic("nil pointer in binary.Write")
		}
		v, t = e.load(st, pp), p.Elem()
	}
	q, ok := e.binEnc(st, v, t, big)
	if !ok {
		return bad()
	}
	e.bufWrite(st, w.V, q)
	return e.nilErr()
}

func mBinRead(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
	rd := dynOf(st, e, a[0])
	if rd.T == nil {
		gopanic("nil reader")
	}
	big := order(a[1])
	d := dynOf(st, e, a[2])
	bad := func() Val { return e.newErr("binary.Read: invalid type") }
	if d.T == nil {
		return bad()
	}
	tm := e.tm
	v, t := d.V, d.T
	var ptr *VPtr
	if p, ok := t.Underlying().(*types.Pointer); ok {
		ptr = e.resolvePtr(st, v)
		if ptr.Obj == 0 {
			gopanic("nil pointer in binary.Read")
		}
		t = p.Elem()
		if _, ok := t.Underlying().(*types.Slice); ok {
			v = e.load(st, ptr)
			ptr = nil
		}
	}
	id, _, b := e.front(st, rd.V)
	L := e.seqLen(b.S)
	short := func() Val {
		if e.decide(st, tm.Eq(L, tm.I(0))) {
			e.putBuf(st, id, &BufState{S: &Seq{}})
			return stdErr("io.EOF")
		}
		nb := &BufState{S: &Seq{}, CanUnread: false}
		e.putBuf(st, id, nb)
		return stdErr("io.ErrUnexpectedEOF")
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && ptr == nil {
		s := v.(*VSlice)
		k := e.binSize(sl.Elem())
		if k < 0 {
			return bad()
		}
		n := s.Len
		if k > 1 {
			n = tm.Mul(n, tm.I(int64(k)))
		}
		if e.decide(st, tm.Eq(n, tm.I(0))) {
			return e.nilErr()
		}
		if !e.decide(st, tm.Ule(n, L)) {
			return short()
		}
		q := e.bufTake(st, id, b, n)
		if k > 1 || width(sl.Elem()) == 0 {
			if !n.isConst() {
				unsup("binary.Read of a symbolic slice of %s", sl.Elem())
			}
			raw := e.flat(st, q, int(n.val))
			var el []Val
			for len(raw) > 0 {
				var x Val
				x, raw = e.binDec(st, raw, sl.Elem(), big)
				el = append(el, x)
			}
			q = elems(el...)
		}
		e.storeSeq(st, s, q)
		return e.nilErr()
	}
	if ptr == nil {
		return bad()
	}
	n := e.binSize(t)
	if n < 0 {
		return bad()
	}
	if n == 0 {
		return e.nilErr()
	}
	if !e.decide(st, tm.Ule(tm.I(int64(n)), L)) {
		return short()
	}
	q := e.bufTake(st, id, b, tm.I(int64(n)))
	x, _ := e.binDec(st, e.flat(st, q, n), t, big)
	e.store(st, ptr, x)
	return e.nilErr()
}

// storeSeq overwrites the content of slice s by q (same length).
func (e *Engine) storeSeq(st *State, s *VSlice, q *Seq) {
	o := *st.get(s.Obj)
	if s.Off.isConst() && s.Off.val == 0 && e.seqLen(o.Arr) == s.Len {
		o.Arr = q
	} else {
		pre, rest := e.split(st, o.Arr, s.Off)
		_, post := e.split(st, rest, s.Len)
		o.Arr = e.cat(pre, q, post)
	}
	st.put(s.Obj, &o)
}

// goStr converts a symbolic value to a concrete Go value if it is one.
func (e *Engine) goVal(v Val, t types.Type) (interface{}, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return x.val == 1, true
		case b.Info()&types.IsFloat != 0:
			f, _ := e.f2(x)
			return f, true
		case b.Kind() == types.Uint8:
			return uint8(x.val), true
		case isSigned(t):
			return sx(x.val, x.w), true
		}
		return x.val, true
	case *VStr:
		return e.constStrI(x)
	case *VIface:
		if x.T == nil {
			return nil, true
		}
		return e.goVal(x.V, x.T)
	}
	return nil, false
}

func (e *Engine) constStrI(x *VStr) (interface{}, bool) {
	s, ok := e.constStr(x)
	return s, ok
}

func hasMethod(t types.Type, names ...string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		for _, n := range names {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

// sprintf: exact when everything is concrete, otherwise literal text with a
// deterministic opaque stretch for every argument that is not.
func (e *Engine) sprintf(st *State, format string, args []Val) *VStr {
	r := &Seq{}
	ai := 0
	lit := func(s string) {
		for _, g := range e.strLit(s).S.segs {
			e.push(r, g)
		}
	}
	for i := 0; i < len(format); i++ {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			lit(format[i:])
			break
		}
		lit(format[i : i+j])
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[i : k+1]
		i = k
		if format[k] == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + verb[len(verb)-1:] + "(MISSING)")
			continue
		}
		a := e.openIface(st, args[ai])
		ai++
		x, isI := a.(*VIface)
		num := false
		if isI && x.T != nil && verb == "%d" && !hasMethod(x.T, "Format") {
			t, ok := x.V.(*Term)
			num = ok && t.w > 0 && !isFloat(x.T)
		}
		if isI && x.T != nil && (num || !hasMethod(x.T, "String", "Error", "Format", "GoString")) {
			if s, ok := x.V.(*VStr); ok && (verb == "%s" || verb == "%v") {
				for _, g := range s.S.segs {
					e.push(r, g)
				}
				continue
			}
			if g, ok := e.goVal(x.V, x.T); ok {
				lit(fmt.Sprintf(verb, g))
				continue
			}
			if t, ok := x.V.(*Term); ok && t.w > 0 && (verb == "%d" || verb == "%v") && !isFloat(x.T) {
				sg := "u"
				if isSigned(x.T) {
					sg = "s"
				}
				w := e.asInt(t, x.T)
				b := &Base{Name: "fmt:%d" + sg, Idx: []*Term{w}, Elem: types.Typ[types.Uint8]}
				ln := e.lenTerm("fmt:%d"+sg+"$len", []*Term{w})
				st.addPC(e.tm.And(e.tm.Ule(e.tm.I(1), ln), e.tm.Ule(ln, e.tm.I(20))))
				e.push(r, Seg{k: SSlice, base: b, off: e.tm.I(0), ln: ln})
				continue
			}
		}
		n := "fmt:" + verb + ":" + e.valKey(st, a)
		b := &Base{Name: n, Elem: types.Typ[types.Uint8]}
		e.push(r, Seg{k: SSlice, base: b, off: e.tm.I(0), ln: e.lenTerm(n+"$len", nil)})
	}
	return &VStr{r}
}

func (e *Engine) argList(st *State, v Val) []Val {
	s, ok := v.(*VSlice)
	if !ok {
		return nil
	}
	var r []Val
	for _, g := range e.sliceSeq(st, s).segs {
		if g.k != SElems {
			return append(r, &VOpaque{Name: "args"})
		}
		r = append(r, g.elems...)
	}
	return r
}

func (e *Engine) errString(st *State, x *ErrVal) Val {
	if !strings.HasPrefix(x.Format, "global:") && !strings.HasPrefix(x.Format, "sym:") {
		return e.sprintf(st, x.Format, x.Args)
	}
	n := "errstr:" + e.valKey(st, x)
	return &VStr{&Seq{segs: []Seg{{k: SSlice, base: &Base{Name: n, Elem: types.Typ[types.Uint8]}, off: e.tm.I(0), ln: e.lenTerm(n+"$len", nil)}}}}
}

func mErrorf(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
	f, ok := e.constStr(a[0].(*VStr))
	if !ok {
		f = "%s"
		return e.newErr(f, &VIface{T: types.Typ[types.String], V: a[0]})
	}
	return e.newErr(f, e.argList(st, a[1])...)
}

func mNop(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return e.zero(rs.At(0).Type())
	}
	return e.zero(rs)
}

func (e *Engine) fieldIdx(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	unsup("no field %s", name)
	return 0
}

func (e *Engine) modelInvoke(fc *fctx, st *State, v Val, name string, args []Val, call *ssa.CallCommon) []Outcome {
	switch x := v.(type) {
	case *mctx:
		if name == "Done" {
			return ret(st, x.done)
		}
		if name == "Err" {
			return ret(st, e.nilErr())
		}
	case *mopaque:
		return ret(st, &VOpaque{Name: x.name, T: call.Signature().Results().At(0).Type()})
	case *mtype:
		if name == "Name" {
			n := ""
			if t, ok := x.t.(*types.Named); ok {
				n = t.Obj().Name()
			} else if b, ok := x.t.(*types.Basic); ok {
				n = b.Name()
			}
			return ret(st, e.strLit(n))
		}
	}
	return []Outcome{{st: st, kind: OUnsup, msg: fmt.Sprintf("method %s of %T", name, v)}}
}

// concrete string function through the real library
var matchMemo sync.Map

// matches: the ranges of numbers up to a size whose decimal text a pattern
// matches.
func matches(re *regexp.Regexp, most int) (r [][2]int64) {
	if v, ok := matchMemo.Load(re.String()); ok {
		return v.([][2]int64)
	}
	from, in := 0, false
	for i := -most; i <= most+1; i++ {
		m := i <= most && re.MatchString(strconv.Itoa(i))
		if m && !in {
			from = i
		}
		if !m && in {
			r = append(r, [2]int64{int64(from), int64(i - 1)})
		}
		in = m
	}
	matchMemo.Store(re.String(), r)
	return r
}

func strFn(f func(a []interface{}) interface{}) model {
	return func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
		var g []interface{}
		for i, v := range a {
			x, ok := e.goVal(v, fn.Signature.Params().At(i).Type())
			if !ok {
				// deterministic but unknown result
				rs := fn.Signature.Results()
				if rs.Len() == 1 {
					n := fn.String()
					for _, v := range a {
						n += ";" + e.valKey(st, v)
					}
					st.setFlag("imprecise")
					return e.mat(st, rs.At(0).Type(), n, nil)
				}
				unsup("%s on symbolic arguments", fn)
			}
			g = append(g, x)
		}
		switch r := f(g).(type) {
		case string:
			return e.strLit(r)
		case bool:
			return e.tm.B(r)
		case int64:
			return e.tm.I(r)
		case []string:
			var el []Val
			for _, s := range r {
				el = append(el, e.strLit(s))
			}
			return e.newSlice(st, types.Typ[types.String], elems(el...))
		}
		unsup("result of %s", fn)
		return nil
	}
}

func sv(x interface{}) string { return x.(string) }
func iv(x interface{}) int64 {
	switch v := x.(type) {
	case int64:
		return v
	case uint64:
		return int64(v)
	case uint8:
		return int64(v)
	}
	return 0
}

func init() {
	models = map[string]model{
		"encoding/binary.Write": mBinWrite,
		"encoding/binary.Read":  mBinRead,
		"bytes.NewBuffer": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			return &VPtr{Obj: e.newObj(st, &Obj{T: t, Buf: &BufState{S: e.sliceSeq(st, a[0].(*VSlice))}})}
		},
		"(*bytes.Buffer).Len": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			id, _, b := e.buf(st, a[0])
			for len(b.S.segs) > 0 && b.S.segs[0].k == SOpaque && e.P.fold[b.S.segs[0].fn] {
				// so that it is known whether a round is left
				e.putBuf(st, id, &BufState{S: e.unfoldSeg(st, b.S, 0), CanUnread: b.CanUnread, Last: b.Last})
				b = st.get(id).Buf
			}
			return e.seqLen(b.S)
		},
		"(*bytes.Buffer).Bytes": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			_, _, b := e.buf(st, a[0])
			return e.newSlice(st, types.Typ[types.Uint8], b.S)
		},
		"(*bytes.Buffer).String": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			_, _, b := e.buf(st, a[0])
			return &VStr{b.S}
		},
		"(*bytes.Buffer).Reset": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			id, _, _ := e.buf(st, a[0])
			e.putBuf(st, id, &BufState{S: &Seq{}})
			return nil
		},
		"(*bytes.Buffer).Grow": mNop,
		"(*bytes.Buffer).WriteString": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			e.bufWrite(st, a[0], a[1].(*VStr).S)
			return tup(e.seqLen(a[1].(*VStr).S), e.nilErr())
		},
		"(*bytes.Buffer).Write": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			q := e.sliceSeq(st, a[1].(*VSlice))
			e.bufWrite(st, a[0], q)
			return tup(e.seqLen(q), e.nilErr())
		},
		"(*bytes.Buffer).WriteByte": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			e.bufWrite(st, a[0], elems(a[1]))
			return e.nilErr()
		},
		"(*bytes.Buffer).ReadByte": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			id, _, b := e.front(st, a[0])
			if !e.decide(st, e.tm.Ule(e.tm.I(1), e.seqLen(b.S))) {
				e.putBuf(st, id, &BufState{S: &Seq{}})
				return tup(e.tm.C(0, 8), stdErr("io.EOF"))
			}
			q := e.bufTake(st, id, b, e.tm.I(1))
			return tup(e.at(st, q, e.tm.I(0)), e.nilErr())
		},
		"(*bytes.Buffer).UnreadByte": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			id, _, b := e.buf(st, a[0])
			if !b.CanUnread {
				return e.newErr("bytes.Buffer: UnreadByte: previous operation was not a successful read")
			}
			e.putBuf(st, id, &BufState{S: e.unread(st, b)})
			return e.nilErr()
		},
		"(*bytes.Buffer).Next": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			id, _, b := e.front(st, a[0])
			n := a[1].(*Term)
			L := e.seqLen(b.S)
			if !e.decide(st, e.tm.Sle(e.tm.I(0), n)) {
				gopanic("slice bounds out of range")
			}
			if !e.decide(st, e.tm.Ule(n, L)) {
				n = L
			}
			return e.newSlice(st, types.Typ[types.Uint8], e.bufTake(st, id, b, n))
		},
		"(*bytes.Buffer).Read": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			id, _, b := e.front(st, a[0])
			p := a[1].(*VSlice)
			tm := e.tm
			L := e.seqLen(b.S)
			if e.decide(st, tm.Eq(L, tm.I(0))) {
				e.putBuf(st, id, &BufState{S: &Seq{}})
				if e.decide(st, tm.Eq(p.Len, tm.I(0))) {
					return tup(tm.I(0), e.nilErr())
				}
				return tup(tm.I(0), stdErr("io.EOF"))
			}
			n := p.Len
			if !e.decide(st, tm.Ule(n, L)) {
				n = L
			}
			q := e.bufTake(st, id, b, n)
			if p.Obj != 0 {
				e.storeSeq(st, &VSlice{Obj: p.Obj, Off: p.Off, Len: n, Cap: p.Cap}, q)
			}
			return tup(n, e.nilErr())
		},
		"fmt.Errorf": mErrorf,
		"errors.New": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			if s, ok := e.constStr(a[0].(*VStr)); ok {
				return e.newErr(strings.ReplaceAll(s, "%", "%%"))
			}
			return e.newErr("%s", &VIface{T: types.Typ[types.String], V: a[0]})
		},
		"github.com/pkg/errors.New": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			if s, ok := e.constStr(a[0].(*VStr)); ok {
				return e.newErr(strings.ReplaceAll(s, "%", "%%"))
			}
			return e.newErr("%s", &VIface{T: types.Typ[types.String], V: a[0]})
		},
		"fmt.Sprintf": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			f, ok := e.constStr(a[0].(*VStr))
			if !ok {
				st.setFlag("imprecise")
				return &VStr{e.holeSeq(types.Typ[types.Uint8], "sprintf")}
			}
			return e.sprintf(st, f, e.argList(st, a[1]))
		},
		"fmt.Sprint": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			return e.sprintf(st, "%v", e.argList(st, a[0]))
		},
		"fmt.Printf": mNop, "fmt.Println": mNop, "fmt.Print": mNop, "log.Print": mNop, "log.Println": mNop, "log.Printf": mNop,
		"math.Float32bits":     func(e *Engine, st *State, a []Val, fn *ssa.Function) Val { return a[0] },
		"math.Float32frombits": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val { return a[0] },
		"math.Float64bits":     func(e *Engine, st *State, a []Val, fn *ssa.Function) Val { return a[0] },
		"math.Float64frombits": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val { return a[0] },
		"(*sync.Mutex).Lock":   mNop, "(*sync.Mutex).Unlock": mNop,
		"(*sync.RWMutex).Lock": mNop, "(*sync.RWMutex).Unlock": mNop, "(*sync.RWMutex).RLock": mNop, "(*sync.RWMutex).RUnlock": mNop,
		"time.Now": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			return &VOpaque{Name: e.tm.FreshName("now"), T: fn.Signature.Results().At(0).Type()}
		},
		"(time.Time).Add": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			return &VOpaque{Name: e.tm.FreshName("time"), T: fn.Signature.Results().At(0).Type()}
		},
		"(time.Time).Sub": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val { return e.tm.Fresh("dur", 64) },
		"time.Sleep":      mNop,
		"context.Background": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			return &VIface{T: modelDyn, V: &mctx{done: &VChan{}}}
		},
		"context.WithTimeout": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			c := &VChan{Obj: e.newObj(st, &Obj{T: types.Typ[types.Int], Chan: &ChanState{Label: "ctx.done", Elem: types.NewStruct(nil, nil)}})}
			return tup(&VIface{T: modelDyn, V: &mctx{done: c}}, &VFunc{Bi: "$noop"})
		},
		"context.WithCancel": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			c := &VChan{Obj: e.newObj(st, &Obj{T: types.Typ[types.Int], Chan: &ChanState{Label: "ctx.done", Elem: types.NewStruct(nil, nil)}})}
			return tup(&VIface{T: modelDyn, V: &mctx{done: c}}, &VFunc{Bi: "$cancel", Bind: []Val{c}})
		},
		"reflect.TypeOf": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			d := dynOf(st, e, a[0])
			if d.T == nil {
				return &VIface{}
			}
			return &VIface{T: modelDyn, V: &mtype{d.T}}
		},
		"strings.Contains":   strFn(func(a []interface{}) interface{} { return strings.Contains(sv(a[0]), sv(a[1])) }),
		"strings.HasSuffix":  strFn(func(a []interface{}) interface{} { return strings.HasSuffix(sv(a[0]), sv(a[1])) }),
		"strings.TrimSuffix": strFn(func(a []interface{}) interface{} { return strings.TrimSuffix(sv(a[0]), sv(a[1])) }),
		"strings.TrimSpace":  strFn(func(a []interface{}) interface{} { return strings.TrimSpace(sv(a[0])) }),
		"strings.Split":      strFn(func(a []interface{}) interface{} { return strings.Split(sv(a[0]), sv(a[1])) }),
		"strings.ToLower":    strFn(func(a []interface{}) interface{} { return strings.ToLower(sv(a[0])) }),
		"strings.ToUpper":    strFn(func(a []interface{}) interface{} { return strings.ToUpper(sv(a[0])) }),
		"strings.Repeat":     strFn(func(a []interface{}) interface{} { return strings.Repeat(sv(a[0]), int(iv(a[1]))) }),
		"strconv.FormatInt":  strFn(func(a []interface{}) interface{} { return strconv.FormatInt(iv(a[0]), int(iv(a[1]))) }),
		"strconv.Itoa":       strFn(func(a []interface{}) interface{} { return strconv.Itoa(int(iv(a[0]))) }),
		// the text decoder is a function of its input that may fail
		"golang.org/x/text/encoding/unicode.UTF16": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			return &VIface{T: modelDyn, V: &mopaque{"utf16(" + e.valKey(st, a[0]) + "," + e.valKey(st, a[1]) + ")"}}
		},
		"(*golang.org/x/text/encoding.Decoder).String": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			if e.decide(st, e.tm.Eq(e.seqLen(a[1].(*VStr).S), e.tm.I(0))) {
				return tup(e.strLit(""), e.nilErr())
			}
			n := e.sameText(st, "utf16:"+e.valKey(st, a[0]), a[1].(*VStr).S)
			st.setFlag("imprecise")
			if e.decide(st, e.tm.App(n+"$bad", 0)) {
				return tup(e.strLit(""), e.newErr("text not decodable"))
			}
			return tup(&VStr{&Seq{segs: []Seg{{k: SSlice, base: &Base{Name: n, Elem: types.Typ[types.Uint8]}, off: e.tm.I(0), ln: e.lenTerm(n+"$len", nil)}}}}, e.nilErr())
		},
		"net.IPv4": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			var el []Val
			for i := 0; i < 16; i++ {
				switch {
				case i < 10:
					el = append(el, e.tm.C(0, 8))
				case i < 12:
					el = append(el, e.tm.C(255, 8))
				default:
					el = append(el, a[i-12])
				}
			}
			return e.newSlice(st, types.Typ[types.Uint8], elems(el...))
		},
		"net.ParseIP": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			s, ok := e.constStr(a[0].(*VStr))
			if !ok {
				// a function of the text: no address, an IPv4 or another address
				st.setFlag("imprecise")
				n := "net.ParseIP;" + e.valKey(st, a[0])
				if e.decide(st, e.tm.App(n+"$none", 0)) {
					return e.zero(fn.Signature.Results().At(0).Type())
				}
				v4 := e.decide(st, e.tm.App(n+"$v4", 0))
				var el []Val
				for i := 0; i < 16; i++ {
					switch {
					case v4 && i < 10:
						el = append(el, e.tm.C(0, 8))
					case v4 && i < 12:
						el = append(el, e.tm.C(255, 8))
					default:
						el = append(el, e.tm.App(fmt.Sprintf("%s$%d", n, i), 8))
					}
				}
				if !v4 {
					// not of the form of an IPv4 address
					z := e.tm.T
					for i := 0; i < 10; i++ {
						z = e.tm.And(z, e.tm.Eq(el[i].(*Term), e.tm.C(0, 8)))
					}
					for i := 10; i < 12; i++ {
						z = e.tm.And(z, e.tm.Eq(el[i].(*Term), e.tm.C(255, 8)))
					}
					st.addPC(e.tm.Not(z))
				}
				return e.newSlice(st, types.Typ[types.Uint8], elems(el...))
			}
			ip := net.ParseIP(s)
			if ip == nil {
				return e.zero(fn.Signature.Results().At(0).Type())
			}
			var el []Val
			for _, b := range ip {
				el = append(el, e.tm.C(uint64(b), 8))
			}
			return e.newSlice(st, types.Typ[types.Uint8], elems(el...))
		},
		// integers of up to 8 octets
		"math/big.NewInt": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			return &VPtr{Obj: e.newObj(st, &Obj{T: t, Cell: &VOpaque{Name: "big.Int", T: t}, Data: map[string]Val{"big": a[0]}})}
		},
		"(*math/big.Int).SetBytes": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			s, ok := a[1].(*VSlice)
			if !ok {
				unsup("big.Int.SetBytes")
			}
			n := e.tm.C(0, 64)
			l := 0
			if s.Obj != 0 {
				u := e.sliceSeq(st, s)
				k := e.seqLen(u)
				if !k.isConst() || k.val > 7 {
					unsup("big.Int.SetBytes of many octets")
				}
				l = int(k.val)
				for i := 0; i < l; i++ {
					n = e.tm.Extract(e.tm.Concat(n, e.at(st, u, e.tm.I(int64(i))).(*Term)), 0, 64)
				}
			}
			p := a[0].(*VPtr)
			o := *st.get(p.Obj)
			o.Data = map[string]Val{"big": n}
			st.put(p.Obj, &o)
			return p
		},
		"(*math/big.Int).Int64": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			p := a[0].(*VPtr)
			v, ok := st.get(p.Obj).Data["big"]
			if !ok {
				unsup("big.Int")
			}
			return v
		},
		// a pattern and what it makes of the decimal text of a number
		"regexp.Compile": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			f, ok := e.constStr(a[0].(*VStr))
			t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			if !ok {
				unsup("pattern not constant")
			}
			if _, err := regexp.Compile(f); err != nil {
				return tup(&VPtr{}, e.newErr("pattern"))
			}
			return tup(&VPtr{Obj: e.newObj(st, &Obj{T: t, Cell: &VOpaque{Name: "regexp", T: t}, Data: map[string]Val{"re": a[0]}})}, e.nilErr())
		},
		"(*regexp.Regexp).MatchString": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			p := a[0].(*VPtr)
			f, ok := e.constStr(st.get(p.Obj).Data["re"].(*VStr))
			if !ok {
				unsup("pattern not constant")
			}
			re, err := regexp.Compile(f)
			if err != nil {
				unsup("pattern %q", f)
			}
			x := a[1].(*VStr)
			if s, ok := e.constStr(x); ok {
				return e.tm.B(re.MatchString(s))
			}
			other := e.tm.App("regexp;"+f+";"+e.valKey(st, x), 0)
			if len(x.S.segs) != 1 || x.S.segs[0].k != SSlice || len(x.S.segs[0].base.Idx) != 1 || !strings.HasPrefix(x.S.segs[0].base.Name, "fmt:%d") {
				st.setFlag("imprecise")
				return other
			}
			n := x.S.segs[0].base.Idx[0]
			const most = 1 << 17
			r := e.tm.F
			for _, g := range matches(re, most) {
				r = e.tm.Or(r, e.tm.And(e.tm.Sle(e.tm.I(g[0]), n), e.tm.Sle(n, e.tm.I(g[1]))))
			}
			far := e.tm.Or(e.tm.Slt(n, e.tm.I(-most)), e.tm.Slt(e.tm.I(most), n))
			return e.tm.Or(r, e.tm.And(far, other))
		},
		"(net.IP).String": func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
			n := "ipstr:" + e.valKey(st, a[0])
			return &VStr{&Seq{segs: []Seg{{k: SSlice, base: &Base{Name: n, Elem: types.Typ[types.Uint8]}, off: e.tm.I(0), ln: e.lenTerm(n+"$len", nil)}}}}
		},
	}
	for _, n := range []string{"(*Entry).Debug", "(*Logger).Debug", "(*Logger).Debugf", "(*Logger).Error", "(*Logger).Errorf", "(*Logger).SetLevel", "(*Logger).Print", "(*Logger).Println", "(*Logger).Info"} {
		i := strings.Index(n, ")")
		models["(*github.com/sirupsen/logrus."+n[2:i]+n[i:]] = mNop
	}
	for _, n := range []string{"Errorf", "Errorln", "Infof", "Infoln", "Printf", "Println", "Debugf", "Debug", "Error", "Info", "Print", "Warn", "Warnf"} {
		models["github.com/sirupsen/logrus."+n] = mNop
	}
	ptrRes := func(e *Engine, st *State, a []Val, fn *ssa.Function) Val {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return &VPtr{Obj: e.newObj(st, &Obj{T: t, Cell: &VOpaque{Name: "log", T: t}})}
	}
	models["github.com/sirupsen/logrus.New"] = ptrRes
	models["github.com/sirupsen/logrus.WithFields"] = ptrRes
	hmodels = map[string]hmodel{
		"(*sync.Pool).Get": func(e *Engine, fc *fctx, st *State, a []Val, fn *ssa.Function) []Outcome {
			p, ok := a[0].(*VPtr)
			if !ok {
				return []Outcome{{st: st, kind: OUnsup, msg: "sync.Pool"}}
			}
			k := "pool:" + e.valKey(nil, p)
			if q, ok := st.ghost[k].(*VTuple); ok && len(q.E) > 0 {
				v := q.E[len(q.E)-1]
				st.ghost[k] = &VTuple{E: append([]Val{}, q.E[:len(q.E)-1]...)}
				return ret(st, v)
			}
			pt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
			i := e.fieldIdx(pt, "New")
			f, ok := e.load(st, &VPtr{Obj: p.Obj, Path: append(append([]Sel{}, p.Path...), Sel{Field: i})}).(*VFunc)
			if !ok || f.Fn == nil {
				return ret(st, &VIface{})
			}
			d := 0
			if fc != nil {
				d = fc.depth
			}
			return e.call(st, f.Fn, nil, f.Bind, d+1)
		},
		"(*sync.Pool).Put": func(e *Engine, fc *fctx, st *State, a []Val, fn *ssa.Function) []Outcome {
			k := "pool:" + e.valKey(nil, a[0])
			n := &VTuple{}
			if q, ok := st.ghost[k].(*VTuple); ok {
				n.E = append(n.E, q.E...)
			}
			n.E = append(n.E, a[1])
			st.ghost[k] = n
			return ret(st, nil)
		},
	}
}

// unread puts the octet just read back in front.
func (e *Engine) unread(st *State, b *BufState) *Seq {
	if len(b.S.segs) > 0 {
		s := b.S.segs[0]
		if s.k == SSlice && !(s.off.isConst() && s.off.val == 0) {
			o := e.tm.Sub(s.off, e.tm.I(1))
			if e.isElemOf(s.base, o, b.Last[0]) {
				n := Seg{k: SSlice, base: s.base, off: o, ln: e.tm.Add(s.ln, e.tm.I(1))}
				return &Seq{segs: append([]Seg{n}, b.S.segs[1:]...)}
			}
		}
	}
	return e.cat(elems(b.Last[0]), b.S)
}

// sameText names the application of function fn to text q, by the name it
// already has where q is known to be a text met before.
func (e *Engine) sameText(st *State, fn string, q *Seq) string {
	for _, o := range e.texts[fn] {
		if e.seqKey(o) == e.seqKey(q) {
			return fn + e.seqKey(o)
		}
	}
	for _, o := range e.texts[fn] {
		if !e.implied(st, e.tm.Eq(e.seqLen(o), e.seqLen(q))) {
			continue
		}
		if t, ok := e.matchSeq(st, o, q, 0); ok && e.implied(st, t) {
			return fn + e.seqKey(o)
		}
	}
	if e.texts == nil {
		e.texts = map[string][]*Seq{}
	}
	if len(e.texts[fn]) < 50 {
		e.texts[fn] = append(e.texts[fn], q)
	}
	return fn + e.seqKey(q)
}
