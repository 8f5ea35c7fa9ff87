package main

// Terms: hash-consed quantifier-free bit-vector + uninterpreted-function
// expressions with a simplifying constructor for every operator.
// Width 0 is Bool, widths 1..64 are bit-vectors.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd // n-ary linear: args with coefs
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // val = lo ; width = hi-lo+1
	OConcat
)

type Term struct {
	op   Op
	w    int
	args []*Term
	coef []uint64 // OAdd
	val  uint64   // const value, OExtract low bit, OAdd constant
	name string
	id   int
	umx  uint64 // upper bound (unsigned), bit-vectors only
	umn  uint64
}

type TM struct {
	tab   map[string]*Term
	n     int
	T, F  *Term
	fresh int
}

func NewTM() *TM {
	m := &TM{tab: map[string]*Term{}}
	m.T = m.mk(&Term{op: OConst, w: 0, val: 1})
	m.F = m.mk(&Term{op: OConst, w: 0, val: 0})
	return m
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (m *TM) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(t.op))
	fmt.Fprintf(&b, "%d,%d,%s", t.w, t.val, t.name)
	for i, a := range t.args {
		fmt.Fprintf(&b, "|%d", a.id)
		if t.coef != nil {
			fmt.Fprintf(&b, "*%d", t.coef[i])
		}
	}
	k := b.String()
	if x, ok := m.tab[k]; ok {
		return x
	}
	m.n++
	t.id = m.n
	t.umn, t.umx = bounds(t)
	m.tab[k] = t
	return t
}

func bounds(t *Term) (uint64, uint64) {
	if t.w == 0 {
		return 0, 1
	}
	M := mask(t.w)
	switch t.op {
	case OConst:
		return t.val, t.val
	case OZext:
		return t.args[0].umn, t.args[0].umx
	case OExtract:
		if t.val == 0 && t.args[0].umx <= M {
			return t.args[0].umn, t.args[0].umx
		}
		if t.val > 0 {
			u := t.args[0].umx >> t.val
			if u <= M {
				return 0, u
			}
		}
		return 0, M
	case OBand:
		u := M
		for _, a := range t.args {
			if a.umx < u {
				u = a.umx
			}
		}
		return 0, u
	case OBor, OBxor:
		u := uint64(0)
		for _, a := range t.args {
			u |= a.umx
		}
		n := bits.Len64(u)
		return 0, mask(n) & M
	case OLshr:
		if t.args[1].op == OConst {
			s := t.args[1].val
			if s >= 64 {
				return 0, 0
			}
			return t.args[0].umn >> s, t.args[0].umx >> s
		}
		return 0, t.args[0].umx
	case OShl:
		if t.args[1].op == OConst {
			s := t.args[1].val
			if s < 64 && bits.Len64(t.args[0].umx)+int(s) <= t.w {
				return t.args[0].umn << s, t.args[0].umx << s
			}
		}
		return 0, M
	case OIte:
		a, b := t.args[1], t.args[2]
		mn, mx := a.umn, a.umx
		if b.umn < mn {
			mn = b.umn
		}
		if b.umx > mx {
			mx = b.umx
		}
		return mn, mx
	case OUdiv:
		if t.args[1].umn > 0 {
			return 0, t.args[0].umx / t.args[1].umn
		}
		return 0, M
	case OUrem:
		if t.args[1].umx > 0 && t.args[1].umn > 0 {
			return 0, t.args[1].umx - 1
		}
		return 0, M
	case OConcat:
		hi, lo := t.args[0], t.args[1]
		return hi.umn<<uint(lo.w) | lo.umn, hi.umx<<uint(lo.w) | lo.umx
	case OAdd:
		mx := t.val
		mn := t.val
		for i, a := range t.args {
			c := t.coef[i]
			h, l := bits.Mul64(c, a.umx)
			if h != 0 || l > M {
				return 0, M
			}
			s, cy := bits.Add64(mx, l, 0)
			if cy != 0 || s > M {
				return 0, M
			}
			mx = s
			mn += c * a.umn
		}
		return mn, mx
	}
	return 0, M
}

func (t *Term) isConst() bool { return t.op == OConst }

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v>>(uint(w)-1)&1 == 1 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func (m *TM) C(v uint64, w int) *Term {
	if w == 0 {
		if v != 0 {
			return m.T
		}
		return m.F
	}
	return m.mk(&Term{op: OConst, w: w, val: v & mask(w)})
}
func (m *TM) I(v int64) *Term { return m.C(uint64(v), 64) }
func (m *TM) B(b bool) *Term {
	if b {
		return m.T
	}
	return m.F
}
func (m *TM) Var(name string, w int) *Term { return m.mk(&Term{op: OVar, w: w, name: name}) }
func (m *TM) Fresh(p string, w int) *Term {
	m.fresh++
	return m.Var(fmt.Sprintf("%s!%d", p, m.fresh), w)
}
func (m *TM) FreshName(p string) string {
	m.fresh++
	return fmt.Sprintf("%s!%d", p, m.fresh)
}
func (m *TM) App(name string, w int, args ...*Term) *Term {
	if len(args) == 0 {
		return m.Var(name, w)
	}
	return m.mk(&Term{op: OApp, w: w, name: name, args: args})
}

func (m *TM) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return m.B(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return m.Ule(a.args[1], a.args[0])
	case OUle:
		return m.Ult(a.args[1], a.args[0])
	case OSlt:
		return m.Sle(a.args[1], a.args[0])
	case OSle:
		return m.Slt(a.args[1], a.args[0])
	}
	return m.mk(&Term{op: ONot, args: []*Term{a}})
}

func (m *TM) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == m.F {
			return false
		}
		if a == m.T || seen[a.id] {
			return true
		}
		if a.op == OAnd {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return m.F
		}
	}
	for _, a := range out {
		if seen[m.Not(a).id] {
			return m.F
		}
	}
	if len(out) == 0 {
		return m.T
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return m.mk(&Term{op: OAnd, args: out})
}
func (m *TM) Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = m.Not(a)
	}
	return m.Not(m.And(ns...))
}
func (m *TM) Implies(a, b *Term) *Term { return m.Or(m.Not(a), b) }

func (m *TM) Ite(c, a, b *Term) *Term {
	if c == m.T {
		return a
	}
	if c == m.F {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == m.T && b == m.F {
			return c
		}
		if a == m.F && b == m.T {
			return m.Not(c)
		}
		if a == m.T {
			return m.Or(c, b)
		}
		if a == m.F {
			return m.And(m.Not(c), b)
		}
		if b == m.T {
			return m.Or(m.Not(c), a)
		}
		if b == m.F {
			return m.And(c, a)
		}
	}
	if c.op == ONot {
		return m.Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return m.mk(&Term{op: OIte, w: a.w, args: []*Term{c, a, b}})
}

func (m *TM) Eq(a, b *Term) *Term {
	if a == b {
		return m.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d: %s / %s", a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return m.B(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b == m.T {
			return a
		}
		if b == m.F {
			return m.Not(a)
		}
		if m.Not(a) == b {
			return m.F
		}
	} else {
		if a.umx < b.umn || b.umx < a.umn {
			return m.F
		}
		if b.isConst() {
			switch a.op {
			case OZext:
				return m.Eq(a.args[0], m.C(b.val, a.args[0].w))
			case OSext:
				x := a.args[0]
				if uint64(sx(b.val&mask(x.w), x.w))&mask(a.w) != b.val {
					return m.F
				}
				return m.Eq(x, m.C(b.val, x.w))
			case OIte:
				x, y := a.args[1], a.args[2]
				if x.isConst() || y.isConst() || true {
					if x.isConst() && y.isConst() {
						return m.Ite(a.args[0], m.B(x.val == b.val), m.B(y.val == b.val))
					}
					ex, ey := m.Eq(x, b), m.Eq(y, b)
					return m.Ite(a.args[0], ex, ey)
				}
			case OConcat:
				hi, lo := a.args[0], a.args[1]
				return m.And(m.Eq(hi, m.C(b.val>>uint(lo.w), hi.w)), m.Eq(lo, m.C(b.val, lo.w)))
			case OAdd:
				if len(a.args) == 1 && a.coef[0] == 1 {
					return m.Eq(a.args[0], m.C(b.val-a.val, a.w))
				}
				if len(a.args) == 1 && a.coef[0] == mask(a.w) {
					return m.Eq(a.args[0], m.C(a.val-b.val, a.w))
				}
			case OBnot:
				return m.Eq(a.args[0], m.C(^b.val, a.w))
			}
		} else {
			if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
				return m.Eq(a.args[0], b.args[0])
			}
			if a.op == OConcat && b.op == OConcat && a.args[0].w == b.args[0].w {
				return m.And(m.Eq(a.args[0], b.args[0]), m.Eq(a.args[1], b.args[1]))
			}
			if a.op == OAdd || b.op == OAdd {
				d := m.Sub(a, b)
				if d.isConst() {
					return m.B(d.val == 0)
				}
				if d.op == OAdd && len(d.args) == 1 {
					return m.Eq(d, m.C(0, d.w))
				}
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return m.mk(&Term{op: OEq, args: []*Term{a, b}})
}
func (m *TM) Ne(a, b *Term) *Term { return m.Not(m.Eq(a, b)) }

// linear normal form
func (m *TM) lin(w int, parts []*Term, cs []uint64, k uint64) *Term {
	M := mask(w)
	acc := map[*Term]uint64{}
	var add func(t *Term, c uint64)
	add = func(t *Term, c uint64) {
		c &= M
		if c == 0 {
			return
		}
		switch t.op {
		case OConst:
			k += c * t.val
		case OAdd:
			k += c * t.val
			for i, a := range t.args {
				add(a, c*t.coef[i])
			}
		default:
			acc[t] += c
		}
	}
	for i, p := range parts {
		add(p, cs[i])
	}
	k &= M
	var ts []*Term
	for t, c := range acc {
		if c&M != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return m.C(k, w)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && acc[ts[0]]&M == 1 && k == 0 {
		return ts[0]
	}
	co := make([]uint64, len(ts))
	for i, t := range ts {
		co[i] = acc[t] & M
	}
	return m.mk(&Term{op: OAdd, w: w, args: ts, coef: co, val: k})
}
func (m *TM) Add(a, b *Term) *Term { return m.lin(a.w, []*Term{a, b}, []uint64{1, 1}, 0) }
func (m *TM) Sub(a, b *Term) *Term { return m.lin(a.w, []*Term{a, b}, []uint64{1, ^uint64(0)}, 0) }
func (m *TM) Neg(a *Term) *Term    { return m.lin(a.w, []*Term{a}, []uint64{^uint64(0)}, 0) }
func (m *TM) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return m.C(a.val*b.val, a.w)
		}
		return m.lin(a.w, []*Term{a}, []uint64{b.val}, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.mk(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func (m *TM) bin(op Op, a, b *Term) *Term {
	return m.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}
func (m *TM) Udiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return m.C(a.val/b.val, a.w)
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return m.Lshr(a, m.C(uint64(bits.TrailingZeros64(b.val)), a.w))
		}
	}
	return m.bin(OUdiv, a, b)
}
func (m *TM) Urem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return m.C(a.val%b.val, a.w)
		}
		if b.val&(b.val-1) == 0 {
			return m.Band(a, m.C(b.val-1, a.w))
		}
	}
	return m.bin(OUrem, a, b)
}
func (m *TM) nonneg(a *Term) bool { return a.umx>>(uint(a.w)-1) == 0 }
func (m *TM) Sdiv(a, b *Term) *Term {
	if m.nonneg(a) && m.nonneg(b) {
		return m.Udiv(a, b)
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		return m.C(uint64(sx(a.val, a.w)/sx(b.val, b.w)), a.w)
	}
	return m.bin(OSdiv, a, b)
}
func (m *TM) Srem(a, b *Term) *Term {
	if m.nonneg(a) && m.nonneg(b) {
		return m.Urem(a, b)
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		return m.C(uint64(sx(a.val, a.w)%sx(b.val, b.w)), a.w)
	}
	return m.bin(OSrem, a, b)
}

func (m *TM) Band(a, b *Term) *Term {
	if a.w == 0 {
		return m.And(a, b)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return m.C(a.val&b.val, a.w)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// mask covers every possible bit
		n := bits.Len64(a.umx)
		if mask(n)&^b.val == 0 {
			return a
		}
		if a.op == OBand && a.args[1].isConst() {
			return m.Band(a.args[0], m.C(a.args[1].val&b.val, a.w))
		}
		if a.op == OBor {
			return m.Bor(m.Band(a.args[0], b), m.Band(a.args[1], b))
		}
		if a.op == OIte {
			return m.Ite(a.args[0], m.Band(a.args[1], b), m.Band(a.args[2], b))
		}
		if a.op == OShl && a.args[1].isConst() {
			s := a.args[1].val
			if s < 64 && b.val&^(mask(a.w)<<s) != 0 {
				return m.Band(a, m.C(b.val&(mask(a.w)<<s), a.w))
			}
		}
		// low mask -> zext(extract)
		if b.val&(b.val+1) == 0 {
			k := bits.Len64(b.val)
			return m.Zext(m.Extract(a, 0, k), a.w)
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return m.bin(OBand, a, b)
}
func (m *TM) Bor(a, b *Term) *Term {
	if a.w == 0 {
		return m.Or(a, b)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return m.C(a.val|b.val, a.w)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
		if a.op == OBor && a.args[1].isConst() {
			return m.Bor(a.args[0], m.C(a.args[1].val|b.val, a.w))
		}
		if a.op == OIte {
			return m.Ite(a.args[0], m.Bor(a.args[1], b), m.Bor(a.args[2], b))
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return m.bin(OBor, a, b)
}
func (m *TM) Bxor(a, b *Term) *Term {
	if a.w == 0 {
		return m.Not(m.Eq(a, b))
	}
	if a == b {
		return m.C(0, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return m.C(a.val^b.val, a.w)
		}
		if b.val == 0 {
			return a
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return m.bin(OBxor, a, b)
}
func (m *TM) Bnot(a *Term) *Term {
	if a.isConst() {
		return m.C(^a.val, a.w)
	}
	if a.op == OBnot {
		return a.args[0]
	}
	return m.mk(&Term{op: OBnot, w: a.w, args: []*Term{a}})
}

// shifts: b has the same width as a; shift >= w gives 0 (or sign)
func (m *TM) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.val >= uint64(a.w) {
			return m.C(0, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			return m.C(a.val<<b.val, a.w)
		}
		if a.op == OShl && a.args[1].isConst() {
			return m.Shl(a.args[0], m.C(min64(a.args[1].val+b.val, 255), a.w))
		}
		if a.op == OIte {
			return m.Ite(a.args[0], m.Shl(a.args[1], b), m.Shl(a.args[2], b))
		}
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return m.bin(OShl, a, b)
}
func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func (m *TM) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.val >= uint64(a.w) || (b.val < 64 && a.umx>>b.val == 0) {
			return m.C(0, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			return m.C(a.val>>b.val, a.w)
		}
		if a.op == OZext && b.val < uint64(a.args[0].w) {
			return m.Zext(m.Extract(a.args[0], int(b.val), a.args[0].w-int(b.val)), a.w)
		}
		if a.op == OBor {
			return m.Bor(m.Lshr(a.args[0], b), m.Lshr(a.args[1], b))
		}
		if a.op == OBand {
			return m.Band(m.Lshr(a.args[0], b), m.Lshr(a.args[1], b))
		}
		if a.op == OShl && a.args[1].isConst() && a.args[1].val == b.val {
			return m.Band(a.args[0], m.C(mask(a.w)>>b.val, a.w))
		}
		if a.op == OIte {
			return m.Ite(a.args[0], m.Lshr(a.args[1], b), m.Lshr(a.args[2], b))
		}
		if a.op == OVar || a.op == OApp {
			return m.Zext(m.Extract(a, int(b.val), a.w-int(b.val)), a.w)
		}
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return m.bin(OLshr, a, b)
}
func (m *TM) Ashr(a, b *Term) *Term {
	if m.nonneg(a) {
		return m.Lshr(a, b)
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			s := b.val
			if s > 63 {
				s = 63
			}
			return m.C(uint64(sx(a.val, a.w)>>s), a.w)
		}
	}
	return m.bin(OAshr, a, b)
}
func (m *TM) Ult(a, b *Term) *Term {
	if a == b {
		return m.F
	}
	if a.umx < b.umn {
		return m.T
	}
	if a.umn >= b.umx {
		return m.F
	}
	if b.isConst() && b.val == 1 {
		return m.Eq(a, m.C(0, a.w))
	}
	if a.op == OZext && b.isConst() && b.val <= mask(a.args[0].w) {
		return m.Ult(a.args[0], m.C(b.val, a.args[0].w))
	}
	if b.op == OZext && a.isConst() && a.val <= mask(b.args[0].w) {
		return m.Ult(m.C(a.val, b.args[0].w), b.args[0])
	}
	if a.isConst() && a.val == 0 {
		return m.Ne(b, a)
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return m.Ult(a.args[0], b.args[0])
	}
	return m.mk(&Term{op: OUlt, args: []*Term{a, b}})
}
func (m *TM) Ule(a, b *Term) *Term {
	if a == b {
		return m.T
	}
	if a.umx <= b.umn {
		return m.T
	}
	if a.umn > b.umx {
		return m.F
	}
	if b.isConst() && b.val != mask(a.w) {
		return m.Ult(a, m.C(b.val+1, a.w))
	}
	if a.isConst() && a.val != 0 {
		return m.Ult(m.C(a.val-1, a.w), b)
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return m.Ule(a.args[0], b.args[0])
	}
	return m.mk(&Term{op: OUle, args: []*Term{a, b}})
}
func (m *TM) Slt(a, b *Term) *Term {
	if a == b {
		return m.F
	}
	if a.isConst() && b.isConst() {
		return m.B(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if m.nonneg(a) && m.nonneg(b) {
		return m.Ult(a, b)
	}
	// same term plus constants with known small bounds is handled by the solver
	return m.mk(&Term{op: OSlt, args: []*Term{a, b}})
}
func (m *TM) Sle(a, b *Term) *Term {
	if a == b {
		return m.T
	}
	if a.isConst() && b.isConst() {
		return m.B(sx(a.val, a.w) <= sx(b.val, b.w))
	}
	if m.nonneg(a) && m.nonneg(b) {
		return m.Ule(a, b)
	}
	if a.isConst() && a.val != mask(a.w)>>1+1 {
		return m.Slt(m.C(a.val-1, a.w), b)
	}
	if b.isConst() && b.val != mask(b.w)>>1 {
		return m.Slt(a, m.C(b.val+1, b.w))
	}
	return m.mk(&Term{op: OSle, args: []*Term{a, b}})
}

func (m *TM) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w == 0 {
		return m.Ite(a, m.C(1, w), m.C(0, w))
	}
	if a.isConst() {
		return m.C(a.val, w)
	}
	if a.op == OZext {
		return m.Zext(a.args[0], w)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return m.Ite(a.args[0], m.Zext(a.args[1], w), m.Zext(a.args[2], w))
	}
	return m.mk(&Term{op: OZext, w: w, args: []*Term{a}})
}
func (m *TM) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return m.C(uint64(sx(a.val, a.w)), w)
	}
	if m.nonneg(a) {
		return m.Zext(a, w)
	}
	return m.mk(&Term{op: OSext, w: w, args: []*Term{a}})
}

// Extract n bits starting at bit lo
func (m *TM) Extract(a *Term, lo, n int) *Term {
	if lo == 0 && n == a.w {
		return a
	}
	if a.isConst() {
		return m.C(a.val>>uint(lo), n)
	}
	switch a.op {
	case OExtract:
		return m.Extract(a.args[0], int(a.val)+lo, n)
	case OZext:
		x := a.args[0]
		if lo+n <= x.w {
			return m.Extract(x, lo, n)
		}
		if lo >= x.w {
			return m.C(0, n)
		}
		return m.Zext(m.Extract(x, lo, x.w-lo), n)
	case OSext:
		x := a.args[0]
		if lo+n <= x.w {
			return m.Extract(x, lo, n)
		}
		if lo == 0 {
			return m.Sext(x, n)
		}
	case OConcat:
		hi, l := a.args[0], a.args[1]
		if lo+n <= l.w {
			return m.Extract(l, lo, n)
		}
		if lo >= l.w {
			return m.Extract(hi, lo-l.w, n)
		}
		return m.Concat(m.Extract(hi, 0, lo+n-l.w), m.Extract(l, lo, l.w-lo))
	case OBand:
		return m.Band(m.Extract(a.args[0], lo, n), m.Extract(a.args[1], lo, n))
	case OBor:
		return m.Bor(m.Extract(a.args[0], lo, n), m.Extract(a.args[1], lo, n))
	case OBxor:
		return m.Bxor(m.Extract(a.args[0], lo, n), m.Extract(a.args[1], lo, n))
	case OIte:
		return m.Ite(a.args[0], m.Extract(a.args[1], lo, n), m.Extract(a.args[2], lo, n))
	case OShl:
		if a.args[1].isConst() {
			s := int(a.args[1].val)
			if lo >= s {
				return m.Extract(a.args[0], lo-s, n)
			}
			if lo+n <= s {
				return m.C(0, n)
			}
		}
	case OLshr:
		if a.args[1].isConst() {
			s := int(a.args[1].val)
			if lo+s+n <= a.w {
				return m.Extract(a.args[0], lo+s, n)
			}
			if lo+s >= a.w {
				return m.C(0, n)
			}
		}
	case OAdd:
		if lo == 0 {
			ps := make([]*Term, len(a.args))
			for i, x := range a.args {
				ps[i] = m.Extract(x, 0, n)
			}
			cs := make([]uint64, len(a.coef))
			copy(cs, a.coef)
			return m.lin(n, ps, cs, a.val)
		}
	}
	return m.mk(&Term{op: OExtract, w: n, val: uint64(lo), args: []*Term{a}})
}
func (m *TM) Concat(hi, lo *Term) *Term {
	if hi.isConst() && lo.isConst() {
		return m.C(hi.val<<uint(lo.w)|lo.val, hi.w+lo.w)
	}
	if hi.isConst() && hi.val == 0 {
		return m.Zext(lo, hi.w+lo.w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.args[0] == lo.args[0] && hi.val == lo.val+uint64(lo.w) {
		return m.Extract(hi.args[0], int(lo.val), hi.w+lo.w)
	}
	if hi.op == OZext && lo.op == OExtract && hi.args[0].op == OExtract && hi.args[0].args[0] == lo.args[0] && hi.args[0].val == lo.val+uint64(lo.w) {
		return m.Zext(m.Extract(lo.args[0], int(lo.val), hi.args[0].w+lo.w), hi.w+lo.w)
	}
	return m.mk(&Term{op: OConcat, w: hi.w + lo.w, args: []*Term{hi, lo}})
}

func (t *Term) String() string {
	return t.str(0)
}
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d:%d", sx(t.val, t.w), t.w)
	case OVar:
		return t.name
	}
	n := map[Op]string{OApp: t.name, ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "+", OMul: "*", OUdiv: "udiv", OUrem: "urem", OSdiv: "sdiv", OSrem: "srem", OBand: "&", OBor: "|", OBxor: "^", OBnot: "~", OShl: "<<", OLshr: ">>", OAshr: ">>>", OUlt: "<u", OUle: "<=u", OSlt: "<s", OSle: "<=s", OZext: "zext", OSext: "sext", OExtract: "extract", OConcat: "concat"}[t.op]
	var s []string
	for i, a := range t.args {
		x := a.str(d + 1)
		if t.coef != nil && t.coef[i] != 1 {
			x = fmt.Sprintf("%d*%s", sx(t.coef[i], t.w), x)
		}
		s = append(s, x)
	}
	if t.op == OAdd && t.val != 0 {
		s = append(s, fmt.Sprint(sx(t.val, t.w)))
	}
	if t.op == OExtract {
		s = append(s, fmt.Sprintf("[%d..%d]", t.val, int(t.val)+t.w-1))
	}
	if t.op == OZext {
		s = append(s, fmt.Sprint(t.w))
	}
	return "(" + n + " " + strings.Join(s, " ") + ")"
}

// substitution of variables/applications
func (m *TM) Subst(t *Term, sub map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := sub[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = m.Subst(a, sub, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = m.rebuild(t, na)
	}
	memo[t] = r
	return r
}

func (m *TM) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return m.App(t.name, t.w, a...)
	case ONot:
		return m.Not(a[0])
	case OAnd:
		return m.And(a...)
	case OOr:
		return m.Or(a...)
	case OIte:
		return m.Ite(a[0], a[1], a[2])
	case OEq:
		return m.Eq(a[0], a[1])
	case OAdd:
		return m.lin(t.w, a, t.coef, t.val)
	case OMul:
		return m.Mul(a[0], a[1])
	case OUdiv:
		return m.Udiv(a[0], a[1])
	case OUrem:
		return m.Urem(a[0], a[1])
	case OSdiv:
		return m.Sdiv(a[0], a[1])
	case OSrem:
		return m.Srem(a[0], a[1])
	case OBand:
		return m.Band(a[0], a[1])
	case OBor:
		return m.Bor(a[0], a[1])
	case OBxor:
		return m.Bxor(a[0], a[1])
	case OBnot:
		return m.Bnot(a[0])
	case OShl:
		return m.Shl(a[0], a[1])
	case OLshr:
		return m.Lshr(a[0], a[1])
	case OAshr:
		return m.Ashr(a[0], a[1])
	case OUlt:
		return m.Ult(a[0], a[1])
	case OUle:
		return m.Ule(a[0], a[1])
	case OSlt:
		return m.Slt(a[0], a[1])
	case OSle:
		return m.Sle(a[0], a[1])
	case OZext:
		return m.Zext(a[0], t.w)
	case OSext:
		return m.Sext(a[0], t.w)
	case OExtract:
		return m.Extract(a[0], int(t.val), t.w)
	case OConcat:
		return m.Concat(a[0], a[1])
	}
	panic("rebuild")
}
