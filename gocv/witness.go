package main

// Witnesses: valuations that satisfied an earlier query. A query is satisfiable
// as soon as one of them satisfies every conjunct of it, which evaluation
// decides without the solver. Evaluation follows SMT-LIB's meaning of each
// operator; variables and function entries a valuation does not mention are 0.

import (
	"bufio"
	"fmt"
	"io"
	"strconv"
	"strings"
)

type Witness struct {
	vars map[string]uint64            // varKey → value
	ufs  map[string]map[string]uint64 // ufKey → arguments → value
	memo map[int]uint64
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func sxt(v uint64, w int) int64 {
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (m *Witness) args(t *Term) string {
	var b []byte
	for _, a := range t.args {
		b = strconv.AppendUint(b, m.eval(a), 16)
		b = append(b, ',')
	}
	return string(b)
}

func (m *Witness) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	v := m.eval1(t)
	if t.w == 0 {
		v &= 1
	} else {
		v &= mask(t.w)
	}
	m.memo[t.id] = v
	return v
}

func (m *Witness) eval1(t *Term) uint64 {
	a := func(i int) uint64 { return m.eval(t.args[i]) }
	aw := 0
	if len(t.args) > 0 {
		aw = t.args[0].w
	}
	switch t.op {
	case OVar:
		return m.vars[varKey(t)]
	case OApp:
		return m.ufs[ufKey(t)][m.args(t)]
	case ONot:
		return a(0) ^ 1
	case OAnd:
		for i := range t.args {
			if a(i) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for i := range t.args {
			if a(i) == 1 {
				return 1
			}
		}
		return 0
	case OIte:
		if a(0) == 1 {
			return a(1)
		}
		return a(2)
	case OEq:
		return b2u(a(0) == a(1))
	case OAdd:
		v := t.val
		for i := range t.args {
			v += t.coef[i] * a(i)
		}
		return v
	case OMul:
		v := uint64(1)
		for i := range t.args {
			v *= a(i)
		}
		return v
	case OUdiv:
		if a(1) == 0 {
			return mask(t.w)
		}
		return a(0) / a(1)
	case OUrem:
		if a(1) == 0 {
			return a(0)
		}
		return a(0) % a(1)
	case OSdiv, OSrem:
		x, y := sxt(a(0), t.w), sxt(a(1), t.w)
		if t.op == OSdiv {
			switch {
			case y == 0 && x < 0:
				return 1
			case y == 0:
				return mask(t.w)
			case y == -1:
				return uint64(-x)
			}
			return uint64(x / y)
		}
		if y == 0 {
			return a(0)
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OBand:
		v := mask(t.w)
		for i := range t.args {
			v &= a(i)
		}
		return v
	case OBor:
		v := uint64(0)
		for i := range t.args {
			v |= a(i)
		}
		return v
	case OBxor:
		v := uint64(0)
		for i := range t.args {
			v ^= a(i)
		}
		return v
	case OBnot:
		return ^a(0)
	case OShl:
		if a(1) >= uint64(t.w) {
			return 0
		}
		return a(0) << a(1)
	case OLshr:
		if a(1) >= uint64(t.w) {
			return 0
		}
		return a(0) >> a(1)
	case OAshr:
		n := a(1)
		if n >= uint64(t.w) {
			n = uint64(t.w) - 1
		}
		return uint64(sxt(a(0), t.w) >> n)
	case OUlt:
		return b2u(a(0) < a(1))
	case OUle:
		return b2u(a(0) <= a(1))
	case OSlt:
		return b2u(sxt(a(0), aw) < sxt(a(1), aw))
	case OSle:
		return b2u(sxt(a(0), aw) <= sxt(a(1), aw))
	case OZext:
		return a(0)
	case OSext:
		return uint64(sxt(a(0), aw))
	case OExtract:
		return a(0) >> t.val
	case OConcat:
		v := uint64(0)
		for i := range t.args {
			v = v<<uint(t.args[i].w) | a(i)
		}
		return v
	}
	panic("witness: operator")
}

const witnesses = 160

// known tries the stored witnesses on cs, the latest conjunct first.
func (s *Solver) known(cs []*Term) bool {
	for i, m := range s.wits {
		ok := true
		for j := len(cs) - 1; j >= 0; j-- {
			if m.eval(cs[j]) == 0 {
				ok = false
				break
			}
		}
		if ok {
			copy(s.wits[1:i+1], s.wits[:i])
			s.wits[0] = m
			s.Known++
			return true
		}
	}
	return false
}

// learn asks the solver, which has just answered sat to cs, for the values of
// the variables and applications of cs. What cs does not mention is taken from
// the latest witness.
func (s *Solver) learn(cs []*Term) {
	var ask []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OVar || t.op == OApp {
			ask = append(ask, t)
		}
	}
	for _, c := range cs {
		walk(c)
	}
	if len(ask) == 0 {
		return
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, t := range ask {
		b.WriteString(s.ref(t))
		b.WriteByte(' ')
	}
	b.WriteString("))\n")
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		return
	}
	vals, ok := readValues(s.out, len(ask))
	if !ok {
		fmt.Fprintln(s.in, "(echo \"\")")
		return
	}
	m := &Witness{vars: map[string]uint64{}, ufs: map[string]map[string]uint64{}, memo: map[int]uint64{}}
	fns := map[string]bool{}
	for i, t := range ask {
		if t.op == OVar {
			m.vars[varKey(t)] = vals[i]
		} else {
			fns[ufKey(t)] = true
		}
	}
	if len(s.wits) > 0 {
		o := s.wits[0]
		for k, v := range o.vars {
			if _, ok := m.vars[k]; !ok {
				m.vars[k] = v
			}
		}
		for k, v := range o.ufs {
			if !fns[k] {
				m.ufs[k] = v
			}
		}
	}
	// applications are listed after their arguments
	for i, t := range ask {
		if t.op == OApp {
			k := ufKey(t)
			if m.ufs[k] == nil {
				m.ufs[k] = map[string]uint64{}
			}
			m.ufs[k][m.args(t)] = vals[i]
			m.memo[t.id] = vals[i]
		}
	}
	for _, c := range cs {
		if m.eval(c) == 0 {
			s.BadWit++
			return
		}
	}
	s.wits = append([]*Witness{m}, s.wits...)
	if len(s.wits) > witnesses {
		s.wits = s.wits[:witnesses]
	}
}

// readValues reads ((term value) ...), n pairs, where a term is a name.
func readValues(r *bufio.Reader, n int) ([]uint64, bool) {
	var out []uint64
	depth := 0
	var tok strings.Builder
	quoted := false
	var toks []string
	flush := func() {
		if tok.Len() > 0 {
			toks = append(toks, tok.String())
			tok.Reset()
		}
	}
	for {
		c, err := r.ReadByte()
		if err != nil {
			return nil, false
		}
		switch {
		case c == '|':
			quoted = !quoted
			tok.WriteByte(c)
		case quoted:
			tok.WriteByte(c)
		case c == '(':
			flush()
			depth++
			if depth == 2 {
				toks = toks[:0]
			}
		case c == ')':
			flush()
			if depth == 2 {
				if len(toks) < 2 {
					return nil, false
				}
				out = append(out, parseVal(toks[len(toks)-1]))
			}
			depth--
			if depth == 0 {
				return out, len(out) == n
			}
		case c == ' ' || c == '\n' || c == '\r' || c == '\t':
			flush()
		default:
			tok.WriteByte(c)
		}
	}
}
