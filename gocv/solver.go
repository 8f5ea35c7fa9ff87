package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	tm      *TM
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	declUF  map[string]bool
	cache   map[string]Res
	Time    time.Duration
	Queries int
	ByBack  map[string]int // discharged final obligations per back end
	toMS    int
	OneShot int
	wits    []*Witness
	Known   int // queries a witness settled
	BadWit  int // valuations evaluation did not confirm
	models  map[string]map[string]uint64
}

func NewSolver(tm *TM) *Solver {
	s := &Solver{tm: tm, cache: map[string]Res{}, ByBack: map[string]int{}, toMS: 1500, models: map[string]map[string]uint64{}}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start z3-new:", err)
		os.Exit(3)
	}
	s.defined = map[int]bool{}
	s.declUF = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-logic QF_UFBV)\n", s.toMS)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func qn(n string) string { return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|" }

func varKey(t *Term) string { return t.name + "@" + strconv.Itoa(t.w) }

func ufKey(t *Term) string {
	k := t.name
	for _, a := range t.args {
		k += "," + strconv.Itoa(a.w)
	}
	return k + ":" + strconv.Itoa(t.w)
}

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	}
	if t.op == OVar {
		return qn(varKey(t))
	}
	return "t" + strconv.Itoa(t.id)
}

func (s *Solver) body(t *Term) string {
	r := make([]string, len(t.args))
	for i, a := range t.args {
		r[i] = s.ref(a)
	}
	j := strings.Join(r, " ")
	switch t.op {
	case OApp:
		return "(" + qn(ufKey(t)) + " " + j + ")"
	case ONot:
		return "(not " + j + ")"
	case OAnd:
		return "(and " + j + ")"
	case OOr:
		return "(or " + j + ")"
	case OIte:
		return "(ite " + j + ")"
	case OEq:
		return "(= " + j + ")"
	case OAdd:
		var p []string
		for i := range t.args {
			if t.coef[i] == 1 {
				p = append(p, r[i])
			} else if t.coef[i] == mask(t.w) {
				p = append(p, "(bvneg "+r[i]+")")
			} else {
				p = append(p, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", t.coef[i], t.w, r[i]))
			}
		}
		if t.val != 0 {
			p = append(p, fmt.Sprintf("(_ bv%d %d)", t.val, t.w))
		}
		if len(p) == 1 {
			return p[0]
		}
		return "(bvadd " + strings.Join(p, " ") + ")"
	case OMul:
		return "(bvmul " + j + ")"
	case OUdiv:
		return "(bvudiv " + j + ")"
	case OUrem:
		return "(bvurem " + j + ")"
	case OSdiv:
		return "(bvsdiv " + j + ")"
	case OSrem:
		return "(bvsrem " + j + ")"
	case OBand:
		return "(bvand " + j + ")"
	case OBor:
		return "(bvor " + j + ")"
	case OBxor:
		return "(bvxor " + j + ")"
	case OBnot:
		return "(bvnot " + j + ")"
	case OShl:
		return "(bvshl " + j + ")"
	case OLshr:
		return "(bvlshr " + j + ")"
	case OAshr:
		return "(bvashr " + j + ")"
	case OUlt:
		return "(bvult " + j + ")"
	case OUle:
		return "(bvule " + j + ")"
	case OSlt:
		return "(bvslt " + j + ")"
	case OSle:
		return "(bvsle " + j + ")"
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, j)
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, j)
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+t.w-1, t.val, j)
	case OConcat:
		return "(concat " + j + ")"
	}
	panic("body")
}

// emit definitions for t (and below) to w, tracking in defined / decl
func (s *Solver) emit(w *bytes.Buffer, t *Term, defined map[int]bool, decl map[string]bool) {
	if t.op == OConst || defined[t.id] {
		return
	}
	defined[t.id] = true
	if t.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", qn(varKey(t)), sortStr(t.w))
		return
	}
	for _, a := range t.args {
		s.emit(w, a, defined, decl)
	}
	if t.op == OApp {
		k := ufKey(t)
		if !decl[k] {
			decl[k] = true
			as := ""
			for _, a := range t.args {
				as += sortStr(a.w) + " "
			}
			fmt.Fprintf(w, "(declare-fun %s (%s) %s)\n", qn(k), as, sortStr(t.w))
		}
	}
	fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), s.body(t))
}

// independence slicing
func leaves(t *Term, memo map[int]map[string]bool) map[string]bool {
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := map[string]bool{}
	if t.op == OVar {
		r[varKey(t)] = true
	} else if t.op == OApp {
		r["@"+t.name] = true
	}
	for _, a := range t.args {
		for k := range leaves(a, memo) {
			r[k] = true
		}
	}
	memo[t.id] = r
	return r
}

var leafMemoLimit = 200000

func (s *Solver) slice(pc []*Term, goal *Term, memo map[int]map[string]bool) []*Term {
	rel := map[string]bool{}
	for k := range leaves(goal, memo) {
		rel[k] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			l := leaves(c, memo)
			hit := false
			for k := range l {
				if rel[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, c)
				for k := range l {
					rel[k] = true
				}
			}
		}
	}
	return out
}

func key(cs []*Term) string {
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, i := range ids {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(',')
	}
	return b.String()
}

var leafMemos = map[*Solver]map[int]map[string]bool{}

func (s *Solver) memo() map[int]map[string]bool {
	lmMu.Lock()
	defer lmMu.Unlock()
	m := leafMemos[s]
	if m == nil || len(m) > leafMemoLimit {
		m = map[int]map[string]bool{}
		leafMemos[s] = m
	}
	return m
}

// CheckSliced decides satisfiability of pc ∧ goal given that pc is satisfiable.
func (s *Solver) CheckSliced(pc []*Term, goal *Term) Res {
	if goal.isConst() {
		if goal.val == 1 {
			return Sat
		}
		return Unsat
	}
	cs := append(s.slice(pc, goal, s.memo()), goal)
	return s.Check(cs)
}

func (s *Solver) Check(cs []*Term) Res {
	for _, c := range cs {
		if c == s.tm.F {
			return Unsat
		}
	}
	k := key(cs)
	if r, ok := s.cache[k]; ok {
		return r
	}
	if s.known(cs) {
		s.cache[k] = Sat
		return Sat
	}
	r := s.run(cs, nil, nil)
	if r == Unknown {
		// the incremental solver gave up: whole-query solvers, afresh
		r, _ = s.Fallback(cs, 8)
		s.OneShot++
	}
	s.cache[k] = r
	return r
}

// Sat solves cs and reports the values of want, falling back to a fresh solver.
func (s *Solver) Sat(cs []*Term, want []*Term, model map[*Term]uint64) Res {
	r := s.run(cs, want, model)
	if r != Unknown {
		return r
	}
	var b bytes.Buffer
	b.WriteString("(set-logic QF_UFBV)\n")
	d := map[int]bool{}
	u := map[string]bool{}
	for _, c := range append(append([]*Term{}, cs...), want...) {
		s.emit(&b, c, d, u)
	}
	for _, c := range cs {
		fmt.Fprintf(&b, "(assert %s)\n", s.ref(c))
	}
	b.WriteString("(check-sat)\n")
	for _, w := range want {
		if !w.isConst() {
			fmt.Fprintf(&b, "(get-value (%s))\n", s.ref(w))
		}
	}
	cmd := exec.Command("z3-new", "-in", "-smt2", "-T:10")
	cmd.Stdin = bytes.NewReader(b.Bytes())
	o, _ := cmd.Output()
	ls := strings.Split(string(o), "\n")
	if len(ls) == 0 || strings.TrimSpace(ls[0]) != "sat" {
		return Unknown
	}
	i := 1
	for _, w := range want {
		if w.isConst() {
			model[w] = w.val
			continue
		}
		if i < len(ls) {
			model[w] = parseVal(ls[i])
		}
		i++
	}
	return Sat
}

func (s *Solver) run(cs []*Term, want []*Term, model map[*Term]uint64) Res {
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		s.Queries++
	}()
	if s.cmd == nil {
		s.start()
	}
	proc := s.cmd
	var b bytes.Buffer
	for _, c := range cs {
		s.emit(&b, c, s.defined, s.declUF)
	}
	for _, c := range want {
		s.emit(&b, c, s.defined, s.declUF)
	}
	b.WriteString("(push)\n")
	for _, c := range cs {
		fmt.Fprintf(&b, "(assert %s)\n", s.ref(c))
	}
	b.WriteString("(check-sat)\n")
	if _, err := s.in.Write(b.Bytes()); err != nil {
		s.Close()
		return Unknown
	}
	tq := time.Now()
	dog := time.AfterFunc(time.Duration(s.toMS)*2*time.Millisecond, func() { proc.Process.Kill() })
	line := s.readLine()
	dog.Stop()
	if d := time.Since(tq); d > time.Second && os.Getenv("GOCV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "slow query %v %s (%d conjuncts)\n", d, line, len(cs))
		if f := os.Getenv("GOCV_SLOW"); f != "" {
			os.WriteFile(f, []byte(s.Script(cs)), 0o644)
		}
	}
	var r Res
	switch line {
	case "unsat":
		r = Unsat
	case "sat":
		r = Sat
	default:
		r = Unknown
	}
	if strings.HasPrefix(line, "(error") {
		if line != "(error eof" {
			fmt.Fprintln(os.Stderr, "solver:", line)
		}
		s.Close()
		return Unknown
	}
	if r == Sat && model == nil {
		s.learn(cs)
	}
	if r == Sat && model != nil {
		for _, w := range want {
			if w.isConst() {
				model[w] = w.val
				continue
			}
			fmt.Fprintf(s.in, "(get-value (%s))\n", s.ref(w))
			l := s.readLine()
			model[w] = parseVal(l)
		}
	}
	fmt.Fprint(s.in, "(pop)\n")
	if len(s.defined) > 150000 {
		s.Close()
	}
	return r
}

func parseVal(l string) uint64 {
	l = strings.TrimSpace(l)
	l = strings.TrimRight(l, ")")
	if i := strings.LastIndex(l, " "); i >= 0 {
		l = l[i+1:]
	}
	switch {
	case l == "true":
		return 1
	case l == "false":
		return 0
	case strings.HasPrefix(l, "#x"):
		v, _ := strconv.ParseUint(l[2:], 16, 64)
		return v
	case strings.HasPrefix(l, "#b"):
		v, _ := strconv.ParseUint(l[2:], 2, 64)
		return v
	}
	return 0
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "(error eof"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// Script renders a complete standalone SMT-LIB query.
func (s *Solver) Script(cs []*Term) string {
	var b bytes.Buffer
	b.WriteString("(set-logic QF_UFBV)\n")
	d := map[int]bool{}
	u := map[string]bool{}
	for _, c := range cs {
		s.emit(&b, c, d, u)
	}
	for _, c := range cs {
		fmt.Fprintf(&b, "(assert %s)\n", s.ref(c))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// Fallback tries the other installed solvers on a query z3-new gave up on.
func (s *Solver) Fallback(cs []*Term, secs int) (Res, string) {
	scr := s.Script(cs)
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	type ans struct {
		r Res
		n string
	}
	ch := make(chan ans, 3)
	var procs []*exec.Cmd
	for _, c := range [][]string{
		{"cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), "--lang=smt2", "-"},
		{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs)},
		{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", secs)},
	} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(scr)
		var o bytes.Buffer
		cmd.Stdout = &o
		if cmd.Start() != nil {
			ch <- ans{Unknown, c[0]}
			continue
		}
		procs = append(procs, cmd)
		go func(name string) {
			cmd.Wait()
			r := Unknown
			l := strings.TrimSpace(o.String())
			if strings.HasPrefix(l, "unsat") {
				r = Unsat
			} else if strings.HasPrefix(l, "sat") {
				r = Sat
			}
			ch <- ans{r, name}
		}(c[0])
	}
	for i := 0; i < 3; i++ {
		a := <-ch
		if a.r != Unknown {
			for _, p := range procs {
				p.Process.Kill()
			}
			return a.r, a.n
		}
	}
	return Unknown, ""
}

var lmMu sync.Mutex
