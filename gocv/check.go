package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Cand is a candidate failing input, as the source of the arguments.
type Cand struct {
	Label, Src string
	Imports    map[string]string
}

// The check of one property: verify its contracts and all contracts they rely
// on, replay or search for a failing input where an obligation fails, report.

type checker struct {
	P       *Program
	prop    string
	tier    string
	seed    int64
	roots   map[string]bool
	byName  map[string]*Contract
	byFn    map[*ssa.Function]*Contract
	engines chan *Engine
	demoted map[string]bool
	res     map[string]*Result
	eng     map[string]*Engine // engine that produced the failures
	budget  time.Duration
	start   time.Time
	known   map[string]string
	replays map[string]*replay
	log     []string
}

type replay struct {
	contract, label, kind string // kind: model, search, none
	args                  string
	why                   string
	path                  string
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func check(args []string) int {
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	c := &checker{prop: prop, tier: tier, seed: envInt("VERIF_SEED", 1), roots: map[string]bool{}, byName: map[string]*Contract{}, byFn: map[*ssa.Function]*Contract{},
		demoted: map[string]bool{}, res: map[string]*Result{}, eng: map[string]*Engine{}, start: time.Now(), known: map[string]string{}, replays: map[string]*replay{}}
	p, err := LoadProgram(repoDir(), filepath.Join(verifDir(), "contracts"))
	if err != nil {
		fmt.Println("cannot load the tree:", err)
		return 2
	}
	c.P = p
	c.readKnown()
	var roots []*Contract
	for _, k := range p.Contracts {
		c.byName[k.Name] = k
		for _, pr := range k.Props {
			if pr == prop && (k.Tier == "" || k.Tier == tier) {
				roots = append(roots, k)
				c.roots[k.Name] = true
			}
		}
	}
	lost := c.lostRoots()
	c.verifyAll(roots)
	h := newHarness(c)
	code := c.report(roots, lost, h)
	h.close()
	return code
}

// lostRoots: contracts of this property whose file no longer type-checks
// against the tree, or whose target is gone.
func (c *checker) lostRoots() []string {
	var lost []string
	for _, d := range c.P.Dropped {
		lost = append(lost, d)
	}
	return lost
}

func (c *checker) readKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		w := strings.Fields(l)
		if len(w) < 4 {
			continue
		}
		if strings.TrimPrefix(w[1], "property=") == c.prop {
			c.known[strings.TrimPrefix(w[2], "contract=")] = strings.Join(w[3:], " ")
		}
	}
}

func (c *checker) verifyAll(roots []*Contract) {
	nw := 8
	c.engines = make(chan *Engine, nw)
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e := NewEngine(c.P)
			e.setup()
			c.engines <- e
		}()
	}
	go watchMemory(12 << 30)
	limit := 450 * time.Second
	total := 550 * time.Second
	if c.tier == "thorough" {
		limit, total = 900*time.Second, 3600*time.Second
	}
	todo := map[string]bool{}
	for _, r := range roots {
		if !r.NoModel {
			todo[r.Name] = true
		}
	}
	var once sync.Once
	early := func() { once.Do(func() { go c.early(roots) }) }
	timer := time.AfterFunc(60*time.Second, early)
	defer timer.Stop()
	for round := 0; round < 12 && len(todo) > 0; round++ {
		var mu sync.Mutex
		var ws sync.WaitGroup
		late := round > 0
		dem := map[string]bool{}
		for k := range c.demoted {
			dem[k] = true
		}
		pend := map[string]bool{}
		var launch func(n string)
		launch = func(n string) { // mu held
			if pend[n] {
				return
			}
			pend[n] = true
			ws.Add(1)
			go func() {
				defer ws.Done()
				e := <-c.engines
				e.demoted = dem
				left := total - time.Since(c.start)
				lim := limit
				if late && !c.roots[n] {
					lim /= 5 // after a callee's contract has failed: on to the properties
				}
				if left < lim {
					lim = left
				}
				if lim < 5*time.Second {
					lim = 5 * time.Second
				}
				e.deadline = time.Now().Add(lim)
				k := c.byName[n]
				r := e.Verify(k)
				if os.Getenv("GOCV_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, r)
				}
				// models are taken now: the engine goes on to other contracts
				c.models(e, k, r)
				mu.Lock()
				c.res[n] = r
				if len(r.Fails) > 0 && !c.roots[n] {
					early()
				}
				if _, known := c.known[n]; c.roots[n] && !known && len(r.Fails) > 0 && atomic.LoadInt64(&c.P.cutoff) == 0 {
					// the verdict is known, the other contracts only add to the report
					atomic.StoreInt64(&c.P.cutoff, time.Now().Add(40*time.Second).UnixNano())
				}
				for u := range r.Used {
					if k2 := c.byName[u]; k2 != nil && !k2.Assumed && c.res[u] == nil {
						launch(u)
					}
				}
				mu.Unlock()
				c.engines <- e
			}()
		}
		mu.Lock()
		var ns []string
		for n := range todo {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			launch(n)
		}
		mu.Unlock()
		ws.Wait()
		// a contract that does not hold is not relied on
		fresh := false
		for n, r := range c.res {
			if (!r.ok() || r.Frame != "") && !c.demoted[n] {
				c.demoted[n] = true
				fresh = true
			}
		}
		todo = map[string]bool{}
		if fresh {
			for n, r := range c.res {
				for u := range r.Used {
					if c.demoted[u] {
						todo[n] = true
						delete(c.res, n)
						break
					}
				}
			}
			// forget contracts nobody relies on any more
			for n := range todo {
				if !c.needed(roots)[n] && !c.roots[n] {
					delete(todo, n)
				}
			}
			for n := range todo {
				delete(c.res, n)
			}
		}
	}
	wg.Wait()
}

// early runs the contracts of the property on the real code while the verifier
// is still busy: once one of them is seen to fail, the rest of the
// verification only adds to the report and is cut short.
func (c *checker) early(roots []*Contract) {
	h := newHarness(c)
	defer h.close()
	byPkg := map[string][]*Contract{}
	for _, k := range roots {
		if _, known := c.known[k.Name]; !known && !k.NoModel {
			byPkg[k.Fn.Pkg.Pkg.Path()] = append(byPkg[k.Fn.Pkg.Pkg.Path()], k)
		}
	}
	for pk, ks := range byPkg {
		bin, err := h.build(pk, nil, ks)
		if err != nil {
			continue
		}
		for _, k := range ks {
			n := 3000000
			if k.Iters > 0 {
				n = k.Iters
			}
			out, st := h.run(bin, "s:"+k.Name, 0, n, 3*time.Second)
			if firstLine(out, "ZZ "+k.Name+" FAIL ") != "" || crashed(out, st) {
				if atomic.LoadInt64(&c.P.cutoff) == 0 {
					atomic.StoreInt64(&c.P.cutoff, time.Now().Add(20*time.Second).UnixNano())
				}
				return
			}
		}
	}
}

func (c *checker) needed(roots []*Contract) map[string]bool {
	need := map[string]bool{}
	var walk func(n string)
	walk = func(n string) {
		if need[n] {
			return
		}
		need[n] = true
		if r := c.res[n]; r != nil {
			for u := range r.Used {
				walk(u)
			}
		}
	}
	for _, r := range roots {
		walk(r.Name)
	}
	return need
}

// models turns the failures of a contract into candidate inputs.
func (c *checker) models(e *Engine, k *Contract, r *Result) {
	if !c.roots[k.Name] || len(r.Fails) == 0 {
		return
	}
	per := map[string]int{}
	for _, f := range r.Fails {
		if per[f.Label] >= 3 || len(r.Cands) >= 12 {
			continue
		}
		e.deadline, e.spent = time.Now().Add(10*time.Second), ""
		src, imp, ok := e.Concretize(f, r.Args, k.Fn.Pkg.Pkg)
		if ok {
			per[f.Label]++
			r.Cands = append(r.Cands, Cand{Label: f.Label, Src: src, Imports: imp})
		}
	}
}

// ---- harness on the real code ------------------------------------------------

type harness struct {
	c    *checker
	dir  string
	bins map[string]string // package -> test binary
	errs []string
	mu   sync.Mutex
}

func newHarness(c *checker) *harness {
	d, _ := os.MkdirTemp("", "gocv")
	return &harness{c: c, dir: d, bins: map[string]string{}}
}

func (h *harness) close() { os.RemoveAll(h.dir) }

func (h *harness) pkgDir(pk string) string {
	return filepath.Join(h.c.P.Repo, strings.TrimPrefix(strings.TrimPrefix(pk, modPath), "/"))
}

type kase struct {
	k     *Contract
	src   string
	imps  map[string]string
	label string
}

// build makes one test binary of package pk holding the given cases and a
// search over each of the given contracts.
func (h *harness) build(pk string, cases []kase, search []*Contract) (string, error) {
	p := h.c.P
	pkg := p.Pkgs[pk]
	imps := map[string]string{"testing": "testing", "os": "os", "strconv": "strconv", "time": "time", vfPath: "zzvf"}
	for _, k := range cases {
		for a, b := range k.imps {
			imps[a] = b
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n", pkg.Types.Name())
	var ks []string
	for a := range imps {
		ks = append(ks, a)
	}
	sort.Strings(ks)
	for _, a := range ks {
		n := imps[a]
		if a == vfPath {
			n = "zzvfrt"
		}
		if filepath.Base(a) == n {
			fmt.Fprintf(&b, "\t%q\n", a)
		} else {
			fmt.Fprintf(&b, "\t%s %q\n", n, a)
		}
	}
	b.WriteString(")\n\nvar _ = os.Getenv\nvar _ = strconv.Itoa\nvar _ = time.Now\n\n")
	b.WriteString("func TestZZ(t *testing.T) {\n\tn, _ := strconv.Atoi(os.Getenv(\"ZZ_N\"))\n\tseed, _ := strconv.ParseInt(os.Getenv(\"ZZ_SEED\"), 10, 64)\n\tfrom, _ := strconv.Atoi(os.Getenv(\"ZZ_FROM\"))\n\tms, _ := strconv.Atoi(os.Getenv(\"ZZ_MS\"))\n\tbudget := time.Duration(ms) * time.Millisecond\n\t_, _, _, _ = n, seed, from, budget\n\tswitch os.Getenv(\"ZZ_CASE\") {\n")
	for i, k := range cases {
		fmt.Fprintf(&b, "\tcase \"c%d\":\n\t\tprintln(\"ZZCASE \" + zzvfrt.Run(func() { %s(%s) }))\n", i, k.k.Fn.Name(), k.src)
	}
	scope := pkg.Types.Scope()
	anyv := "nil"
	if scope.Lookup("zzAny") != nil {
		anyv = "zzAny"
	}
	var gens []string
	for _, g := range p.vgen {
		if g.Pkg != nil && g.Pkg.Pkg.Path() == pk {
			gens = append(gens, g.Name())
		}
	}
	sort.Strings(gens)
	gl := "[]interface{}{" + strings.Join(gens, ", ") + "}"
	for _, k := range search {
		cu := "nil"
		if scope.Lookup("vrand_"+strings.TrimPrefix(k.Fn.Name(), "zz_")) != nil {
			cu = "vrand_" + strings.TrimPrefix(k.Fn.Name(), "zz_")
		}
		fmt.Fprintf(&b, "\tcase \"s:%s\":\n\t\tzzvfrt.Search(%q, %s, %s, %s, %s, seed, from, n, budget)\n", k.Name, k.Name, k.Fn.Name(), anyv, gl, cu)
	}
	b.WriteString("\t}\n}\n")
	h.mu.Lock()
	id := len(h.bins)
	key := fmt.Sprintf("%s#%d", pk, id)
	h.bins[key] = ""
	h.mu.Unlock()
	src := filepath.Join(h.dir, fmt.Sprintf("zz%d_test.go", id))
	if err := os.WriteFile(src, []byte(b.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{}
	for dst, s := range p.Src {
		rep[dst] = s
	}
	dir := h.pkgDir(pk)
	if ms, _ := filepath.Glob(filepath.Join(dir, "*_test.go")); ms != nil {
		for _, m := range ms {
			rep[m] = ""
		}
	}
	rep[filepath.Join(dir, "zz_gocv_test.go")] = src
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(h.dir, fmt.Sprintf("overlay%d.json", id))
	os.WriteFile(ov, js, 0o644)
	bin := filepath.Join(h.dir, fmt.Sprintf("t%d.bin", id))
	cmd := exec.Command("go", "test", "-vet=off", "-overlay", ov, "-c", "-o", bin, pk)
	cmd.Dir = p.Repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, clip(string(out), 1500))
	}
	return bin, nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// run starts the test binary with memory and time limits, in a scratch directory.
func (h *harness) run(bin, kase string, from, n int, budget time.Duration) (string, string) {
	lim := budget + 75*time.Second
	wd, _ := os.MkdirTemp(h.dir, "run")
	cmd := exec.Command("bash", "-c", fmt.Sprintf("ulimit -v 6000000; exec timeout -k 2 %d %s -test.run '^TestZZ$' -test.timeout 0", int(lim.Seconds()), bin))
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "ZZ_CASE="+kase, fmt.Sprintf("ZZ_N=%d", n), fmt.Sprintf("ZZ_FROM=%d", from), fmt.Sprintf("ZZ_SEED=%d", h.c.seed), fmt.Sprintf("ZZ_MS=%d", budget.Milliseconds()), "GOMEMLIMIT=3GiB", "GOMAXPROCS=4")
	out, err := cmd.CombinedOutput()
	st := ""
	if err != nil {
		st = err.Error()
	}
	return string(out), st
}

// verdict of one root contract on the real code
type verdict struct {
	kind, label, args, why string // kind: model, search, or ""
	runs, skips            int
}

func crashed(out, st string) bool {
	if st == "" || strings.Contains(st, "status 124") || strings.Contains(st, "status 137") {
		return false
	}
	return strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ")
}

func firstLine(s, pre string) string {
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, pre); i >= 0 {
			return l[i:]
		}
	}
	return ""
}

func (c *checker) runReal(h *harness, roots []*Contract) map[string]*verdict {
	vs := map[string]*verdict{}
	byPkg := map[string][]*Contract{}
	for _, k := range roots {
		vs[k.Name] = &verdict{}
		byPkg[k.Fn.Pkg.Pkg.Path()] = append(byPkg[k.Fn.Pkg.Pkg.Path()], k)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for pk, ks := range byPkg {
		pk, ks := pk, ks
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cases []kase
			for _, k := range ks {
				if r := c.res[k.Name]; r != nil {
					for _, x := range r.Cands {
						cases = append(cases, kase{k, x.Src, x.Imports, x.Label})
					}
				}
			}
			bin, err := h.build(pk, cases, ks)
			if err != nil && len(cases) > 0 {
				c.note("replay of models does not build: " + err.Error())
				cases = nil
				bin, err = h.build(pk, nil, ks)
			}
			if err != nil {
				c.note("harness of " + pk + " does not build: " + err.Error())
				return
			}
			var w2 sync.WaitGroup
			for i, x := range cases {
				i, x := i, x
				w2.Add(1)
				go func() {
					defer w2.Done()
					sem <- true
					out, st := h.run(bin, fmt.Sprintf("c%d", i), 0, 1, 0)
					<-sem
					mu.Lock()
					defer mu.Unlock()
					v := vs[x.k.Name]
					l := firstLine(out, "ZZCASE FAIL ")
					if l == "" && crashed(out, st) {
						l = "ZZCASE FAIL no panic: " + firstLine(out, "fatal error: ") + firstLine(out, "panic: ")
					}
					if l != "" && v.kind == "" {
						*v = verdict{kind: "model", label: x.label, args: x.src, why: strings.TrimPrefix(l, "ZZCASE FAIL ")}
					} else if l == "" {
						c.note(fmt.Sprintf("model of %s (%s) does not fail on the real code: %s(%s) -> %s", x.k.Name, x.label, x.k.Fn.Name(), clip(x.src, 300), firstLine(out, "ZZCASE")))
					}
				}()
			}
			w2.Wait()
			for _, k := range ks {
				k := k
				w2.Add(1)
				go func() {
					defer w2.Done()
					if vs[k.Name].kind != "" {
						return
					}
					ms, n := 1500, 20000
					r := c.res[k.Name]
					if k.NoModel {
						ms, n = 5000, 200000
					} else if r == nil || !r.ok() {
						ms, n = 25000, 3000000
					}
					if c.tier == "thorough" {
						ms, n = ms*10, n*10
					}
					if k.Iters > 0 {
						n = k.Iters
					}
					sem <- true
					out, st := h.run(bin, "s:"+k.Name, 0, n, time.Duration(ms)*time.Millisecond)
					<-sem
					l := firstLine(out, "ZZ "+k.Name+" ")
					if l == "" && crashed(out, st) {
						os.Setenv("ZZ_TRACE", "1")
						sem <- true
						out2, _ := h.run(bin, "s:"+k.Name, 0, n, time.Duration(ms)*3*time.Millisecond)
						<-sem
						last := ""
						for _, x := range strings.Split(out2, "\n") {
							if strings.HasPrefix(x, "ZZTRY ") {
								last = strings.TrimPrefix(x, "ZZTRY ")
							}
						}
						l = "ZZ " + k.Name + " FAIL " + last + " why=" + strconv.Quote("no panic: "+firstLine(out, "fatal error: ")+firstLine(out, "panic: "))
					}
					mu.Lock()
					defer mu.Unlock()
					v := vs[k.Name]
					f := strings.TrimPrefix(l, "ZZ "+k.Name+" ")
					if strings.HasPrefix(f, "FAIL ") {
						i := strings.LastIndex(f, " why=")
						if i < 0 {
							i = len(f)
						}
						*v = verdict{kind: "search", args: strings.TrimPrefix(f[:i], "FAIL "), why: f[i:]}
						v.label = v.why
					} else {
						fmt.Sscanf(f, "PASS runs=%d skips=%d", &v.runs, &v.skips)
						if l == "" {
							c.note("search of " + k.Name + " gave no answer: " + st + " " + clip(out, 300))
						}
					}
				}()
			}
			w2.Wait()
		}()
	}
	wg.Wait()
	return vs
}

var noteMu sync.Mutex

func (c *checker) note(s string) {
	noteMu.Lock()
	defer noteMu.Unlock()
	c.log = append(c.log, s)
}

func (c *checker) report(roots []*Contract, lost []string, h *harness) int {
	vs := c.runReal(h, roots)
	dir := filepath.Join(verifDir(), "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	if old, _ := filepath.Glob(filepath.Join(dir, c.prop+"-*.txt")); old != nil {
		for _, o := range old {
			os.Remove(o)
		}
	}
	viol, code := 0, 0
	need := c.needed(roots)
	for _, k := range roots {
		r, v := c.res[k.Name], vs[k.Name]
		failed := r != nil && len(r.Fails) > 0
		if v.kind == "" && !failed {
			if r != nil && !r.ok() {
				fmt.Printf("UNDECIDED %s: %s\n", k.Name, clip(strings.Join(append(append([]string{}, r.Unsup...), r.Undec...), "; "), 400))
			}
			continue
		}
		what := v.why
		if what == "" {
			what = r.Fails[0].Label
		}
		if kf, ok := c.known[k.Name]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s contract=%s %s\n", c.prop, k.Name, kf)
			continue
		}
		viol++
		code = 1
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", c.prop, viol))
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\ncontract %s (%s)\ntarget   %s\n\n", c.prop, k.Name, strings.TrimPrefix(k.File, c.P.Repo+"/"), k.TName)
		if failed {
			b.WriteString("failed obligations (z3-new: satisfiable negation):\n")
			seen := map[string]bool{}
			for _, f := range r.Fails {
				if !seen[f.Label] {
					seen[f.Label] = true
					x := ""
					if f.Imprec {
						x = " (after an over-approximated step)"
					}
					fmt.Fprintf(&b, "  - %s%s\n", f.Label, x)
				}
			}
		}
		switch v.kind {
		case "model":
			fmt.Fprintf(&b, "\nThe verifier's counterexample fails on the real code:\n  %s(%s)\n  outcome: %s\n", k.Fn.Name(), v.args, v.why)
		case "search":
			fmt.Fprintf(&b, "\nThe contract, run on the real code, fails on a generated input (vf search):\n  %s %s\n  %s\n", k.Fn.Name(), v.args, v.why)
		default:
			b.WriteString("\nno failing input found: the verifier's models did not fail when run, and the search found none.\n")
		}
		fmt.Fprintf(&b, "\nreproduce: VERIF_SEED=%d VERIF_REPO=%s %s check %s\n\nverifier output:\n%v\n", c.seed, c.P.Repo, os.Args[0], c.prop, r)
		if failed {
			for i, f := range r.Fails {
				if i >= 3 {
					break
				}
				fmt.Fprintf(&b, "\nobligation %q in %s\n  path condition:\n", f.Label, f.Fn)
				for _, t := range f.St.pc {
					fmt.Fprintf(&b, "    %s\n", clip(t.String(), 400))
				}
				fmt.Fprintf(&b, "  negated goal: %s\n", clip(f.Neg.String(), 1500))
			}
		}
		os.WriteFile(path, []byte(b.String()), 0o644)
		fmt.Printf("contract %s: %s\n", k.Name, clip(strings.TrimSpace(what), 300))
		suffix := ""
		if v.kind == "" {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", c.prop, path, suffix)
	}
	c.evidence(roots, vs, need, viol)
	for _, l := range c.log {
		fmt.Println("note:", clip(l, 600))
	}
	for _, l := range lost {
		fmt.Println("note: contract not applicable to this tree:", l)
	}
	if code == 0 {
		fmt.Printf("%s: %d contracts checked in %.1fs\n", c.prop, len(roots), time.Since(c.start).Seconds())
	}
	return code
}

func (c *checker) evidence(roots []*Contract, vs map[string]*verdict, need map[string]bool, viol int) {
	obl, dis, open := 0, 0, 0
	back := map[string]int{}
	inl, mods, notes, cut := map[string]bool{}, map[string]bool{}, map[string]int{}, map[string]bool{}
	var fns []map[string]interface{}
	var bounded, assumed, searchOnly []string
	var solver time.Duration
	queries := 0
	var names []string
	for n := range need {
		names = append(names, n)
	}
	sort.Strings(names)
	runs := 0
	proved := true
	for _, n := range names {
		k, r := c.byName[n], c.res[n]
		if k == nil {
			continue
		}
		if k.Assumed {
			assumed = append(assumed, n)
			continue
		}
		if k.NoModel {
			searchOnly = append(searchOnly, fmt.Sprintf("%s: %d runs", n, vs[n].runs))
			continue
		}
		if r == nil {
			continue
		}
		bad := len(r.Fails) + len(r.Undec) + len(r.Unsup)
		for _, o := range r.Obls {
			obl++
			if !o.Fail {
				dis++
				back[o.Back]++
			}
		}
		open += len(r.Unsup)
		for f := range r.Inlined {
			inl[f] = true
		}
		for f := range r.Models {
			mods[f] = true
		}
		for f, x := range r.Notes {
			notes[f] += x
		}
		for f := range r.Cut {
			cut[f] = true
		}
		solver += r.Solver
		queries += r.Queries
		st := "proved"
		if r.Bounded {
			st = "bounded"
			bounded = append(bounded, n)
		}
		if bad > 0 {
			st = "not proved"
			proved = false
		}
		tg := k.TName
		if tg == "" {
			tg = "(lemma)"
		}
		m := map[string]interface{}{"contract": n, "target": tg, "status": st, "obligations": len(r.Obls), "paths": r.Paths, "solver_s": round(r.Solver.Seconds()), "relies_on": sortedKeys(r.Used)}
		if v := vs[n]; v != nil {
			m["runs_on_real_code"] = v.runs
			runs += v.runs
		}
		fns = append(fns, m)
	}
	tb := []string{
		"gocv (/verif/gocv): the symbolic executor of Go SSA that generates the obligations, and golang.org/x/tools/go/ssa",
		"z3 5.3.2 (z3-new), with cvc5 1.1.2 and z3 4.8.12 as fallbacks",
		"models of the standard library functions listed under library_models",
	}
	as := []string{
		"lengths of sequences and numbers of loop rounds are below 2^31; other integers are bit-vectors of their Go width",
		"floating-point arithmetic and conversions are uninterpreted; floats are their bit patterns",
		"an append that exceeds a symbolic capacity allocates anew; slices returned by bytes.Buffer.Bytes are snapshots",
		"distinct pointer inputs do not alias; maps are walked in insertion order",
		"goroutines started by a call run when the caller blocks, one sequential schedule",
		"package variables keep the values their initialisers give them unless the repository assigns them elsewhere",
	}
	for _, a := range assumed {
		as = append(as, "assumed contract: "+a)
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof", "wall_s": round(time.Since(c.start).Seconds()), "violations": viol, "assumptions": as,
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": dis, "checker_cmd": strings.Join(append([]string{"gocv"}, os.Args[1:]...), " "), "trusted_base": tb,
			"paths_outside_the_verifier": open, "discharged_by": back, "solver_s": round(solver.Seconds()), "solver_queries": queries,
			"functions_under_contract": fns, "functions_verified_inline": sortedKeys(inl), "loops_cut_by_invariant": sortedKeys(cut), "library_models": sortedKeys(mods),
			"bounded_stand_ins": bounded, "search_only": searchOnly, "engine_notes": notes, "contract_runs_on_real_code": runs, "all_proved": proved && open == 0,
			"not_applicable_to_this_tree": c.P.Dropped, "not_relied_on": sortedKeys(c.demoted),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", c.prop+".json"), append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
