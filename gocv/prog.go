package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/NubeDev/bacnet"
const vfPath = modPath + "/zzvf"

type Contract struct {
	Name    string
	Fn      *ssa.Function
	Obj     *types.Func
	Target  *ssa.Function // nil for a lemma
	TName   string
	Props   []string
	Group   string
	Sealed  []string // functions of a number that are known by name only
	Use     []string // groups whose contracts calls may rely on
	Ghost   string   // opaque specification expected at the front of the buffer
	Bounded int
	Short   int // loops of at most this many rounds are unrolled
	Term    bool
	Alloc   bool
	Merge   bool
	Assumed bool
	Aux     bool
	NoModel bool // not verified symbolically: search only
	Tier    string
	Iters   int
	File    string
}

type Program struct {
	cutoff    int64 // time after which verification ends, in ns, or 0
	Prog      *ssa.Program
	Pkgs      map[string]*packages.Package
	Contracts []*Contract
	byTarget  map[*ssa.Function][]*Contract
	opaque    map[*ssa.Function]bool
	fold      map[*ssa.Function]bool
	nonempty  map[*ssa.Function]bool
	length    map[*ssa.Function]*ssa.Function // gives the length of a specification
	vgen      map[string]*ssa.Function        // type string -> generator
	Dropped   []string                        // contract files that do not compile against the tree
	Overlay   map[string][]byte
	Files     []string // contract files in use (dest path in /repo)
	Src       map[string]string
	mutGlob   map[*ssa.Global]bool
	tags      map[string]int
	mu        sync.Mutex
	tagTypes  map[int]types.Type
	Repo      string
}

func (p *Program) typeTag(t types.Type) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := types.TypeString(t, nil)
	if v, ok := p.tags[k]; ok {
		return v
	}
	p.tags[k] = len(p.tags) + 1
	p.tagTypes[p.tags[k]] = t
	return p.tags[k]
}

var pkgPatterns = []string{".", "./encoding", "./btypes/...", "./tsm", "./utsm", "./datalink", "./network", "./helpers/..."}

// overlayFiles maps contract files of dir onto /repo paths.
func overlayFiles(repo, dir string, skip map[string]bool) (map[string]string, error) {
	res := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if skip[rel] {
			return nil
		}
		d := filepath.Dir(rel)
		if d == "root" {
			d = "."
		}
		dst := filepath.Join(repo, d, filepath.Base(rel))
		res[dst] = p
		return nil
	})
	return res, err
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	return env
}

func LoadProgram(repo, dir string) (*Program, error) {
	skip := map[string]bool{}
	for try := 0; try < 12; try++ {
		files, err := overlayFiles(repo, dir, skip)
		if err != nil {
			return nil, err
		}
		ov := map[string][]byte{}
		back := map[string]string{}
		for dst, src := range files {
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			ov[dst] = b
			rel, _ := filepath.Rel(dir, src)
			back[dst] = rel
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
		ps, err := packages.Load(cfg, pkgPatterns...)
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				f := er.Pos
				if i := strings.Index(f, ":"); i > 0 {
					f = f[:i]
				}
				if r, ok := back[f]; ok {
					bad[r] = true
					if os.Getenv("GOCV_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "contract file", r, ":", er)
					}
				} else {
					other = append(other, er.Error())
				}
			}
		})
		if len(bad) > 0 {
			for r := range bad {
				skip[r] = true
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("the tree does not compile: %s", strings.Join(other, "; "))
		}
		return buildProgram(repo, ps, files, ov, skip)
	}
	return nil, fmt.Errorf("contract files do not compile")
}

func buildProgram(repo string, ps []*packages.Package, files map[string]string, ov map[string][]byte, skip map[string]bool) (*Program, error) {
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Pkgs: map[string]*packages.Package{}, byTarget: map[*ssa.Function][]*Contract{}, opaque: map[*ssa.Function]bool{}, fold: map[*ssa.Function]bool{}, nonempty: map[*ssa.Function]bool{}, length: map[*ssa.Function]*ssa.Function{},
		vgen: map[string]*ssa.Function{}, Overlay: ov, tags: map[string]int{}, tagTypes: map[int]types.Type{}, Repo: repo, Src: files, mutGlob: map[*ssa.Global]bool{}}
	for r := range skip {
		p.Dropped = append(p.Dropped, r)
	}
	sort.Strings(p.Dropped)
	packages.Visit(ps, nil, func(pk *packages.Package) { p.Pkgs[pk.PkgPath] = pk })
	var paths []string
	for k := range p.Pkgs {
		if strings.HasPrefix(k, modPath) {
			paths = append(paths, k)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		pk := p.Pkgs[path]
		for i, f := range pk.Syntax {
			fname := pk.CompiledGoFiles[i]
			if _, ok := ov[fname]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				if err := p.directive(pk, fd, fname); err != nil {
					return nil, err
				}
			}
		}
	}
	// globals assigned outside package initialisation
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						p.mutGlob[g] = true
					}
				}
			}
		}
	}
	sort.Slice(p.Contracts, func(i, j int) bool { return p.Contracts[i].Name < p.Contracts[j].Name })
	return p, nil
}

func (p *Program) directive(pk *packages.Package, fd *ast.FuncDecl, fname string) error {
	tf, _ := pk.TypesInfo.Defs[fd.Name].(*types.Func)
	if tf == nil {
		return nil
	}
	fn := p.Prog.FuncValue(tf)
	if fn == nil {
		return nil
	}
	if strings.HasPrefix(fd.Name.Name, "vgen_") {
		rt := tf.Type().(*types.Signature).Results().At(0).Type()
		p.vgen[types.TypeString(rt, nil)] = fn
	}
	if fd.Doc == nil {
		return nil
	}
	c := &Contract{Fn: fn, Obj: tf, File: fname}
	is := false
	for _, l := range fd.Doc.List {
		t := l.Text
		if !strings.HasPrefix(t, "//vf:") {
			continue
		}
		w := strings.Fields(t[5:])
		switch w[0] {
		case "contract":
			is = true
			c.TName = strings.Join(w[1:], " ")
			tg := p.findFunc(pk, c.TName)
			if tg == nil {
				p.Dropped = append(p.Dropped, "target "+c.TName+" of "+fd.Name.Name+" not found")
				return nil
			}
			c.Target = tg
		case "lemma":
			is = true
		case "prop":
			c.Props = append(c.Props, w[1:]...)
		case "group":
			c.Group = w[1]
		case "use":
			c.Use = append(c.Use, w[1:]...)
		case "opaque":
			p.opaque[fn] = true
		case "sealed":
			c.Sealed = append(c.Sealed, w[1:]...)
		case "ghost":
			c.Ghost = w[1]
		case "length":
			lf, _ := pk.Types.Scope().Lookup(w[1]).(*types.Func)
			if lf == nil {
				return fmt.Errorf("%s: no %s", fname, w[1])
			}
			p.length[fn] = p.Prog.FuncValue(lf)
		case "nonempty":
			p.nonempty[fn] = true
		case "fold":
			p.opaque[fn] = true
			p.fold[fn] = true
		case "bounded":
			c.Bounded, _ = strconv.Atoi(w[1])
		case "short":
			c.Short, _ = strconv.Atoi(w[1])
		case "iters":
			c.Iters, _ = strconv.Atoi(w[1])
		case "term":
			c.Term = true
		case "alloc":
			c.Alloc = true
		case "merge":
			c.Merge = true
		case "assumed":
			c.Assumed = true
		case "search":
			c.NoModel = true
		case "tier":
			c.Tier = w[1]
		default:
			return fmt.Errorf("%s: unknown directive %s", fname, t)
		}
	}
	if !is {
		return nil
	}
	short := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
	if short == "" {
		short = "bacnet"
	}
	c.Name = short + "." + strings.TrimPrefix(fd.Name.Name, "zz_")
	c.Aux = len(c.Props) == 0
	p.Contracts = append(p.Contracts, c)
	if c.Target != nil {
		p.byTarget[c.Target] = append(p.byTarget[c.Target], c)
	}
	return nil
}

// findFunc: "Name", "(T).M", "(*T).M"
func (p *Program) findFunc(pk *packages.Package, name string) *ssa.Function {
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ")")
		tn, mn := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		o := pk.Types.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		var t types.Type = o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := types.NewMethodSet(t).Lookup(pk.Types, mn)
		if sel == nil {
			return nil
		}
		f, _ := sel.Obj().(*types.Func)
		if f == nil {
			return nil
		}
		return p.Prog.FuncValue(f)
	}
	f, _ := pk.Types.Scope().Lookup(name).(*types.Func)
	if f == nil {
		return nil
	}
	return p.Prog.FuncValue(f)
}

func isRepo(fn *ssa.Function) bool {
	for fn != nil && fn.Pkg == nil && fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn == nil {
		return false
	}
	if fn.Pkg == nil {
		o := fn.Object()
		return o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}
