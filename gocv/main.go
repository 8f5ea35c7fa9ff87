package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gocv try [-v] NAME... | check PROPERTY")
		os.Exit(2)
	}
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(500)
		debug.SetMemoryLimit(6 << 30)
	}
	switch os.Args[1] {
	case "try":
		try(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	x, _ := os.Executable()
	return filepath.Dir(filepath.Dir(x))
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func try(args []string) {
	fs := flag.NewFlagSet("try", flag.ExitOnError)
	dbg := fs.Bool("d", false, "debug")
	demote := fs.String("demote", "", "contracts not used")
	fs.Parse(args)
	debugPanic = *dbg
	if f := os.Getenv("GOCV_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	t0 := time.Now()
	p, err := LoadProgram(repoDir(), filepath.Join(verifDir(), "contracts"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.2fs, %d contracts, dropped %v\n", time.Since(t0).Seconds(), len(p.Contracts), p.Dropped)
	e := NewEngine(p)
	e.setup()
	fmt.Println("setup", e.notes)
	for _, d := range strings.Split(*demote, ",") {
		e.demoted[d] = true
	}
	for _, c := range p.Contracts {
		hit := fs.NArg() == 0
		for _, a := range fs.Args() {
			if strings.Contains(c.Name, a) {
				hit = true
			}
			for _, pr := range c.Props {
				if pr == a {
					hit = true
				}
			}
		}
		if !hit || c.NoModel {
			continue
		}
		if s, err := strconv.Atoi(os.Getenv("GOCV_TIME")); err == nil {
			e.deadline = time.Now().Add(time.Duration(s) * time.Second)
		}
		r := e.Verify(c)
		fmt.Println(r)
		if *dbg {
			fmt.Println("   known", e.sol.Known, "unconfirmed", e.sol.BadWit)
		}
		if *dbg {
			fmt.Println("   used", sortedKeys(r.Used), "cut", sortedKeys(r.Cut), "notes", r.Notes)
			for i, f := range r.Fails {
				if i < 3 {
					fmt.Println("   ---", f.Label, "neg", f.Neg)
					for _, c := range f.St.pc {
						fmt.Println("      pc", c)
					}
				}
			}
		}
	}
}
