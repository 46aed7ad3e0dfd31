package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
)

func main() {
	debug.SetGCPercent(500)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: tool check ID | dump FUNC")
		os.Exit(2)
	}
	if pf := os.Getenv("VPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		code := runCheck(os.Args[2], tier, verifRoot())
		pprof.StopCPUProfile()
		os.Exit(code)
	case "dump":
		g, err := loadGo(repoRoot(), "", "")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		g.initGlobals()
		for _, f := range g.all {
			if len(os.Args) < 3 {
				fmt.Println(f.Name, len(f.Blocks))
			} else if f.Name == os.Args[2] {
				fmt.Print(f.dump())
			}
		}
		fmt.Println(g.globals)
	case "tsrun":
		g, err := loadTS(repoRoot())
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, f := range g.all {
			if len(os.Args) < 3 {
				fmt.Println(f.Name, len(f.Blocks))
				continue
			}
			if f.Name != os.Args[2] {
				continue
			}
			fmt.Print(f.dump())
			e := newEngine(g.GoProg, &Client{})
			st := newState()
			for _, o := range e.Run(f, symArgs(f), nil, st) {
				fmt.Println("OUT panic", o.panic, o.res, o.pos, o.st.facts.lits)
				for _, r := range o.res {
					for c, v := range o.st.mem {
						if addrRoot(c) == r {
							fmt.Println("   ", c, "=", v)
						}
					}
				}
				for _, ev := range o.st.trace {
					fmt.Println("     ev", ev.Kind, ev.Str, ev.A, ev.Pos)
				}
			}
			fmt.Println(e.problems)
		}
	case "run":
		g, err := loadGo(repoRoot(), "", "")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		g.initGlobals()
		for _, f := range g.all {
			if len(os.Args) > 2 && f.Name != os.Args[2] {
				continue
			}
			e := newEngine(g, &Client{Inline: func(f *Func) bool { return !f.Exported }})
			var args []*Term
			for i, p := range f.ParamN {
				args = append(args, mkNamed("arg:"+p, f.ParamT[i]))
			}
			outs := e.Run(f, args, nil, newState())
			fmt.Println(f.Name, "outs", len(outs), "steps", e.steps, e.problems)
			if len(os.Args) > 2 {
				for _, o := range outs {
					fmt.Println("  ", o.panic, o.pos, o.res)
					for _, l := range o.st.facts.lits {
						fmt.Println("      ", l)
					}
				}
			}
		}
	}
}

func repoRoot() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func verifRoot() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}
