package main

// Crash obligations shared by several checks: every index, slice, put, make,
// division and unchecked assertion reached by the dataflow must be in range.

import (
	"fmt"
	"strings"
)

type boundOpts struct {
	rule string
	root string
	// kinds to skip
	skip map[string]bool
	in   func(f string) bool
}

// boundsHook reports every crash obligation to c.
func boundsHook(c *Ctx, rule string, root string, seen map[*Instr]string) func(e *Engine, st *State, kind string, idx, n *Term, in *Instr) {
	return func(e *Engine, st *State, kind string, idx, n *Term, in *Instr) {
		if e.dry > 0 {
			return
		}
		f := st.facts
		ok := true
		what := ""
		switch kind {
		case "index":
			ok = f.implied(tLe(tZero, idx)) && f.implied(tLt(idx, n))
			what = fmt.Sprintf("index %v is not provably within [0,%v)", idx, n)
		case "slicelo":
			ok = f.implied(tLe(tZero, idx)) && f.implied(tLe(idx, n))
			what = fmt.Sprintf("slice start %v is not provably within [0,%v]", idx, n)
		case "slicehi":
			ok = f.implied(tLe(idx, n))
			what = fmt.Sprintf("slice end %v is not provably at most %v", idx, n)
		case "put":
			ok = f.implied(tLe(idx, n))
			what = fmt.Sprintf("%v bytes do not provably fit in the %v available", idx, n)
		case "make":
			ok = f.implied(tLe(tZero, idx))
			what = fmt.Sprintf("length %v may be negative", idx)
		case "div":
			ok = f.refuted(tEq(idx, tZero))
			what = fmt.Sprintf("divisor %v may be zero", idx)
		case "assert":
			ok = f.implied(idx)
			what = "unchecked type assertion may fail"
		default:
			return
		}
		fn := "?"
		if len(e.stack) > 0 {
			fn = e.stack[len(e.stack)-1].Name
		}
		key := fmt.Sprintf("%s: %s in %s%s", root, kind, fn, seen[in])
		if _, have := seen[in]; !have {
			k := 0
			for _, v := range seen {
				if strings.HasPrefix(v, "#") {
					k++
				}
			}
			seen[in] = fmt.Sprintf("#%d", k)
			key = fmt.Sprintf("%s: %s in %s%s", root, kind, fn, seen[in])
		}
		if !ok && debugEngine {
			fmt.Println("BOUND", key, what, in.Pos)
			for _, l := range f.lits {
				fmt.Println("     ", l)
			}
		}
		c.Obl(rule, key, ok, in.Pos, what)
	}
}

// namedType finds a repository type whose name matches.
func (g *GoProg) methodsNamed(short string, pkgs ...string) []*Func {
	var r []*Func
	for _, f := range g.all {
		if f.Short != short || f.Recv == "" {
			continue
		}
		if len(pkgs) > 0 {
			hit := false
			for _, p := range pkgs {
				if f.Pkg == p {
					hit = true
				}
			}
			if !hit {
				continue
			}
		}
		r = append(r, f)
	}
	return r
}

func (g *GoProg) method(pkg, recv, short string) *Func {
	for _, f := range g.all {
		if f.Pkg == pkg && f.Short == short && (f.Recv == recv || strings.TrimPrefix(f.Recv, "*") == recv || strings.HasSuffix(f.Recv, "."+recv)) {
			return f
		}
	}
	return nil
}

func (g *GoProg) function(pkg, short string) *Func {
	for _, f := range g.all {
		if f.Pkg == pkg && f.Short == short && f.Recv == "" {
			return f
		}
	}
	return nil
}
