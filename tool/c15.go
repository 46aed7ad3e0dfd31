package main

// C15: what indexing stores is a function of its inputs.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "C15",
		Title: "indexing is deterministic",
		Rules: "Over every function reachable from opening an index and synchronising it: values from the clock, random numbers that are not seeded from the input, the environment, the process or runtime, and the order in which a map is ranged over or a select chooses, are followed through assignments, fields, containers, arguments, results and closures. None of them may reach an argument of a call that (transitively) writes to storage, or a branch that decides whether such a call is made. A range over a map may not have such a call in its body, and what is collected from it counts as unordered until it is sorted. No goroutine may be started that writes to storage.",
		Trust: []string{"Go type checker and go/ssa construction", "library functions not listed as sources are functions of their arguments"},
		Run:   runC15,
	})
}

// storageWriters: functions from which a write to storage is reachable.
func storageWriters(r *resolver) map[*ssa.Function]bool {
	w := map[*ssa.Function]bool{}
	prim := func(c *ssa.CallCommon) bool {
		name := ""
		var rt types.Type
		if c.IsInvoke() {
			name, rt = c.Method.Name(), c.Value.Type()
		} else if sc := c.StaticCallee(); sc != nil && sc.Signature.Recv() != nil {
			name, rt = sc.Name(), sc.Signature.Recv().Type()
		}
		if name != "Write" && name != "WriteAt" {
			return false
		}
		// storage can be positioned; logs and buffers cannot
		ms := types.NewMethodSet(rt)
		for i := 0; i < ms.Len(); i++ {
			if n := ms.At(i).Obj().Name(); n == "Seek" || n == "WriteAt" {
				return true
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range r.fns {
			if w[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					hit := prim(ci.Common())
					cs, _ := r.callees(ci.Common())
					for _, t := range cs {
						hit = hit || w[t]
					}
					if hit && !w[fn] {
						w[fn] = true
						changed = true
					}
				}
			}
		}
	}
	return w
}

func writes(r *resolver, w map[*ssa.Function]bool, in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cs, _ := r.callees(ci.Common())
	for _, t := range cs {
		if w[t] {
			return true
		}
	}
	return false
}

func reachable(r *resolver, roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cs, _ := r.callees(ci.Common())
					for _, t := range cs {
						walk(t)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, f := range roots {
		walk(f)
	}
	return seen
}

// randomSource names a library call whose result is not a function of its arguments.
func randomSource(c *ssa.CallCommon, fn *ssa.Function) string {
	sc := c.StaticCallee()
	if sc == nil || sc.Object() == nil || sc.Object().Pkg() == nil {
		return ""
	}
	pkg, name := sc.Object().Pkg().Path(), sc.Name()
	method := sc.Signature.Recv() != nil
	switch pkg {
	case "time":
		if name == "Now" || name == "Since" || name == "Until" || name == "Tick" || name == "After" {
			return "the clock"
		}
	case "math/rand", "math/rand/v2":
		if method || name == "New" || name == "NewSource" || name == "Seed" || name == "NewPCG" || name == "NewChaCha8" || name == "NewZipf" {
			return ""
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil && s.Name() == "Seed" && s.Object() != nil && s.Object().Pkg() != nil && s.Object().Pkg().Path() == pkg {
						return ""
					}
				}
			}
		}
		return "an unseeded random number"
	case "crypto/rand":
		return "a random number"
	case "hash/maphash":
		return "a randomly seeded hash"
	case "os":
		switch name {
		case "Getenv", "LookupEnv", "Environ", "Getpid", "Hostname", "Getwd", "TempDir", "Getuid":
			return "the environment"
		}
	case "runtime":
		switch name {
		case "NumCPU", "NumGoroutine", "GOMAXPROCS", "ReadMemStats", "Caller":
			return "the runtime"
		}
	}
	return ""
}

func sorters(c *ssa.CallCommon) bool {
	sc := c.StaticCallee()
	if sc == nil {
		return false
	}
	if sc.Origin() != nil {
		sc = sc.Origin()
	}
	if sc.Pkg == nil {
		return false
	}
	p, n := sc.Pkg.Pkg.Path(), sc.Name()
	return p == "sort" && (n == "Strings" || n == "Ints" || n == "Slice" || n == "SliceStable" || n == "Sort" || n == "Stable" || n == "Float64s") || p == "slices" && strings.HasPrefix(n, "Sort")
}

func runC15(c *Ctx) {
	g := c.Prog("", "")
	r := newResolver(g)
	w := storageWriters(r)
	var roots []*ssa.Function
	for _, fn := range r.fns {
		if fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		rel := shortFnName(fn.RelString(nil))
		if fn.Signature.Recv() == nil && fn.Name() == "NewIndexFile" || fn.Signature.Recv() != nil && fn.Name() == "Synchronize" {
			if strings.Contains(rel, "appendable.") || strings.Contains(rel, "handlers.") {
				roots = append(roots, fn)
			}
		}
	}
	if len(roots) < 2 {
		c.Missing("source", "the index opener and a Synchronize method")
		return
	}
	reach := reachable(r, roots)
	var fns []*ssa.Function
	for _, fn := range r.fns {
		if reach[fn] {
			fns = append(fns, fn)
			if lf := g.funcs[fn]; lf != nil {
				c.Fn(lf)
			}
		}
	}
	any := false
	for _, fn := range roots {
		any = any || w[fn]
	}
	if !any {
		c.Missing("source", "a write to storage reachable from synchronisation")
		return
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	type source struct {
		fn   *ssa.Function
		what string
		mark func(f *flow)
	}
	var sources []source
	nsrc := 0
	for _, fn := range fns {
		name := shortFnName(fn.RelString(nil))
		// the benchmark hook observes the run; it is not part of the index
		c.Obl("source", "functions reachable from synchronisation: "+name, true, "", "")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					nsrc++
					bad := ""
					body := rangeBody(in)
					for _, bb := range fn.Blocks {
						if !body[bb] {
							continue
						}
						for _, x := range bb.Instrs {
							if writes(r, w, x) {
								bad = "writes to storage inside a range over a map"
							}
						}
					}
					c.Obl("order", "range over a map in "+name, bad == "", g.pos(in.Pos()), bad)
					sources = append(sources, source{fn, "the order of a map", func(f *flow) { c15collect(f, in, body) }})
				case *ssa.Select:
					if len(in.States) > 1 {
						nsrc++
						sources = append(sources, source{fn, "which channel is ready first", func(f *flow) { f.taint(in) }})
					}
				case *ssa.Go:
					bad := false
					cs, _ := r.callees(in.Common())
					for _, t := range cs {
						bad = bad || w[t]
					}
					c.Obl("goroutine", "goroutine started in "+name, !bad, g.pos(in.Pos()), "a goroutine that writes to storage is started while indexing")
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := randomSource(ci.Common(), fn); s != "" {
						nsrc++
						sources = append(sources, source{fn, s, func(f *flow) {
							if v, ok := ci.(ssa.Value); ok {
								f.taint(v)
							}
							// calls that fill their argument
							for _, a := range ci.Common().Args {
								if carries(a.Type()) {
									f.taint(a)
									f.intoContainer(a, 0)
								}
							}
						}})
					}
				}
			}
		}
	}
	calls := 0
	for _, src := range sources {
		f := newFlow(r)
		f.all = true
		src.mark(f)
		f.run()
		calls = c15sinks(c, g, r, w, fns, f, src.what+" in "+shortFnName(src.fn.RelString(nil)))
	}
	if len(sources) == 0 {
		calls = c15sinks(c, g, r, w, fns, newFlow(r), "")
	}
	c.Count("functions reachable", len(fns))
	c.Count("calls that write to storage", calls)
	c.Count("sources", nsrc)
	c.Min("flow", 5)
	c.Min("source", 10)
}

func directWrite(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	c := ci.Common()
	return c.IsInvoke() && (c.Method.Name() == "Write" || c.Method.Name() == "WriteAt")
}

// rangeBody: the blocks that can reach the loop's Next again.
func rangeBody(rg *ssa.Range) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	for _, rf := range *rg.Referrers() {
		nx, ok := rf.(*ssa.Next)
		if !ok {
			continue
		}
		h := nx.Block()
		body[h] = true
		var add func(b *ssa.BasicBlock)
		add = func(b *ssa.BasicBlock) {
			if body[b] {
				return
			}
			body[b] = true
			for _, p := range b.Preds {
				add(p)
			}
		}
		for _, p := range h.Preds {
			if h.Dominates(p) {
				add(p)
			}
		}
	}
	return body
}

// c15collect marks what a range over a map produces in an arbitrary order:
// slices appended to in its body (unless they are sorted) and variables that
// keep a value of one iteration.
func c15collect(f *flow, rg *ssa.Range, body map[*ssa.BasicBlock]bool) {
	fn := rg.Parent()
	sorted := map[ssa.Value]bool{}
	var root func(v ssa.Value, d int) []ssa.Value
	root = func(v ssa.Value, d int) []ssa.Value {
		if d > 6 {
			return nil
		}
		r := []ssa.Value{v}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			r = append(r, root(x.X, d+1)...)
		case *ssa.ChangeType:
			r = append(r, root(x.X, d+1)...)
		case *ssa.Phi:
			for _, e := range x.Edges {
				r = append(r, root(e, d+1)...)
			}
		case *ssa.UnOp:
			r = append(r, root(x.X, d+1)...)
		}
		return r
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && sorters(ci.Common()) && !body[b] {
				for _, a := range ci.Common().Args[:1] {
					for _, v := range root(a, 0) {
						sorted[v] = true
					}
				}
			}
		}
	}
	// the key or value of the iteration at which the loop was left
	for _, rf := range *rg.Referrers() {
		nx, ok := rf.(*ssa.Next)
		if !ok {
			continue
		}
		for _, x := range *nx.Referrers() {
			ex, ok := x.(*ssa.Extract)
			if !ok || ex.Index == 0 {
				continue
			}
			for _, u := range *ex.Referrers() {
				if !body[u.Block()] {
					f.taint(ex)
				}
			}
		}
	}
	for b := range body {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			// carried around the loop and not just a counter
			carried := false
			for i, e := range phi.Edges {
				if body[b.Preds[i]] {
					if bo, ok := e.(*ssa.BinOp); ok && (bo.X == phi || bo.Y == phi) {
						continue // a sum or count does not depend on the order
					}
					if _, isConst := e.(*ssa.Const); e != phi && !isConst {
						carried = true
					}
				}
			}
			if carried && !sorted[phi] {
				f.taint(phi)
			}
		}
	}
}

// c15sinks checks every call that writes to storage against one source.
func c15sinks(c *Ctx, g *GoProg, r *resolver, w map[*ssa.Function]bool, fns []*ssa.Function, f *flow, from string) int {
	calls := 0
	for _, fn := range fns {
		if !w[fn] {
			continue
		}
		name := shortFnName(fn.RelString(nil))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if !writes(r, w, in) && !directWrite(in) {
					continue
				}
				calls++
				ci := in.(ssa.CallInstruction)
				bad := false
				for _, a := range argsOf(ci.Common()) {
					bad = bad || f.val[a]
				}
				c.Obl("flow", "arguments of "+calleeName(ci.Common())+" in "+name, !bad, g.pos(in.Pos()), "what is stored depends on "+from)
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && f.val[iff.Cond] {
				ctl := ""
				for i, s := range b.Succs {
					o := b.Succs[1-i]
					for _, x := range fn.Blocks {
						if s.Dominates(x) && len(s.Preds) == 1 && !o.Dominates(x) {
							for _, in := range x.Instrs {
								if writes(r, w, in) || directWrite(in) {
									ctl = calleeName(in.(ssa.CallInstruction).Common())
								}
								// leaving early decides what is written after it
								if _, ok := in.(*ssa.Return); ok {
									ctl = "return"
								}
							}
						}
					}
				}
				c.Obl("decision", "branch in "+name+" over "+ctl, ctl == "", g.pos(iff.Cond.Pos()), fmt.Sprintf("whether %s happens depends on %s", ctl, from))
			}
		}
	}
	return calls
}
