package main

// C01: an error reported by the storage layer (or a decoder) reaches the caller.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C01",
		Title: "storage errors surface",
		Rules: "For every function of the indexer packages (unexported helpers analysed inside their callers, exported ones as roots, recursive ones on their own) and every call on every path that yields an error: if that error is non-nil then the function returns a provably non-nil error, records it in an error field that the caller consults, or panics; a loop never starts another iteration with an unreported error. io.EOF may be absorbed only where the callee itself returns it as the end-of-list marker, or where the missing data is then created by a write.",
		Trust: []string{"Go type checker and go/ssa construction", "the dataflow engine's value numbering; 64-bit integers do not overflow", "errors from fmt printing, strconv value inference, and Close of a deferred or already failing path are outside the rule"},
		Run:   runC01,
	})
}

var corePkgs = map[string]bool{"pagefile": true, "linkedpage": true, "bptree": true, "btree": true, "appendable": true, "handlers": true, "mmap": true, "vectorpage": true, "hnsw": true, "cmd": true, "metapage": true, "pointer": true, "encoding": true, "ngram": true}

func isErrType(t *Type) bool {
	return t != nil && t.Kind == "iface" && (t.Name == "error" || t.str == "error")
}

func errResult(ts []*Type) int {
	for i := len(ts) - 1; i >= 0; i-- {
		if isErrType(ts[i]) {
			return i
		}
	}
	return -1
}

func callResultTypes(in *Instr) []*Type { return resultTypes(in) }

var errExempt = []string{"fmt.", "strconv.", "errors.", "(*strings.Builder).", "(*bytes.Buffer).", "flag.", "invoke:hash", "(*encoding/json.Number).", "(encoding/json.Number)."}

// errCarriers are functions that report failure through a stored error.
func errCarriers(g *GoProg) map[*Func]bool {
	car := map[*Func]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range g.all {
			if car[f] || errResult(f.Results) >= 0 {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if in.Op == OpStore && isErrType(in.OpT) && !localAlloc(f, in.A[0]) {
						hit = true
					}
					if (in.Op == OpCall) && in.Call.Fn != nil && car[in.Call.Fn] {
						hit = true
					}
				}
			}
			if hit {
				car[f] = true
				changed = true
			}
		}
	}
	return car
}

func localAlloc(f *Func, a Opnd) bool {
	if a.C != nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Dst == a.Reg {
				return in.Op == OpAlloc
			}
		}
	}
	return false
}

// reachesWrite computes functions from which a write to the medium is reachable.
func reachesWrite(g *GoProg) map[*Func]bool {
	r := map[*Func]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range g.all {
			if r[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if in.Op != OpCall {
						continue
					}
					if callIsWrite(in.Call, r) {
						if !r[f] {
							r[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return r
}

func callIsWrite(ci *CallInfo, r map[*Func]bool) bool {
	if ci.Fn != nil && r[ci.Fn] {
		return true
	}
	switch ci.Short {
	case "Write", "WriteAt", "WriteString", "NewPage", "WriteTo":
		return true
	}
	return ci.Name == "encoding/binary.Write"
}

// returnsEOF: the function itself hands out io.EOF as a marker.
func returnsEOF(f *Func) bool {
	if f == nil {
		return false
	}
	regs := map[int]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Op == OpLoad && in.A[0].C != nil && in.A[0].C.s == "global:io.EOF" {
				regs[in.Dst] = true
			}
			if in.Op == OpReturn {
				for _, a := range in.A {
					if a.C == nil && regs[a.Reg] {
						return true
					}
				}
			}
		}
	}
	return false
}

func recursiveFns(g *GoProg) map[*Func]bool {
	r := map[*Func]bool{}
	for _, f := range g.all {
		seen := map[*Func]bool{}
		var visit func(x *Func) bool
		visit = func(x *Func) bool {
			for _, b := range x.Blocks {
				for _, in := range b.Instrs {
					if in.Call == nil || in.Call.Fn == nil {
						continue
					}
					if in.Call.Fn == f {
						return true
					}
					if !seen[in.Call.Fn] {
						seen[in.Call.Fn] = true
						if visit(in.Call.Fn) {
							return true
						}
					}
				}
			}
			return false
		}
		if visit(f) {
			r[f] = true
		}
	}
	return r
}

func symArgs(f *Func) []*Term {
	var args []*Term
	for i, p := range f.ParamN {
		args = append(args, mkNamed("arg:"+p, f.ParamT[i]))
	}
	return args
}

func runC01(c *Ctx) {
	c01Config(c, "", "", corePkgs)
	c01Config(c, "release", "", map[string]bool{"pagefile": true})
	c01Config(c, "", "darwin", map[string]bool{"mmap": true})
	c.Min("propagate", 60)
}

func c01Config(c *Ctx, tags, goos string, pkgs map[string]bool) {
	g := c.Prog(tags, goos)
	car := errCarriers(g)
	wr := reachesWrite(g)
	rec := recursiveFns(g)
	inlined := map[*Func]bool{}
	policy := func(f *Func) bool {
		if strings.HasPrefix(f.Pkg, "golang") || !pkgsRepo(f) {
			return false
		}
		if car[f] || isGetter(f) {
			return true
		}
		return !f.Exported
	}
	analyse := func(root *Func) {
		c.Fn(root)
		var eng *Engine
		check := func(e *Engine, st *State, res []*Term, types []*Type, evs []*Event, where, pos string) {
			ei := errResult(types)
			for k, ev := range evs {
				if ev.Kind != "err" {
					continue
				}
				er := ev.A[0]
				key := root.Name + " <- " + ev.Str
				c.Obl("propagate", key, true, ev.Pos, "")
				if st.facts.implied(tEq(er, tNil)) {
					continue
				}
				f := st.facts.clone()
				f.assume(tNot(tEq(er, tNil)))
				if f.dead || f.refuted(tNot(tEq(er, tNil))) {
					continue
				}
				ok := false
				if ei >= 0 && ei < len(res) {
					ok = f.refuted(tEq(res[ei], tNil))
				}
				if !ok && ei < 0 {
					for cell, v := range st.mem {
						if isErrType(cellType(cell, v)) && v != tNil && f.refuted(tEq(v, tNil)) && addrRoot(cell) != cell {
							ok = true
						}
					}
				}
				if !ok {
					ok = eofTolerated(g, st, ev, evs[k+1:])
				}
				if !ok {
					c.Obl("propagate", key, false, ev.Pos, fmt.Sprintf("an error from %s at %s is lost: %s reaches %s (%s) without reporting it", ev.Str, ev.Pos, root.Name, where, pos))
				}
			}
		}
		cl := &Client{MaxDepth: 10, Inline: func(f *Func) bool {
			if policy(f) {
				inlined[f] = true
				return true
			}
			return false
		}}
		cl.MergeKey = func(st *State) string {
			var b strings.Builder
			for _, ev := range st.trace {
				if ev.Kind != "err" {
					continue
				}
				switch {
				case st.facts.implied(tEq(ev.A[0], tNil)):
					b.WriteByte('n')
				case isEOFErr(st, ev.A[0]):
					b.WriteByte('e')
				case st.facts.refuted(tEq(ev.A[0], tNil)):
					b.WriteByte('x')
				default:
					b.WriteByte('?')
				}
			}
			return b.String()
		}
		cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
			ts := callResultTypes(cc.In)
			if callIsWriteCtx(cc, wr) {
				st.emit(&Event{Kind: "write", Str: cc.Name, Pos: cc.Pos})
			}
			if cc.In.Op == OpDefer && cc.Short == "Close" {
				return e.opaque(st, cc, cc.In), true
			}
			ei := errResult(ts)
			if ei < 0 {
				return nil, false
			}
			for _, p := range errExempt {
				if strings.HasPrefix(cc.Name, p) {
					return nil, false
				}
			}
			if cc.Fn != nil && len(cc.Fn.Blocks) > 0 && policy(cc.Fn) && !e.onStack(cc.Fn) && len(e.stack) < e.cl.MaxDepth {
				return nil, false
			}
			outs := e.opaque(st, cc, cc.In)
			for _, o := range outs {
				o.st.emit(&Event{Kind: "err", A: []*Term{o.res[ei]}, Str: cc.Name, Pos: cc.Pos, In: cc.In})
			}
			return outs, true
		}
		cl.OnBack = func(e *Engine, st *State, fn *Func, h int) {
			if e.dry > 0 {
				return
			}
			lk := fmt.Sprintf("%s:b%d", fn.Name, h)
			from := 0
			for i, ev := range st.trace {
				if ev.Kind == "loop-begin" && ev.Str == lk {
					from = i
				}
			}
			check(e, st, nil, nil, st.trace[from:], "the next iteration of a loop in "+fn.Name, "")
		}
		eng = newEngine(g, cl)
		outs := eng.Run(root, symArgs(root), nil, newState())
		for _, o := range outs {
			if o.panic {
				continue
			}
			if printer(g, root) || root.Short == "Parse" && len(root.Results) == 1 {
				continue
			}
			check(eng, o.st, o.res, root.Results, o.st.trace, "a return", o.pos)
		}
		c.Count("paths", len(outs))
		c.Problems(eng, root.Name)
	}
	var rest []*Func
	for _, f := range g.all {
		if !pkgs[f.Pkg] || f.Short == "init" {
			continue
		}
		if f.Exported || f.Short == "main" || rec[f] {
			analyse(f)
		} else {
			rest = append(rest, f)
		}
	}
	for _, f := range rest {
		if !inlined[f] {
			analyse(f)
		}
	}
}

func pkgsRepo(f *Func) bool { return corePkgs[f.Pkg] }

func callIsWriteCtx(cc *CallCtx, wr map[*Func]bool) bool {
	if cc.Fn != nil && wr[cc.Fn] {
		return true
	}
	return callIsWrite(cc.In.Call, wr)
}

func isEOFErr(st *State, er *Term) bool {
	eof := mkNamed("global:err:io.EOF", tErrT)
	return st.facts.implied(tEq(er, eof)) || st.facts.implied(mkApp("errors.Is", tBoolT, er, eof))
}

// printer: a human-readable dump (String and the helpers only it uses).
func printer(g *GoProg, f *Func) bool {
	if len(f.Results) != 1 || f.Results[0].Kind != "string" {
		return false
	}
	if f.Short == "String" {
		return true
	}
	n := 0
	for _, x := range g.all {
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				if in.Call != nil && in.Call.Fn == f && x != f {
					if x.Short != "String" {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// getter: a single straight-line block without calls.
func isGetter(f *Func) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		if in.Call != nil || in.Op == OpStore {
			return false
		}
	}
	return true
}

func eofTolerated(g *GoProg, st *State, ev *Event, later []*Event) bool {
	if !isEOFErr(st, ev.A[0]) {
		return false
	}
	// the callee uses io.EOF as its own end marker
	if ev.In.Call.Fn != nil && returnsEOF(ev.In.Call.Fn) {
		return true
	}
	// the missing data is created
	if ev.In.Call.Short == "Read" {
		for _, l := range later {
			if l.Kind == "write" {
				return true
			}
		}
	}
	return false
}
