package main

// C04: indexing never modifies the data.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:    "C04",
		Title: "the indexed data is only ever read",
		Rules: "A field-based, interprocedural alias analysis follows the data bytes (every []byte parameter of a method called Synchronize or Parse that implements the data handler interfaces) through the whole repository: slices of them, struct fields and containers they are stored in, arguments, results, closures, readers and buffers wrapped around them. No element assignment, copy, clear, in-place append, sort or library function that fills its argument may be applied to an alias. In the command, the call that opens the file whose mapping is synchronised is found by following its result to the Synchronize call: it must open the file read-only, without creating or truncating it, a mapping opened that way must not be writable, and no other call of the command may create, truncate, rename, remove or open for writing the same path.",
		Trust: []string{"Go type checker and go/ssa construction", "library functions write only to the arguments their documentation says they fill"},
		Run:   runC04,
	})
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func runC04(c *Ctx) {
	for _, cfg := range []string{"", "debug"} {
		if cfg != "" && !c.thorough() {
			continue
		}
		g := c.Prog(cfg, "")
		r := newResolver(g)
		f := newFlow(r)
		n := 0
		for _, fn := range r.fns {
			if fn.Signature.Recv() == nil || fn.Name() != "Synchronize" && fn.Name() != "Parse" {
				continue
			}
			for _, p := range fn.Params {
				if isBytes(p.Type()) {
					f.taint(p)
					n++
				}
			}
		}
		if n == 0 {
			c.Missing("write", "a Synchronize or Parse method taking the data bytes")
			return
		}
		f.run()
		touched := map[*ssa.Function]bool{}
		for v := range f.val {
			if p := v.Parent(); p != nil {
				touched[p] = true
			}
		}
		for _, fn := range r.fns {
			if touched[fn] {
				c.Obl("write", "data bytes in "+shortFnName(fn.RelString(nil)), true, "", "")
				if lf := g.funcs[fn]; lf != nil {
					c.Fn(lf)
				}
			}
		}
		for _, h := range f.hits {
			c.Obl("write", "data bytes in "+shortFnName(h.fn.RelString(nil)), false, g.pos(h.in.Pos()), fmt.Sprintf("%s bytes that may be the indexed data", h.what))
		}
		c.Count("values that may alias the data", len(f.val))
		c.Count("writes examined", f.sinks)
		c.Count("sources", n)
		c.Min("write", 3)
		if cfg == "" {
			c04open(c, g, r)
		}
	}
}

// opening: how a call opens a file: path and flags as seen by the caller.
type opening struct {
	path  ssa.Value
	flags ssa.Value // nil: fixed
	fixed int64
}

const (
	oWronly = 1
	oRdwr   = 2
	oCreate = 0o100
	oTrunc  = 0o1000
	oAppend = 0o2000
)

// openings of files a call performs, with parameters of the callee replaced by
// the arguments of the call.
func openings(r *resolver, c *ssa.CallCommon, depth int) []opening {
	if depth > 6 {
		return nil
	}
	if sc := c.StaticCallee(); sc != nil && !r.g.isRepo(sc) && sc.Pkg != nil && sc.Pkg.Pkg.Path() == "os" {
		switch sc.Name() {
		case "Open":
			return []opening{{path: c.Args[0]}}
		case "Create":
			return []opening{{path: c.Args[0], fixed: oRdwr | oCreate | oTrunc}}
		case "OpenFile":
			return []opening{{path: c.Args[0], flags: c.Args[1]}}
		}
		return nil
	}
	fns, _ := r.callees(c)
	var res []opening
	args := argsOf(c)
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, o := range openings(r, ci.Common(), depth+1) {
					up := func(v ssa.Value) ssa.Value {
						if p, ok := v.(*ssa.Parameter); ok && p.Parent() == fn {
							if i := paramIndex(p); i < len(args) {
								return args[i]
							}
						}
						return v
					}
					if o.path != nil {
						o.path = up(o.path)
					}
					if o.flags != nil {
						o.flags = up(o.flags)
					}
					res = append(res, o)
				}
			}
		}
	}
	return res
}

func constFlags(v ssa.Value, seen map[ssa.Value]bool) (bits int64, known bool) {
	if seen[v] {
		return 0, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		i, ok := constant.Int64Val(constant.ToInt(x.Value))
		return i, ok
	case *ssa.Phi:
		for _, e := range x.Edges {
			b, ok := constFlags(e, seen)
			if !ok {
				return 0, false
			}
			bits |= b
		}
		return bits, true
	case *ssa.BinOp:
		a, ok1 := constFlags(x.X, seen)
		b, ok2 := constFlags(x.Y, seen)
		if ok1 && ok2 && x.Op.String() == "|" {
			return a | b, true
		}
		return 0, false
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			known = true
			for _, rf := range *al.Referrers() {
				switch s := rf.(type) {
				case *ssa.Store:
					b, ok := constFlags(s.Val, seen)
					known = known && ok
					bits |= b
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					known = false
				}
			}
			return bits, known
		}
	}
	return 0, false
}

// pathRoots: what a path value is made of without being changed.
func pathRoots(r *resolver, v ssa.Value, seen map[ssa.Value]bool, out map[string]bool, depth int) {
	if seen[v] || depth > 40 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			pathRoots(r, e, seen, out, depth+1)
		}
	case *ssa.ChangeType:
		pathRoots(r, x.X, seen, out, depth+1)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Alloc:
			for _, rf := range *a.Referrers() {
				if s, ok := rf.(*ssa.Store); ok && s.Addr == a {
					pathRoots(r, s.Val, seen, out, depth+1)
				}
			}
			out[fmt.Sprintf("var %p", a)] = true
		case *ssa.IndexAddr:
			src := map[string]bool{}
			listRoots(r, a.X, map[ssa.Value]bool{}, src, 0)
			for k := range src {
				out[k] = true
			}
		case *ssa.Global:
			out["global "+a.String()] = true
		case *ssa.FieldAddr:
			out["field "+fieldVar(a.X.Type(), a.Field).String()] = true
		}
	case *ssa.Call:
		n := extName(x.Common())
		switch n {
		case "flag.Arg":
			out["arguments"] = true
			return
		case "path/filepath.Clean", "path/filepath.Abs", "path.Clean", "path/filepath.EvalSymlinks", "strings.TrimSpace":
			pathRoots(r, x.Common().Args[0], seen, out, depth+1)
			return
		}
		fns, _ := r.callees(x.Common())
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, rv := range ret.Results {
						pathRoots(r, rv, seen, out, depth+1)
					}
				}
			}
		}
	case *ssa.Extract:
		pathRoots(r, x.Tuple, seen, out, depth+1)
	case *ssa.Parameter:
		out[fmt.Sprintf("param %p", x)] = true
		for _, fn := range r.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						cs, _ := r.callees(ci.Common())
						for _, t := range cs {
							if t == x.Parent() {
								if as := argsOf(ci.Common()); paramIndex(x) < len(as) {
									pathRoots(r, as[paramIndex(x)], seen, out, depth+1)
								}
							}
						}
					}
				}
			}
		}
	}
}

func listRoots(r *resolver, v ssa.Value, seen map[ssa.Value]bool, out map[string]bool, depth int) {
	if seen[v] || depth > 20 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if extName(x.Common()) == "flag.Args" {
			out["arguments"] = true
			return
		}
		fns, _ := r.callees(x.Common())
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, rv := range ret.Results {
						listRoots(r, rv, seen, out, depth+1)
					}
				}
			}
		}
	case *ssa.Slice:
		listRoots(r, x.X, seen, out, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			listRoots(r, e, seen, out, depth+1)
		}
	case *ssa.UnOp:
		if gl, ok := x.X.(*ssa.Global); ok && gl.String() == "os.Args" {
			out["arguments"] = true
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, rf := range *a.Referrers() {
				if s, ok := rf.(*ssa.Store); ok && s.Addr == a {
					listRoots(r, s.Val, seen, out, depth+1)
				}
			}
		}
	case *ssa.Parameter:
		for _, fn := range r.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == x.Parent() {
						listRoots(r, ci.Common().Args[paramIndex(x)], seen, out, depth+1)
					}
				}
			}
		}
	}
}

func extName(c *ssa.CallCommon) string {
	sc := c.StaticCallee()
	if sc == nil || sc.Pkg == nil || sc.Signature.Recv() != nil {
		return ""
	}
	return sc.Pkg.Pkg.Path() + "." + sc.Name()
}

func c04open(c *Ctx, g *GoProg, r *resolver) {
	// what reaches Synchronize's data, traced back to the calls that opened it
	var data []ssa.Value
	cmd := func(fn *ssa.Function) bool {
		for p := fn; p != nil; p = p.Parent() {
			if p.Pkg != nil {
				return p.Pkg.Pkg.Name() == "main"
			}
		}
		return false
	}
	type site struct {
		fn *ssa.Function
		ci ssa.CallInstruction
	}
	var opens []site
	for _, fn := range r.fns {
		if !cmd(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if sc := cc.StaticCallee(); sc != nil && sc.Name() == "Synchronize" || cc.IsInvoke() && cc.Method.Name() == "Synchronize" {
					for _, a := range argsOf(cc) {
						if isBytes(a.Type()) {
							data = append(data, a)
						}
					}
				}
				// innermost calls of the command that open something
				fns, _ := r.callees(cc)
				inner := false
				for _, t := range fns {
					inner = inner || cmd(t)
				}
				if !inner && len(openings(r, cc, 0)) > 0 {
					opens = append(opens, site{fn, ci})
				}
			}
		}
	}
	if len(data) == 0 {
		c.Missing("open", "a command that synchronises an index with a data file")
		return
	}
	found := false
	var roots map[string]bool
	var dataSites = map[ssa.CallInstruction]bool{}
	dataPkg := map[*ssa.Package]bool{}
	for _, s := range opens {
		f := newFlow(r)
		v, ok := s.ci.(ssa.Value)
		if !ok {
			continue
		}
		f.val[v] = true
		// follow only inside the command: the library is shared by all files
		f.r = &resolver{g: g, taken: r.taken}
		for _, fn := range r.fns {
			if cmd(fn) {
				f.r.fns = append(f.r.fns, fn)
			}
		}
		for {
			f.changed = false
			for _, fn := range f.r.fns {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						f.step(fn, in, false)
						// what the library makes of a handle gives access to its bytes
						if call, ok := in.(*ssa.Call); ok && !f.val[call] {
							own := false
							if sc := call.Common().StaticCallee(); sc != nil {
								own = cmd(sc)
							}
							for _, a := range argsOf(call.Common()) {
								if f.val[a] && !own && carries(call.Type()) && !isErrorType(call.Type()) {
									f.taint(call)
								}
							}
						}
					}
				}
			}
			if !f.changed {
				break
			}
		}
		hit := false
		for _, d := range data {
			hit = hit || f.val[d]
		}
		if !hit {
			continue
		}
		found = true
		dataSites[s.ci] = true
		dataPkg[s.fn.Pkg] = true
		for _, o := range openings(r, s.ci.Common(), 0) {
			bits, ok := o.fixed, true
			if o.flags != nil {
				bits, ok = constFlags(o.flags, map[ssa.Value]bool{})
			}
			bad := ""
			switch {
			case !ok:
				bad = "the data file is opened with flags that are not known to be read-only"
			case bits&(oWronly|oRdwr) != 0:
				bad = "the data file is opened for writing"
			case bits&(oCreate|oTrunc|oAppend) != 0:
				bad = "the data file is created, truncated or appended to when it is opened"
			}
			c.Obl("open", "data file in "+shortFnName(s.fn.RelString(nil)), bad == "", g.pos(s.ci.Pos()), bad)
			if roots == nil {
				roots = map[string]bool{}
			}
			if o.path != nil {
				pathRoots(r, o.path, map[ssa.Value]bool{}, roots, 0)
			}
		}
	}
	c.Obl("open", "data file opened by the command", found, "", "no call of the command opens the file that is synchronised")
	// the same path in any call that changes a file
	var rk []string
	for k := range roots {
		rk = append(rk, k)
	}
	sort.Strings(rk)
	for _, fn := range r.fns {
		if !cmd(fn) || !dataPkg[fn.Pkg] && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || dataSites[ci] {
					continue
				}
				cc := ci.Common()
				var paths []ssa.Value
				switch extName(cc) {
				case "os.WriteFile", "os.Remove", "os.RemoveAll", "os.Truncate", "os.Chmod":
					paths = cc.Args[:1]
				case "os.Rename", "os.Link", "os.Symlink":
					paths = cc.Args[:2]
				default:
					for _, o := range openings(r, cc, 0) {
						bits, ok := o.fixed, true
						if o.flags != nil {
							bits, ok = constFlags(o.flags, map[ssa.Value]bool{})
						}
						if o.path != nil && (!ok || bits&(oWronly|oRdwr|oTrunc|oCreate) != 0) {
							paths = append(paths, o.path)
						}
					}
				}
				for _, p := range paths {
					mine := map[string]bool{}
					pathRoots(r, p, map[ssa.Value]bool{}, mine, 0)
					shared := ""
					for _, k := range rk {
						if mine[k] {
							shared = k
						}
					}
					c.Obl("path", "file opened for writing in "+shortFnName(fn.RelString(nil))+" at "+calleeName(cc), shared == "", g.pos(ci.Pos()), "the path of the data file is also opened for writing, replaced or removed")
				}
			}
		}
	}
	c.Min("open", 2)
	// a mapping of a file that was not opened for writing is not writable
	c04prot(c, g, r)
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if sc := c.StaticCallee(); sc != nil {
		return strings.TrimPrefix(shortFnName(sc.RelString(nil)), "")
	}
	return "call"
}

// c04prot evaluates the protection of a mapping for read-only flags.
func c04prot(c *Ctx, g *GoProg, r *resolver) {
	op := g.function("mmap", "OpenFile")
	if op == nil {
		c.Missing("protection", "the exported opener mmap.OpenFile")
		return
	}
	c.Fn(op)
	var prots []*Term
	cl := &Client{Inline: func(fn *Func) bool { return fn.Pkg == "mmap" && fn != op }}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if strings.HasSuffix(cc.Name, "unix.Mmap") && len(cc.Args) >= 5 {
			if e.dry == 0 {
				prots = append(prots, cc.Args[3])
			}
			return e.opaque(st, cc, cc.In), true
		}
		return nil, false
	}
	e := newEngine(g, cl)
	st := newState()
	args := symArgs(op)
	for i, a := range args {
		if a.typ != nil && a.typ.Kind == "int" && a.typ.Signed {
			args[i] = mkInt(0)
		}
	}
	e.Run(op, args, nil, st)
	c.Problems(e, "OpenFile")
	for _, p := range prots {
		ok := p.op == TInt && p.k.IsInt64() && p.k.Int64()&2 == 0
		c.Obl("protection", "mapping of a read-only file", ok, op.Pos, "a file opened read-only is mapped with protection "+p.String())
	}
	c.Min("protection", 1)
}
