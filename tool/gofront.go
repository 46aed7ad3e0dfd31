package main

// Go front end: loads /repo with its real build configuration, builds SSA and
// lowers it to the IR.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kevmo314/appendable"

type GoProg struct {
	root        string
	fset        *token.FileSet
	pkgs        []*packages.Package
	prog        *ssa.Program
	ssaPkgs     []*ssa.Package
	funcs       map[*ssa.Function]*Func
	byName      map[string]*Func
	all         []*Func // every source function of the repository
	types       map[types.Type]*Type
	named       map[string]types.Type
	files       []string
	globals     map[string]*Term // constant-initialised globals
	gstores     map[*ssa.Global]int
	impls       map[string][]*Func // interface method -> repo implementations
	config      string
	constFields map[string]*Term
	ts          *TSProg
}

func loadGo(root string, tags string, goos string) (*GoProg, error) {
	tmp, err := os.MkdirTemp("", "vgo")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GOSUMDB=off")
	if goos != "" {
		env = append(env, "GOOS="+goos)
	}
	flags := []string{"-modfile=" + filepath.Join(tmp, "go.mod")}
	if tags != "" {
		flags = append(flags, "-tags="+tags)
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        root,
		Env:        env,
		BuildFlags: flags,
		Fset:       token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	g := &GoProg{root: root, fset: cfg.Fset, funcs: map[*ssa.Function]*Func{}, byName: map[string]*Func{}, types: map[types.Type]*Type{}, named: map[string]types.Type{}, globals: map[string]*Term{}, gstores: map[*ssa.Global]int{}, impls: map[string][]*Func{}}
	g.config = fmt.Sprintf("tags=%q goos=%q", tags, goos)
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		g.pkgs = append(g.pkgs, p)
		for _, f := range p.GoFiles {
			r, _ := filepath.Rel(root, f)
			g.files = append(g.files, r)
		}
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	g.prog = prog
	for _, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("a package failed to build SSA")
		}
		sp.Build()
		g.ssaPkgs = append(g.ssaPkgs, sp)
	}
	// every function with source in the repo
	for _, sp := range g.ssaPkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				g.addFn(m)
			case *ssa.Type:
				g.named[shortPkg(sp.Pkg.Path())+"."+m.Name()] = m.Type()
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							g.addFn(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(g.all, func(i, j int) bool { return g.all[i].Name < g.all[j].Name })
	g.buildConstFields()
	// interface implementation table
	for _, f := range g.all {
		if f.Recv != "" {
			g.impls[f.Short] = append(g.impls[f.Short], f)
		}
	}
	return g, nil
}

func (g *GoProg) addFn(f *ssa.Function) {
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	lf := g.lower(f)
	if f.Synthetic == "" && lf != nil && !strings.Contains(lf.Name, "$") {
		dup := false
		for _, x := range g.all {
			if x == lf {
				dup = true
			}
		}
		if !dup {
			g.all = append(g.all, lf)
		}
	}
	for _, a := range f.AnonFuncs {
		g.addFn(a)
	}
}

func shortPkg(p string) string {
	if p == modPath {
		return "appendable-root"
	}
	p = strings.TrimPrefix(p, modPath+"/pkg/")
	p = strings.TrimPrefix(p, modPath+"/")
	return p
}

func shortFnName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/pkg/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func (g *GoProg) isRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	p := f.Pkg
	if p == nil {
		if f.Parent() != nil {
			return g.isRepo(f.Parent())
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (g *GoProg) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := g.fset.Position(p)
	r, err := filepath.Rel(g.root, ps.Filename)
	if err != nil || strings.HasPrefix(r, "..") {
		r = filepath.Base(ps.Filename)
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}

func (g *GoProg) typ(t types.Type) *Type {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if x, ok := g.types[t]; ok {
		return x
	}
	r := &Type{gt: t}
	g.types[t] = r
	if n, ok := t.(*types.Named); ok {
		r.Name = shortFnName(n.String())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		in := u.Info()
		switch {
		case in&types.IsInteger != 0:
			r.Kind = "int"
			r.Signed = in&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.Bits = 8
			case types.Int16, types.Uint16:
				r.Bits = 16
			case types.Int32, types.Uint32:
				r.Bits = 32
			default:
				r.Bits = 64
			}
		case in&types.IsFloat != 0:
			r.Kind = "float"
			r.Bits = 64
			if u.Kind() == types.Float32 {
				r.Bits = 32
			}
		case in&types.IsBoolean != 0:
			r.Kind = "bool"
		case in&types.IsString != 0:
			r.Kind = "string"
		default:
			r.Kind = "other"
		}
		if r.Name == "" {
			r.str = u.Name()
		}
	case *types.Pointer:
		r.Kind = "ptr"
		r.Elem = g.typ(u.Elem())
	case *types.Slice:
		r.Kind = "slice"
		r.Elem = g.typ(u.Elem())
	case *types.Array:
		r.Kind = "array"
		r.Elem = g.typ(u.Elem())
		r.Len = u.Len()
	case *types.Struct:
		r.Kind = "struct"
		for i := 0; i < u.NumFields(); i++ {
			r.Fields = append(r.Fields, TField{u.Field(i).Name(), g.typ(u.Field(i).Type())})
		}
	case *types.Map:
		r.Kind = "map"
		r.Key = g.typ(u.Key())
		r.Elem = g.typ(u.Elem())
	case *types.Interface:
		r.Kind = "iface"
		r.emptyIface = u.NumMethods() == 0
		r.str = shortFnName(t.String())
	case *types.Signature:
		r.Kind = "func"
		r.str = shortFnName(t.String())
	case *types.Tuple:
		r.Kind = "tuple"
		for i := 0; i < u.Len(); i++ {
			r.Fields = append(r.Fields, TField{fmt.Sprint(i), g.typ(u.At(i).Type())})
		}
	default:
		r.Kind = "other"
		r.str = shortFnName(t.String())
	}
	return r
}

func zeroTerm(t *Type) *Term {
	if t == nil {
		return tNil
	}
	switch t.Kind {
	case "int":
		return tZero
	case "bool":
		return tFalse
	case "string":
		return mkStr("")
	case "float":
		return mkNamed("float:0", t)
	case "struct":
		var fs []*Term
		for _, f := range t.Fields {
			fs = append(fs, zeroTerm(f.Typ))
		}
		return mkAgg(t, fs)
	case "array":
		return mkApp("zeroarr", t)
	}
	return tNil
}

func (g *GoProg) constTerm(c *ssa.Const) *Term {
	t := g.typ(c.Type())
	if c.Value == nil {
		return zeroTerm(t)
	}
	switch t.Kind {
	case "int":
		v := constant.ToInt(c.Value)
		if n, ok := constant.Int64Val(v); ok {
			return mkInt(n)
		}
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if ok {
			return mkBig(b)
		}
		return mkNamed("const:"+v.ExactString(), t)
	case "bool":
		return mkBool(constant.BoolVal(c.Value))
	case "string":
		return mkStr(constant.StringVal(c.Value))
	case "float":
		return mkNamed("float:"+c.Value.ExactString(), t)
	}
	return mkNamed("const:"+c.Value.ExactString(), t)
}

func (g *GoProg) lower(f *ssa.Function) *Func {
	if x, ok := g.funcs[f]; ok {
		return x
	}
	lf := &Func{Name: shortFnName(f.String()), Short: f.Name(), Pos: g.pos(f.Pos()), RegName: map[int]string{}, Src: f}
	if f.Pkg != nil {
		lf.Pkg = shortPkg(f.Pkg.Pkg.Path())
	}
	if o := f.Origin(); o != nil {
		lf.Name = shortFnName(o.String())
	}
	lf.Exported = token.IsExported(f.Name())
	g.funcs[f] = lf
	if len(f.Blocks) == 0 || !g.isRepo(f) && f.Synthetic == "" {
		return lf
	}
	if _, dup := g.byName[lf.Name]; !dup {
		g.byName[lf.Name] = lf
	}
	if r := f.Signature.Recv(); r != nil {
		lf.Recv = shortFnName(types.Unalias(derefT(r.Type())).String())
	}
	regs := map[ssa.Value]int{}
	reg := func(v ssa.Value) int {
		if r, ok := regs[v]; ok {
			return r
		}
		lf.NReg++
		regs[v] = lf.NReg
		lf.RegName[lf.NReg] = v.Name()
		return lf.NReg
	}
	for _, p := range f.Params {
		lf.Params = append(lf.Params, reg(p))
		lf.ParamN = append(lf.ParamN, p.Name())
		lf.ParamT = append(lf.ParamT, g.typ(p.Type()))
	}
	for _, p := range f.FreeVars {
		lf.FreeVars = append(lf.FreeVars, reg(p))
		lf.FreeN = append(lf.FreeN, p.Name())
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		lf.Results = append(lf.Results, g.typ(rs.At(i).Type()))
	}
	opnd := func(v ssa.Value) Opnd {
		switch v := v.(type) {
		case *ssa.Const:
			return Opnd{C: g.constTerm(v)}
		case *ssa.Function:
			fn := g.lower(v)
			return Opnd{C: intern(&Term{op: TFn, fn: fn, s: fn.Name})}
		case *ssa.Global:
			return Opnd{C: g.globalAddr(v)}
		case *ssa.Builtin:
			return Opnd{C: mkNamed("builtin:"+v.Name(), nil)}
		}
		return Opnd{Reg: reg(v)}
	}
	for _, b := range f.Blocks {
		nb := &Block{Idx: b.Index}
		for _, s := range b.Succs {
			nb.Succs = append(nb.Succs, s.Index)
		}
		for _, s := range b.Preds {
			nb.Preds = append(nb.Preds, s.Index)
		}
		lf.Blocks = append(lf.Blocks, nb)
		for _, in := range lateLoads(b.Instrs) {
			i := g.lowerInstr(f, in, opnd, reg)
			if i == nil {
				continue
			}
			if i.Pos == "" {
				i.Pos = g.pos(in.Pos())
			}
			if i.Op == OpPhi {
				for _, p := range b.Preds {
					i.Edge = append(i.Edge, p.Index)
				}
			}
			nb.Instrs = append(nb.Instrs, i)
		}
	}
	for _, a := range f.AnonFuncs {
		g.lower(a)
	}
	return lf
}

// lateLoads puts the instructions of a block in the order the compiler uses:
// in "return v, f(&v)" the calls run before the variable is read, whereas
// go/ssa reads it first (the language leaves the order open).
func lateLoads(in []ssa.Instruction) []ssa.Instruction {
	if len(in) == 0 {
		return in
	}
	ret, ok := in[len(in)-1].(*ssa.Return)
	if !ok || len(ret.Results) < 2 {
		return in
	}
	var out, late []ssa.Instruction
	for _, x := range in[:len(in)-1] {
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			_, local := u.X.(*ssa.Alloc)
			uses := 0
			for _, r := range *u.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					uses++
					if r != ssa.Instruction(ret) {
						uses += 2
					}
				}
			}
			if local && uses == 1 && u.Pos() != token.NoPos && u.Pos() > ret.Pos() {
				late = append(late, x)
				continue
			}
		}
		out = append(out, x)
	}
	if len(late) == 0 {
		return in
	}
	return append(append(out, late...), ret)
}

func derefT(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (g *GoProg) globalAddr(v *ssa.Global) *Term {
	name := v.Name()
	if v.Pkg != nil {
		name = shortPkg(v.Pkg.Pkg.Path()) + "." + name
	}
	t := intern(&Term{op: TObj, s: "global:" + name, typ: g.typ(v.Type())})
	return t
}

func (g *GoProg) lowerInstr(f *ssa.Function, in ssa.Instruction, opnd func(ssa.Value) Opnd, reg func(ssa.Value) int) *Instr {
	mk := func(op Op, v ssa.Value, args ...ssa.Value) *Instr {
		i := &Instr{Op: op}
		if v != nil {
			i.Dst = reg(v)
			i.Typ = g.typ(v.Type())
		}
		for _, a := range args {
			if a == nil {
				i.A = append(i.A, Opnd{})
			} else {
				i.A = append(i.A, opnd(a))
			}
		}
		return i
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		i := mk(OpAlloc, x)
		i.Str = x.Comment
		return i
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return mk(OpLoad, x, x.X)
		}
		i := mk(OpUn, x, x.X)
		i.Str = x.Op.String()
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.Store:
		i := mk(OpStore, nil, x.Addr, x.Val)
		i.OpT = g.typ(x.Val.Type())
		return i
	case *ssa.FieldAddr:
		i := mk(OpFieldAddr, x, x.X)
		st := derefT(x.X.Type())
		i.OpT = g.typ(st)
		i.Str = st.Underlying().(*types.Struct).Field(x.Field).Name()
		return i
	case *ssa.Field:
		i := mk(OpField, x, x.X)
		i.OpT = g.typ(x.X.Type())
		i.Str = x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
		return i
	case *ssa.IndexAddr:
		i := mk(OpIndexAddr, x, x.X, x.Index)
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.Index:
		i := mk(OpIndex, x, x.X, x.Index)
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.BinOp:
		i := mk(OpBin, x, x.X, x.Y)
		i.Str = x.Op.String()
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.Convert:
		i := mk(OpConv, x, x.X)
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.MultiConvert:
		i := mk(OpConv, x, x.X)
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.ChangeType:
		i := mk(OpChangeType, x, x.X)
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.ChangeInterface:
		i := mk(OpChangeType, x, x.X)
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.SliceToArrayPointer:
		return mk(OpOther, x, x.X)
	case *ssa.MakeInterface:
		i := mk(OpMakeIface, x, x.X)
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.TypeAssert:
		i := mk(OpTypeAssert, x, x.X)
		i.OpT = g.typ(x.AssertedType)
		i.Comma = x.CommaOk
		return i
	case *ssa.Extract:
		i := mk(OpExtract, x, x.Tuple)
		i.Str = fmt.Sprint(x.Index)
		return i
	case *ssa.Phi:
		return mk(OpPhi, x, x.Edges...)
	case *ssa.Slice:
		i := mk(OpSlice, x, x.X, x.Low, x.High, x.Max)
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.MakeSlice:
		return mk(OpMakeSlice, x, x.Len, x.Cap)
	case *ssa.MakeMap:
		return mk(OpMakeMap, x)
	case *ssa.MapUpdate:
		i := mk(OpMapUpdate, nil, x.Map, x.Key, x.Value)
		i.OpT = g.typ(x.Map.Type())
		return i
	case *ssa.Lookup:
		i := mk(OpLookup, x, x.X, x.Index)
		i.OpT = g.typ(x.X.Type())
		i.Comma = x.CommaOk
		return i
	case *ssa.MakeClosure:
		i := mk(OpClosure, x, x.Bindings...)
		i.Call = &CallInfo{Fn: g.lower(x.Fn.(*ssa.Function))}
		return i
	case *ssa.Range:
		i := mk(OpRange, x, x.X)
		i.OpT = g.typ(x.X.Type())
		return i
	case *ssa.Next:
		i := mk(OpNext, x, x.Iter)
		i.Comma = x.IsString
		return i
	case *ssa.Call:
		i := mk(OpCall, x)
		g.lowerCall(i, &x.Call, opnd)
		return i
	case *ssa.Defer:
		i := mk(OpDefer, nil)
		g.lowerCall(i, &x.Call, opnd)
		return i
	case *ssa.Go:
		i := mk(OpGo, nil)
		g.lowerCall(i, &x.Call, opnd)
		return i
	case *ssa.RunDefers:
		return mk(OpRunDefers, nil)
	case *ssa.If:
		i := mk(OpIf, nil, x.Cond)
		i.Pos = g.pos(x.Cond.Pos())
		return i
	case *ssa.Jump:
		return mk(OpJump, nil)
	case *ssa.Return:
		return mk(OpReturn, nil, x.Results...)
	case *ssa.Panic:
		return mk(OpPanic, nil, x.X)
	}
	i := &Instr{Op: OpOther, Str: fmt.Sprintf("%T", in)}
	if v, ok := in.(ssa.Value); ok {
		i.Dst = reg(v)
		i.Typ = g.typ(v.Type())
	}
	return i
}

func (g *GoProg) lowerCall(i *Instr, c *ssa.CallCommon, opnd func(ssa.Value) Opnd) {
	ci := &CallInfo{}
	i.Call = ci
	for _, a := range c.Args {
		ci.ArgT = append(ci.ArgT, g.typ(a.Type()))
	}
	if c.IsInvoke() {
		ci.Invoke = true
		ci.Short = c.Method.Name()
		ci.IfaceT = g.typ(c.Value.Type())
		ci.Name = "invoke:" + ci.IfaceT.String() + "." + ci.Short
		i.A = append(i.A, opnd(c.Value))
		ci.ArgT = append([]*Type{ci.IfaceT}, ci.ArgT...)
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.Builtin = true
		ci.Short = b.Name()
		ci.Name = "builtin:" + b.Name()
	} else if sf := c.StaticCallee(); sf != nil {
		ci.Fn = g.lower(sf)
		ci.Name = ci.Fn.Name
		ci.Short = sf.Name()
		if o := sf.Origin(); o != nil {
			ci.Short = o.Name()
		}
		ci.Repo = g.isRepo(sf)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			// direct call of a closure: bindings come through the closure value
			ci.Dynamic = true
			i.A = append(i.A, opnd(mc))
			ci.Name = "dynamic"
			ci.ArgT = append([]*Type{nil}, ci.ArgT...)
			ci.Fn = nil
		}
	} else {
		ci.Dynamic = true
		ci.Name = "dynamic"
		i.A = append(i.A, opnd(c.Value))
		ci.ArgT = append([]*Type{nil}, ci.ArgT...)
	}
	for _, a := range c.Args {
		i.A = append(i.A, opnd(a))
	}
}

// implementsIface: does the named receiver (or its pointer) satisfy the interface?
func (g *GoProg) implementsIface(recv string, iface *Type) bool {
	if iface == nil || iface.gt == nil {
		return false
	}
	it, ok := iface.gt.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	t, ok := g.named[recv]
	if !ok {
		return false
	}
	return types.Implements(t, it) || types.Implements(types.NewPointer(t), it)
}
