package main

// Flow: which values of the program may alias given bytes, and everything that
// would write through such a value. Interprocedural, flow-insensitive,
// field-based; interface calls go to every implementation in the repository.

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// repoFuncs lists every function of the repository with a body.
func (g *GoProg) repoFuncs() []*ssa.Function {
	var r []*ssa.Function
	for f := range ssautil.AllFunctions(g.prog) {
		if g.isRepo(f) && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].RelString(nil) != r[j].RelString(nil) {
			return r[i].RelString(nil) < r[j].RelString(nil)
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

// callees resolves a call to functions of the repository; ext is set when the
// call may also (or only) reach code outside it.
type resolver struct {
	g     *GoProg
	fns   []*ssa.Function
	taken map[string][]*ssa.Function // functions used as values, by signature
}

func newResolver(g *GoProg) *resolver {
	r := &resolver{g: g, fns: g.repoFuncs(), taken: map[string][]*ssa.Function{}}
	add := func(f *ssa.Function) {
		if !g.isRepo(f) {
			return
		}
		k := sigKey(f.Signature)
		for _, x := range r.taken[k] {
			if x == f {
				return
			}
		}
		r.taken[k] = append(r.taken[k], f)
	}
	for _, f := range r.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if fv, ok := (*op).(*ssa.Function); ok && *op != callee {
						add(fv)
					}
				}
			}
		}
	}
	return r
}

func sigKey(s *types.Signature) string {
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(s.Params().At(i).Type().String() + ",")
	}
	b.WriteString("->")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(s.Results().At(i).Type().String() + ",")
	}
	return b.String()
}

func (r *resolver) callees(c *ssa.CallCommon) (repo []*ssa.Function, ext bool) {
	if c.IsInvoke() {
		iface, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range r.fns {
			if f.Name() != c.Method.Name() || f.Signature.Recv() == nil || f.Synthetic != "" {
				continue
			}
			t := f.Signature.Recv().Type()
			if iface != nil && (types.Implements(t, iface) || types.Implements(types.NewPointer(t), iface)) {
				repo = append(repo, f)
			}
		}
		return repo, true
	}
	if f := c.StaticCallee(); f != nil {
		if r.g.isRepo(f) && len(f.Blocks) > 0 {
			return []*ssa.Function{f}, false
		}
		return nil, true
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	return r.taken[sigKey(c.Signature())], true
}

// params of a callee, aligned with the arguments (the receiver of an interface
// call first).
func argsOf(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

type flowHit struct {
	fn   *ssa.Function
	in   ssa.Instruction
	what string
}

type flow struct {
	r       *resolver
	val     map[ssa.Value]bool
	raw     map[ssa.Value]bool // pointers made from raw memory
	field   map[*types.Var]bool
	ret     map[*ssa.Function]map[int]bool
	changed bool
	hits    []flowHit
	seen    map[ssa.Instruction]bool
	sinks   int
	all     bool // follow every value, not only references to bytes
}

func newFlow(r *resolver) *flow {
	return &flow{r: r, val: map[ssa.Value]bool{}, raw: map[ssa.Value]bool{}, field: map[*types.Var]bool{}, ret: map[*ssa.Function]map[int]bool{}, seen: map[ssa.Instruction]bool{}}
}

func carries(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature, *types.Array, *types.TypeParam:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Tuple:
		return true
	}
	return false
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// rawBytes: the value is itself a view of bytes.
func rawBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Pointer:
		if isByte(u.Elem()) {
			return true
		}
		a, ok := u.Elem().Underlying().(*types.Array)
		return ok && isByte(a.Elem())
	}
	return false
}

func (f *flow) taint(v ssa.Value) {
	if v == nil || f.val[v] || !f.all && !carries(v.Type()) {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	f.val[v] = true
	f.changed = true
}

func (f *flow) taintField(v *types.Var) {
	if v != nil && !f.field[v] && (f.all || carries(v.Type())) {
		f.field[v] = true
		f.changed = true
	}
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return s.Field(i)
}

// intoContainer taints what holds the storage an address belongs to.
func (f *flow) intoContainer(v ssa.Value, depth int) {
	if depth > 12 || v == nil {
		return
	}
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.MakeSlice, *ssa.MakeMap, *ssa.FreeVar:
		f.taint(v)
	case *ssa.FieldAddr:
		f.taintField(fieldVar(v.X.Type(), v.Field))
	case *ssa.IndexAddr:
		f.intoContainer(v.X, depth+1)
	case *ssa.Slice:
		f.taint(v)
		f.intoContainer(v.X, depth+1)
	case *ssa.Phi:
		f.taint(v)
		if depth < 6 {
			for _, e := range v.Edges {
				f.intoContainer(e, depth+1)
			}
		}
	case *ssa.UnOp:
		f.taint(v)
		f.intoContainer(v.X, depth+1)
	case *ssa.Parameter:
		f.taint(v)
		i := paramIndex(v)
		for _, fn := range f.r.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cs, _ := f.r.callees(ci.Common())
					for _, t := range cs {
						if t == v.Parent() {
							if as := argsOf(ci.Common()); i < len(as) && !f.val[as[i]] {
								f.intoContainer(as[i], depth+4)
							}
						}
					}
				}
			}
		}
	default:
		f.taint(v)
	}
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func (f *flow) hit(fn *ssa.Function, in ssa.Instruction, what string) {
	if !f.seen[in] {
		f.seen[in] = true
		f.hits = append(f.hits, flowHit{fn, in, what})
	}
}

// rawAddr: the address lies inside memory the flow tracks.
func (f *flow) rawAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.IndexAddr:
		if f.val[x.X] && rawBytes(x.X.Type()) {
			return true
		}
		return f.raw[x.X] || f.rawAddr(x.X)
	case *ssa.FieldAddr:
		return f.raw[x.X] || f.rawAddr(x.X)
	}
	return f.raw[v] || f.val[v] && rawBytes(v.Type())
}

// run propagates to a fixed point and then collects the writes.
func (f *flow) run() {
	for {
		f.changed = false
		for _, fn := range f.r.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					f.step(fn, in, false)
				}
			}
		}
		if !f.changed {
			break
		}
	}
	f.sinks = 0
	for _, fn := range f.r.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f.step(fn, in, true)
			}
		}
	}
}

func (f *flow) step(fn *ssa.Function, in ssa.Instruction, sink bool) {
	switch in := in.(type) {
	case *ssa.Phi:
		for _, e := range in.Edges {
			if f.val[e] {
				f.taint(in)
			}
		}
	case *ssa.Slice:
		if f.val[in.X] || f.all && (f.val[in.Low] || f.val[in.High]) {
			f.taint(in)
		}
	case *ssa.ChangeType:
		if f.val[in.X] {
			f.taint(in)
		}
	case *ssa.ChangeInterface:
		if f.val[in.X] {
			f.taint(in)
		}
	case *ssa.MakeInterface:
		if f.val[in.X] {
			f.taint(in)
		}
	case *ssa.SliceToArrayPointer:
		if f.val[in.X] {
			f.taint(in)
		}
	case *ssa.TypeAssert:
		if f.val[in.X] {
			f.taint(in)
		}
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			cs, _ := f.r.callees(c.Common())
			for _, t := range cs {
				if f.ret[t][in.Index] {
					f.taint(in)
				}
			}
			if f.val[in.Tuple] {
				f.taint(in)
			}
		} else if f.val[in.Tuple] {
			f.taint(in)
		}
	case *ssa.BinOp:
		if f.all && (f.val[in.X] || f.val[in.Y]) {
			f.taint(in)
		}
	case *ssa.Convert:
		if f.all && f.val[in.X] {
			f.taint(in)
		}
		if f.val[in.X] {
			b, isUnsafe := in.X.Type().Underlying().(*types.Basic)
			toUnsafe, _ := in.Type().Underlying().(*types.Basic)
			if toUnsafe != nil && toUnsafe.Kind() == types.UnsafePointer {
				f.taint(in)
			} else if isUnsafe && b.Kind() == types.UnsafePointer {
				f.taint(in)
				if !f.raw[in] {
					f.raw[in] = true
					f.changed = true
				}
			} else if _, str := in.Type().Underlying().(*types.Basic); !str {
				f.taint(in)
			}
		}
	case *ssa.IndexAddr:
		if f.val[in.X] || f.all && f.val[in.Index] {
			f.taint(in)
		}
	case *ssa.Index:
		if f.val[in.X] || f.all && f.val[in.Index] {
			f.taint(in)
		}
	case *ssa.Lookup:
		if f.val[in.X] || f.all && f.val[in.Index] {
			f.taint(in)
		}
	case *ssa.Range:
		if f.val[in.X] {
			f.taint(in)
		}
	case *ssa.Next:
		if f.val[in.Iter] {
			f.taint(in)
		}
	case *ssa.FieldAddr:
		if f.field[fieldVar(in.X.Type(), in.Field)] {
			f.taint(in)
		}
	case *ssa.Field:
		if f.field[fieldVar(in.X.Type(), in.Field)] {
			f.taint(in)
		}
	case *ssa.UnOp:
		if f.val[in.X] {
			f.taint(in)
		}
	case *ssa.MakeClosure:
		for i, bv := range in.Bindings {
			if f.val[bv] {
				f.taint(in.Fn.(*ssa.Function).FreeVars[i])
			}
		}
		for i, fv := range in.Fn.(*ssa.Function).FreeVars {
			if f.val[fv] {
				f.taint(in.Bindings[i])
			}
		}
	case *ssa.Store:
		if f.val[in.Val] {
			f.intoContainer(in.Addr, 0)
		}
		if sink {
			f.sinks++
			if f.rawAddr(in.Addr) {
				if _, isAlloc := in.Addr.(*ssa.Alloc); !isAlloc {
					f.hit(fn, in, "assigns to an element")
				}
			}
		}
	case *ssa.MapUpdate:
		if f.val[in.Value] || f.val[in.Key] {
			f.intoContainer(in.Map, 0)
		}
	case *ssa.Send:
		if f.val[in.X] {
			f.intoContainer(in.Chan, 0)
		}
	case *ssa.Return:
		for i, v := range in.Results {
			if f.val[v] {
				if f.ret[fn] == nil {
					f.ret[fn] = map[int]bool{}
				}
				if !f.ret[fn][i] {
					f.ret[fn][i] = true
					f.changed = true
				}
			}
		}
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		f.call(fn, in, ci, sink)
	}
}

var sliceMutators = map[string]bool{"Sort": true, "SortFunc": true, "SortStableFunc": true, "Reverse": true, "Insert": true, "Delete": true, "DeleteFunc": true, "Replace": true, "Compact": true, "CompactFunc": true}

var fillers = map[string]bool{"Read": true, "ReadAt": true, "ReadFull": true, "ReadAtLeast": true, "Pread": true, "CopyBuffer": true, "XORKeyStream": true, "CryptBlocks": true, "EncodeRune": true, "Encode": true, "Decode": true, "FillBytes": true, "Preadv": true, "ReadFrom": true, "Recvfrom": true}

func (f *flow) call(fn *ssa.Function, in ssa.Instruction, ci ssa.CallInstruction, sink bool) {
	c := ci.Common()
	args := argsOf(c)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, _ := in.(ssa.Value)
		switch b.Name() {
		case "append":
			if f.val[args[0]] {
				f.taint(v)
			}
			// appended elements that are themselves references
			if len(args) > 1 && f.val[args[1]] {
				if s, ok := args[1].Type().Underlying().(*types.Slice); f.all || ok && !isByte(s.Elem()) {
					f.taint(v)
				}
			}
			if sink {
				f.sinks++
				if f.val[args[0]] && rawBytes(args[0].Type()) && !clipped(args[0]) {
					f.hit(fn, in, "appends in place to")
				}
			}
		case "copy":
			if len(args) > 1 && f.val[args[1]] {
				if s, ok := args[1].Type().Underlying().(*types.Slice); f.all || ok && !isByte(s.Elem()) {
					f.intoContainer(args[0], 0)
				}
			}
			if sink {
				f.sinks++
				if f.val[args[0]] && rawBytes(args[0].Type()) {
					f.hit(fn, in, "copies over")
				}
			}
		case "clear":
			if sink && f.val[args[0]] && rawBytes(args[0].Type()) {
				f.hit(fn, in, "clears")
			}
		case "len", "cap", "min", "max", "real", "imag":
			if f.all {
				for _, a := range args {
					if f.val[a] {
						f.taint(v)
					}
				}
			}
		case "SliceData", "Slice", "Add", "StringData":
			if len(args) > 0 && f.val[args[0]] {
				f.taint(v)
			}
		}
		return
	}
	repo, ext := f.r.callees(c)
	v, _ := in.(ssa.Value)
	for _, t := range repo {
		for i, a := range args {
			if f.val[a] && i < len(t.Params) {
				f.taint(t.Params[i])
			}
		}
		// a closure's free variables are bound where it is made
		if v != nil && t.Signature.Results().Len() == 1 && f.ret[t][0] {
			f.taint(v)
		}
	}
	if !ext || len(args) == 0 {
		return
	}
	name := ""
	pkg := ""
	recv := ""
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if sc := c.StaticCallee(); sc != nil {
		name = sc.Name()
		if sc.Object() != nil && sc.Object().Pkg() != nil {
			pkg = sc.Object().Pkg().Path()
		} else if sc.Pkg != nil {
			pkg = sc.Pkg.Pkg.Path()
		}
		if i := strings.IndexByte(name, '['); i > 0 {
			name = name[:i]
		}
		if sc.Origin() != nil && sc.Origin().Pkg != nil {
			pkg = sc.Origin().Pkg.Pkg.Path()
		}
		if r := sc.Signature.Recv(); r != nil {
			recv = r.Type().String()
		}
	}
	any := false
	for _, a := range args {
		any = any || f.val[a]
	}
	if !any {
		return
	}
	if v != nil {
		if externalAliases(pkg, recv, name) || f.all {
			f.taint(v)
		} else {
			// wrappers keep the bytes; a fresh []byte is a copy
			switch t := v.Type().(type) {
			case *types.Tuple:
				wrap := false
				for i := 0; i < t.Len(); i++ {
					switch t.At(i).Type().Underlying().(type) {
					case *types.Pointer:
						wrap = true
					}
				}
				if wrap && pkg != "" {
					f.taint(v)
				}
			default:
				switch t.Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Signature:
					if !isErrorType(t) {
						f.taint(v)
					}
				}
			}
		}
	}
	if !sink {
		return
	}
	for i, a := range args {
		if !f.val[a] {
			continue
		}
		first := firstBytes(args)
		bytesArg := rawBytes(a.Type())
		switch {
		case fillers[name] && bytesArg && (name != "Encode" && name != "Decode" || i == first):
			f.sinks++
			f.hit(fn, in, name+" fills")
		case bytesArg && i == first && (strings.HasPrefix(name, "Put") || strings.HasPrefix(name, "Append")) && !clipped(a):
			f.sinks++
			f.hit(fn, in, name+" writes into")
		case pkg == "slices" && sliceMutators[name] && i == 0 && bytesArg:
			f.sinks++
			f.hit(fn, in, "slices."+name+" reorders")
		case pkg == "sort" && i == 0:
			if mi, ok := a.(*ssa.MakeInterface); ok && rawBytes(mi.X.Type()) {
				f.hit(fn, in, "sort."+name+" reorders")
			}
		case i == 0 && strings.HasSuffix(recv, "bytes.Buffer") && (strings.HasPrefix(name, "Write") || name == "ReadFrom"):
			f.sinks++
			f.hit(fn, in, "(*bytes.Buffer)."+name+" writes into")
		}
	}
}

func firstBytes(args []ssa.Value) int {
	for i, a := range args {
		if rawBytes(a.Type()) {
			return i
		}
	}
	return -1
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// clipped: a slice without spare capacity, so that appending reallocates.
func clipped(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		if x.Max != nil && x.High != nil {
			if x.Max == x.High {
				return true
			}
			a, ok1 := x.Max.(*ssa.Const)
			b, ok2 := x.High.(*ssa.Const)
			return ok1 && ok2 && constant.Compare(a.Value, 39 /* token.EQL */, b.Value)
		}
	case *ssa.Call:
		if sc := x.Common().StaticCallee(); sc != nil && strings.HasPrefix(sc.Name(), "Clip") {
			return true
		}
	}
	return false
}

// externalAliases: the result of a library function shares the argument's bytes.
func externalAliases(pkg, recv, name string) bool {
	switch pkg {
	case "bytes":
		if strings.Contains(recv, "Buffer") {
			return name == "Bytes" || name == "Next"
		}
		for _, p := range []string{"Trim", "Fields", "Split", "Cut", "New", "Lines"} {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		return false
	case "slices":
		switch name {
		case "Clone", "Concat", "Collect", "Sorted", "Repeat":
			return false
		}
		return true
	}
	return false
}
