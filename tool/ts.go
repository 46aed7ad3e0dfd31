package main

// TypeScript front end: ts/front.js lowers the client's source, with the types
// the TypeScript compiler gives it, to the IR; this file reads that and models
// the built-in objects the client uses.

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

//go:embed ts/front.js
var tsFront []byte

const tsLib = "/opt/veriftools/node/node_modules/typescript/lib/typescript.js"

type jType struct {
	K   string   `json:"k"`
	N   string   `json:"n"`
	E   *jType   `json:"e"`
	F   []*jType `json:"f"`
	Opt bool     `json:"opt"`
}
type jConst struct {
	I   *string `json:"i"`
	F   *string `json:"f"`
	S   *string `json:"s"`
	B   *bool   `json:"b"`
	Nil int     `json:"nil"`
}
type jOp struct {
	R int     `json:"r"`
	C *jConst `json:"c"`
	F string  `json:"f"`
}
type jCall struct {
	Name    string   `json:"name"`
	Fn      string   `json:"fn"`
	Dynamic bool     `json:"dynamic"`
	ArgT    []*jType `json:"argt"`
}
type jInstr struct {
	Op    string `json:"op"`
	Dst   int    `json:"dst"`
	A     []*jOp `json:"a"`
	S     string `json:"s"`
	Own   string `json:"own"`
	T     *jType `json:"t"`
	OT    *jType `json:"ot"`
	Call  *jCall `json:"call"`
	Comma bool   `json:"comma"`
	Pos   string `json:"pos"`
	Edge  []int  `json:"edge"`
	Catch int    `json:"catch"`
}
type jFunc struct {
	Name, Short, Pkg, Recv, Pos string
	Params                      []int
	ParamN                      []string
	ParamT                      []*jType
	Free                        []int
	FreeN                       []string
	Results                     []*jType
	Blocks                      []struct {
		Instrs       []*jInstr
		Succs, Preds []int
	}
	NReg     int
	Exported bool
	Static   bool
	Gen      bool
	Names    map[string]string
}
type jProg struct {
	Funcs    []*jFunc
	Problems []string
	Files    []string
	Enums    map[string]struct {
		Members map[string]interface{}
		Pos     string
	}
}

var (
	tsAnyT   = &Type{Kind: "iface", Name: "ts.any", emptyIface: true}
	tsObjT   = &Type{Kind: "struct", Name: "ts.obj"}
	tsArrT   = &Type{Kind: "struct", Name: "ts.array"}
	tsNumT   = &Type{Kind: "int", Bits: 0, Signed: true, str: "number"}
	tsBytesT = &Type{Kind: "slice", Elem: byteT}
	tsListT  = &Type{Kind: "slice", Elem: tsAnyT}
	tsMapT   = &Type{Kind: "map", Name: "ts.map"}
	tsFuncT  = &Type{Kind: "func", Name: "ts.func"}
	tsObjP   = &Type{Kind: "ptr", Elem: tsObjT}
	tsArrP   = &Type{Kind: "ptr", Elem: tsArrT}
)

func tsType(j *jType) *Type {
	if j == nil {
		return nil
	}
	switch j.K {
	case "int":
		return tsNumT
	case "byte":
		return byteT
	case "bool":
		return tBoolT
	case "string":
		return tStrT
	case "bytes":
		return tsBytesT
	case "array":
		return tsArrP
	case "slice":
		return tsListT
	case "map":
		return tsMapT
	case "func":
		return tsFuncT
	case "obj":
		return tsObjP
	case "struct":
		return tsObjT
	case "ptr":
		return &Type{Kind: "ptr", Elem: tsType(j.E)}
	case "tuple":
		t := &Type{Kind: "tuple"}
		for _, f := range j.F {
			t.Fields = append(t.Fields, TField{Typ: tsType(f)})
		}
		return t
	}
	return tsAnyT
}

// TSProg is the lowered client.
type TSProg struct {
	*GoProg
	enums map[string]map[string]int64
	decl  map[*Func]*jFunc
}

func tsConst(c *jConst) *Term {
	switch {
	case c.I != nil:
		k, ok := new(big.Int).SetString(*c.I, 10)
		if !ok {
			return mkSym("num", tsNumT)
		}
		return mkBig(k)
	case c.F != nil:
		return mkNamed("float:"+*c.F, tsNumT)
	case c.S != nil:
		return mkStr(*c.S)
	case c.B != nil:
		return mkBool(*c.B)
	}
	return tNil
}

var tsOps = map[string]Op{
	"Alloc": OpAlloc, "Load": OpLoad, "Store": OpStore, "FieldAddr": OpFieldAddr, "IndexAddr": OpIndexAddr, "Bin": OpBin, "Un": OpUn,
	"Call": OpCall, "Phi": OpPhi, "Extract": OpExtract, "MakeMap": OpMakeMap, "MapUpdate": OpMapUpdate, "Lookup": OpLookup,
	"Closure": OpClosure, "Range": OpRange, "Next": OpNext, "If": OpIf, "Jump": OpJump, "Return": OpReturn, "Panic": OpPanic,
}

func loadTS(root string) (*TSProg, error) {
	tmp, err := os.MkdirTemp("", "vts")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	js := filepath.Join(tmp, "front.js")
	if err := os.WriteFile(js, tsFront, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command("node", js, tsLib, root)
	cmd.Dir = tmp
	var se strings.Builder
	cmd.Stderr = &se
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%v: %.300s", err, se.String())
	}
	var p jProg
	if err := json.Unmarshal(b, &p); err != nil {
		return nil, err
	}
	if len(p.Problems) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(p.Problems, "; "))
	}
	g := &TSProg{GoProg: &GoProg{root: root, funcs: nil, byName: map[string]*Func{}, globals: map[string]*Term{}, impls: map[string][]*Func{}, constFields: map[string]*Term{}, files: p.Files}, enums: map[string]map[string]int64{}, decl: map[*Func]*jFunc{}}
	g.ts = g
	for n, e := range p.Enums {
		m := map[string]int64{}
		for k, v := range e.Members {
			if x, ok := v.(float64); ok {
				m[k] = int64(x)
			}
		}
		g.enums[n] = m
	}
	for _, f := range p.Funcs {
		x := &Func{Name: f.Name, Short: f.Short, Pkg: f.Pkg, Recv: f.Recv, Params: f.Params, ParamN: f.ParamN, FreeVars: f.Free, FreeN: f.FreeN, NReg: f.NReg, Exported: f.Exported, Gen: f.Gen, Pos: f.Pos, RegName: map[int]string{}}
		for _, t := range f.ParamT {
			x.ParamT = append(x.ParamT, tsType(t))
		}
		for _, t := range f.Results {
			x.Results = append(x.Results, tsType(t))
		}
		for r, n := range f.Names {
			k, _ := strconv.Atoi(r)
			x.RegName[k] = n
		}
		g.byName[f.Name] = x
		g.decl[x] = f
		g.all = append(g.all, x)
	}
	for _, f := range p.Funcs {
		x := g.byName[f.Name]
		for bi, jb := range f.Blocks {
			blk := &Block{Idx: bi, Succs: jb.Succs, Preds: jb.Preds}
			for _, ji := range jb.Instrs {
				op, ok := tsOps[ji.Op]
				if !ok {
					return nil, fmt.Errorf("unknown operation %s", ji.Op)
				}
				in := &Instr{Op: op, Dst: ji.Dst, Str: ji.S, Typ: tsType(ji.T), OpT: tsType(ji.OT), Comma: ji.Comma, Pos: ji.Pos, Edge: ji.Edge, Catch: ji.Catch}
				if op == OpFieldAddr {
					in.OpT = tsObjT
					if ji.Own == "Array" {
						in.OpT = tsArrT
					}
				}
				if ji.OT != nil && ji.OT.K == "slice" {
					in.OpT = tsListT
				}
				for _, a := range ji.A {
					switch {
					case a == nil:
						in.A = append(in.A, Opnd{C: tNil})
					case a.C != nil:
						in.A = append(in.A, Opnd{C: tsConst(a.C)})
					case a.F != "":
						fn := g.byName[a.F]
						if fn == nil {
							return nil, fmt.Errorf("unknown function %s", a.F)
						}
						in.A = append(in.A, Opnd{C: intern(&Term{op: TFn, s: fn.Name, fn: fn})})
					default:
						in.A = append(in.A, Opnd{Reg: a.R})
					}
				}
				if ji.Call != nil {
					ci := &CallInfo{Name: ji.Call.Name, Short: ji.Call.Name, Dynamic: ji.Call.Dynamic, Repo: ji.Call.Fn != ""}
					if i := strings.LastIndexAny(ci.Short, ".:"); i >= 0 {
						ci.Short = ci.Short[i+1:]
					}
					if strings.HasPrefix(ci.Name, "builtin:") {
						ci.Builtin = true
						ci.Short = strings.TrimPrefix(ci.Name, "builtin:")
					}
					for _, t := range ji.Call.ArgT {
						ci.ArgT = append(ci.ArgT, tsType(t))
					}
					if ji.Call.Fn != "" {
						ci.Fn = g.byName[ji.Call.Fn]
						if ci.Fn == nil {
							return nil, fmt.Errorf("unknown function %s", ji.Call.Fn)
						}
						ci.Short = ci.Fn.Short
						if len(ci.Fn.Results) == 0 {
							in.Dst, in.Typ = 0, nil
						}
					}
					in.Call = ci
				}
				blk.Instrs = append(blk.Instrs, in)
			}
			x.Blocks = append(x.Blocks, blk)
		}
	}
	return g, nil
}

// TS loads the TypeScript client.
func (c *Ctx) TS() *TSProg {
	if c.ts != nil {
		return c.ts
	}
	g, err := loadTS(repoRoot())
	if err != nil {
		c.Obl("load", "typescript client", false, "", "the source does not load: "+err.Error())
		panic(stopCheck{})
	}
	c.ts = g
	c.configs = append(c.configs, fmt.Sprintf("typescript: %d files, %d functions", len(g.files), len(g.all)))
	return g
}

// fn finds a function by module-independent name: "Class.method" or "function".
func (g *TSProg) fn(name string) *Func {
	var r *Func
	for _, f := range g.all {
		n := f.Short
		if f.Recv != "" {
			n = f.Recv + "." + f.Short
		}
		if n == name && !strings.Contains(f.Name, "$") {
			if r != nil {
				return r
			}
			r = f
		}
	}
	return r
}

// ---- objects ---------------------------------------------------------------

func tsFld(o *Term, name string) *Term { return fieldAddr(o, tsObjT, name) }

// tsGet reads a property.
func (e *Engine) tsGet(st *State, o *Term, name string, t *Type) *Term {
	return e.load(st, tsFld(o, name), t)
}

// tsItems is the list inside an array object.
func (e *Engine) tsItems(st *State, arr *Term) *Term {
	return e.load(st, fieldAddr(arr, tsArrT, "$items"), tsListT)
}

func (e *Engine) tsArray(st *State, content *Term) *Term {
	o := mkObj("array", tsArrP)
	st.mem[fieldAddr(o, tsArrT, "$items")] = e.newSlice(st, "items", tsAnyT, content)
	return o
}

func (e *Engine) tsObject(st *State, fields map[string]*Term) *Term {
	o := mkObj("object", tsObjP)
	for k, v := range fields {
		st.mem[tsFld(o, k)] = v
	}
	return o
}

var repVals = map[string]*Term{}

func repSeq(v, n *Term) *Term {
	s := fmt.Sprintf("rep:%d:%d", v.id, n.id)
	repVals[s] = v
	return seqVar(s, n)
}

// tsWindow is b.slice(lo, hi): both ends are clamped to the length.
func (e *Engine) tsWindow(st *State, b, lo, hi *Term) (from, n *Term, ok bool) {
	ln := lenOf(b)
	clamp := func(x *Term) (*Term, bool) {
		if st.facts.implied(tLt(x, tZero)) || !isIntTerm(x) {
			return nil, false
		}
		if !st.facts.implied(tLe(tZero, x)) {
			return nil, false
		}
		return e.minmax(st, "min", x, ln, tsNumT), true
	}
	if lo == tNil {
		lo = tZero
	}
	if hi == tNil {
		hi = ln
	}
	f, ok1 := clamp(lo)
	t, ok2 := clamp(hi)
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	if st.facts.implied(tLe(f, t)) {
		return f, tSub(t, f), true
	}
	return f, e.minmax(st, "max", tSub(t, f), tZero, tsNumT), true
}

func pow2of(k *big.Int) (int, bool) {
	if k.Sign() > 0 && new(big.Int).And(k, new(big.Int).Sub(k, big.NewInt(1))).Sign() == 0 {
		return k.BitLen() - 1, true
	}
	return 0, false
}

// tsModel models the built-in objects of the language.
func tsModel(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
	n := strings.TrimPrefix(c.Name, "ts:")
	if n == c.Name {
		return nil, false
	}
	a := c.Args
	arg := func(k int) *Term {
		if k < len(a) {
			return a[k]
		}
		return tNil
	}
	rt := func() *Type {
		if c.In.Typ == nil {
			return tsAnyT
		}
		return c.In.Typ
	}
	argT := func(k int) *Type {
		if k < len(c.In.Call.ArgT) {
			return c.In.Call.ArgT[k]
		}
		return nil
	}
	pure := func() ([]Outcome, bool) { return one(st, mkApp(n, rt(), a...)), true }
	fresh := func() ([]Outcome, bool) { return one(st, mkSym(n, rt())), true }
	switch n {
	case "one":
		return one(st, e.newSlice(st, "one", tsAnyT, mkApp("unit", nil, a[0]))), true
	case "array", "Array.of":
		content := mkApp("cat", nil)
		for k, v := range a {
			if k < len(c.In.Str) && c.In.Str[k] == '1' {
				content = e.seqCat(st.facts, content, e.sliceSeq(st, e.tsItems(st, v), tsAnyT))
			} else {
				content = e.seqCat(st.facts, content, mkApp("unit", nil, v))
			}
		}
		return one(st, e.tsArray(st, content)), true
	case "new.Array", "Array":
		if len(a) == 0 {
			return one(st, e.tsArray(st, mkApp("cat", nil))), true
		}
		st.facts.assume(tLe(tZero, a[0]))
		return one(st, e.tsArray(st, repSeq(tNil, a[0]))), true
	case "Array.prototype.fill":
		if len(a) == 2 {
			it := e.tsItems(st, a[0])
			e.storeRaw(st, fieldAddr(a[0], tsArrT, "$items"), e.newSlice(st, "items", tsAnyT, repSeq(a[1], lenOf(it))), tsListT, c.In)
			return one(st, a[0]), true
		}
	case "Array.setLength":
		ad := fieldAddr(a[0], tsArrT, "$items")
		it := e.tsItems(st, a[0])
		b, off, ln := sliceParts(it)
		if st.facts.implied(tLe(a[1], ln)) || a[1] == tZero {
			e.storeRaw(st, ad, mkSlice(b, off, a[1]), tsListT, c.In)
		} else {
			e.storeRaw(st, ad, mkSym("items", tsListT), tsListT, c.In)
		}
		return one(st, tNil), true
	case "Array.prototype.push": // with spread arguments
		ad := fieldAddr(a[0], tsArrT, "$items")
		content := e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT)
		for k, v := range a[1:] {
			if k < len(c.In.Str) && c.In.Str[k] == '1' {
				content = e.seqCat(st.facts, content, e.sliceSeq(st, e.tsItems(st, v), tsAnyT))
			} else {
				content = e.seqCat(st.facts, content, mkApp("unit", nil, v))
			}
		}
		e.storeRaw(st, ad, e.newSlice(st, "items", tsAnyT, content), tsListT, c.In)
		return one(st, seqLen(content)), true
	case "Array.prototype.unshift":
		ad := fieldAddr(a[0], tsArrT, "$items")
		content := mkApp("cat", nil)
		for k, v := range a[1:] {
			if k < len(c.In.Str) && c.In.Str[k] == '1' {
				content = e.seqCat(st.facts, content, e.sliceSeq(st, e.tsItems(st, v), tsAnyT))
			} else {
				content = e.seqCat(st.facts, content, mkApp("unit", nil, v))
			}
		}
		content = e.seqCat(st.facts, content, e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT))
		e.storeRaw(st, ad, e.newSlice(st, "items", tsAnyT, content), tsListT, c.In)
		return one(st, seqLen(content)), true
	case "Array.prototype.pop":
		ad := fieldAddr(a[0], tsArrT, "$items")
		it := e.tsItems(st, a[0])
		b, off, ln := sliceParts(it)
		last := tAddK(ln, -1)
		v := e.selectElem(st, b, tAdd(off, last), rt())
		e.storeRaw(st, ad, mkSlice(b, off, last), tsListT, c.In)
		return one(st, v), true
	case "Array.prototype.slice":
		if lo, k, ok := e.tsWindow(st, e.tsItems(st, a[0]), arg(1), arg(2)); ok {
			s := e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT)
			return one(st, e.tsArray(st, e.seqSub(st.facts, s, lo, tAdd(lo, k)))), true
		}
		return one(st, e.tsArray(st, seqVar(mkSym("slice", nil).s, mkSym("n", tsNumT)))), true
	case "Array.prototype.concat":
		content := e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT)
		for k, v := range a[1:] {
			if t := argT(k + 1); t == tsArrP {
				content = e.seqCat(st.facts, content, e.sliceSeq(st, e.tsItems(st, v), tsAnyT))
			} else {
				content = e.seqCat(st.facts, content, mkApp("unit", nil, v))
			}
		}
		return one(st, e.tsArray(st, content)), true
	case "Array.prototype.sort", "Array.prototype.reverse":
		it := e.tsItems(st, a[0])
		if n == "Array.prototype.reverse" {
			ps := seqPieces(e.sliceSeq(st, it, tsAnyT))
			units := true
			for _, p := range ps {
				units = units && p.s == "unit"
			}
			if units {
				rev := make([]*Term, len(ps))
				for i, p := range ps {
					rev[len(ps)-1-i] = p
				}
				e.storeRaw(st, fieldAddr(a[0], tsArrT, "$items"), e.newSlice(st, "items", tsAnyT, mkApp("cat", nil, rev...)), tsListT, c.In)
				return one(st, a[0]), true
			}
		}
		s := seqVar(mkSym(n, nil).s, lenOf(it))
		st.emit(&Event{Kind: "ts." + n, A: append([]*Term{s, e.sliceSeq(st, it, tsAnyT)}, a...), Pos: c.Pos})
		e.storeRaw(st, fieldAddr(a[0], tsArrT, "$items"), e.newSlice(st, "sorted", tsAnyT, s), tsListT, c.In)
		return one(st, a[0]), true
	case "Array.prototype.shift", "Array.prototype.splice":
		e.storeRaw(st, fieldAddr(a[0], tsArrT, "$items"), mkSym("items", tsListT), tsListT, c.In)
		return fresh()
	case "Array.prototype.at":
		it := e.tsItems(st, a[0])
		b, off, ln := sliceParts(it)
		if k, ok := constI(a[1]); ok {
			i := mkInt(k)
			if k < 0 {
				i = tAdd(ln, i)
			}
			return one(st, e.selectElem(st, b, tAdd(off, i), rt())), true
		}
		if st.facts.implied(tLe(tZero, a[1])) {
			return one(st, e.selectElem(st, b, tAdd(off, a[1]), rt())), true
		}
		return fresh()
	case "Array.from":
		if t := argT(0); t == tsArrP && len(a) == 1 {
			return one(st, e.tsArray(st, e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT))), true
		}
		if x := unbox(a[0]); argT(0) == tsObjP && x.op == TObj && len(a) == 1 {
			ln := e.tsGet(st, x, "length", tsNumT)
			st.facts.assume(tLe(tZero, ln))
			return one(st, e.tsArray(st, repSeq(tNil, ln))), true
		}
		if a[0] == nil {
			return fresh()
		}
		s := fmt.Sprintf("from:%d", a[0].id)
		ln := mkApp("count", tsNumT, a[0])
		ln.lo = big.NewInt(0)
		return one(st, e.tsArray(st, seqVar(s, ln))), true
	case "Object.values", "Object.keys":
		if len(a) == 1 && a[0].op == TApp && strings.HasPrefix(a[0].s, "enum.") && e.g.ts != nil {
			m := e.g.ts.enums[strings.TrimPrefix(a[0].s, "enum.")]
			var names []string
			for k := range m {
				names = append(names, k)
			}
			sort.Slice(names, func(i, j int) bool { return m[names[i]] < m[names[j]] })
			var ps []*Term
			for _, k := range names {
				if n == "Object.values" {
					ps = append(ps, mkApp("unit", nil, mkInt(m[k])))
				} else {
					ps = append(ps, mkApp("unit", nil, mkStr(k)))
				}
			}
			for _, k := range names {
				x := mkStr(k)
				if n == "Object.keys" {
					x = mkStr(fmt.Sprint(m[k]))
				}
				ps = append(ps, mkApp("unit", nil, x))
			}
			return one(st, e.tsArray(st, mkApp("cat", nil, ps...))), true
		}
		return pure()
	case "Array.prototype.includes", "Array.prototype.indexOf":
		ps := seqPieces(e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT))
		if len(ps) > 0 && len(ps) <= 32 && len(a) == 2 {
			ok := true
			for _, p := range ps {
				ok = ok && p.op == TApp && p.s == "unit" && (p.args[0].op == TInt || p.args[0].op == TStr)
			}
			if ok {
				var outs []Outcome
				rest := st
				for i, p := range ps {
					v := p.args[0]
					if isIntTerm(a[1]) != (v.op == TInt) {
						continue
					}
					eq := tEq(a[1], v)
					if rest.facts.refuted(eq) {
						continue
					}
					s := rest.clone()
					s.facts.assume(eq)
					r := mkInt(int64(i))
					if n == "Array.prototype.includes" {
						r = tTrue
					}
					outs = append(outs, Outcome{st: s, res: []*Term{r}})
					rest = rest.clone()
					rest.facts.assume(tNot(eq))
				}
				r := mkInt(-1)
				if n == "Array.prototype.includes" {
					r = tFalse
				}
				if !rest.facts.dead && rest.facts.satisfiable() {
					outs = append(outs, Outcome{st: rest, res: []*Term{r}})
				}
				return outs, true
			}
		}
		return pure()
	case "new.ArrayBuffer":
		return one(st, e.newSlice(st, "buf", byteT, e.zerosN(byteT, a[0]))), true
	case "new.Uint8Array":
		switch t := argT(0); {
		case t == tsBytesT:
			if len(a) > 1 {
				return tsView(e, st, a)
			}
			return one(st, a[0]), true
		case t == tsArrP:
			s := e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT)
			return one(st, e.newSlice(st, "buf", byteT, s)), true
		case len(a) == 0:
			return one(st, e.newSlice(st, "buf", byteT, e.zerosN(byteT, tZero))), true
		default:
			return one(st, e.newSlice(st, "buf", byteT, e.zerosN(byteT, a[0]))), true
		}
	case "new.DataView":
		return tsView(e, st, a)
	case "ArrayBuffer.slice", "Uint8Array.slice", "Uint8Array.subarray", "SharedArrayBuffer.slice", "ArrayBufferLike.slice":
		lo, k, ok := e.tsWindow(st, a[0], arg(1), arg(2))
		if !ok {
			return one(st, mkSym("slice", tsBytesT)), true
		}
		if n == "Uint8Array.subarray" {
			b, off, _ := sliceParts(a[0])
			return one(st, mkSlice(b, tAdd(off, lo), k)), true
		}
		s := e.sliceSeq(st, a[0], byteT)
		return one(st, e.newSlice(st, "slice", byteT, e.seqSub(st.facts, s, lo, tAdd(lo, k)))), true
	case "Uint8Array.set":
		off := arg(2)
		if off == tNil {
			off = tZero
		}
		b, o, ln := sliceParts(a[0])
		e.copyModel(st, mkSlice(b, tAdd(o, off), tSub(ln, off)), a[1], tsBytesT, tsBytesT, c.In)
		return one(st, tNil), true
	case "new.TextDecoder", "new.TextEncoder":
		return one(st, mkObj(n, tsObjP)), true
	case "TextDecoder.decode":
		if arg(1) == tNil {
			return one(st, mkStr("")), true
		}
		return one(st, mkApp("stringof", tStrT, a[1], e.sliceSeq(st, a[1], byteT))), true
	case "TextEncoder.encode":
		return one(st, e.newSlice(st, "encoded", byteT, strSeq(a[1]))), true
	case "Number", "BigInt", "Number.valueOf", "BigInt.valueOf":
		if t := argT(0); t == tsNumT || isIntTerm(a[0]) && a[0].op != TSym && a[0].op != TApp {
			return one(st, a[0]), true
		}
		return pure()
	case "BigInt.asUintN":
		if k, ok := constI(a[0]); ok && st.facts.implied(tLe(tZero, a[1])) && st.facts.implied(tLt(a[1], mkBig(new(big.Int).Lsh(big.NewInt(1), uint(k))))) {
			return one(st, a[1]), true
		}
		return pure()
	case "Math.min", "Math.max":
		r := a[0]
		for _, x := range a[1:] {
			r = e.minmax(st, n[5:], r, x, tsNumT)
		}
		return one(st, r), true
	case "Math.sign":
		var out []Outcome
		for k := int64(-1); k <= 1; k++ {
			s2 := st.clone()
			switch k {
			case -1:
				s2.facts.assume(tLt(a[0], tZero))
			case 0:
				s2.facts.assume(tEq(a[0], tZero))
			default:
				s2.facts.assume(tLt(tZero, a[0]))
			}
			if s2.facts.satisfiable() {
				out = append(out, Outcome{st: s2, res: []*Term{mkInt(k)}})
			}
		}
		return out, true
	case "Math.abs":
		if st.facts.implied(tLe(tZero, a[0])) {
			return one(st, a[0]), true
		}
		if st.facts.implied(tLe(a[0], tZero)) {
			return one(st, tMul(mkInt(-1), a[0])), true
		}
		return pure()
	case "Math.floor", "Math.trunc":
		x := a[0]
		if x.op == TApp && x.s == "fdiv" {
			if k, ok := constI(x.args[1]); ok && k > 0 && st.facts.implied(tLe(tZero, x.args[0])) {
				return one(st, tDiv(x.args[0], mkInt(k))), true
			}
			return pure()
		}
		if x.op == TInt || x.op == TLin {
			return one(st, x), true
		}
		return pure()
	case "fdiv":
		if k, ok := constI(a[1]); ok && k == 1 {
			return one(st, a[0]), true
		}
		return one(st, mkApp("fdiv", tsNumT, a[0], a[1])), true
	case "pow", "Math.pow":
		if k, ok := constI(a[0]); ok && k == 2 {
			return one(st, pow2(a[1])), true
		}
		return one(st, mkApp("pow", tsNumT, a[0], a[1])), true
	case "bit&", "big&":
		x, y := a[0], a[1]
		if _, ok := isConst(x); ok {
			x, y = y, x
		}
		if k, ok := isConst(y); ok {
			if _, p := pow2of(new(big.Int).Add(k, big.NewInt(1))); p && st.facts.implied(tLe(tZero, x)) && (n == "big&" || st.facts.implied(tLt(x, mkBig(new(big.Int).Lsh(big.NewInt(1), 31))))) {
				return one(st, tMod(x, mkBig(new(big.Int).Add(k, big.NewInt(1))))), true
			}
		}
		return one(st, mkApp(n, tsNumT, a[0], a[1])), true
	case "bit|", "big|":
		// of parts that share no bit
		for i := range 2 {
			x, y := a[i], a[1-i]
			if k, ok := isConst(y); ok && k.Sign() == 0 && (n == "big|" || st.facts.implied(tLe(tZero, x)) && st.facts.implied(tLt(x, mkInt(1<<31)))) {
				return one(st, x), true
			}
			l := toLin(x)
			if len(l.co) == 0 {
				continue
			}
			g := new(big.Int).Abs(l.k)
			for _, co := range l.co {
				g.GCD(nil, nil, g, new(big.Int).Abs(big.NewInt(co)))
			}
			k := mkBig(new(big.Int).Lsh(bigOf(1), g.TrailingZeroBits()))
			if st.facts.implied(tLe(tZero, x)) && st.facts.implied(tLe(tZero, y)) && st.facts.implied(tLt(y, k)) && (n == "big|" || st.facts.implied(tLt(tAdd(x, y), mkInt(1<<31)))) {
				return one(st, tAdd(x, y)), true
			}
		}
		return pure()
	case "bit>>", "bit>>>", "big>>":
		if k, ok := constI(a[1]); ok && k >= 0 && k < 31 && st.facts.implied(tLe(tZero, a[0])) {
			return one(st, tDiv(a[0], mkInt(1<<uint(k)))), true
		}
		return one(st, mkApp(n, tsNumT, a[0], a[1])), true
	case "big<<":
		return one(st, tMul2(a[0], pow2(a[1]))), true
	case "toByte":
		return one(st, e.wrap(st, a[0], byteT)), true
	case "truthy":
		x := a[0]
		switch {
		case x.op == TBool:
			return one(st, x), true
		case x.op == TNil:
			return one(st, tFalse), true
		case x.op == TStr:
			return one(st, mkBool(x.s != "")), true
		case x.op == TInt:
			return one(st, mkBool(x.k.Sign() != 0)), true
		case x.op == TObj || x.op == TClo || x.op == TFn || x.op == TSlice:
			return one(st, tTrue), true
		}
		t := mkApp("truthy", tBoolT, x)
		return one(st, t), true
	case "typeof":
		x := a[0]
		switch {
		case x.op == TStr:
			return one(st, mkStr("string")), true
		case x.op == TInt || x.op == TLin:
			return one(st, mkStr("number")), true
		case x.op == TClo || x.op == TFn:
			return one(st, mkStr("function")), true
		case x.op == TObj:
			return one(st, mkStr("object")), true
		}
		return pure()
	case "yield":
		st.emit(&Event{Kind: "yield", A: []*Term{a[0]}, Pos: c.Pos})
		return one(st, mkSym("resumed", tsAnyT)), true
	case "yieldall":
		ps := seqPieces(e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT))
		units := argT(0) == tsArrP
		for _, p := range ps {
			units = units && p.op == TApp && p.s == "unit"
		}
		if !units {
			st.emit(&Event{Kind: "yield", A: []*Term{mkApp("all", tsAnyT, a[0])}, Pos: c.Pos})
			return fresh()
		}
		for _, p := range ps {
			st.emit(&Event{Kind: "yield", A: []*Term{p.args[0]}, Pos: c.Pos})
		}
		return fresh()
	case "absent":
		st.mem[tsFld(a[0], a[1].s)] = tNil
		st.mem[tsFld(a[0], "$absent:"+a[1].s)] = tTrue
		return one(st, tNil), true
	case "copyprop":
		ad := tsFld(a[0], a[2].s)
		if a[3] == tNil && st.mem[tsFld(a[1], "$absent:"+a[2].s)] == tTrue {
			if _, ok := st.mem[ad]; !ok {
				st.mem[ad] = tNil
				st.mem[tsFld(a[0], "$absent:"+a[2].s)] = tTrue
			}
			return one(st, tNil), true
		}
		e.store(st, ad, a[3], argT(3), c.In)
		return one(st, tNil), true
	case "copyprops":
		var ads []*Term
		for ad := range st.mem {
			if ad.op == TFld && ad.args[0] == unbox(a[1]) {
				ads = append(ads, ad)
			}
		}
		sort.Slice(ads, func(i, j int) bool { return ads[i].id < ads[j].id })
		for _, ad := range ads {
			e.store(st, tsFld(unbox(a[0]), ad.s), st.mem[ad], tsAnyT, c.In)
		}
		return one(st, tNil), true
	case "Object.fromEntries":
		o := mkObj("object", tsObjP)
		_, _, n := sliceParts(e.tsItems(st, unbox(a[0])))
		if k, ok := constI(st.facts.norm(n)); ok {
			es := e.answers(st, a[0])
			for _, x := range es {
				kv := e.answers(st, x)
				if len(kv) != 2 || kv[0].op != TStr {
					return fresh()
				}
				e.store(st, tsFld(o, kv[0].s), kv[1], tsAnyT, c.In)
			}
			if int64(len(es)) == k {
				return one(st, o), true
			}
		}
		return fresh()
	case "setprop":
		st.emit(&Event{Kind: "setprop", A: a, Pos: c.Pos})
		if k := unbox(a[1]); k.op == TStr {
			e.store(st, tsFld(unbox(a[0]), k.s), a[2], argT(2), c.In)
		}
		return one(st, tNil), true
	case "setelem":
		l := e.tsItems(st, unbox(a[0]))
		b, off, ln := sliceParts(l)
		et := tsAnyT
		if t := argT(0); t != nil && t.Elem != nil {
			et = t.Elem
		}
		e.noteBase(b, et)
		if st.facts.implied(tEq(a[1], ln)) {
			grown := e.newSlice(st, "items", et, e.seqCat(st.facts, e.sliceSeq(st, l, et), mkApp("unit", nil, a[2])))
			e.store(st, fieldAddr(unbox(a[0]), tsArrT, "$items"), grown, tsListT, c.In)
			return one(st, tNil), true
		}
		e.boundsOK(st, "index", a[1], ln, c.In)
		st.facts.assume(tLe(tZero, a[1]))
		st.facts.assume(tLt(a[1], ln))
		ad := mkIdx(b, tAdd(off, a[1]))
		elemTypes[ad] = et
		e.store(st, ad, a[2], et, c.In)
		return one(st, tNil), true
	case "mapkeys":
		var keys []*Term
		var walk func(x *Term) bool
		walk = func(x *Term) bool {
			x = unbox(x)
			if x.op != TApp {
				return false
			}
			switch x.s {
			case "emptymap":
				return true
			case "mapupd", "mapdel":
				if !walk(x.args[0]) {
					return false
				}
				h := mapHas(st, x.args[0], x.args[1])
				has := h == tTrue || st.facts.implied(h)
				switch {
				case !has && h != tFalse && !st.facts.refuted(h):
					return false
				case x.s == "mapupd" && !has:
					keys = append(keys, x.args[1])
				case x.s == "mapdel" && has:
					for i, k := range keys {
						if st.facts.implied(tEq(k, x.args[1])) {
							keys = append(keys[:i:i], keys[i+1:]...)
							break
						}
					}
				}
				return true
			}
			return false
		}
		if walk(e.load(st, mapCell(a[0], tsMapT), nil)) {
			ps := []*Term{}
			for _, k := range keys {
				ps = append(ps, mkApp("unit", nil, k))
			}
			return one(st, e.tsArray(st, mkApp("cat", nil, ps...))), true
		}
		return fresh()
	case "new.Set":
		if len(a) == 1 && argT(0) == tsArrP {
			o := mkObj("set", tsMapT)
			cell := mapCell(o, tsMapT)
			cur := mkApp("emptymap", nil)
			known := true
			for _, p := range seqPieces(e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT)) {
				if known = known && p.op == TApp && p.s == "unit"; known {
					cur = mkApp("mapupd", nil, cur, p.args[0], p.args[0])
				}
			}
			if known {
				st.mem[cell] = cur
				return one(st, o), true
			}
		}
		return fresh()
	case "Map.clear", "Set.clear":
		e.storeRaw(st, mapCell(a[0], tsMapT), mkApp("emptymap", nil), nil, c.In)
		return one(st, tNil), true
	case "getprop":
		if o, k := unbox(a[0]), unbox(a[1]); o.op == TObj && k.op == TStr {
			return one(st, e.tsGet(st, o, k.s, rt())), true
		}
		return pure()
	case "String.at", "String.charAt", "String.startsWith", "String.endsWith", "String.includes", "String.toUpperCase", "String.toLowerCase":
		if v := foldString(n[7:], a); v != nil {
			return one(st, v), true
		}
		return pure()
	case "concat", "template", "String", "add", "regexp", "in", "instanceof", "RegExp.test", "JSON.parse", "JSON.stringify", "Object.entries", "parseInt", "parseFloat", "Number.isInteger", "Number.isSafeInteger", "Number.isNaN", "isNaN", "Array.isArray", "Math.log", "Math.ceil", "Math.sqrt", "Headers.get", "Headers.has", "bit<<", "bit^", "big^", "bit~":
		return pure()
	}
	if strings.HasPrefix(n, "DataView.get") || strings.HasPrefix(n, "DataView.set") {
		return tsDataView(e, st, c, n[9:])
	}
	for _, p := range []string{"String.", "strcmp", "enum.", "global.", "Array.prototype.join", "Number.to", "BigInt.to", "Date."} {
		if strings.HasPrefix(n, p) {
			return pure()
		}
	}
	return fresh()
}

// foldString works out what a method of a known string gives.
func foldString(n string, a []*Term) *Term {
	if len(a) == 0 || a[0].op != TStr {
		return nil
	}
	s := a[0].s
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return nil
		}
	}
	if n == "toUpperCase" {
		return mkStr(strings.ToUpper(s))
	}
	if n == "toLowerCase" {
		return mkStr(strings.ToLower(s))
	}
	if len(a) != 2 {
		return nil
	}
	if n == "at" || n == "charAt" {
		i, ok := constI(a[1])
		if !ok {
			return nil
		}
		if n == "at" && i < 0 {
			i += int64(len(s))
		}
		if i >= 0 && i < int64(len(s)) {
			return mkStr(s[i : i+1])
		}
		return nil
	}
	t := unbox(a[1])
	if t.op != TStr {
		return nil
	}
	switch n {
	case "startsWith":
		return mkBool(strings.HasPrefix(s, t.s))
	case "endsWith":
		return mkBool(strings.HasSuffix(s, t.s))
	case "includes":
		return mkBool(strings.Contains(s, t.s))
	}
	return nil
}

// pow2 is 2^x.
func pow2(x *Term) *Term {
	if k, ok := constI(x); ok && k >= 0 && k < 4096 {
		return mkBig(new(big.Int).Lsh(big.NewInt(1), uint(k)))
	}
	t := mkApp("pow2", tsNumT, x)
	t.lo = big.NewInt(0)
	return t
}

func tMul2(a, b *Term) *Term {
	if _, ok := isConst(a); ok {
		return tMul(a, b)
	}
	if _, ok := isConst(b); ok {
		return tMul(b, a)
	}
	return tMul(a, b)
}

func tsView(e *Engine, st *State, a []*Term) ([]Outcome, bool) {
	if len(a) == 1 || a[1] == tNil || a[1] == tZero && (len(a) < 3 || a[2] == tNil) {
		return one(st, a[0]), true
	}
	b, off, n := sliceParts(a[0])
	k := tSub(n, a[1])
	if len(a) > 2 && a[2] != tNil {
		k = a[2]
	}
	return one(st, mkSlice(b, tAdd(off, a[1]), k)), true
}

// viewOp splits a DataView method name: getBigUint64 -> get, 8, kind.
func viewOp(m string) (get bool, size int64, kind string, ok bool) {
	switch {
	case strings.HasPrefix(m, "get"):
		get = true
	case !strings.HasPrefix(m, "set"):
		return
	}
	kind = strings.TrimPrefix(m[3:], "Big")
	for _, k := range []string{"Uint", "Int", "Float"} {
		if strings.HasPrefix(kind, k) {
			bits, err := strconv.Atoi(kind[len(k):])
			if err == nil {
				return get, int64(bits / 8), k, true
			}
		}
	}
	return
}

func tsDataView(e *Engine, st *State, c *CallCtx, m string) ([]Outcome, bool) {
	get, size, kind, ok := viewOp(m)
	if !ok || len(c.Args) < 2 {
		return one(st, mkSym(m, c.In.Typ)), true
	}
	view, off := c.Args[0], c.Args[1]
	b, o, n := sliceParts(view)
	e.noteBase(b, byteT)
	// reading or writing outside the view throws
	e.boundsOK(st, "view", tAddK(off, size), n, c.In)
	st.facts.assume(tLe(tZero, off))
	st.facts.assume(tLe(tAddK(off, size), n))
	lep := 2
	if !get {
		lep = 3
	}
	le := false
	if lep < len(c.Args) && c.Args[lep] != tNil {
		if c.Args[lep].op != TBool {
			return one(st, mkSym(m, c.In.Typ)), true
		}
		le = c.Args[lep] == tTrue
	}
	end := "big"
	if le {
		end = "little"
	}
	sub := mkSlice(b, tAdd(o, off), tSub(n, off))
	ut := &Type{Kind: "int", Bits: int(size * 8), Signed: false}
	if get {
		var v *Term
		if size == 1 {
			v = e.selectElem(st, b, tAdd(o, off), byteT)
		} else {
			f := &CallCtx{In: &Instr{Op: OpCall, Typ: ut, Call: &CallInfo{}, Pos: c.Pos}, Name: fmt.Sprintf("(encoding/binary.%sEndian).Uint%d", end, size*8), Args: []*Term{tNil, sub}, Pos: c.Pos}
			os, ok := stdModel(e, st, f)
			if !ok || len(os) != 1 {
				return one(st, mkSym(m, c.In.Typ)), true
			}
			v = os[0].res[0]
		}
		switch kind {
		case "Int":
			// the two's complement reading of the same bits
			half := mkBig(new(big.Int).Lsh(big.NewInt(1), uint(size*8-1)))
			if st.facts.implied(tLt(v, half)) {
				return one(st, v), true
			}
			if st.facts.implied(tLe(half, v)) {
				return one(st, tSub(v, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(size*8))))), true
			}
			return one(st, e.signed(v, int(size*8))), true
		case "Float":
			return one(st, mkApp(fmt.Sprintf("math.Float%dfrombits", size*8), tsNumT, v)), true
		}
		return one(st, v), true
	}
	v := c.Args[2]
	if kind == "Float" {
		v = mkApp(fmt.Sprintf("math.Float%dbits", size*8), ut, v)
	}
	if size == 1 {
		e.updateElem(st, b, tAdd(o, off), e.wrap(st, v, byteT), byteT)
		return one(st, tNil), true
	}
	f := &CallCtx{In: &Instr{Op: OpCall, Call: &CallInfo{}, Pos: c.Pos}, Name: fmt.Sprintf("(encoding/binary.%sEndian).PutUint%d", end, size*8), Args: []*Term{tNil, sub, v}, Pos: c.Pos}
	if os, ok := stdModel(e, st, f); ok && len(os) == 1 {
		return one(os[0].st, tNil), true
	}
	return one(st, tNil), true
}

// signed is the two's complement reading of an unsigned value.
func (e *Engine) signed(v *Term, bits int) *Term {
	t := &Type{Kind: "int", Bits: bits, Signed: true}
	return mkApp("wrap:"+t.String(), t, v)
}
