package main

// Models of the standard-library functions the repository relies on.

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

var byteT = &Type{Kind: "int", Bits: 8, Signed: false, str: "uint8"}

func rng(t *Term, lo, hi int64) *Term {
	t.lo, t.hi = bigOf(lo), bigOf(hi)
	return t
}

func freshErr(hint string) *Term { return mkSym("nonnil:"+hint, tErrT) }

// forkErr splits into success (nil error) and failure.
func forkErr(st *State, hint string, ok func(*State) []*Term, fail func(*State, *Term) []*Term) []Outcome {
	s2 := st.clone()
	er := freshErr(hint)
	return []Outcome{{st: st, res: ok(st)}, {st: s2, res: fail(s2, er)}}
}

func stdModel(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
	n := c.Name
	if strings.HasPrefix(n, "ts:") {
		return tsModel(e, st, c)
	}
	if c.Fn != nil && len(c.Fn.Blocks) > 0 && c.Fn.Pkg != "" && !strings.HasPrefix(n, "slices.") && !strings.HasPrefix(n, "bytes.") {
		// repository code is analysed, not modelled
		if c.In.Call.Repo {
			return nil, false
		}
	}
	a := c.Args
	at := func(k int) *Type {
		ts := c.In.Call.ArgT
		if c.In.Call.Dynamic {
			k++
		}
		if k < len(ts) {
			return ts[k]
		}
		return nil
	}
	rt := resultTypes(c.In)
	r0 := func() *Type {
		if len(rt) > 0 {
			return rt[0]
		}
		return nil
	}
	elemT := func(k int) *Type {
		if t := at(k); t != nil {
			return t.Elem
		}
		return nil
	}
	seqA := func(k int) *Term { return e.sliceSeq(st, a[k], elemT(k)) }
	switch n {
	case "errors.New":
		return one(st, freshErr("errors.New")), true
	case "fmt.Errorf":
		var parts []*Term
		if len(a) > 1 {
			s := seqA(1)
			for _, p := range seqPieces(s) {
				if p.s == "unit" {
					parts = append(parts, p.args[0])
				}
			}
		}
		t := mkApp(fmt.Sprintf("nonnil:errorf#%d", symSeq), tErrT, append([]*Term{a[0]}, parts...)...)
		symSeq++
		return one(st, t), true
	case "errors.Is":
		if a[0] == a[1] {
			return one(st, tTrue), true
		}
		if st.facts.implied(tEq(a[0], tNil)) {
			return one(st, tFalse), true
		}
		eq := tEq(a[0], a[1])
		if st.facts.implied(eq) {
			return one(st, tTrue), true
		}
		t := mkApp("errors.Is", tBoolT, a[0], a[1])
		switch st.facts.truth(t) {
		case 1:
			return one(st, tTrue), true
		case -1:
			return one(st, tFalse), true
		}
		if a[0].op == TSym && strings.HasPrefix(a[0].s, "nonnil:errors.New") || a[0].op == TApp && a[0].s != "errors.Is" && strings.HasPrefix(a[0].s, "nonnil:errorf") && !wrapsAny(a[0]) {
			return one(st, tFalse), true
		}
		s2 := st.clone()
		st.facts.assume(t)
		st.facts.assume(tNot(tEq(a[0], tNil)))
		s2.facts.assume(tNot(t))
		s2.facts.assume(tNot(eq))
		return []Outcome{{st: st, res: []*Term{tTrue}}, {st: s2, res: []*Term{tFalse}}}, true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return nil, true
	case "log.Panic", "log.Panicf":
		return []Outcome{{st: st, panic: true, pos: c.Pos}}, true
	case "bytes.IndexByte", "strings.IndexByte", "strings.Index", "bytes.Index", "strings.LastIndex", "bytes.LastIndexByte":
		var s *Term
		if at(0) != nil && at(0).Kind == "string" {
			s = a[0]
		} else {
			s = seqA(0)
		}
		r := mkApp(n, tIntT, s, a[1])
		st.facts.assume(tLe(mkInt(-1), r))
		st.facts.assume(tLt(r, lenOf(a[0])))
		return one(st, r), true
	case "bytes.Compare":
		x, y := seqA(0), seqA(1)
		if x == y {
			return one(st, tZero), true
		}
		return one(st, rng(mkApp("bytes.Compare", tIntT, x, y), -1, 1)), true
	case "bytes.Equal":
		x, y := seqA(0), seqA(1)
		if x == y {
			return one(st, tTrue), true
		}
		return one(st, mkApp("bytes.Equal", tBoolT, x, y)), true
	case "strings.Compare":
		if a[0] == a[1] {
			return one(st, tZero), true
		}
		return one(st, rng(mkApp("strings.Compare", tIntT, a[0], a[1]), -1, 1)), true
	case "cmp.Compare":
		if a[0] == a[1] {
			return one(st, tZero), true
		}
		if at(0) != nil && at(0).Kind == "int" {
			var os []Outcome
			for k := -1; k <= 1; k++ {
				s := st
				if k < 1 {
					s = st.clone()
				}
				switch k {
				case -1:
					s.facts.assume(tLt(a[0], a[1]))
				case 0:
					s.facts.assume(tEq(a[0], a[1]))
				case 1:
					s.facts.assume(tLt(a[1], a[0]))
				}
				os = append(os, Outcome{st: s, res: []*Term{mkInt(int64(k))}})
			}
			return os, true
		}
		return one(st, rng(mkApp("cmp.Compare", tIntT, a[0], a[1]), -1, 1)), true
	case "math/bits.Len64", "math/bits.Len", "math/bits.Len32", "math/bits.Len8":
		if k, ok := isConst(a[0]); ok && k.IsUint64() {
			return one(st, mkInt(int64(bits.Len64(k.Uint64())))), true
		}
		hi := int64(64)
		if strings.HasSuffix(n, "32") {
			hi = 32
		}
		return one(st, rng(mkApp("bits.Len", tIntT, a[0]), 0, hi)), true
	case "encoding/binary.Size":
		if a[0].op == TIface {
			if k := fixedSize(a[0].typ); k >= 0 {
				return one(st, mkInt(k)), true
			}
		}
		return one(st, mkSym("binary.Size", tIntT)), true
	case "encoding/binary.Uvarint":
		s := seqA(0)
		v := mkApp("uvarint.v", tU64T, s)
		k := rng(mkApp("uvarint.n", tIntT, s), -11, 10)
		st.facts.assume(tLe(k, lenOf(a[0])))
		if s.op == TApp && s.s == "cat" {
			p := s.args[0]
			if p.op == TApp && p.s == "span" && p.args[0].op == TApp && p.args[0].s == "uvarintbytes" && p.args[1] == tZero {
				v = p.args[0].args[0]
				k = seqLen(p.args[0])
			}
		}
		return one(st, v, k), true
	case "encoding/binary.PutUvarint":
		v := a[1]
		k := varintLen(v)
		e.boundsOK(st, "put", k, lenOf(a[0]), c.In)
		st.facts.assume(tLe(k, lenOf(a[0])))
		body := seqVarApp(mkApp("uvarintbytes", nil, v), k)
		e.writeSeq(st, a[0], body, k, c.In)
		return one(st, k), true
	case "encoding/binary.AppendUvarint":
		v := a[1]
		k := varintLen(v)
		s := e.seqCat(st.facts, seqA(0), seqVarApp(mkApp("uvarintbytes", nil, v), k))
		if e.cl.OnAppend != nil {
			e.cl.OnAppend(e, st, lenOf(a[0]), seqVarApp(mkApp("uvarintbytes", nil, v), k), c.In)
		}
		return one(st, e.newSlice(st, "appenduvarint", byteT, s)), true
	case "math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits":
		inv := map[string]string{"math.Float64bits": "math.Float64frombits", "math.Float64frombits": "math.Float64bits", "math.Float32bits": "math.Float32frombits", "math.Float32frombits": "math.Float32bits"}
		if a[0].op == TApp && a[0].s == inv[n] {
			return one(st, a[0].args[0]), true
		}
		return one(st, mkApp(n, r0(), a[0])), true
	case "slices.BinarySearchFunc", "slices.BinarySearch":
		s := seqA(0)
		args := []*Term{s, a[1]}
		if len(a) > 2 {
			args = append(args, a[2])
		}
		idx := mkApp("bsearch", tIntT, args...)
		st.facts.assume(tLe(tZero, idx))
		st.facts.assume(tLe(idx, lenOf(a[0])))
		f := mkApp("bfound", tBoolT, args...)
		switch st.facts.truth(f) {
		case 1:
			return one(st, idx, tTrue), true
		case -1:
			return one(st, idx, tFalse), true
		}
		s2 := st.clone()
		st.facts.assume(f)
		st.facts.assume(tLt(idx, lenOf(a[0])))
		s2.facts.assume(tNot(f))
		return []Outcome{{st: st, res: []*Term{idx, tTrue}}, {st: s2, res: []*Term{idx, tFalse}}}, true
	case "slices.Insert":
		s, vs := seqA(0), seqA(2)
		e.boundsOK(st, "slicehi", a[1], lenOf(a[0]), c.In)
		f := st.facts
		f.assume(tLe(tZero, a[1]))
		f.assume(tLe(a[1], lenOf(a[0])))
		r := e.seqCat(f, e.seqSub(f, s, tZero, a[1]), vs, e.seqSub(f, s, a[1], seqLen(s)))
		return one(st, e.newSlice(st, "insert", elemT(0), r)), true
	case "slices.Delete":
		s := seqA(0)
		e.boundsOK(st, "slicehi", a[2], lenOf(a[0]), c.In)
		f := st.facts
		f.assume(tLe(tZero, a[1]))
		f.assume(tLe(a[1], a[2]))
		f.assume(tLe(a[2], lenOf(a[0])))
		r := e.seqCat(f, e.seqSub(f, s, tZero, a[1]), e.seqSub(f, s, a[2], seqLen(s)))
		return one(st, e.newSlice(st, "delete", elemT(0), r)), true
	case "slices.Clone", "bytes.Clone":
		return one(st, e.newSlice(st, "clone", elemT(0), seqA(0))), true
	case "maps.Clone":
		if mapKeys(e.load(st, mapCell(a[0], at(0)), nil)) != nil {
			o := mkObj("map", at(0))
			st.mem[mapCell(o, at(0))] = e.load(st, mapCell(a[0], at(0)), nil)
			return one(st, o), true
		}
	case "maps.Copy":
		if ks := mapKeys(e.load(st, mapCell(a[1], at(1)), nil)); ks != nil {
			src := e.load(st, mapCell(a[1], at(1)), nil)
			cell := mapCell(a[0], at(0))
			dst := e.load(st, cell, nil)
			for _, k := range ks {
				dst = mkApp("mapupd", nil, dst, k, mapGet(st, src, k, elemT(1)))
			}
			e.storeRaw(st, cell, dst, nil, c.In)
			return one(st), true
		}
	case "slices.Concat":
		return one(st, mkSym("concat", r0())), true
	case "strings.Join":
		s := seqA(0)
		return one(st, mkApp("strings.Join", r0(), s, a[1])), true
	}
	if strings.HasPrefix(n, "(encoding/binary.littleEndian).") || strings.HasPrefix(n, "(encoding/binary.bigEndian).") {
		ord := "le"
		if strings.Contains(n, "bigEndian") {
			ord = "be"
		}
		w := int64(0)
		switch {
		case strings.HasSuffix(n, "64"):
			w = 8
		case strings.HasSuffix(n, "32"):
			w = 4
		case strings.HasSuffix(n, "16"):
			w = 2
		}
		meth := n[strings.LastIndexByte(n, '.')+1:]
		// receiver is args[0]
		switch {
		case strings.HasPrefix(meth, "PutUint"):
			e.boundsOK(st, "put", mkInt(w), lenOf(a[1]), c.In)
			st.facts.assume(tLe(mkInt(w), lenOf(a[1])))
			body := seqVarApp(mkApp(fmt.Sprintf("%s%d", ord, w), nil, a[2]), mkInt(w))
			e.writeSeq(st, a[1], body, mkInt(w), c.In)
			return one(st), true
		case strings.HasPrefix(meth, "Uint"):
			e.boundsOK(st, "put", mkInt(w), lenOf(a[1]), c.In)
			st.facts.assume(tLe(mkInt(w), lenOf(a[1])))
			s := e.sliceSeq(st, a[1], byteT)
			x := e.seqSub(st.facts, s, tZero, mkInt(w))
			if x.op == TApp && x.s == fmt.Sprintf("%s%d", ord, w) {
				return one(st, x.args[0]), true
			}
			if isZeros(x) {
				return one(st, tZero), true
			}
			return one(st, mkApp(fmt.Sprintf("get%s%d", ord, w), r0(), x)), true
		case strings.HasPrefix(meth, "AppendUint"):
			if e.cl.OnAppend != nil {
				e.cl.OnAppend(e, st, lenOf(a[1]), seqVarApp(mkApp(fmt.Sprintf("%s%d", ord, w), nil, a[2]), mkInt(w)), c.In)
			}
			s := e.seqCat(st.facts, e.sliceSeq(st, a[1], byteT), seqVarApp(mkApp(fmt.Sprintf("%s%d", ord, w), nil, a[2]), mkInt(w)))
			return one(st, e.newSlice(st, "appendint", byteT, s)), true
		}
	}
	return nil, false
}

func wrapsAny(t *Term) bool {
	for _, x := range t.args[1:] {
		y := x
		if y.op == TIface {
			y = y.args[0]
		}
		if y.typ != nil && y.typ.Kind == "iface" || y.op == TSym && (strings.HasPrefix(y.s, "global:err") || strings.HasPrefix(y.s, "nonnil:")) || y.op == TApp && strings.HasPrefix(y.s, "nonnil:") {
			return true
		}
	}
	return false
}

func seqVarApp(t *Term, n *Term) *Term {
	seqLens[t] = n
	return t
}

// varintLen is the number of bytes binary.PutUvarint writes for v.
func varintLen(v *Term) *Term {
	if k, ok := isConst(v); ok && k.Sign() >= 0 {
		n := int64((k.BitLen() + 6) / 7)
		if n == 0 {
			n = 1
		}
		return mkInt(n)
	}
	t := mkApp("varintlen", tIntT, v)
	hi := int64(10)
	if v.hi != nil {
		hi = int64((v.hi.BitLen() + 6) / 7)
	} else if v.op == TSym || v.op == TApp {
		if v.typ != nil && v.typ.Kind == "int" && v.typ.Bits <= 32 {
			hi = 5
		}
	}
	return rng(t, 1, hi)
}

func fixedSize(t *Type) int64 {
	if t == nil {
		return -1
	}
	switch t.Kind {
	case "int", "float":
		if t.str == "int" || t.str == "uint" || t.str == "uintptr" {
			return -1
		}
		return int64(t.Bits / 8)
	case "bool":
		return 1
	case "ptr":
		return fixedSize(t.Elem)
	case "array":
		k := fixedSize(t.Elem)
		if k < 0 {
			return -1
		}
		return k * t.Len
	case "struct":
		s := int64(0)
		for _, f := range t.Fields {
			k := fixedSize(f.Typ)
			if k < 0 {
				return -1
			}
			s += k
		}
		return s
	}
	return -1
}

// writeSeq overwrites the first k elements of slice d.
func (e *Engine) writeSeq(st *State, d, body, k *Term, in *Instr) {
	if d == tNil {
		return
	}
	db, do, _ := sliceParts(d)
	e.noteBase(db, byteT)
	if e.cl.OnElem != nil {
		e.cl.OnElem(e, st, db, do, body, in)
	}
	old := e.seqOf(st, db, byteT)
	if addrRoot(db).op != TObj {
		e.aliasElems(st, db, byteT)
	}
	f := st.facts
	st.seq[db] = e.seqCat(f, e.seqSub(f, old, tZero, do), body, e.seqSub(f, old, tAdd(do, k), seqLen(old)))
}

// initGlobals evaluates package initialisers of constants held in variables.
func (g *GoProg) initGlobals() {
	stored := map[string]int{}
	for _, f := range g.all {
		if f.Short == "init" {
			continue
		}
		countGlobalStores(f, stored)
	}
	cl := &Client{Inline: func(*Func) bool { return false }}
	for _, sp := range g.ssaPkgs {
		initFn := sp.Func("init")
		if initFn == nil {
			continue
		}
		lf := g.lower(initFn)
		if len(lf.Blocks) == 0 {
			continue
		}
		e := newEngine(g, cl)
		func() {
			defer func() { recover() }()
			st := newState()
			for _, o := range e.Run(lf, nil, nil, st) {
				for c, v := range o.st.mem {
					if c.op == TObj && strings.HasPrefix(c.s, "global:") && stored[c.s] == 0 {
						if v.op == TInt || v.op == TStr {
							if old, dup := g.globals[c.s]; dup && old != v {
								delete(g.globals, c.s)
								stored[c.s] = 1
								continue
							}
							g.globals[c.s] = v
						}
					}
				}
			}
		}()
	}
}

func countGlobalStores(f *Func, out map[string]int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for k, a := range in.A {
				if a.C != nil && a.C.op == TObj && strings.HasPrefix(a.C.s, "global:") {
					if in.Op == OpLoad || in.Op == OpFieldAddr || in.Op == OpIndexAddr {
						continue
					}
					if in.Op == OpStore && k == 0 || in.Op != OpStore {
						out[a.C.s]++
					}
				}
			}
		}
	}
}

var _ = big.NewInt
