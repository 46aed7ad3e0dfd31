package main

// Transfer functions of the dataflow engine and the call policy.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type wItem struct {
	st *State
	i  int
}

// liveIn computes the registers live at the entry of each block (after phis).
func (f *Func) liveIn() []map[int]bool {
	if f.live != nil {
		return f.live
	}
	n := len(f.Blocks)
	live := make([]map[int]bool, n)
	for i := range live {
		live[i] = map[int]bool{}
	}
	phiUse := map[int]map[int]bool{} // pred -> regs used by phis
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Op != OpPhi {
				break
			}
			for k, p := range in.Edge {
				if in.A[k].C == nil {
					if phiUse[p] == nil {
						phiUse[p] = map[int]bool{}
					}
					phiUse[p][in.A[k].Reg] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := f.Blocks[bi]
			cur := map[int]bool{}
			for _, s := range b.Succs {
				for r := range live[s] {
					cur[r] = true
				}
				// values defined by phis of s are produced on the edge
				for _, in := range f.Blocks[s].Instrs {
					if in.Op != OpPhi {
						break
					}
					delete(cur, in.Dst)
				}
			}
			for r := range phiUse[bi] {
				cur[r] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if in.Op == OpPhi {
					// phi results are live after the phis when used
					continue
				}
				if in.Dst != 0 {
					delete(cur, in.Dst)
				}
				for _, a := range in.A {
					if a.C == nil && a.Reg != 0 {
						cur[a.Reg] = true
					}
				}
			}
			if len(cur) != len(live[bi]) {
				live[bi] = cur
				changed = true
			}
		}
	}
	f.live = live
	return live
}

func envKey(st *State, live map[int]bool) string {
	var rs []int
	for r := range live {
		rs = append(rs, r)
	}
	sort.Ints(rs)
	var b strings.Builder
	for _, r := range rs {
		if v, ok := st.env[r]; ok {
			fmt.Fprintf(&b, "%d=%d,", r, v.id)
		}
	}
	return b.String()
}

func (e *Engine) mergeStates(fr *frame, blk int, sts []*State) []*State {
	live := fr.fn.liveIn()[blk]
	by := map[string]int{}
	var out []*State
	for _, s := range sts {
		if s.facts.dead {
			continue
		}
		k := envKey(s, live) + "|" + stateKey(s)
		if e.cl.MergeKey != nil {
			k += e.cl.MergeKey(s)
		}
		if i, ok := by[k]; ok {
			out[i].facts = joinFacts(out[i].facts, s.facts)
			continue
		}
		by[k] = len(out)
		out = append(out, s)
	}
	return out
}

func (e *Engine) boundsOK(st *State, kind string, idx, n *Term, in *Instr) {
	if e.cl.OnBounds != nil {
		e.cl.OnBounds(e, st, kind, idx, n, in)
	}
}

func (e *Engine) execBlock(fr *frame, b int, st0 *State) (outs []Outcome, edges []edgeState) {
	blk := fr.fn.Blocks[b]
	work := []wItem{{st0, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st
	instrs:
		for i := it.i; i < len(blk.Instrs); i++ {
			in := blk.Instrs[i]
			e.steps++
			if st.facts.dead {
				break
			}
			set := func(v *Term) {
				if in.Dst != 0 {
					st.env[in.Dst] = v
				}
			}
			arg := func(k int) *Term { return e.val(st, in.A[k]) }
			switch in.Op {
			case OpPhi:
				continue
			case OpAlloc:
				o := mkObj("new."+in.Str, in.Typ)
				e.zero(st, o, in.Typ.Elem)
				set(o)
			case OpLoad:
				if e.cl.OnLoad != nil {
					e.cl.OnLoad(e, st, arg(0), in)
				}
				set(e.load(st, arg(0), in.Typ))
			case OpStore:
				e.store(st, arg(0), arg(1), in.OpT, in)
			case OpFieldAddr:
				set(fieldAddr(arg(0), in.OpT, in.Str))
			case OpField:
				set(mkField(arg(0), in.Str, in.Typ))
			case OpIndexAddr:
				x, idx := arg(0), arg(1)
				var base, at, n *Term
				if in.OpT.Kind == "slice" {
					bs, off, ln := sliceParts(x)
					base, at, n = bs, tAdd(off, idx), ln
				} else {
					base, at = x, idx
					n = mkInt(in.OpT.Elem.Len)
				}
				et := elemOfIndexed(in.OpT)
				e.noteBase(base, et)
				if strings.HasPrefix(fr.fn.Name, "ts/") || strings.HasPrefix(fr.fn.Name, "(ts/") {
					// beyond its ends, a list holds undefined
					if st.facts.refuted(tLt(idx, n)) || st.facts.refuted(tLe(tZero, idx)) {
						a := mkObj("beyond", in.Typ)
						st.mem[a] = tNil
						set(a)
						break
					}
				}
				e.boundsOK(st, "index", idx, n, in)
				st.facts.assume(tLe(tZero, idx))
				st.facts.assume(tLt(idx, n))
				a := mkIdx(base, at)
				elemTypes[a] = et
				set(a)
			case OpIndex:
				x, idx := arg(0), arg(1)
				n := lenOf(x)
				if in.OpT.Kind == "array" {
					n = mkInt(in.OpT.Len)
				}
				e.boundsOK(st, "index", idx, n, in)
				st.facts.assume(tLe(tZero, idx))
				st.facts.assume(tLt(idx, n))
				switch {
				case x.op == TApp && x.s == "arrval":
					set(e.seqAt(st.facts, x.args[1], idx, in.Typ))
				case x.op == TApp && x.s == "zeroarr":
					set(zeroTerm(in.Typ))
				case in.OpT.Kind == "string":
					if k, ok := constI(idx); ok && e.cl.Text && isTextVal(x) {
						if r, w := textAt(x, k); w == 1 {
							set(r)
							break
						}
					}
					set(e.seqAt(st.facts, strSeq(x), idx, in.Typ))
				default:
					set(mkApp("at", in.Typ, x, idx))
				}
			case OpBin:
				a, c := arg(0), arg(1)
				if (in.Str == "/" || in.Str == "%") && in.OpT != nil && in.OpT.Kind == "int" {
					e.boundsOK(st, "div", c, nil, in)
				}
				set(e.binop(st, in.Str, a, c, in.OpT, in.Typ))
			case OpUn:
				set(e.unop(st, in.Str, arg(0), in.Typ))
			case OpConv:
				set(e.conv(st, arg(0), in.OpT, in.Typ))
			case OpChangeType:
				set(arg(0))
			case OpExtract:
				t := arg(0)
				k, _ := strconv.Atoi(in.Str)
				if t.op == TTuple && k < len(t.args) {
					set(t.args[k])
				} else {
					set(mkApp("extract"+in.Str, in.Typ, t))
				}
			case OpSlice:
				set(e.doSlice(st, in, arg))
			case OpMakeSlice:
				n := arg(0)
				e.boundsOK(st, "make", n, nil, in)
				st.facts.assume(tLe(tZero, n))
				o := mkObj("make", nil)
				e.noteBase(o, in.Typ.Elem)
				st.seq[o] = e.zerosN(in.Typ.Elem, n)
				set(intern(&Term{op: TSlice, args: []*Term{o, tZero, n}}))
			case OpMakeMap:
				o := mkObj("map", in.Typ)
				c := mapCell(o, in.Typ)
				st.mem[c] = mkApp("emptymap", nil)
				set(o)
			case OpMapUpdate:
				m, k, v := arg(0), arg(1), arg(2)
				if e.cl.OnMapUpdate != nil {
					e.cl.OnMapUpdate(e, st, m, k, v, in)
				}
				c := mapCell(m, in.OpT)
				cur := e.load(st, c, nil)
				e.storeRaw(st, c, mkApp("mapupd", nil, cur, k, v), nil, in)
			case OpLookup:
				m, k := arg(0), arg(1)
				vt := in.Typ
				if in.Comma && in.Typ.Kind == "tuple" && len(in.Typ.Fields) > 0 {
					vt = in.Typ.Fields[0].Typ
				}
				if in.OpT.Kind == "string" {
					e.boundsOK(st, "index", k, lenOf(m), in)
					st.facts.assume(tLe(tZero, k))
					st.facts.assume(tLt(k, lenOf(m)))
					if n, ok := constI(k); ok && e.cl.Text && isTextVal(m) {
						if r, w := textAt(m, n); w == 1 {
							set(r)
							break
						}
					}
					set(e.seqAt(st.facts, strSeq(m), k, vt))
					break
				}
				cur := e.load(st, mapCell(m, in.OpT), nil)
				v := mapGet(st, cur, k, vt)
				if in.Comma {
					set(mkTuple(v, mapHas(st, cur, k)))
				} else {
					set(v)
				}
			case OpMakeIface:
				v := arg(0)
				if in.OpT.Kind == "iface" {
					set(v)
				} else {
					set(mkIface(in.OpT, v))
				}
			case OpTypeAssert:
				x := arg(0)
				var is, as *Term
				if in.OpT.Kind == "iface" {
					is = mkApp("is:iface:"+in.OpT.String(), tBoolT, x)
					if x == tNil {
						is = tFalse
					} else if x.op == TIface && in.OpT.emptyIface {
						is = tTrue
					}
					as = x
				} else {
					switch {
					case x.op == TIface:
						is = mkBool(x.typ.String() == in.OpT.String())
						as = x.args[0]
					case x == tNil:
						is, as = tFalse, zeroTerm(in.OpT)
					default:
						is = mkApp("is:"+in.OpT.String(), tBoolT, x)
						as = mkApp("as:"+in.OpT.String(), in.OpT, x)
					}
				}
				if in.Comma {
					set(mkTuple(as, is))
				} else {
					e.boundsOK(st, "assert", is, nil, in)
					st.facts.assume(is)
					set(as)
				}
			case OpClosure:
				var bs []*Term
				for k := range in.A {
					bs = append(bs, arg(k))
				}
				t := intern(&Term{op: TClo, fn: in.Call.Fn, args: bs})
				set(t)
			case OpRange:
				it := mkSym("it", nil)
				set(mkApp("iter", nil, arg(0), it))
				if e.cl.Text && isTextVal(arg(0)) {
					st.mem[mkFld(it, "#at")] = tZero
				}
				if e.cl.Ordered && in.OpT != nil && in.OpT.Kind == "map" {
					if cur := e.load(st, mapCell(arg(0), in.OpT), nil); mapKeys(cur) != nil {
						st.mem[mkFld(it, "#of")], st.mem[mkFld(it, "#at")] = cur, tZero
					}
				}
			case OpNext:
				x := arg(0)
				var coll *Term
				if x.op == TApp && x.s == "iter" {
					coll = x.args[0]
				} else {
					coll = x
				}
				var kt, vt *Type
				if in.Typ != nil && len(in.Typ.Fields) == 3 {
					kt, vt = in.Typ.Fields[1].Typ, in.Typ.Fields[2].Typ
				}
				if e.cl.OnRangeNext != nil {
					e.cl.OnRangeNext(e, st, coll, in)
				}
				if x != coll && !in.Comma && st.mem[mkFld(x.args[1], "#at")] != nil && isTextVal(coll) {
					cell := mkFld(x.args[1], "#at")
					n, _ := constI(st.mem[cell])
					rs, _ := textOf(coll)
					st.mem[cell] = mkInt(n + 1)
					if n < int64(len(rs)) {
						ch := mkText(rs[n : n+1])
						set(mkTuple(tTrue, ch, ch))
					} else {
						set(mkTuple(tFalse, tNil, tNil))
					}
					break
				}
				if x != coll && in.Comma && st.mem[mkFld(x.args[1], "#at")] != nil {
					cell := mkFld(x.args[1], "#at")
					n, _ := constI(st.mem[cell])
					if r, w := textAt(coll, n); r != nil {
						st.mem[cell] = mkInt(n + w)
						set(mkTuple(tTrue, mkInt(n), r))
					} else {
						set(mkTuple(tFalse, zeroTerm(kt), zeroTerm(vt)))
					}
					break
				}
				if x != coll && st.mem[mkFld(x.args[1], "#of")] != nil {
					n, _ := constI(st.mem[mkFld(x.args[1], "#at")])
					ks := mapKeys(st.mem[mkFld(x.args[1], "#of")])
					cur := e.load(st, mapCell(coll, nil), nil)
					for n < int64(len(ks)) && mapHas(st, cur, ks[n]) != tTrue {
						n++
					}
					st.mem[mkFld(x.args[1], "#at")] = mkInt(n + 1)
					if n < int64(len(ks)) {
						set(mkTuple(tTrue, ks[n], mapGet(st, cur, ks[n], vt)))
					} else {
						set(mkTuple(tFalse, zeroTerm(kt), zeroTerm(vt)))
					}
					break
				}
				s2 := st.clone()
				s2.env[in.Dst] = mkTuple(tFalse, zeroTerm(kt), zeroTerm(vt))
				work = append(work, wItem{s2, i + 1})
				k := mkSym("key", kt)
				var v *Term
				if in.Comma {
					st.facts.assume(tLe(tZero, k))
					st.facts.assume(tLt(k, lenOf(coll)))
					v = mkApp("rune", vt, coll, k)
					if vt != nil {
						v.lo, v.hi = bigOf(0), bigOf(0x10ffff)
					}
				} else {
					v = mkApp("mapelem", vt, coll, k)
				}
				set(mkTuple(tTrue, k, v))
			case OpGo:
				if e.cl.OnGo != nil {
					e.cl.OnGo(e, st, in)
				}
				for k := range in.A {
					e.escape(st, arg(k))
				}
			case OpDefer:
				var as []*Term
				for k := range in.A {
					as = append(as, arg(k))
				}
				st.defers = append(st.defers, deferred{in, as})
			case OpRunDefers:
				sts := []*State{st}
				for {
					var next []*State
					done := true
					for _, s := range sts {
						if len(s.defers) == 0 {
							next = append(next, s)
							continue
						}
						done = false
						d := s.defers[len(s.defers)-1]
						s.defers = s.defers[:len(s.defers)-1]
						for _, o := range e.call(fr, s, d.in, d.args) {
							if o.panic {
								outs = append(outs, o)
							} else {
								next = append(next, o.st)
							}
						}
					}
					sts = next
					if done {
						break
					}
				}
				for _, s := range sts {
					work = append(work, wItem{s, i + 1})
				}
				break instrs
			case OpCall:
				var as []*Term
				for k := range in.A {
					as = append(as, arg(k))
				}
				os := e.call(fr, st, in, as)
				for k := len(os) - 1; k >= 0; k-- {
					o := os[k]
					if o.panic {
						if in.Catch > 0 {
							edges = append(edges, edgeState{b, in.Catch - 1, o.st})
							continue
						}
						outs = append(outs, o)
						continue
					}
					if o.st.facts.dead {
						continue
					}
					if in.Dst != 0 {
						if in.Typ != nil && in.Typ.Kind == "tuple" {
							o.st.env[in.Dst] = mkTuple(o.res...)
						} else if len(o.res) == 1 {
							o.st.env[in.Dst] = o.res[0]
						} else {
							o.st.env[in.Dst] = mkSym("res", in.Typ)
						}
					}
					work = append(work, wItem{o.st, i + 1})
				}
				break instrs
			case OpIf:
				c := arg(0)
				switch st.facts.truth(c) {
				case 1:
					edges = append(edges, edgeState{b, blk.Succs[0], st})
				case -1:
					edges = append(edges, edgeState{b, blk.Succs[1], st})
				default:
					s2 := st.clone()
					st.facts.assume(c)
					s2.facts.assume(tNot(c))
					if e.cl.OnBranch != nil {
						e.cl.OnBranch(e, st, c, true, in)
						e.cl.OnBranch(e, s2, c, false, in)
					}
					if !st.dead {
						edges = append(edges, edgeState{b, blk.Succs[0], st})
					}
					if !s2.dead {
						edges = append(edges, edgeState{b, blk.Succs[1], s2})
					}
				}
				break instrs
			case OpJump:
				edges = append(edges, edgeState{b, blk.Succs[0], st})
				break instrs
			case OpReturn:
				var rs []*Term
				for k := range in.A {
					rs = append(rs, arg(k))
				}
				if e.cl.OnReturn != nil {
					e.cl.OnReturn(e, st, fr.fn, rs, in)
				}
				outs = append(outs, Outcome{st: st, res: rs, pos: in.Pos})
				break instrs
			case OpPanic:
				if e.cl.OnPanic != nil {
					e.cl.OnPanic(e, st, in)
				}
				outs = append(outs, Outcome{st: st, panic: true, pos: in.Pos})
				break instrs
			default:
				set(mkSym("other", in.Typ))
			}
		}
	}
	return
}

var tBoolT = &Type{Kind: "bool", str: "bool"}
var tIntT = &Type{Kind: "int", Bits: 64, Signed: true, str: "int"}
var tU32T = &Type{Kind: "int", Bits: 32, Signed: false, str: "uint32"}
var i64T = &Type{Kind: "int", Bits: 64, Signed: true, str: "int64"}
var tU64T = &Type{Kind: "int", Bits: 64, Signed: false, str: "uint64"}
var tErrT = &Type{Kind: "iface", str: "error"}
var tStrT = &Type{Kind: "string", str: "string"}

func strSeq(x *Term) *Term {
	return seqVar("str:"+x.String()+fmt.Sprint(x.id), lenOf(x))
}

func (e *Engine) zerosN(et *Type, n *Term) *Term {
	return seqVar("zeros:"+et.String()+":"+fmt.Sprint(n.id), n)
}

func (e *Engine) zero(st *State, o *Term, t *Type) {
	if t == nil {
		return
	}
	switch t.Kind {
	case "struct":
		for _, f := range t.Fields {
			e.zero(st, fieldAddr(o, t, f.Name), f.Typ)
		}
	case "array":
		st.seq[o] = e.zeroSeq(t)
		e.noteBase(o, t.Elem)
	default:
		st.mem[o] = zeroTerm(t)
	}
}

// mapKeys are the keys of a map all of whose keys are constants, the order in
// which they were first stored; nil if it is not known.
func mapKeys(c *Term) []*Term {
	var all []*Term
	x := c
	for ; x != nil && x.op == TApp && (x.s == "mapupd" || x.s == "mapdel"); x = x.args[0] {
		if _, ok := constI(x.args[1]); !ok {
			return nil
		}
		all = append(all, x)
	}
	if x == nil || x.op != TApp || x.s != "emptymap" {
		return nil
	}
	in := map[*Term]bool{}
	for i := len(all) - 1; i >= 0; i-- {
		in[all[i].args[1]] = all[i].s == "mapupd"
	}
	r := []*Term{}
	for i := len(all) - 1; i >= 0; i-- {
		if k := all[i].args[1]; in[k] {
			r = append(r, k)
			in[k] = false
		}
	}
	return r
}

// mapLen is the number of keys of a map.
func mapLen(st *State, m *Term) *Term {
	if x := unbox(m); x.op == TApp {
		switch x.s {
		case "emptymap":
			return tZero
		case "mapupd":
			n := mapLen(st, x.args[0])
			if _, ok := constI(n); ok {
				h := mapHas(st, x.args[0], x.args[1])
				switch {
				case h == tTrue || st.facts.implied(h):
					return n
				case h == tFalse || st.facts.refuted(h):
					return tAddK(n, 1)
				}
			}
		}
	}
	return mkApp("len", nil, m)
}

func mapCell(m *Term, t *Type) *Term {
	c := mkFld(m, "#map")
	if _, ok := fldKeyOf[c]; !ok {
		k := "?"
		if t != nil {
			k = t.String()
		}
		fldKeyOf[c] = "map:" + k
	}
	return c
}

func mapGet(st *State, c, k *Term, vt *Type) *Term {
	x := c
	for x.op == TApp && (x.s == "mapupd" || x.s == "mapdel") {
		q := tEq(x.args[1], k)
		if st.facts.implied(q) {
			if x.s == "mapdel" {
				return zeroTerm(vt)
			}
			return x.args[2]
		}
		if !st.facts.refuted(q) {
			return mkApp("mapget", vt, c, k)
		}
		x = x.args[0]
	}
	if x.op == TApp && x.s == "emptymap" {
		return zeroTerm(vt)
	}
	return mkApp("mapget", vt, x, k)
}

func mapHas(st *State, c, k *Term) *Term {
	x := c
	for x.op == TApp && (x.s == "mapupd" || x.s == "mapdel") {
		q := tEq(x.args[1], k)
		if st.facts.implied(q) {
			return mkBool(x.s == "mapupd")
		}
		if !st.facts.refuted(q) {
			return mkApp("maphas", tBoolT, c, k)
		}
		x = x.args[0]
	}
	if x.op == TApp && x.s == "emptymap" {
		return tFalse
	}
	return mkApp("maphas", tBoolT, x, k)
}

func (e *Engine) unop(st *State, op string, a *Term, t *Type) *Term {
	switch op {
	case "!":
		return tNot(a)
	case "-":
		if t != nil && t.Kind == "int" {
			return e.wrap(st, tMul(mkInt(-1), a), t)
		}
	case "^":
		if k, ok := isConst(a); ok && t != nil && t.Kind == "int" {
			return e.wrap(st, mkBig(new(big.Int).Not(k)), t)
		}
	}
	return mkApp("un:"+op, t, a)
}

func (e *Engine) doSlice(st *State, in *Instr, arg func(int) *Term) *Term {
	x := arg(0)
	has := func(k int) bool { return k < len(in.A) && (in.A[k].C != nil || in.A[k].Reg != 0) }
	lo := tZero
	if has(1) {
		lo = arg(1)
	}
	if in.OpT.Kind == "string" {
		n := lenOf(x)
		hi := n
		if has(2) {
			hi = arg(2)
		}
		e.sliceBounds(st, lo, hi, n, in)
		st.facts.assume(tLe(hi, n))
		if lo == tZero && hi == n {
			return x
		}
		if e.cl.Text {
			if p := textSlice(x, lo, hi); p != nil {
				return p
			}
		}
		if x.op == TApp && x.s == "substr" {
			return mkApp("substr", in.Typ, x.args[0], tAdd(x.args[1], lo), tAdd(x.args[1], hi))
		}
		return mkApp("substr", in.Typ, x, lo, hi)
	}
	var base, off, n *Term
	arr := in.OpT.Kind == "ptr"
	if arr {
		base, off, n = x, tZero, mkInt(in.OpT.Elem.Len)
		e.noteBase(base, in.OpT.Elem.Elem)
	} else {
		base, off, n = sliceParts(x)
		e.noteBase(base, in.OpT.Elem)
	}
	hi := n
	if has(2) {
		hi = arg(2)
	}
	e.sliceBounds(st, lo, hi, n, in)
	if arr || !has(2) {
		st.facts.assume(tLe(hi, n))
	}
	if x == tNil {
		return tNil
	}
	return mkSlice(base, tAdd(off, lo), tSub(hi, lo))
}

func (e *Engine) sliceBounds(st *State, lo, hi, n *Term, in *Instr) {
	e.boundsOK(st, "slicelo", lo, hi, in)
	e.boundsOK(st, "slicehi", hi, n, in)
	st.facts.assume(tLe(tZero, lo))
	st.facts.assume(tLe(lo, hi))
}

// ---- calls -------------------------------------------------------------

func resultTypes(in *Instr) []*Type {
	if in.Typ == nil {
		return nil
	}
	if in.Typ.Kind == "tuple" {
		var r []*Type
		for _, f := range in.Typ.Fields {
			r = append(r, f.Typ)
		}
		return r
	}
	return []*Type{in.Typ}
}

func one(st *State, rs ...*Term) []Outcome { return []Outcome{{st: st, res: rs}} }

func (e *Engine) freshResults(name string, in *Instr) []*Term {
	var rs []*Term
	for k, t := range resultTypes(in) {
		h := shortName(name)
		if k > 0 {
			h += "." + strconv.Itoa(k)
		}
		rs = append(rs, mkSym(h, t))
	}
	return rs
}

func (e *Engine) call(fr *frame, st *State, in *Instr, args []*Term) []Outcome {
	ci := in.Call
	c := &CallCtx{In: in, Name: ci.Name, Short: ci.Short, Args: args, Fn: ci.Fn, Pos: in.Pos, Depth: len(e.stack), Caller: fr.fn}
	if ci.Builtin {
		if e.cl.Call != nil {
			if o, ok := e.cl.Call(e, st, c); ok {
				return o
			}
		}
		return e.builtin(st, in, args)
	}
	var bindings []*Term
	if ci.Dynamic {
		callee := args[0]
		c.Callee = callee
		c.Args = args[1:]
		switch callee.op {
		case TClo:
			c.Fn, bindings = callee.fn, callee.args
			c.Name, c.Short = callee.fn.Name, callee.fn.Short
		case TFn:
			c.Fn = callee.fn
			c.Name, c.Short = callee.fn.Name, callee.fn.Short
		}
	} else if ci.Invoke && args[0].op == TIface {
		// devirtualise
		if f, recv := e.devirt(args[0], ci.Short); f != nil {
			c.Fn = f
			c.Name = f.Name
			c.Args = append([]*Term{recv}, args[1:]...)
		}
	}
	if e.cl.Call != nil {
		if o, ok := e.cl.Call(e, st, c); ok {
			return o
		}
	}
	if e.g != nil && ci.Invoke && len(in.Call.ArgT) == 1 && c.Fn == nil {
		if v := e.g.constInvoke(ci.IfaceT, ci.Short); v != nil {
			return one(st, v)
		}
	}
	if e.cl.Text {
		if o, ok := e.textModel(st, c); ok {
			return o
		}
	}
	if o, ok := stdModel(e, st, c); ok {
		return o
	}
	if c.Fn != nil && len(c.Fn.Blocks) > 0 && len(e.stack) < e.cl.MaxDepth && !e.onStack(c.Fn) {
		if e.cl.Inline == nil || e.cl.Inline(c.Fn) || strings.Contains(c.Fn.Name, "$") {
			if c.Fn.Gen {
				return e.generate(c.Fn, c.Args, bindings, st)
			}
			return e.Run(c.Fn, c.Args, bindings, st)
		}
	}
	return e.opaque(st, c, in)
}

// generate runs a generator; its result is the list of what it yields.
func (e *Engine) generate(f *Func, args, bindings []*Term, st *State) []Outcome {
	base := len(st.trace)
	outs := e.Run(f, args, bindings, st)
	for i, o := range outs {
		if o.panic {
			continue
		}
		if len(o.st.trace) < base {
			outs[i].res = []*Term{mkSym("generated", tsArrP)}
			continue
		}
		var keep []*Event
		var ps []*Term
		known := true
		for _, ev := range o.st.trace[base:] {
			switch ev.Kind {
			case "loop-begin":
				known = false
			case "yield":
				ps = append(ps, mkApp("unit", nil, ev.A[0]))
				continue
			}
			keep = append(keep, ev)
		}
		o.st.trace = append(append([]*Event{}, o.st.trace[:base]...), keep...)
		if known {
			outs[i].res = []*Term{e.tsArray(o.st, mkApp("cat", nil, ps...))}
		} else {
			outs[i].res = []*Term{mkSym("generated", tsArrP)}
		}
	}
	return outs
}

func (e *Engine) devirt(recv *Term, name string) (*Func, *Term) {
	if e.g == nil || recv.typ == nil {
		return nil, nil
	}
	tn := recv.typ.String()
	for _, f := range e.g.impls[name] {
		if "*"+f.Recv == tn || f.Recv == tn {
			ptr := len(f.ParamT) > 0 && f.ParamT[0].Kind == "ptr"
			if ptr == (recv.typ.Kind == "ptr") {
				return f, recv.args[0]
			}
		}
	}
	return nil, nil
}

func (e *Engine) onStack(f *Func) bool {
	n := 0
	for _, x := range e.stack {
		if x == f {
			n++
		}
	}
	return n > e.cl.Recurse
}

// opaque models a call whose body is not followed.
func (e *Engine) opaque(st *State, c *CallCtx, in *Instr) []Outcome {
	if !isPureName(c.Name) {
		keys := map[string]bool{}
		if c.Fn != nil && len(c.Fn.Blocks) > 0 {
			for k := range e.modSet(c.Fn, nil) {
				keys[k] = true
			}
		} else {
			if in.Call.Invoke && e.g != nil {
				for _, im := range e.g.impls[in.Call.Short] {
					if len(im.Params) == len(in.A) {
						for k := range e.modSet(im, nil) {
							keys[k] = true
						}
					}
				}
			}
			for k, t := range in.Call.ArgT {
				if t == nil || k >= len(in.A) {
					continue
				}
				if t.Kind == "slice" && t.Elem != nil {
					keys["elem:"+t.Elem.String()] = true
				}
				if t.Kind == "ptr" && t.Elem != nil {
					keys["ptr:"+t.Elem.String()] = true
					addNested(keys, t.Elem)
				}
			}
		}
		for _, a := range c.Args {
			e.escape(st, a)
			if a.op == TIface && a.typ.Kind == "ptr" {
				keys["ptr:"+a.typ.Elem.String()] = true
				addNested(keys, a.typ.Elem)
			}
		}
		e.havoc(st, keys)
	}
	return one(st, e.freshResults(c.Name, in)...)
}

func (e *Engine) builtin(st *State, in *Instr, args []*Term) []Outcome {
	at := func(k int) *Type {
		if k < len(in.Call.ArgT) {
			return in.Call.ArgT[k]
		}
		return nil
	}
	switch in.Call.Short {
	case "len":
		t := at(0)
		if t != nil && t.Kind == "map" {
			return one(st, mapLen(st, e.load(st, mapCell(args[0], t), nil)))
		}
		if t != nil && t.Kind == "array" {
			return one(st, mkInt(t.Len))
		}
		return one(st, lenOf(args[0]))
	case "cap":
		return one(st, mkApp("cap", tIntT, args[0]))
	case "append":
		return one(st, e.appendModel(st, args[0], args[1], at(0), at(1)))
	case "copy":
		return e.copyModel(st, args[0], args[1], at(0), at(1), in)
	case "delete":
		c := mapCell(args[0], at(0))
		if e.cl.OnMapUpdate != nil {
			e.cl.OnMapUpdate(e, st, args[0], args[1], nil, in)
		}
		e.storeRaw(st, c, mkApp("mapdel", nil, e.load(st, c, nil), args[1]), nil, in)
		return one(st)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = e.minmax(st, in.Call.Short, r, a, in.Typ)
		}
		return one(st, r)
	case "panic":
		return []Outcome{{st: st, panic: true, pos: in.Pos}}
	case "print", "println":
		return one(st)
	case "clear":
		e.havoc(st, e.argKeys(in))
		return one(st)
	case "recover":
		return one(st, mkSym("recovered", in.Typ))
	}
	return one(st, e.freshResults(in.Call.Name, in)...)
}

func (e *Engine) argKeys(in *Instr) map[string]bool {
	k := map[string]bool{}
	for _, t := range in.Call.ArgT {
		if t != nil && t.Elem != nil {
			k["elem:"+t.Elem.String()] = true
			k["map:"+t.String()] = true
		}
	}
	return k
}

func (e *Engine) minmax(st *State, op string, a, b *Term, t *Type) *Term {
	if !isIntTerm(a) && !isIntTerm(b) {
		return mkApp(op, t, a, b)
	}
	if st.facts.implied(tLe(a, b)) {
		if op == "min" {
			return a
		}
		return b
	}
	if st.facts.implied(tLe(b, a)) {
		if op == "min" {
			return b
		}
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	r := mkApp(op, t, a, b)
	return r
}

func (e *Engine) copyModel(st *State, d, s *Term, dt, sT *Type, in *Instr) []Outcome {
	var et *Type
	if dt != nil {
		et = dt.Elem
	}
	n := e.minmax(st, "min", lenOf(d), lenOf(s), tIntT)
	var src *Term
	if sT != nil && sT.Kind == "string" {
		src = strSeq(s)
	} else {
		src = e.sliceSeq(st, s, et)
	}
	if d == tNil {
		return one(st, tZero)
	}
	db, do, _ := sliceParts(d)
	e.noteBase(db, et)
	if e.cl.OnElem != nil {
		e.cl.OnElem(e, st, db, do, mkApp("copied", nil, src, n), in)
	}
	old := e.seqOf(st, db, et)
	if addrRoot(db).op != TObj {
		e.aliasElems(st, db, et)
	}
	f := st.facts
	st.seq[db] = e.seqCat(f, e.seqSub(f, old, tZero, do), e.seqSub(f, src, tZero, n), e.seqSub(f, old, tAdd(do, n), seqLen(old)))
	return one(st, n)
}

var purePrefixes = []string{
	"ts:", "bytes.", "strings.", "strconv.", "errors.", "fmt.Sprint", "fmt.Errorf", "math.", "math/bits.", "unicode", "time.", "log/slog.", "(*log/slog.", "slog.", "os.Exit", "slices.BinarySearch", "slices.Contains", "slices.Index", "slices.Max", "slices.Min", "slices.Equal", "(error).", "invoke:error.", "maps.Clone", "encoding/binary.Size", "encoding/binary.Uvarint", "encoding/binary.Varint", "encoding/json.Delim", "(encoding/json.", "(time.", "golang.org/x/text", "(golang.org/x/text", "(*os.File).Fd", "(*os.File).Stat", "invoke:io/fs.FileInfo", "invoke:os.FileInfo", "errors.Is", "(encoding/binary.littleEndian).Uint", "(encoding/binary.bigEndian).Uint", "hash/fnv", "fmt.Print", "fmt.Fprint", "invoke:io/fs", "(io/fs", "encoding/csv.NewReader", "encoding/json.NewDecoder", "bytes.NewReader", "bufio.New",
}

func isPureName(n string) bool {
	for _, p := range purePrefixes {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}
