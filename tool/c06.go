package main

// C06: what a structure's MarshalBinary writes, its UnmarshalBinary reads back.
//
// Both sides are run symbolically once per shape of the structure.  The writer
// yields a list of byte extents (position, length, value), nested by loop; the
// reader yields the same for what it decodes.  The two lists are walked in step
// by position, binding what the reader decodes to what the writer encoded, and
// afterwards every field the reader set is compared with the field written.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// enumRange is the range of the declared constants of a named integer type.
func (g *GoProg) enumRange(t *Type) (lo, hi int64, ok bool) {
	n, isNamed := t.gt.(*types.Named)
	if !isNamed || t.Kind != "int" || n.Obj().Pkg() == nil {
		return 0, 0, false
	}
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		k, isC := sc.Lookup(nm).(*types.Const)
		if !isC || !types.Identical(k.Type(), n) {
			continue
		}
		v, exact := constant.Int64Val(constant.ToInt(k.Val()))
		if !exact {
			return 0, 0, false
		}
		if !ok {
			lo, hi, ok = v, v, true
		}
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	return
}

type codec struct {
	c    *Ctx
	g    *GoProg
	t    *Type
	w, r *Func
	sh   *treeShape

	decoded map[string]bool
	sizers  map[*Func]bool
	recv    *Term
	colLen  map[*Term]*Term // lengths of columns in terms of the key column's
}

type cItem struct {
	kind   string // uvarint, le4, be2, byte, bytes
	pos, n *Term
	val    *Term // writer: value; reader: symbol decoded
	pos2   string
}

type cNode struct {
	it   *cItem
	rec  *loopRec
	alts []cAlt
	last []*cNode
}

type cAlt struct {
	st    *State
	nodes []*cNode
}

type cBytes struct{ pos, n, src *Term }

type cOut struct {
	o     Outcome
	e     *Engine
	lt    *loopTracker
	nodes []*cNode
	base  *Term // the buffer
	off   *Term
	total *Term
	sums  map[*Term]*Term
	pre   *Facts
}

// satisfiable reports false when the facts contradict each other.
func (f *Facts) satisfiable() bool {
	if f.dead {
		return false
	}
	for _, l := range f.lits {
		n := f.norm(l)
		if n == tFalse || f.has[tNot(l)] {
			return false
		}
		if n.op == TApp && n.s == "not" && f.implied(n.args[0]) {
			return false
		}
	}
	for _, l := range f.lin {
		if f.infeasibleWith(f.norm(l), true) {
			return false
		}
	}
	return true
}

func iterSym(depth int) *Term { return mkNamed(fmt.Sprintf("iteration%d", depth), tIntT) }

// ---- running both sides ------------------------------------------------

// preset is one shape of the structure: facts over the receiver's fields.
type preset struct {
	name   string
	assume func(e *Engine, st *State)
}

func (k *codec) presets() []preset {
	base := func(e *Engine, st *State) {
		for _, f := range k.t.Fields {
			v := e.load(st, fieldAddr(k.recv, k.t, f.Name), f.Typ)
			if lo, hi, ok := k.g.enumRange(f.Typ); ok {
				st.facts.assume(tLe(mkInt(lo), v))
				st.facts.assume(tLe(v, mkInt(hi)))
			}
			if f.Typ.Kind == "string" {
				st.facts.assume(tLe(lenOf(v), mkInt(255)))
				st.facts.assume(tLe(tZero, lenOf(v)))
			}
		}
	}
	ps := []preset{{"", base}}
	if k.sh == nil {
		return ps
	}
	ps = nil
	for _, leaf := range []bool{true, false} {
		for _, z := range []string{"", "variable width", "fixed width"} {
			wf := k.widthField()
			if (wf == "") != (z == "") {
				continue
			}
			leaf, z := leaf, z
			nm := "inner"
			if leaf {
				nm = "leaf"
			}
			if z != "" {
				nm += ", " + z
			}
			ps = append(ps, preset{nm, func(e *Engine, st *State) {
				base(e, st)
				cols := map[string][2]*Term{}
				for _, c := range k.sh.cols {
					v := e.load(st, fieldAddr(k.recv, k.t, c.Name), c.Typ)
					cols[c.Name] = [2]*Term{v, v}
				}
				k.sh.assumeShape(st, cols, leaf)
				nk := lenOf(cols[k.sh.keyCol][0])
				st.facts.assume(tLe(tOne, nk))
				st.facts.assume(tLe(nk, mkInt(1<<20)))
				for _, c := range k.sh.cols {
					if c.Name != k.sh.child && !k.sh.leafOnly[c.Name] && c.Name != k.sh.keyCol {
						st.facts.assume(tEq(lenOf(cols[c.Name][0]), nk))
					}
				}
				if d := k.dimField(); d != "" {
					v := e.load(st, fieldAddr(k.recv, k.t, d), k.t.field(d))
					st.facts.assume(tLe(tOne, v))
					st.facts.assume(tLe(v, mkInt(1<<20)))
				}
				if wf != "" {
					v := e.load(st, fieldAddr(k.recv, k.t, wf), k.t.field(wf))
					if z == "variable width" {
						st.facts.assume(tEq(v, tZero))
					} else {
						st.facts.assume(tLe(tOne, v))
					}
				}
			}})
		}
	}
	return ps
}

// dimField is the 64 bit count that gives the length of nested vectors.
func (k *codec) dimField() string {
	nested := false
	for _, c := range k.sh.cols {
		nested = nested || c.Typ.Elem.Kind == "slice"
	}
	for _, f := range k.t.Fields {
		if nested && f.Typ.Kind == "int" && f.Typ.Bits == 64 {
			return f.Name
		}
	}
	return ""
}

// widthField is the configured key width: a scalar the reader does not decode.
func (k *codec) widthField() string {
	for _, f := range k.t.Fields {
		if f.Typ.Kind == "int" && f.Typ.Bits == 16 && !k.decoded[f.Name] {
			if k.usesField(k.w, f.Name) || k.usesField(k.r, f.Name) {
				return f.Name
			}
		}
	}
	return ""
}

func (k *codec) usesField(f *Func, name string) bool {
	seen := map[*Func]bool{}
	var walk func(f *Func) bool
	walk = func(f *Func) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		hit := false
		eachInstr(f, func(in *Instr) {
			if (in.Op == OpFieldAddr || in.Op == OpField) && in.Str == name && in.OpT != nil {
				t := in.OpT
				if t.Kind == "ptr" {
					t = t.Elem
				}
				if t.String() == k.t.String() {
					hit = true
				}
			}
			if in.Call != nil && in.Call.Fn != nil && in.Call.Fn.Pkg == f.Pkg {
				hit = hit || walk(in.Call.Fn)
			}
		})
		return hit
	}
	return walk(f)
}

func pieceItems(pos, body *Term) []*cItem {
	var r []*cItem
	for _, p := range seqPieces(body) {
		n := seqLen(p)
		x := p
		whole := true
		if p.op == TApp && p.s == "span" {
			x = p.args[0]
			whole = p.args[1] == tZero && p.args[2] == seqLen(x)
		}
		it := &cItem{pos: pos, n: n}
		switch {
		case p.op == TApp && p.s == "unit":
			it.kind, it.val = "byte", p.args[0]
		case whole && x.op == TApp && x.s == "uvarintbytes":
			it.kind, it.val = "uvarint", x.args[0]
		case whole && x.op == TApp && len(x.args) == 1 && (strings.HasPrefix(x.s, "le") || strings.HasPrefix(x.s, "be")):
			it.kind, it.val = x.s, x.args[0]
		default:
			it.kind, it.val = "bytes", p
			if whole {
				it.val = x
			}
		}
		r = append(r, it)
		pos = tAdd(pos, n)
	}
	return r
}

func (k *codec) client(lt *loopTracker, problems func(string)) *Client {
	cl := &Client{Inline: func(f *Func) bool { return f.Pkg != "handlers" && f.Pkg != "mocks" }}
	cl.OnBack = func(e *Engine, st *State, fn *Func, h int) { lt.back(e, st) }
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Fn != nil && cc.Fn.Recv == "" && len(cc.Fn.ParamT) == 1 && len(cc.Fn.Results) == 1 && cc.Fn.ParamT[0].Kind == "int" && cc.Fn.ParamT[0].Bits == 64 && !cc.Fn.ParamT[0].Signed && cc.Fn.Results[0].Kind == "int" {
			if _, done := k.sizers[cc.Fn]; !done {
				ok, _, _ := varintSizer(cc.Fn)
				k.sizers[cc.Fn] = ok
			}
			if k.sizers[cc.Fn] {
				return one(st, varintLen(cc.Args[0])), true
			}
		}
		if cc.In.Call.Invoke && cc.Fn == nil && len(cc.Args) == 2 && len(resultTypes(cc.In)) == 1 {
			// a parser of extents of the data file: a function of its input
			a := cc.Args[1]
			if ts := cc.In.Call.ArgT; len(ts) > 0 && ts[len(ts)-1] != nil && ts[len(ts)-1].Kind == "slice" {
				return one(st, mkApp("parsed", resultTypes(cc.In)[0], cc.Args[0], a)), true
			}
		}
		return nil, false
	}
	return cl
}

func (k *codec) runWriter(p preset) []*cOut {
	lt := newLoopTracker()
	cl := k.client(lt, nil)
	cl.OnElem = func(e *Engine, st *State, base, idx, val *Term, in *Instr) {
		if in == nil {
			return
		}
		if e.dry == 0 && addrRoot(base).op != TObj {
			k.c.Obl("pure", k.w.Name, false, in.Pos, "encoding changes what it encodes")
		}
		body := val
		if val.op == TApp && val.s == "copied" {
			body = e.seqSub(st.facts, val.args[0], tZero, val.args[1])
		} else if isIntTerm(val) && !(val.op == TApp && seqLens[val] != nil) {
			body = mkApp("unit", nil, val)
		}
		st.emit(&Event{Kind: "put", A: []*Term{base, idx, body}, Pos: in.Pos})
	}
	cl.OnStore = func(e *Engine, st *State, addr, val *Term, in *Instr) {
		if e.dry == 0 && addrRoot(addr).op != TObj && in != nil {
			k.c.Obl("pure", k.w.Name, false, in.Pos, "encoding changes what it encodes")
		}
	}
	cl.OnAppend = func(e *Engine, st *State, pos, body *Term, in *Instr) {
		st.emit(&Event{Kind: "app", A: []*Term{tNil, pos, body}})
	}
	e := newEngine(k.g, cl)
	st := newState()
	p.assume(e, st)
	pre := st.facts.clone()
	if k.sh != nil {
		k.colLen = map[*Term]*Term{}
		key := lenOf(e.load(st, fieldAddr(k.recv, k.t, k.sh.keyCol), k.t.field(k.sh.keyCol)))
		for _, c := range k.sh.cols {
			n := lenOf(e.load(st, fieldAddr(k.recv, k.t, c.Name), c.Typ))
			for _, to := range []*Term{tZero, key, tAddK(key, 1)} {
				if n != to && pre.implied(tEq(n, to)) {
					k.colLen[n] = to
					break
				}
			}
		}
	}
	var r []*cOut
	for _, o := range e.Run(k.w, []*Term{k.recv}, nil, st) {
		x := &cOut{o: o, e: e, lt: lt, sums: map[*Term]*Term{}, pre: pre}
		if !o.panic && len(o.res) > 0 {
			b, off, n := sliceParts(o.res[0])
			x.base, x.off, x.total = b, off, n
		}
		puts := 0
		for _, ev := range o.st.trace {
			if ev.Kind == "put" && ev.A[0] == x.base {
				puts++
			}
		}
		for _, rec := range lt.recs {
			for _, b := range rec.backs {
				for _, ev := range b.trace {
					if ev.Kind == "put" && ev.A[0] == x.base {
						puts++
					}
				}
			}
		}
		x.nodes = k.parse(x, o.st.trace, 0, func(ev *Event) []*cItem {
			switch {
			case ev.Kind == "put" && ev.A[0] == x.base:
			case ev.Kind == "app" && puts == 0:
			default:
				return nil
			}
			pos := ev.A[1]
			if x.off != nil && ev.Kind == "put" {
				pos = tSub(pos, x.off)
			}
			its := pieceItems(pos, ev.A[2])
			for _, it := range its {
				it.pos2 = ev.Pos
			}
			return its
		})
		k.sum(x)
		r = append(r, x)
	}
	k.c.Problems(e, k.w.Name)
	return r
}

func (k *codec) runReader(p preset, zero bool) ([]*cOut, *Engine) {
	lt := newLoopTracker()
	cl := k.client(lt, nil)
	buf := symArgs(k.r)[1]
	bb, bo, _ := sliceParts(buf)
	get := func(st *State, kind string, pos, n, val *Term, at string) {
		st.emit(&Event{Kind: "get", Str: kind, A: []*Term{tSub(pos, bo), n, val}, Pos: at})
	}
	inner := cl.Call
	fresh := map[[2]interface{}]*Term{}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if o, ok := inner(e, st, cc); ok {
			return o, ok
		}
		kind := ""
		ai := 0
		switch {
		case cc.Name == "encoding/binary.Uvarint":
			kind = "uvarint"
		case strings.HasPrefix(cc.Name, "(encoding/binary.littleEndian).Uint"):
			kind, ai = "le", 1
		case strings.HasPrefix(cc.Name, "(encoding/binary.bigEndian).Uint"):
			kind, ai = "be", 1
		default:
			return nil, false
		}
		b, off, _ := sliceParts(cc.Args[ai])
		if b != bb {
			return nil, false
		}
		outs, ok := stdModel(e, st, cc)
		if !ok {
			return nil, false
		}
		for _, o := range outs {
			// what is read at a place in the loop is not what is read at that
			// place after it
			in := openLoop(o.st.trace)
			for i, v := range o.res {
				key := [2]interface{}{v, in}
				if fresh[key] == nil {
					if i == 0 {
						fresh[key] = mkSym("decoded", v.typ)
					} else {
						fresh[key] = rng(mkSym("decodedlen", tIntT), -11, 10)
					}
				}
				if i == 1 {
					o.st.facts.assume(tLe(fresh[key], lenOf(cc.Args[ai])))
				}
				o.res[i] = fresh[key]
			}
			if kind == "uvarint" {
				get(o.st, kind, off, o.res[1], o.res[0], cc.Pos)
				continue
			}
			w := "8"
			if strings.HasSuffix(cc.Name, "32") {
				w = "4"
			} else if strings.HasSuffix(cc.Name, "16") {
				w = "2"
			}
			get(o.st, kind+w, off, mkInt(int64(w[0]-'0')), o.res[0], cc.Pos)
		}
		return outs, true
	}
	var note func(e *Engine, st *State, x *Term, at string)
	note = func(e *Engine, st *State, x *Term, at string) {
		if x.op != TSlice && x.op != TApp && x.op != TAgg {
			return
		}
		if pos, n, ok := k.bytesOf(e, st, x, bb); ok {
			get(st, "bytes", pos, n, x, at)
			return
		}
		for _, a := range x.args {
			note(e, st, a, at)
		}
	}
	cl.OnStore = func(e *Engine, st *State, addr, val *Term, in *Instr) {
		if ft, ok := fldTypeOf[addr]; ok && ft != nil && k.recv == rootOf(addr) {
			for _, f := range k.t.Fields {
				if fieldAddr(k.recv, k.t, f.Name) == addr {
					st.emit(&Event{Kind: "set", Str: f.Name, A: []*Term{addr, val}})
					if e.dry == 0 {
						k.decoded[f.Name] = true
					}
				}
			}
		}
		if el, _, ok := splitElem(addr); ok {
			st.emit(&Event{Kind: "elem", A: []*Term{el.args[0], el.args[1]}})
		}
		at := ""
		if in != nil {
			at = in.Pos
		}
		note(e, st, val, at)
	}
	cl.OnElem = func(e *Engine, st *State, base, idx, val *Term, in *Instr) {
		st.emit(&Event{Kind: "elem", A: []*Term{base, idx}})
		note(e, st, val, "")
	}
	cl.OnLoad = func(e *Engine, st *State, addr *Term, in *Instr) {
		if addr.op == TIdx && addr.args[0] == bb {
			v := e.selectElem(st, bb, addr.args[1], byteT)
			get(st, "byte", addr.args[1], tOne, v, in.Pos)
		}
	}
	e := newEngine(k.g, cl)
	st := newState()
	p.assume(e, st)
	if zero {
		for _, f := range k.t.Fields {
			if k.decoded[f.Name] {
				a := fieldAddr(k.recv, k.t, f.Name)
				st.mem[a] = zeroTerm(f.Typ)
			}
		}
	}
	var r []*cOut
	for _, o := range e.Run(k.r, []*Term{k.recv, buf}, nil, st) {
		x := &cOut{o: o, e: e, lt: lt, base: bb, off: bo, total: lenOf(buf), sums: map[*Term]*Term{}}
		x.nodes = k.parse(x, o.st.trace, 0, func(ev *Event) []*cItem {
			if ev.Kind != "get" {
				return nil
			}
			return []*cItem{{kind: ev.Str, pos: ev.A[0], n: ev.A[1], val: ev.A[2], pos2: ev.Pos}}
		})
		r = append(r, x)
	}
	if zero {
		k.c.Problems(e, k.r.Name)
	}
	return r, e
}

func rootOf(a *Term) *Term {
	for a.op == TFld || a.op == TIdx {
		a = a.args[0]
	}
	return a
}

// bytesOf: v is the bytes of a window of the buffer.
func (k *codec) bytesOf(e *Engine, st *State, v, bb *Term) (pos, n *Term, ok bool) {
	span := func(s *Term) (*Term, *Term, bool) {
		if s.op == TApp && s.s == "cat" && len(s.args) == 1 {
			s = s.args[0]
		}
		if s.op == TApp && s.s == "span" && s.args[0] == e.seqOf(st, bb, byteT) {
			return s.args[1], tSub(s.args[2], s.args[1]), true
		}
		// a copy of as many bytes as there are, up to the length of its target
		if s.op == TApp && s.s == "cat" && len(s.args) == 2 && s.args[0].s == "span" && s.args[0].args[0] == e.seqOf(st, bb, byteT) {
			d := tSub(s.args[0].args[2], s.args[0].args[1])
			n := seqLen(s)
			if d.op == TApp && d.s == "min" && (d.args[0] == n || d.args[1] == n) {
				return s.args[0].args[1], n, true
			}
		}
		return nil, nil, false
	}
	switch {
	case v.op == TSlice:
		b, o, l := sliceParts(v)
		if b == bb {
			return o, l, true
		}
		if s, has := st.seq[b]; has && b.op == TObj && baseElemKey[b] == "elem:"+byteT.String() {
			return span(e.seqSub(st.facts, s, o, tAdd(o, l)))
		}
	case v.op == TApp && v.s == "stringof" && len(v.args) == 2:
		return span(v.args[1])
	}
	return nil, nil, false
}

// ---- structure of a run ------------------------------------------------

func (k *codec) parse(x *cOut, tr []*Event, depth int, items func(*Event) []*cItem) []*cNode {
	var r []*cNode
	seen := map[string]bool{}
	for i := 0; i < len(tr); i++ {
		ev := tr[i]
		if ev.Kind == "loop-begin" {
			end := len(tr)
			lvl := 0
			for j := i + 1; j < len(tr); j++ {
				if tr[j].Kind == "loop-begin" {
					lvl++
				}
				if tr[j].Kind == "loop-end" {
					if lvl == 0 {
						end = j
						break
					}
					lvl--
				}
			}
			rec := x.lt.recs[ev]
			if rec != nil {
				if rec.lin == nil {
					rec.solve(0)
				}
				nd := &cNode{rec: rec}
				for _, b := range rec.backs {
					nd.alts = append(nd.alts, cAlt{b, k.parse(x, rec.since(b), depth+1, items)})
				}
				nd.last = k.parse(x, tr[i+1:end], depth, items)
				r = append(r, nd)
			} else {
				r = append(r, k.parse(x, tr[i+1:end], depth, items)...)
			}
			i = end
			continue
		}
		for _, it := range items(ev) {
			key := fmt.Sprint(it.kind, it.pos.id, ",", it.n.id, ",", it.val.id)
			if seen[key] && it.kind != "byte" || it.n == tZero || x.o.st.facts.implied(tEq(it.n, tZero)) {
				continue
			}
			seen[key] = true
			r = append(r, &cNode{it: it})
		}
	}
	return r
}

// sum gives every variable of a finished loop its final value, as a sum over
// the iterations where it does not move evenly.
func (k *codec) sum(x *cOut) {
	f := x.o.st.facts
	var do func(nodes []*cNode, f *Facts, depth int)
	do = func(nodes []*cNode, f *Facts, depth int) {
		for _, nd := range nodes {
			if nd.rec == nil {
				continue
			}
			for _, a := range nd.alts {
				do(a.nodes, a.st.facts, depth+1)
			}
			r := nd.rec
			if r.head == nil || len(r.backs) == 0 {
				continue
			}
			cnt := r.count()
			if cnt == nil {
				continue
			}
			cnt = k.lensOf(x, f, cnt)
			it := iterSym(depth)
			add := func(h, en *Term, next func(*State) *Term) {
				if h == nil || en == nil || h == en || h.op != TSym || !isIntTerm(h) {
					return
				}
				var d *Term
				for _, b := range r.backs {
					v := next(b)
					if v == nil {
						return
					}
					dd := k.canon(x, replaceTerms(r.at(tSub(v, h)), map[*Term]*Term{r.iter: it}))
					if d == nil {
						d = dd
					} else if d != dd {
						return
					}
				}
				if d == nil || containsTerm(d, h) {
					return
				}
				x.sums[h] = tAdd(k.canon(x, en), sumTerm(d, it, cnt))
			}
			for reg, h := range r.head.env {
				reg := reg
				add(h, r.entry.env[reg], func(s *State) *Term { return s.env[reg] })
			}
			for cell, h := range r.head.mem {
				cell := cell
				add(h, r.entry.mem[cell], func(s *State) *Term { return s.mem[cell] })
			}
		}
	}
	do(x.nodes, f, 0)
}

func sumTerm(d, it, cnt *Term) *Term {
	l := toLin(d)
	res := tMul(mkBig(l.k), cnt)
	for a, c := range l.co {
		t := mkApp("sum", tIntT, a, cnt)
		if !containsTerm(a, it) {
			t = tMul(a, cnt)
		}
		res = tAdd(res, tMul(mkInt(c), t))
	}
	return res
}

func (k *codec) canon(x *cOut, t *Term) *Term { return k.shape(replaceTerms(t, x.sums)) }

// lensOf writes a count as the length of a column where the facts say so.
func (k *codec) lensOf(x *cOut, f *Facts, t *Term) *Term {
	if _, ok := constI(t); ok {
		return t
	}
	var names []string
	for _, c := range k.t.Fields {
		if c.Typ.Kind == "slice" {
			names = append(names, c.Name)
		}
	}
	sort.Strings(names)
	if k.sh != nil { // the key column stands for all columns of its length
		names = append([]string{k.sh.keyCol}, names...)
	}
	for _, nm := range names {
		v := x.e.load(newState(), fieldAddr(k.recv, k.t, nm), k.t.field(nm))
		if f.implied(tEq(t, lenOf(v))) {
			return lenOf(v)
		}
	}
	var lens []*Term
	for _, l := range f.lits {
		subterms(l, map[*Term]bool{}, func(a *Term) {
			if a.op == TApp && a.s == "len" {
				lens = append(lens, a)
			}
		})
	}
	for _, n := range lens {
		if f.implied(tEq(t, n)) {
			return k.canon(x, n)
		}
	}
	return k.canon(x, t)
}

// shape applies what is known of every element: nested vectors have the
// node's dimension, fixed width keys the node's width.
func (k *codec) shape(t *Term) *Term {
	if k.sh == nil {
		return t
	}
	m := map[*Term]*Term{}
	e := newEngine(k.g, &Client{})
	st := newState()
	subterms(t, map[*Term]bool{}, func(x *Term) {
		if x.op != TApp || x.s != "len" || len(x.args) != 1 {
			return
		}
		a := x.args[0]
		if a.typ == nil || a.typ.Kind != "slice" {
			return
		}
		if to, ok := k.colLen[x]; ok {
			m[x] = to
		}
		if d := k.dimField(); d != "" && a.op == TApp && a.s == "elem" {
			m[x] = e.load(st, fieldAddr(k.recv, k.t, d), k.t.field(d))
		}
		if w := k.widthField(); w != "" && a.op == TApp && strings.HasPrefix(a.s, "fld:") {
			m[x] = tAddK(e.load(st, fieldAddr(k.recv, k.t, w), k.t.field(w)), -1)
		}
	})
	if len(m) == 0 {
		return t
	}
	return replaceTerms(t, m)
}

// ---- walking both lists ------------------------------------------------

type joint struct {
	k     *codec
	w, r  *cOut
	bind  map[*Term]*Term
	bytes []cBytes
	scope [][2]*Facts // facts of the iterations entered, writer and reader
	cache *Facts
	items int
}

// facts are those of both sides at the current place.
func (j *joint) facts() *Facts {
	if j.cache != nil {
		return j.cache
	}
	f := newFacts()
	add := func(o *Facts) {
		if o == nil {
			return
		}
		for _, l := range o.lits {
			f.assume(j.simp(f, l))
		}
	}
	if n := len(j.scope); n > 0 {
		add(j.scope[n-1][0])
		add(j.scope[n-1][1])
	} else {
		add(j.w.o.st.facts)
		add(j.r.o.st.facts)
	}
	j.cache = f
	return f
}

// enter binds the variables of both loops to the same iteration.
func (j *joint) enter(depth int, w, r *Facts, recs ...*loopRec) (leave func()) {
	var hs []*Term
	for _, rec := range recs {
		if rec == nil {
			continue
		}
		for h, l := range rec.lin {
			if _, has := j.bind[h]; !has {
				j.bind[h] = replaceTerms(replaceTerms(l, map[*Term]*Term{rec.iter: iterSym(depth)}), j.bind)
				hs = append(hs, h)
			}
		}
	}
	j.scope = append(j.scope, [2]*Facts{w, r})
	j.cache = nil
	return func() {
		for _, h := range hs {
			delete(j.bind, h)
		}
		j.scope = j.scope[:len(j.scope)-1]
		j.cache = nil
	}
}

// simp rewrites a reader term over the writer's values.
func (j *joint) simp(f *Facts, t *Term) *Term {
	return j.k.rewrap(f, j.k.shape(replaceTerms(t, j.bind)))
}

// rewrap drops integer conversions that cannot change the value.
func (k *codec) rewrap(f *Facts, t *Term) *Term {
	m := map[*Term]*Term{}
	subterms(t, map[*Term]bool{}, func(x *Term) {
		if x.op == TApp && len(x.args) == 1 && x.args[0].op == TApp && len(x.args[0].args) == 1 {
			if inv := map[string]string{"math.Float32frombits": "math.Float32bits", "math.Float64frombits": "math.Float64bits"}[x.s]; inv != "" && x.args[0].s == inv {
				m[x] = x.args[0].args[0]
				return
			}
		}
		if x.op != TApp || !strings.HasPrefix(x.s, "wrap:") || len(x.args) != 1 || x.typ == nil {
			return
		}
		in := x.args[0]
		for in.op == TApp && strings.HasPrefix(in.s, "wrap:") && in.typ != nil && in.typ.Bits >= x.typ.Bits {
			in = in.args[0]
		}
		in = k.rewrap(f, in)
		lo, hi := typeRange(x.typ)
		if in.op == TInt && in.k.Cmp(lo) >= 0 && in.k.Cmp(hi) <= 0 || f.implied(tLe(mkBig(lo), in)) && f.implied(tLe(in, mkBig(hi))) {
			m[x] = in
		} else if in != x.args[0] {
			m[x] = mkApp(x.s, x.typ, in)
		}
	})
	if len(m) == 0 {
		return t
	}
	return replaceTerms(t, m)
}

func (j *joint) eq(f *Facts, a, b *Term) bool { return a == b || f.implied(tEq(a, b)) }

func entryMap(r *loopRec) map[*Term]*Term {
	m := map[*Term]*Term{}
	for reg, h := range r.head.env {
		if en := r.entry.env[reg]; h != nil && en != nil && h != en && h.op == TSym {
			m[h] = en
		}
	}
	for c, h := range r.head.mem {
		if en := r.entry.mem[c]; h != nil && en != nil && h != en && h.op == TSym {
			m[h] = en
		}
	}
	return m
}

func nextMap(r *loopRec, b *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	for reg, h := range r.head.env {
		if en := b.env[reg]; h != nil && en != nil && h != en && h.op == TSym {
			m[h] = en
		}
	}
	for c, h := range r.head.mem {
		if en := b.mem[c]; h != nil && en != nil && h != en && h.op == TSym {
			m[h] = en
		}
	}
	return m
}

// starts are the positions an item list may begin with.
func starts(nodes []*cNode) []*Term {
	var r []*Term
	for _, n := range nodes {
		if n.it != nil {
			r = append(r, n.it.pos)
			continue
		}
		for _, a := range n.alts {
			for _, s := range starts(a.nodes) {
				r = append(r, replaceTerms(s, entryMap(n.rec)))
			}
		}
		r = append(r, starts(n.last)...)
	}
	return r
}

// take removes the item at position end from the items before the next loop.
func take(nodes []*cNode, eq func(a, b *Term) bool, end *Term) (*cItem, []*cNode) {
	for i, n := range nodes {
		if n.it == nil {
			break
		}
		if eq(n.it.pos, end) {
			rest := append(append([]*cNode{}, nodes[:i]...), nodes[i+1:]...)
			return n.it, rest
		}
	}
	return nil, nodes
}

func (j *joint) dropEmpty(f *Facts, nodes []*cNode, writer bool) []*cNode {
	for len(nodes) > 0 {
		n := nodes[0]
		if n.rec == nil {
			break
		}
		empty := len(n.alts) == 0
		if c := n.rec.count(); c != nil && !empty {
			if !writer {
				c = j.simp(f, c)
			}
			empty = f.implied(tLe(c, tZero))
		}
		work := false
		for _, a := range n.alts {
			work = work || hasItems(a.nodes)
		}
		if !empty && work {
			break
		}
		nodes = append(append([]*cNode{}, n.last...), nodes[1:]...)
	}
	return nodes
}

func hasItems(nodes []*cNode) bool {
	for _, n := range nodes {
		if n.it != nil || hasItems(n.last) {
			return true
		}
		for _, a := range n.alts {
			if hasItems(a.nodes) {
				return true
			}
		}
	}
	return false
}

// walk matches both lists from the given ends; the ends reached are returned.
func (j *joint) walk(wn, rn []*cNode, wEnd, rEnd *Term, wf, rf *Facts, depth int) (we, re *Term, msg string) {
	for {
		f := j.facts()
		wn, rn = j.dropEmpty(f, wn, true), j.dropEmpty(f, rn, false)
		if len(wn) == 0 && len(rn) == 0 {
			return wEnd, rEnd, ""
		}
		weq := func(a, b *Term) bool { return a == b || wf.implied(tEq(a, b)) || f.implied(tEq(a, b)) }
		req := func(a, b *Term) bool {
			return a == b || rf.implied(tEq(a, b)) || f.implied(tEq(j.simp(f, a), j.simp(f, b)))
		}
		wi, wrest := take(wn, weq, wEnd)
		ri, rrest := take(rn, req, rEnd)
		if wi != nil && ri != nil {
			if msg := j.item(f, wi, ri); msg != "" {
				return nil, nil, msg
			}
			j.items++
			wEnd, rEnd = tAdd(wEnd, wi.n), tAdd(rEnd, ri.n)
			wn, rn = wrest, rrest
			continue
		}
		switch {
		case len(wn) == 0:
			return nil, nil, fmt.Sprintf("%s is decoded past the end of what is written", where(rn))
		case len(rn) == 0:
			return nil, nil, fmt.Sprintf("what %s writes is never decoded", where(wn))
		case wi == nil && wn[0].rec == nil:
			return nil, nil, fmt.Sprintf("%s writes at %v, but the bytes before it end at %v", where(wn), wn[0].it.pos, wEnd)
		case ri == nil && rn[0].rec == nil:
			return nil, nil, fmt.Sprintf("%s decodes at %v, but the bytes before it end at %v", where(rn), rn[0].it.pos, rEnd)
		case wi != nil:
			return nil, nil, fmt.Sprintf("%s writes one item where %s decodes a list", wi.pos2, where(rn))
		case ri != nil:
			return nil, nil, fmt.Sprintf("%s decodes one item where %s writes a list", ri.pos2, where(wn))
		}
		// two loops
		w, r := wn[0], rn[0]
		wc, rc := w.rec.count(), r.rec.count()
		if wc == nil || rc == nil {
			return nil, nil, fmt.Sprintf("the number of items of %s or %s is not understood", where(wn), where(rn))
		}
		if !j.eq(f, j.k.shape(wc), j.simp(f, rc)) {
			return nil, nil, fmt.Sprintf("%v items are written by %s but %v decoded by %s", j.k.shape(wc), where(wn), j.simp(f, rc), where(rn))
		}
		pick := func(n *cNode, end *Term, eq func(a, b *Term) bool, alt cAlt) *Term {
			m := entryMap(n.rec)
			for _, s := range starts(alt.nodes) {
				if eq(replaceTerms(s, m), end) {
					return s
				}
			}
			return nil
		}
		var wNext, rNext *Term
		for _, wa := range w.alts {
			for _, ra := range r.alts {
				ws, rs := pick(w, wEnd, weq, wa), pick(r, rEnd, req, ra)
				leave := j.enter(depth, wa.st.facts, ra.st.facts, w.rec, r.rec)
				if !j.facts().satisfiable() {
					leave()
					continue
				}
				switch {
				case ws == nil:
					leave()
					return nil, nil, fmt.Sprintf("the list of %s does not begin where the bytes before it end, at %v", where(wn), wEnd)
				case rs == nil:
					leave()
					return nil, nil, fmt.Sprintf("the list of %s is not decoded from where the bytes before it end, at %v", where(rn), rEnd)
				}
				we, re, msg := j.walk(wa.nodes, ra.nodes, ws, rs, wa.st.facts, ra.st.facts, depth+1)
				fi := j.facts()
				leave()
				if msg != "" {
					if !fi.satisfiable() {
						continue
					}
					return nil, nil, msg
				}
				if !weqf(wa.st.facts, fi, replaceTerms(ws, nextMap(w.rec, wa.st)), we) {
					return nil, nil, fmt.Sprintf("the next entry of %s does not begin where this one ends", where(wn))
				}
				if !weqf(ra.st.facts, fi, replaceTerms(rs, nextMap(r.rec, ra.st)), re) {
					return nil, nil, fmt.Sprintf("the next entry of %s is not decoded from where this one ends", where(rn))
				}
				if wNext != nil && (wNext != ws || rNext != rs) {
					return nil, nil, "the entries of a list have different layouts"
				}
				wNext, rNext = ws, rs
			}
		}
		if wNext == nil {
			return nil, nil, fmt.Sprintf("no way through %s agrees with %s", where(wn), where(rn))
		}
		wEnd, rEnd = wNext, rNext
		wn = append(append([]*cNode{}, w.last...), wn[1:]...)
		rn = append(append([]*cNode{}, r.last...), rn[1:]...)
	}
}

func weqf(a, b *Facts, x, y *Term) bool {
	return x == y || a.implied(tEq(x, y)) || b.implied(tEq(x, y))
}

func where(nodes []*cNode) string {
	for _, n := range nodes {
		if n.it != nil {
			if n.it.pos2 != "" {
				return n.it.pos2
			}
			return "a " + n.it.kind
		}
		for _, a := range n.alts {
			if s := where(a.nodes); s != "" {
				return s
			}
		}
		if s := where(n.last); s != "" {
			return s
		}
	}
	return ""
}

func (j *joint) item(f *Facts, w, r *cItem) string {
	if w.kind != r.kind {
		return fmt.Sprintf("%s writes %s where %s decodes %s", w.pos2, kindName(w.kind), r.pos2, kindName(r.kind))
	}
	wv := replaceTerms(w.val, j.bind)
	switch w.kind {
	case "bytes":
		wl, rl := j.k.shape(w.n), j.simp(f, r.n)
		if !j.eq(f, wl, rl) {
			return fmt.Sprintf("%s writes %v bytes where %s decodes %v", w.pos2, wl, r.pos2, rl)
		}
		j.bytes = append(j.bytes, cBytes{r.pos, r.n, wv})
		if r.val.op == TApp {
			j.bind[r.val] = mkApp("decodedbytes", r.val.typ, wv)
		}
	case "uvarint":
		j.bind[r.val] = wv
		if r.n.op != TInt {
			j.bind[r.n] = varintLen(wv)
		}
	default:
		j.bind[r.val] = wv
	}
	j.cache = nil
	return ""
}

func kindName(s string) string {
	switch {
	case s == "uvarint":
		return "a varint"
	case s == "byte":
		return "a byte"
	case s == "bytes":
		return "raw bytes"
	case strings.HasPrefix(s, "le"):
		return "a " + s[2:] + " byte little endian number"
	case strings.HasPrefix(s, "be"):
		return "a " + s[2:] + " byte big endian number"
	}
	return s
}

// pre are the facts known of the structure written, whatever is decoded.
func (j *joint) pre() *Facts { return j.w.pre }

// ---- comparing the structure decoded with the one written ---------------

func (j *joint) compare(path string, f *Facts, st *State, got, want *Term, t *Type, nodes []*cNode, depth int, fail func(path, msg string)) {
	e := j.r.e
	switch t.Kind {
	case "struct":
		for _, fl := range t.Fields {
			j.compare(path+"."+fl.Name, f, st, mkField(got, fl.Name, fl.Typ), mkField(want, fl.Name, fl.Typ), fl.Typ, nodes, depth, fail)
		}
		return
	case "slice", "string":
		if t.Kind == "string" || t.Elem.Kind == "int" && t.Elem.Bits == 8 {
			j.k.c.Count("fields compared", 1)
			if pos, n, ok := j.k.bytesOf(e, st, got, j.r.base); ok {
				pos = tSub(pos, j.r.off)
				src := strSeqOf(e, want, t)
				for _, b := range j.bytes {
					if (b.pos == pos || f.implied(tEq(j.simp(f, b.pos), j.simp(f, pos)))) && j.eq(f, j.simp(f, b.n), j.simp(f, n)) && sameBytes(b.src, src, want) {
						return
					}
				}
				if debugEngine {
					for _, b := range j.bytes {
						fmt.Println("BYTES", b.pos, b.n, b.src, "=>", j.simp(f, b.pos), j.simp(f, b.n))
					}
					fmt.Println("WANT", pos, n, src, "=>", j.simp(f, pos), j.simp(f, n))
				}
				fail(path, "is decoded from bytes it was not written to")
				return
			}
			if got.op == TApp && got.s == "parsed" {
				if msg := j.parsedFrom(f, got, want); msg != "" {
					fail(path, msg)
				}
				return
			}
			if j.eq(f, j.simp(f, got), want) {
				return
			}
			fail(path, "is not decoded")
			return
		}
		if ok, bad := j.appended(path, f, got, want, t, nodes, depth); ok {
			for _, m := range bad {
				fail(m[0], m[1])
			}
			return
		}
		b, off, n := sliceParts(got)
		wn := j.k.shape(lenOf(want))
		if !j.eq(f, j.simp(f, n), wn) {
			fail(path, fmt.Sprintf("is decoded with %v entries instead of %v", j.simp(f, n), wn))
			return
		}
		if f.implied(tLe(wn, tZero)) {
			return
		}
		if off != tZero {
			fail(path, "is decoded into a part of its storage")
			return
		}
		ws := e.sliceSeq(newState(), want, t.Elem)
		done := false
		bad := [][2]string{}
		var visit func(nodes []*cNode)
		visit = func(nodes []*cNode) {
			for _, nd := range nodes {
				if nd.rec == nil || done {
					continue
				}
				for _, a := range nd.alts {
					idx := elemIdx(nd.rec.since(a.st), b)
					if idx == nil || done {
						continue
					}
					it := iterSym(depth)
					c := nd.rec.count()
					if c != nil {
						c = j.simp(f, c)
					}
					leave := j.enter(depth, j.pre(), a.st.facts, nd.rec)
					fi := j.facts()
					bad = bad[:0]
					switch {
					case !fi.satisfiable():
						bad = append(bad, [2]string{path, "is decoded on no path"})
					case j.simp(fi, idx) != it && !fi.implied(tEq(j.simp(fi, idx), it)):
						bad = append(bad, [2]string{path, fmt.Sprintf("entry %v is decoded in iteration %v", j.simp(fi, idx), it)})
					case c == nil || !j.eq(f, c, wn):
						bad = append(bad, [2]string{path, "not every entry is decoded"})
					default:
						gv := e.seqAt(a.st.facts, e.seqOf(a.st, b, t.Elem), idx, t.Elem)
						wv := e.atomAt(ws, it, t.Elem)
						j.compare(path+"[i]", fi, a.st, gv, wv, t.Elem, a.nodes, depth+1, func(p, m string) { bad = append(bad, [2]string{p, m}) })
					}
					leave()
					if len(bad) == 0 {
						done = true
					}
				}
			}
		}
		visit(nodes)
		if !done {
			if len(bad) == 0 {
				bad = append(bad, [2]string{path, "is not filled by the decoder"})
			}
			for _, m := range bad {
				fail(m[0], m[1])
			}
		}
		return
	}
	j.k.c.Count("fields compared", 1)
	g := j.simp(f, got)
	if !j.eq(f, g, want) && !j.eq(f, g, j.k.rewrap(f, want)) {
		fail(path, fmt.Sprintf("is decoded as %v", g))
	}
}

// appended handles a list that grows by one entry per iteration.
func (j *joint) appended(path string, f *Facts, got, want *Term, t *Type, nodes []*cNode, depth int) (bool, [][2]string) {
	if got.op != TSym {
		return false, nil
	}
	e := j.r.e
	for _, nd := range nodes {
		if nd.rec == nil || nd.rec.head == nil {
			continue
		}
		var en *Term
		var next func(*State) *Term
		for reg, h := range nd.rec.head.env {
			if h == got && nd.rec.entry.env[reg] != nil {
				reg := reg
				en, next = nd.rec.entry.env[reg], func(s *State) *Term { return s.env[reg] }
			}
		}
		for cell, h := range nd.rec.head.mem {
			if h == got && nd.rec.entry.mem[cell] != nil {
				cell := cell
				en, next = nd.rec.entry.mem[cell], func(s *State) *Term { return s.mem[cell] }
			}
		}
		if next == nil {
			continue
		}
		var bad [][2]string
		say := func(p, m string) { bad = append(bad, [2]string{p, m}) }
		if lenOf(en) != tZero {
			say(path, "is appended to what was there before")
		}
		c := nd.rec.count()
		wn := j.k.shape(lenOf(want))
		if c == nil || !j.eq(f, j.simp(f, c), wn) {
			say(path, "is decoded with a different number of entries")
		}
		ws := e.sliceSeq(newState(), want, t.Elem)
		good := false
		for _, a := range nd.alts {
			leave := j.enter(depth, j.pre(), a.st.facts, nd.rec)
			fi := j.facts()
			if fi.satisfiable() {
				c := e.sliceSeq(a.st, next(a.st), t.Elem)
				old := e.sliceSeq(nd.rec.head, got, t.Elem)
				ps := seqPieces(c)
				k := len(ps) - 1
				if k < 0 || ps[k].s != "unit" || !seqSame(a.st.facts, e.seqCat(a.st.facts, ps[:k]...), old) {
					say(path, "does not grow by one entry per iteration")
				} else {
					good = true
					j.compare(path+"[i]", fi, a.st, ps[k].args[0], e.atomAt(ws, iterSym(depth), t.Elem), t.Elem, a.nodes, depth+1, say)
				}
			}
			leave()
		}
		if !good && len(bad) == 0 {
			say(path, "is decoded on no path")
		}
		return true, bad
	}
	return false, nil
}

// a variable width key is what the parser makes of the key's own extent in
// the data file.
func (j *joint) parsedFrom(f *Facts, got, want *Term) string {
	if want.op != TApp || len(want.args) != 1 {
		return "is parsed, but is not part of an entry"
	}
	entry := want.args[0]
	var ext *Term
	for _, fl := range entry.typ.Fields {
		if isMemPtr(fl.Typ) {
			ext = mkField(entry, fl.Name, fl.Typ)
		}
	}
	if ext == nil {
		return "is parsed, but its entry has no extent"
	}
	b, o, n := sliceParts(got.args[1])
	from := false
	for _, fl := range j.k.t.Fields {
		v := j.w.e.load(newState(), fieldAddr(j.k.recv, j.k.t, fl.Name), fl.Typ)
		if vb, vo, _ := sliceParts(v); fl.Typ.Kind == "slice" && !j.k.decoded[fl.Name] && vb == b {
			from = true
			o = tSub(o, vo)
		}
	}
	if !from {
		return "is not parsed from the data file"
	}
	wo, wl := mkField(ext, "Offset", ext.typ.field("Offset")), mkField(ext, "Length", ext.typ.field("Length"))
	o, n = j.simp(f, o), j.simp(f, n)
	if !j.eq(f, o, wo) || !j.eq(f, n, wl) {
		return fmt.Sprintf("is parsed from %v bytes at %v instead of its own extent", n, o)
	}
	return ""
}

func elemIdx(tr []*Event, base *Term) *Term {
	lvl := 0
	for _, ev := range tr {
		switch ev.Kind {
		case "loop-begin":
			lvl++
		case "loop-end":
			lvl--
		case "elem":
			if ev.A[0] == base && lvl == 0 {
				return ev.A[1]
			}
		}
	}
	return nil
}

func strSeqOf(e *Engine, v *Term, t *Type) *Term {
	if t.Kind == "string" {
		return strSeq(v)
	}
	return e.sliceSeq(newState(), v, t.Elem)
}

func sameBytes(src, want, v *Term) bool {
	norm := func(t *Term) *Term {
		if t.op == TApp && t.s == "cat" && len(t.args) == 1 {
			t = t.args[0]
		}
		if t.op == TApp && t.s == "span" && t.args[1] == tZero && (t.args[2] == seqLen(t.args[0])) {
			t = t.args[0]
		}
		return t
	}
	a, b := norm(src), norm(want)
	if a == b {
		return true
	}
	// the writer only ever writes to storage of its own (rule "pure")
	x, ok1 := seqBase[a]
	y, ok2 := seqBase[b]
	return ok1 && ok2 && x.base == y.base
}

// ---- the check -----------------------------------------------------------

func (k *codec) run() {
	c := k.c
	name := k.t.String()
	k.recv = symArgs(k.w)[0]
	// which fields does the reader set
	for i := 0; i < 2; i++ {
		k.runReader(preset{"", func(*Engine, *State) {}}, false)
	}
	cases := 0
	for _, p := range k.presets() {
		label := name
		if p.name != "" {
			label += " (" + p.name + ")"
		}
		ws := k.runWriter(p)
		rs, _ := k.runReader(p, true)
		written := false
		for _, w := range ws {
			failed := w.o.panic || len(w.o.res) != 2 || w.o.res[1] != tNil
			if failed {
				f := newFacts()
				for _, l := range w.o.st.facts.lits {
					f.assume(k.canon(w, l))
				}
				c.Obl("writes", label, !f.satisfiable(), w.o.pos, fmt.Sprintf("a structure of this shape cannot be written: %s fails", k.w.Name))
				continue
			}
			written = true
			k.agree(label, w, rs)
		}
		c.Obl("writes", label, written, k.w.Pos, "no structure of this shape is ever written")
		cases++
	}
	c.Count("shapes", cases)
}

func (k *codec) agree(label string, w *cOut, rs []*cOut) {
	c := k.c
	var msgs []string
	var pos string
	good := 0
	for _, r := range rs {
		failed := r.o.panic || len(r.o.res) == 1 && r.o.res[0] != tNil
		j := &joint{k: k, w: w, r: r, bind: map[*Term]*Term{r.total: w.total}}
		if w.total != nil {
			j.bind[r.total] = k.canon(w, w.total)
		}
		we, _, msg := j.walk(w.nodes, r.nodes, tZero, tZero, w.o.st.facts, r.o.st.facts, 0)
		f := j.facts()
		if !f.satisfiable() {
			continue
		}
		if failed {
			if debugEngine {
				fmt.Println("SUMS")
				for h, v := range w.sums {
					fmt.Println("  ", h, "=", v)
				}
				fmt.Println("FAILED", label, msg)
				for _, l := range r.o.st.facts.lits {
					fmt.Println("   lit", l, "=>", j.simp(f, l))
				}
				for _, l := range f.lits {
					fmt.Println("   joint", l)
				}
			}
			// what was decoded until the failure is bound as far as it agrees
			c.Obl("reads", label, false, r.o.pos, fmt.Sprintf("%s rejects what %s wrote", k.r.Name, k.w.Name))
			continue
		}
		if msg != "" {
			msgs = append(msgs, msg)
			pos = r.o.pos
			continue
		}
		good++
		c.Obl("layout", label, true, k.r.Pos, "")
		c.Count("items matched", j.items)
		// all bytes
		total, end := k.canon(w, w.total), k.canon(w, we)
		c.Obl("size", label, total == end || w.o.st.facts.implied(tEq(total, end)), k.w.Pos, fmt.Sprintf("%v bytes are produced but %v filled in", total, end))
		// fields
		e := r.e
		okFields := true
		for _, fl := range k.t.Fields {
			a := fieldAddr(k.recv, k.t, fl.Name)
			want := w.e.load(newState(), a, fl.Typ)
			if !k.decoded[fl.Name] {
				if k.isConfig(fl) {
					continue
				}
				c.Obl("field", label+"."+fl.Name, false, k.r.Pos, "the field is never decoded")
				okFields = false
				continue
			}
			got := e.load(r.o.st, a, fl.Typ)
			j.compare(fl.Name, f, r.o.st, got, want, fl.Typ, r.nodes, 0, func(p, m string) {
				okFields = false
				c.Obl("field", label+"."+p, false, k.r.Pos, "the field "+m)
			})
		}
		if okFields {
			c.Obl("field", label, true, k.r.Pos, "")
		}
	}
	if good == 0 {
		m := "no path of the decoder accepts it"
		if len(msgs) > 0 {
			m = strings.Join(msgs, "; ")
		}
		c.Obl("layout", label, false, pos, m)
	} else if len(msgs) > 0 {
		c.Obl("layout", label, false, pos, strings.Join(msgs, "; "))
	}
}

// isConfig: the field is given to the structure by whoever decodes it, or used
// by neither side.
func (k *codec) isConfig(fl TField) bool {
	if !k.usesField(k.w, fl.Name) && !k.usesField(k.r, fl.Name) {
		if k.sh != nil {
			return true
		}
		return false
	}
	set := false
	for _, f := range k.g.all {
		if f == k.w || f == k.r || f.Pkg == "mocks" {
			continue
		}
		decodes := false
		eachInstr(f, func(in *Instr) {
			if in.Call != nil && (in.Call.Fn == k.r || in.Call.Short == "UnmarshalBinary") {
				decodes = true
			}
		})
		if !decodes {
			continue
		}
		eachInstr(f, func(in *Instr) {
			if in.Op == OpFieldAddr && in.Str == fl.Name && in.OpT != nil {
				t := in.OpT
				if t.Kind == "ptr" {
					t = t.Elem
				}
				set = set || t.String() == k.t.String()
			}
		})
	}
	return set
}

func runC06(c *Ctx) {
	g := c.Prog("", "")
	shapes := treeShapes(g)
	n := 0
	sizers := map[*Func]bool{}
	for _, r := range g.methodsNamed("UnmarshalBinary") {
		if r.Pkg == "mocks" || len(r.ParamT) != 2 || r.ParamT[0].Kind != "ptr" || r.ParamT[0].Elem.Kind != "struct" {
			continue
		}
		t := r.ParamT[0].Elem
		w := g.methodOf(t, "MarshalBinary")
		if w == nil {
			c.Missing("layout", "a MarshalBinary for "+t.String())
			continue
		}
		c.Fn(w)
		c.Fn(r)
		k := &codec{c: c, g: g, t: t, w: w, r: r, decoded: map[string]bool{}, sizers: sizers}
		for _, sh := range shapes {
			if sh.nodeT.String() == t.String() {
				k.sh = sh
			}
		}
		if w.ParamT[0].Kind != "ptr" {
			c.Obl("layout", t.String(), false, w.Pos, "MarshalBinary with a value receiver is not understood")
			continue
		}
		k.run()
		n++
	}
	for f := range sizers {
		ok, _, why := varintSizer(f)
		if f.Pkg == "encoding" || ok {
			c.Fn(f)
			c.Obl("varint", f.Name, ok, f.Pos, "the size of a varint "+why)
		}
	}
	for _, f := range g.all {
		if f.Pkg != "encoding" || f.Recv != "" || len(f.ParamT) != 1 || len(f.Results) != 1 || f.ParamT[0].Kind != "int" || f.Results[0].Kind != "int" {
			continue
		}
		if _, done := sizers[f]; !done {
			ok, _, why := varintSizer(f)
			c.Fn(f)
			c.Obl("varint", f.Name, ok, f.Pos, "the size of a varint "+why)
		}
	}
	if n == 0 {
		c.Missing("layout", "any structure with MarshalBinary and UnmarshalBinary")
	}
	c.Min("layout", 2)
	c.Min("field", 2)
	c.Min("size", 2)
}

func init() {
	register(&Check{
		ID:    "C06",
		Title: "what a structure's encoder writes, its decoder reads back",
		Rules: "For every structure with MarshalBinary and UnmarshalBinary (file metadata, index metadata, both kinds of tree node), in every shape it can have (leaf or inner, fixed or variable width): (writes) the encoder succeeds and changes nothing it encodes; (layout) walking encoder and decoder in step from byte 0, every item the decoder takes up - number, varint, raw bytes, list of items - begins exactly where the encoder's item begins, has the same kind, byte order, length and number of entries; (size) the bytes produced are exactly the bytes filled in; (field) substituting what was encoded for what is decoded, every field down to each entry of each list, and no other, has its original value; a variable width key is what the parser makes of exactly the key's own extent in the data file; (reads) no path of the decoder rejects what the encoder wrote; (varint) the size computed for a varint is its length, for each of the 2^64 values.",
		Trust: []string{"Go type checker and go/ssa construction", "encoding/binary writes and reads the formats it documents", "a key's value is as long as its tree's fixed width, a vector as long as its node's dimension, a field name at most 255 bytes", "the parser yields the value the key was inserted with (variable width)"},
		Run:   runC06,
	})
}
