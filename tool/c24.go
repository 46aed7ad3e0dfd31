package main

// C24: searches descend to the right leaf, iterators visit neighbours, and a
// lookup returns a key with the value stored beside it.

import (
	"fmt"
	"strings"
)

type treeRun struct {
	c      *Ctx
	g      *GoProg
	sh     *treeShape
	reads  map[*Func]bool // read one node from its page
	iterT  *Type
	recF   string // the iterator's descent
	stepFn *Func
	level  int // kind of the nodes read: 0 unknown, 1 leaves, 2 inner nodes
}

func (t *treeRun) isNode(x *Type) bool {
	return x != nil && x.Kind == "ptr" && x.Elem.String() == t.sh.nodeT.String()
}

func (t *treeRun) valueCol() TField {
	for _, c := range t.sh.cols {
		if c.Typ.Elem.String() == t.sh.insert.ParamT[2].String() {
			return c
		}
	}
	return TField{}
}

func (t *treeRun) colType(name string) *Type { return t.sh.nodeT.field(name) }

// numPointers of a node whose kind is decided.
func (t *treeRun) numPointers(cols map[string][2]*Term, leaf bool) *Term {
	if leaf {
		return lenOf(cols[t.sh.keyCol][0])
	}
	return lenOf(cols[t.sh.child][0])
}

func newTreeRun(c *Ctx, g *GoProg, sh *treeShape) *treeRun {
	t := &treeRun{c: c, g: g, sh: sh, reads: map[*Func]bool{}}
	for _, f := range g.all {
		if f.Pkg != sh.insert.Pkg {
			continue
		}
		if callsNode(f, "UnmarshalBinary", sh.nodeT) && len(f.Results) > 0 && t.isNode(f.Results[0]) {
			t.reads[f] = true
		}
		if len(f.ParamT) == 0 || f.ParamT[0].Kind != "ptr" || f.ParamT[0].Elem.Kind != "struct" {
			continue
		}
		it := f.ParamT[0].Elem
		for _, fl := range it.Fields {
			if fl.Typ.Kind == "slice" && fl.Typ.Elem.String() == sh.recT.String() {
				t.iterT, t.recF = it, fl.Name
				if len(f.ParamT) == 3 && len(f.Results) == 1 && f.Results[0].Kind == "bool" {
					t.stepFn = f
				}
			}
		}
	}
	return t
}

func callsFn(f, to *Func) bool {
	r := false
	eachInstr(f, func(in *Instr) {
		if in.Op == OpCall && in.Call.Fn == to {
			r = true
		}
	})
	return r
}

func callsNode(f *Func, short string, nodeT *Type) bool {
	r := false
	eachInstr(f, func(in *Instr) {
		if in.Op == OpCall && in.Call.Fn != nil && in.Call.Fn.Short == short && len(in.Call.Fn.ParamT) > 0 && in.Call.Fn.ParamT[0].Kind == "ptr" && in.Call.Fn.ParamT[0].Elem.String() == nodeT.String() {
			r = true
		}
	})
	return r
}

func eachInstr(f *Func, do func(*Instr)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

// client models the tree around one function: storage, node reads, descents, steps.
func (t *treeRun) client(self *Func) *Client {
	sh := t.sh
	cl := &Client{Inline: func(fn *Func) bool { return fn.Pkg == sh.insert.Pkg }}
	prefix := sh.nodeT.String() + "."
	see := func(e *Engine, st *State, addr *Term) {
		if addr.op != TFld || !strings.HasPrefix(fldKeyOf[addr], prefix) {
			return
		}
		node := addr.args[0]
		if node.op == TObj {
			return
		}
		ev := sh.see(e, st, node)
		if ev == nil {
			return
		}
		if rec, idx, ok := sh.pathRec(node); ok {
			x := mkField(rec, sh.idxF, tIntT)
			cols := sh.seenCols(ev)
			if st.facts.implied(tLe(tOne, idx)) {
				sh.assumeShape(st, cols, false)
			} else if st.facts.implied(tEq(idx, tZero)) {
				sh.assumeShape(st, cols, true)
			}
			_ = x
		}
	}
	cl.OnLoad = func(e *Engine, st *State, addr *Term, in *Instr) { see(e, st, addr) }
	cl.OnStore = func(e *Engine, st *State, addr, val *Term, in *Instr) { see(e, st, addr) }
	cl.OnBranch = func(e *Engine, st *State, cnd *Term, taken bool, in *Instr) { sh.branch(st) }
	fail := func(st *State, what string, n int, pos string) Outcome {
		s2 := st.clone()
		s2.emit(&Event{Kind: "io-failed", Str: what, Pos: pos})
		fr := make([]*Term, n)
		for i := range fr {
			fr[i] = tNil
		}
		fr[n-1] = freshErr(what)
		return Outcome{st: s2, res: fr}
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		fn := cc.Fn
		if fn != nil && fn == self {
			st.emit(&Event{Kind: "recurse", A: append([]*Term{}, cc.Args...), Pos: cc.Pos})
			if sh.pathFns[fn] {
				p := mkSym("subpath", &Type{Kind: "slice", Elem: sh.recT})
				st.facts.assume(tLe(tOne, lenOf(p)))
				st.trace[len(st.trace)-1].A = append(st.trace[len(st.trace)-1].A, p)
				o := fail(st, "recursion", len(fn.Results), cc.Pos)
				return []Outcome{{st: st, res: []*Term{p, tNil}}, o}, true
			}
		}
		if fn != nil && fn == t.stepFn {
			if fn != self {
				v := e.load(st, fieldAddr(cc.Args[0], t.iterT, t.recF), t.iterT.field(t.recF))
				r0 := e.seqAt(st.facts, e.sliceSeq(st, v, sh.recT), tZero, sh.recT)
				st.emit(&Event{Kind: "leafpos", A: []*Term{mkField(r0, sh.idxF, tIntT)}})
				st.emit(&Event{Kind: "step", A: append([]*Term{}, cc.Args...), Pos: cc.Pos})
			}
			t.stepEffect(e, st, cc)
			s2 := st.clone()
			s2.emit(&Event{Kind: "no-step", Pos: cc.Pos})
			return []Outcome{{st: st, res: []*Term{tTrue}}, {st: s2, res: []*Term{tFalse}}}, true
		}
		if fn != nil && sh.pathFns[fn] && fn != self {
			p := mkSym("descent", &Type{Kind: "slice", Elem: sh.recT})
			st.facts.assume(tLe(tOne, lenOf(p)))
			r0 := mkApp("elem", sh.recT, e.sliceSeq(st, p, sh.recT), tZero)
			n0 := mkField(r0, sh.nodeF, ptrTo(sh.nodeT))
			x := mkField(r0, sh.idxF, tIntT)
			st.facts.assume(tLe(tZero, x))
			st.facts.assume(tNot(tEq(n0, tNil)))
			if ev := sh.see(e, st, n0); ev != nil {
				cols := sh.seenCols(ev)
				sh.assumeShape(st, cols, true)
				st.facts.assume(tLe(x, lenOf(cols[sh.keyCol][0])))
			}
			st.emit(&Event{Kind: "descend", A: append([]*Term{p}, cc.Args...), Pos: cc.Pos})
			o := fail(st, "descent", len(fn.Results), cc.Pos)
			return []Outcome{{st: st, res: []*Term{p, tNil}}, o}, true
		}
		if fn != nil && t.reads[fn] && fn != self {
			n := mkSym("node", ptrTo(sh.nodeT))
			st.facts.assume(tNot(tEq(n, tNil)))
			var off *Term
			for i, p := range fn.ParamT {
				if isMemPtr(p) {
					off = mkField(cc.Args[i], "Offset", tU64T)
				} else if p.Kind == "int" && p.Bits == 64 {
					off = cc.Args[i]
				}
			}
			if off == nil {
				return nil, false
			}
			st.emit(&Event{Kind: "readnode", A: []*Term{off, n}, Pos: cc.Pos})
			o := fail(st, "readnode", len(fn.Results), cc.Pos)
			if t.level > 0 {
				if ev := sh.see(e, st, n); ev != nil {
					sh.assumeShape(st, sh.seenCols(ev), t.level == 1)
				}
			}
			res := []*Term{n}
			for len(res) < len(fn.Results)-1 {
				res = append(res, mkSym("readnode.r", fn.Results[len(res)]))
			}
			return []Outcome{{st: st, res: append(res, tNil)}, o}, true
		}
		if fn != nil && len(fn.ParamT) > 0 && t.isNode(fn.ParamT[0]) && fn.Short == "UnmarshalBinary" {
			node := cc.Args[0]
			a := []*Term{node, e.sliceSeq(st, cc.Args[1], byteT), lenOf(cc.Args[1])}
			for _, fl := range sh.sharedFields() {
				a = append(a, e.load(st, fieldAddr(node, sh.nodeT, fl.Name), fl.Typ))
			}
			st.emit(&Event{Kind: "decode", A: a, Pos: cc.Pos})
			o := fail(st, "decode", 1, cc.Pos)
			return []Outcome{{st: st, res: []*Term{tNil}}, o}, true
		}
		pager := cc.In.Call.Invoke && fn == nil || fn != nil && (fn.Pkg == "pagefile" || fn.Pkg == "linkedpage")
		if !pager {
			return nil, false
		}
		switch cc.Short {
		case "PageSize":
			return one(st, rng(mkNamed("pagesize", tIntT), 64, 1<<20)), true
		case "Seek":
			st.emit(&Event{Kind: "seek", A: []*Term{cc.Args[1], cc.Args[2]}, Pos: cc.Pos})
			o := fail(st, "seek", 2, cc.Pos)
			o.res[0] = tZero
			return []Outcome{{st: st, res: []*Term{cc.Args[1], tNil}}, o}, true
		case "Read":
			n := lenOf(cc.Args[1])
			v := seqVar(fmt.Sprintf("page#%d", len(st.trace)), n)
			b, off, _ := sliceParts(cc.Args[1])
			if off == tZero {
				st.seq[b] = v
			}
			st.emit(&Event{Kind: "read", A: []*Term{v, n}, Pos: cc.Pos})
			o := fail(st, "read", 2, cc.Pos)
			o.res[0] = tZero
			return []Outcome{{st: st, res: []*Term{n, tNil}}, o}, true
		case "Root":
			mp := mkSym("storedroot", t.g.typ(t.g.named[memPtr]))
			st.emit(&Event{Kind: "root", A: []*Term{mp}, Pos: cc.Pos})
			o := fail(st, "root", 2, cc.Pos)
			o.res[0] = mkSym("noroot", t.g.typ(t.g.named[memPtr]))
			return []Outcome{{st: st, res: []*Term{mp, tNil}}, o}, true
		case "Write", "NewPage", "FreePage", "SetRoot":
			st.emit(&Event{Kind: "change", Str: cc.Short, Pos: cc.Pos})
		}
		return nil, false
	}
	return cl
}

// stepEffect: a step may move every record from the given level upwards.
func (t *treeRun) stepEffect(e *Engine, st *State, cc *CallCtx) {
	addr := fieldAddr(cc.Args[0], t.iterT, t.recF)
	v := e.load(st, addr, t.iterT.field(t.recF))
	b, off, _ := sliceParts(v)
	s := e.sliceSeq(st, v, t.sh.recT)
	n := seqLen(s)
	lo := cc.Args[1]
	tail := seqVar(fmt.Sprintf("stepped#%d", len(st.trace)), tSub(n, lo))
	if off == tZero {
		st.seq[b] = e.seqCat(st.facts, e.seqSub(st.facts, s, tZero, lo), tail)
	}
	// a successful step leaves a legal position
	r := mkApp("elem", t.sh.recT, tail, tZero)
	st.facts.assume(tNot(tEq(mkField(r, t.sh.nodeF, ptrTo(t.sh.nodeT)), tNil)))
	st.facts.assume(tLe(tZero, mkField(r, t.sh.idxF, tIntT)))
	if ev := t.sh.see(e, st, mkField(r, t.sh.nodeF, ptrTo(t.sh.nodeT))); ev != nil {
		leaf := st.facts.implied(tEq(lo, tZero))
		if leaf || st.facts.implied(tLe(tOne, lo)) {
			t.sh.assumeShape(st, t.sh.seenCols(ev), leaf)
			st.facts.assume(tLt(mkField(r, t.sh.idxF, tIntT), t.numPointers(t.sh.seenCols(ev), leaf)))
		}
	}
}

func seenOf(tr []*Event, node *Term) *Event {
	for _, e := range tr {
		if e.Kind == "seen" && e.A[0] == node {
			return e
		}
	}
	return nil
}

func evsOf(st *State, kind string) []*Event {
	var r []*Event
	for _, e := range st.trace {
		if e.Kind == kind {
			r = append(r, e)
		}
	}
	return r
}

// searched: the position a search of keys for key gives, and whether it was found.
func searched(f *Facts, keys, key *Term) (pos *Term, found, missing bool) {
	for _, l := range f.lits {
		subterms(l, map[*Term]bool{}, func(x *Term) {
			if x.op == TApp && x.s == "bfound" && len(x.args) >= 2 && seqSame(f, x.args[0], keys) && extentSame(f, x.args[1], key) {
				pos = mkApp("bsearch", tIntT, x.args...)
				found = found || f.implied(x)
				missing = missing || f.refuted(x)
			}
		})
	}
	return
}

func (t *treeRun) okPath(o Outcome, f *Func) bool {
	if o.panic {
		return false
	}
	i := errResult(f.Results)
	return i < 0 || !o.st.facts.refuted(tEq(o.res[i], tNil))
}

// readRule: the node returned was decoded from the page at the pointer given.
func (t *treeRun) readRule(f *Func) {
	c, sh := t.c, t.sh
	c.Fn(f)
	args := symArgs(f)
	e := newEngine(t.g, t.client(f))
	outs := e.Run(f, args, nil, newState())
	c.Problems(e, f.Name)
	var off *Term
	for i, p := range f.ParamT {
		if isMemPtr(p) {
			off = mkField(args[i], "Offset", tU64T)
		} else if p.Kind == "int" && p.Bits == 64 {
			off = args[i]
		}
	}
	rootFn := off == nil
	for _, o := range outs {
		if !t.okPath(o, f) {
			continue
		}
		st := o.st
		fc := st.facts
		if len(evsOf(st, "io-failed")) > 0 {
			continue // C01
		}
		if o.res[0] == tNil {
			continue
		}
		want := off
		if rootFn {
			if r := evsOf(st, "root"); len(r) > 0 {
				want = mkField(r[0].A[0], "Offset", tU64T)
			}
		}
		ok, msg := false, "a node is returned that was not decoded from a page"
		d := evsOf(st, "decode")
		if len(d) == 1 && want != nil {
			msg = "the node is not decoded from the page it was asked for"
			seek, page, n := (*Term)(nil), (*Term)(nil), (*Term)(nil)
			for _, ev := range st.trace {
				switch ev.Kind {
				case "seek":
					seek = nil
					if ev.A[1] == tZero {
						seek = ev.A[0]
					}
				case "read":
					if seek != nil && fc.implied(tEq(unwrapInt(seek), want)) {
						page, n = ev.A[0], ev.A[1]
					} else {
						page = nil
					}
					seek = nil
				}
			}
			ok = page != nil && seqSame(fc, d[0].A[1], page) && d[0].A[0] == o.res[0]
			if ok && !fc.implied(tLe(mkNamed("pagesize", tIntT), n)) {
				ok, msg = false, "less than a page is read for a node"
			}
			if ok {
				for i, fl := range sh.sharedFields() {
					w := e.load(st, fieldAddr(args[0], sh.insert.ParamT[0].Elem, fl.Name), fl.Typ)
					if d[0].A[3+i] != w && !fc.implied(tEq(d[0].A[3+i], w)) {
						ok, msg = false, fmt.Sprintf("the node is decoded with %s %v instead of the tree's", fl.Name, d[0].A[3+i])
					}
				}
			}
		}
		c.Obl("read", f.Name, ok, o.pos, msg)
	}
}

// descentRule: which child is read at each level, and what is recorded.
func (t *treeRun) descentRule(f *Func) {
	c, sh := t.c, t.sh
	c.Fn(f)
	args := symArgs(f)
	cl := t.client(f)
	cl.OnBounds = boundsHook(c, "in-range", f.Name, map[*Instr]string{})
	var key, node, ptr *Term
	for i, p := range f.ParamT {
		switch {
		case p.String() == t.colType(sh.keyCol).Elem.String():
			key = args[i]
		case t.isNode(p):
			node = args[i]
		case isMemPtr(p):
			ptr = args[i]
		}
	}
	if key == nil {
		c.Missing("descent", f.Name+": the key to search for")
		return
	}
	rec := callsFn(f, f)
	children := func(st *State) {
		for _, r := range evsOf(st, "readnode") {
			ok, msg := t.childRead(st, r, key)
			c.Obl("child", f.Name, ok, r.Pos, msg)
		}
	}
	cl.OnBack = func(e *Engine, st *State, fn *Func, h int) {
		if e.dry == 0 {
			children(st)
		}
	}
	e := newEngine(t.g, cl)
	outs := e.Run(f, args, nil, newState())
	c.Problems(e, f.Name)
	for _, o := range outs {
		if !t.okPath(o, f) || len(evsOf(o.st, "io-failed")) > 0 {
			continue
		}
		fc := o.st.facts
		children(o.st)
		if !rec || node == nil || ptr == nil {
			continue
		}
		ev := seenOf(o.st.trace, node)
		if ev == nil {
			c.Obl("descent", f.Name, false, o.pos, "a descent ends without looking at the node")
			continue
		}
		cols := sh.seenCols(ev)
		leaf, dec := sh.leafness(o.st, cols)
		if !dec {
			c.Obl("descent", f.Name, false, o.pos, "the descent does not depend on whether the node is a leaf")
			continue
		}
		pos, found, missing := searched(fc, cols[sh.keyCol][1], key)
		res := e.sliceSeq(o.st, o.res[0], sh.recT)
		mine := func(idx *Term) *Term {
			var fs []*Term
			for _, fl := range sh.recT.Fields {
				switch fl.Name {
				case sh.nodeF:
					fs = append(fs, node)
				case sh.idxF:
					fs = append(fs, idx)
				case sh.ptrF:
					fs = append(fs, ptr)
				default:
					fs = append(fs, mkSym("other", fl.Typ))
				}
			}
			return mkAgg(sh.recT, fs)
		}
		if leaf {
			if pos == nil {
				// the position may not depend on whether the key was found
				pos = bsearchIn(fc, res, cols[sh.keyCol][1], key)
			}
			ok := pos != nil && seqSame(fc, res, mkApp("cat", nil, mkApp("unit", nil, mine(pos)))) && len(evsOf(o.st, "readnode")) == 0
			c.Obl("descent", f.Name+": leaf", ok, o.pos, fmt.Sprintf("at a leaf the descent returns %v instead of the leaf, the key's position and the leaf's page", res))
			continue
		}
		ok, msg := false, "at an inner node the descent does not read exactly one child and continue there"
		rd, rc := evsOf(o.st, "readnode"), evsOf(o.st, "recurse")
		if len(rd) == 1 && len(rc) == 1 && pos != nil && (found || missing) {
			idx := pos
			if found {
				idx = tAddK(pos, 1)
			}
			var k2, n2, p2 *Term
			for i, p := range f.ParamT {
				switch {
				case p.String() == t.colType(sh.keyCol).Elem.String():
					k2 = rc[0].A[i]
				case t.isNode(p):
					n2 = rc[0].A[i]
				case isMemPtr(p):
					p2 = rc[0].A[i]
				}
			}
			sub := rc[0].A[len(rc[0].A)-1]
			want := e.seqCat(fc, e.sliceSeq(o.st, sub, sh.recT), mkApp("unit", nil, mine(idx)))
			switch {
			case !extentSame(fc, k2, key):
				msg = "the descent continues with another key"
			case n2 != rd[0].A[1]:
				msg = "the descent continues in another node than the child read"
			case !fc.implied(tEq(mkField(p2, "Offset", tU64T), rd[0].A[0])):
				msg = "the child is recorded at another page than it was read from"
			case !seqSame(fc, res, want):
				msg = fmt.Sprintf("the descent returns %v instead of the child's path followed by this node and the index of the child", res)
			default:
				ok = true
			}
		}
		c.Obl("descent", f.Name+": inner node", ok, o.pos, msg)
	}
}

func bsearchIn(f *Facts, in, keys, key *Term) *Term {
	var r *Term
	subterms(in, map[*Term]bool{}, func(x *Term) {
		if x.op == TApp && x.s == "bsearch" && len(x.args) >= 2 && seqSame(f, x.args[0], keys) && extentSame(f, x.args[1], key) {
			r = x
		}
	})
	return r
}

// childRead: the page read is the child the key belongs to.
func (t *treeRun) childRead(st *State, r *Event, key *Term) (bool, string) {
	off := r.A[0]
	f := st.facts
	for _, ev := range st.trace {
		if ev.Kind != "seen" {
			continue
		}
		cols := t.sh.seenCols(ev)
		pos, found, missing := searched(f, cols[t.sh.keyCol][1], key)
		if pos == nil {
			continue
		}
		ch := cols[t.sh.child]
		e := &Engine{}
		at := func(i *Term) *Term { return e.atomAt(ch[1], i, tU64T) }
		if found && f.implied(tEq(off, at(tAddK(pos, 1)))) || missing && f.implied(tEq(off, at(pos))) {
			return true, ""
		}
		// a search of this node decided the child, wrongly
	}
	return false, fmt.Sprintf("the page read is %v, not the child whose range holds the key (the one at the searched position, or the next one if the key was found)", off)
}

// stepRule: moving one record to its neighbour, by induction over the levels.
func (t *treeRun) stepRule() {
	c, sh, f := t.c, t.sh, t.stepFn
	c.Fn(f)
	for _, cfg := range [][2]int64{{1, 0}, {-1, 0}, {1, 1}, {-1, 1}} {
		delta, leafLevel := cfg[0], cfg[1] == 0
		args := symArgs(f)
		args[2] = mkInt(delta)
		if leafLevel {
			args[1] = tZero
		}
		dir := "forward"
		if delta < 0 {
			dir = "backward"
		}
		st := newState()
		e := newEngine(t.g, t.client(f))
		itv := e.load(st, fieldAddr(args[0], t.iterT, t.recF), t.iterT.field(t.recF))
		S := e.sliceSeq(st, itv, sh.recT)
		i := args[1]
		st.facts.assume(tLe(tOne, lenOf(itv)))
		if !leafLevel {
			st.facts.assume(tLe(tOne, i))
		}
		st.facts.assume(tLe(i, lenOf(itv)))
		rec := mkApp("elem", sh.recT, S, i)
		node := mkField(rec, sh.nodeF, ptrTo(sh.nodeT))
		old := mkField(rec, sh.idxF, tIntT)
		if ev := sh.see(e, st, node); ev != nil {
			cols := sh.seenCols(ev)
			sh.assumeShape(st, cols, leafLevel)
			n := t.numPointers(cols, leafLevel)
			if leafLevel {
				// an entry, or one step beyond either end
				st.facts.assume(tLe(mkInt(-1), old))
				st.facts.assume(tLe(old, n))
			} else {
				st.facts.assume(tLe(tZero, old))
				st.facts.assume(tLt(old, n))
			}
		}
		t.level = 2
		if leafLevel {
			t.level = 1
		}
		outs := e.Run(f, args, nil, st)
		t.level = 0
		c.Problems(e, f.Name)
		for _, o := range outs {
			fc := o.st.facts
			if o.panic || len(evsOf(o.st, "io-failed")) > 0 {
				continue
			}
			now := e.sliceSeq(o.st, e.load(o.st, fieldAddr(args[0], t.iterT, t.recF), nil), sh.recT)
			got := e.seqAt(fc, now, i, sh.recT)
			gn, gi := mkField(got, sh.nodeF, ptrTo(sh.nodeT)), mkField(got, sh.idxF, tIntT)
			rc, rd := evsOf(o.st, "recurse"), evsOf(o.st, "readnode")
			nostep := len(evsOf(o.st, "no-step")) > 0
			yes, no := o.res[0] == tTrue || fc.implied(o.res[0]), o.res[0] == tFalse || fc.refuted(o.res[0])
			lim := func(n *Term) (*Term, bool) {
				ev := seenOf(o.st.trace, n)
				if ev == nil {
					return nil, false
				}
				cols := sh.seenCols(ev)
				if leaf, dec := sh.leafness(o.st, cols); dec {
					return t.numPointers(cols, leaf), true
				}
				return nil, false
			}
			what := fmt.Sprintf("%s: %s", f.Name, dir)
			switch {
			case yes && len(rc) == 0:
				n, ok := lim(node)
				ok = ok && gn == node && fc.implied(tEq(gi, tAddK(old, delta))) && fc.implied(tLe(tZero, gi)) && fc.implied(tLt(gi, n)) && len(rd) == 0
				c.Obl("step", what+" within a node", ok, o.pos, fmt.Sprintf("a step that stays in its node goes from entry %v to %v, which need not be its neighbour", old, gi))
			case yes:
				n0, ok := lim(node)
				ok = ok && !nostep && len(rc) == 1 && len(rd) == 1 && fc.implied(tEq(rc[0].A[1], tAddK(i, 1))) && fc.implied(tEq(rc[0].A[2], mkInt(delta)))
				msg := "crossing to another node does not move the parent one step in the same direction and read its child"
				if ok {
					if delta > 0 {
						ok = fc.implied(tLe(n0, tAddK(old, delta)))
					} else {
						ok = fc.implied(tLt(tAddK(old, delta), tZero))
					}
					msg = "a step leaves a node before its last entry was visited"
				}
				if ok {
					// the child the moved parent now points at
					p := e.seqAt(fc, now, tAddK(i, 1), sh.recT)
					pn, pi := mkField(p, sh.nodeF, ptrTo(sh.nodeT)), mkField(p, sh.idxF, tIntT)
					pc := seenOf(o.st.trace, pn)
					ok = pc != nil && fc.implied(tEq(rd[0].A[0], e.atomAt(sh.seenCols(pc)[sh.child][1], pi, tU64T)))
					msg = "the node read is not the one the moved parent points at"
				}
				if ok {
					n, have := lim(gn)
					ok = have && gn == rd[0].A[1]
					if delta > 0 {
						ok = ok && fc.implied(tEq(gi, tZero))
					} else {
						ok = ok && fc.implied(tEq(gi, tAddK(n, -1)))
					}
					msg = fmt.Sprintf("after crossing to another node the position is %v, not its nearest entry", gi)
				}
				c.Obl("step", what+" into another node", ok, o.pos, msg)
			case no && nostep:
				n, ok := lim(node)
				ok = ok && gn == node && fc.implied(tLe(mkInt(-1), gi)) && fc.implied(tLe(gi, n))
				if ok && !leafLevel {
					ok = fc.implied(tEq(gi, old))
				}
				// the legal positions are the entries and one step beyond them
				c.Obl("end", what, ok, o.pos, fmt.Sprintf("a step beyond the last node leaves the position %v, from which turning around goes wrong", gi))
			case no:
				c.Obl("end", what+" above the root", fc.implied(tEq(i, lenOf(itv))) || len(rd)+len(rc) == 0 && fc.implied(tLe(lenOf(itv), i)), o.pos, "a step is refused although a neighbour may exist")
			default:
				c.Obl("step", what, false, o.pos, "a step's result is undecided")
			}
		}
	}
}

// startRule: how an iterator positions itself and uses steps.
func (t *treeRun) startRule(f *Func, delta int64) {
	c, sh := t.c, t.sh
	c.Fn(f)
	args := symArgs(f)
	e := newEngine(t.g, t.client(f))
	st := newState()
	recs := e.load(st, fieldAddr(args[0], t.iterT, t.recF), t.iterT.field(t.recF))
	key := (*Term)(nil)
	for _, fl := range t.iterT.Fields {
		if fl.Typ.String() == t.colType(sh.keyCol).Elem.String() {
			key = e.load(st, fieldAddr(args[0], t.iterT, fl.Name), fl.Typ)
		}
	}
	outs := e.Run(f, args, nil, st)
	c.Problems(e, f.Name)
	for _, o := range outs {
		fc := o.st.facts
		if o.panic || len(evsOf(o.st, "io-failed")) > 0 || len(o.res) == 0 {
			continue
		}
		fresh := fc.implied(tEq(recs, tNil))
		steps, desc := evsOf(o.st, "step"), evsOf(o.st, "descend")
		nostep := len(evsOf(o.st, "no-step")) > 0
		yes, no := o.res[0] == tTrue || fc.implied(o.res[0]), o.res[0] == tFalse || fc.refuted(o.res[0])
		stepOK := func(s *Event) bool {
			return s.A[0] == args[0] && fc.implied(tEq(s.A[1], tZero)) && fc.implied(tEq(s.A[2], mkInt(delta)))
		}
		switch {
		case !yes && !no:
			c.Obl("start", f.Name, false, o.pos, "the result of moving the iterator is undecided")
		case !fresh:
			ok := len(steps) == 1 && len(desc) == 0 && stepOK(steps[0]) && yes == !nostep
			c.Obl("start", f.Name+": moving on", ok, o.pos, "moving an iterator is not exactly one step in its direction")
		case len(desc) == 0:
			// only an empty tree
			r := evsOf(o.st, "root")
			ok := no && len(r) == 1 && fc.implied(tEq(mkField(r[0].A[0], "Length", tU32T), tZero))
			c.Obl("start", f.Name+": empty tree", ok, o.pos, "a search ends before looking at a tree that may not be empty")
		default:
			d := desc[0]
			ok := len(desc) == 1
			msg := "the search does not descend once from the root for its key"
			var k *Term
			for i := range d.A[1:] {
				if x := d.A[1+i]; x.typ != nil && key != nil && x.typ.String() == key.typ.String() || x == key {
					k = x
				}
			}
			ok = ok && key != nil && k != nil && extentSame(fc, k, key)
			r0 := mkApp("elem", sh.recT, e.sliceSeq(newState(), d.A[0], sh.recT), tZero)
			n0, x0 := mkField(r0, sh.nodeF, ptrTo(sh.nodeT)), mkField(r0, sh.idxF, tIntT)
			ev := seenOf(o.st.trace, n0)
			if ok && ev != nil {
				nk := lenOf(sh.seenCols(ev)[sh.keyCol][0])
				if len(steps) == 0 {
					now := e.sliceSeq(o.st, e.load(o.st, fieldAddr(args[0], t.iterT, t.recF), nil), sh.recT)
					got := e.seqAt(fc, now, tZero, sh.recT)
					ok = delta > 0 && yes && fc.implied(tLt(x0, nk)) && fc.implied(tEq(mkField(got, sh.idxF, tIntT), x0)) && mkField(got, sh.nodeF, ptrTo(sh.nodeT)) == n0
					msg = "a search that does not move stops elsewhere than at an entry of the leaf"
				} else {
					at := t.idxAtStep(o.st, steps[0])
					ok = len(steps) == 1 && stepOK(steps[0]) && yes == !nostep && at != nil
					msg = "the first move of a search is not one step in its direction"
					if ok && delta > 0 {
						ok = fc.implied(tEq(at, tAddK(nk, -1))) && fc.implied(tLe(nk, x0))
						msg = fmt.Sprintf("a search whose key sorts after its leaf continues from position %v instead of the leaf's last entry", at)
					} else if ok {
						ok = fc.implied(tEq(at, x0))
						msg = fmt.Sprintf("moving back from a search starts at position %v instead of the key's", at)
					}
				}
			}
			c.Obl("start", f.Name+": search", ok, o.pos, msg)
		}
	}
}

// idxAtStep: the leaf position when the step was taken.
func (t *treeRun) idxAtStep(st *State, s *Event) *Term {
	for i, ev := range st.trace {
		if ev == s {
			for j := i - 1; j >= 0; j-- {
				if st.trace[j].Kind == "leafpos" {
					return st.trace[j].A[0]
				}
			}
		}
	}
	return nil
}

// pairRule: the key and value a lookup returns are stored at one position.
func (t *treeRun) pairRule(f *Func) {
	c, sh := t.c, t.sh
	vc := t.valueCol()
	ki, vi := -1, -1
	for i, r := range f.Results {
		if r.String() == t.colType(sh.keyCol).Elem.String() {
			ki = i
		} else if r.String() == vc.Typ.Elem.String() {
			vi = i
		}
	}
	if ki < 0 || vi < 0 {
		return
	}
	c.Fn(f)
	args := symArgs(f)
	var key *Term
	for i, p := range f.ParamT {
		if p.String() == t.colType(sh.keyCol).Elem.String() {
			key = args[i]
		}
	}
	e := newEngine(t.g, t.client(f))
	outs := e.Run(f, args, nil, newState())
	c.Problems(e, f.Name)
	for _, o := range outs {
		if !t.okPath(o, f) || len(evsOf(o.st, "io-failed")) > 0 {
			continue
		}
		fc := o.st.facts
		d := evsOf(o.st, "descend")
		if len(d) == 0 {
			// nothing found: only in an empty tree
			r := evsOf(o.st, "root")
			ok := len(r) > 0 && fc.implied(tEq(mkField(r[0].A[0], "Length", tU32T), tZero))
			c.Obl("lookup", f.Name+": empty tree", ok, o.pos, "a lookup answers without searching a tree that may not be empty")
			continue
		}
		if len(evsOf(o.st, "no-step")) > 0 {
			continue // no entry at or after the key
		}
		ok, msg := false, fmt.Sprintf("the lookup returns key %v with value %v, which are not stored together in the leaf reached", o.res[ki], o.res[vi])
		for _, ev := range o.st.trace {
			if ev.Kind != "seen" {
				continue
			}
			cols := sh.seenCols(ev)
			j := indexIn(cols[sh.keyCol][1], o.res[ki])
			if j == nil {
				continue
			}
			leaf, dec := sh.leafness(o.st, cols)
			v := e.atomAt(cols[vc.Name][1], j, vc.Typ.Elem)
			ok = dec && leaf && extentOrSame(fc, o.res[vi], v)
			if t.iterT == nil {
				pos, found, _ := searched(fc, cols[sh.keyCol][1], key)
				if ok && (pos == nil || !found || !fc.implied(tEq(pos, j))) {
					ok, msg = false, "the lookup returns an entry although the search did not find the key there"
				}
			}
			break
		}
		ka := false
		for i := range d[0].A[1:] {
			if x := d[0].A[1+i]; x == key || extentSame(fc, x, key) {
				ka = true
			}
		}
		if ok && !ka {
			ok, msg = false, "the lookup descends for another key than the one it was given"
		}
		c.Obl("lookup", f.Name, ok, o.pos, msg)
	}
}

func extentOrSame(f *Facts, a, b *Term) bool {
	return a == b || f.norm(a) == f.norm(b) || extentSame(f, a, b) && (a.typ != nil && len(a.typ.Fields) > 0 || b.typ != nil && len(b.typ.Fields) > 0)
}

// indexIn: the position of the sequence a (possibly rebuilt) element comes from.
func indexIn(s, v *Term) *Term {
	var r *Term
	subterms(v, map[*Term]bool{}, func(x *Term) {
		if x.op == TApp && x.s == "elem" && x.args[0] == s {
			r = x.args[1]
		}
	})
	return r
}

func runC24(c *Ctx) {
	g := c.Prog("", "")
	n := 0
	for _, sh := range treeShapes(g) {
		if m := sh.ok(); m != "" {
			c.Missing("shape", sh.insert.Name+": "+m)
			continue
		}
		n++
		t := newTreeRun(c, g, sh)
		for _, f := range g.all {
			if f.Pkg != sh.insert.Pkg {
				continue
			}
			switch {
			case t.reads[f]:
				t.readRule(f)
			case sh.pathFns[f]:
				t.descentRule(f)
			}
			if f.Exported && f.Short == "Find" {
				t.pairRule(f)
			}
			if t.iterT != nil && len(f.ParamT) == 1 && f.ParamT[0].Kind == "ptr" && f.ParamT[0].Elem.String() == t.iterT.String() {
				switch f.Short {
				case "Next":
					t.startRule(f, 1)
				case "Prev":
					t.startRule(f, -1)
				}
			}
		}
		if t.stepFn != nil && callsFn(t.stepFn, t.stepFn) {
			t.stepRule()
		}
	}
	if n < 2 {
		c.Missing("shape", "the two page trees")
	}
	c.Min("read", 2)
	c.Min("child", 2)
	c.Min("lookup", 2)
	c.Min("start", 4)
}

func init() {
	register(&Check{ID: "C24", Title: "searches and iteration visit the entries in key order",
		Rules: "(read) a node read for a pointer is decoded from a whole page at that pointer, with the tree's parameters; (child) a descent reads the child at the searched position of the node's keys, or the one after it if the key was found; (descent) and records each node with its page and that index, leaf first; (step) moving a record goes to the neighbouring index, and past either end moves the parent the same way and enters the child there at its near end; (end) a refused step keeps a position from which the iterator can turn around; (start) a new iterator starts at the first entry not smaller than its key, in the next leaf if need be; (lookup) a lookup returns a key and value stored at one position of the leaf reached, and the B-tree only the key asked for.",
		Trust: []string{"Go type checker and go/ssa construction", "slices.BinarySearchFunc", "stored nodes have legal shape (C12)"},
		Run:   runC24})
}
