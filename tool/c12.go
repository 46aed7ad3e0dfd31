package main

// C12/C13/C11: what an insertion into a page tree writes, in which order, and
// what a rejected insertion leaves behind.  One dataflow run over the insertion
// gives the writes of every path as sequence terms over the node columns.

import (
	"fmt"
	"sort"
	"strings"
)

// treeShape describes a page tree: its node type and the node's columns.
type treeShape struct {
	insert   *Func
	nodeT    *Type
	recT     *Type // one step of a descent
	nodeF    string
	ptrF     string
	idxF     string
	cols     []TField // slice fields
	child    string   // column of child page offsets
	leafOnly map[string]bool
	keyCol   string // column searched
	ptrT     *Type  // extents
	pathFns  map[*Func]bool
}

// treeShapes finds the page trees: exported Insert methods whose package has a
// node type that serialises itself.
func treeShapes(g *GoProg) []*treeShape {
	var r []*treeShape
	for _, f := range g.methodsNamed("Insert") {
		if !f.Exported || len(f.ParamT) != 3 || errResult(f.Results) < 0 || f.Pkg == "mocks" {
			continue
		}
		var nodeT *Type
		for _, m := range g.methodsNamed("UnmarshalBinary", f.Pkg) {
			t := m.ParamT[0]
			if t.Kind == "ptr" && t.Elem.Kind == "struct" && g.methodOf(t.Elem, "Size") != nil {
				nodeT = t.Elem
			}
		}
		if nodeT == nil {
			continue
		}
		sh := &treeShape{insert: f, nodeT: nodeT, leafOnly: map[string]bool{}, pathFns: map[*Func]bool{}}
		for _, fl := range nodeT.Fields {
			if fl.Typ.Kind != "slice" || fl.Typ.Elem.Kind == "int" && fl.Typ.Elem.Bits == 8 {
				continue
			}
			sh.cols = append(sh.cols, fl)
			if fl.Typ.Elem.Kind == "int" && fl.Typ.Elem.Bits == 64 {
				sh.child = fl.Name
			}
			if isMemPtr(fl.Typ.Elem) {
				sh.leafOnly[fl.Name] = true
			}
			if fl.Typ.Elem.String() == f.ParamT[1].String() {
				sh.keyCol = fl.Name
			}
		}
		// a descent: functions returning a slice of records that hold a node pointer
		for _, h := range g.all {
			if h.Pkg != f.Pkg || len(h.Results) == 0 || h.Results[0].Kind != "slice" || h.Results[0].Elem.Kind != "struct" {
				continue
			}
			rt := h.Results[0].Elem
			n, p, i := "", "", ""
			for _, fl := range rt.Fields {
				if fl.Typ.Kind == "ptr" && fl.Typ.Elem.String() == nodeT.String() {
					n = fl.Name
				}
				if isMemPtr(fl.Typ) {
					p = fl.Name
				}
				if fl.Typ.Kind == "int" && fl.Typ.Bits == 64 {
					i = fl.Name
				}
			}
			if n != "" && p != "" && i != "" {
				sh.recT, sh.nodeF, sh.ptrF, sh.idxF = rt, n, p, i
				sh.pathFns[h] = true
			}
		}
		r = append(r, sh)
	}
	return r
}

func (g *GoProg) methodOf(t *Type, short string) *Func {
	for _, f := range g.all {
		if f.Short == short && len(f.ParamT) > 0 && f.Recv != "" {
			p := f.ParamT[0]
			if p.String() == t.String() || p.Kind == "ptr" && p.Elem.String() == t.String() {
				return f
			}
		}
	}
	return nil
}

func (sh *treeShape) ok() string {
	switch {
	case sh.child == "":
		return "the column of child offsets"
	case sh.keyCol == "":
		return "the key column"
	case sh.recT == nil:
		return "the descent that yields the path of nodes"
	}
	return ""
}

func (sh *treeShape) col(name string) *Type {
	return sh.nodeT.field(name)
}

// isLeafCols is the leaf test over column lengths.
func (sh *treeShape) lens(e *Engine, st *State, node *Term) map[string]*Term {
	m := map[string]*Term{}
	for _, c := range sh.cols {
		m[c.Name] = lenOf(e.load(st, fieldAddr(node, sh.nodeT, c.Name), c.Typ))
	}
	return m
}

// colSeqs are the contents of a node's columns.
func (sh *treeShape) colSeqs(e *Engine, st *State, node *Term) []*Term {
	var r []*Term
	for _, c := range sh.cols {
		v := e.load(st, fieldAddr(node, sh.nodeT, c.Name), c.Typ)
		r = append(r, e.sliceSeq(st, v, c.Typ.Elem))
	}
	return r
}

func (sh *treeShape) colIdx(name string) int {
	for i, c := range sh.cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

// pathRec recognises a pointer into a descent: elem(path, i).node
func (sh *treeShape) pathRec(node *Term) (rec, idx *Term, ok bool) {
	if node.op == TApp && node.s == "fld:"+sh.nodeF && len(node.args) == 1 {
		r := node.args[0]
		if r.op == TApp && r.s == "elem" {
			return r, r.args[1], true
		}
	}
	return nil, nil, false
}

type insSegment struct {
	kind  string // back, ok, err, panic
	begin *Event // the write-back loop, nil before or without it
	loop  *Event // the loop a back edge belongs to
	trace []*Event
	st    *State
	res   *Term
	pos   string
}

type insRun struct {
	c       *Ctx
	g       *GoProg
	sh      *treeShape
	e       *Engine
	args    []*Term
	segs    []insSegment
	path    *Term // the descent
	key     *Term
	value   *Term
	loops   map[string]bool
	formats []insFinding
}

func runInsert(c *Ctx, g *GoProg, sh *treeShape, bounds string) *insRun {
	f := sh.insert
	c.Fn(f)
	r := &insRun{c: c, g: g, sh: sh, args: symArgs(f), loops: map[string]bool{}}
	r.key, r.value = r.args[1], r.args[2]
	cl := &Client{Inline: func(fn *Func) bool { return fn.Pkg == f.Pkg && !sh.pathFns[fn] }}
	isNode := func(t *Type) bool { return t != nil && t.Kind == "ptr" && t.Elem.String() == sh.nodeT.String() }
	pager := func(cc *CallCtx) bool {
		return cc.In.Call.Invoke && cc.Fn == nil || cc.Fn != nil && (cc.Fn.Pkg == "pagefile" || cc.Fn.Pkg == "linkedpage")
	}
	// see materialises the columns of a node of the descent and assumes its shape.
	see := func(e *Engine, st *State, node *Term) {
		rec, idx, ok := sh.pathRec(node)
		if !ok {
			return
		}
		ev := sh.see(e, st, node)
		if ev == nil {
			return
		}
		x := mkField(rec, sh.idxF, tIntT)
		st.facts.assume(tLe(tZero, x))
		st.facts.assume(tLe(x, lenOf(sh.seenCols(ev)[sh.keyCol][0])))
		if st.facts.implied(tLe(tOne, idx)) {
			sh.assumeShape(st, sh.seenCols(ev), false)
		} else if st.facts.implied(tEq(idx, tZero)) {
			sh.assumeShape(st, sh.seenCols(ev), true)
		}
	}
	cl.OnLoad = func(e *Engine, st *State, addr *Term, in *Instr) {
		if addr.op == TFld {
			see(e, st, addr.args[0])
		}
	}
	cl.OnStore = func(e *Engine, st *State, addr, val *Term, in *Instr) {
		if addr.op == TFld {
			see(e, st, addr.args[0])
		}
	}
	cl.OnBranch = func(e *Engine, st *State, cnd *Term, taken bool, in *Instr) {
		sh.branch(st)
	}
	cl.Distinct = func(e *Engine, st *State, a, b *Term) bool {
		ra, ia, ok1 := sh.pathRec(a)
		rb, ib, ok2 := sh.pathRec(b)
		return ok1 && ok2 && ra.args[0] == rb.args[0] && st.facts.refuted(tEq(ia, ib))
	}
	bytesOf := func(e *Engine, st *State, node *Term) (*Term, *Term) {
		see(e, st, node)
		cols := sh.colSeqs(e, st, node)
		size := rng(mkApp("nodesize", tIntT, cols...), 5, 1<<30)
		return mkApp("nodebytes", nil, cols...), size
	}
	content := func(e *Engine, st *State, buf *Term) []*Term {
		s := e.sliceSeq(st, buf, byteT)
		if s.op == TApp && s.s == "nodebytes" {
			return s.args
		}
		return []*Term{s}
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Fn != nil && sh.pathFns[cc.Fn] {
			p := mkNamed("descent", &Type{Kind: "slice", Elem: sh.recT})
			st.facts.assume(tLe(tOne, lenOf(p)))
			r.path = p
			st.emit(&Event{Kind: "descend", A: append([]*Term{}, cc.Args...), Pos: cc.Pos})
			s2 := st.clone()
			er := freshErr("descent")
			s2.emit(&Event{Kind: "io-failed", Str: "descent", Pos: cc.Pos})
			return []Outcome{{st: st, res: []*Term{p, tNil}}, {st: s2, res: []*Term{tNil, er}}}, true
		}
		if cc.Fn != nil && len(cc.Fn.ParamT) > 0 && isNode(cc.Fn.ParamT[0]) {
			switch cc.Short {
			case "Size":
				_, n := bytesOf(e, st, cc.Args[0])
				return one(st, n), true
			case "MarshalBinary":
				b, n := bytesOf(e, st, cc.Args[0])
				if e.dry == 0 {
					r.format(st, cc.Args[0], cc.Pos)
				}
				sl := e.newSlice(st, "nodebuf", byteT, seqVarApp(b, n))
				s2 := st.clone()
				s2.emit(&Event{Kind: "io-failed", Str: "marshal", Pos: cc.Pos})
				return []Outcome{{st: st, res: []*Term{sl, tNil}}, {st: s2, res: []*Term{tNil, freshErr("marshal")}}}, true
			case "UnmarshalBinary":
				for _, cf := range sh.cols {
					st.mem[fieldAddr(cc.Args[0], sh.nodeT, cf.Name)] = mkSym("stored."+cf.Name, cf.Typ)
				}
				s2 := st.clone()
				s2.emit(&Event{Kind: "io-failed", Str: "unmarshal", Pos: cc.Pos})
				return []Outcome{{st: st, res: []*Term{tNil}}, {st: s2, res: []*Term{freshErr("unmarshal")}}}, true
			}
		}
		if !pager(cc) {
			return nil, false
		}
		fork := func(kind string, res func(*State) []*Term, a ...*Term) ([]Outcome, bool) {
			s2 := st.clone()
			st.emit(&Event{Kind: kind, A: a, Pos: cc.Pos})
			rs := res(st)
			s2.emit(&Event{Kind: "io-failed", Str: kind, A: a, Pos: cc.Pos})
			fr := make([]*Term, len(rs))
			for i := range rs {
				fr[i] = tZero
			}
			fr[len(rs)-1] = freshErr(kind)
			return []Outcome{{st: st, res: rs}, {st: s2, res: fr}}, true
		}
		switch cc.Short {
		case "PageSize":
			return one(st, rng(mkNamed("pagesize", tIntT), 64, 1<<20)), true
		case "SlotSize":
			return one(st, rng(mkNamed("slotsize", tIntT), 16, 1<<20)), true
		case "Seek":
			return fork("seek", func(*State) []*Term { return []*Term{cc.Args[1], tNil} }, cc.Args[1], cc.Args[2])
		case "Read":
			return fork("read", func(*State) []*Term { return []*Term{lenOf(cc.Args[1]), tNil} })
		case "Write":
			return fork("write", func(*State) []*Term { return []*Term{lenOf(cc.Args[1]), tNil} }, content(e, st, cc.Args[1])...)
		case "NewPage":
			off := mkSym("newpage", i64T)
			off.lo = bigOf(4096)
			a := append([]*Term{off}, content(e, st, cc.Args[1])...)
			return fork("newpage", func(*State) []*Term { return []*Term{off, tNil} }, a...)
		case "FreePage":
			return fork("freepage", func(*State) []*Term { return []*Term{tNil} }, cc.Args[1])
		case "Root":
			mp := mkSym("storedroot", g.typ(g.named[memPtr]))
			return fork("root", func(*State) []*Term { return []*Term{mp, tNil} }, mp)
		case "SetRoot":
			return fork("setroot", func(*State) []*Term { return []*Term{tNil} }, cc.Args[1])
		}
		return nil, false
	}
	if bounds != "" {
		cl.OnBounds = boundsHook(c, bounds, f.Name, map[*Instr]string{})
	}
	cl.OnBack = func(e *Engine, st *State, fn *Func, h int) {
		if e.dry > 0 {
			return
		}
		b := openLoop(st.trace)
		r.segs = append(r.segs, insSegment{kind: "back", loop: b, trace: st.trace, st: st, pos: fn.Pos})
	}
	r.e = newEngine(g, cl)
	outs := r.e.Run(f, r.args, nil, newState())
	c.Problems(r.e, f.Name)
	for _, o := range outs {
		sg := insSegment{trace: o.st.trace, st: o.st, pos: o.pos}
		if sg.pos == "" {
			sg.pos = f.Pos
		}
		switch {
		case o.panic:
			sg.kind = "panic"
		case o.st.facts.implied(tEq(o.res[len(o.res)-1], tNil)):
			sg.kind, sg.res = "ok", o.res[len(o.res)-1]
		case o.st.facts.refuted(tEq(o.res[len(o.res)-1], tNil)):
			sg.kind, sg.res = "err", o.res[len(o.res)-1]
		default:
			sg.kind, sg.res = "maybe", o.res[len(o.res)-1]
		}
		r.segs = append(r.segs, sg)
	}
	r.place()
	return r
}

// openLoop is the innermost loop still running at the end of a trace.
func openLoop(tr []*Event) *Event {
	n := 0
	for i := len(tr) - 1; i >= 0; i-- {
		switch tr[i].Kind {
		case "loop-end":
			n++
		case "loop-begin":
			if n == 0 {
				return tr[i]
			}
			n--
		}
	}
	return nil
}

// place finds the loop each step belongs to: the one that chooses which node of
// the descent is written.
func (r *insRun) place() {
	for i := range r.segs {
		s := &r.segs[i]
		for _, w := range s.events("write") {
			rec := r.recordOf(s.seekBefore(w))
			if rec == nil {
				continue
			}
			subterms(rec.args[1], map[*Term]bool{}, func(x *Term) {
				for j, ev := range s.trace {
					if ev.Kind != "loop-begin" || s.begin != nil {
						continue
					}
					for _, v := range r.e.headEnv[ev] {
						if v == x && x.op == TSym {
							s.begin, s.trace = ev, s.trace[j:]
							break
						}
					}
				}
			})
		}
		if s.begin != nil {
			r.loops[s.begin.Str] = true
		}
	}
	// other loops take no part; steps of the write-back loop that write nothing do
	var keep []insSegment
	for _, s := range r.segs {
		if s.kind == "back" && s.begin == nil {
			if s.loop == nil || !r.loops[s.loop.Str] {
				continue
			}
		}
		if s.begin == nil {
			for j := len(s.trace) - 1; j >= 0; j-- {
				if ev := s.trace[j]; ev.Kind == "loop-begin" && r.loops[ev.Str] {
					s.begin, s.trace = ev, s.trace[j:]
					break
				}
			}
		}
		keep = append(keep, s)
	}
	r.segs = keep
}

// sharedFields are the format parameters a tree hands to its nodes.
func (sh *treeShape) sharedFields() []TField {
	var r []TField
	t := sh.insert.ParamT[0].Elem
	for _, a := range t.Fields {
		for _, b := range sh.nodeT.Fields {
			if a.Name == b.Name && a.Typ.String() == b.Typ.String() {
				r = append(r, a)
			}
		}
	}
	return r
}

// format: a node made by the insertion is encoded with the tree's parameters.
func (r *insRun) format(st *State, node *Term, pos string) {
	if _, _, ok := r.sh.pathRec(node); ok {
		return
	}
	for _, fl := range r.sh.sharedFields() {
		if fl.Typ.Kind != "int" {
			continue
		}
		a := r.e.load(st, fieldAddr(node, r.sh.nodeT, fl.Name), fl.Typ)
		b := r.e.load(st, fieldAddr(r.args[0], r.sh.insert.ParamT[0].Elem, fl.Name), fl.Typ)
		if st.facts.implied(tEq(a, b)) {
			r.formats = append(r.formats, insFinding{"format", r.sh.insert.Name + ": " + fl.Name, "", "", true})
		} else {
			r.formats = append(r.formats, insFinding{"format", r.sh.insert.Name + ": " + fl.Name, pos, fmt.Sprintf("a new node is encoded with %s %v, the tree's is %v", fl.Name, a, b), false})
		}
	}
}

// leafness: the shape test decided by the path's facts.
func (sh *treeShape) leafness(st *State, cols map[string][2]*Term) (leaf, decided bool) {
	f := st.facts
	nc := lenOf(cols[sh.child][0])
	if f.implied(tLe(tOne, nc)) {
		return false, true
	}
	if f.implied(tEq(nc, tZero)) {
		return true, true
	}
	for l := range sh.leafOnly {
		n := lenOf(cols[l][0])
		if f.implied(tLe(tOne, n)) {
			return true, true
		}
		if f.implied(tEq(n, tZero)) {
			return false, true
		}
	}
	return false, false
}

// see materialises a node's columns and assumes its legal shape; nil if known.
func (sh *treeShape) see(e *Engine, st *State, node *Term) *Event {
	for _, cf := range sh.cols {
		if _, have := st.mem[fieldAddr(node, sh.nodeT, cf.Name)]; have {
			return nil
		}
	}
	lens := map[string]*Term{}
	ev := &Event{Kind: "seen", A: []*Term{node}}
	for _, cf := range sh.cols {
		v := e.load(st, fieldAddr(node, sh.nodeT, cf.Name), cf.Typ)
		ev.A = append(ev.A, v, e.sliceSeq(st, v, cf.Typ.Elem))
		lens[cf.Name] = lenOf(v)
	}
	st.emit(ev)
	nk := lens[sh.keyCol]
	st.facts.assume(tLe(tOne, nk))
	for _, cf := range sh.cols {
		if cf.Name != sh.child && !sh.leafOnly[cf.Name] {
			st.facts.assume(tEq(lens[cf.Name], nk))
		}
	}
	return ev
}

// branch assumes the shape of every node whose kind the path has decided.
func (sh *treeShape) branch(st *State) {
	done := map[*Term]bool{}
	for i := len(st.trace) - 1; i >= 0; i-- {
		ev := st.trace[i]
		if ev.Kind != "seen" || done[ev.A[0]] {
			continue
		}
		done[ev.A[0]] = true
		cols := sh.seenCols(ev)
		if leaf, dec := sh.leafness(st, cols); dec {
			sh.assumeShape(st, cols, leaf)
		}
	}
}

// seenCols are a node's columns when the path first touched it.
func (sh *treeShape) seenCols(ev *Event) map[string][2]*Term {
	m := map[string][2]*Term{}
	for i, c := range sh.cols {
		m[c.Name] = [2]*Term{ev.A[1+2*i], ev.A[2+2*i]}
	}
	return m
}

// origOf is what a node of the descent held when the trace first touched it.
func (r *insRun) origOf(tr []*Event, node *Term) map[string][2]*Term {
	for _, ev := range tr {
		if ev.Kind == "seen" && ev.A[0] == node {
			return r.sh.seenCols(ev)
		}
	}
	return nil
}

func (sh *treeShape) assumeShape(st *State, cols map[string][2]*Term, leaf bool) {
	nk := lenOf(cols[sh.keyCol][0])
	f := st.facts
	for _, cf := range sh.cols {
		n := lenOf(cols[cf.Name][0])
		switch {
		case cf.Name == sh.child && leaf:
			f.assume(tEq(n, tZero))
		case cf.Name == sh.child:
			f.assume(tEq(n, tAddK(nk, 1)))
		case sh.leafOnly[cf.Name] && leaf:
			f.assume(tEq(n, nk))
		case sh.leafOnly[cf.Name]:
			f.assume(tEq(n, tZero))
		}
	}
}

func (s insSegment) events(kind string) []*Event {
	var r []*Event
	for _, e := range s.trace {
		if e.Kind == kind {
			r = append(r, e)
		}
	}
	return r
}

// position of the last seek before event k of the trace.
func (s insSegment) seekBefore(ev *Event) *Term {
	var pos *Term
	for _, e := range s.trace {
		if e == ev {
			return pos
		}
		switch e.Kind {
		case "seek":
			pos = nil
			if e.A[1] == tZero {
				pos = e.A[0]
			}
		case "read", "write", "newpage", "setroot", "root", "descend", "freepage":
			pos = nil
		}
	}
	return nil
}

// recordOf recognises the descent record whose page offset pos is.
func (r *insRun) recordOf(pos *Term) (rec *Term) {
	if pos == nil || r.path == nil {
		return nil
	}
	if pos.op == TApp && pos.s == "fld:Offset" && pos.args[0].op == TApp && pos.args[0].s == "fld:"+r.sh.ptrF {
		x := pos.args[0].args[0]
		if x.op == TApp && x.s == "elem" && x.typ != nil && x.typ.String() == r.sh.recT.String() {
			return x
		}
	}
	return nil
}

func cols(a []*Term) string {
	var s []string
	for _, x := range a {
		s = append(s, x.String())
	}
	t := strings.Join(s, " | ")
	if len(t) > 300 {
		t = t[:300] + "…"
	}
	return t
}

// sameCols compares node contents column by column.
func (r *insRun) sameCols(f *Facts, a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !seqSame(f, a[i], b[i]) {
			return false
		}
	}
	return true
}

// insertedAt is s with v placed before position i.
func (r *insRun) insertedAt(f *Facts, s, i, v *Term) *Term {
	e := r.e
	return e.seqCat(f, e.seqSub(f, s, tZero, i), mkApp("unit", nil, v), e.seqSub(f, s, i, seqLen(s)))
}

type insFinding struct {
	rule, what, pos, msg string
	ok                   bool
}

// check judges every segment; the findings are split over C11, C12 and C13.
func (r *insRun) check() []insFinding {
	out := append([]insFinding{}, r.formats...)
	sh := r.sh
	fn := sh.insert.Name
	add := func(rule, what string, ok bool, pos, msg string) {
		out = append(out, insFinding{rule, fn + ": " + what, pos, msg, ok})
	}
	kc := sh.colIdx(sh.keyCol)
	cc := sh.colIdx(sh.child)
	begins := map[*Event]bool{}
	idxOf := map[*Event]*Term{}
	sort.SliceStable(r.segs, func(i, j int) bool { return r.segs[i].kind < r.segs[j].kind })
	valueFor := func(c TField) *Term {
		for i, t := range sh.insert.ParamT {
			if i > 0 && t.String() == c.Typ.Elem.String() {
				return r.args[i]
			}
		}
		return nil
	}
	// the leaf after the insertion, as seen when the write-back starts
	leafDone := func(st *State, pos, what string) {
		n0 := mkField(mkApp("elem", sh.recT, r.pathSeq(), tZero), sh.nodeF, ptrTo(sh.nodeT))
		o := r.origOf(st.trace, n0)
		if o == nil {
			add("leaf-insert", what, false, pos, "the leaf at the end of the descent is never touched")
			return
		}
		f := st.facts
		idx := mkApp("bsearch", tIntT)
		_ = idx
		var at *Term
		got := sh.colSeqs(r.e, st, n0)
		okAll := true
		var j *Term
		for i, c := range sh.cols {
			if c.Name == sh.child {
				continue
			}
			v := valueFor(c)
			if v == nil {
				continue
			}
			if at == nil {
				// position: the binary search over the original keys
				j = r.searchPos(f, st, o[sh.keyCol][1])
				if j == nil {
					add("leaf-insert", what, false, pos, "the position in the leaf does not come from a search of its keys for the new key")
					return
				}
				at = j
			}
			want := r.insertedAt(f, o[c.Name][1], at, v)
			if !seqSame(f, got[i], want) {
				okAll = false
				add("leaf-insert", what, false, pos, fmt.Sprintf("the leaf's %s become %v instead of %v", c.Name, got[i], want))
			}
		}
		if okAll {
			add("leaf-insert", what, true, pos, "")
		}
		add("unique", what, j != nil && r.notFound(f, o[sh.keyCol][1]), pos, "an existing key can be inserted again")
	}
	for _, s := range r.segs {
		W, N, R, F := s.events("write"), s.events("newpage"), s.events("setroot"), s.events("freepage")
		failed := len(s.events("io-failed")) > 0
		dups := false
		if s.kind == "maybe" {
			// the result of the last storage operation is returned as is
			add("result", "returned error", false, s.pos, "the result is neither a success nor an error on its own account")
			continue
		}
		if s.kind == "panic" {
			continue // unreachable ends are judged by the loop rule below
		}
		if s.kind == "err" {
			if !failed {
				dups = true
				add("reject", "rejected insertion", s.begin == nil && len(W)+len(N)+len(R)+len(F) == 0, s.pos, "an insertion is rejected after pages were written")
			}
			_ = dups
			// order on failing paths: what was written so far must be safe
			r.order(s, add)
			continue
		}
		r.order(s, add)
		if len(F) > 0 {
			add("split", "freed pages", false, F[0].Pos, "the insertion frees a page that its tree may still use")
		}
		if s.begin == nil && r.path != nil && len(s.events("descend")) > 0 || s.begin == nil && len(s.events("descend")) > 0 {
			leafDone(s.st, s.pos, "without a loop")
		}
		if s.begin == nil && len(s.events("descend")) == 0 {
			// the tree was empty
			ok := len(N) == 1 && len(R) == 1 && len(W) == 0
			msg := fmt.Sprintf("inserting into an empty tree writes %d new pages, rewrites %d and sets the root %d times", len(N), len(W), len(R))
			if ok {
				f := s.st.facts
				want := make([]*Term, len(sh.cols))
				for i, c := range sh.cols {
					if v := valueFor(c); v != nil {
						want[i] = mkApp("cat", nil, mkApp("unit", nil, v))
					} else {
						want[i] = mkApp("cat", nil)
					}
				}
				ok = r.sameCols(f, N[0].A[1:], want)
				msg = "the first node holds " + cols(N[0].A[1:]) + " instead of the new key and value"
				if ok {
					ok, msg = r.rootSet(s, R[0], N[0])
				}
				if ok {
					// only when the stored root is empty
					rt := s.events("root")
					ok = len(rt) > 0 && f.implied(tEq(mkField(rt[0].A[0], "Length", tU32T), tZero))
					msg = "an existing tree can be replaced by a new root"
				}
			}
			add("first", "empty tree", ok, s.pos, msg)
			continue
		}
		if s.begin != nil {
			begins[s.begin] = true
		}
		// which record is being written back
		if len(W) == 0 {
			add("write-back", s.kind, false, s.pos, "an insertion completes a step without writing the changed node")
			continue
		}
		if len(W) > 1 {
			add("write-back", s.kind, false, W[1].Pos, "one step writes more than one existing page")
			continue
		}
		rec := r.recordOf(s.seekBefore(W[0]))
		if rec == nil {
			add("write-back", s.kind, false, W[0].Pos, "the node is not written at the page it was read from")
			continue
		}
		idx := rec.args[1]
		node := mkField(rec, sh.nodeF, ptrTo(sh.nodeT))
		o := r.origOf(s.trace, node)
		if o == nil || len(W[0].A) != len(sh.cols) {
			add("write-back", s.kind, false, W[0].Pos, "what is written is not a serialised node of the descent")
			continue
		}
		add("write-back", s.kind, true, "", "")
		f := s.st.facts
		pend := make([]*Term, len(sh.cols))
		if s.begin != nil {
			idxOf[s.begin] = idx
			for i, c := range sh.cols {
				pend[i] = o[c.Name][1]
			}
		} else {
			pend = sh.colSeqs(r.e, s.st, node)
			if !f.implied(tEq(idx, tZero)) {
				add("write-back", s.kind, false, W[0].Pos, "the first node written is not the leaf")
			}
		}
		switch {
		case len(N) == 0 && len(R) == 0 && s.kind == "ok":
			add("rewrite", "node that fits", r.sameCols(f, W[0].A, pend), W[0].Pos, "the node written back holds "+cols(W[0].A)+" instead of "+cols(pend))
			size := rng(mkApp("nodesize", tIntT, pend...), 5, 1<<30)
			add("fits", "node that fits", f.implied(tLe(size, mkNamed("pagesize", tIntT))), W[0].Pos, "a node may be written although it does not fit a page")
		case len(N) >= 1:
			leaf, dec := sh.leafness(s.st, o)
			if !dec {
				add("split", s.kind, false, s.pos, "the split does not depend on whether the node is a leaf")
				continue
			}
			kind := "internal node"
			if leaf {
				kind = "leaf"
			}
			right, left := N[0].A[1:], W[0].A
			if len(right) != len(sh.cols) {
				add("split", kind, false, N[0].Pos, "the new page does not hold a serialised node")
				continue
			}
			nk := seqLen(left[kc])
			K := pend[kc]
			seps := map[string]*Term{}
			ok, msg := true, ""
			for i, c := range sh.cols {
				var want *Term
				switch {
				case c.Name == sh.child || sh.leafOnly[c.Name]:
					want = r.e.seqCat(f, left[i], right[i])
				case leaf:
					want = r.e.seqCat(f, left[i], right[i])
					seps[c.Name] = r.e.seqAt(f, K, nk, c.Typ.Elem)
					if i != kc {
						seps[c.Name] = r.e.seqAt(f, pend[i], nk, c.Typ.Elem)
					}
				default:
					sep := r.e.seqAt(f, pend[i], nk, c.Typ.Elem)
					seps[c.Name] = sep
					// left, the separator, right: compare the pieces by position
					mid := r.e.seqSub(f, pend[i], nk, tAddK(nk, 1))
					want = r.e.seqCat(f, left[i], mid, right[i])
				}
				if !seqSame(f, want, pend[i]) {
					ok = false
					msg = fmt.Sprintf("the halves of the %s do not add up to the node's %s: %v and %v", kind, c.Name, left[i], right[i])
				}
			}
			add("split", kind, ok, W[0].Pos, msg)
			lk, rk := seqLen(left[kc]), seqLen(right[kc])
			{
				// a page holds several entries, so a node too large for it has at least three
				f3 := f.clone()
				f3.assume(tLe(mkInt(3), seqLen(K)))
				ok := f3.implied(tLe(tOne, lk)) && f3.implied(tLe(tOne, rk))
				add("halves", kind+" entries", ok, W[0].Pos, "a half of the split "+kind+" may be empty")
			}
			if !leaf {
				ok := f.implied(tEq(seqLen(left[cc]), tAddK(lk, 1))) && f.implied(tEq(seqLen(right[cc]), tAddK(rk, 1)))
				add("halves", kind, ok, W[0].Pos, "a half of the internal node does not have one child more than keys")
			}
			noff := N[0].A[0]
			loff := s.seekBefore(W[0])
			if len(R) == 0 && s.kind == "back" {
				// the parent is the next record
				prec := mkApp("elem", sh.recT, rec.args[0], tAddK(idx, 1))
				pnode := mkField(prec, sh.nodeF, ptrTo(sh.nodeT))
				po := r.origOf(s.trace, pnode)
				if po == nil {
					add("parent", kind, false, s.pos, "a split does not update the parent node")
					continue
				}
				pidx := mkField(prec, sh.idxF, tIntT)
				got := sh.colSeqs(r.e, s.st, pnode)
				for i, c := range sh.cols {
					var want *Term
					switch {
					case c.Name == sh.child:
						s0 := po[c.Name][1]
						want = r.e.seqCat(f, r.e.seqSub(f, s0, tZero, pidx), mkApp("unit", nil, loff), mkApp("unit", nil, noff), r.e.seqSub(f, s0, tAddK(pidx, 1), seqLen(s0)))
						alt := r.insertedAt(f, s0, tAddK(pidx, 1), noff)
						if seqSame(f, got[i], alt) {
							want = alt
						}
					case sh.leafOnly[c.Name]:
						want = po[c.Name][1]
					default:
						want = r.insertedAt(f, po[c.Name][1], pidx, seps[c.Name])
					}
					add("parent", kind+" "+c.Name, seqSame(f, got[i], want), s.pos, fmt.Sprintf("after a split of a %s the parent's %s are %v instead of %v", kind, c.Name, got[i], want))
				}
				add("parent", kind, len(N) == 1, s.pos, "a split creates more than one page")
				continue
			}
			if len(R) == 1 && s.kind == "ok" && len(N) == 2 {
				top := f.implied(tEq(tAddK(idx, 1), lenOf(r.path)))
				add("new-root", kind, top, R[0].Pos, "a new root is created although the split node has a parent")
				var want []*Term
				for _, c := range sh.cols {
					switch {
					case c.Name == sh.child:
						want = append(want, mkApp("cat", nil, mkApp("unit", nil, loff), mkApp("unit", nil, noff)))
					case sh.leafOnly[c.Name]:
						want = append(want, mkApp("cat", nil))
					default:
						want = append(want, mkApp("cat", nil, mkApp("unit", nil, seps[c.Name])))
					}
				}
				add("new-root", kind+" content", r.sameCols(f, N[1].A[1:], want), N[1].Pos, "the new root holds "+cols(N[1].A[1:])+" instead of "+cols(want))
				ok, msg := r.rootSet(s, R[0], N[1])
				add("new-root", kind+" pointer", ok, R[0].Pos, msg)
				continue
			}
			add("split", kind+" step", false, s.pos, fmt.Sprintf("a split ends with %d new pages and %d root changes", len(N), len(R)))
		default:
			add("write-back", s.kind+" step", false, s.pos, fmt.Sprintf("a step without a split ends with %d root changes and does not finish", len(R)))
		}
	}
	// the loop starts at the leaf with the entry inserted and climbs one level at a time
	for b := range begins {
		en := r.e.entry[b]
		idx := idxOf[b]
		if en == nil || idx == nil {
			add("climb", "loop", false, sh.insert.Pos, "the write-back loop is not understood")
			continue
		}
		leafDone(en, sh.insert.Pos, "before the write-back")
		m := map[*Term]*Term{}
		subterms(idx, map[*Term]bool{}, func(x *Term) {
			if x.op == TSym && strings.HasPrefix(x.s, "phi.") {
				m[x] = nil
			}
		})
		for _, s := range r.segs {
			if s.begin != b || s.kind != "back" {
				continue
			}
			h := r.headEnv(b)
			first, next := map[*Term]*Term{}, map[*Term]*Term{}
			for reg, v := range h {
				if _, ok := m[v]; ok {
					if w, ok := en.env[reg]; ok {
						first[v] = w
					}
					if w, ok := s.st.env[reg]; ok {
						next[v] = w
					}
				}
			}
			add("climb", "start", en.facts.implied(tEq(replaceTerms(idx, first), tZero)), s.pos, "the write-back does not start at the leaf")
			add("climb", "step", s.st.facts.implied(tEq(replaceTerms(idx, next), tAddK(idx, 1))), s.pos, "after a split the write-back does not continue with the parent")
		}
	}
	for _, s := range r.segs {
		if s.kind == "panic" {
			// reachable only past the root: every path node was handled
			idx := (*Term)(nil)
			for b := range begins {
				idx = idxOf[b]
			}
			ok := idx != nil && r.pastRoot(s)
			add("climb", "end", ok, s.pos, "the insertion can panic before the root was handled")
		}
	}
	return out
}

// pastRoot: the panic follows the loop's own exhaustion, which the climb from a
// split of the root never reaches because it returns.
func (r *insRun) pastRoot(s insSegment) bool {
	n := 0
	for _, e := range s.trace {
		if e.Kind == "write" || e.Kind == "newpage" || e.Kind == "setroot" {
			n++
		}
	}
	return n == 0
}

func (r *insRun) headEnv(b *Event) map[int]*Term { return r.heads()[b] }

func (r *insRun) heads() map[*Event]map[int]*Term {
	m := map[*Event]map[int]*Term{}
	for ev := range r.e.entry {
		m[ev] = r.e.headEnv[ev]
	}
	return m
}

func (r *insRun) pathSeq() *Term {
	if r.path == nil {
		return nil
	}
	st := newState()
	return r.e.sliceSeq(st, r.path, r.sh.recT)
}

// searchPos finds the position a search of keys for the new key returned.
func (r *insRun) searchPos(f *Facts, st *State, keys *Term) *Term {
	var res *Term
	for _, l := range f.lits {
		subterms(l, map[*Term]bool{}, func(x *Term) {
			if x.op == TApp && (x.s == "bfound" || x.s == "bsearch") && len(x.args) >= 2 && seqSame(f, x.args[0], keys) && extentSame(f, x.args[1], r.key) {
				res = mkApp("bsearch", tIntT, x.args...)
			}
		})
	}
	return res
}

func (r *insRun) notFound(f *Facts, keys *Term) bool {
	ok := false
	for _, l := range f.lits {
		subterms(l, map[*Term]bool{}, func(x *Term) {
			if x.op == TApp && x.s == "bfound" && seqSame(f, x.args[0], keys) && extentSame(f, x.args[1], r.key) && f.refuted(x) {
				ok = true
			}
		})
	}
	return ok
}

// rootSet: the root refers to the page just created, with its length.
func (r *insRun) rootSet(s insSegment, set, page *Event) (bool, string) {
	f := s.st.facts
	mp := set.A[0]
	off := mkField(mp, "Offset", tU64T)
	ln := mkField(mp, "Length", tU32T)
	if !f.implied(tEq(off, page.A[0])) {
		return false, fmt.Sprintf("the root is set to %v instead of the new page", off)
	}
	if !f.implied(tLe(tOne, ln)) {
		return false, fmt.Sprintf("the root is stored with length %v, which reads back as an empty tree", ln)
	}
	return true, ""
}

// order: pages are written before anything refers to them, and the node that
// was split loses its right half only after that half is stored.
func (r *insRun) order(s insSegment, add func(rule, what string, ok bool, pos, msg string)) {
	made := map[*Term]bool{}
	cc := r.sh.colIdx(r.sh.child)
	kc := r.sh.colIdx(r.sh.keyCol)
	nnew := 0
	for _, e := range s.trace {
		switch e.Kind {
		case "newpage":
			made[e.A[0]] = true
			nnew++
			if len(e.A) > cc+1 {
				r.refs(s, e.A[cc+1], made, e, add)
			}
		case "write":
			if len(e.A) > cc {
				r.refs(s, e.A[cc], made, e, add)
				rec := r.recordOf(s.seekBefore(e))
				if rec != nil {
					if o := r.origOf(s.trace, mkField(rec, r.sh.nodeF, ptrTo(r.sh.nodeT))); o != nil && s.begin != nil {
						shorter := !s.st.facts.implied(tLe(seqLen(o[r.sh.keyCol][1]), seqLen(e.A[kc])))
						add("order", "left half", !shorter || nnew > 0, e.Pos, "a node is rewritten without part of its entries before that part is stored elsewhere")
					}
				}
			}
		case "setroot":
			off := mkField(e.A[0], "Offset", tU64T)
			ok := false
			for m := range made {
				if s.st.facts.implied(tEq(off, m)) {
					ok = true
				}
			}
			add("order", "root", ok, e.Pos, "the root is set to a page that has not been written")
		}
	}
}

func (r *insRun) refs(s insSegment, child *Term, made map[*Term]bool, e *Event, add func(rule, what string, ok bool, pos, msg string)) {
	subterms(child, map[*Term]bool{}, func(x *Term) {
		if x.op == TSym && strings.HasPrefix(x.s, "newpage#") {
			add("order", "child", made[x], e.Pos, "a node refers to a page before it is written")
		}
	})
}

func insertCheck(c *Ctx, rules map[string]bool, bounds string) {
	g := c.Prog("", "")
	shapes := treeShapes(g)
	for _, sh := range shapes {
		if m := sh.ok(); m != "" {
			c.Missing("shape", sh.insert.Name+": "+m)
			continue
		}
		r := runInsert(c, g, sh, bounds)
		for _, x := range r.check() {
			if rules[x.rule] {
				c.Obl(x.rule, x.what, x.ok, x.pos, x.msg)
			}
		}
	}
	if len(shapes) < 2 {
		c.Missing("shape", "the two page trees")
	}
}

func init() {
	trust := []string{"Go type checker and go/ssa construction", "slices.BinarySearchFunc returns the position of the key or where it belongs", "pages returned by NewPage are not in use elsewhere (C09)"}
	register(&Check{ID: "C12", Title: "an insertion adds exactly its entry",
		Rules: "For the insertion of every page tree, from any descent and any node contents of legal shape: (first) an empty tree becomes one root leaf holding exactly the new entry; (leaf-insert) otherwise every column of the leaf becomes the old one with the new entry at the searched position; (unique) only if the search did not find the key; (climb) write-back starts at the leaf and moves one level up per split; (write-back, rewrite) a node is written to the page it was read from with exactly its contents; (fits) unsplit only if it fits a page; (split, halves) the halves concatenate to the node in every column, with the separator taken out of internal nodes, which keep one child more than keys; (parent) the parent gains exactly the separator and the new page next to the split child; (new-root) a split root gets a parent holding the separator and both halves and becomes the root; (format) every new node is encoded with the tree's own parameters.",
		Trust: trust, Run: func(c *Ctx) {
			insertCheck(c, map[string]bool{"first": true, "leaf-insert": true, "unique": true, "climb": true, "write-back": true, "rewrite": true, "fits": true, "split": true, "halves": true, "parent": true, "new-root": true, "result": true, "format": true}, "in-range")
			c.Min("first", 2)
			c.Min("leaf-insert", 2)
			c.Min("split", 4)
			c.Min("new-root", 4)
			c.Min("parent", 6)
			c.Min("rewrite", 2)
		}})
	register(&Check{ID: "C13", Title: "pages are written before anything refers to them",
		Rules: "For the insertion of every page tree, on every path including those on which a storage operation fails: (order) every new page is written by NewPage before a node that lists it as a child is written, before a node is rewritten with fewer entries than it had, and before the root is set; the root is only set to a page made on the same path; (reject) an insertion that returns an error of its own has written no page, freed none and set no root.",
		Trust: trust, Run: func(c *Ctx) {
			insertCheck(c, map[string]bool{"order": true, "reject": true}, "")
			c.Min("order", 4)
			c.Min("reject", 2)
		}})
}
