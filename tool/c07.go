package main

// C07: the client reads the index file the way the Go side writes it: pages,
// slots, metadata and enumerations.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C07",
		Title: "the client reads pages, slots and metadata the way Go writes them",
		Rules: "The Go writers are run symbolically and the TypeScript readers, lowered to the same intermediate representation, are run on exactly the bytes they produce. (root) the root pointer a slot was given by SetRoot is the one LinkedMetaPage.root returns for that page and slot. (metadata) likewise the bytes given to SetMetadata. (next) for every header, the next slot of the client is the following one of the page exactly while the count allows it, else slot 0 of the linked page, and none exactly when Go reports the end. (start) the page the client opens is the one the Go side keeps its first slot in. (filemeta, indexmeta) readFileMeta and readIndexMeta, given the bytes MarshalBinary wrote, accept them and return every field. (enum) members of FieldType and FileFormat have the value of the Go constant of the same name, no value means two things, and every format and every type the Go side declares before vectors is there.",
		Trust: []string{"Go type checker and go/ssa construction", "TypeScript parser and type checker", "decodeUvarint inverts the Go varint encoding (C11)", "the resolver returns the bytes of the range asked for", "page numbers are below 2^48"},
		Run:   runC07,
	})
}

// tsClient is the base of the analyses of the client: everything of the
// repository is inlined, varints are decoded by meaning.
func (c *Ctx) tsClient(g *TSProg) *Client {
	uv := g.fn("decodeUvarint")
	cl := &Client{Inline: func(f *Func) bool { return true }}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if uv != nil && cc.Fn == uv && len(cc.Args) > 0 && uv != nil {
			return decodeModel(e, st, cc)
		}
		return nil, false
	}
	return cl
}

func decodeModel(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
	f := &CallCtx{In: cc.In, Name: "encoding/binary.Uvarint", Args: cc.Args[:1], Pos: cc.Pos}
	os, ok := stdModel(e, st, f)
	if !ok || len(os) != 1 {
		return nil, false
	}
	s := os[0].st
	v, n := os[0].res[0], os[0].res[1]
	if ps := seqPieces(e.sliceSeq(st, cc.Args[0], byteT)); len(ps) > 0 {
		p := ps[0]
		if p.op == TApp && p.s == "span" && p.args[1] == tZero && p.args[2] == seqLen(p.args[0]) {
			p = p.args[0]
		}
		if p.op == TApp && p.s == "uvarintbytes" {
			v, n = p.args[0], seqLen(p)
		}
	}
	if v.op == TApp && v.s == "uvarint.v" {
		s.facts.assume(tLe(tZero, v))
		s.facts.assume(tLe(tZero, n))
		s.facts.assume(tLe(n, mkInt(10)))
	}
	o := e.tsObject(s, map[string]*Term{"value": v, "bytesRead": n})
	return []Outcome{{st: s, res: []*Term{o}}}, true
}

// tsRange is one range asked of a resolver.
func (e *Engine) tsRange(st *State, arr *Term, i int64) (start, end *Term, ok bool) {
	if arr.op == TIface {
		arr = arr.args[0]
	}
	it := e.tsItems(st, arr)
	b, off, _ := sliceParts(it)
	r := e.selectElem(st, b, tAddK(off, i), tsObjP)
	if r == nil || r == tNil {
		return nil, nil, false
	}
	return e.tsGet(st, r, "start", tsNumT), e.tsGet(st, r, "end", tsNumT), true
}

// tsResolved is the answer of a resolver to one range.
func (e *Engine) tsResolved(st *State, content *Term) *Term {
	d := e.newSlice(st, "resolved", byteT, content)
	o := e.tsObject(st, map[string]*Term{"data": d, "totalLength": mkSym("total", tsNumT)})
	return e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, o)))
}

type layoutTS struct {
	c    *Ctx
	l    *slots
	ts   *TSProg
	ctor *Func
	offF string
	idxF string
}

// pageClient serves ranges of the disk.
func (x *layoutTS) client(disk []diskPart, asked *[]string) *Client {
	cl := x.c.tsClient(x.ts)
	inner := cl.Call
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Name == "dynamic" && len(cc.Args) == 1 {
			a, b, ok := e.tsRange(st, cc.Args[0], 0)
			if !ok {
				return nil, false
			}
			n := tAddK(tSub(b, a), 1)
			st.emit(&Event{Kind: "range", A: []*Term{a, b}, Pos: cc.Pos})
			return one(st, e.tsResolved(st, x.stored(e, st, disk, a, n))), true
		}
		return inner(e, st, cc)
	}
	return cl
}

// stored is what the disk holds in [p, p+n).
func (x *layoutTS) stored(e *Engine, st *State, disk []diskPart, p, n *Term) *Term {
	f := st.facts
	stop := tAdd(p, n)
	if len(disk) == 1 {
		d := disk[0]
		end := tAdd(d.pos, seqLen(d.s))
		if f.implied(tLe(p, d.pos)) && f.implied(tLe(end, stop)) {
			return e.seqCat(f, seqVar("disk:"+p.String()+":before:"+d.pos.String(), tSub(d.pos, p)), d.s, seqVar("disk:"+end.String()+":"+stop.String(), tSub(stop, end)))
		}
	}
	return seqVar("disk:"+p.String()+":"+n.String(), n)
}

// page makes the client's slot object for (off, idx).
func (x *layoutTS) page(e *Engine, st *State, off, idx *Term) *Term {
	o := mkObj("slot", tsObjP)
	e.Run(x.ctor, nil, nil, newState()) // for its problems
	for _, r := range e.Run(x.ctor, []*Term{o, mkNamed("arg:resolver", tsFuncT), off, idx, tNil}, nil, st) {
		if r.panic {
			continue
		}
		for a, v := range r.st.mem {
			if addrRoot(a) == o {
				st.mem[a] = v
				if v == off {
					x.offF = a.s
				}
				if v == idx {
					x.idxF = a.s
				}
			}
		}
	}
	return o
}

func (x *layoutTS) exec(f *Func, disk []diskPart, pre func(*Facts)) *slotRun {
	x.c.Fn(f)
	e := newEngine(x.ts.GoProg, x.client(disk, nil))
	st := newState()
	st.facts.assume(tLe(mkInt(x.l.page), x.l.off))
	st.facts.assume(tLe(x.l.off, mkInt(1<<48)))
	if pre != nil {
		pre(st.facts)
	}
	o := x.page(e, st, x.l.off, x.l.idx)
	r := &slotRun{e: e, args: []*Term{o}}
	r.outs = e.Run(f, []*Term{o}, nil, st)
	x.c.Problems(e, f.Name)
	return r
}

func runC07(c *Ctx) {
	ts := c.TS()
	g := c.Prog("", "linux")
	l := &slots{c: &Ctx{obl: map[string]*obligation{}, funcs: map[string]bool{}, counters: map[string]int{}, mins: map[string]int{}}, g: g, cfg: "debug"}
	if miss := l.shape(); miss != "" {
		c.Missing("root", miss)
		return
	}
	l.off = mkNamed("slot:page", &Type{Kind: "int", Bits: 64, str: "uint64"})
	l.idx = mkNamed("slot:index", byteT)
	l.cnt = mkNamed("slot:count", byteT)
	l.next = seqVar("slot:next", mkInt(8))
	if !l.capacity() {
		c.Missing("root", "the number of slots per page")
		return
	}
	x := &layoutTS{c: c, l: l, ts: ts, ctor: ts.fn("LinkedMetaPage.constructor")}
	if x.ctor == nil || len(x.ctor.ParamN) < 4 {
		c.Missing("root", "LinkedMetaPage")
		return
	}
	x.slots()
	x.nextRule()
	x.start()
	x.meta("FileMeta", "readFileMeta", "filemeta", map[string]string{"Version": "version", "Format": "format", "ReadOffset": "readOffset", "Entries": "entries"})
	x.meta("IndexMeta", "readIndexMeta", "indexmeta", map[string]string{"FieldName": "fieldName", "FieldType": "fieldType", "Width": "width", "TotalFieldValueLength": "totalFieldValueLength"})
	x.enums()
	for r, n := range map[string]int{"root": 1, "metadata": 1, "next": 2, "start": 1, "filemeta": 4, "indexmeta": 4, "enum": 5} {
		c.Min(r, n)
	}
}

// obj is the term of a TS value that is an object.
func unbox(t *Term) *Term {
	for t.op == TIface && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

func (x *layoutTS) slots() {
	l := x.l
	for _, p := range []struct {
		rule     string
		set      *Func
		read     string
		complain string
	}{
		{"root", l.set, "LinkedMetaPage.root", "the root pointer read by the client is not the one Go stored in the slot"},
		{"metadata", l.setMeta, "LinkedMetaPage.metadata", "the metadata read by the client is not what Go stored in the slot"},
	} {
		f := x.ts.fn(p.read)
		if f == nil {
			x.c.Missing(p.rule, p.read)
			continue
		}
		r := l.exec(p.set, l.off, l.idx, nil, l.slotPre, nil)
		n := 0
		for _, o := range r.outs {
			if !succeeds(o) {
				continue
			}
			w := joined(r.e, o.st, "w")
			if w == nil {
				continue
			}
			n++
			arg := r.args[1]
			q := x.exec(f, []diskPart{{w.pos, w.s}}, func(fa *Facts) {
				l.slotPre(fa)
				for _, t := range o.st.facts.lits {
					fa.assume(t)
				}
			})
			con := f.Short + " returns what Go stored"
			k := 0
			for _, to := range q.outs {
				if to.panic {
					x.c.Obl(p.rule, con, false, to.pos, "the client refuses a slot that Go wrote")
					continue
				}
				k++
				fa := to.st.facts
				ok := false
				if p.rule == "root" {
					v := unbox(to.res[0])
					ok = v.op == TObj
					mp := p.set.ParamT[1]
					for _, fl := range mp.Fields {
						ok = ok && fa.implied(tEq(q.e.tsGet(to.st, v, strings.ToLower(fl.Name), tsNumT), mkField(arg, fl.Name, fl.Typ)))
					}
				} else {
					got := q.e.sliceSeq(to.st, unbox(to.res[0]), byteT)
					want := r.e.sliceSeq(o.st, arg, byteT)
					ok = seqSame(fa, got, want)
				}
				x.c.Obl(p.rule, con, ok, f.Pos, p.complain)
			}
			x.c.Obl(p.rule, con, k > 0, f.Pos, "the client never returns")
		}
		x.c.Obl(p.rule, f.Short+": Go side", n > 0, p.set.Pos, "no successful update was found on the Go side")
	}
}

func (x *layoutTS) nextRule() {
	l := x.l
	f := x.ts.fn("LinkedMetaPage.next")
	if f == nil {
		x.c.Missing("next", "LinkedMetaPage.next")
		return
	}
	nv := l.nextVal(nil)
	// the Go side, for the end of the list and the two ways on
	type way struct {
		lits     []*Term
		off, idx *Term // nil: the end
	}
	var ways []way
	r := l.exec(l.nextF, l.off, l.idx, l.header(l.cnt, l.next), l.listPre, nil)
	for _, o := range r.outs {
		switch {
		case o.panic || failedIO(o.st):
		case succeeds(o):
			off, i, _ := l.slotResult(r.e, o)
			ways = append(ways, way{o.st.facts.lits, off, i})
		case o.st.facts.implied(tEq(o.res[len(o.res)-1], mkNamed("global:err:io.EOF", tErrT))):
			ways = append(ways, way{o.st.facts.lits, nil, nil})
		}
	}
	for _, w := range ways {
		con := "next: the end of the list"
		if w.off != nil {
			con = "next: a slot of the linked page"
			if w.off == l.off {
				con = "next: a slot of the same page"
			}
		}
		q := x.exec(f, l.header(l.cnt, l.next), func(fa *Facts) {
			l.listPre(fa)
			fa.assume(tLe(tZero, nv))
			fa.assume(tLe(nv, maxU64))
			for _, t := range w.lits {
				fa.assume(t)
			}
		})
		for _, o := range q.outs {
			fa := o.st.facts
			if !fa.satisfiable() {
				continue
			}
			if o.panic {
				x.c.Obl("next", con, false, o.pos, "the client refuses a list that Go accepts")
				continue
			}
			v := unbox(o.res[0])
			if w.off == nil {
				x.c.Obl("next", con, v == tNil, f.Pos, "the client goes on where Go reports the end of the list")
				continue
			}
			ok := v.op == TObj && x.offF != "" && x.idxF != ""
			if ok {
				off, i := q.e.tsGet(o.st, v, x.offF, tsNumT), q.e.tsGet(o.st, v, x.idxF, tsNumT)
				ok = fa.implied(tEq(off, w.off)) && fa.implied(tEq(i, w.idx))
			}
			x.c.Obl("next", con, ok, f.Pos, "the slot the client goes on to is not the one Go goes on to")
		}
	}
	x.c.Obl("next", "next: ways on", len(ways) >= 3, l.nextF.Pos, "the Go side does not distinguish a slot of the page, a linked page and the end")
}

// start: the page opened first.
func (x *layoutTS) start() {
	l := x.l
	var arg *Term
	at := ""
	for _, f := range l.g.all {
		if f.Pkg != "appendable" {
			continue
		}
		eachInstr(f, func(in *Instr) {
			if in.Call != nil && in.Call.Fn == l.openF && len(in.A) > 0 {
				a := in.A[len(in.A)-1]
				if a.C != nil {
					arg, at = a.C, in.Pos
				}
			}
		})
	}
	if arg == nil {
		x.c.Missing("start", "the page number the index file opens its list with")
		return
	}
	// the header page is opened, and the first slot is the one after it: slot 0
	var pageF *Func
	for _, f := range l.g.methodsNamed("Page", "pagefile") {
		pageF = f
	}
	tree := x.ts.fn("IndexFileV1.tree")
	if tree == nil || pageF == nil {
		x.c.Missing("start", "PageFile.Page and IndexFileV1.tree")
		return
	}
	var want *Term
	e := newEngine(l.g, &Client{Inline: func(f *Func) bool { return f.Pkg == "pagefile" }, Call: func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Short == "Seek" && cc.In.Call.Invoke {
			return one(st, cc.Args[1], tNil), true
		}
		return nil, false
	}})
	as := symArgs(pageF)
	as[1] = arg
	for _, o := range e.Run(pageF, as, nil, newState()) {
		if !o.panic && o.st.facts.implied(tEq(o.res[1], tNil)) {
			want = o.res[0]
		}
	}
	x.c.Fn(tree)
	x.c.Obl("start", "page opened by Go", want != nil && want.op == TInt, at, "the position of the first page is not a constant")
	te := newEngine(x.ts.GoProg, x.client(nil, nil))
	o := mkObj("slot", tsObjP)
	st := newState()
	x.page(te, st, x.l.off, x.l.idx)
	file := mkNamed("arg:this", tsObjP)
	for _, r := range te.Run(tree, []*Term{file}, nil, st) {
		v := unbox(r.res[0])
		if r.panic || v.op != TObj {
			continue // the list opened earlier
		}
		o = v
		off, i := te.tsGet(r.st, o, x.offF, tsNumT), te.tsGet(r.st, o, x.idxF, tsNumT)
		x.c.Obl("start", "page opened by the client", want != nil && r.st.facts.implied(tEq(off, want)) && r.st.facts.implied(tEq(i, tZero)), tree.Pos, fmt.Sprintf("the client opens the list at %v slot %v, Go keeps it at %v slot 0", off, i, want))
	}
	x.c.Problems(te, tree.Name)
}

// meta: what MarshalBinary writes is what the reader returns.
func (x *layoutTS) meta(goType, reader, rule string, fields map[string]string) {
	g := x.l.g
	t := g.namedT("appendable." + goType)
	f := x.ts.fn(reader)
	if t == nil || f == nil {
		x.c.Missing(rule, goType+" and "+reader)
		return
	}
	w := g.methodOf(t, "MarshalBinary")
	if w == nil {
		x.c.Missing(rule, goType+".MarshalBinary")
		return
	}
	x.c.Fn(w)
	x.c.Fn(f)
	k := &codec{c: x.c, g: g, t: t, w: w, recv: symArgs(w)[0], decoded: map[string]bool{}, sizers: map[*Func]bool{}}
	lt := newLoopTracker()
	e := newEngine(g, k.client(lt, nil))
	st := newState()
	k.presets()[0].assume(e, st)
	recv := k.recv
	n := 0
	for _, o := range e.Run(w, []*Term{recv}, nil, st) {
		if o.panic || !o.st.facts.implied(tEq(o.res[1], tNil)) {
			continue
		}
		n++
		s := e.sliceSeq(o.st, o.res[0], byteT)
		te := newEngine(x.ts.GoProg, x.c.tsClient(x.ts))
		ts := newState()
		for _, q := range o.st.facts.lits {
			ts.facts.assume(q)
		}
		ts.facts.assume(tLe(seqLen(s), mkInt(1<<20)))
		buf := te.newSlice(ts, "metadata", byteT, s)
		k := 0
		for _, r := range te.Run(f, []*Term{buf}, nil, ts) {
			if r.panic {
				x.c.Obl(rule, reader+" accepts what Go writes", false, r.pos, "the client refuses metadata that Go wrote")
				continue
			}
			k++
			v := unbox(r.res[0])
			for gf, tf := range fields {
				ft := t.field(gf)
				con := reader + ": " + tf
				if ft == nil || v.op != TObj {
					x.c.Obl(rule, con, false, f.Pos, "the field is not there")
					continue
				}
				want := e.load(o.st, fieldAddr(recv, t, gf), ft)
				ok := false
				if ft.Kind == "string" {
					got := te.tsGet(r.st, v, tf, tStrT)
					ok = got.op == TApp && got.s == "stringof" && len(got.args) == 2 && seqSame(r.st.facts, got.args[1], strSeq(want)) || got == want
				} else {
					ok = r.st.facts.implied(tEq(te.tsGet(r.st, v, tf, tsNumT), want))
				}
				x.c.Obl(rule, con, ok, f.Pos, fmt.Sprintf("the client's %s is not what Go wrote for %s.%s", tf, goType, gf))
			}
		}
		x.c.Obl(rule, reader+" accepts what Go writes", k > 0, f.Pos, "the client never returns")
		x.c.Problems(te, f.Name)
	}
	x.c.Obl(rule, goType+".MarshalBinary", n > 0, w.Pos, "no successful encoding was found")
}

// goEnum are the constants declared of a type, without the type's name.
func (g *GoProg) goEnum(t *Type, prefix string) map[string]int64 {
	n, ok := t.gt.(*types.Named)
	if !ok {
		return nil
	}
	r := map[string]int64{}
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		k, isC := sc.Lookup(nm).(*types.Const)
		if isC && types.Identical(k.Type(), n) {
			if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
				r[strings.TrimPrefix(nm, prefix)] = v
			}
		}
	}
	return r
}

func (x *layoutTS) enums() {
	for _, p := range []struct{ goT, pre, ts string }{{"appendable.FieldType", "FieldType", "FieldType"}, {"appendable.Format", "Format", "FileFormat"}} {
		t := x.l.g.namedT(p.goT)
		m := x.ts.enums[p.ts]
		if t == nil || m == nil {
			x.c.Missing("enum", p.goT+" and "+p.ts)
			continue
		}
		ge := x.l.g.goEnum(t, p.pre)
		var names []string
		byVal := map[int64]string{}
		for n, v := range ge {
			names = append(names, n)
			byVal[v] = n
		}
		sort.Strings(names)
		for _, n := range names {
			v, ok := m[n]
			if !ok && n == "Vector" {
				continue // not queried by the client
			}
			x.c.Obl("enum", p.ts+"."+n, ok && v == ge[n], "", fmt.Sprintf("Go writes %d for %s, the client takes that for something else (%v %v)", ge[n], n, v, ok))
		}
		for n, v := range m {
			if gn := byVal[v]; gn != n {
				x.c.Obl("enum", p.ts+"."+n, false, "", fmt.Sprintf("the client reads %d as %s, Go wrote it for %q", v, n, gn))
			}
		}
	}
}
