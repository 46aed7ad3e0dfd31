package main

// C25: every field and type has exactly one index, found by scanning the list
// of slots and otherwise created at its end with its metadata stored.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C25",
		Title: "every field and type has one index, found or created with its metadata",
		Rules: "The lookup of an index and the listing of field names are analysed over an abstract list of slots: moving to the next slot gives the following slot, the end of the list, or a failure. (scan) the scan starts at the slot of the file metadata, always moves on from the slot reached last, and leaves a slot only when its decoded name or type is known to differ from the one asked for (listing: when its name is in the result); (found) an existing slot is returned only if the name and the type decoded from it equal those asked for, together with exactly what was decoded from it, and nothing is written; (create) a slot is added only after the end of the list was reached, to the last slot; the one returned is the one added and the metadata returned has the name and type asked for and a zero total; (persist) exactly that metadata was stored in exactly that slot before success is reported; (fits) a slot is added only when its metadata, with the largest total it can ever hold, is known to be acceptable to SetMetadata; (names) a field name is listed only if it is not in the result already; (update) an update of the metadata of an index by a data handler is stored in the slot it was found in, keeps name, type and width, and never lowers the total. (file) the metadata of the file are read from and written to the slot the scan starts at; an index file is empty exactly if no slot follows it.",
		Trust: []string{"Go type checker and go/ssa construction", "the list of slots behaves as proved in C05 and its operations fail with an error other than io.EOF", "metadata decode to what was encoded (C06)", "the membership test of Go maps and slices.Contains"},
		Run:   runC25,
	})
}

const ghostKey = "ghost"

func ghostCell(name string, t *Type) *Term {
	c := mkNamed("ghost."+name, t)
	fldKeyOf[c] = ghostKey
	fldTypeOf[c] = t
	return c
}

// finder follows a scan of the list of slots.
type finder struct {
	c                  *Ctx
	g                  *GoProg
	root               *Func
	fileT, idxT        *Type // FileMeta, IndexMeta
	cursor, seen, end  *Term // ghosts: slot reached, may it be left, is it the last
	start, marked      *Term
	lim                int64
	scan               bool // leaving slots is judged
	nameF, typeF, totF string
	may                func(e *Engine, st *State, page *Term) bool
}

var eofTerm = mkNamed("global:err:io.EOF", tErrT)

func ioError(st *State, hint string) *Term {
	er := freshErr(hint)
	st.facts.assume(tNot(tEq(er, eofTerm)))
	st.facts.assume(tNot(mkApp("errors.Is", tBoolT, er, eofTerm)))
	return er
}

func (q *finder) same(st *State, a, b *Term) bool { return a == b || st.facts.implied(tEq(a, b)) }

// page names a slot: the one reached last keeps one name.
func (q *finder) page(st *State, p *Term) *Term {
	for _, c := range []*Term{st.mem[q.cursor], q.start} {
		if c != nil && q.same(st, p, c) {
			return c
		}
	}
	return p
}

func metaOf(page *Term) *Term {
	return seqVarApp(mkApp("slotmeta", nil, page), rng(mkApp("slotlen", tIntT, page), 0, 255))
}

func decoded(t *Type, field string, s *Term) *Term {
	for _, fl := range t.Fields {
		if fl.Name == field {
			return mkApp("decoded:"+field, fl.Typ, s)
		}
	}
	return tNil
}

func (q *finder) isMeta(t *Type) *Type {
	if t == nil || t.Kind != "ptr" {
		return nil
	}
	for _, m := range []*Type{q.fileT, q.idxT} {
		if t.Elem.String() == m.String() {
			return m
		}
	}
	return nil
}

func (q *finder) fields(e *Engine, st *State, o *Term, t *Type) []*Term {
	var vs []*Term
	for _, fl := range t.Fields {
		vs = append(vs, e.load(st, fieldAddr(o, t, fl.Name), fl.Typ))
	}
	return vs
}

// encodedLen: the length of what the encoder produces, from its code.
func (q *finder) encodedLen(st *State, m *Func, o *Term) *Term {
	e := newEngine(q.g, &Client{Inline: func(fn *Func) bool { return fn.Pkg == "encoding" || fn.Pkg == m.Pkg }})
	for _, r := range e.Run(m, []*Term{o}, nil, st.clone()) {
		if !r.panic && len(r.res) == 2 && r.st.facts.implied(tEq(r.res[1], tNil)) {
			return lenOf(r.res[0])
		}
	}
	return nil
}

func (q *finder) leave(e *Engine, st *State, p *Term, pos, what string) {
	if e.dry > 0 {
		return
	}
	con := q.root.Name
	q.c.Obl("scan", con+": in sequence", q.same(st, p, st.mem[q.cursor]), pos, what+" from a slot other than the one reached last")
	if q.scan {
		q.c.Obl("scan", con+": no slot is skipped", q.mayLeave(e, st), pos, "a slot is passed over although it may be the one asked for")
	}
}

func (q *finder) mayLeave(e *Engine, st *State) bool {
	return st.facts.implied(tEq(st.mem[q.seen], tTrue)) || q.may != nil && q.may(e, st, st.mem[q.cursor])
}

func (q *finder) client() *Client {
	cl := &Client{Ghost: []string{ghostKey}}
	cl.Inline = func(fn *Func) bool {
		switch fn.Pkg {
		case q.root.Pkg, "appendable":
			return fn != q.root
		case "linkedpage":
			return fn.Short == "MarshalMetadata" || fn.Short == "UnmarshalMetadata"
		}
		return false
	}
	cl.OnBranch = func(e *Engine, st *State, c *Term, taken bool, in *Instr) {
		if q.scan && st.mem[q.seen] != tTrue && q.may(e, st, st.mem[q.cursor]) {
			st.mem[q.seen] = tTrue
			if q.marked != nil {
				st.mem[q.marked] = tTrue
			}
		}
	}
	cl.MergeKey = func(st *State) string {
		k := ""
		for _, c := range []*Term{q.cursor, q.seen, q.end, q.marked} {
			if c == nil {
				continue
			}
			if v := st.mem[c]; v != nil {
				k += fmt.Sprintf("|%d", v.id)
			}
		}
		return k
	}
	cl.ExtraCands = func(e *Engine, st *State, fn *Func, h int) []*Term {
		var out []*Term
		cur := st.mem[q.cursor]
		for _, v := range st.env {
			if v.typ != nil && cur.typ != nil && v != cur && v.typ.Kind == "ptr" && v.typ.String() == cur.typ.String() {
				out = append(out, tEq(v, cur))
			}
		}
		for _, g := range []*Term{q.seen, q.end, q.marked} {
			if g == nil {
				continue
			}
			out = append(out, tEq(st.mem[g], tTrue))
		}
		return out
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Fn == nil {
			return nil, false
		}
		if len(cc.Fn.ParamT) > 0 {
			if t := q.isMeta(cc.Fn.ParamT[0]); t != nil {
				switch cc.Short {
				case "UnmarshalBinary":
					s := e.sliceSeq(st, cc.Args[1], byteT)
					s2 := st.clone()
					for _, fl := range t.Fields {
						e.store(st, fieldAddr(cc.Args[0], t, fl.Name), mkApp("decoded:"+fl.Name, fl.Typ, s), fl.Typ, nil)
						e.store(s2, fieldAddr(cc.Args[0], t, fl.Name), mkSym("garbled", fl.Typ), fl.Typ, nil)
					}
					return []Outcome{{st: st, res: []*Term{tNil}}, {st: s2, res: []*Term{ioError(s2, "decode")}}}, true
				case "MarshalBinary":
					n := q.encodedLen(st, cc.Fn, cc.Args[0])
					if n == nil {
						n = rng(mkApp("encodedlen", tIntT, q.fields(e, st, cc.Args[0], t)...), 0, 1<<20)
					}
					s := seqVarApp(mkApp("encoded", nil, q.fields(e, st, cc.Args[0], t)...), n)
					return one(st, e.newSlice(st, "encoded", byteT, s), tNil), true
				}
			}
		}
		if cc.Fn.Pkg != "linkedpage" {
			return nil, false
		}
		switch cc.Short {
		case "Next":
			q.leave(e, st, cc.Args[0], cc.Pos, "the scan moves on")
			p := q.page(st, cc.Args[0])
			st.mem[q.end] = tFalse
			eof, fail := st.clone(), st.clone()
			nx := mkApp("nextslot", cc.Fn.Results[0], p)
			st.facts.assume(tNot(tEq(nx, tNil)))
			st.mem[q.cursor], st.mem[q.seen] = nx, tFalse
			if q.same(st, p, eof.mem[q.cursor]) {
				eof.mem[q.end] = tTrue
			}
			fail.emit(&Event{Kind: "io-failed", Pos: cc.Pos})
			return []Outcome{{st: st, res: []*Term{nx, tNil}}, {st: eof, res: []*Term{tNil, eofTerm}}, {st: fail, res: []*Term{tNil, ioError(fail, "next")}}}, true
		case "Metadata":
			s2 := st.clone()
			s2.emit(&Event{Kind: "io-failed", Pos: cc.Pos})
			p := q.page(st, cc.Args[0])
			st.emit(&Event{Kind: "read", A: []*Term{p}, Pos: cc.Pos})
			return []Outcome{{st: st, res: []*Term{e.newSlice(st, "metadata", byteT, metaOf(p)), tNil}}, {st: s2, res: []*Term{tNil, ioError(s2, "metadata")}}}, true
		case "SetMetadata":
			s := e.sliceSeq(st, cc.Args[1], byteT)
			s2, s3 := st.clone(), st.clone()
			n := lenOf(cc.Args[1])
			st.facts.assume(tLe(n, mkInt(q.lim)))
			s3.facts.assume(tLt(mkInt(q.lim), n))
			p := q.page(st, cc.Args[0])
			st.emit(&Event{Kind: "set", A: []*Term{p, s}, Pos: cc.Pos})
			s2.emit(&Event{Kind: "io-failed", Pos: cc.Pos})
			s3.emit(&Event{Kind: "too-large", A: []*Term{p, s}, Pos: cc.Pos})
			outs := []Outcome{{st: st, res: []*Term{tNil}}, {st: s2, res: []*Term{ioError(s2, "setmetadata")}}}
			if !s3.facts.dead && s3.facts.satisfiable() {
				outs = append(outs, Outcome{st: s3, res: []*Term{ioError(s3, "toolarge")}})
			}
			return outs, true
		case "AddNext":
			if e.dry == 0 {
				q.leave(e, st, cc.Args[0], cc.Pos, "a slot is added")
				q.c.Obl("create", q.root.Name+": at the end", st.facts.implied(tEq(st.mem[q.end], tTrue)), cc.Pos, "a slot is added before the end of the list was reached")
			}
			s2 := st.clone()
			s2.emit(&Event{Kind: "io-failed", Pos: cc.Pos})
			nx := mkApp("newslot", cc.Fn.Results[0], q.page(st, cc.Args[0]))
			st.facts.assume(tNot(tEq(nx, tNil)))
			st.emit(&Event{Kind: "add", A: []*Term{nx}, Pos: cc.Pos})
			return []Outcome{{st: st, res: []*Term{nx, tNil}}, {st: s2, res: []*Term{tNil, ioError(s2, "addnext")}}}, true
		case "SetRoot", "Root", "BPTree", "BTree":
			if cc.Short == "SetRoot" {
				st.emit(&Event{Kind: "set", A: []*Term{q.page(st, cc.Args[0]), tNil}, Pos: cc.Pos})
			}
		}
		return nil, false
	}
	return cl
}

func (q *finder) run(cl *Client, st *State, args []*Term) (*Engine, []Outcome) {
	q.c.Fn(q.root)
	e := newEngine(q.g, cl)
	q.cursor, q.seen, q.end = ghostCell("cursor", q.start.typ), ghostCell("seen", tBoolT), ghostCell("end", tBoolT)
	st.mem[q.cursor], st.mem[q.seen], st.mem[q.end] = q.start, tTrue, tFalse
	outs := e.Run(q.root, args, nil, st)
	q.c.Problems(e, q.root.Name)
	q.c.Count("paths", len(outs))
	return e, outs
}

// acceptable is the largest metadata SetMetadata accepts.
func (q *finder) acceptable() bool {
	scratch := *q.c
	scratch.obl, scratch.order = map[string]*obligation{}, nil
	l := &slots{c: &scratch, g: q.g, cfg: "debug"}
	if l.shape() != "" {
		return false
	}
	l.off = mkNamed("slot:page", &Type{Kind: "int", Bits: 64, str: "uint64"})
	l.idx = mkNamed("slot:index", byteT)
	l.cnt = mkNamed("slot:count", byteT)
	l.next = seqVar("slot:next", mkInt(8))
	l.n = 1
	r := l.exec(l.setMeta, l.off, l.idx, l.header(l.cnt, l.next), l.slotPre, nil)
	for k := int64(0); k <= 1<<12; k++ {
		n, ok := 0, true
		for _, o := range r.outs {
			if succeeds(o) {
				n++
				ok = ok && o.st.facts.implied(tLe(lenOf(r.args[1]), mkInt(k)))
			}
		}
		if n == 0 {
			return false
		}
		if ok {
			q.lim = k
			return true
		}
	}
	return false
}

func (q *finder) fieldOf(t *Type, name string) TField {
	for _, fl := range t.Fields {
		if fl.Name == name {
			return fl
		}
	}
	return TField{}
}

func (q *finder) roleFields() bool {
	strs, typs := 0, 0
	for _, fl := range q.idxT.Fields {
		switch {
		case fl.Typ.Kind == "string":
			q.nameF = fl.Name
			strs++
		case fl.Typ.Name == "appendable.FieldType":
			q.typeF = fl.Name
			typs++
		case fl.Typ.Kind == "int" && fl.Typ.Bits == 64:
			q.totF = fl.Name
		}
	}
	return strs == 1 && typs == 1 && q.totF != ""
}

// list prepares the scan of the list that starts at the index file's slot.
func (q *finder) list(f *Func) (st *State, args []*Term) {
	q.root = f
	args = symArgs(f)
	st = newState()
	q.start = nil
	for _, fl := range f.ParamT[0].Elem.Fields {
		if fl.Typ.Kind == "ptr" && fl.Typ.Elem != nil && fl.Typ.Elem.Name == "linkedpage.LinkedPage" {
			q.start = mkNamed("slot:filemeta", fl.Typ)
			st.mem[fieldAddr(args[0], f.ParamT[0].Elem, fl.Name)] = q.start
			st.facts.assume(tNot(tEq(q.start, tNil)))
		}
	}
	return st, args
}

func (q *finder) findRule(f *Func) {
	c := q.c
	st, args := q.list(f)
	var name, typ *Term
	for i, p := range f.ParamT {
		if p.Kind == "string" {
			name = args[i]
		}
		if p.Name == "appendable.FieldType" {
			typ = args[i]
		}
	}
	if q.start == nil || name == nil || typ == nil {
		c.Missing("scan", f.Name+": the list of slots, the name and the type")
		return
	}
	q.scan = true
	q.marked = nil
	q.may = func(e *Engine, st *State, page *Term) bool {
		m := metaOf(page)
		return st.facts.refuted(tEq(decoded(q.idxT, q.nameF, m), name)) || st.facts.refuted(tEq(decoded(q.idxT, q.typeF, m), typ))
	}
	cl := q.client()
	base := cl.Call
	maxLen := func(st *State) *Term {
		o := mkObj("largest", ptrTo(q.idxT))
		s := st.clone()
		for _, fl := range q.idxT.Fields {
			v := mkSym("any", fl.Typ)
			switch fl.Name {
			case q.nameF:
				v = name
			case q.totF:
				v = maxU64
			}
			s.mem[fieldAddr(o, q.idxT, fl.Name)] = v
		}
		return q.encodedLen(s, q.g.methodOf(q.idxT, "MarshalBinary"), o)
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if e.dry == 0 && cc.Fn != nil && cc.Fn.Pkg == "linkedpage" && cc.Short == "AddNext" {
			n := maxLen(st)
			c.Obl("fits", f.Name, n != nil && st.facts.implied(tLe(n, mkInt(q.lim))), cc.Pos, fmt.Sprintf("a slot is added although its metadata, now or with a larger total, may exceed the %d bytes a slot accepts: the slot is left without metadata or cannot be updated", q.lim))
		}
		return base(e, st, cc)
	}
	_, outs := q.run(cl, st, args)
	pi, mi, ei := -1, -1, errResult(f.Results)
	for i, r := range f.Results {
		if r.Kind == "ptr" && r.Elem.Name == "linkedpage.LinkedPage" {
			pi = i
		}
		if q.isMeta(r) == q.idxT {
			mi = i
		}
	}
	if pi < 0 || mi < 0 || ei < 0 {
		c.Missing("found", f.Name+": a slot, its metadata and an error as results")
		return
	}
	nf, nc := 0, 0
	for _, o := range outs {
		if o.panic {
			c.Obl("found", f.Name+": panics", false, o.pos, "the lookup can panic")
			continue
		}
		adds, sets := evsOf(o.st, "add"), evsOf(o.st, "set")
		fa := o.st.facts.clone()
		if fa.refuted(tEq(o.res[ei], tNil)) {
			for _, ev := range evsOf(o.st, "too-large") {
				c.Obl("fits", f.Name, len(adds) == 0, ev.Pos, "a slot is added before it turns out that its metadata does not fit")
			}
			c.Obl("persist", f.Name+": refused", len(adds) == 0 || len(evsOf(o.st, "io-failed")) > 0, o.pos, "a slot is added and an error reported although nothing failed")
			continue
		}
		fa.assume(tEq(o.res[ei], tNil))
		if fa.dead || !fa.consistent() {
			continue
		}
		p, m := o.res[pi], o.res[mi]
		e := newEngine(q.g, cl)
		val := func(field string) *Term {
			return e.load(o.st, fieldAddr(m, q.idxT, field), q.fieldOf(q.idxT, field).Typ)
		}
		eq := func(a, b *Term) bool { return a == b || fa.implied(tEq(a, b)) }
		if len(adds) == 0 {
			nf++
			cur := o.st.mem[q.cursor]
			c.Obl("found", f.Name+": slot", eq(p, cur) && cur != q.start, o.pos, "the slot returned is not the one the scan reached last")
			s := metaOf(cur)
			c.Obl("found", f.Name+": name and type", eq(decoded(q.idxT, q.nameF, s), name) && eq(decoded(q.idxT, q.typeF, s), typ), o.pos, "an existing slot is returned although its name or type may differ from the one asked for")
			ok := true
			for _, fl := range q.idxT.Fields {
				ok = ok && eq(val(fl.Name), decoded(q.idxT, fl.Name, s))
			}
			c.Obl("found", f.Name+": metadata", ok, o.pos, "the metadata returned is not what is stored in the slot returned")
			c.Obl("found", f.Name+": unchanged", len(sets) == 0, o.pos, "looking up an existing index writes metadata")
			continue
		}
		nc++
		c.Obl("create", f.Name+": slot", len(adds) == 1 && eq(p, adds[0].A[0]), o.pos, "the slot returned is not the one just added")
		c.Obl("create", f.Name+": metadata", eq(val(q.nameF), name) && eq(val(q.typeF), typ) && eq(val(q.totF), tZero), o.pos, "the metadata of a new index does not have the name and type asked for and a zero total")
		ok := len(sets) > 0
		if ok {
			last := sets[len(sets)-1]
			x := wholeOf(last.A[1])
			ok = eq(last.A[0], p) && x != nil && x.op == TApp && x.s == "encoded"
			for _, s := range sets {
				ok = ok && eq(s.A[0], p)
			}
			for i, fl := range q.idxT.Fields {
				ok = ok && i < len(x.args) && eq(x.args[i], val(fl.Name))
			}
		}
		c.Obl("persist", f.Name, ok, o.pos, "the metadata returned for a new index is not what was stored in its slot")
	}
	if nf == 0 {
		c.Missing("found", f.Name+": a path that returns an existing index")
	}
	if nc == 0 {
		c.Missing("create", f.Name+": a path that creates an index")
	}
}

// namesRule: the listing of field names has the name of every slot, once.
func (q *finder) namesRule(f *Func) {
	c := q.c
	st, args := q.list(f)
	if q.start == nil {
		c.Missing("scan", f.Name+": the list of slots")
		return
	}
	name := func(page *Term) *Term { return decoded(q.idxT, q.nameF, metaOf(page)) }
	// has: 1 the name is known to be in a collection, -1 known not to be
	has := func(st *State, nm *Term) int {
		r := 0
		for cell, v := range st.mem {
			if !strings.HasPrefix(fldKeyOf[cell], "map:") {
				continue
			}
			for _, t := range []*Term{mapHas(st, v, nm), mapGet(st, v, nm, tBoolT)} {
				if t == tTrue || st.facts.implied(t) {
					return 1
				}
				if t == tFalse || st.facts.refuted(t) {
					r = -1
				}
			}
		}
		for _, l := range st.facts.lits {
			neg := false
			if l.op == TApp && l.s == "not" {
				l, neg = l.args[0], true
			}
			if l.op == TApp && l.s == "isin" && len(l.args) == 2 && q.same(st, l.args[1], nm) {
				if !neg {
					return 1
				}
				r = -1
			}
		}
		return r
	}
	tests, maps := false, false
	seenFn := map[*Func]bool{}
	var walk func(f *Func)
	walk = func(f *Func) {
		if f == nil || seenFn[f] || f.Pkg != "appendable" {
			return
		}
		seenFn[f] = true
		eachInstr(f, func(in *Instr) {
			maps = maps || in.Op == OpLookup && in.OpT != nil && in.OpT.Kind == "map"
			tests = tests || in.Call != nil && (strings.HasPrefix(in.Call.Short, "Contains") || strings.HasPrefix(in.Call.Name, "slices.Contains"))
			if in.Call != nil {
				walk(in.Call.Fn)
			}
		})
	}
	walk(f)
	// a hand-written search of the result is not followed
	q.scan = tests || maps || !searches(seenFn)
	fresh := ghostCell("fresh", tBoolT)
	q.marked = ghostCell("marked", tBoolT)
	st.mem[fresh], st.mem[q.marked] = tFalse, tTrue
	q.may = func(e *Engine, st *State, page *Term) bool {
		return !q.same(st, st.mem[fresh], tTrue) && has(st, name(page)) > 0
	}
	cl := q.client()
	base := cl.Call
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Fn != nil && cc.Fn.Pkg == "linkedpage" && cc.Short == "Next" {
			if cur := st.mem[q.cursor]; e.dry == 0 && maps && cur != q.start {
				c.Obl("names", f.Name+": remembered", q.same(st, st.mem[q.marked], tTrue) || has(st, name(cur)) > 0, cc.Pos, "a field name that was listed is not remembered, so it would be listed again")
			}
			st.mem[fresh] = tFalse
			st.mem[q.marked] = tFalse
		}
		if cc.Name == "slices.Contains" && len(cc.Args) == 2 {
			t := mkApp("isin", tBoolT, cc.Args[0], cc.Args[1])
			return one(st, t), true
		}
		return base(e, st, cc)
	}
	cl.OnMapUpdate = func(e *Engine, st *State, m, k, v *Term, in *Instr) {
		if cur := st.mem[q.cursor]; q.same(st, k, name(cur)) {
			switch has(st, k) {
			case 1:
				if !q.same(st, st.mem[fresh], tTrue) {
					st.mem[q.seen] = tTrue
				}
			case -1:
				st.mem[fresh] = tTrue
			}
			st.mem[q.marked] = tTrue
		}
	}
	n := 0
	cl.OnAppend = func(e *Engine, st *State, pos, body *Term, in *Instr) {
		cur := st.mem[q.cursor]
		x := e.seqAt(st.facts, body, tZero, q.fieldOf(q.idxT, q.nameF).Typ)
		if !q.same(st, x, name(cur)) {
			return
		}
		if e.dry == 0 && q.scan {
			n++
			c.Obl("names", f.Name+": once", q.same(st, st.mem[fresh], tTrue) || has(st, name(cur)) < 0, f.Pos, "a field name is listed although it may be in the result already")
		}
		st.mem[q.seen] = tTrue
	}
	_, outs := q.run(cl, st, args)
	c.Count("appends", n)
	for _, o := range outs {
		if o.panic {
			c.Obl("names", f.Name+": panics", false, o.pos, "the listing can panic")
		} else if !o.st.facts.refuted(tEq(o.res[errResult(f.Results)], tNil)) {
			c.Obl("names", f.Name+": complete", o.st.facts.implied(tEq(o.st.mem[q.end], tTrue)), o.pos, "a listing is returned before the end of the list was reached")
			c.Obl("names", f.Name+": reads only", len(evsOf(o.st, "set")) == 0 && len(evsOf(o.st, "add")) == 0, o.pos, "listing the names changes the index file")
		}
	}
}

// searches: one of the functions walks over a list of strings.
func searches(fs map[*Func]bool) bool {
	r := false
	for f := range fs {
		phi := map[int]bool{}
		eachInstr(f, func(in *Instr) {
			if in.Op == OpPhi {
				phi[in.Dst] = true
			}
		})
		eachInstr(f, func(in *Instr) {
			if in.Op == OpBin && phi[in.A[0].Reg] {
				phi[in.Dst] = true // the incremented index of a range loop
			}
		})
		eachInstr(f, func(in *Instr) {
			if in.Op == OpIndexAddr && len(in.A) == 2 && in.A[1].C == nil && phi[in.A[1].Reg] && in.Typ != nil && in.Typ.Kind == "ptr" && in.Typ.Elem.Kind == "string" {
				r = true
			}
		})
	}
	return r
}

// fileRule: the operations of the index file on its own slot.
func (q *finder) fileRule(f *Func) {
	c := q.c
	st, args := q.list(f)
	q.scan, q.may, q.marked = false, nil, nil
	if q.start == nil {
		return
	}
	cl := q.client()
	e, outs := q.run(cl, st, args)
	fields := func(o Outcome, p *Term) []*Term { return q.fields(e, o.st, p, q.fileT) }
	ei := errResult(f.Results)
	for _, o := range outs {
		if o.panic {
			continue
		}
		fa := o.st.facts.clone()
		eq := func(a, b *Term) bool { return a == b || fa.implied(tEq(a, b)) }
		sets := evsOf(o.st, "set")
		if fa.refuted(tEq(o.res[ei], tNil)) {
			continue
		}
		fa.assume(tEq(o.res[ei], tNil))
		if fa.dead || !fa.consistent() {
			continue
		}
		switch {
		case len(f.ParamT) == 2 && q.isMeta(f.ParamT[1]) == q.fileT: // store
			ok := len(sets) == 1 && sets[0].A[0] == q.start
			if ok {
				x := wholeOf(sets[0].A[1])
				ok = x.op == TApp && x.s == "encoded"
				for i, v := range fields(o, args[1]) {
					ok = ok && eq(v, x.args[i])
				}
			}
			c.Obl("file", f.Name, ok, o.pos, "success is reported although the given metadata was not stored in the slot of the file metadata")
		case len(f.ParamT) == 1 && len(f.Results) == 2 && q.isMeta(f.Results[0]) == q.fileT:
			ok := len(sets) == 0
			for i, v := range fields(o, o.res[0]) {
				ok = ok && eq(v, mkApp("decoded:"+q.fileT.Fields[i].Name, q.fileT.Fields[i].Typ, metaOf(q.start)))
			}
			c.Obl("file", f.Name, ok, o.pos, "the metadata returned are not those stored in the slot of the file metadata")
		case len(f.ParamT) == 1 && len(f.Results) == 2 && f.Results[0].Kind == "bool":
			end := o.st.mem[q.end] == tTrue
			moved := o.st.mem[q.cursor] != q.start
			c.Obl("file", f.Name, end && eq(o.res[0], tTrue) || moved && eq(o.res[0], tFalse), o.pos, "the answer is not whether a slot follows the file metadata")
		case len(f.ParamT) == 1 && len(f.Results) == 2 && f.Results[0].Kind == "ptr":
			c.Obl("file", f.Name, o.st.mem[q.cursor] != q.start && eq(o.res[0], o.st.mem[q.cursor]), o.pos, "the slot returned is not the one after the file metadata")
		}
	}
}

// updateRule: what a data handler stores for an index.
func (q *finder) updateRule(f *Func, rec map[*Func]bool) {
	c := q.c
	c.Fn(f)
	cl := &Client{}
	cl.Inline = func(fn *Func) bool {
		return fn != f && fn.Pkg == f.Pkg && !rec[fn] || fn.Pkg == "linkedpage" && (fn.Short == "MarshalMetadata" || fn.Short == "UnmarshalMetadata")
	}
	n := 0
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Fn == nil {
			return nil, false
		}
		if cc.Fn.Pkg == "appendable" && len(cc.Fn.Results) > 0 && q.isMeta(cc.Fn.Results[0]) == nil {
			mi, pi := -1, -1
			for i, r := range cc.Fn.Results {
				if q.isMeta(r) == q.idxT {
					mi = i
				}
				if r.Kind == "ptr" && r.Elem.Name == "linkedpage.LinkedPage" {
					pi = i
				}
			}
			if mi >= 0 && pi >= 0 {
				s2 := st.clone()
				o := mkObj("indexmeta", ptrTo(q.idxT))
				res, bad := make([]*Term, len(cc.Fn.Results)), make([]*Term, len(cc.Fn.Results))
				p := mkSym("slot", cc.Fn.Results[pi])
				st.facts.assume(tNot(tEq(p, tNil)))
				var a []*Term
				a = append(a, p)
				for _, fl := range q.idxT.Fields {
					v := mkSym("found."+fl.Name, fl.Typ)
					st.mem[fieldAddr(o, q.idxT, fl.Name)] = v
					a = append(a, v)
				}
				st.emit(&Event{Kind: "found", A: a, Pos: cc.Pos})
				for i := range res {
					res[i], bad[i] = tNil, tNil
				}
				res[pi], res[mi] = p, o
				bad[len(bad)-1] = ioError(s2, "find")
				return []Outcome{{st: st, res: res}, {st: s2, res: bad}}, true
			}
		}
		if cc.Short == "MarshalBinary" && len(cc.Fn.ParamT) > 0 && q.isMeta(cc.Fn.ParamT[0]) == q.idxT {
			fs := q.fields(e, st, cc.Args[0], q.idxT)
			s := seqVarApp(mkApp("encoded", nil, fs...), rng(mkApp("encodedlen", tIntT, fs...), 0, 1<<20))
			return one(st, e.newSlice(st, "encoded", byteT, s), tNil), true
		}
		if cc.Fn.Pkg == "linkedpage" && cc.Short == "SetMetadata" {
			if e.dry > 0 {
				return nil, false
			}
			n++
			s := wholeOf(e.sliceSeq(st, cc.Args[1], byteT))
			var ev *Event
			for _, x := range evsOf(st, "found") {
				if x.A[0] == cc.Args[0] || st.facts.implied(tEq(x.A[0], cc.Args[0])) {
					ev = x
				}
			}
			ok, msg := ev != nil && s.op == TApp && s.s == "encoded", "the metadata stored are not those of an index that was looked up"
			if ok {
				for i, fl := range q.idxT.Fields {
					old, v := ev.A[i+1], s.args[i]
					if fl.Name == q.totF {
						lower := v
						for lower.op == TApp && strings.HasPrefix(lower.s, "wrap") {
							lower = lower.args[0]
						}
						if !(fromLoop(v) || st.facts.implied(tLe(old, lower)) || q.grows(st, v, old)) {
							ok, msg = false, "the total length of an index can be lowered"
						}
					} else if v != old && !st.facts.implied(tEq(v, old)) {
						ok, msg = false, "the "+fl.Name+" of an index is changed"
					}
				}
			}
			c.Obl("update", f.Name, ok, cc.Pos, msg)
			return nil, false
		}
		return nil, false
	}
	e := newEngine(q.g, cl)
	e.Run(f, symArgs(f), nil, newState())
	c.Problems(e, f.Name)
	c.Count("updates", n)
}

// wholeOf strips a span that covers all of a sequence.
func wholeOf(s *Term) *Term {
	if s != nil && s.op == TApp && s.s == "cat" && len(s.args) == 1 {
		x := s.args[0]
		if x.op == TApp && x.s == "span" && len(x.args) == 3 && x.args[1] == tZero && x.args[2] == seqLen(x.args[0]) {
			return x.args[0]
		}
	}
	return s
}

// grows: the loop that computed v only ever adds to it.
func (q *finder) grows(st *State, v, old *Term) bool { return false }

func runC25(c *Ctx) {
	g := c.Prog("", "")
	q := &finder{c: c, g: g, fileT: g.namedT("appendable.FileMeta"), idxT: g.namedT("appendable.IndexMeta")}
	if q.fileT == nil || q.idxT == nil || !q.roleFields() {
		c.Missing("scan", "the metadata of files and indexes")
		return
	}
	if !q.acceptable() {
		c.Missing("fits", "the largest metadata a slot accepts")
		return
	}
	n := 0
	for _, f := range g.all {
		if f.Pkg != "appendable" || !f.Exported || f.Recv == "" || len(f.ParamT) == 0 || f.ParamT[0].Kind != "ptr" || f.ParamT[0].Elem.Name != "appendable.IndexFile" {
			continue
		}
		pages := 0
		for _, r := range f.Results {
			if r.Kind == "ptr" && q.isMeta(r) == q.idxT {
				pages++
			}
		}
		switch {
		case pages > 0:
			n++
			q.findRule(f)
		case len(f.ParamT) == 1 && len(f.Results) == 2 && f.Results[0].Kind == "slice" && f.Results[0].Elem.Kind == "string":
			q.namesRule(f)
		default:
			if errResult(f.Results) >= 0 && f.Short != "Synchronize" {
				q.fileRule(f)
			}
		}
	}
	if n == 0 {
		c.Missing("scan", "an exported lookup of an index")
	}
	rec := map[*Func]bool{}
	var users []*Func
	for _, f := range g.all {
		if f.Pkg != "handlers" || len(f.Blocks) == 0 {
			continue
		}
		direct := false
		eachInstr(f, func(in *Instr) {
			if in.Call != nil && in.Call.Fn != nil && in.Call.Fn.Pkg == "appendable" {
				for _, r := range in.Call.Fn.Results {
					direct = direct || q.isMeta(r) == q.idxT
				}
			}
		})
		if direct {
			users = append(users, f)
		}
		if callsFn(f, f) {
			rec[f] = true
		}
	}
	for _, f := range users {
		q.updateRule(f, rec)
	}
	c.Min("scan", 2)
	c.Min("found", 3)
	c.Min("create", 2)
}

func (g *GoProg) namedT(name string) *Type {
	for n, t := range g.named {
		if n == name {
			return g.typ(t)
		}
	}
	return nil
}
