package main

// C09: the page allocator.  The free list is a ring kept in memory and in the
// first page of the file; pages are handed out whole and aligned.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C09",
		Title: "the page allocator hands out whole, free pages",
		Rules: "Every exported method of the page file is analysed from any free list (0 <= head < N, 0 <= entries <= N, entries positive and aligned). (ring) ring indices stay in range and the invariant holds at every return. (push) an accepted page is non-negative, page aligned, was compared with every listed page and found different, is stored at the head of a list that was not full, and head and count advance by one. (pop) a page taken off the list is the one at the end that head and count then give up. (persist) after every change of the list and before success is reported or the page written, the whole list is written to the first page, entry k of the list at bytes 8k. (refused) a refusal changes nothing. (page) a new page is one whole page at the returned, aligned offset beyond the first page, either just taken off the list or at the end of the file, and holds the caller's bytes followed by zeros; nothing else is written. (open) opening reads entry k from bytes 8k into the list until the first zero and accepts only files of whole pages; an empty file gets one zero page. Decided for the debug and the release build.",
		Trust: []string{"Go type checker and go/ssa construction", "the file holds at least its first page once opened and is not changed behind the process", "writes that return no error wrote everything"},
		Run: func(c *Ctx) {
			for _, tags := range []string{"", "release"} {
				p := &pager{c: c, g: c.Prog(tags, "linux"), cfg: "debug"}
				if tags != "" {
					p.cfg = tags
				}
				p.run()
			}
			for r, n := range map[string]int{"ring": 4, "push": 2, "pop": 2, "persist": 2, "page": 2, "open": 2, "refused": 2} {
				c.Min(r, n)
			}
		},
	})
}

type pager struct {
	c                  *Ctx
	g                  *GoProg
	cfg                string
	t                  *Type // the page file
	ring, head, count  string
	n                  int64 // entries
	size               int64 // page size
	lt                 *loopTracker
	e                  *Engine
	recv               *Term
	head0, count0      *Term
	ring0, base        *Term
	end0               *Term
	intF               []string
	newPage, free, ctr *Func
}

func (p *pager) shape() string {
	for _, f := range p.g.methodsNamed("FreePage") {
		if f.Pkg == "mocks" || f.ParamT[0].Kind != "ptr" || f.ParamT[0].Elem.Kind != "struct" {
			continue
		}
		t := f.ParamT[0].Elem
		for _, fl := range t.Fields {
			if fl.Typ.Kind == "array" && fl.Typ.Elem.Kind == "int" && fl.Typ.Elem.Bits == 64 {
				p.t, p.ring, p.n, p.free = t, fl.Name, fl.Typ.Len, f
			}
		}
	}
	if p.t == nil {
		return "a page file with a list of free pages (FreePage)"
	}
	p.newPage = p.g.methodOf(p.t, "NewPage")
	if p.newPage == nil {
		return "NewPage"
	}
	for _, f := range p.g.all {
		if f.Pkg == p.free.Pkg && f.Recv == "" && f.Exported && len(f.Results) == 2 && f.Results[0].Kind == "ptr" && f.Results[0].Elem.String() == p.t.String() {
			p.ctr = f
		}
	}
	if p.ctr == nil {
		return "the function that opens a page file"
	}
	for _, fl := range p.t.Fields {
		if fl.Typ.Kind == "int" {
			p.intF = append(p.intF, fl.Name)
		}
	}
	// the page size is what PageSize returns
	if f := p.g.methodOf(p.t, "PageSize"); f != nil {
		for _, o := range newEngine(p.g, &Client{}).Run(f, symArgs(f), nil, newState()) {
			if len(o.res) == 1 {
				if k, ok := constI(o.res[0]); ok {
					p.size = k
				}
			}
		}
	}
	if p.size == 0 {
		return "a page size that is the same for every page file"
	}
	// the head is where FreePage stores, the count what else it changes
	var store *Term
	changed := map[string]bool{}
	cl := p.client()
	cl.OnElem = func(e *Engine, st *State, base, idx, val *Term, in *Instr) {
		if base.op == TFld && base.s == p.ring {
			store = idx
		}
	}
	cl.OnStore = func(e *Engine, st *State, addr, val *Term, in *Instr) {
		if addr.op == TFld {
			changed[addr.s] = true
		}
	}
	e := newEngine(p.g, cl)
	args := symArgs(p.free)
	st := newState()
	init := map[string]*Term{}
	for _, f := range p.intF {
		init[f] = e.load(st, fieldAddr(args[0], p.t, f), p.t.field(f))
	}
	e.Run(p.free, args, nil, st)
	if store == nil {
		return "the place where FreePage records the page"
	}
	for _, f := range p.intF {
		if containsTerm(store, init[f]) && (init[f] == store || p.head == "") {
			p.head = f
		}
	}
	for _, f := range p.intF {
		if f != p.head && changed[f] {
			p.count = f
		}
	}
	if p.head == "" || p.count == "" {
		return "the head and the length of the free list"
	}
	return ""
}

// client models the underlying file.
func (p *pager) client() *Client {
	cl := &Client{Inline: func(fn *Func) bool { return fn.Pkg == p.free.Pkg }}
	fail := func(st *State, kind, pos string, n int) Outcome {
		s := st.clone()
		s.emit(&Event{Kind: "io-failed", Str: kind, Pos: pos})
		r := make([]*Term, n)
		for i := range r {
			r[i] = tZero
		}
		r[n-1] = freshErr(kind)
		s.facts.assume(tNot(tEq(r[n-1], mkNamed("global:err:io.EOF", tErrT))))
		return Outcome{st: s, res: r}
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		switch cc.Name {
		case "slices.Contains", "slices.Index":
			s := e.sliceSeq(st, cc.Args[0], i64T)
			has := mkApp("contains", tBoolT, s, cc.Args[1])
			s2 := st.clone()
			st.facts.assume(has)
			s2.facts.assume(tNot(has))
			if cc.Short == "Contains" {
				return []Outcome{{st: st, res: []*Term{tTrue}}, {st: s2, res: []*Term{tFalse}}}, true
			}
			i := mkSym("found", tIntT)
			st.facts.assume(tLe(tZero, i))
			st.facts.assume(tLt(i, lenOf(cc.Args[0])))
			return []Outcome{{st: st, res: []*Term{i}}, {st: s2, res: []*Term{mkInt(-1)}}}, true
		}
		if !(cc.In.Call.Invoke && cc.Fn == nil) {
			return nil, false
		}
		pos, end := st.auto["pos"], st.auto["end"]
		if pos == nil {
			pos = mkSym("pos", i64T)
		}
		if end == nil {
			end = mkSym("end", i64T)
		}
		switch cc.Short {
		case "Seek":
			bad := fail(st, "seek", cc.Pos, 2)
			var to *Term
			switch cc.Args[2] {
			case tZero:
				to = cc.Args[1]
			case tOne:
				to = tAdd(pos, cc.Args[1])
			case mkInt(2):
				to = tAdd(end, cc.Args[1])
			default:
				to = mkSym("seekpos", i64T)
			}
			st.facts.assume(tLe(tZero, to))
			st.auto["pos"] = to
			return []Outcome{{st: st, res: []*Term{to, tNil}}, bad}, true
		case "Write":
			bad := fail(st, "write", cc.Pos, 2)
			n := lenOf(cc.Args[1])
			s := e.sliceSeq(st, cc.Args[1], byteT)
			b, _, _ := sliceParts(cc.Args[1])
			st.emit(&Event{Kind: "write", A: []*Term{pos, n, s, b}, Pos: cc.Pos})
			np := tAdd(pos, n)
			st.auto["pos"] = np
			switch {
			case st.facts.implied(tLe(end, np)):
				st.auto["end"] = np
			case st.facts.implied(tLe(np, end)):
			default:
				x := mkSym("end", i64T)
				st.facts.assume(tLe(end, x))
				st.facts.assume(tLe(np, x))
				st.auto["end"] = x
			}
			return []Outcome{{st: st, res: []*Term{n, tNil}}, bad}, true
		case "Read":
			bad := fail(st, "read", cc.Pos, 2)
			n := mkSym("nread", tIntT)
			st.facts.assume(tLe(tZero, n))
			st.facts.assume(tLe(n, lenOf(cc.Args[1])))
			d, do, _ := sliceParts(cc.Args[1])
			eof := st.clone()
			eof.emit(&Event{Kind: "eof", A: []*Term{n}, Pos: cc.Pos})
			eof.auto["pos"] = tAdd(pos, n)
			eof.facts.assume(tLe(end, tAdd(pos, n)))
			e.noteBase(d, byteT)
			content := seqVar(mkSym("stored", nil).s, lenOf(cc.Args[1]))
			old := e.seqOf(st, d, byteT)
			st.seq[d] = e.seqCat(st.facts, e.seqSub(st.facts, old, tZero, do), content, e.seqSub(st.facts, old, tAdd(do, lenOf(cc.Args[1])), seqLen(old)))
			st.auto["pos"] = tAdd(pos, n)
			st.emit(&Event{Kind: "read", A: []*Term{pos, lenOf(cc.Args[1]), content}, Pos: cc.Pos})
			e1 := mkNamed("global:err:io.EOF", tErrT)
			return []Outcome{{st: st, res: []*Term{n, tNil}}, {st: eof, res: []*Term{n, e1}}, bad}, true
		}
		return nil, false
	}
	return cl
}

func (p *pager) run() {
	if miss := p.shapeErr(); miss != "" {
		p.c.Missing("ring", miss+" ("+p.cfg+")")
		return
	}
	p.c.Obl("page", p.cfg+": list fits in the first page", p.n*8 <= p.size, p.ctr.Pos, fmt.Sprintf("%d entries of 8 bytes do not fit in a page of %d bytes", p.n, p.size))
	for _, f := range p.g.all {
		if f.Pkg == p.free.Pkg && f.Exported && len(f.ParamT) > 0 && f.Recv != "" && f.ParamT[0].Kind == "ptr" && f.ParamT[0].Elem.String() == p.t.String() && f.Short != "Write" && f.Short != "Read" && f.Short != "Seek" && len(f.Blocks) > 0 {
			p.method(f)
		}
	}
	p.open()
}

func (p *pager) shapeErr() string {
	for _, f := range p.g.methodsNamed("FreePage") {
		if f.Pkg != "mocks" && f.ParamT[0].Kind == "ptr" {
			p.free = f
		}
	}
	if p.free == nil {
		return "FreePage"
	}
	return p.shape()
}

func (p *pager) hooks(root string) *Client {
	p.lt = newLoopTracker()
	cl := p.client()
	cl.OnBack = func(e *Engine, st *State, fn *Func, h int) { p.lt.back(e, st) }
	cl.OnElem = func(e *Engine, st *State, base, idx, val *Term, in *Instr) {
		if e.dry == 0 {
			ev := &Event{Kind: "elem", A: []*Term{base, idx, val}}
			if in != nil {
				ev.Pos = in.Pos
			}
			st.emit(ev)
		}
	}
	cl.OnStore = func(e *Engine, st *State, addr, val *Term, in *Instr) {
		if e.dry == 0 && addr.op == TFld && (addr.s == p.head || addr.s == p.count || addr.s == p.ring) {
			st.emit(&Event{Kind: "store", Str: addr.s, A: []*Term{addr, val}, Pos: in.Pos})
		}
	}
	cl.OnBounds = boundsHook(p.c, "ring", root, map[*Instr]string{})
	// listed pages are aligned and lie beyond the first page
	cl.OnLoad = func(e *Engine, st *State, addr *Term, in *Instr) {
		if addr.op != TIdx || addr.args[0] != p.base || p.ring0 == nil {
			return
		}
		f := st.facts
		if x := tSub(addr.args[1], tSub(p.head0, p.count0)); f.implied(tLe(tOne, p.count0)) && congSame(x, tZero, p.n, f) {
			v := e.atomAt(p.ring0, addr.args[1], i64T)
			f.assume(tLe(mkInt(p.size), v))
			f.assume(tEq(tMod(v, mkInt(p.size)), tZero))
		}
	}
	return cl
}

func (p *pager) field(e *Engine, st *State, obj *Term, name string) *Term {
	return e.load(st, fieldAddr(obj, p.t, name), p.t.field(name))
}

func (p *pager) ringSeq(e *Engine, st *State, obj *Term) *Term {
	return e.seqOf(st, fieldAddr(obj, p.t, p.ring), p.t.field(p.ring).Elem)
}

func (p *pager) invariant(root string, e *Engine, o Outcome, obj *Term) {
	h, n := p.field(e, o.st, obj, p.head), p.field(e, o.st, obj, p.count)
	fc := o.st.facts
	ok := fc.implied(tLe(tZero, h)) && fc.implied(tLt(h, mkInt(p.n))) && fc.implied(tLe(tZero, n)) && fc.implied(tLe(n, mkInt(p.n)))
	p.c.Obl("ring", root+" invariant", ok, o.pos, fmt.Sprintf("at this return head %v or length %v may lie outside the list", h, n))
}

func (p *pager) method(f *Func) {
	c := p.c
	c.Fn(f)
	root := p.cfg + ":" + f.Name
	cl := p.hooks(root)
	e := newEngine(p.g, cl)
	p.e = e
	st := newState()
	args := symArgs(f)
	p.recv = args[0]
	p.base = fieldAddr(p.recv, p.t, p.ring)
	p.head0, p.count0 = p.field(e, st, p.recv, p.head), p.field(e, st, p.recv, p.count)
	p.ring0 = p.ringSeq(e, st, p.recv)
	fc := st.facts
	fc.assume(tLe(tZero, p.head0))
	fc.assume(tLt(p.head0, mkInt(p.n)))
	fc.assume(tLe(tZero, p.count0))
	fc.assume(tLe(p.count0, mkInt(p.n)))
	fc.assume(tNot(tEq(p.recv, tNil)))
	p.end0 = mkNamed("filesize", i64T)
	fc.assume(tLe(mkInt(p.size), p.end0))
	st.auto["end"] = p.end0
	st.auto["pos"] = mkNamed("position", i64T)
	fc.assume(tLe(tZero, st.auto["pos"]))
	outs := e.Run(f, args, nil, st)
	c.Problems(e, root)
	for _, o := range outs {
		if !o.st.facts.consistent() {
			continue
		}
		if o.panic {
			c.Obl("ring", root+": panic", false, o.pos, "the method may panic")
			continue
		}
		p.invariant(root, e, o, p.recv)
		p.judge(f, args, o, root)
	}
}

func (p *pager) changes(tr []*Event) (last int) {
	last = -1
	for i, ev := range tr {
		if ev.Kind == "store" || ev.Kind == "elem" && ev.A[0] == p.base {
			last = i
		}
	}
	return last
}

func (p *pager) judge(f *Func, args []*Term, o Outcome, root string) {
	c, e, fc := p.c, p.e, o.st.facts
	tr := o.st.trace
	failed := false
	if ei := errResult(f.Results); ei >= 0 {
		failed = !fc.implied(tEq(o.res[ei], tNil))
	}
	io := len(evsOf(o.st, "io-failed")) > 0
	last := p.changes(tr)
	writes := evsOf(o.st, "write")
	if failed {
		if !io {
			c.Obl("refused", root, last < 0 && len(writes) == 0, o.pos, "a refused request changes the free list or the file")
		}
		return
	}
	h, n := p.field(e, o.st, p.recv, p.head), p.field(e, o.st, p.recv, p.count)
	ring := p.ringSeq(e, o.st, p.recv)
	if f.Short == "Page" && len(o.res) == 2 {
		v := o.res[0]
		want := tMul(mkInt(p.size), tAddK(args[1], 1))
		c.Obl("page", root+" number", fc.implied(tEq(v, want)) && fc.implied(tLe(mkInt(p.size), v)), o.pos, fmt.Sprintf("page i is said to be at %v instead of i+1 pages into the file", v))
	}
	switch {
	case last < 0:
		c.Obl("persist", root, true, "", "")
		if f == p.free {
			c.Obl("push", root, false, o.pos, "success is reported without recording the page")
		}
	case fc.implied(tEq(n, tAddK(p.count0, 1))):
		c.Obl("push", root+" stored", p.pushed(o, args, h), o.pos, "the page is not stored at the head of the list, or head and length do not advance by one")
		v := args[len(args)-1]
		c.Obl("push", root+" aligned", fc.implied(tEq(tMod(v, mkInt(p.size)), tZero)) && fc.implied(tLe(tZero, v)), o.pos, "an offset that is negative or not page aligned is accepted")
		c.Obl("push", root+" once", p.notListed(o, v), o.pos, "a page that is already on the list may be accepted again")
		c.Obl("push", root+" room", fc.implied(tLt(p.count0, mkInt(p.n))), o.pos, "a page is accepted although the list is full")
	case fc.implied(tEq(n, tAddK(p.count0, -1))):
		ok := fc.implied(tLe(tOne, p.count0))
		want := tSub(p.head0, p.count0)
		if !fc.implied(tEq(h, p.head0)) {
			want = tAddK(p.head0, -1)
			ok = ok && congSame(h, want, p.n, fc)
		}
		v := fc.norm(o.res[0])
		good := false
		if v.op == TApp && v.s == "elem" && v.args[0] == p.ring0 {
			good = congSame(v.args[1], want, p.n, fc)
		}
		c.Obl("pop", root, ok && good, o.pos, fmt.Sprintf("the page %v is not the one that head and length give up", v))
	default:
		c.Obl("pop", root, false, o.pos, fmt.Sprintf("the length of the free list becomes %v", n))
	}
	pi := -1
	if last >= 0 {
		pi = p.persisted(o, last, ring, h, n)
		c.Obl("persist", root, pi >= 0, o.pos, "the changed free list is not written to the first page, entry k at bytes 8k, before success is reported")
	}
	// every other write is the new page
	var data []*Event
	for i, ev := range tr {
		if ev.Kind == "write" && i != pi {
			data = append(data, ev)
			if last >= 0 && pi >= 0 {
				c.Obl("persist", root+" order", pi < i, ev.Pos, "the page is written before it is off the persisted free list")
			}
		}
	}
	if f == p.newPage {
		ok, msg := p.page(o, args, data)
		c.Obl("page", root, ok, o.pos, msg)
	} else {
		c.Obl("page", root, len(data) == 0, o.pos, "something other than the free list is written")
	}
}

func (p *pager) pushed(o Outcome, args []*Term, h *Term) bool {
	fc := o.st.facts
	n := 0
	ok := true
	for _, ev := range o.st.trace {
		if ev.Kind == "elem" && ev.A[0] == p.base {
			n++
			ok = ok && fc.implied(tEq(ev.A[1], p.head0)) && fc.implied(tEq(ev.A[2], args[len(args)-1]))
		}
		if ev.Kind == "store" && ev.Str == p.ring {
			return false
		}
	}
	return n == 1 && ok && (congSame(h, tAddK(p.head0, 1), p.n, fc) || fc.implied(tEq(h, tAddK(p.head0, 1))) || fc.implied(tEq(h, tAddK(p.head0, 1-p.n))))
}

// notListed: every listed entry was compared with v on the way here.
func (p *pager) notListed(o Outcome, v *Term) bool {
	fc := o.st.facts
	for _, l := range fc.lits {
		if l.op == TApp && l.s == "not" && l.args[0].op == TApp && l.args[0].s == "contains" && l.args[0].args[0] == p.ring0 && l.args[0].args[1] == v {
			return true
		}
	}
	for _, ev := range o.st.trace {
		if ev.Kind != "loop-begin" {
			continue
		}
		r := p.lt.recs[ev]
		if r == nil {
			continue
		}
		r.solve(p.n)
		var at *Term
		ok := true
		for _, b := range r.backs {
			hit := false
			for _, x := range p.compared(b, v) {
				a := r.atMod(x)
				if at == nil || at == a {
					at = a
					hit = true
				}
			}
			ok = ok && hit
		}
		if !ok || at == nil {
			continue
		}
		// the positions compared are at(iter); which iterations happened?
		s := tSub(replaceTerms(at, map[*Term]*Term{r.iter: tOne}), replaceTerms(at, map[*Term]*Term{r.iter: tZero}))
		k, one := constI(stripMod(s, p.n))
		if !one || k != 1 && k != -1 {
			continue
		}
		more := int64(0)
		for _, x := range p.compared(o.st, v) {
			if r.atMod(x) == at {
				more = 1
			}
		}
		if r.atLeast(fc, mkInt(p.n-more)) {
			return true
		}
		first := replaceTerms(at, map[*Term]*Term{r.iter: tZero})
		if r.atLeast(fc, tAddK(p.count0, -more)) && (k == 1 && congSame(first, tSub(p.head0, p.count0), p.n, fc) || k == -1 && congSame(first, tAddK(p.head0, -1), p.n, fc)) {
			return true
		}
	}
	return false
}

// compared lists the ring positions known to differ from v.
func (p *pager) compared(st *State, v *Term) []*Term {
	var r []*Term
	for _, l := range st.facts.lits {
		subterms(l, map[*Term]bool{}, func(x *Term) {
			if x.op == TApp && x.s == "elem" && x.args[0] == p.ring0 && st.facts.refuted(tEq(x, v)) {
				r = append(r, x.args[1])
			}
		})
	}
	return r
}

// persisted finds the write of the whole list after index last.
func (p *pager) persisted(o Outcome, last int, ring, h, n *Term) int {
	fc := o.st.facts
	tail := tSub(h, n)
	for i, ev := range o.st.trace {
		if i < last || ev.Kind != "write" || !fc.implied(tEq(ev.A[0], tZero)) {
			continue
		}
		if !fc.implied(tLe(mkInt(p.n*8), ev.A[1])) || !fc.implied(tLe(ev.A[1], mkInt(p.size))) {
			continue
		}
		base := ev.A[3]
		if addrRoot(base).op != TObj {
			continue
		}
		filled, clean := fc.implied(tEq(n, tZero)), true
		inLoop := map[*Event]bool{}
		for _, b := range o.st.trace[:i] {
			r := p.lt.recs[b]
			if b.Kind != "loop-begin" || r == nil {
				continue
			}
			r.solve(p.n)
			some, ok := false, true
			short := n
			for _, w := range r.lastPass(o.st.trace) {
				if w.Kind == "elem" && w.A[0] == base {
					// the pass in which the loop is left
					ok = ok && short == n && p.entry(r, o.st, w, ring, tail, n)
					short = tAddK(n, -1)
					some = true
					inLoop[w] = true
				}
			}
			ok = ok && r.atLeast(fc, short)
			for _, bk := range r.backs {
				cnt := 0
				for _, w := range r.since(bk) {
					if w.Kind != "elem" || w.A[0] != base {
						continue
					}
					cnt++
					some = true
					inLoop[w] = true
					ok = ok && p.entry(r, bk, w, ring, tail, n)
				}
				ok = ok && cnt == 1
			}
			if some && !ok {
				clean = false
			}
			if some && ok {
				filled = true
			}
		}
		for _, w := range o.st.trace[:i] {
			if w.Kind == "elem" && w.A[0] == base && !inLoop[w] {
				clean = false
			}
		}
		if filled && clean {
			return i
		}
	}
	return -1
}

// entry: iteration k writes list entry j(k) at bytes 8*j(k).
func (p *pager) entry(r *loopRec, st *State, w *Event, ring, tail, n *Term) bool {
	v := w.A[2]
	if v.op != TApp || v.s != "le8" {
		return false
	}
	v = unwrapInt(v.args[0])
	off := r.at(w.A[1])
	// off = 8*j
	j, ok := div8(off)
	if !ok {
		return false
	}
	k := replaceTerms(j, map[*Term]*Term{r.iter: tZero})
	step := tSub(replaceTerms(j, map[*Term]*Term{r.iter: tOne}), k)
	switch {
	case step == tOne && st.facts.implied(tEq(k, tZero)):
	case step == mkInt(-1) && st.facts.implied(tEq(k, tAddK(n, -1))):
	default:
		return false
	}
	if v.op != TApp || v.s != "elem" {
		// the entry just pushed, picked out of the list by its position
		return false
	}
	seq := v.args[0]
	if seq != ring {
		part := false
		subterms(ring, map[*Term]bool{}, func(x *Term) {
			if x == seq {
				part = true
			}
		})
		if !part {
			return false
		}
	}
	return congSame(r.atMod(v.args[1]), tAdd(tail, j), p.n, st.facts)
}

func div8(t *Term) (*Term, bool) {
	l := toLin(t)
	res := tZero
	for a, c := range l.co {
		if c%8 != 0 {
			return nil, false
		}
		res = tAdd(res, tMul(mkInt(c/8), a))
	}
	if !l.k.IsInt64() || l.k.Int64()%8 != 0 {
		return nil, false
	}
	return tAddK(res, l.k.Int64()/8), true
}

// page checks what a successful NewPage wrote.
func (p *pager) page(o Outcome, args []*Term, data []*Event) (bool, string) {
	fc, e := o.st.facts, p.e
	res := fc.norm(o.res[0])
	size := mkInt(p.size)
	if len(data) == 0 {
		return false, "no page is written"
	}
	if !fc.implied(tEq(tMod(res, size), tZero)) && !congSame(res, tZero, p.size, fc) {
		return false, fmt.Sprintf("the returned offset %v is not provably page aligned", res)
	}
	popped := p.changes(o.st.trace) >= 0
	if !popped {
		// the page starts at or just after the old end of the file
		if !fc.implied(tLe(p.end0, res)) || !fc.implied(tLt(res, tAdd(p.end0, size))) {
			return false, fmt.Sprintf("the returned offset %v is not the end of the file", res)
		}
	} else if !(res.op == TApp && res.s == "elem" && res.args[0] == p.ring0) {
		return false, fmt.Sprintf("the returned offset %v is not the page taken off the list", res)
	}
	if !fc.implied(tLe(size, res)) {
		return false, "the returned offset may be the first page"
	}
	w := data[len(data)-1]
	if !fc.implied(tEq(w.A[0], res)) {
		return false, fmt.Sprintf("the page is written at %v but %v is returned", w.A[0], res)
	}
	if !fc.implied(tEq(w.A[1], size)) {
		return false, fmt.Sprintf("%v bytes are written for a page", w.A[1])
	}
	for _, x := range data[:len(data)-1] {
		if popped || !fc.implied(tLe(p.end0, x.A[0])) || !fc.implied(tLe(tAdd(x.A[0], x.A[1]), res)) {
			return false, "something besides the new page and the padding before it is written"
		}
	}
	if fromLoop(w.A[2]) {
		return true, ""
	}
	buf := args[1]
	bs := e.sliceSeq(o.st, buf, byteT)
	n := lenOf(buf)
	if fc.implied(tEq(buf, tNil)) {
		n = tZero
	}
	if !fc.implied(tLe(n, size)) {
		return false, "content longer than a page is accepted"
	}
	if !fc.implied(tEq(n, tZero)) && !seqSame(fc, e.seqSub(fc, w.A[2], tZero, n), bs) {
		return false, fmt.Sprintf("the page holds %v instead of the caller's bytes", w.A[2])
	}
	for _, q := range seqParts(fc, e.seqSub(fc, w.A[2], n, size)) {
		z := q
		if z.op == TApp && z.s == "span" {
			z = z.args[0]
		}
		if !(z.op == TSym && strings.HasPrefix(z.s, "zeros:")) {
			return false, fmt.Sprintf("the rest of the page holds %v instead of zeros", q)
		}
	}
	return true, ""
}

// open checks the function that opens a page file.
func (p *pager) open() {
	c, f := p.c, p.ctr
	c.Fn(f)
	root := p.cfg + ":" + f.Name
	p.base, p.ring0 = nil, nil
	cl := p.hooks(root)
	e := newEngine(p.g, cl)
	p.e = e
	st := newState()
	end := mkNamed("filesize", i64T)
	st.facts.assume(tLe(tZero, end))
	st.auto["end"] = end
	outs := e.Run(f, symArgs(f), nil, st)
	c.Problems(e, root)
	for _, o := range outs {
		fc := o.st.facts
		if !fc.consistent() {
			continue
		}
		if o.panic {
			c.Obl("ring", root+": panic", false, o.pos, "opening may panic")
			continue
		}
		ws := evsOf(o.st, "write")
		if !fc.implied(tEq(o.res[1], tNil)) {
			eof := evsOf(o.st, "eof")
			ok := len(ws) == 0 || len(eof) == 1
			c.Obl("refused", root, ok, o.pos, "a file that cannot be opened is changed")
			continue
		}
		obj := o.res[0]
		p.invariant(root, e, o, obj)
		n, h := p.field(e, o.st, obj, p.count), p.field(e, o.st, obj, p.head)
		now := o.st.auto["end"]
		c.Obl("open", root+" whole pages", fc.implied(tEq(tMod(now, mkInt(p.size)), tZero)), o.pos, "a file that is not made of whole pages is accepted")
		if eof := evsOf(o.st, "eof"); len(eof) > 0 {
			ok := fc.implied(tEq(eof[0].A[0], tZero)) && fc.implied(tEq(n, tZero)) && len(ws) == 1
			if ok {
				w := ws[0]
				z := w.A[2]
				ok = fc.implied(tEq(w.A[0], tZero)) && fc.implied(tEq(w.A[1], mkInt(p.size))) && z.op == TSym && strings.HasPrefix(z.s, "zeros:")
			}
			c.Obl("open", root+" new file", ok, o.pos, "an empty file does not get exactly one page of zeros as its empty free list")
			continue
		}
		rd := evsOf(o.st, "read")
		ok := len(ws) == 0 && len(rd) == 1 && fc.implied(tEq(rd[0].A[0], tZero)) && fc.implied(tLe(mkInt(p.n*8), rd[0].A[1]))
		c.Obl("open", root+" read", ok, o.pos, "the stored list is not read from the first page, or the file is written")
		if !ok {
			continue
		}
		good, msg := p.loaded(o, obj, rd[0].A[2], h, n)
		c.Obl("open", root+" list", good, o.pos, msg)
	}
}

// loaded: iteration k stores the nonzero entry at bytes 8k as entry k of the
// list, and the loop stops at the end of the page or at a zero.
func (p *pager) loaded(o Outcome, obj, content, h, n *Term) (bool, string) {
	fc := o.st.facts
	base := fieldAddr(obj, p.t, p.ring)
	for _, ev := range o.st.trace {
		r := p.lt.recs[ev]
		if ev.Kind != "loop-begin" || r == nil {
			continue
		}
		r.solve(p.n)
		some, bad := false, ""
		var first *Term
		type pass struct {
			evs  []*Event
			st   *State
			last bool
		}
		ps := []pass{{r.lastPass(o.st.trace), o.st, true}}
		for _, b := range r.backs {
			ps = append(ps, pass{r.since(b), b, false})
		}
		extra := int64(0)
		for _, b := range ps {
			cnt := 0
			for _, w := range b.evs {
				if w.Kind != "elem" || w.A[0] != base {
					continue
				}
				cnt++
				if b.last {
					extra++
				}
				some = true
				idx := r.atMod(w.A[1])
				if first == nil {
					first = replaceTerms(idx, map[*Term]*Term{r.iter: tZero})
				}
				if !congSame(idx, tAdd(first, r.iter), p.n, b.st.facts) {
					bad = "the entries are not stored one after the other"
				}
				v := unwrapInt(w.A[2])
				k := storedEntry(v, content)
				if k == nil || r.at(k) != tMul(mkInt(8), r.iter) && !b.st.facts.implied(tEq(r.at(k), tMul(mkInt(8), r.iter))) {
					bad = fmt.Sprintf("iteration k does not store the entry at bytes 8k: %v", v)
				} else if !b.st.facts.refuted(tEq(v, tZero)) {
					bad = "a zero entry is taken for a free page"
				}
			}
			if cnt != 1 && !(b.last && cnt == 0) && bad == "" {
				bad = "an iteration stores no entry or several"
			}
		}
		if !some {
			continue
		}
		if bad != "" {
			return false, bad
		}
		// as many entries as iterations, head behind the last one
		its := r.count()
		if its == nil {
			return false, "the number of entries read is not known"
		}
		its = tAddK(its, extra)
		if !fc.implied(tEq(n, its)) {
			return false, fmt.Sprintf("the list length becomes %v after reading %v entries", n, its)
		}
		if !congSame(r.atExit(fc, h), tAdd(first, its), p.n, fc) {
			return false, fmt.Sprintf("the head %v is not behind the last entry read", h)
		}
		if fc.implied(tLe(mkInt(p.n), its)) {
			return true, ""
		}
		for _, l := range fc.lits {
			hit := false
			subterms(l, map[*Term]bool{}, func(x *Term) {
				if k := storedEntry(x, content); k != nil && fc.implied(tEq(k, tMul(mkInt(8), its))) && fc.implied(tEq(x, tZero)) {
					hit = true
				}
			})
			if hit {
				return true, ""
			}
		}
		return false, "reading stops before the first zero entry"
	}
	return false, "the stored list is not taken over"
}

// atExit replaces the variables known modulo n by their value after the
// iterations made.
func (r *loopRec) atExit(f *Facts, t *Term) *Term {
	its := r.count()
	m := map[*Term]*Term{}
	for h, l := range r.cong {
		m[h] = replaceTerms(l, map[*Term]*Term{r.iter: its})
	}
	return replaceTerms(t, m)
}

// count is the number of iterations made, in terms of the loop's variables.
func (r *loopRec) count() *Term {
	var best, res *Term
	for h, l := range r.lin {
		if best != nil && best.id < h.id {
			continue
		}
		switch r.step[h] {
		case 1:
			best, res = h, tSub(h, tSub(l, r.iter))
		case -1:
			best, res = h, tSub(tAdd(l, r.iter), h)
		}
	}
	return res
}

// storedEntry recognises the 8 byte little endian value at an offset.
func storedEntry(v, content *Term) *Term {
	if v.op != TApp || v.s != "getle8" {
		return nil
	}
	s := v.args[0]
	if s.op == TApp && s.s == "cat" && len(s.args) == 1 {
		s = s.args[0]
	}
	if s.op != TApp || s.s != "span" || s.args[0] != content || tSub(s.args[2], s.args[1]) != mkInt(8) {
		return nil
	}
	return s.args[1]
}
