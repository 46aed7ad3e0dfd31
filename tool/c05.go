package main

// C05: the slots of the linked index pages.  Every slot operation touches only
// its own slot, what is stored is what is read back, and the list of slots
// grows by exactly one fresh slot at its end.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C05",
		Title: "index slots are isolated, round-trip, and the list grows by one fresh slot",
		Rules: "Every exported operation on a linked page is analysed for an arbitrary page position and slot, with the page header (next page, slot count) symbolic. (slot) everything a slot operation writes lies after the header and between the start of its slot and the start of the next one (the start of slot i+1 is the start of slot i with i+1 for i), and everything read or written lies in the page; the largest metadata accepted is derived from the path facts. (roundtrip) reading the root from a disk that holds what setting the root wrote gives the same pointer, likewise the metadata; the header page that is no slot refuses all four without touching the file. (next) the next slot is the following one of the page exactly while there is one, then slot 0 of the next page, and the end is reported exactly when there is no next page. (add) a slot is added only at the end of the list, by raising the count by one and only while the page has room, otherwise by a fresh page that is completely initialised before the previous page refers to it; the slot returned is the one the count or the link now includes, and nothing else changes. (fresh) the slots of a freshly initialised page read as an empty root, the page as the end of the list. (open) opening takes the requested page and initialises it only when it does not exist. (attach) a tree attached to a slot uses that slot as its root and the same page file.",
		Trust: []string{"Go type checker and go/ssa construction", "page numbers are multiples of the page size and a new page is distinct from every page in use (C09)", "an index file holds the slot counts this code wrote"},
		Run: func(c *Ctx) {
			for _, tags := range []string{"", "release"} {
				l := &slots{c: c, g: c.Prog(tags, "linux"), cfg: "debug"}
				if tags != "" {
					l.cfg = tags
				}
				l.run()
			}
			for r, n := range map[string]int{"slot": 4, "roundtrip": 4, "next": 1, "add": 2, "fresh": 2, "open": 1, "attach": 1} {
				c.Min(r, n)
			}
		},
	})
}

type slots struct {
	c             *Ctx
	g             *GoProg
	cfg           string
	t             *Type
	offF, idxF    string
	rwsF          string
	page          int64
	off, idx      *Term
	cnt, next     *Term
	n             int64 // slots per page
	start         *Term // of slot idx
	head          int64 // bytes of the page header
	getRoot, set  *Func
	meta, setMeta *Func
	nextF, addF   *Func
	openF         *Func
}

// disk is what the file is assumed to hold.
type diskPart struct{ pos, s *Term }

// io is one read or write.
type slotIO struct {
	kind, where string
	pos, n, s   *Term
	at          int // in the trace
}

func (l *slots) shape() string {
	for _, f := range l.g.methodsNamed("AddNext") {
		if f.Pkg != "mocks" && len(f.ParamT) == 1 && f.ParamT[0].Kind == "ptr" && f.ParamT[0].Elem.Kind == "struct" {
			l.t, l.addF = f.ParamT[0].Elem, f
		}
	}
	if l.t == nil {
		return "a page of slots (AddNext)"
	}
	pick := func(match func(*Type) bool, prefer string) string {
		r := ""
		for _, f := range l.t.Fields {
			if match(f.Typ) && (r == "" || f.Name == prefer) {
				r = f.Name
			}
		}
		return r
	}
	l.offF = pick(func(t *Type) bool { return t.Kind == "int" && t.Bits == 64 }, "offset")
	l.idxF = pick(func(t *Type) bool { return t.Kind == "int" && t.Bits < 64 }, "index")
	l.rwsF = pick(func(t *Type) bool { return t.Kind == "iface" }, "rws")
	if l.offF == "" || l.idxF == "" || l.rwsF == "" {
		return "the position, the slot number and the page file of a slot"
	}
	for n, p := range map[string]**Func{"Root": &l.getRoot, "SetRoot": &l.set, "Metadata": &l.meta, "SetMetadata": &l.setMeta, "Next": &l.nextF} {
		if *p = l.g.methodOf(l.t, n); *p == nil {
			return n
		}
	}
	for _, f := range l.g.all {
		if f.Pkg == l.addF.Pkg && f.Recv == "" && f.Exported && len(f.Results) == 2 && f.Results[0].Kind == "ptr" && f.Results[0].Elem.String() == l.t.String() {
			l.openF = f
		}
	}
	if l.openF == nil {
		return "the function that opens the list of slots"
	}
	ft := l.t.field(l.rwsF)
	if k := l.g.constInvoke(ft, "PageSize"); k != nil {
		l.page, _ = constI(k)
	}
	if l.page == 0 {
		return "a page size that is the same for every page file"
	}
	return ""
}

func leBytes(e *Engine, st *State, v *Term, t *Type) *Term {
	if t == nil {
		return nil
	}
	switch t.Kind {
	case "int":
		if t.Bits == 8 {
			return mkApp("cat", nil, mkApp("unit", nil, v))
		}
		return seqVarApp(mkApp(fmt.Sprintf("le%d", t.Bits/8), nil, v), mkInt(int64(t.Bits/8)))
	case "struct":
		var ps []*Term
		for _, f := range t.Fields {
			b := leBytes(e, st, mkField(v, f.Name, f.Typ), f.Typ)
			if b == nil {
				return nil
			}
			ps = append(ps, b)
		}
		return e.seqCat(st.facts, ps...)
	}
	return nil
}

func isZeros(s *Term) bool {
	for _, p := range seqPieces(s) {
		if !(p.s == "unit" && p.args[0] == tZero || p.s == "span" && p.args[0].op == TSym && strings.HasPrefix(p.args[0].s, "zeros:")) {
			return false
		}
	}
	return true
}

// ofBytes decodes the little-endian value of type t held in s.
func ofBytes(e *Engine, st *State, s *Term, t *Type) *Term {
	switch t.Kind {
	case "int":
		w := int64(t.Bits / 8)
		switch {
		case t.Bits == 8:
			return e.seqAt(st.facts, s, tZero, t)
		case s.op == TApp && s.s == fmt.Sprintf("le%d", w):
			return s.args[0]
		case isZeros(s):
			return tZero
		}
		return mkApp(fmt.Sprintf("getle%d", w), t, s)
	case "struct":
		var fs []*Term
		p := tZero
		for _, f := range t.Fields {
			q := tAddK(p, fixedSize(f.Typ))
			v := ofBytes(e, st, e.seqSub(st.facts, s, p, q), f.Typ)
			if v == nil {
				return nil
			}
			fs = append(fs, v)
			p = q
		}
		return mkAgg(t, fs)
	}
	return nil
}

// client models the page file below; disk is what reads find.
func (l *slots) client(disk []diskPart) *Client {
	cl := &Client{Inline: func(fn *Func) bool { return fn.Pkg == l.addF.Pkg }}
	bad := func(st *State, kind, pos string, n int) Outcome {
		s := st.clone()
		s.emit(&Event{Kind: "io-failed", Str: kind, Pos: pos})
		r := make([]*Term, n)
		for i := range r {
			r[i] = tZero
		}
		r[n-1] = freshErr(kind)
		s.facts.assume(tNot(tEq(r[n-1], mkNamed("global:err:io.EOF", tErrT))))
		s.facts.assume(tNot(mkApp("errors.Is", tBoolT, r[n-1], mkNamed("global:err:io.EOF", tErrT))))
		return Outcome{st: s, res: r}
	}
	cur := func(st *State) *Term {
		if p := st.auto["pos"]; p != nil {
			return p
		}
		return mkSym("pos", i64T)
	}
	stored := func(e *Engine, st *State, p, n *Term) *Term {
		f := st.facts
		for _, d := range disk {
			at, end := tSub(p, d.pos), seqLen(d.s)
			if !f.implied(tLe(tZero, at)) || !f.implied(tLe(at, end)) {
				continue
			}
			if f.implied(tLe(tAdd(at, n), end)) {
				return e.seqSub(f, d.s, at, tAdd(at, n))
			}
			if f.implied(tLe(end, tAdd(at, n))) {
				rest := tSub(tAdd(at, n), end)
				return e.seqCat(f, e.seqSub(f, d.s, at, end), seqVar("disk:"+tAdd(d.pos, end).String()+":"+rest.String(), rest))
			}
		}
		return seqVar("disk:"+p.String()+":"+n.String()+fmt.Sprintf("@%d", len(evsOf(st, "w"))), n)
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		a := cc.Args
		read := func(n *Term) *Term {
			p := cur(st)
			s := stored(e, st, p, n)
			st.emit(&Event{Kind: "r", A: []*Term{p, n, s}, Pos: cc.Pos})
			st.auto["pos"] = tAdd(p, n)
			return s
		}
		write := func(s *Term) {
			p := cur(st)
			st.emit(&Event{Kind: "w", A: []*Term{p, seqLen(s), s}, Pos: cc.Pos})
			st.auto["pos"] = tAdd(p, seqLen(s))
		}
		into := func(buf, s *Term) {
			d, do, n := sliceParts(buf)
			e.noteBase(d, byteT)
			old := e.seqOf(st, d, byteT)
			st.seq[d] = e.seqCat(st.facts, e.seqSub(st.facts, old, tZero, do), s, e.seqSub(st.facts, old, tAdd(do, n), seqLen(old)))
		}
		switch cc.Name {
		case "encoding/binary.Read":
			if a[2].op != TIface || a[2].typ.Kind != "ptr" || fixedSize(a[2].typ.Elem) <= 0 {
				return nil, false
			}
			t := a[2].typ.Elem
			f := bad(st, "read", cc.Pos, 1)
			v := ofBytes(e, st, read(mkInt(fixedSize(t))), t)
			if v == nil {
				return nil, false
			}
			e.store(st, a[2].args[0], v, t, cc.In)
			return []Outcome{{st: st, res: []*Term{tNil}}, f}, true
		case "encoding/binary.Write":
			if a[2].op != TIface {
				return nil, false
			}
			v, t := a[2].args[0], a[2].typ
			if t.Kind == "ptr" {
				v, t = e.load(st, v, t.Elem), t.Elem
			}
			s := leBytes(e, st, v, t)
			if t.Kind == "slice" && t.Elem.Bits == 8 {
				s = e.sliceSeq(st, v, byteT)
			}
			if s == nil {
				return nil, false
			}
			f := bad(st, "write", cc.Pos, 1)
			write(s)
			return []Outcome{{st: st, res: []*Term{tNil}}, f}, true
		case "io.ReadFull":
			f := bad(st, "read", cc.Pos, 2)
			into(a[1], read(lenOf(a[1])))
			return []Outcome{{st: st, res: []*Term{lenOf(a[1]), tNil}}, f}, true
		}
		if !(cc.In.Call.Invoke && cc.Fn == nil) {
			return nil, false
		}
		switch cc.Short {
		case "Seek":
			f := bad(st, "seek", cc.Pos, 2)
			to := mkSym("seekpos", i64T)
			switch a[2] {
			case tZero:
				to = a[1]
			case tOne:
				to = tAdd(cur(st), a[1])
			}
			st.auto["pos"] = to
			return []Outcome{{st: st, res: []*Term{to, tNil}}, f}, true
		case "Write":
			f := bad(st, "write", cc.Pos, 2)
			write(e.sliceSeq(st, a[1], byteT))
			return []Outcome{{st: st, res: []*Term{lenOf(a[1]), tNil}}, f}, true
		case "Read":
			f := bad(st, "read", cc.Pos, 2)
			eof := st.clone()
			eof.emit(&Event{Kind: "eof", A: []*Term{cur(st), lenOf(a[1])}, Pos: cc.Pos})
			into(a[1], read(lenOf(a[1])))
			os := []Outcome{{st: st, res: []*Term{lenOf(a[1]), tNil}}, f}
			if disk == nil {
				os = append(os, Outcome{st: eof, res: []*Term{tZero, mkNamed("global:err:io.EOF", tErrT)}})
			}
			return os, true
		case "NewPage":
			f := bad(st, "newpage", cc.Pos, 2)
			p := mkSym("newpage", i64T)
			st.facts.assume(tLe(mkInt(l.page), p))
			st.facts.assume(tLe(p, mkInt(1<<60)))
			s := zeroBytes(l.page)
			if a[1] != tNil {
				b := e.sliceSeq(st, a[1], byteT)
				s = e.seqCat(st.facts, b, zeroSeqN(tSub(mkInt(l.page), seqLen(b))))
			}
			st.emit(&Event{Kind: "newpage", A: []*Term{p, s}, Pos: cc.Pos})
			return []Outcome{{st: st, res: []*Term{p, tNil}}, f}, true
		case "Page":
			f := bad(st, "page", cc.Pos, 2)
			p := mkApp("pageat", i64T, a[1])
			st.facts.assume(tLe(mkInt(l.page), p))
			st.facts.assume(tLe(p, mkInt(1<<60)))
			return []Outcome{{st: st, res: []*Term{p, tNil}}, f}, true
		}
		return nil, false
	}
	return cl
}

func zeroSeqN(n *Term) *Term  { return seqVar("zeros:uint8:"+fmt.Sprint(n.id), n) }
func zeroBytes(n int64) *Term { return zeroSeqN(mkInt(n)) }

// run executes f on slot idx (nil: the header page) of the page at off.
type slotRun struct {
	e    *Engine
	outs []Outcome
	args []*Term
}

func (l *slots) exec(f *Func, off, idx *Term, disk []diskPart, pre func(*Facts), set map[int]*Term) *slotRun {
	l.c.Fn(f)
	e := newEngine(l.g, l.client(disk))
	args := symArgs(f)
	for k, v := range set {
		args[k] = v
	}
	st := newState()
	st.mem[fieldAddr(args[0], l.t, l.offF)] = off
	st.mem[fieldAddr(args[0], l.t, l.idxF)] = idx
	fa := st.facts
	fa.assume(tLe(mkInt(l.page), off))
	fa.assume(tLe(off, mkInt(1<<60)))
	if pre != nil {
		pre(fa)
	}
	r := &slotRun{e: e, args: args}
	r.outs = e.Run(f, args, nil, st)
	l.c.Problems(e, l.cfg+": "+f.Name)
	return r
}

func ioOf(st *State) []slotIO {
	var r []slotIO
	for i, ev := range st.trace {
		switch ev.Kind {
		case "r", "w":
			r = append(r, slotIO{ev.Kind, ev.Pos, ev.A[0], ev.A[1], ev.A[2], i})
		case "eof":
			r = append(r, slotIO{"r", ev.Pos, ev.A[0], ev.A[1], nil, i})
		}
	}
	return r
}

// joined is one contiguous access of a kind, or nil.
func joined(e *Engine, st *State, kind string) *slotIO {
	var r *slotIO
	for _, x := range ioOf(st) {
		if x.kind != kind {
			continue
		}
		x := x
		switch {
		case r == nil:
			r = &x
		case st.facts.implied(tEq(x.pos, tAdd(r.pos, r.n))):
			r.n = tAdd(r.n, x.n)
			r.s = e.seqCat(st.facts, r.s, x.s)
		default:
			return nil
		}
	}
	return r
}

func failedIO(st *State) bool { return len(evsOf(st, "io-failed")) > 0 }

// good outcomes succeed; the error is the last result.
func succeeds(o Outcome) bool {
	return !o.panic && len(o.res) > 0 && !failedIO(o.st) && o.st.facts.implied(tEq(o.res[len(o.res)-1], tNil))
}

func (l *slots) header(cnt, next *Term) []diskPart {
	e := newEngine(l.g, &Client{})
	return []diskPart{{l.off, e.seqCat(nil, next, mkApp("cat", nil, mkApp("unit", nil, cnt)))}}
}

func (l *slots) slotPre(f *Facts) {
	f.assume(tLe(tZero, l.idx))
	f.assume(tLt(l.idx, mkInt(l.n)))
}

func (l *slots) listPre(f *Facts) {
	l.slotPre(f)
	f.assume(tLe(tAddK(l.idx, 1), l.cnt))
	f.assume(tLe(l.cnt, mkInt(l.n)))
}

func (l *slots) run() {
	if miss := l.shape(); miss != "" {
		l.c.Missing("slot", miss+" ("+l.cfg+")")
		return
	}
	l.off = mkNamed("slot:page", &Type{Kind: "int", Bits: 64, str: "uint64"})
	l.idx = mkNamed("slot:index", byteT)
	l.cnt = mkNamed("slot:count", byteT)
	l.next = seqVar("slot:next", mkInt(8))
	if !l.capacity() {
		l.c.Obl("add", l.cfg+": slots per page", false, l.addF.Pos, "no number of slots per page that AddNext respects fits the slot numbers")
		return
	}
	l.slotOps()
	l.nextRule()
	l.addRule()
	l.openRule()
	l.attachRule()
}

// capacity is the least number of slots that adding a slot never exceeds.
func (l *slots) capacity() bool {
	for n := int64(1); n <= 64; n++ {
		l.n = n
		ok := true
		r := l.exec(l.addF, l.off, l.idx, l.header(l.cnt, l.next), l.listPre, nil)
		for _, o := range r.outs {
			for _, x := range ioOf(o.st) {
				if x.kind != "w" || x.n != tOne {
					continue
				}
				v := r.e.seqAt(o.st.facts, x.s, tZero, byteT)
				if !o.st.facts.implied(tLe(v, mkInt(n))) {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (l *slots) slotOps() {
	f8 := func(o Outcome) *Facts { return o.st.facts }
	// the header page refuses
	for _, f := range []*Func{l.getRoot, l.set, l.meta, l.setMeta} {
		r := l.exec(f, l.off, mkInt(255), nil, nil, nil)
		con := l.cfg + ": " + f.Short + " of the header page"
		for _, o := range r.outs {
			bad := o.panic || len(ioOf(o.st)) > 0 || len(o.res) == 0 || !o.st.facts.implied(tNot(tEq(o.res[len(o.res)-1], tNil)))
			l.c.Obl("roundtrip", con, !bad, f.Pos, "the page that is no slot must be refused without touching the file")
		}
	}
	// what the setters write
	type wrote struct {
		st  *State
		e   *Engine
		io  *slotIO
		arg *Term
	}
	setter := func(f *Func) []wrote {
		var ws []wrote
		r := l.exec(f, l.off, l.idx, nil, l.slotPre, nil)
		for _, o := range r.outs {
			if !succeeds(o) {
				if !failedIO(o.st) && len(joinedAll(o.st, "w")) > 0 {
					l.c.Obl("slot", l.cfg+": "+f.Short+" refused", false, f.Pos, "a refused update has written to the file")
				}
				continue
			}
			w := joined(r.e, o.st, "w")
			l.c.Obl("slot", l.cfg+": "+f.Short+" writes", w != nil, f.Pos, "a successful update must write one contiguous range of its slot")
			if w != nil {
				ws = append(ws, wrote{o.st, r.e, w, r.args[1]})
			}
		}
		if len(ws) == 0 {
			l.c.Obl("slot", l.cfg+": "+f.Short+" writes", false, f.Pos, "no successful update was found")
		}
		return ws
	}
	roots, metas := setter(l.set), setter(l.setMeta)
	if len(roots) == 0 || len(metas) == 0 {
		return
	}
	// the start of a slot
	base := newState()
	base.facts.assume(tLe(mkInt(l.page), l.off))
	l.slotPre(base.facts)
	l.start = roots[0].io.pos
	for _, w := range metas {
		if base.facts.implied(tLt(w.io.pos, l.start)) {
			l.start = w.io.pos
		}
	}
	stop := replaceTerms(l.start, map[*Term]*Term{l.idx: tAddK(l.idx, 1)})
	first := replaceTerms(l.start, map[*Term]*Term{l.idx: tZero})
	if k, ok := constI(tSub(first, l.off)); ok {
		l.head = k
	}
	l.c.Obl("slot", l.cfg+": slots follow the page header", l.head >= 9 && base.facts.implied(tLe(tAddK(l.off, l.head), l.start)), l.set.Pos, "the first slot begins inside the page header")
	ext := func(f *Func, st *State, pos, n *Term, where string) {
		fa := st.facts
		l.c.Obl("slot", l.cfg+": "+f.Short+" stays in its page", fa.implied(tLe(tAdd(pos, n), tAddK(l.off, l.page))) && fa.implied(tLe(l.off, pos)), where, "the access can leave the page")
	}
	for _, w := range roots {
		fa := w.st.facts
		ext(l.set, w.st, w.io.pos, w.io.n, w.io.where)
		l.c.Obl("slot", l.cfg+": SetRoot stays in its slot", fa.implied(tLe(l.start, w.io.pos)) && fa.implied(tLe(tAdd(w.io.pos, w.io.n), stop)), w.io.where, "the root pointer is written outside its slot")
		for _, m := range metas {
			l.c.Obl("slot", l.cfg+": root and metadata are apart", m.st.facts.implied(tLe(tAdd(w.io.pos, w.io.n), m.io.pos)) || m.st.facts.implied(tLe(tAdd(m.io.pos, m.io.n), w.io.pos)), m.io.where, "the metadata and the root pointer of a slot overlap")
		}
	}
	over := int64(0)
	decided := true
	for _, w := range metas {
		fa := w.st.facts
		ext(l.setMeta, w.st, w.io.pos, w.io.n, w.io.where)
		l.c.Obl("slot", l.cfg+": SetMetadata stays in its slot", fa.implied(tLe(l.start, w.io.pos)), w.io.where, "the metadata is written outside its slot")
		end := tSub(tAdd(w.io.pos, w.io.n), stop)
		k := int64(-1)
		for d := int64(0); d <= 512; d++ {
			if fa.implied(tLe(end, mkInt(d))) {
				k = d
				break
			}
		}
		if k < 0 {
			decided = false
		} else if k > over {
			over = k
		}
	}
	if !decided {
		l.c.Obl("slot", "SetMetadata: metadata of unbounded length", false, l.setMeta.Pos, "the length of the metadata written into a slot is not limited")
	} else {
		con := "SetMetadata: the longest metadata accepted fits its slot"
		if over > 0 {
			con = fmt.Sprintf("SetMetadata: the longest metadata accepted exceeds its slot by %d bytes", over)
		}
		l.c.Obl("slot", con, over == 0, l.setMeta.Pos, fmt.Sprintf("metadata accepted by SetMetadata can overwrite the first %d bytes of the next slot", over))
	}
	// reading back
	for _, w := range roots {
		r := l.exec(l.getRoot, l.off, l.idx, []diskPart{{w.io.pos, w.io.s}}, l.slotPre, nil)
		l.readBack(l.getRoot, r, func(o Outcome) bool { return termSame(f8(o), o.res[0], w.arg) }, ext)
	}
	for _, w := range metas {
		r := l.exec(l.meta, l.off, l.idx, []diskPart{{w.io.pos, w.io.s}}, func(f *Facts) {
			l.slotPre(f)
			for _, x := range w.st.facts.lits {
				f.assume(x)
			}
		}, nil)
		want := w.e.sliceSeq(w.st, w.arg, byteT)
		l.readBack(l.meta, r, func(o Outcome) bool {
			got := r.e.sliceSeq(o.st, o.res[0], byteT)
			return seqSame(f8(o), got, want) || fromLoop(got)
		}, ext)
	}
}

func joinedAll(st *State, kind string) []slotIO {
	var r []slotIO
	for _, x := range ioOf(st) {
		if x.kind == kind {
			r = append(r, x)
		}
	}
	return r
}

func (l *slots) readBack(f *Func, r *slotRun, same func(Outcome) bool, ext func(*Func, *State, *Term, *Term, string)) {
	con := l.cfg + ": " + f.Short + " returns what was stored"
	n := 0
	for _, o := range r.outs {
		for _, x := range ioOf(o.st) {
			ext(f, o.st, x.pos, x.n, x.where)
		}
		l.c.Obl("slot", l.cfg+": "+f.Short+" only reads", len(joinedAll(o.st, "w")) == 0, f.Pos, "a read operation writes to the file")
		if o.panic {
			l.c.Obl("roundtrip", con, false, f.Pos, "reading back can panic")
			continue
		}
		if failedIO(o.st) {
			continue
		}
		if !succeeds(o) {
			l.c.Obl("roundtrip", con, false, f.Pos, "reading back what was stored can fail although the file can be read")
			continue
		}
		n++
		l.c.Obl("roundtrip", con, same(o), f.Pos, "the value read back from the slot is not the one stored there")
	}
	l.c.Obl("roundtrip", con, n > 0, f.Pos, "no successful read was found")
}

// slotResult is the page and number of the slot returned.
func (l *slots) slotResult(e *Engine, o Outcome) (off, idx, rws *Term) {
	p := o.res[0]
	return e.load(o.st, fieldAddr(p, l.t, l.offF), l.t.field(l.offF)), e.load(o.st, fieldAddr(p, l.t, l.idxF), l.t.field(l.idxF)), e.load(o.st, fieldAddr(p, l.t, l.rwsF), l.t.field(l.rwsF))
}

func (l *slots) nextVal(f *Facts) *Term {
	return mkApp("getle8", &Type{Kind: "int", Bits: 64, str: "uint64"}, l.next)
}

var maxU64 = func() *Term { x := bigOf(1); x.Lsh(x, 64); return mkBig(x.Sub(x, bigOf(1))) }()

func (l *slots) nextRule() {
	f := l.nextF
	nv := l.nextVal(nil)
	check := func(idx *Term, pre func(*Facts), what string) {
		r := l.exec(f, l.off, idx, l.header(l.cnt, l.next), pre, nil)
		at := tAddK(idx, 1)
		if idx.op == TInt {
			at = tZero
		}
		con := l.cfg + ": Next after " + what
		for _, o := range r.outs {
			fa := o.st.facts
			if len(joinedAll(o.st, "w")) > 0 {
				l.c.Obl("next", con, false, f.Pos, "moving to the next slot writes to the file")
			}
			if o.panic {
				l.c.Obl("next", con, false, f.Pos, "can panic")
				continue
			}
			if failedIO(o.st) {
				continue
			}
			switch {
			case succeeds(o):
				off, i, rws := l.slotResult(r.e, o)
				same := fa.implied(tEq(off, l.off)) && fa.implied(tEq(i, at)) && fa.implied(tLt(at, l.cnt))
				over := fa.implied(tEq(off, nv)) && fa.implied(tEq(i, tZero)) && fa.implied(tLe(l.cnt, at)) && fa.implied(tNot(tEq(nv, maxU64)))
				rw := r.e.load(o.st, fieldAddr(r.args[0], l.t, l.rwsF), l.t.field(l.rwsF))
				l.c.Obl("next", con, (same || over) && rws == rw, f.Pos, "the slot returned is not the one that follows: the next of this page while the count allows it, else the first of the linked page")
			case fa.implied(tEq(o.res[1], mkNamed("global:err:io.EOF", tErrT))):
				l.c.Obl("next", con, fa.implied(tLe(l.cnt, at)) && fa.implied(tEq(nv, maxU64)), f.Pos, "the end of the list is reported although slots follow")
			default:
				l.c.Obl("next", con, false, f.Pos, "a readable list is refused, or an error is returned together with a slot")
			}
		}
	}
	check(l.idx, l.listPre, "a slot")
	check(mkInt(255), func(f *Facts) { f.assume(tLe(l.cnt, mkInt(l.n))) }, "the header")
}

func (l *slots) addRule() {
	f := l.addF
	nv := l.nextVal(nil)
	fresh := map[string]bool{}
	check := func(idx *Term, pre func(*Facts), what string) {
		r := l.exec(f, l.off, idx, l.header(l.cnt, l.next), pre, nil)
		at := tAddK(idx, 1)
		if idx.op == TInt {
			at = tZero
		}
		con := l.cfg + ": AddNext after " + what
		n := 0
		for _, o := range r.outs {
			fa := o.st.facts
			ws := joinedAll(o.st, "w")
			nps := evsOf(o.st, "newpage")
			// order on every path: the link only after the page is complete
			var np, content *Term
			for _, ev := range nps {
				np, content = ev.A[0], ev.A[1]
			}
			for _, w := range ws {
				where := w.where
				switch {
				case np != nil && fa.implied(tEq(w.pos, np)) || np != nil && fa.implied(tLe(np, w.pos)) && fa.implied(tLe(tAdd(w.pos, w.n), tAddK(np, l.page))):
					// into the fresh page, overlaid on what it holds
					d := tSub(w.pos, np)
					content = r.e.seqCat(fa, r.e.seqSub(fa, content, tZero, d), w.s, r.e.seqSub(fa, content, tAdd(d, w.n), seqLen(content)))
					if linked(ws, w, l.off, fa) {
						l.c.Obl("add", con+": order", false, where, "the new page is linked before it is initialised")
					}
				case fa.implied(tEq(w.pos, l.off)) && w.n == mkInt(8):
					v := ofBytes(r.e, o.st, w.s, i64T)
					l.c.Obl("add", con+": link", np != nil && fa.implied(tEq(v, np)) && fa.implied(tLe(mkInt(l.n), l.cnt)) && fa.implied(tEq(nv, maxU64)), where, "the link written is not to the new page, or replaces an existing one, or leaves free slots behind")
					if np != nil {
						l.freshPage(np, content, con, fresh)
					}
				case fa.implied(tEq(w.pos, tAddK(l.off, 8))) && w.n == tOne:
					v := r.e.seqAt(fa, w.s, tZero, byteT)
					l.c.Obl("add", con+": count", fa.implied(tEq(v, tAddK(l.cnt, 1))) && fa.implied(tLe(l.cnt, at)), where, "the slot count does not grow by exactly one at the end of the list")
				default:
					l.c.Obl("add", con+": other writes", false, where, "adding a slot writes somewhere other than the count, the link and the new page")
				}
			}
			if o.panic {
				l.c.Obl("add", con, false, f.Pos, "can panic")
				continue
			}
			if failedIO(o.st) {
				continue
			}
			if !succeeds(o) {
				refused := fa.implied(tNot(tEq(o.res[1], tNil)))
				l.c.Obl("add", con+": refused", refused && len(ws) == 0 && len(nps) == 0, f.Pos, "a refused addition changes the file")
				l.c.Obl("add", con+": refused", fa.implied(tLt(at, l.cnt)) || fa.implied(tNot(tEq(nv, maxU64))), f.Pos, "a slot at the end of the list is refused")
				continue
			}
			n++
			off, i, rws := l.slotResult(r.e, o)
			rw := r.e.load(o.st, fieldAddr(r.args[0], l.t, l.rwsF), l.t.field(l.rwsF))
			in := fa.implied(tEq(off, l.off)) && fa.implied(tEq(i, l.cnt)) && fa.implied(tEq(i, at)) && len(ws) == 1 && len(nps) == 0
			nw := np != nil && fa.implied(tEq(off, np)) && fa.implied(tEq(i, tZero)) && len(nps) == 1 && linked(ws, slotIO{at: 1 << 30}, l.off, fa)
			l.c.Obl("add", con, (in || nw) && rws == rw, f.Pos, "the slot returned is not the one that was added")
		}
		l.c.Obl("add", con, n > 0, f.Pos, "no successful addition was found")
	}
	check(l.idx, l.listPre, "a slot")
	check(mkInt(255), func(f *Facts) { f.assume(tLe(l.cnt, mkInt(l.n))) }, "the header")
}

// linked: the link of the page at off is written before w.
func linked(ws []slotIO, w slotIO, off *Term, f *Facts) bool {
	for _, x := range ws {
		if x.at < w.at && f.implied(tEq(x.pos, off)) {
			return true
		}
	}
	return false
}

// freshPage: a page with this content is the end of the list, holds the slot
// that is handed out, and every slot of it is empty.
func (l *slots) freshPage(np, content *Term, con string, done map[string]bool) {
	k := replaceTerms(content, map[*Term]*Term{np: l.off}).String()
	if done[k] {
		return
	}
	done[k] = true
	disk := []diskPart{{l.off, content}}
	zero := func(idx *Term, pre func(*Facts)) {
		r := l.exec(l.nextF, l.off, idx, disk, pre, nil)
		for _, o := range r.outs {
			if !o.panic && failedIO(o.st) {
				continue
			}
			l.c.Obl("fresh", con+": a new page ends the list", !o.panic && o.st.facts.implied(tEq(o.res[1], mkNamed("global:err:io.EOF", tErrT))), l.nextF.Pos, "a freshly initialised page does not read as the end of the list")
		}
	}
	zero(tZero, nil)
	e := newEngine(l.g, &Client{})
	l.c.Obl("fresh", con+": a new page counts one slot", e.seqAt(newState().facts, content, mkInt(8), byteT) == tOne, l.addF.Pos, "a page added for one slot does not count exactly that slot")
	l.emptySlots(disk, con)
}

func (l *slots) emptySlots(disk []diskPart, con string) {
	r := l.exec(l.getRoot, l.off, l.idx, disk, l.slotPre, nil)
	for _, o := range r.outs {
		if !o.panic && failedIO(o.st) {
			continue
		}
		ok := !o.panic && o.st.facts.implied(tEq(o.res[1], tNil))
		if ok {
			for _, fl := range l.getRoot.Results[0].Fields {
				ok = ok && o.st.facts.implied(tEq(mkField(o.res[0], fl.Name, fl.Typ), tZero))
			}
		}
		l.c.Obl("fresh", con+": a new slot has no tree", ok, l.getRoot.Pos, "the root of a slot of a freshly initialised page is not empty")
	}
	r = l.exec(l.meta, l.off, l.idx, disk, l.slotPre, nil)
	for _, o := range r.outs {
		if !o.panic && failedIO(o.st) {
			continue
		}
		l.c.Obl("fresh", con+": a new slot has no metadata", !o.panic && o.st.facts.implied(tEq(o.res[1], tNil)) && o.st.facts.implied(tEq(lenOf(o.res[0]), tZero)), l.meta.Pos, "the metadata of a slot of a freshly initialised page is not empty")
	}
}

func (l *slots) openRule() {
	f := l.openF
	l.c.Fn(f)
	e := newEngine(l.g, l.client(nil))
	args := symArgs(f)
	st := newState()
	var want *Term
	for k, t := range f.ParamT {
		if t.Kind == "int" {
			want = mkApp("pageat", i64T, args[k])
			st.facts.assume(tLe(tZero, args[k]))
		}
	}
	var pf *Term
	for k, t := range f.ParamT {
		if t.Kind == "iface" {
			pf = args[k]
		}
	}
	con := l.cfg + ": " + f.Short
	done := map[string]bool{}
	n := 0
	for _, o := range e.Run(f, args, nil, st) {
		fa := o.st.facts
		ws := joinedAll(o.st, "w")
		eof := evsOf(o.st, "eof")
		for _, w := range ws {
			ok := len(eof) > 0 && want != nil && fa.implied(tEq(w.pos, want)) && w.n == mkInt(l.page)
			l.c.Obl("open", con+": initialises", ok, w.where, "an existing page is overwritten, or the page initialised is not the requested one")
		}
		if o.panic {
			l.c.Obl("open", con, false, f.Pos, "can panic")
			continue
		}
		if failedIO(o.st) {
			continue
		}
		if !succeeds(o) {
			l.c.Obl("open", con, false, f.Pos, "a readable page is refused")
			continue
		}
		n++
		off, i, rws := l.slotResult(e, o)
		l.c.Obl("open", con+": position", want != nil && fa.implied(tEq(off, want)) && i == mkInt(255) && rws == pf, f.Pos, "the list opened is not the one in the requested page")
		if len(eof) > 0 {
			l.c.Obl("open", con+": initialised", len(ws) == 1, f.Pos, "a page that does not exist is not initialised")
			for _, w := range ws {
				r := l.exec(l.nextF, l.off, mkInt(255), []diskPart{{l.off, w.s}}, nil, nil)
				for _, x := range r.outs {
					if !x.panic && failedIO(x.st) {
						continue
					}
					l.c.Obl("fresh", con+": an initialised list is empty", !x.panic && x.st.facts.implied(tEq(x.res[1], mkNamed("global:err:io.EOF", tErrT))), l.nextF.Pos, "a freshly initialised list of slots is not empty")
				}
				if !done[w.s.String()] {
					done[w.s.String()] = true
					l.emptySlots([]diskPart{{l.off, w.s}}, con)
				}
			}
		}
	}
	l.c.Problems(e, con)
	l.c.Obl("open", con, n > 0, f.Pos, "no successful open was found")
}

func (l *slots) attachRule() {
	for _, f := range l.g.all {
		if f.Pkg != l.addF.Pkg || !f.Exported || len(f.ParamT) != 2 || len(f.Results) != 1 || len(f.Blocks) == 0 {
			continue
		}
		if f.ParamT[0].Kind != "ptr" || f.ParamT[0].Elem.String() != l.t.String() || f.ParamT[1].Kind != "ptr" || f.Results[0].String() != f.ParamT[1].String() {
			continue
		}
		tt := f.ParamT[1].Elem
		if tt.field("MetaPage") == nil || tt.field("PageFile") == nil {
			continue
		}
		r := l.exec(f, l.off, l.idx, nil, nil, nil)
		for _, o := range r.outs {
			ok := !o.panic && len(o.res) == 1
			if ok {
				mp := r.e.load(o.st, fieldAddr(o.res[0], tt, "MetaPage"), tt.field("MetaPage"))
				pf := r.e.load(o.st, fieldAddr(o.res[0], tt, "PageFile"), tt.field("PageFile"))
				rw := r.e.load(o.st, fieldAddr(r.args[0], l.t, l.rwsF), l.t.field(l.rwsF))
				off := (*Term)(nil)
				if mp.op == TIface {
					off = r.e.load(o.st, fieldAddr(mp.args[0], l.t, l.offF), l.t.field(l.offF))
				}
				ok = off == l.off && r.e.load(o.st, fieldAddr(mp.args[0], l.t, l.idxF), l.t.field(l.idxF)) == l.idx && pf == rw
				for _, fl := range tt.Fields {
					if fl.Name != "MetaPage" && fl.Name != "PageFile" {
						was := r.e.load(newState(), fieldAddr(r.args[1], tt, fl.Name), fl.Typ)
						now := r.e.load(o.st, fieldAddr(o.res[0], tt, fl.Name), fl.Typ)
						ok = ok && was.String() == now.String()
					}
				}
			}
			l.c.Obl("attach", l.cfg+": "+f.Short, ok, f.Pos, "the tree returned does not use this slot as its root, or not the slot's page file, or not the caller's settings")
		}
	}
}
