package main

// C03: synchronisation advances line by line, counts every record once, and
// hands each record's exact extent to the index.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C03",
		Title: "synchronisation consumes whole lines and records progress",
		Rules: "For every data handler's Synchronize, analysed from any stored progress and any data file: (find) the next line always starts at the current progress and ends at the first newline found from there; (start) the loop begins at the stored progress and count; (advance) every completed iteration moves the progress exactly past that newline; (count) an iteration that hands a record to the index raises the record count by one, and only the iteration that establishes the column names hands none; (record) the extent handed on is {progress, newline distance} and reaches every tree insertion unchanged through all helpers, recursion included; (stop) success is only reported after a search from the final progress found no newline; (save) the metadata saved before success is the one read at the start with exactly that progress and count, its save succeeded, and progress is never saved ahead of the record it covers; (in-range) no slice or index of the data file on these paths can be out of range.",
		Trust: []string{"Go type checker and go/ssa construction", "bytes.IndexByte/Index/Cut return the first match", "64-bit offsets do not overflow"},
		Run:   runC03,
	})
}

const memPtr = "pointer.MemoryPointer"

func isMemPtr(t *Type) bool { return t != nil && t.Kind == "struct" && t.Name == memPtr }

func memPtrParams(f *Func) []int {
	var r []int
	for i, t := range f.ParamT {
		if isMemPtr(t) {
			r = append(r, i)
		}
	}
	return r
}

// isTreeInsert recognises the tree insertion by its signature.
func isTreeInsert(cc *CallCtx) bool {
	return cc.Short == "Insert" && cc.Fn != nil && cc.Fn.Pkg == "bptree" && len(cc.Args) == 3
}

// inFile reports the offset and length of s as a window of the file slice.
func inFile(df, s *Term) (off, n *Term, ok bool) {
	if s.op == TNil {
		return nil, nil, false
	}
	db, do, _ := sliceParts(df)
	b, o, l := sliceParts(s)
	if b != db {
		return nil, nil, false
	}
	return tSub(o, do), l, true
}

// finders models the searches for a separator and emits find events
// A = [window offset, window length, result index or -1, separator].
func finderModel(e *Engine, st *State, cc *CallCtx, df *Term) ([]Outcome, bool) {
	var sep *Term
	cut := false
	switch cc.Name {
	case "bytes.IndexByte", "bytes.IndexRune":
		sep = cc.Args[1]
	case "bytes.Index":
		s := e.sliceSeq(st, cc.Args[1], byteT)
		if seqLen(s) == tOne {
			sep = e.seqAt(st.facts, s, tZero, byteT)
		}
	case "bytes.Cut":
		s := e.sliceSeq(st, cc.Args[1], byteT)
		if seqLen(s) == tOne {
			sep = e.seqAt(st.facts, s, tZero, byteT)
		}
		cut = true
	default:
		return nil, false
	}
	if sep == nil {
		return nil, false
	}
	off, n, ok := inFile(df, cc.Args[0])
	if !ok {
		return nil, false
	}
	idx := rng(mkApp("first", tIntT, off, n, sep), 0, 1<<62)
	s2 := st.clone()
	st.facts.assume(tLe(tZero, idx))
	st.facts.assume(tLt(idx, n))
	st.emit(&Event{Kind: "find", A: []*Term{off, n, idx, sep}, Pos: cc.Pos})
	s2.emit(&Event{Kind: "find", A: []*Term{off, n, mkInt(-1), sep}, Pos: cc.Pos})
	if !cut {
		return []Outcome{{st: st, res: []*Term{idx}}, {st: s2, res: []*Term{mkInt(-1)}}}, true
	}
	b, o, l := sliceParts(cc.Args[0])
	return []Outcome{
		{st: st, res: []*Term{mkSlice(b, o, idx), mkSlice(b, tAddK(tAdd(o, idx), 1), tAddK(tSub(l, idx), -1)), tTrue}},
		{st: s2, res: []*Term{cc.Args[0], tNil, tFalse}},
	}, true
}

// recordParams finds, for every handlers function taking an extent, which
// parameter is handed to the tree insertions as the record.
func recordParams(c *Ctx, g *GoProg) map[*Func]int {
	res := map[*Func]int{}
	var fs []*Func
	for _, f := range g.all {
		if f.Pkg != "handlers" || len(memPtrParams(f)) == 0 || len(f.Blocks) == 0 || strings.Contains(f.Name, "$") {
			continue
		}
		fs = append(fs, f)
		if p := memPtrParams(f); len(p) == 1 {
			res[f] = p[0]
		} else {
			res[f] = -1
		}
	}
	type call struct {
		f   *Func
		in  *Instr
		arg *Term
		pos string
		to  *Func
	}
	for round := 0; round < 3; round++ {
		var calls []call
		for _, f := range fs {
			f := f
			c.Fn(f)
			cl := &Client{Inline: func(fn *Func) bool {
				return fn.Pkg == "handlers" && !fn.Exported && len(memPtrParams(fn)) == 0
			}}
			cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
				if isTreeInsert(cc) {
					if e.dry == 0 {
						calls = append(calls, call{f, cc.In, cc.Args[2], cc.Pos, nil})
					}
					return e.opaque(st, cc, cc.In), true
				}
				if cc.Fn != nil && cc.Fn.Pkg == "handlers" {
					if ri, ok := res[cc.Fn]; ok {
						if e.dry == 0 && ri >= 0 {
							calls = append(calls, call{f, cc.In, cc.Args[ri], cc.Pos, cc.Fn})
						}
						return e.opaque(st, cc, cc.In), true
					}
				}
				return nil, false
			}
			e := newEngine(g, cl)
			e.Run(f, symArgs(f), nil, newState())
			c.Problems(e, f.Name)
		}
		changed := false
		for _, x := range calls {
			args := symArgs(x.f)
			if res[x.f] == -1 {
				for _, p := range memPtrParams(x.f) {
					if args[p] == x.arg {
						res[x.f] = p
						changed = true
					}
				}
			}
		}
		if changed {
			continue
		}
		for _, x := range calls {
			ri := res[x.f]
			to := "tree insertion"
			if x.to != nil {
				to = x.to.Name
			}
			ok := ri >= 0 && extentSame(newFacts(), x.arg, symArgs(x.f)[ri])
			c.Obl("record", x.f.Name+" -> "+to, ok, x.pos, fmt.Sprintf("the record extent passed on is %v instead of the one received", x.arg))
		}
		break
	}
	return res
}

func extentSame(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	t := a.typ
	if t == nil || len(t.Fields) == 0 {
		t = b.typ
	}
	if t == nil {
		return false
	}
	for _, fl := range t.Fields {
		x, y := mkField(a, fl.Name, fl.Typ), mkField(b, fl.Name, fl.Typ)
		if !f.implied(tEq(x, y)) {
			return false
		}
	}
	return true
}

// unwrapInt removes integer conversions.
func unwrapInt(t *Term) *Term {
	for t.op == TApp && strings.HasPrefix(t.s, "wrap:") {
		t = t.args[0]
	}
	return t
}

// headMap relates the header's values to their values at the back edge.
func headMap(h, b *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	for r, v := range h.env {
		if v.op == TSym || v.op == TApp && v.s != "wrap" {
			if w, ok := b.env[r]; ok && w != v && strings.HasPrefix(v.s, "phi.") {
				m[v] = w
			}
		}
	}
	for c, v := range h.mem {
		if v.op == TSym && strings.HasPrefix(v.s, "cell.") {
			if w, ok := b.mem[c]; ok {
				m[v] = w
			}
		}
	}
	return m
}

func runC03(c *Ctx) {
	g := c.Prog("", "")
	rec := recordParams(c, g)
	roots := g.methodsNamed("Synchronize", "handlers")
	for _, f := range roots {
		c03Root(c, g, f, rec)
	}
	c.Min("advance", 2)
	c.Min("start", 2)
	c.Min("count", 2)
	c.Min("record", 4)
	c.Min("save", 2)
	c.Min("stop", 2)
}

type c03Back struct {
	key        string
	begin      *Event
	head, back *State
	trace      []*Event
}

func c03Root(c *Ctx, g *GoProg, f *Func, rec map[*Func]int) {
	c.Fn(f)
	root := f.Name
	args := symArgs(f)
	var df *Term
	for i, t := range f.ParamT {
		if t.Kind == "slice" && t.Elem.Bits == 8 {
			df = args[i]
		}
	}
	if df == nil {
		c.Missing("find", "the data file parameter of "+root)
		return
	}
	var metaT *Type
	for n, t := range g.named {
		if n == "appendable.FileMeta" {
			metaT = g.typ(t)
		}
	}
	if metaT == nil {
		c.Missing("save", "the file metadata type")
		return
	}
	// the progress is the 64-bit counter that bounds the file, the other one the count
	const progF, countF = "ReadOffset", "Entries"
	if metaT.field(progF) == nil || metaT.field(countF) == nil {
		c.Missing("save", "the progress and record count of the file metadata")
		return
	}
	inlined := func(fn *Func) bool {
		if fn.Pkg != "handlers" || fn.Exported {
			return false
		}
		_, isRec := rec[fn]
		return !isRec
	}
	cl := &Client{Inline: inlined}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if o, ok := finderModel(e, st, cc, df); ok {
			return o, true
		}
		if cc.Fn != nil && cc.Fn.Pkg == "appendable" && strings.Contains(cc.Fn.Recv, "IndexFile") {
			switch cc.Short {
			case "Metadata":
				s2 := st.clone()
				o := mkObj("filemeta", ptrTo(metaT))
				for _, fl := range metaT.Fields {
					a := fieldAddr(o, metaT, fl.Name)
					st.mem[a] = mkSym("stored."+fl.Name, fl.Typ)
				}
				st.emit(&Event{Kind: "meta", A: []*Term{o, st.mem[fieldAddr(o, metaT, progF)], st.mem[fieldAddr(o, metaT, countF)]}, Pos: cc.Pos})
				er := freshErr("Metadata")
				return []Outcome{{st: st, res: []*Term{o, tNil}}, {st: s2, res: []*Term{tNil, er}}}, true
			case "SetMetadata":
				var vs []*Term
				vs = append(vs, cc.Args[1])
				for _, fl := range metaT.Fields {
					vs = append(vs, e.load(st, fieldAddr(cc.Args[1], metaT, fl.Name), fl.Typ))
				}
				s2 := st.clone()
				st.emit(&Event{Kind: "save", A: vs, Pos: cc.Pos})
				er := freshErr("SetMetadata")
				s2.emit(&Event{Kind: "save-failed", A: vs, Pos: cc.Pos})
				return []Outcome{{st: st, res: []*Term{tNil}}, {st: s2, res: []*Term{er}}}, true
			}
		}
		if cc.Fn != nil && cc.Fn.Pkg == "handlers" {
			if ri, ok := rec[cc.Fn]; ok && ri >= 0 {
				ext := cc.Args[ri]
				var dfArg *Term
				for i, t := range cc.Fn.ParamT {
					if t.Kind == "slice" && t.Elem.Bits == 8 && i < len(cc.Args) {
						dfArg = cc.Args[i]
					}
				}
				outs := e.opaque(st, cc, cc.In)
				for _, o := range outs {
					a := []*Term{ext, tNil, tNil}
					if ei := errResult(cc.Fn.Results); ei >= 0 {
						a[1] = o.res[ei]
					}
					if dfArg != nil {
						a[2] = dfArg
					}
					o.st.emit(&Event{Kind: "record", A: a, Pos: cc.Pos})
				}
				return outs, true
			}
		}
		if isTreeInsert(cc) {
			outs := e.opaque(st, cc, cc.In)
			for _, o := range outs {
				o.st.emit(&Event{Kind: "record", A: []*Term{cc.Args[2], o.res[0], tNil}, Pos: cc.Pos})
			}
			return outs, true
		}
		switch cc.Name {
		case "bytes.NewReader", "bytes.NewBuffer":
			if off, n, ok := inFile(df, cc.Args[0]); ok {
				outs := e.opaque(st, cc, cc.In)
				for _, o := range outs {
					o.st.emit(&Event{Kind: "line", A: []*Term{off, n}, Pos: cc.Pos})
				}
				return outs, true
			}
		}
		return nil, false
	}
	seen := map[*Instr]string{}
	bh := boundsHook(c, "in-range", root, seen)
	cl.OnBounds = func(e *Engine, st *State, kind string, idx, n *Term, in *Instr) { bh(e, st, kind, idx, n, in) }
	heads := map[string]*State{}
	var backs []*c03Back
	key := func(fn *Func, h int) string { return fmt.Sprintf("%s:b%d", fn.Name, h) }
	cl.OnHead = func(e *Engine, st *State, fn *Func, h int) {
		if e.dry == 0 {
			heads[key(fn, h)] = st.clone()
		}
	}
	cl.OnBack = func(e *Engine, st *State, fn *Func, h int) {
		if e.dry > 0 {
			return
		}
		k := key(fn, h)
		tr := st.trace
		var begin *Event
		for i := len(tr) - 1; i >= 0; i-- {
			if tr[i].Kind == "loop-begin" && tr[i].Str == k {
				begin = tr[i]
				tr = tr[i:]
				break
			}
		}
		backs = append(backs, &c03Back{k, begin, heads[k], st, tr})
	}
	e := newEngine(g, cl)
	outs := e.Run(f, args, nil, newState())
	c.Problems(e, root)
	ei := errResult(f.Results)
	// success paths determine the progress and count expressions of the loop
	type prog struct{ P, N, meta0, count0 *Term }
	progs := map[*Event]prog{}
	nsucc := 0
	// carried finds the header value that always is the result of searching
	// from the progress P (a search done before the loop and at its end).
	carried := func(begin *Event, P *Term) *Term {
		head := (*State)(nil)
		for _, b := range backs {
			if b.begin == begin {
				head = b.head
			}
		}
		en := e.entry[begin]
		if head == nil || en == nil {
			return nil
		}
		result := func(st *State, tr []*Event, p *Term) *Term {
			for i := len(tr) - 1; i >= 0; i-- {
				if tr[i].Kind == "find" && tr[i].A[3] == mkInt('\n') {
					if st.facts.implied(tEq(tr[i].A[0], p)) && windowToEnd(st.facts, df, tr[i]) {
						return tr[i].A[2]
					}
					return nil
				}
			}
			return nil
		}
		for r, v := range head.env {
			if v.op != TSym || !strings.HasPrefix(v.s, "phi.") {
				continue
			}
			ok := en.env[r] != nil && en.env[r] == result(en, en.trace, replaceTerms(P, headMap(head, en)))
			for _, b := range backs {
				if b.begin == begin && b.back.facts.consistent() {
					ok = ok && b.back.env[r] == result(b.back, b.trace, replaceTerms(P, headMap(b.head, b.back)))
				}
			}
			if ok {
				return v
			}
		}
		return nil
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		if ei >= 0 && o.st.facts.refuted(tEq(o.res[ei], tNil)) {
			continue
		}
		fc := o.st.facts.clone()
		if ei >= 0 {
			fc.assume(tEq(o.res[ei], tNil))
		}
		if fc.dead {
			continue
		}
		nsucc++
		var meta, save, find *Event
		saves := 0
		var lk *Event
		begins := map[string]*Event{}
		for _, ev := range o.st.trace {
			switch ev.Kind {
			case "meta":
				if meta == nil {
					meta = ev
				}
			case "save":
				save = ev
				saves++
			case "save-failed":
				save = nil
			case "find":
				if n, ok := constI(ev.A[3]); ok && n == '\n' {
					find = ev
				}
			case "loop-begin":
				begins[ev.Str] = ev
			case "loop-end":
				if find != nil {
					lk = begins[ev.Str]
				}
			}
		}
		if meta == nil || save == nil {
			c.Obl("save", root+": success at "+o.pos, false, o.pos, "success is reported although the progress was not read or not saved")
			continue
		}
		c.Obl("save", root+": object", save.A[0] == meta.A[0], save.Pos, "the saved metadata is not the metadata that was read")
		var sp, sn *Term
		for i, fl := range metaT.Fields {
			v := save.A[i+1]
			switch fl.Name {
			case progF:
				sp = v
			case countF:
				sn = v
			default:
				c.Obl("save", root+": "+fl.Name, v.op == TSym && strings.HasPrefix(v.s, "stored."+fl.Name), save.Pos, fmt.Sprintf("synchronising changes the stored %s to %v", fl.Name, v))
			}
		}
		if find == nil {
			c.Obl("stop", root, false, o.pos, "success is reported without having looked for a complete line")
			continue
		}
		okStop := find.A[2] == mkInt(-1) && fc.implied(tEq(find.A[0], sp)) && windowToEnd(fc, df, find)
		if !okStop && lk != nil {
			if v := carried(lk, sp); v != nil && fc.implied(tEq(v, mkInt(-1))) {
				okStop = true
			}
		}
		c.Obl("stop", root, okStop, o.pos, fmt.Sprintf("success is reported after the last search for a newline at offset %v (result %v) while the saved progress is %v", find.A[0], find.A[2], sp))
		if lk != nil {
			progs[lk] = prog{sp, sn, meta.A[1], meta.A[2]}
		}
	}
	if nsucc == 0 || len(progs) == 0 {
		c.Missing("save", "a successful path through the line loop of "+root)
		return
	}
	nback := 0
	for _, b := range backs {
		pr, ok := progs[b.begin]
		if !ok || !b.back.facts.consistent() {
			continue
		}
		P, N := pr.P, pr.N
		nback++
		if en := e.entry[b.begin]; en != nil {
			m0 := headMap(b.head, en)
			p0, n0 := replaceTerms(P, m0), replaceTerms(N, m0)
			c.Obl("start", root, en.facts.implied(tEq(p0, pr.meta0)) && en.facts.implied(tEq(n0, pr.count0)), f.Pos, fmt.Sprintf("the line loop starts at progress %v and count %v instead of the stored ones", p0, n0))
		}
		fc := b.back.facts
		m := headMap(b.head, b.back)
		p2, n2 := replaceTerms(P, m), replaceTerms(N, m)
		var find, saved *Event
		var recs []*Event
		for _, ev := range b.trace {
			switch ev.Kind {
			case "find":
				if k, ok := constI(ev.A[3]); ok && k == '\n' && fc.implied(tEq(ev.A[0], P)) {
					find = ev
				}
			case "record":
				recs = append(recs, ev)
			case "save":
				saved = ev
			}
		}
		idx := (*Term)(nil)
		if find != nil {
			idx = find.A[2]
			c.Obl("find", root, windowToEnd(fc, df, find), find.Pos, "the search for the newline does not cover the rest of the file")
		} else {
			// the search may have been done at the end of the previous iteration
			idx = carried(b.begin, P)
		}
		pos := f.Pos
		if len(b.trace) > 0 {
			pos = b.trace[0].Pos
		}
		if len(recs) > 0 {
			pos = recs[0].Pos
		} else if find != nil {
			pos = find.Pos
		}
		if idx == nil {
			c.Obl("find", root, false, pos, fmt.Sprintf("an iteration completes without having searched for the newline from the progress %v", P))
			continue
		}
		want := tAddK(tAdd(P, idx), 1)
		c.Obl("advance", root, fc.implied(tEq(p2, want)), pos, fmt.Sprintf("an iteration that handles the line at %v with the newline at distance %v leaves the progress at %v", P, idx, p2))
		if len(recs) > 0 {
			c.Obl("count", root, fc.implied(tEq(n2, tAddK(N, 1))), pos, fmt.Sprintf("an iteration that indexes one record changes the count from %v to %v", N, n2))
			c.Obl("record", root+" one record per line", len(recs) == 1, pos, "a line is handed to the index more than once")
		} else {
			c.Obl("count", root+" header", fc.implied(tEq(n2, N)), pos, fmt.Sprintf("an iteration that indexes no record changes the count from %v to %v", N, n2))
			c.Obl("count", root+" skipped line", establishesNames(b), pos, "a complete line is passed over without being indexed")
		}
		for _, r := range recs {
			off := mkField(r.A[0], "Offset", nil)
			ln := unwrapInt(mkField(r.A[0], "Length", nil))
			ok := fc.implied(tEq(off, P)) && (fc.implied(tEq(ln, idx)))
			c.Obl("record", root, ok, r.Pos, fmt.Sprintf("the record handed to the index is {%v, %v}, not the line {%v, %v}", off, ln, P, idx))
			c.Obl("record", root+" error", fc.implied(tEq(r.A[1], tNil)), r.Pos, "the synchronisation goes on although indexing the record failed")
			if r.A[2] != tNil {
				c.Obl("record", root+" data", r.A[2] == df, r.Pos, "the record is indexed against something other than the data file")
			}
		}
		for _, ev := range b.trace {
			if ev.Kind == "line" {
				c.Obl("line", root, fc.implied(tEq(ev.A[0], P)) && fc.implied(tEq(ev.A[1], idx)), ev.Pos, fmt.Sprintf("the text parsed is [%v,+%v), not the line [%v,+%v)", ev.A[0], ev.A[1], P, idx))
			}
		}
		if saved != nil {
			before := true
			var sp *Term
			for i, fl := range metaT.Fields {
				if fl.Name == progF {
					sp = saved.A[i+1]
				}
			}
			for _, ev := range b.trace {
				if ev == saved {
					break
				}
				if ev.Kind == "record" {
					before = false
				}
			}
			ok := fc.implied(tEq(sp, P)) || fc.implied(tEq(sp, want)) && (!before || len(recs) == 0)
			c.Obl("save", root+" in loop", ok, saved.Pos, "the progress is saved before the record it covers is indexed")
		}
	}
	if nback == 0 {
		c.Missing("advance", "an iteration of the line loop of "+root)
	}
	c.Count("line_loop_iterations", nback)
	c.Count("success_paths", nsucc)
}

func windowToEnd(f *Facts, df *Term, find *Event) bool {
	return f.implied(tEq(tAdd(find.A[0], find.A[1]), lenOf(df)))
}

// establishesNames: at the head some list was empty, and it is a parsed list at the end.
func establishesNames(b *c03Back) bool {
	for hv, nv := range headMap(b.head, b.back) {
		if hv.typ != nil && hv.typ.Kind == "slice" && b.back.facts.implied(tEq(lenOf(hv), tZero)) && nv != tNil && nv != hv {
			return true
		}
	}
	return false
}

func ptrTo(t *Type) *Type { return &Type{Kind: "ptr", Elem: t, str: "*" + t.String()} }
