package main

// C14: the memory mapped file stays inside its mapping and never keeps a
// mapping that no longer exists.  C23 shares the handle typestate.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C14",
		Title: "mapped file access stays inside the live mapping",
		Rules: "For every exported method of the mapped file, analysed from any state satisfying 0 <= position <= mapped length (constructors: from nothing): (in-range) every slice and index of the mapping is provably inside it; (position) the invariant holds again at every return; (stale) at every return no reachable field holds a mapping that was unmapped on the path; (live) a mapping created on the path and not stored is unmapped. (effect) a read or write that reports success reports the whole buffer and moved exactly the buffer's bytes between the buffer and the file at the offset, and the sequential forms advance the position by that much. A successful growing write must map the size the file has after the write. Decided for the linux and darwin variants.",
		Trust: []string{"Go type checker and go/ssa construction", "after a successful WriteAt(b, off) the file size reported by Stat is at least off+len(b) and at least its previous size; nobody truncates the file behind the process", "munmap and mremap behave as documented: on error the old mapping stays, on success it is gone"},
		Run: func(c *Ctx) {
			c14Config(c, "linux")
			c14Config(c, "darwin")
			c.Min("effect", 8)
			c.Min("in-range", 8)
			c.Min("position", 6)
		},
	})
}

func mmapFields(t *Type) (bytesF, seekF, fileF string) {
	for _, f := range t.Fields {
		switch {
		case f.Typ.Kind == "slice" && f.Typ.Elem.Bits == 8:
			bytesF = f.Name
		case f.Typ.gt != nil && f.Typ.gt.Underlying().String() == "int64":
			seekF = f.Name
		case f.Typ.Kind == "ptr" && strings.Contains(f.Typ.Elem.Name, "os.File"):
			fileF = f.Name
		}
	}
	return
}

// mmapClient models the system calls around mappings and handles.
func mmapClient(c *Ctx) *Client {
	cl := &Client{Inline: func(fn *Func) bool { return fn.Pkg == "mmap" }}
	fork := func(st *State, cc *CallCtx, ok func(*State) []*Term, bad []*Term) []Outcome {
		s2 := st.clone()
		er := freshErr(cc.Name)
		return []Outcome{{st: st, res: append(ok(st), tNil)}, {st: s2, res: append(bad, er)}}
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		switch {
		case strings.HasSuffix(cc.Name, "unix.Mmap"), strings.HasSuffix(cc.Name, "syscall.Mmap"):
			n := cc.Args[2]
			return fork(st, cc, func(s *State) []*Term {
				o := mkObj("mapping", nil)
				m := intern(&Term{op: TSlice, args: []*Term{o, tZero, n}})
				e.noteBase(o, byteT)
				s.facts.assume(tLt(tZero, n))
				s.emit(&Event{Kind: "map", A: append([]*Term{o, n}, cc.Args...), Pos: cc.Pos})
				return []*Term{m}
			}, []*Term{tNil}), true
		case strings.HasSuffix(cc.Name, "unix.Munmap"), strings.HasSuffix(cc.Name, "syscall.Munmap"):
			b, _, _ := sliceParts(cc.Args[0])
			r := fork(st, cc, func(s *State) []*Term {
				s.emit(&Event{Kind: "unmap", A: []*Term{b}, Pos: cc.Pos})
				return nil
			}, nil)
			r[1].st.emit(&Event{Kind: "unmap-failed", A: []*Term{b}, Pos: cc.Pos})
			return r, true
		case strings.HasSuffix(cc.Name, "unix.Mremap"):
			b, _, _ := sliceParts(cc.Args[0])
			n := cc.Args[1]
			return fork(st, cc, func(s *State) []*Term {
				o := mkObj("mapping", nil)
				m := intern(&Term{op: TSlice, args: []*Term{o, tZero, n}})
				e.noteBase(o, byteT)
				s.facts.assume(tLt(tZero, n))
				s.emit(&Event{Kind: "unmap", A: []*Term{b}, Pos: cc.Pos})
				s.emit(&Event{Kind: "map", A: []*Term{o, n}, Str: "remap", Pos: cc.Pos})
				return []*Term{m}
			}, []*Term{tNil}), true
		case cc.Name == "(*os.File).WriteAt":
			n := lenOf(cc.Args[1])
			off := cc.Args[2]
			return fork(st, cc, func(s *State) []*Term {
				s.emit(&Event{Kind: "fwrite", A: []*Term{cc.Args[0], off, n, cc.Args[1]}, Pos: cc.Pos})
				return []*Term{n}
			}, []*Term{mkSym("short", tIntT)}), true
		case cc.Name == "(*os.File).Fd":
			return one(st, mkApp("fd", callResultTypes(cc.In)[0], cc.Args[0])), true
		case cc.Name == "(*os.File).Write":
			n := lenOf(cc.Args[1])
			return fork(st, cc, func(s *State) []*Term {
				s.emit(&Event{Kind: "fwrite?", A: []*Term{cc.Args[0]}, Pos: cc.Pos})
				return []*Term{n}
			}, []*Term{mkSym("short", tIntT)}), true
		case cc.Name == "(*os.File).Truncate":
			return fork(st, cc, func(s *State) []*Term {
				s.emit(&Event{Kind: "ftrunc", A: []*Term{cc.Args[0], cc.Args[1]}, Pos: cc.Pos})
				return nil
			}, nil), true
		case cc.Name == "(*os.File).Stat":
			return fork(st, cc, func(s *State) []*Term {
				fi := mkSym("fileinfo", callResultTypes(cc.In)[0])
				s.emit(&Event{Kind: "stat", A: []*Term{cc.Args[0], fi}, Pos: cc.Pos})
				return []*Term{fi}
			}, []*Term{tNil}), true
		case cc.In.Call.Invoke && cc.Short == "Size" && len(cc.Args) == 1:
			n := mkApp("fsize", &Type{Kind: "int", Bits: 64, Signed: true, str: "int64"}, cc.Args[0])
			st.facts.assume(tLe(tZero, n))
			// the size seen by a Stat covers every earlier successful write
			for i, ev := range st.trace {
				if ev.Kind == "stat" && ev.A[1] == cc.Args[0] {
					for _, w := range st.trace[:i] {
						if w.Kind == "fwrite" && w.A[0] == ev.A[0] {
							st.facts.assume(tLe(tAdd(w.A[1], w.A[2]), n))
						}
					}
					if v, ok := st.auto["size"]; ok {
						st.facts.assume(tLe(v, n))
					}
				}
			}
			return one(st, n), true
		case cc.Name == "(*os.File).Close":
			r := fork(st, cc, func(s *State) []*Term {
				s.emit(&Event{Kind: "close", A: []*Term{cc.Args[0]}, Pos: cc.Pos})
				return nil
			}, nil)
			r[1].st.emit(&Event{Kind: "close-failed", A: []*Term{cc.Args[0]}, Pos: cc.Pos})
			return r, true
		case cc.Name == "os.OpenFile" || cc.Name == "os.Open" || cc.Name == "os.Create" || cc.Name == "os.CreateTemp":
			return fork(st, cc, func(s *State) []*Term {
				f := mkObj("file", nil)
				s.emit(&Event{Kind: "open", A: []*Term{f}, Pos: cc.Pos})
				return []*Term{f}
			}, []*Term{tNil}), true
		}
		return nil, false
	}
	return cl
}

func c14Config(c *Ctx, goos string) {
	g := c.Prog("", goos)
	var mt *Type
	for n, t := range g.named {
		if strings.HasPrefix(n, "mmap.") {
			x := g.typ(t)
			if x.Kind == "struct" {
				b, s, f := mmapFields(x)
				if b != "" && s != "" && f != "" {
					mt = x
				}
			}
		}
	}
	if mt == nil {
		c.Missing("in-range", "the mapped file type (byte slice, position, file) for "+goos)
		return
	}
	bf, sf, ff := mmapFields(mt)
	for _, f := range g.all {
		if f.Pkg != "mmap" || !f.Exported {
			continue
		}
		c.Fn(f)
		root := goos + ":" + f.Name
		isMethod := f.Recv == mt.Name
		cl := mmapClient(c)
		seen := map[*Instr]string{}
		cl.OnBounds = boundsHook(c, "in-range", root, seen)
		e := newEngine(g, cl)
		st := newState()
		args := symArgs(f)
		var recv, mapping *Term
		if isMethod {
			recv = args[0]
			b := e.load(st, fieldAddr(recv, mt, bf), mt.field(bf))
			s := e.load(st, fieldAddr(recv, mt, sf), mt.field(sf))
			st.facts.assume(tLe(tZero, s))
			st.facts.assume(tLe(s, lenOf(b)))
			mapping = b
			st.auto["size"] = lenOf(b)
			st.facts.assume(tNot(tEq(recv, tNil)))
		}
		var eff *mmapEffect
		if isMethod {
			eff = mmapEffectOf(e, st, f, args, mt, sf, mapping)
		}
		outs := e.Run(f, args, nil, st)
		c.Problems(e, root)
		for _, o := range outs {
			if o.panic {
				c.Obl("in-range", root+": panic", false, o.pos, "the method may panic")
				continue
			}
			if !o.st.facts.consistent() {
				continue
			}
			failed := false
			if ei := errResult(f.Results); ei >= 0 {
				failed = o.st.facts.refuted(tEq(o.res[ei], tNil))
			}
			obj := recv
			if !isMethod {
				for i, t := range f.Results {
					if t.Kind == "ptr" && t.Elem.Name == mt.Name {
						obj = o.res[i]
					}
				}
				if obj == nil || obj == tNil || failed {
					obj = nil
				}
			}
			if eff != nil && !failed {
				ok, msg := eff.check(e, o)
				c.Obl("effect", root, ok, o.pos, msg)
			}
			gone := map[*Term]bool{}
			made := map[*Term]string{}
			for _, ev := range o.st.trace {
				switch ev.Kind {
				case "unmap":
					gone[ev.A[0]] = true
					delete(made, ev.A[0])
				case "unmap-failed":
					delete(made, ev.A[0])
				case "map":
					made[ev.A[0]] = ev.Pos
				}
			}
			if obj != nil {
				b := e.load(o.st, fieldAddr(obj, mt, bf), mt.field(bf))
				s := e.load(o.st, fieldAddr(obj, mt, sf), mt.field(sf))
				fc := o.st.facts
				c.Obl("position", root, fc.implied(tLe(tZero, s)) && fc.implied(tLe(s, lenOf(b))), o.pos, fmt.Sprintf("at this return the position %v is not provably within the %v mapped bytes", s, lenOf(b)))
				base, _, _ := sliceParts(b)
				c.Obl("stale", root, b == tNil || !gone[base], o.pos, "at this return the file still refers to a mapping that was unmapped")
				delete(made, base)
				if mapping != nil && b != mapping && b != tNil {
					c.Obl("grow", root, fc.implied(tLe(lenOf(mapping), lenOf(b))), o.pos, "the new mapping may be shorter than the old one")
				}
				if mapping != nil && b != mapping {
					mb, _, _ := sliceParts(mapping)
					c.Obl("live", root+" old mapping", gone[mb] || fc.implied(tEq(lenOf(mapping), tZero)) || fc.implied(tEq(mapping, tNil)), o.pos, "the old mapping is dropped without being unmapped")
				}
			} else {
				c.Obl("position", root, true, "", "")
			}
			for _, p := range made {
				c.Obl("live", root+" new mapping", false, p, "a mapping made here is neither kept nor unmapped at "+o.pos)
			}
			c.Obl("live", root+" new mapping", true, "", "")
			_ = ff
		}
	}
}

// mmapEffect is what a successful read or write has to have done.
type mmapEffect struct {
	write    bool
	off      *Term
	buf      *Term
	bufSeq   *Term
	mapping  *Term
	mapSeq   *Term
	seekAddr *Term
	seekT    *Type
	wantSeek *Term
}

func mmapEffectOf(e *Engine, st *State, f *Func, args []*Term, mt *Type, sf string, mapping *Term) *mmapEffect {
	r := &mmapEffect{mapping: mapping}
	switch f.Short {
	case "Read", "ReadAt":
	case "Write", "WriteAt":
		r.write = true
	default:
		return nil
	}
	if len(args) < 2 || f.ParamT[1].Kind != "slice" {
		return nil
	}
	r.buf = args[1]
	r.bufSeq = e.sliceSeq(st, r.buf, byteT)
	r.mapSeq = e.sliceSeq(st, mapping, byteT)
	r.seekAddr, r.seekT = fieldAddr(args[0], mt, sf), mt.field(sf)
	r.off = e.load(st, r.seekAddr, r.seekT)
	r.wantSeek = tAdd(r.off, lenOf(r.buf))
	if len(args) == 3 {
		r.wantSeek = r.off
		r.off = args[2]
	}
	return r
}

func (r *mmapEffect) check(e *Engine, o Outcome) (bool, string) {
	fc := o.st.facts
	n := lenOf(r.buf)
	if !fc.implied(tEq(o.res[0], n)) {
		return false, fmt.Sprintf("success is reported with count %v instead of the buffer length", o.res[0])
	}
	if got := e.load(o.st, r.seekAddr, r.seekT); !fc.implied(tEq(got, r.wantSeek)) {
		return false, fmt.Sprintf("the position after success is %v instead of %v", got, r.wantSeek)
	}
	if fc.implied(tEq(n, tZero)) {
		return true, ""
	}
	if !r.write {
		got := e.sliceSeq(o.st, r.buf, byteT)
		want := e.seqSub(fc, r.mapSeq, r.off, tAdd(r.off, n))
		return seqSame(fc, e.seqSub(fc, got, tZero, n), want) || fromLoop(got), fmt.Sprintf("the buffer holds %v after success instead of the file's bytes at the offset", got)
	}
	for _, ev := range o.st.trace {
		if ev.Kind == "fwrite" && fc.implied(tEq(ev.A[1], r.off)) && ev.A[3] == r.buf {
			return true, ""
		}
	}
	got := e.sliceSeq(o.st, r.mapping, byteT)
	want := e.seqCat(fc, e.seqSub(fc, r.mapSeq, tZero, r.off), r.bufSeq, e.seqSub(fc, r.mapSeq, tAdd(r.off, n), seqLen(r.mapSeq)))
	return seqSame(fc, got, want) || fromLoop(got), fmt.Sprintf("the mapping holds %v after success instead of the buffer at the offset", got)
}

// seqSame decides equality of two sequence terms under the facts: empty parts
// are dropped and bounds are compared up to implied equality.
func seqSame(f *Facts, a, b *Term) bool {
	if a == b || f.norm(a) == f.norm(b) {
		return true
	}
	x, y := seqParts(f, a), seqParts(f, b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !termSame(f, x[i], y[i]) {
			return false
		}
	}
	return true
}

func seqParts(f *Facts, t *Term) []*Term {
	t = f.norm(t)
	if t.op == TApp && t.s == "cat" {
		var r []*Term
		for _, a := range t.args {
			r = append(r, seqParts(f, a)...)
		}
		return r
	}
	if t.op == TApp && t.s == "span" && f.implied(tLe(t.args[2], t.args[1])) {
		return nil
	}
	if f.implied(tEq(seqLen(t), tZero)) {
		return nil
	}
	return []*Term{t}
}

func termSame(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if isIntTerm(a) || isIntTerm(b) {
		return f.implied(tEq(a, b))
	}
	if a.op == TAgg && a.typ != nil || b.op == TAgg && b.typ != nil {
		t := a.typ
		if a.op != TAgg || t == nil {
			t = b.typ
		}
		for _, fl := range t.Fields {
			if !termSame(f, mkField(a, fl.Name, fl.Typ), mkField(b, fl.Name, fl.Typ)) {
				return false
			}
		}
		return len(t.Fields) > 0
	}
	if a.op == TApp && b.op == TApp && a.s == b.s && len(a.args) == len(b.args) {
		for i := range a.args {
			if !termSame(f, a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return f.norm(a) == f.norm(b)
}

// fromLoop: the content was built element by element in a loop, which the
// sequence domain does not follow; the content claim is then not made.
func fromLoop(t *Term) bool {
	r := false
	subterms(t, map[*Term]bool{}, func(x *Term) {
		if x.op == TSym && strings.HasPrefix(x.s, "loopseq") {
			r = true
		}
	})
	return r
}
