package main

// C23: a mapped file is one file's shared memory, owned until it is closed.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C23",
		Title: "a mapped file owns its file and shares its memory",
		Rules: "Typestate and value analysis of every exported function and method of the mapped file, for the linux and darwin variants, with every system call failing or succeeding. (release) a function that opens a file and returns an error has closed it exactly once and left no mapping; one that succeeds returns it open. Close attempts to close the file exactly once on every path and, when there is a mapping, to unmap it exactly once, whatever fails; no other method closes the file. (whole) every mapping is made of the object's own file, from its start, with exactly the size the file was found to have after the last write. (shared) every mapping is shared; the protection and flags used when the file grows are those it was opened with: they are constants or read from fields that every constructor, also for an empty file, sets to the values it maps with. (protection) opening for reading and writing maps with read and write protection, opening read-only never with write protection. (parts) the accessors return the mapping and the file themselves.",
		Trust: []string{"Go type checker and go/ssa construction", "PROT_READ=1, PROT_WRITE=2, MAP_SHARED=1 on both systems", "Mremap keeps protection and flags"},
		Run: func(c *Ctx) {
			c23Config(c, "linux")
			c23Config(c, "darwin")
			c.Min("release", 6)
			c.Min("shared", 2)
			c.Min("whole", 2)
			c.Min("protection", 2)
		},
	})
}

const (
	oRdwrDarwin  = 2
	oCreatDarwin = 0x200
)

func c23Config(c *Ctx, goos string) {
	g := c.Prog("", goos)
	var mt *Type
	for n, t := range g.named {
		if strings.HasPrefix(n, "mmap.") {
			x := g.typ(t)
			if x.Kind == "struct" {
				b, s, f := mmapFields(x)
				if b != "" && s != "" && f != "" {
					mt = x
				}
			}
		}
	}
	if mt == nil {
		c.Missing("release", "the mapped file type (byte slice, position, file) for "+goos)
		return
	}
	bf, sf, ff := mmapFields(mt)
	create := int64(oCreate)
	if goos == "darwin" {
		create = oCreatDarwin
	}
	// which fields hold the protection and flags, learnt from the growing methods
	protF, flagF := "", ""
	type run struct {
		f     *Func
		flags int64 // -1: symbolic
	}
	var methods, ctors []run
	for _, f := range g.all {
		if f.Pkg != "mmap" || !f.Exported {
			continue
		}
		if f.Recv == mt.Name {
			methods = append(methods, run{f, -1})
			continue
		}
		flagged := false
		for i, t := range f.ParamT {
			if t.Kind == "int" && t.Signed && i > 0 && f.ParamT[i-1].String() == "string" {
				flagged = true
			}
		}
		if flagged {
			for _, v := range []int64{oRdwr, oRdwr | create, 0} {
				ctors = append(ctors, run{f, v})
			}
		} else {
			ctors = append(ctors, run{f, -1})
		}
	}
	fieldOf := func(e *Engine, st *State, obj, v *Term) string {
		for _, fl := range mt.Fields {
			if fl.Typ.Kind == "int" && fl.Name != sf && e.load(st, fieldAddr(obj, mt, fl.Name), fl.Typ) == v {
				return fl.Name
			}
		}
		return ""
	}
	for _, rn := range append(methods, ctors...) {
		f := rn.f
		c.Fn(f)
		isMethod := f.Recv == mt.Name
		root := goos + ":" + f.Name
		name := root
		if rn.flags >= 0 {
			name += fmt.Sprintf(" with flags %#x", rn.flags)
		}
		e := newEngine(g, mmapClient(c))
		st := newState()
		args := symArgs(f)
		var recv, file, mapping *Term
		if isMethod {
			recv = args[0]
			mapping = e.load(st, fieldAddr(recv, mt, bf), mt.field(bf))
			s := e.load(st, fieldAddr(recv, mt, sf), mt.field(sf))
			file = e.load(st, fieldAddr(recv, mt, ff), mt.field(ff))
			st.facts.assume(tLe(tZero, s))
			st.facts.assume(tLe(s, lenOf(mapping)))
			st.facts.assume(tNot(tEq(recv, tNil)))
			st.auto["size"] = lenOf(mapping)
		}
		var pre *Term
		if isMethod {
			pre = lenOf(mapping)
		}
		if rn.flags >= 0 {
			for i, t := range f.ParamT {
				if t.Kind == "int" && t.Signed && i > 0 && f.ParamT[i-1].String() == "string" {
					args[i] = mkInt(rn.flags)
				}
			}
		}
		init := map[string]*Term{}
		if isMethod {
			for _, fl := range mt.Fields {
				if fl.Typ.Kind == "int" && fl.Name != sf {
					init[fl.Name] = e.load(st, fieldAddr(recv, mt, fl.Name), fl.Typ)
				}
			}
		}
		outs := e.Run(f, args, nil, st)
		c.Problems(e, root)
		var protUsed, flagUsed []*Term
		for _, o := range outs {
			if o.panic || !o.st.facts.consistent() {
				continue
			}
			failed := false
			if ei := errResult(f.Results); ei >= 0 {
				failed = o.st.facts.refuted(tEq(o.res[ei], tNil))
			}
			obj := recv
			if !isMethod {
				for i, t := range f.Results {
					if t.Kind == "ptr" && t.Elem.Name == mt.Name && !failed && o.res[i] != tNil {
						obj = o.res[i]
					}
				}
			}
			objFile := file
			if !isMethod && obj != nil {
				objFile = e.load(o.st, fieldAddr(obj, mt, ff), mt.field(ff))
			}
			var opened, closed []*Term
			count := func(l []*Term, x *Term) int {
				n := 0
				for _, y := range l {
					if y == x {
						n++
					}
				}
				return n
			}
			unmapped := 0
			live := map[*Term]bool{}
			for i, ev := range o.st.trace {
				switch ev.Kind {
				case "open":
					opened = append(opened, ev.A[0])
				case "close", "close-failed":
					closed = append(closed, ev.A[0])
				case "unmap", "unmap-failed":
					unmapped++
					delete(live, ev.A[0])
				case "map":
					live[ev.A[0]] = true
					c23size(c, name, o, ev, i, objFile)
					if ev.Str == "remap" || len(ev.A) < 7 {
						continue
					}
					// map(obj, n, fd, offset, length, prot, flags)
					prot, flags := ev.A[5], ev.A[6]
					mine := false
					subterms(ev.A[2], map[*Term]bool{}, func(x *Term) {
						if x.op == TApp && x.s == "fd" && (x.args[0] == objFile || obj == nil && count(append(opened, args...), x.args[0]) > 0) {
							mine = true
						}
					})
					c.Obl("whole", name+": descriptor", mine, ev.Pos, fmt.Sprintf("the mapping is made of %v, which is not the object's file", ev.A[2]))
					c.Obl("whole", name+": start", o.st.facts.implied(tEq(ev.A[3], tZero)), ev.Pos, "the mapping does not start at the beginning of the file")
					if isMethod {
						pf, lf := fieldOf(e, st, recv, prot), fieldOf(e, st, recv, flags)
						okP := pf != "" || prot.op == TInt && prot.k.Int64()&3 == 3
						okF := lf != "" || flags.op == TInt && flags.k.Int64()&1 == 1
						for n, v := range init {
							if prot == v {
								okP, pf = true, n
							}
							if flags == v {
								okF, lf = true, n
							}
						}
						if pf != "" {
							protF = pf
						}
						if lf != "" {
							flagF = lf
						}
						c.Obl("shared", name+": remapping", okF, ev.Pos, fmt.Sprintf("a grown file is mapped with flags %v, not those it was opened with", flags))
						c.Obl("shared", name+": protection", okP, ev.Pos, fmt.Sprintf("a grown file is mapped with protection %v, not the one it was opened with", prot))
					} else {
						protUsed = append(protUsed, prot)
						flagUsed = append(flagUsed, flags)
						c.Obl("shared", name, flags.op == TInt && flags.k.Int64()&1 == 1 && flags.k.Int64()&2 == 0, ev.Pos, fmt.Sprintf("the file is mapped with flags %v: writes would not reach the file", flags))
						if rn.flags >= 0 || f.Short == "Open" {
							want := int64(1)
							if rn.flags&oRdwr != 0 || rn.flags < 0 {
								want = 3
							}
							c.Obl("protection", name, prot.op == TInt && prot.k.Int64() == want, ev.Pos, fmt.Sprintf("the mapping has protection %v instead of %d", prot, want))
						}
					}
				}
			}
			switch {
			case isMethod && f.Short == "Close":
				c.Obl("release", name+": file", count(closed, file) == 1 && len(closed) == 1, o.pos, fmt.Sprintf("on this path the file is closed %d times", count(closed, file)))
				none := o.st.facts.implied(tEq(mapping, tNil)) || o.st.facts.implied(tEq(pre, tZero))
				c.Obl("release", name+": mapping", unmapped == 1 || unmapped == 0 && none, o.pos, fmt.Sprintf("on this path the mapping is released %d times", unmapped))
			case isMethod:
				c.Obl("release", name, len(closed) == 0, o.pos, "the method closes the file")
				if e.load(o.st, fieldAddr(recv, mt, ff), mt.field(ff)) != file {
					c.Obl("release", name, false, o.pos, "the method replaces the file")
				}
				for n, v := range init {
					if n == protF || n == flagF {
						c.Obl("shared", name+": kept", e.load(o.st, fieldAddr(recv, mt, n), v.typ) == v, o.pos, "the method changes the mapping's parameters")
					}
				}
			default:
				for _, x := range opened {
					n := count(closed, x)
					if obj == nil {
						c.Obl("release", name+": failure", n == 1, o.pos, fmt.Sprintf("the opened file is closed %d times before an error is returned", n))
					} else {
						c.Obl("release", name+": success", n == 0 && objFile == x, o.pos, "the opened file is not what the returned object holds open")
					}
				}
				if len(opened) == 0 && obj != nil {
					c.Obl("release", name+": success", len(closed) == 0, o.pos, "the file is closed although the mapping is returned")
					own := false
					for _, a := range args {
						own = own || a == objFile
					}
					c.Obl("whole", name+": file", own, o.pos, "the returned object holds another file than the one given")
				}
				if obj == nil {
					c.Obl("release", name+": no mapping left", len(live) == 0, o.pos, "a mapping is left behind when an error is returned")
				}
			}
			// accessors
			if isMethod && len(f.Params) == 1 && len(f.Results) == 1 {
				switch {
				case f.Results[0].Kind == "slice":
					c.Obl("parts", name, o.res[0] == mapping, o.pos, "the accessor returns something else than the mapping")
				case f.Results[0].Kind == "ptr":
					c.Obl("parts", name, o.res[0] == file, o.pos, "the accessor returns something else than the file")
				}
			}
		}
		if isMethod {
			continue
		}
		// what constructors remember for growing
		for _, o := range outs {
			if o.panic || !o.st.facts.consistent() {
				continue
			}
			if ei := errResult(f.Results); ei >= 0 && o.st.facts.refuted(tEq(o.res[ei], tNil)) {
				continue
			}
			for i, t := range f.Results {
				if t.Kind != "ptr" || t.Elem.Name != mt.Name || o.res[i] == tNil {
					continue
				}
				same := func(fld string, used []*Term, what string) {
					if fld == "" {
						return
					}
					v := e.load(o.st, fieldAddr(o.res[i], mt, fld), mt.field(fld))
					ok := len(used) > 0
					for _, u := range used {
						ok = ok && o.st.facts.implied(tEq(u, v))
					}
					c.Obl("shared", name+": remembered "+what, ok, o.pos, fmt.Sprintf("the object remembers %s %v but a file that is not empty is mapped with %v", what, v, used))
				}
				same(protF, protUsed, "protection")
				same(flagF, flagUsed, "flags")
			}
		}
	}
}

// c23size: the mapping covers exactly the size the file was last found to have.
func c23size(c *Ctx, name string, o Outcome, ev *Event, at int, objFile *Term) {
	n := ev.A[1]
	ok, own := false, false
	for i := at - 1; i >= 0; i-- {
		x := o.st.trace[i]
		if x.Kind == "fwrite" || x.Kind == "ftrunc" || x.Kind == "fwrite?" {
			break
		}
		if x.Kind == "stat" {
			sz := mkApp("fsize", &Type{Kind: "int", Bits: 64, Signed: true, str: "int64"}, x.A[1])
			if o.st.facts.implied(tEq(n, sz)) {
				ok = true
			}
			if objFile == nil || x.A[0] == objFile {
				own = true
			}
		}
	}
	c.Obl("whole", name+": length", ok && own, ev.Pos, fmt.Sprintf("the mapping has length %v, which is not the size found by looking at this file after the last write", n))
}
