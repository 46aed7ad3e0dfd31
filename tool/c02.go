package main

// C02: opening refuses an index it cannot read, and a fresh index is stamped.

import "fmt"

func init() {
	register(&Check{
		ID:    "C02",
		Title: "index identity is checked on open and stamped on creation",
		Rules: "On every path of the index opener that returns an index without an error, either the first metadata slot was read and the dataflow facts on the path entail byte 0 = the version that fresh indexes are stamped with and byte 1 = the format of the handler in use, or the slot was created on that path and the bytes stored into it are exactly a non-zero version, the handler's format, a zero 64-bit little-endian progress and a zero record count; the page handed to the returned index is the page that was checked or stamped.",
		Trust: []string{"Go type checker and go/ssa construction", "the format reported by a handler does not change between two calls", "page accessors return what was stored (C05)"},
		Run:   runC02,
	})
}

func pureInvoke(e *Engine, st *State, cc *CallCtx, names ...string) ([]Outcome, bool) {
	if !cc.In.Call.Invoke {
		return nil, false
	}
	for _, n := range names {
		if cc.Short == n {
			ts := resultTypes(cc.In)
			var r []*Term
			for i, t := range ts {
				r = append(r, mkApp(fmt.Sprintf("pure:%s.%d", n, i), t, cc.Args...))
			}
			return one(st, r...), true
		}
	}
	return nil, false
}

func runC02(c *Ctx) {
	g := c.Prog("", "")
	root := g.function("appendable", "NewIndexFile")
	if root == nil {
		c.Missing("open", "the exported index opener NewIndexFile")
		return
	}
	c.Fn(root)
	cl := &Client{Inline: func(fn *Func) bool {
		return fn.Pkg == "appendable" && fn != root || fn.Pkg == "encoding"
	}}
	var fmtTerm *Term
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if o, ok := pureInvoke(e, st, cc, "Format"); ok {
			if fmtTerm != nil && fmtTerm != o[0].res[0] {
				c.Obl("open", "one handler", false, cc.Pos, "the format is taken from more than one handler")
			}
			fmtTerm = o[0].res[0]
			return o, true
		}
		if cc.Fn == nil || cc.Fn.Pkg != "linkedpage" {
			return nil, false
		}
		switch cc.Short {
		case "Metadata", "SetMetadata", "AddNext", "Next":
		case "MarshalMetadata", "UnmarshalMetadata":
			return nil, false
		default:
			return nil, false
		}
		var data *Term
		if cc.Short == "SetMetadata" {
			data = e.sliceSeq(st, cc.Args[1], byteT)
		}
		outs := e.opaque(st, cc, cc.In)
		for _, o := range outs {
			switch cc.Short {
			case "Metadata":
				o.st.emit(&Event{Kind: "read", A: []*Term{cc.Args[0], o.res[0], o.res[1]}, Pos: cc.Pos})
			case "SetMetadata":
				o.st.emit(&Event{Kind: "stamp", A: []*Term{cc.Args[0], data, o.res[0]}, Pos: cc.Pos})
			case "AddNext":
				o.st.emit(&Event{Kind: "add", A: []*Term{o.res[0], o.res[1]}, Pos: cc.Pos})
			case "Next":
				o.st.emit(&Event{Kind: "next", A: []*Term{o.res[0], o.res[1]}, Pos: cc.Pos})
			}
		}
		return outs, true
	}
	e := newEngine(g, cl)
	outs := e.Run(root, symArgs(root), nil, newState())
	c.Problems(e, root.Name)
	nread, nstamp := 0, 0
	version := tOne
	for _, o := range outs {
		for _, ev := range o.st.trace {
			if ev.Kind == "stamp" {
				if b0 := e.seqAt(o.st.facts, ev.A[1], tZero, byteT); b0.op == TInt {
					version = b0
				}
			}
		}
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		ei := errResult(root.Results)
		if o.st.facts.refuted(tEq(o.res[ei], tNil)) {
			continue // rejected
		}
		f := o.st.facts.clone()
		f.assume(tEq(o.res[ei], tNil))
		if f.dead || !f.consistent() {
			continue
		}
		var read, stamp, add *Event
		for _, ev := range o.st.trace {
			switch ev.Kind {
			case "read":
				read = ev
			case "stamp":
				stamp = ev
			case "add":
				add = ev
			}
		}
		page := (*Term)(nil)
		if t := pageFieldOf(e, o.st, o.res[0]); t != nil {
			page = t
		}
		switch {
		case stamp != nil && add != nil:
			nstamp++
			s := stamp.A[1]
			at := func(lo, hi int64) *Term { return e.seqSub(f, s, mkInt(lo), mkInt(hi)) }
			b0 := e.seqAt(f, s, tZero, byteT)
			b1 := e.seqAt(f, s, tOne, byteT)
			c.Obl("stamp-version", "fresh index", b0.op == TInt && b0 == version && b0 != tZero, stamp.Pos, fmt.Sprintf("a fresh index is stamped with version %v", b0))
			c.Obl("stamp-format", "fresh index", fmtTerm != nil && f.implied(tEq(b1, fmtTerm)), stamp.Pos, fmt.Sprintf("a fresh index is stamped with format %v, not the handler's", b1))
			x := at(2, 10)
			c.Obl("stamp-progress", "fresh index", x == seqVarApp(mkApp("le8", nil, tZero), mkInt(8)) || f.implied(tEq(e.seqAt(f, s, mkInt(2), byteT), tZero)), stamp.Pos, fmt.Sprintf("a fresh index is stamped with progress %v", x))
			c.Obl("stamp-page", "fresh index", stamp.A[0] == add.A[0] && page == stamp.A[0], stamp.Pos, "the stamped slot is not the slot the index uses")
			c.Obl("stamp-error", "fresh index", f.implied(tEq(stamp.A[2], tNil)) && f.implied(tEq(add.A[1], tNil)), stamp.Pos, "the index is returned although stamping it failed")
		case read != nil:
			nread++
			s := e.sliceSeq(o.st, read.A[1], byteT)
			b0 := e.seqAt(f, s, tZero, byteT)
			b1 := e.seqAt(f, s, tOne, byteT)
			c.Obl("check-version", "opened index", f.implied(tEq(b0, version)), read.Pos, "an index whose stored version differs from the current one is accepted")
			c.Obl("check-format", "opened index", fmtTerm != nil && f.implied(tEq(b1, fmtTerm)), read.Pos, "an index whose stored format differs from the handler's is accepted")
			c.Obl("check-page", "opened index", page == read.A[0], read.Pos, "the checked slot is not the slot the index uses")
			c.Obl("check-error", "opened index", f.implied(tEq(read.A[2], tNil)), read.Pos, "the index is returned although its metadata could not be read")
		default:
			c.Obl("open", "return at "+o.pos, false, o.pos, "an index is returned without its version and format having been checked or stamped")
		}
	}
	c.Count("paths", len(outs))
	if nread == 0 {
		c.Missing("check-version", "a path that opens an existing index")
	}
	if nstamp == 0 {
		c.Missing("stamp-version", "a path that creates an index")
	}
}

// pageFieldOf finds the linked page held by the returned object.
func pageFieldOf(e *Engine, st *State, obj *Term) *Term {
	for a, v := range st.mem {
		if a.op == TFld && a.args[0] == obj {
			if t := fldTypeOf[a]; t != nil && t.Kind == "ptr" && t.Elem != nil && t.Elem.Name == "linkedpage.LinkedPage" {
				return v
			}
		}
	}
	return nil
}
