package main

// C11: the client decodes the numbers and the tree nodes that Go encodes.

import (
	"fmt"
	"math/big"
)

func init() {
	register(&Check{
		ID:    "C11",
		Title: "the client decodes the numbers and tree nodes that Go encodes",
		Rules: "(varint) for each of the ten lengths a varint can have, with arbitrary bytes that have the continuation mark on all but the last and anything behind it, decodeUvarint returns the sum of the low seven bits of the bytes at powers of 128 and the number of bytes of the varint. (node) the Go encoder is run symbolically on a B+ tree node of every shape (leaf or inner, keys in the node or by reference, 1 to 4 keys; 1 to 8 in the thorough tier) with arbitrary keys, pointers and values, and the client's node reader on exactly those bytes: the page asked for begins at the pointer given and holds the whole node; the node is accepted and has as many keys, leaf pointers and child pointers; each key's place, each stored key, each leaf pointer and each child pointer is the one encoded; a key by reference is what the data file holds at exactly the key's place; leaf(), numPointers() and pointer(i) answer accordingly.",
		Trust: []string{"Go type checker and go/ssa construction", "TypeScript parser and type checker", "encoding/binary writes the format it documents", "numbers are below 2^53, beyond which the client's numbers are inexact", "values of keys by reference in JSON files are decoded by C17", "a resolver returns the bytes of the range asked for"},
		Run:   runC11,
	})
}

func runC11(c *Ctx) {
	ts := c.TS()
	varintRule(c, ts)
	nodeRule(c, ts)
	c.Min("varint", 10)
	c.Min("node", 8)
}

func varintRule(c *Ctx, ts *TSProg) {
	f := ts.fn("decodeUvarint")
	if f == nil {
		c.Missing("varint", "decodeUvarint")
		return
	}
	c.Fn(f)
	for n := 1; n <= 10; n++ {
		st := newState()
		var ps []*Term
		want := tZero
		for i := 0; i < n; i++ {
			b := mkNamed(fmt.Sprintf("byte%d", i), byteT)
			low := tMod(b, mkInt(128))
			switch {
			case i < n-1:
				st.facts.assume(tLe(mkInt(128), b))
				st.facts.assume(tLe(b, mkInt(255)))
				low = tAddK(b, -128)
				st.facts.assume(tEq(tMod(b, mkInt(128)), low))
			case i == 9:
				st.facts.assume(tLe(tZero, b))
				st.facts.assume(tLe(b, tOne))
				low = b
			default:
				st.facts.assume(tLe(tZero, b))
				st.facts.assume(tLe(b, mkInt(127)))
				low = b
			}
			if i == n-1 {
				st.facts.assume(tEq(tMod(b, mkInt(128)), b))
			}
			want = tAdd(want, tMul(low, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(7*i)))))
			ps = append(ps, mkApp("unit", nil, b))
		}
		rest := mkNamed("rest:len", tsNumT)
		st.facts.assume(tLe(tZero, rest))
		ps = append(ps, seqVar("rest", rest))
		cl := &Client{Unroll: 16, Follow: true, Inline: func(*Func) bool { return true }}
		e := newEngine(ts.GoProg, cl)
		buf := e.newSlice(st, "buf", byteT, mkApp("cat", nil, ps...))
		con := fmt.Sprintf("%s: %d bytes", f.Short, n)
		k := 0
		for _, o := range e.Run(f, []*Term{buf}, nil, st) {
			fa := o.st.facts
			if !fa.satisfiable() {
				continue
			}
			if o.panic {
				c.Obl("varint", con, false, o.pos, "a varint is refused")
				continue
			}
			k++
			r := unbox(o.res[0])
			v, m := e.tsGet(o.st, r, "value", tsNumT), e.tsGet(o.st, r, "bytesRead", tsNumT)
			c.Obl("varint", con, fa.implied(tEq(m, mkInt(int64(n)))), o.pos, fmt.Sprintf("%v bytes are taken for the varint", m))
			c.Obl("varint", con, fa.implied(tEq(v, want)), o.pos, fmt.Sprintf("the value is %v", v))
		}
		c.Obl("varint", con, k > 0, f.Pos, "a varint is never decoded")
		c.Problems(e, f.Name)
	}
}

type nodeCase struct {
	leaf  bool
	fixed bool
	n     int
	w     int64 // width; 0: any
}

func (k nodeCase) String() string {
	s, t := "inner", "keys by reference"
	if k.leaf {
		s = "leaf"
	}
	if k.fixed {
		t = "keys stored"
	}
	if k.w > 0 {
		t += fmt.Sprintf(" in %d bytes", k.w-1)
	}
	return fmt.Sprintf("%s, %s, %d keys", s, t, k.n)
}

func nodeRule(c *Ctx, ts *TSProg) {
	g := c.Prog("", "linux")
	var sh *treeShape
	for _, s := range treeShapes(g) {
		if len(s.leafOnly) > 0 {
			sh = s
		}
	}
	rd := ts.fn("BPTreeNode.fromMemoryPointer")
	if sh == nil || rd == nil {
		c.Missing("node", "the node of the B+ tree and BPTreeNode.fromMemoryPointer")
		return
	}
	w := g.methodOf(sh.nodeT, "MarshalBinary")
	if w == nil {
		c.Missing("node", "MarshalBinary of the node")
		return
	}
	c.Fn(w)
	c.Fn(rd)
	max := 4
	if c.thorough() {
		max = 8
	}
	for n := 1; n <= max; n++ {
		for _, leaf := range []bool{true, false} {
			nodeAgrees(c, ts, g, sh, w, rd, nodeCase{leaf, false, n, 0})
			if n == 1 {
				nodeAgrees(c, ts, g, sh, w, rd, nodeCase{leaf, true, n, 0})
				continue
			}
			for _, width := range []int64{1, 2, 9} {
				nodeAgrees(c, ts, g, sh, w, rd, nodeCase{leaf, true, n, width})
			}
		}
	}
}

func nodeAgrees(c *Ctx, ts *TSProg, g *GoProg, sh *treeShape, w, rd *Func, nc nodeCase) {
	k := &codec{c: c, g: g, t: sh.nodeT, w: w, sh: sh, recv: symArgs(w)[0], decoded: map[string]bool{}, sizers: map[*Func]bool{}}
	for _, r := range g.methodsNamed("UnmarshalBinary", sh.insert.Pkg) {
		if r.ParamT[0].Kind == "ptr" && r.ParamT[0].Elem.String() == sh.nodeT.String() {
			k.r = r
		}
	}
	wf := ""
	for _, f := range k.t.Fields {
		if f.Typ.Kind == "int" && f.Typ.Bits == 16 && k.usesField(w, f.Name) {
			wf = f.Name
		}
	}
	if wf == "" {
		c.Missing("node", "the key width of a node")
		return
	}
	label := nc.String()
	cl := k.client(newLoopTracker(), nil)
	cl.Unroll, cl.Follow = 16, true
	cl.OnBack = nil
	e := newEngine(g, cl)
	st := newState()
	recv := k.recv
	cols := map[string][]*Term{}
	lim := mkBig(new(big.Int).Lsh(big.NewInt(1), 53))
	width := mkNamed("width", k.t.field(wf))
	if nc.fixed {
		st.facts.assume(tLe(tOne, width))
		st.facts.assume(tLe(width, mkInt(65535)))
		if nc.w > 0 {
			width = mkInt(nc.w)
		}
	} else {
		width = tZero
	}
	st.mem[fieldAddr(recv, k.t, wf)] = width
	kt := k.t.field(sh.keyCol).Elem
	var valF, extF, offF, lenF string
	for _, fl := range kt.Fields {
		if fl.Typ.Kind == "slice" {
			valF = fl.Name
		} else if isMemPtr(fl.Typ) {
			extF = fl.Name
			for _, x := range fl.Typ.Fields {
				if x.Typ.Bits == 64 {
					offF = x.Name
				} else {
					lenF = x.Name
				}
			}
		}
	}
	if valF == "" || offF == "" || lenF == "" {
		c.Missing("node", "the parts of a key")
		return
	}
	ext := func(v *Term) (off, n *Term) {
		t := kt.field(extF)
		return mkField(v, offF, t.field(offF)), mkField(v, lenF, t.field(lenF))
	}
	bound := func(v *Term) {
		o, n := ext(v)
		st.facts.assume(tLe(tZero, o))
		st.facts.assume(tLt(o, lim))
		st.facts.assume(tLe(tZero, n))
		st.facts.assume(tLt(n, mkInt(1<<32)))
	}
	for _, col := range sh.cols {
		m := nc.n
		switch {
		case col.Name == sh.child && nc.leaf, sh.leafOnly[col.Name] && !nc.leaf:
			m = 0
		case col.Name == sh.child:
			m++
		}
		var ps []*Term
		for i := 0; i < m; i++ {
			x := mkNamed(fmt.Sprintf("%s[%d]", col.Name, i), col.Typ.Elem)
			switch {
			case col.Name == sh.keyCol:
				bound(mkField(x, extF, kt.field(extF)))
				if nc.fixed && nc.w > 0 {
					v := e.newSlice(st, "value", byteT, seqVar(fmt.Sprintf("value%d", i), mkInt(nc.w-1)))
					var fs []*Term
					for _, fl := range kt.Fields {
						if fl.Name == valF {
							fs = append(fs, v)
						} else {
							fs = append(fs, mkField(x, fl.Name, fl.Typ))
						}
					}
					x = mkAgg(kt, fs)
				} else if nc.fixed {
					st.facts.assume(tEq(lenOf(mkField(x, valF, kt.field(valF))), tAddK(width, -1)))
				}
			case isMemPtr(col.Typ.Elem):
				bound(x)
			default:
				st.facts.assume(tLe(tZero, x))
				st.facts.assume(tLt(x, lim))
			}
			cols[col.Name] = append(cols[col.Name], x)
			ps = append(ps, mkApp("unit", nil, x))
		}
		st.mem[fieldAddr(recv, k.t, col.Name)] = e.newSlice(st, col.Name, col.Typ.Elem, mkApp("cat", nil, ps...))
	}
	n := 0
	outs := e.Run(w, []*Term{recv}, nil, st)
	for _, o := range outs {
		if o.panic || !o.st.facts.implied(tEq(o.res[1], tNil)) {
			continue
		}
		n++
		s := e.sliceSeq(o.st, o.res[0], byteT)
		readNode(c, ts, sh, rd, nc, label, s, o.st.facts, width, cols, func(v *Term) (off, n, val *Term) {
			off, n = ext(mkField(v, extF, kt.field(extF)))
			return off, n, e.sliceSeq(o.st, mkField(v, valF, kt.field(valF)), byteT)
		}, ext)
	}
	c.Problems(e, w.Name)
	c.Obl("node", label+": encoding", n > 0, w.Pos, "no successful encoding was found")
}

func readNode(c *Ctx, ts *TSProg, sh *treeShape, rd *Func, nc nodeCase, label string, s *Term, lits *Facts, width *Term, cols map[string][]*Term, key func(*Term) (off, n, val *Term), ext func(*Term) (off, n *Term)) {
	page := mkNamed("page", tsNumT)
	treeR, dataR := mkNamed("arg:tree", tsFuncT), mkNamed("arg:data", tsFuncT)
	cl := c.tsClient(ts)
	cl.Unroll, cl.Follow = 16, true
	inner := cl.Call
	bad := func(pos, msg string) { c.Obl("node", label, false, pos, msg) }
	type asked struct{ a, b, s *Term }
	data := map[*Term]asked{} // contents of the data file handed out
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Name != "dynamic" || cc.Callee != treeR && cc.Callee != dataR || len(cc.Args) != 1 {
			return inner(e, st, cc)
		}
		arr := unbox(cc.Args[0])
		m, ok := constI(st.facts.norm(lenOf(e.tsItems(st, arr))))
		if !ok {
			bad(cc.Pos, "the number of ranges asked for is not that of the keys")
			return nil, false
		}
		var ps []*Term
		for i := int64(0); i < m; i++ {
			a, b, ok := e.tsRange(st, arr, i)
			if !ok {
				return nil, false
			}
			var x *Term
			if cc.Callee == treeR {
				n := tAddK(tSub(b, a), 1)
				if m != 1 || !st.facts.implied(tEq(a, page)) {
					bad(cc.Pos, fmt.Sprintf("the page read begins at %v instead of the pointer's offset", a))
				}
				if !st.facts.implied(tLe(seqLen(s), n)) {
					bad(cc.Pos, "less than a page is read for a node")
				}
				x = e.seqCat(st.facts, append(append([]*Term{}, seqPieces(s)...), seqVar("page:rest", tSub(n, seqLen(s))))...)
			} else {
				x = seqVar(fmt.Sprintf("data:%v:%v", a, b), tAddK(tSub(b, a), 1))
				data[x] = asked{a, b, x}
			}
			o := e.tsObject(st, map[string]*Term{"data": e.newSlice(st, "resolved", byteT, x), "totalLength": mkSym("total", tsNumT)})
			ps = append(ps, mkApp("unit", nil, o))
		}
		return one(st, e.tsArray(st, mkApp("cat", nil, ps...))), true
	}
	e := newEngine(ts.GoProg, cl)
	st := newState()
	for _, q := range lits.lits {
		st.facts.assume(q)
	}
	// a node fits its page
	st.facts.assume(tLe(seqLen(s), mkInt(4096)))
	st.facts.assume(tLe(mkInt(4096), page))
	st.facts.assume(tLe(page, mkInt(1<<48)))
	args := symArgs(rd)
	fns, ints := []*Term{treeR, dataR}, []*Term{mkInt(ts.enums["FileFormat"]["CSV"]), mkInt(ts.enums["FieldType"]["String"]), width}
	for i, p := range rd.ParamT {
		switch {
		case p == tsFuncT && len(fns) > 0:
			args[i], fns = fns[0], fns[1:]
		case p == tsNumT && len(ints) > 0:
			args[i], ints = ints[0], ints[1:]
		case p == tsObjP:
			args[i] = e.tsObject(st, map[string]*Term{"offset": page, "length": mkSym("length", tsNumT)})
		}
	}
	if len(fns)+len(ints) > 0 {
		c.Missing("node", "the parameters of "+rd.Name)
		return
	}
	good := 0
	for _, o := range e.Run(rd, args, nil, st) {
		fa := o.st.facts
		if o.panic {
			if !fa.satisfiable() {
				continue
			}
			bad(o.pos, "the client refuses a node that Go wrote")
			continue
		}
		r := unbox(o.res[0])
		node := unbox(e.tsGet(o.st, r, "node", tsObjP))
		if node.op != TObj {
			if !fa.satisfiable() {
				continue
			}
			bad(o.pos, "the client does not return the node read")
			continue
		}
		good++
		items := func(name string) (*Term, int64) {
			it := e.tsItems(o.st, unbox(e.tsGet(o.st, node, name, tsArrP)))
			m, ok := constI(fa.norm(lenOf(it)))
			if !ok {
				m = -1
			}
			return it, m
		}
		at := func(it *Term, i int) *Term {
			b, off, _ := sliceParts(it)
			return unbox(e.selectElem(o.st, b, tAddK(off, int64(i)), tsAnyT))
		}
		same := func(what string, got, want *Term) {
			c.Obl("node", label+": "+what, got == want || fa.implied(tEq(got, want)), rd.Pos, fmt.Sprintf("the %s is read as %v instead of %v", what, got, want))
		}
		ptr := func(what string, p, off, n *Term) {
			if p.op == TNil {
				bad(rd.Pos, "the "+what+" is missing")
				return
			}
			same("offset of a "+what, e.tsGet(o.st, p, "offset", tsNumT), off)
			same("length of a "+what, e.tsGet(o.st, p, "length", tsNumT), n)
		}
		var leafCol string
		for l := range sh.leafOnly {
			leafCol = l
		}
		for _, x := range []struct{ ts, col string }{{"keys", sh.keyCol}, {"leafPointers", leafCol}, {"internalPointers", sh.child}} {
			it, m := items(x.ts)
			want := cols[x.col]
			if m != int64(len(want)) {
				bad(rd.Pos, fmt.Sprintf("%d %s are read, %d were written", m, x.ts, len(want)))
				continue
			}
			c.Obl("node", label+": number of "+x.ts, true, rd.Pos, "")
			for i, v := range want {
				g := at(it, i)
				switch x.ts {
				case "keys":
					off, n, val := key(v)
					ptr("key", unbox(e.tsGet(o.st, g, "dataPointer", tsObjP)), off, n)
					got := e.sliceSeq(o.st, unbox(e.tsGet(o.st, g, "value", tsBytesT)), byteT)
					if nc.fixed {
						c.Obl("node", label+": value of a key", seqSame(fa, got, val), rd.Pos, "a stored key is not read as it was written")
						continue
					}
					okv := false
					for d0, d := range data {
						if seqSame(fa, got, d0) {
							okv = okv || fa.implied(tEq(d.a, off)) && fa.implied(tEq(d.b, tAddK(tAdd(off, n), -1)))
						}
					}
					c.Obl("node", label+": value of a key", okv, rd.Pos, "a key by reference is not what the data file holds at the key's place")
				case "leafPointers":
					off, n := ext(v)
					ptr("leaf pointer", g, off, n)
				default:
					same("child pointer", g, v)
				}
			}
		}
		// the questions asked of a node
		ask := func(name string, args []*Term, judge func(q Outcome) bool) {
			f := ts.fn("BPTreeNode." + name)
			if f == nil {
				c.Missing("node", "BPTreeNode."+name)
				return
			}
			c.Fn(f)
			for _, q := range e.Run(f, append([]*Term{node}, args...), nil, o.st.clone()) {
				ok := !q.panic && judge(q)
				if !ok && !q.st.facts.satisfiable() {
					continue
				}
				c.Obl("node", label+": "+name, ok, f.Pos, name+"() does not answer for the node written")
			}
		}
		ask("leaf", nil, func(q Outcome) bool {
			return q.res[0] == mkBool(nc.leaf) || nc.leaf && q.st.facts.implied(q.res[0]) || !nc.leaf && q.st.facts.refuted(q.res[0])
		})
		ptrs := cols[sh.child]
		if nc.leaf {
			ptrs = cols[leafCol]
		}
		ask("numPointers", nil, func(q Outcome) bool { return q.st.facts.implied(tEq(q.res[0], mkInt(int64(len(ptrs))))) })
		for i, v := range ptrs {
			ask("pointer", []*Term{mkInt(int64(i))}, func(q Outcome) bool {
				p := unbox(q.res[0])
				if p.op == TNil {
					return false
				}
				off, n := v, (*Term)(nil)
				if nc.leaf {
					off, n = ext(v)
				}
				return q.st.facts.implied(tEq(e.tsGet(q.st, p, "offset", tsNumT), off)) && (n == nil || q.st.facts.implied(tEq(e.tsGet(q.st, p, "length", tsNumT), n)))
			})
		}
		// every node of a tree is read with the parameters of the tree
		same("width the node goes on with", e.tsGet(o.st, node, "pageFieldWidth", tsNumT), width)
	}
	if good == 0 {
		bad(rd.Pos, "the client never returns a node")
	}
	c.Problems(e, rd.Name)
}
