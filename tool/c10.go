package main

// C10: the client orders, searches and walks a B+ tree as Go laid it out.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C10",
		Title: "the client searches and walks a tree in key order",
		Rules: "(order) keys compare by their bytes first, as unsigned numbers, a prefix before what it is a prefix of, then by offset, then by length: decided for bytes that are equal, a prefix, or first differ at any position, times every sign of offset and length, both for compareBytes and for a search among one key. (search) a search of a sorted list of any length returns the position of the first key not smaller than the target, and whether it is the target: by a loop invariant, with the comparison by contract. (walk) on a tree of legal shape whose nodes have any number of entries, with the search by contract: an iterator first goes down from the root for its own key, into the child at the searched position, or the one after it if the key was found there; next then stops at the position found in the leaf, or at the entry after the leaf if it lies behind it, prev at the entry before it; every further step goes to the neighbouring entry, whichever level that takes, and is refused exactly when there is none; getKey and getPointer return key and pointer of the entry. For every tree of depth one to three and every history of two steps (depth four, and three steps, in the thorough tier). (child) every node read is the root or a child at an index the node has, from the page it points at, with the parameters of the tree. (find) find returns key and pointer of the entry next stops at, and zero values for none. (ends) first and last return the outermost keys.",
		Trust: []string{"TypeScript parser and type checker", "stored nodes are sorted and of legal shape (C12)", "nodes are decoded by C11"},
		Run:   runC10,
	})
}

func runC10(c *Ctx) {
	ts := c.TS()
	t := &tsTree{c: c, ts: ts}
	t.orderRule()
	t.searchRule()
	t.walkRules()
	c.Min("order", 10)
	c.Min("search", 2)
}

type tsTree struct {
	c  *Ctx
	ts *TSProg
}

// ---- order ---------------------------------------------------------------

type byteCase struct {
	name string
	sign int
	diff bool
}

var byteCases = []byteCase{{"equal bytes", 0, false}, {"a prefix", -1, false}, {"a longer one", 1, false}, {"a smaller byte", -1, true}, {"a larger byte", 1, true}}

// bytesOf gives the two byte strings of a case; the hook tells what a
// comparison of two bytes means for the place of the first difference.
func (t *tsTree) byteStrings(e *Engine, st *State, k byteCase) (a, b *Term, hook func(*State)) {
	la, lb := mkNamed("a:len", tsNumT), mkNamed("b:len", tsNumT)
	st.facts.assume(tLe(tZero, la))
	st.facts.assume(tLe(tZero, lb))
	if !k.diff {
		switch k.sign {
		case 0:
			st.facts.assume(tEq(la, lb))
		case -1:
			st.facts.assume(tLt(la, lb))
		case 1:
			st.facts.assume(tLt(lb, la))
		}
		common := seqVar("common", mkNamed("common:len", tsNumT))
		st.facts.assume(tLe(la, seqLen(common)))
		st.facts.assume(tLe(lb, seqLen(common)))
		a = e.newSlice(st, "a", byteT, mkApp("cat", nil, mkApp("span", nil, common, tZero, la)))
		b = e.newSlice(st, "b", byteT, mkApp("cat", nil, mkApp("span", nil, common, tZero, lb)))
		return a, b, func(*State) {}
	}
	p := mkNamed("place", tsNumT)
	A, B := seqVar("A", la), seqVar("B", lb)
	st.facts.assume(tLe(tZero, p))
	st.facts.assume(tLt(p, la))
	st.facts.assume(tLt(p, lb))
	st.facts.assume(tLt(p, e.minmax(st, "min", la, lb, tsNumT)))
	va, vb := mkApp("elem", byteT, A, p), mkApp("elem", byteT, B, p)
	rel := func(f *Facts, x, y *Term) {
		if k.sign < 0 {
			f.assume(tLt(x, y))
		} else {
			f.assume(tLt(y, x))
		}
	}
	rel(st.facts, va, vb)
	hook = func(st *State) {
		at := map[*Term]int{}
		for _, l := range st.facts.lits {
			subterms(l, map[*Term]bool{}, func(x *Term) {
				if x.op == TApp && x.s == "elem" && (x.args[0] == A || x.args[0] == B) {
					if x.args[0] == A {
						at[x.args[1]] |= 1
					} else {
						at[x.args[1]] |= 2
					}
				}
			})
		}
		for i, m := range at {
			f := st.facts
			if m != 3 || i == p || !f.implied(tLe(i, p)) {
				continue
			}
			x, y := mkApp("elem", byteT, A, i), mkApp("elem", byteT, B, i)
			switch {
			case f.implied(tEq(x, y)):
				f.assume(tLt(i, p))
			case f.refuted(tEq(x, y)):
				f.assume(tEq(i, p))
				rel(f, x, y)
				st.dead = !f.satisfiable()
			}
		}
	}
	return e.newSlice(st, "a", byteT, A), e.newSlice(st, "b", byteT, B), hook
}

// placeCands: counters against the places that matter.
func placeCands(places ...*Term) func(e *Engine, st *State, fn *Func, h int) []*Term {
	return func(e *Engine, st *State, fn *Func, h int) []*Term {
		var out []*Term
		for _, v := range st.env {
			if v.op != TSym || !isIntTerm(v) {
				continue
			}
			for _, p := range places {
				out = append(out, tLe(v, p), tLe(v, tAddK(p, 1)), tLe(p, v), tLe(p, tAddK(v, 1)), tLt(p, v), tLt(v, p))
			}
			out = append(out, tLe(tZero, v))
		}
		return out
	}
}

func signOK(f *Facts, r *Term, sign int) bool {
	switch {
	case sign < 0:
		return f.implied(tLt(r, tZero))
	case sign > 0:
		return f.implied(tLt(tZero, r))
	}
	return f.implied(tEq(r, tZero))
}

func (t *tsTree) orderRule() {
	c := t.c
	cmp := t.ts.fn("ReferencedValue.compareBytes")
	find := t.ts.fn("binarySearchReferencedValues")
	if cmp == nil || find == nil {
		c.Missing("order", "ReferencedValue.compareBytes and binarySearchReferencedValues")
		return
	}
	c.Fn(cmp)
	c.Fn(find)
	setup := func(k byteCase) (e *Engine, st *State, a, b *Term) {
		cl := c.tsClient(t.ts)
		cl.Unroll, cl.Follow = 4, true
		cl.ExtraCands = placeCands(mkNamed("place", tsNumT))
		e = newEngine(t.ts.GoProg, cl)
		st = newState()
		a, b, hook := t.byteStrings(e, st, k)
		cl.OnBranch = func(e *Engine, st *State, cnd *Term, taken bool, in *Instr) { hook(st) }
		return
	}
	for _, k := range byteCases {
		e, st, a, b := setup(k)
		n := 0
		for _, o := range e.Run(cmp, []*Term{a, b}, nil, st) {
			if !o.st.facts.satisfiable() {
				continue
			}
			n++
			c.Obl("order", cmp.Short+": "+k.name, !o.panic && signOK(o.st.facts, o.res[0], k.sign), o.pos, "the comparison of two byte strings has the wrong sign")
		}
		c.Obl("order", cmp.Short+": "+k.name, n > 0, cmp.Pos, "the comparison never ends")
		c.Problems(e, cmp.Name)
		for combo := 0; combo < 9; combo++ {
			so, sl := combo%3-1, combo/3-1
			want := k.sign
			if want == 0 {
				want = so
			}
			if want == 0 {
				want = sl
			}
			e, st, a, b := setup(k)
			rv := func(name string, v *Term) *Term {
				d := e.tsObject(st, map[string]*Term{"offset": mkNamed(name+":offset", tsNumT), "length": mkNamed(name+":length", tsNumT)})
				return e.tsObject(st, map[string]*Term{"dataPointer": d, "value": v})
			}
			rel := func(x, y *Term, s int) {
				switch {
				case s < 0:
					st.facts.assume(tLt(x, y))
				case s > 0:
					st.facts.assume(tLt(y, x))
				default:
					st.facts.assume(tEq(x, y))
				}
			}
			rel(mkNamed("a:offset", tsNumT), mkNamed("b:offset", tsNumT), so)
			rel(mkNamed("a:length", tsNumT), mkNamed("b:length", tsNumT), sl)
			x, y := rv("a", a), rv("b", b)
			arr := e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, x)))
			con := fmt.Sprintf("a key with %s, offset %s and length %s", k.name, signName(so), signName(sl))
			n := 0
			for _, o := range e.Run(find, []*Term{arr, y}, nil, st) {
				f := o.st.facts
				if !f.satisfiable() {
					continue
				}
				n++
				ok := !o.panic
				if ok {
					i, found := t.searchResult(e, o)
					pos := tZero
					if want < 0 {
						pos = tOne
					}
					ok = i != nil && f.implied(tEq(i, pos)) && boolIs(f, found, want == 0)
				}
				c.Obl("order", con, ok, o.pos, "the key is not put on the right side of the target")
			}
			c.Obl("order", con, n > 0, find.Pos, "the search never ends")
			c.Problems(e, find.Name)
		}
	}
}

func signName(s int) string { return [3]string{"smaller", "the same", "larger"}[s+1] }

func boolIs(f *Facts, b *Term, want bool) bool {
	if b == nil {
		return false
	}
	if want {
		return b == tTrue || f.implied(b)
	}
	return b == tFalse || f.refuted(b)
}

// searchResult takes a pair apart.
func (t *tsTree) searchResult(e *Engine, o Outcome) (i, found *Term) {
	r := unbox(o.res[0])
	b, off, n := sliceParts(e.tsItems(o.st, r))
	if k, ok := constI(o.st.facts.norm(n)); !ok || k != 2 {
		return nil, nil
	}
	return unbox(e.selectElem(o.st, b, off, tsNumT)), unbox(e.selectElem(o.st, b, tAddK(off, 1), tBoolT))
}

// ---- search --------------------------------------------------------------

// compares: a comparison of two keys.
func (t *tsTree) compares(f *Func) bool {
	if f == nil || len(f.Results) != 1 || f.Results[0] != tsNumT {
		return false
	}
	n := 0
	for _, p := range f.ParamT {
		if p == tsObjP {
			n++
		}
	}
	return n == 2 && len(f.ParamT) == 2
}

func (t *tsTree) searchRule() {
	c := t.c
	f := t.ts.fn("binarySearchReferencedValues")
	if f == nil {
		return
	}
	for _, found := range []bool{true, false} {
		cl := c.tsClient(t.ts)
		inner := cl.Call
		p := mkNamed("place", tsNumT)
		args := symArgs(f)
		e := newEngine(t.ts.GoProg, cl)
		st := newState()
		items := e.tsItems(st, args[0])
		n := lenOf(items)
		st.facts.assume(tLe(tZero, p))
		if found {
			st.facts.assume(tLt(p, n))
		} else {
			st.facts.assume(tLe(p, n))
		}
		S := e.sliceSeq(st, items, tsAnyT)
		cl.ExtraCands = placeCands(p)
		cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
			if !t.compares(cc.Fn) {
				return inner(e, st, cc)
			}
			x, y := unbox(cc.Args[0]), unbox(cc.Args[1])
			flip := int64(1)
			if x == args[1] {
				x, y, flip = y, x, -1
			}
			if y != args[1] {
				return inner(e, st, cc)
			}
			h := indexIn(S, x)
			if h == nil {
				return inner(e, st, cc)
			}
			if !st.facts.implied(tLe(tZero, h)) || !st.facts.implied(tLt(h, n)) {
				c.Obl("search", f.Name, e.dry > 0, cc.Pos, "a key outside the list is compared")
			}
			var out []Outcome
			for s := int64(-1); s <= 1; s++ {
				s2 := st.clone()
				r := mkSym("sign", tsNumT)
				v := tMul(mkInt(flip), r)
				switch {
				case s < 0:
					s2.facts.assume(tLt(h, p))
					s2.facts.assume(tLt(v, tZero))
				case s > 0:
					s2.facts.assume(tLt(p, h))
					s2.facts.assume(tLt(tZero, v))
				case found:
					s2.facts.assume(tEq(h, p))
					r = tZero
				default:
					s2.facts.assume(tEq(h, p))
					s2.facts.assume(tLt(tZero, v))
				}
				if !s2.facts.satisfiable() {
					continue
				}
				out = append(out, Outcome{st: s2, res: []*Term{r}})
			}
			return out, true
		}
		con := fmt.Sprintf("%s: the key is there: %v", f.Short, found)
		k := 0
		for _, o := range e.Run(f, args, nil, st) {
			if !o.st.facts.satisfiable() {
				continue
			}
			k++
			ok := !o.panic
			if ok {
				i, b := t.searchResult(e, o)
				ok = i != nil && o.st.facts.implied(tEq(i, p)) && boolIs(o.st.facts, b, found)
			}
			c.Obl("search", con, ok, o.pos, "the search does not return the position of the first key not smaller than the target, or whether it is there")
		}
		c.Obl("search", con, k > 0, f.Pos, "the search never ends")
		c.Problems(e, f.Name)
	}
}

// ---- walks ---------------------------------------------------------------

// tsNode is a node of the tree, named by the way to it from the root.
type tsNode struct {
	off    *Term // where it is stored
	level  int
	up     *tsNode
	at     *Term // index in the node above
	n      *Term // number of pointers
	keys   *Term
	ptrs   *Term
	s, hit *Term // the searched position, and whether the key is there
}

type tsWalk struct {
	t      *tsTree
	depth  int
	key    *Term
	nodes  map[*Term]*tsNode // by offset
	bySeq  map[*Term]*tsNode // by keys or pointers
	pages  map[*Term]*tsNode // by content
	params map[string]*Term
	label  string
}

func (w *tsWalk) node(st *State, off *Term) *tsNode {
	off = unbox(off)
	if x := w.nodes[off]; x != nil {
		return x
	}
	x := &tsNode{off: off}
	switch {
	case off == mkNamed("root:offset", tsNumT):
		x.level = w.depth - 1
	case off.op == TApp && off.s == "elem" && w.bySeq[off.args[0]] != nil && w.bySeq[off.args[0]].ptrs == off.args[0] && w.bySeq[off.args[0]].level > 0:
		x.up, x.at = w.bySeq[off.args[0]], off.args[1]
		x.level = x.up.level - 1
	default:
		return nil
	}
	id := fmt.Sprint(off.id)
	x.n = rng(mkNamed("n:"+id, tsNumT), 1, 1<<30)
	nk := x.n
	if x.level > 0 {
		nk = tAddK(x.n, -1)
	}
	x.keys, x.ptrs = seqVar("keys:"+id, nk), seqVar("ptrs:"+id, x.n)
	x.s, x.hit = mkNamed("searched:"+id, tsNumT), mkNamed("hit:"+id, tBoolT)
	w.nodes[off] = x
	w.bySeq[x.keys], w.bySeq[x.ptrs] = x, x
	return x
}

// shape states what a node of legal shape has.
func (w *tsWalk) shape(st *State, x *tsNode) {
	lo := int64(1)
	if x.level > 0 {
		lo = 2
	}
	st.facts.assume(tLe(mkInt(lo), x.n))
	st.facts.assume(tLe(tZero, x.s))
	st.facts.assume(tLe(x.s, seqLen(x.keys)))
}

func (w *tsWalk) client() *Client {
	c, ts := w.t.c, w.t.ts
	cl := c.tsClient(ts)
	cl.Recurse, cl.Paths = w.depth+2, w.depth+2
	cl.MaxDepth = 30
	inner := cl.Call
	decode := ts.fn("BPTreeNode.unmarshalBinary")
	find := ts.fn("binarySearchReferencedValues")
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		switch {
		case cc.Fn == nil && cc.Short == "root":
			return one(st, e.tsObject(st, map[string]*Term{"offset": mkNamed("root:offset", tsNumT), "length": tZero})), true
		case cc.Name == "dynamic" && len(cc.Args) == 1 && cc.Callee != nil && strings.HasPrefix(cc.Callee.s, "tree:"):
			lo, hi, ok := e.tsRange(st, cc.Args[0], 0)
			if !ok || unbox(cc.Callee) != unbox(w.params["tree"]) {
				c.Obl("child", "a node read", e.dry > 0, cc.Pos, "a page is not read through the resolver of the tree")
				return nil, true
			}
			off := tsNumOf(lo)
			x := w.node(st, off)
			if x == nil {
				c.Obl("child", "a node read", e.dry > 0, cc.Pos, "a page is read that no node of the tree points at")
				return nil, true
			}
			if x.up != nil {
				ok := st.facts.implied(tLe(tZero, x.at)) && st.facts.implied(tLt(x.at, x.up.n))
				c.Obl("child", "a node read", ok || e.dry > 0, cc.Pos, "the index of the child lies outside the node's pointers")
			}
			n := tAddK(tSub(hi, lo), 1)
			c.Obl("child", "a node read", st.facts.implied(tEq(n, mkInt(4096))) || e.dry > 0, cc.Pos, "not the whole page is read")
			if y := w.at(st, w.way(x), x.level); y != nil {
				x = y // the same page, by another name
			}
			page := seqVar("page:"+fmt.Sprint(x.off.id), mkInt(4096))
			w.pages[page] = x
			st.emit(&Event{Kind: "readnode", A: []*Term{x.off}, Pos: cc.Pos})
			return one(st, e.tsResolved(st, page)), true
		case cc.Fn != nil && cc.Fn == decode:
			o := unbox(cc.Args[0])
			x := w.pages[e.wholeSeq(st, unbox(cc.Args[1]))]
			if x == nil {
				c.Obl("child", "a node read", e.dry > 0, cc.Pos, "a node is decoded from something else than a page read")
				return nil, true
			}
			have := map[*Term]bool{}
			for a, v := range st.mem {
				if a.op == TFld && a.args[0] == o {
					have[unbox(v)] = true
					if v.op == TObj && v != o && a.s != "keys" && a.s != "leafPointers" && a.s != "internalPointers" && lenOf(e.tsItems(st, v)) == tZero && st.mem[fieldAddr(v, tsArrT, "$items")] != nil {
						// an array has undefined elements beyond its end
						st.mem[fieldAddr(v, tsArrT, "$items")] = e.newSlice(st, "cache", tsAnyT, mkApp("cat", nil, mkApp("span", nil, repSeq(tNil, x.n), tZero, x.n)))
					}
				}
			}
			for _, a := range cc.Args[2:] {
				have[unbox(a)] = true
			}
			for _, nm := range []string{"dataFileResolver", "fileFormat", "pageFieldType", "pageFieldWidth"} {
				if v := w.params[nm]; v != nil {
					c.Obl("child", "the "+nm+" of a node", have[unbox(v)] || e.dry > 0, cc.Pos, "a node is decoded without the "+nm+" of the tree")
				}
			}
			w.shape(st, x)
			none := e.tsArray(st, mkApp("cat", nil))
			full := e.tsArray(st, mkApp("cat", nil, mkApp("span", nil, x.ptrs, tZero, x.n)))
			st.mem[tsFld(o, "keys")] = e.tsArray(st, mkApp("cat", nil, mkApp("span", nil, x.keys, tZero, seqLen(x.keys))))
			st.mem[tsFld(o, "leafPointers")], st.mem[tsFld(o, "internalPointers")] = full, none
			if x.level > 0 {
				st.mem[tsFld(o, "leafPointers")], st.mem[tsFld(o, "internalPointers")] = none, full
			}
			return one(st, tNil), true
		case cc.Fn != nil && cc.Fn == find:
			x := w.bySeq[e.wholeSeq(st, e.tsItems(st, unbox(cc.Args[0])))]
			ok := x != nil && x.keys == e.wholeSeq(st, e.tsItems(st, unbox(cc.Args[0]))) && unbox(cc.Args[1]) == unbox(w.key)
			c.Obl("walk", "a search in a node", ok || e.dry > 0, cc.Pos, "the search is not one of a node's keys for the key of the walk")
			if !ok {
				return nil, true
			}
			var out []Outcome
			for _, hit := range []bool{true, false} {
				s2 := st.clone()
				if hit {
					s2.facts.assume(x.hit)
					s2.facts.assume(tLt(x.s, seqLen(x.keys)))
				} else {
					s2.facts.assume(tNot(x.hit))
				}
				if !s2.facts.satisfiable() {
					continue
				}
				r := e.tsArray(s2, mkApp("cat", nil, mkApp("unit", nil, x.s), mkApp("unit", nil, mkBool(hit))))
				out = append(out, Outcome{st: s2, res: []*Term{r}})
			}
			return out, true
		}
		return inner(e, st, cc)
	}
	return cl
}

// wholeSeq is the sequence a list is the whole of.
func (e *Engine) wholeSeq(st *State, list *Term) *Term {
	ps := seqPieces(e.sliceSeq(st, list, tsAnyT))
	if len(ps) != 1 {
		return nil
	}
	p := ps[0]
	if p.op == TApp && p.s == "span" && p.args[1] == tZero && p.args[2] == seqLen(p.args[0]) {
		p = p.args[0]
	}
	return p
}

// place is a position in the tree: an index at every level, the leaf's first.
type place []*Term

func (w *tsWalk) at(st *State, p place, level int) *tsNode {
	for _, ev := range evsOf(st, "readnode") {
		x := w.nodes[ev.A[0]]
		if x.level == level && w.same(st.facts, x, p) {
			return x
		}
	}
	return nil
}

// way is the place of a node: the indices of the levels above it.
func (w *tsWalk) way(x *tsNode) place {
	p := make(place, w.depth)
	for ; x.up != nil; x = x.up {
		p[x.level+1] = x.at
	}
	return p
}

func (w *tsWalk) same(f *Facts, x *tsNode, p place) bool {
	for ; x.up != nil; x = x.up {
		if x.at != p[x.level+1] && !f.implied(tEq(x.at, p[x.level+1])) {
			return false
		}
	}
	return true
}

// begin is where the descent ends.
func (w *tsWalk) begin(st *State) (place, string) {
	p := make(place, w.depth)
	for l := w.depth - 1; l >= 0; l-- {
		x := w.at(st, p, l)
		if x == nil {
			return nil, fmt.Sprintf("no node is read at level %d where the key belongs", l)
		}
		p[l] = x.s
		if l > 0 {
			switch {
			case st.facts.implied(x.hit):
				p[l] = tAddK(x.s, 1)
			case !st.facts.refuted(x.hit):
				return nil, "a level is not searched"
			}
		}
	}
	return p, ""
}

// step is the neighbouring entry; nil if there is none.
func (w *tsWalk) step(st *State, p place, d int64) (place, string) {
	f := st.facts
	for l := 0; l < w.depth; l++ {
		x := w.at(st, p, l)
		if x == nil {
			return nil, fmt.Sprintf("no node is read at level %d of the way", l)
		}
		q := tAddK(p[l], d)
		in := tLt(q, x.n)
		if d < 0 {
			in = tLe(tZero, q)
		}
		if f.refuted(in) {
			continue
		}
		if !f.implied(in) {
			return nil, fmt.Sprintf("whether level %d has a neighbour is not looked at", l)
		}
		r := append(place{}, p...)
		r[l] = q
		for k := l - 1; k >= 0; k-- {
			r[k] = nil
		}
		for k := l - 1; k >= 0; k-- {
			r[k] = tZero
			if d < 0 {
				y := w.at(st, r, k)
				if y == nil {
					return nil, fmt.Sprintf("the child at level %d is not read", k)
				}
				r[k] = tAddK(y.n, -1)
			}
		}
		return r, ""
	}
	return nil, ""
}

// entry tells whether v is entry p of the leaf, from its keys or its pointers.
func (w *tsWalk) entry(f *Facts, v *Term, p place, keys bool) bool {
	v = unbox(v)
	if v == nil || v.op != TApp || v.s != "elem" {
		return false
	}
	x := w.bySeq[v.args[0]]
	if x == nil || x.level != 0 || (x.keys == v.args[0]) != keys {
		return false
	}
	return w.same(f, x, p) && f.implied(tEq(v.args[1], p[0]))
}

// tsNumOf undoes a conversion between the kinds of numbers.
func tsNumOf(v *Term) *Term {
	v = unbox(v)
	for v.op == TApp && len(v.args) == 1 && (v.s == "number" || v.s == "bigint") {
		v = unbox(v.args[0])
	}
	return v
}

func paramName(f *Func, i int) string {
	if i < len(f.ParamN) {
		return f.ParamN[i]
	}
	return ""
}

// newWalk makes a tree of the given depth and the state in which it is new.
func (t *tsTree) newWalk(depth int, label string) (*tsWalk, *Engine, *State, *Term) {
	w := &tsWalk{t: t, depth: depth, nodes: map[*Term]*tsNode{}, bySeq: map[*Term]*tsNode{}, pages: map[*Term]*tsNode{}, params: map[string]*Term{}, label: label}
	w.key = mkNamed("key", tsObjP)
	e := newEngine(t.ts.GoProg, w.client())
	st := newState()
	ctor := t.ts.fn("BPTree.constructor")
	tree := mkObj("tree", tsObjP)
	args := []*Term{tree}
	for i := 1; i < len(ctor.ParamT); i++ {
		a := mkNamed("tree:"+paramName(ctor, i), ctor.ParamT[i])
		w.params[paramName(ctor, i)] = a
		args = append(args, a)
	}
	for _, o := range e.Run(ctor, args, nil, st) {
		if !o.panic {
			return w, e, o.st, tree
		}
	}
	return w, e, nil, nil
}

func (t *tsTree) walkRules() {
	c := t.c
	for _, n := range []string{"BPTree.constructor", "BPTree.iter", "BPTree.find", "BPTree.first", "BPTree.last", "BPTreeNode.unmarshalBinary", "TraversalIterator.next", "TraversalIterator.prev", "TraversalIterator.getKey", "TraversalIterator.getPointer"} {
		f := t.ts.fn(n)
		if f == nil {
			c.Missing("walk", n)
			return
		}
		c.Fn(f)
	}
	depth, steps := 3, 2
	if c.thorough() {
		depth, steps = 4, 3
	}
	for d := 1; d <= depth; d++ {
		t.ends(d)
		t.findRule(d)
		for bits := 0; bits < 1<<uint(steps); bits++ {
			hist := make([]int64, steps)
			for i := range hist {
				hist[i] = 1 - 2*int64(bits>>uint(i)&1)
			}
			t.history(d, hist)
		}
	}
	c.Min("walk", 6)
	c.Min("ends", 2)
	c.Min("find", 1)
}

func histName(h []int64) string {
	s := ""
	for _, d := range h {
		if s != "" {
			s += ", "
		}
		s += map[int64]string{1: "next", -1: "prev"}[d]
	}
	return s
}

func (t *tsTree) history(depth int, hist []int64) {
	c := t.c
	con := fmt.Sprintf("depth %d: %s", depth, histName(hist))
	w, e, st, tree := t.newWalk(depth, con)
	if st == nil {
		c.Obl("walk", con, false, "", "no tree can be made")
		return
	}
	iter := t.ts.fn("BPTree.iter")
	n := 0
	for _, o := range e.Run(iter, []*Term{tree, w.key}, nil, st) {
		if o.panic || len(o.res) == 0 {
			continue
		}
		it := unbox(o.res[0])
		n += t.follow(w, e, o.st, it, nil, hist, con)
	}
	c.Obl("walk", con, n > 0, iter.Pos, "no step ever succeeds")
	c.Problems(e, con)
}

// follow takes the steps left; it returns how many ended on an entry.
func (t *tsTree) follow(w *tsWalk, e *Engine, st *State, it *Term, from place, hist []int64, con string) int {
	if len(hist) == 0 {
		return 1
	}
	c := t.c
	f := t.ts.fn("TraversalIterator.next")
	if hist[0] < 0 {
		f = t.ts.fn("TraversalIterator.prev")
	}
	cnt := 0
	for _, o := range e.Run(f, []*Term{it}, nil, st.clone()) {
		if !o.st.facts.satisfiable() {
			continue
		}
		bad := func(msg string) { c.Obl("walk", con, false, o.pos, msg) }
		if o.panic {
			bad("the step throws")
			continue
		}
		p, msg := from, ""
		stay := false
		if p == nil {
			p, msg = w.begin(o.st)
			if msg != "" {
				bad(msg)
				continue
			}
			if hist[0] > 0 {
				leaf := w.at(o.st, p, 0)
				in := tLt(p[0], leaf.n)
				switch {
				case o.st.facts.implied(in):
					stay = true
				case !o.st.facts.refuted(in):
					bad("whether the position lies in the leaf is not looked at")
					continue
				default:
					p = append(place{}, p...)
					p[0] = tAddK(leaf.n, -1)
				}
			}
		}
		q := p
		if !stay {
			q, msg = w.step(o.st, p, hist[0])
			if msg != "" {
				bad(msg)
				continue
			}
		}
		if q == nil {
			c.Obl("walk", con, boolIs(o.st.facts, o.res[0], false), o.pos, "the step succeeds though there is no entry left")
			continue
		}
		if !boolIs(o.st.facts, o.res[0], true) {
			bad("the step is refused though there is an entry left")
			continue
		}
		ok := true
		for i, g := range []string{"TraversalIterator.getKey", "TraversalIterator.getPointer"} {
			m := 0
			for _, r := range e.Run(t.ts.fn(g), []*Term{it}, nil, o.st.clone()) {
				if !r.st.facts.satisfiable() {
					continue
				}
				m++
				if r.panic || !w.entry(r.st.facts, r.res[0], q, i == 0) {
					bad(g + " does not return that of the entry the step leads to")
					ok = false
				}
			}
			ok = ok && m > 0
		}
		if !ok {
			continue
		}
		c.Obl("walk", con, true, o.pos, "")
		cnt += t.follow(w, e, o.st, it, q, hist[1:], con)
	}
	return cnt
}

func (t *tsTree) ends(depth int) {
	c := t.c
	for _, last := range []bool{false, true} {
		f := t.ts.fn("BPTree.first")
		if last {
			f = t.ts.fn("BPTree.last")
		}
		con := fmt.Sprintf("depth %d: %s", depth, f.Short)
		w, e, st, tree := t.newWalk(depth, con)
		if st == nil {
			continue
		}
		n := 0
		for _, o := range e.Run(f, []*Term{tree}, nil, st) {
			if !o.st.facts.satisfiable() {
				continue
			}
			if o.panic {
				c.Obl("ends", con, false, o.pos, "it throws")
				continue
			}
			n++
			p := make(place, depth)
			ok := true
			for l := depth - 1; l >= 0 && ok; l-- {
				x := w.at(o.st, p, l)
				if ok = x != nil; ok {
					p[l] = tZero
					if last {
						p[l] = tAddK(x.n, -1)
					}
				}
			}
			c.Obl("ends", con, ok && w.entry(o.st.facts, o.res[0], p, true), o.pos, "it does not return the outermost key")
		}
		c.Obl("ends", con, n > 0, f.Pos, "it never returns")
		c.Problems(e, con)
	}
}

func (t *tsTree) findRule(depth int) {
	c := t.c
	f := t.ts.fn("BPTree.find")
	con := fmt.Sprintf("depth %d: %s", depth, f.Short)
	w, e, st, tree := t.newWalk(depth, con)
	if st == nil {
		return
	}
	n := 0
	for _, o := range e.Run(f, []*Term{tree, w.key}, nil, st) {
		fa := o.st.facts
		if !fa.satisfiable() {
			continue
		}
		if o.panic {
			c.Obl("find", con, false, o.pos, "it throws")
			continue
		}
		n++
		p, msg := w.begin(o.st)
		if msg == "" && !fa.implied(tLt(p[0], w.at(o.st, p, 0).n)) {
			q := append(place{}, p...)
			q[0] = tAddK(w.at(o.st, p, 0).n, -1)
			if !fa.refuted(tLt(p[0], w.at(o.st, p, 0).n)) {
				msg = "whether the position lies in the leaf is not looked at"
			} else {
				p, msg = w.step(o.st, q, 1)
			}
		}
		if msg != "" {
			c.Obl("find", con, false, o.pos, msg)
			continue
		}
		k, v := t.searchResult(e, o)
		ok := k != nil
		if ok && p != nil {
			ok = w.entry(fa, k, p, true) && w.entry(fa, v, p, false)
		} else if ok {
			d := e.tsGet(o.st, k, "dataPointer", tsObjP)
			for _, m := range []*Term{unbox(d), v} {
				for _, nm := range []string{"offset", "length"} {
					ok = ok && fa.implied(tEq(e.tsGet(o.st, m, nm, tsNumT), tZero))
				}
			}
		}
		c.Obl("find", con, ok, o.pos, "it does not return the entry found, or zero values for none")
	}
	c.Obl("find", con, n > 0, f.Pos, "it never returns")
	c.Problems(e, con)
}
