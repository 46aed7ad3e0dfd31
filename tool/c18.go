package main

// C18: the distance heap.

import (
	"fmt"
	"strconv"
)

func init() {
	register(&Check{
		ID:    "C18",
		Title: "the distance heap keeps its entries, their places and their order",
		Rules: "Every heap with the entries' places recorded in its map and in min-max order (an entry on an even level is not farther than its children and grandchildren, one on an odd level not nearer), with arbitrary distances and up to 10 entries (16 thorough; 33 for inserting a new id and looking at the ends, 4 for cloning), is put through Insert, PopMinItem, PopMaxItem, PeekMinItem, PeekMaxItem, Len, IsEmpty and Clone, every path being followed. (keeps) afterwards places and order hold again and nothing panics; a new heap is empty. (result) PopMinItem and PopMaxItem remove exactly the entry they return and none is nearer (farther); PeekMinItem and PeekMaxItem return such an entry and remove nothing; on an empty heap all four fail. Insert adds exactly the entry or gives the entry of that id the new distance, all others being left as they are. Len and IsEmpty tell the number of entries. (clone) a clone has the same entries, and no operation on either changes the other.",
		Trust: []string{"Go type checker and go/ssa construction", "distances are comparable (not NaN)", "built-in maps, append and copy"},
		Run:   runC18,
	})
}

type heapT struct {
	c          *Ctx
	g          *GoProg
	T, item    *Type
	items, pos string // fields of the heap
	id, dist   string // fields of an entry
	listT      *Type
	mapT       *Type
	byPtr      bool
}

func runC18(c *Ctx) {
	h := &heapT{c: c, g: c.Prog("", "linux")}
	if !h.find() {
		c.Missing("keeps", "a DistHeap of entries of an id and a distance, and the map of their places")
		return
	}
	max := 10
	if c.thorough() {
		max = 16
	}
	h.fresh()
	for n := 0; n <= max; n++ {
		h.ops(n)
	}
	// deep enough for an entry to rise or sink twice
	for n := max + 1; n <= 33; n++ {
		h.peek(n)
		h.insert(n)
	}
	if max < 16 {
		h.pop(16)
		for i := 4; i < 16; i++ {
			h.change(16, i)
		}
	}
	c.Min("keeps", 10)
	c.Min("result", 10)
	c.Min("clone", 2)
}

func (h *heapT) find() bool {
	h.T = h.g.namedT("hnsw.DistHeap")
	if h.T == nil {
		return false
	}
	for _, f := range h.T.Fields {
		switch f.Typ.Kind {
		case "slice":
			h.items, h.listT, h.item = f.Name, f.Typ, f.Typ.Elem
			if h.item.Kind == "ptr" {
				h.item, h.byPtr = h.item.Elem, true
			}
		case "map":
			h.pos, h.mapT = f.Name, f.Typ
		}
	}
	if h.item == nil || h.mapT == nil || h.item.Kind != "struct" {
		return false
	}
	for _, f := range h.item.Fields {
		switch f.Typ.Kind {
		case "int":
			h.id = f.Name
		case "float":
			h.dist = f.Name
		}
	}
	return h.id != "" && h.dist != "" && h.byPtr
}

type heapEntry struct{ item, id, dist *Term }

// build is an arbitrary heap of n entries.
func (h *heapT) build(e *Engine, st *State, n int) (*Term, []heapEntry) {
	o := mkObj("heap", &Type{Kind: "ptr", Elem: h.T})
	var es []heapEntry
	var units []*Term
	m := mkObj("places", h.mapT)
	content := mkApp("emptymap", nil)
	for i := 0; i < n; i++ {
		x := heapEntry{mkObj("entry", h.listT.Elem), mkInt(int64(1000 + 17*i)), mkNamed(fmt.Sprintf("dist%d", i), h.item.field(h.dist))}
		st.mem[fieldAddr(x.item, h.item, h.id)] = x.id
		st.mem[fieldAddr(x.item, h.item, h.dist)] = x.dist
		es = append(es, x)
		units = append(units, mkApp("unit", nil, x.item))
		content = mkApp("mapupd", nil, content, x.id, mkInt(int64(i)))
	}
	st.mem[fieldAddr(o, h.T, h.items)] = e.newSlice(st, "entries", h.listT.Elem, mkApp("cat", nil, units...))
	st.mem[fieldAddr(o, h.T, h.pos)] = m
	st.mem[mapCell(m, h.mapT)] = content
	heapPairs(n, func(lo, hi int) { st.facts.assume(tLe(es[lo].dist, es[hi].dist)) })
	return o, es
}

// heapPairs are the places whose entries are in order.
func heapPairs(n int, f func(lo, hi int)) {
	for j := 1; j < n; j++ {
		for _, a := range []int{(j - 1) / 2, ((j-1)/2 - 1) / 2} {
			if a == (j-1)/2 || j > 2 {
				level := 0
				for k := a + 1; k > 1; k /= 2 {
					level++
				}
				if level%2 == 0 {
					f(a, j)
				} else {
					f(j, a)
				}
			}
		}
	}
}

// read is what the heap holds, or why it is not to be told.
func (h *heapT) read(e *Engine, st *State, o *Term) ([]heapEntry, *Term, string) {
	l := e.load(st, fieldAddr(o, h.T, h.items), h.listT)
	b, off, ln := sliceParts(l)
	n, ok := constI(st.facts.norm(ln))
	if !ok || n > 64 {
		return nil, nil, "the number of entries is not known"
	}
	var es []heapEntry
	for i := int64(0); i < n; i++ {
		x := e.selectElem(st, b, tAddK(off, i), h.listT.Elem)
		es = append(es, heapEntry{x, st.facts.norm(e.load(st, fieldAddr(x, h.item, h.id), h.item.field(h.id))), e.load(st, fieldAddr(x, h.item, h.dist), h.item.field(h.dist))})
	}
	return es, e.load(st, fieldAddr(o, h.T, h.pos), h.mapT), ""
}

// judge checks the invariants, and that the entries are those wanted: an id
// and a distance each.
func (h *heapT) judge(e *Engine, st *State, o *Term, con string, want map[*Term]*Term, pos string) {
	c := h.c
	es, m, why := h.read(e, st, o)
	if why != "" {
		c.Obl("keeps", con, false, pos, why)
		return
	}
	same := len(es) == len(want)
	seen := map[*Term]bool{}
	for _, x := range es {
		d := want[x.id]
		same = same && d != nil && !seen[x.id] && st.facts.implied(tEq(d, x.dist))
		seen[x.id] = true
	}
	c.Obl("result", con, same, pos, "the heap does not hold exactly the entries it should")
	content := e.load(st, mapCell(m, h.mapT), nil)
	places := true
	for i, x := range es {
		places = places && mapHas(st, content, x.id) == tTrue && st.facts.implied(tEq(mapGet(st, content, x.id, h.mapT.Elem), mkInt(int64(i))))
	}
	k := map[*Term]bool{}
	for y := content; y.op == TApp && (y.s == "mapupd" || y.s == "mapdel"); y = y.args[0] {
		k[y.args[1]] = true
	}
	for id := range k {
		places = places && (mapHas(st, content, id) == tTrue) == seen[id]
	}
	c.Obl("keeps", con+": places", places, pos, "the map does not tell where the entries are")
	order := true
	heapPairs(len(es), func(lo, hi int) { order = order && st.facts.implied(tLe(es[lo].dist, es[hi].dist)) })
	c.Obl("keeps", con+": order", order, pos, "the entries are not in order")
}

func (h *heapT) client() *Client {
	k := 0
	apart := func(*State) string {
		k++
		return strconv.Itoa(k)
	}
	cl := &Client{Paths: 16, Live: 4096, MaxDepth: 24, Recurse: 12, Ordered: true, MergeKey: apart, Inline: func(f *Func) bool { return f.Pkg == "hnsw" }}
	cl.OnBounds = func(e *Engine, st *State, kind string, idx, n *Term, in *Instr) {
		if e.dry > 0 {
			return
		}
		ok := true
		switch kind {
		case "index":
			ok = st.facts.implied(tLe(tZero, idx)) && st.facts.implied(tLt(idx, n))
		case "slicelo", "slicehi":
			ok = st.facts.implied(tLe(tZero, idx)) && st.facts.implied(tLe(idx, n))
		case "make":
			ok = st.facts.implied(tLe(tZero, idx))
		}
		h.c.Obl("keeps", "in range", ok, in.Pos, "a place outside of the heap is used")
	}
	return cl
}

func (h *heapT) method(short string) *Func {
	f := h.g.methodOf(h.T, short)
	if f == nil {
		h.c.Missing("keeps", "DistHeap."+short)
		return nil
	}
	h.c.Fn(f)
	return f
}

// self is the receiver the method takes.
func (h *heapT) self(e *Engine, st *State, f *Func, o *Term) *Term {
	if f.ParamT[0].Kind == "ptr" {
		return o
	}
	return e.load(st, o, h.T)
}

func (h *heapT) fresh() {
	f := h.g.function("hnsw", "NewDistHeap")
	if f == nil {
		h.c.Missing("keeps", "NewDistHeap")
		return
	}
	h.c.Fn(f)
	e := newEngine(h.g, h.client())
	n := 0
	for _, o := range e.Run(f, nil, nil, newState()) {
		if o.panic {
			h.c.Obl("keeps", "new", false, o.pos, "no heap is made")
			continue
		}
		n++
		h.judge(e, o.st, o.res[0], "new", map[*Term]*Term{}, o.pos)
	}
	h.c.Obl("keeps", "new", n > 0, f.Pos, "no heap is made")
	h.c.Problems(e, "new")
}

// run follows a method from a heap of n entries.
func (h *heapT) run(short, con string, n int, args func(es []heapEntry) []*Term, judge func(e *Engine, o Outcome, heap *Term, es []heapEntry)) {
	f := h.method(short)
	if f == nil {
		return
	}
	e := newEngine(h.g, h.client())
	st := newState()
	o, es := h.build(e, st, n)
	as := []*Term{h.self(e, st, f, o)}
	if args != nil {
		as = append(as, args(es)...)
	}
	k := 0
	for _, x := range e.Run(f, as, nil, st) {
		if !x.st.facts.satisfiable() {
			continue
		}
		k++
		if x.panic {
			h.c.Obl("keeps", con, false, x.pos, "the operation panics")
			continue
		}
		judge(e, x, o, es)
	}
	h.c.Obl("keeps", con, k > 0, f.Pos, "the operation never ends")
	h.c.Count("paths", k)
	h.c.Problems(e, con)
}

func held(es []heapEntry) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, x := range es {
		m[x.id] = x.dist
	}
	return m
}

func (h *heapT) ops(n int) {
	h.pop(n)
	h.peek(n)
	h.insert(n)
	for i := 0; i < n; i++ {
		h.change(n, i)
	}
	if n <= 4 {
		h.clone(n)
	}
}

func (h *heapT) pop(n int) { h.take(n, "PopMinItem", "PopMaxItem") }

func (h *heapT) take(n int, names ...string) {
	c := h.c
	for _, op := range names {
		least, pop := op == "PopMinItem" || op == "PeekMinItem", op[:3] == "Pop"
		h.run(op, op, n, nil, func(e *Engine, o Outcome, heap *Term, es []heapEntry) {
			want := held(es)
			if n == 0 {
				c.Obl("result", op+" of an empty heap", o.st.facts.refuted(tEq(o.res[1], tNil)), o.pos, "no error")
				h.judge(e, o.st, heap, op, want, o.pos)
				return
			}
			c.Obl("result", op, o.st.facts.implied(tEq(o.res[1], tNil)), o.pos, "an entry is refused")
			x := o.res[0]
			id := o.st.facts.norm(e.load(o.st, fieldAddr(x, h.item, h.id), h.item.field(h.id)))
			d := e.load(o.st, fieldAddr(x, h.item, h.dist), h.item.field(h.dist))
			ok := want[id] != nil && o.st.facts.implied(tEq(want[id], d))
			for _, y := range es {
				if least {
					ok = ok && o.st.facts.implied(tLe(d, y.dist))
				} else {
					ok = ok && o.st.facts.implied(tLe(y.dist, d))
				}
			}
			c.Obl("result", op, ok, o.pos, "the entry returned is not one of the heap, or another is nearer (farther)")
			if pop {
				delete(want, id)
			}
			h.judge(e, o.st, heap, op, want, o.pos)
		})
	}
}

func (h *heapT) newDist() *Term { return mkNamed("newdist", h.item.field(h.dist)) }

func (h *heapT) insert(n int) {
	h.run("Insert", "Insert of a new id", n, func([]heapEntry) []*Term { return []*Term{mkInt(7), h.newDist()} }, func(e *Engine, o Outcome, heap *Term, es []heapEntry) {
		want := held(es)
		want[mkInt(7)] = h.newDist()
		h.judge(e, o.st, heap, "Insert of a new id", want, o.pos)
	})
}

func (h *heapT) change(n, i int) {
	h.run("Insert", "Insert of a known id", n, func(es []heapEntry) []*Term { return []*Term{es[i].id, h.newDist()} }, func(e *Engine, o Outcome, heap *Term, es []heapEntry) {
		want := held(es)
		want[es[i].id] = h.newDist()
		h.judge(e, o.st, heap, "Insert of a known id", want, o.pos)
	})
}

func (h *heapT) peek(n int) {
	c := h.c
	h.take(n, "PeekMinItem", "PeekMaxItem")
	h.run("Len", "Len", n, nil, func(e *Engine, o Outcome, heap *Term, es []heapEntry) {
		c.Obl("result", "Len", o.st.facts.implied(tEq(o.res[0], mkInt(int64(n)))), o.pos, "not the number of entries")
		h.judge(e, o.st, heap, "Len", held(es), o.pos)
	})
	h.run("IsEmpty", "IsEmpty", n, nil, func(e *Engine, o Outcome, heap *Term, es []heapEntry) {
		r := o.res[0]
		if n > 0 {
			r = tNot(r)
		}
		c.Obl("result", "IsEmpty", o.st.facts.implied(r), o.pos, "not whether there are entries")
		h.judge(e, o.st, heap, "IsEmpty", held(es), o.pos)
	})
}

// clone changes the clone or the heap and looks at the other one.
func (h *heapT) clone(n int) {
	c := h.c
	h.run("Clone", "Clone", n, nil, func(e *Engine, o Outcome, heap *Term, es []heapEntry) {
		h.judge(e, o.st, heap, "Clone: the heap", held(es), o.pos)
		h.judge(e, o.st, o.res[0], "Clone: the clone", held(es), o.pos)
		type step struct {
			op   string
			args []*Term
		}
		steps := []step{{"Insert", []*Term{mkInt(7), h.newDist()}}}
		for _, x := range es {
			steps = append(steps, step{"Insert", []*Term{x.id, h.newDist()}})
		}
		if n > 0 {
			steps = append(steps, step{"PopMinItem", nil}, step{"PopMaxItem", nil})
		}
		for side, pair := range [][2]*Term{{o.res[0], heap}, {heap, o.res[0]}} {
			for _, s := range steps {
				f := h.method(s.op)
				if f == nil {
					return
				}
				con := []string{s.op + " on the clone", s.op + " on the original"}[side]
				for _, x := range e.Run(f, append([]*Term{h.self(e, o.st, f, pair[0])}, s.args...), nil, o.st.clone()) {
					if x.panic || !x.st.facts.satisfiable() {
						continue
					}
					got, _, why := h.read(e, x.st, pair[1])
					ok := why == "" && len(got) == len(es)
					want := held(es)
					for _, y := range got {
						ok = ok && want[y.id] != nil && x.st.facts.implied(tEq(want[y.id], y.dist))
					}
					c.Obl("clone", con, ok, x.pos, "the other heap changes")
					if why == "" && len(got) == len(es) {
						h.judge(e, x.st, pair[1], con+": the other", held(got), x.pos)
					}
				}
			}
		}
	})
}
