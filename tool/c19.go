package main

// C19: the graph of vectors.

import (
	"fmt"
	"strconv"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C19",
		Title: "the graph of vectors links what it should and finds the nearest",
		Rules: "An index of vectors is made and vectors are inserted at levels 0 to 2 in every combination (3 vectors; 4 for pruned lists, and for some combinations in thorough), all distances between them being arbitrary; every path is followed. (links) With lists that can hold all vectors, an insertion returns the next id, and then any two vectors are friends on every level both have, on both sides, at their distance, and none is its own friend. (friends) A friend entered on a level of a vector is on that level and all below, no other, and its highest level is remembered. (pruned) With fewer connections and all vectors on level 0, the new vector is linked with the nearest of those reached and one with too many friends keeps the nearest of them. (search) A search returns exactly the nearest vectors asked for, with their distances, and leaves the graph as it is. (refuse) A vector of another dimension is neither inserted nor searched for. (flush) The bytes of a vector's friends are the nearest ones on level 0, nearest first: the highest level both are friends on and the id, zero where there are no more. (store) Adding a node stores the vector under its id and the bytes of its friends, and every failure is reported.",
		Trust: []string{"Go type checker and go/ssa construction", "EuclidDistance is symmetric, and distances are comparable (not NaN)", "the level drawn for a vector is arbitrary"},
		Run:   runC19,
	})
}

type graphT struct {
	c     *Ctx
	g     *GoProg
	h     *heapT
	T, fT *Type
	vecT  *Type
	level int
	stop  bool // something is wrong: what follows need not make sense
}

func runC19(c *Ctx) {
	g := &graphT{c: c, g: c.Prog("", "linux")}
	g.h = &heapT{c: c, g: g.g}
	g.T, g.fT, g.vecT = g.g.namedT("hnsw.Hnsw"), g.g.namedT("hnsw.Friends"), g.g.namedT("hnsw.Point")
	if !g.h.find() || g.T == nil || g.fT == nil || g.vecT == nil || g.vecT.Kind != "slice" {
		c.Missing("links", "Hnsw, Friends and Point")
		return
	}
	var rec func(levels []int)
	rec = func(levels []int) {
		if len(levels) == 2 {
			g.history(levels, 8, 8)
			return
		}
		for l := 0; l <= 2; l++ {
			rec(append(append([]int{}, levels...), l))
		}
	}
	rec(nil)
	for _, m := range []int{1, 2} {
		g.history([]int{0, 0}, 8, m)
		g.history([]int{0, 0, 0}, 8, m)
	}
	if c.thorough() {
		for _, levels := range [][]int{{0, 0, 0}, {1, 0, 1}, {1, 2, 1}} {
			g.history(levels, 8, 8)
		}
	}
	g.enter()
	g.refuse()
	g.store()
	for r, k := range map[string]int{"links": 3, "friends": 2, "pruned": 2, "search": 2, "refuse": 2, "flush": 1, "store": 3} {
		c.Min(r, k)
	}
}

func (g *graphT) obl(rule, con string, ok bool, pos, msg string) {
	g.c.Obl(rule, con, ok, pos, msg)
	g.stop = g.stop || !ok
}

type graphSt struct {
	e     *Engine
	st    *State
	h     *Term
	n     int
	vecs  []*Term // bases
	ef, m int
}

func (g *graphT) client() *Client {
	k := 0
	cl := &Client{Paths: 24, Live: 4096, MaxDepth: 30, Recurse: 12, Ordered: true,
		Inline:   func(f *Func) bool { return f.Pkg == "hnsw" || f.Pkg == "vectorpage" },
		MergeKey: func(*State) string { k++; return strconv.Itoa(k) },
		FloatInt: func(*Term) *Term { return mkInt(int64(g.level)) },
	}
	cl.OnBounds = func(e *Engine, st *State, kind string, idx, n *Term, in *Instr) {
		if kind != "index" || e.dry > 0 {
			return
		}
		in0, in1 := tLe(tZero, idx), tLt(idx, n)
		if in0 == tTrue && in1 == tTrue {
			return
		}
		if !(st.facts.implied(in0) && st.facts.implied(in1)) && st.facts.satisfiable() {
			g.obl("links", "in range", false, in.Pos, "a place outside of a list is used")
			st.facts.dead = true
		}
	}
	cl.OnLoad = func(e *Engine, st *State, addr *Term, in *Instr) {
		for a := addr; ; a = a.args[0] {
			if a == tNil {
				if st.facts.satisfiable() {
					g.obl("links", "nil", false, in.Pos, "something that is not there is used")
				}
				st.facts.dead = true
			}
			if len(a.args) == 0 {
				break
			}
		}
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Fn != nil && cc.Fn.Pkg == "hnsw" && cc.Short == "EuclidDistance" && len(cc.Args) == 2 {
			a, b := g.which(cc.Args[0]), g.which(cc.Args[1])
			if a == "" || b == "" {
				e.problem("the distance of something that is not one of the vectors")
				return nil, true
			}
			return one(st, g.dist(a, b)), true
		}
		if strings.HasPrefix(cc.Name, "math/rand") {
			return one(st, mkSym("rand", g.h.item.field(g.h.dist))), true
		}
		return nil, false
	}
	return cl
}

func (g *graphT) which(v *Term) string {
	b, _, _ := sliceParts(v)
	if b != nil && strings.HasPrefix(b.s, "vec") {
		return strings.SplitN(b.s, "#", 2)[0]
	}
	return ""
}

func (g *graphT) dist(a, b string) *Term {
	if a > b {
		a, b = b, a
	}
	return mkNamed("d("+a+","+b+")", g.h.item.field(g.h.dist))
}

func vecName(i int) string { return fmt.Sprintf("vec%d", i) }

func (g *graphT) vector(e *Engine, st *State, i, dim int) *Term {
	var us []*Term
	for k := 0; k < dim; k++ {
		us = append(us, mkApp("unit", nil, mkNamed(fmt.Sprintf("%s.%d", vecName(i), k), g.vecT.Elem)))
	}
	return e.newSlice(st, vecName(i), g.vecT.Elem, mkApp("cat", nil, us...))
}

// outcomes of an exported function, dead ones left out.
func (g *graphT) run(e *Engine, st *State, rule, con string, f *Func, args ...*Term) []Outcome {
	g.c.Fn(f)
	var r []Outcome
	for _, o := range e.Run(f, args, nil, st.clone()) {
		if !o.st.facts.satisfiable() {
			continue
		}
		if o.panic {
			g.obl(rule, con, false, o.pos, "it panics")
			continue
		}
		r = append(r, o)
	}
	g.obl(rule, con, len(r) > 0, f.Pos, "it never ends")
	return r
}

func (g *graphT) method(rule string, t *Type, short string) *Func {
	f := g.g.methodOf(t, short)
	if f == nil {
		g.c.Missing(rule, t.Name+"."+short)
	}
	return f
}

// fresh is an index of one vector of two dimensions.
func (g *graphT) fresh(rule string, e *Engine, ef, m int) *graphSt {
	f := g.g.function("hnsw", "NewHnsw")
	if f == nil {
		g.c.Missing(rule, "NewHnsw")
		return nil
	}
	st := newState()
	v := g.vector(e, st, 0, 2)
	os := g.run(e, st, rule, "new", f, mkInt(2), mkInt(int64(ef)), mkInt(int64(m)), v)
	if len(os) != 1 {
		return nil
	}
	return &graphSt{e: e, st: os[0].st, h: os[0].res[0], n: 1, ef: ef, m: m}
}

// friends are the entries of a list, by id.
func (g *graphT) friends(s *graphSt, rule string, i, l int) (map[int]*Term, bool) {
	fs := g.list(s, rule, i)
	if fs == nil {
		return nil, false
	}
	get := g.method(rule, g.fT, "GetFriendsAtLevel")
	if get == nil {
		return nil, false
	}
	os := g.run(s.e, s.st, rule, "friends of a level", get, fs, mkInt(int64(l)))
	if len(os) != 1 || !os[0].st.facts.implied(tEq(os[0].res[1], tNil)) {
		return nil, false
	}
	return g.read(s, os[0].res[0])
}

func (g *graphT) read(s *graphSt, heap *Term) (map[int]*Term, bool) {
	es, _, why := g.h.read(s.e, s.st, heap)
	if why != "" {
		return nil, false
	}
	r := map[int]*Term{}
	for _, x := range es {
		id, ok := constI(x.id)
		if !ok || r[int(id)] != nil {
			return nil, false
		}
		r[int(id)] = x.dist
	}
	return r, true
}

func (g *graphT) list(s *graphSt, rule string, i int) *Term {
	nb := g.method(rule, g.T, "Neighborhood")
	if nb == nil {
		return nil
	}
	os := g.run(s.e, s.st, rule, "the friends of a vector", nb, s.h, mkInt(int64(i)))
	if len(os) != 1 || !os[0].st.facts.implied(tEq(os[0].res[1], tNil)) {
		return nil
	}
	return os[0].res[0]
}

func (g *graphT) levels(s *graphSt, rule string, i int) int {
	fs := g.list(s, rule, i)
	num := g.method(rule, g.fT, "NumLevels")
	if fs == nil || num == nil {
		return -1
	}
	os := g.run(s.e, s.st, rule, "the levels of a vector", num, fs)
	if len(os) != 1 {
		return -1
	}
	if k, ok := constI(os[0].st.facts.norm(os[0].res[0])); ok {
		return int(k)
	}
	return -1
}

// all are the friends of every vector on every level.
func (g *graphT) all(s *graphSt, rule string) ([][]map[int]*Term, bool) {
	var r [][]map[int]*Term
	for i := 0; i < s.n; i++ {
		k := g.levels(s, rule, i)
		if k < 0 || k > 8 {
			return nil, false
		}
		var ls []map[int]*Term
		for l := 0; l < k; l++ {
			m, ok := g.friends(s, rule, i, l)
			if !ok {
				return nil, false
			}
			ls = append(ls, m)
		}
		r = append(r, ls)
	}
	return r, true
}

func (g *graphT) same(s *graphSt, a, b [][]map[int]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for l := range a[i] {
			if len(a[i][l]) != len(b[i][l]) {
				return false
			}
			for id, d := range a[i][l] {
				if b[i][l][id] == nil || !s.st.facts.implied(tEq(d, b[i][l][id])) {
					return false
				}
			}
		}
	}
	return true
}

func (g *graphT) history(levels []int, ef, m int) {
	if g.stop {
		return
	}
	rule := "links"
	if m < len(levels)+1 {
		rule = "pruned"
	}
	e := newEngine(g.g, g.client())
	e.maxSteps = 8000000
	s := g.fresh(rule, e, ef, m)
	if s == nil {
		g.c.Problems(e, rule)
		return
	}
	k := g.levels(s, rule, 0)
	m0, ok := g.friends(s, rule, 0, 0)
	g.obl(rule, "new", k == 1 && ok && len(m0) == 0, "", "a new index is not the first vector on level 0 alone")
	g.insert(s, rule, []int{0}, levels)
	g.c.Problems(e, rule)
}

func (g *graphT) insert(s *graphSt, rule string, had, levels []int) {
	c := g.c
	if len(levels) == 0 {
		if s.n > 3 {
			return
		}
		g.search(s, rule)
		if rule == "links" {
			g.flush(s, had)
		}
		return
	}
	f := g.method(rule, g.T, "InsertVector")
	if f == nil {
		return
	}
	before, ok := g.all(s, rule)
	if !ok {
		g.obl(rule, "lists", false, f.Pos, "the friends are not to be told")
		return
	}
	if g.stop || len(s.e.problems) > 0 {
		return
	}
	g.level = levels[0]
	st := s.st.clone()
	v := g.vector(s.e, st, s.n, 2)
	now := append(append([]int{}, had...), levels[0])
	for _, o := range g.run(s.e, st, rule, "insert", f, s.h, v) {
		c.Count("insertions", 1)
		g.obl(rule, "insert", o.st.facts.implied(tEq(o.res[1], tNil)), o.pos, "a vector is refused")
		g.obl(rule, "id", o.st.facts.implied(tEq(o.res[0], mkInt(int64(s.n)))), o.pos, "the vector does not get the next id")
		t := &graphSt{e: s.e, st: o.st, h: s.h, n: s.n + 1, ef: s.ef, m: s.m}
		after, ok := g.all(t, rule)
		if !ok {
			g.obl(rule, "lists", false, o.pos, "the friends are not to be told")
			continue
		}
		for i := range after {
			g.obl(rule, "levels", len(after[i]) == now[i]+1, o.pos, "a vector does not have the levels drawn for it")
			for l := range after[i] {
				for id, d := range after[i][l] {
					g.obl(rule, "itself", id != i, o.pos, "a vector is its own friend")
					g.obl(rule, "distance", id < t.n && o.st.facts.implied(tEq(d, g.dist(vecName(i), vecName(id)))), o.pos, "the distance of two friends is not that of their vectors")
				}
			}
		}
		if rule == "links" {
			for i := range after {
				for l := range after[i] {
					for j := range now {
						if j != i {
							_, linked := after[i][l][j]
							g.obl(rule, "friends", linked == (now[j] >= l), o.pos, fmt.Sprintf("two vectors on level %d are not friends on both sides, or one that is not on it is a friend", l))
						}
					}
				}
			}
		} else {
			g.pruned(t, g.entry(s), before, after, o.pos)
		}
		g.insert(t, rule, now, levels[1:])
	}
}

// entry is the vector where searches start.
func (g *graphT) entry(s *graphSt) int {
	var fs []TField
	for _, f := range g.T.Fields {
		if f.Typ.Kind == "int" && !f.Typ.Signed {
			fs = append(fs, f)
		}
	}
	if len(fs) == 1 {
		if k, ok := constI(s.st.facts.norm(s.e.load(s.st, fieldAddr(s.h, g.T, fs[0].Name), fs[0].Typ))); ok {
			return int(k)
		}
	}
	return 0
}

// pruned: all vectors are on level 0.
func (g *graphT) pruned(t *graphSt, start int, before, after [][]map[int]*Term, pos string) {
	q := t.n - 1
	reached := map[int]bool{start: true}
	for more := true; more; {
		more = false
		for i := range before {
			if reached[i] {
				for j := range before[i][0] {
					if !reached[j] {
						reached[j], more = true, true
					}
				}
			}
		}
	}
	d := func(i, j int) *Term { return g.dist(vecName(i), vecName(j)) }
	nearest := func(of int, chosen map[int]*Term, from map[int]bool, n int) bool {
		if n > len(from) {
			n = len(from)
		}
		if len(chosen) != n {
			return false
		}
		for a := range chosen {
			if !from[a] {
				return false
			}
			for b := range from {
				if _, in := chosen[b]; !in && !t.st.facts.implied(tLe(d(of, a), d(of, b))) {
					return false
				}
			}
		}
		return true
	}
	g.obl("pruned", "the new vector", nearest(q, after[q][0], reached, t.m), pos, "its friends are not the nearest of the vectors reached")
	for i := 0; i < q; i++ {
		from := map[int]bool{}
		for j := range before[i][0] {
			from[j] = true
		}
		if _, linked := after[q][0][i]; linked {
			from[q] = true
		}
		g.obl("pruned", "the others", nearest(i, after[i][0], from, t.m), pos, "a vector does not keep the nearest of its friends and the new one")
	}
}

func (g *graphT) search(s *graphSt, rule string) {
	c := g.c
	f := g.method("search", g.T, "KnnSearch")
	if f == nil {
		return
	}
	before, ok := g.all(s, rule)
	if !ok {
		return
	}
	ks := []int{1, 2, s.n + 1}
	if rule == "pruned" || s.n > 3 {
		ks = []int{2}
	}
	for _, k := range ks {
		st := s.st.clone()
		q := g.vector(s.e, st, 99, 2)
		if g.stop {
			return
		}
		for _, o := range g.run(s.e, st, "search", "search", f, s.h, q, mkInt(int64(k))) {
			c.Count("searches", 1)
			g.obl("search", "found", o.st.facts.implied(tEq(o.res[1], tNil)), o.pos, "the search fails")
			t := &graphSt{e: s.e, st: o.st, h: s.h, n: s.n, ef: s.ef, m: s.m}
			got, ok := g.read(t, o.res[0])
			g.obl("search", "result", ok, o.pos, "what was found is not to be told")
			if !ok {
				continue
			}
			for id, d := range got {
				g.obl("search", "distance", id < s.n && o.st.facts.implied(tEq(d, g.dist(vecName(99), vecName(id)))), o.pos, "not the distance to the vector searched for")
			}
			if rule == "links" {
				want := k
				if want > s.n {
					want = s.n
				}
				good := len(got) == want
				for a := range got {
					for b := 0; b < s.n; b++ {
						if _, in := got[b]; !in {
							good = good && o.st.facts.implied(tLe(g.dist(vecName(99), vecName(a)), g.dist(vecName(99), vecName(b))))
						}
					}
				}
				g.obl("search", "nearest", good, o.pos, "not the nearest vectors, or not as many as asked for")
			} else {
				g.obl("search", "number", len(got) > 0 && len(got) <= k, o.pos, "nothing or too much is found")
			}
			after, ok := g.all(t, "search")
			g.obl("search", "graph", ok && g.same(t, before, after), o.pos, "the graph changes")
		}
	}
}

// enter: a friend is entered on its level and all below.
func (g *graphT) enter() {
	mk := g.g.function("hnsw", "NewFriends")
	ins, get, flush := g.method("friends", g.fT, "InsertFriendsAtLevel"), g.method("friends", g.fT, "GetFriendsAtLevel"), g.method("friends", g.fT, "Flush")
	if mk == nil || ins == nil || get == nil || flush == nil {
		if mk == nil {
			g.c.Missing("friends", "NewFriends")
		}
		return
	}
	d := g.dist("vec0", "vec1")
	for top := 0; top <= 3; top++ {
		for a := 0; a <= top; a++ {
			for b := 0; b <= top; b++ {
				e := newEngine(g.g, g.client())
				e.maxSteps = 500000
				os := g.run(e, newState(), "friends", "new", mk, mkInt(int64(top)))
				for _, l := range []int{a, b} {
					var next []Outcome
					for _, o := range os {
						fs := o.res[len(o.res)-1]
						for _, p := range g.run(e, o.st, "friends", "enter", ins, fs, mkInt(int64(l)), mkInt(5), d) {
							p.res = []*Term{fs}
							next = append(next, p)
						}
					}
					os = next
				}
				max := a
				if b > max {
					max = b
				}
				for _, o := range os {
					for l := 0; l <= top; l++ {
						for _, p := range g.run(e, o.st, "friends", "level", get, o.res[0], mkInt(int64(l))) {
							m, ok := g.read(&graphSt{e: e, st: p.st}, p.res[0])
							g.obl("friends", "levels", ok && len(m) == map[bool]int{true: 1}[l <= max] && (l > max || m[5] == d), p.pos, "a friend is not on its level and all levels below, and no other")
						}
					}
					for _, p := range g.run(e, o.st, "friends", "level", flush, o.res[0], mkInt(1)) {
						bs := e.sliceSeq(p.st, p.res[0], tByteT())
						g.obl("friends", "highest level", constByte(bs, 0) == max && constByte(bs, 4) == 5, p.pos, "the level written is not the highest the friend was entered on")
					}
				}
				g.c.Problems(e, "friends")
			}
		}
	}
}

func (g *graphT) flush(s *graphSt, had []int) {
	f := g.method("flush", g.fT, "Flush")
	if f == nil {
		return
	}
	before, ok := g.all(s, "flush")
	if !ok {
		return
	}
	for i := 0; i < s.n; i++ {
		fs := g.list(s, "flush", i)
		if fs == nil {
			return
		}
		for _, k := range []int{1, s.n} {
			for _, o := range g.run(s.e, s.st, "flush", "flush", f, fs, mkInt(int64(k))) {
				good := o.st.facts.implied(tEq(o.res[1], tNil))
				bs := s.e.sliceSeq(o.st, o.res[0], tByteT())
				n, known := constI(o.st.facts.norm(seqLen(bs)))
				good = good && known && n == int64(5*k)
				var ids []int
				for p := 0; good && p < k; p++ {
					at := func(j int) int { return constByte(bs, 5*p+j) }
					lvl, id := at(0), at(4)
					for j := 1; j < 4; j++ {
						good = good && at(j) == 0
					}
					if p >= s.n-1 {
						good = good && lvl == 0 && id == 0
						continue
					}
					good = good && id >= 0 && id < s.n && id != i
					if good {
						top := had[i]
						if had[id] < top {
							top = had[id]
						}
						good = lvl == top
						ids = append(ids, id)
					}
				}
				g.obl("flush", "layout", good, o.pos, "not five bytes for each friend, its level and its id, and zeroes behind")
				d := func(j int) *Term { return g.dist(vecName(i), vecName(j)) }
				seen := map[int]bool{}
				order := true
				for p, id := range ids {
					order = order && !seen[id] && (p == 0 || o.st.facts.implied(tLe(d(ids[p-1]), d(id))))
					seen[id] = true
				}
				for b := 0; good && b < s.n; b++ {
					if b != i && !seen[b] {
						for id := range seen {
							order = order && o.st.facts.implied(tLe(d(id), d(b)))
						}
					}
				}
				g.obl("flush", "order", order, o.pos, "not the nearest friends, nearest first")
				t := &graphSt{e: s.e, st: o.st, h: s.h, n: s.n}
				after, ok := g.all(t, "flush")
				g.obl("flush", "graph", ok && g.same(t, before, after), o.pos, "the graph changes")
			}
		}
	}
}

func tByteT() *Type { return &Type{Kind: "int", Bits: 8} }

func (g *graphT) refuse() {
	c := g.c
	ins, knn := g.method("refuse", g.T, "InsertVector"), g.method("refuse", g.T, "KnnSearch")
	if ins == nil || knn == nil {
		return
	}
	for _, dim := range []int{0, 1, 3} {
		e := newEngine(g.g, g.client())
		s := g.fresh("refuse", e, 8, 8)
		if s == nil {
			return
		}
		g.level = 0
		for _, f := range []*Func{ins, knn} {
			st := s.st.clone()
			args := []*Term{s.h, g.vector(e, st, 1, dim)}
			con := "insert"
			if f == knn {
				args = append(args, mkInt(1))
				con = "search"
			}
			for _, o := range g.run(e, st, "refuse", con, f, args...) {
				g.obl("refuse", con, o.st.facts.refuted(tEq(o.res[1], tNil)), o.pos, "a vector of another dimension is accepted")
				t := &graphSt{e: e, st: o.st, h: s.h, n: 1, ef: 8, m: 8}
				// the next vector gets the next id
				g.level = 0
				t.st = o.st.clone()
				v := g.vector(e, t.st, 2, 2)
				for _, p := range g.run(e, t.st, "refuse", con+": the next vector", ins, s.h, v) {
					g.obl("refuse", con+": the next vector", p.st.facts.implied(tEq(p.res[1], tNil)) && p.st.facts.implied(tEq(p.res[0], mkInt(1))), p.pos, "what was refused leaves a trace")
				}
			}
		}
		c.Problems(e, "refuse")
	}
}

// constByte is the byte at a place of a sequence, -1 if it is not known.
func constByte(s *Term, i int) int {
	if strings.HasPrefix(s.s, "zeros") {
		return 0
	}
	if s.op != TApp {
		return -1
	}
	be := func(v *Term, n int) int {
		k, ok := constI(v)
		if !ok || i >= n {
			return -1
		}
		return int(k>>(8*uint(n-1-i))) & 255
	}
	switch {
	case s.s == "cat":
		for _, p := range s.args {
			n, ok := constI(seqLen(p))
			if !ok {
				return -1
			}
			if i < int(n) {
				return constByte(p, i)
			}
			i -= int(n)
		}
	case s.s == "unit":
		if k, ok := constI(s.args[0]); ok && i == 0 {
			return int(k) & 255
		}
	case s.s == "span":
		if k, ok := constI(s.args[1]); ok {
			return constByte(s.args[0], i+int(k))
		}
	case s.s == "be2" || s.s == "be4" || s.s == "be8":
		return be(s.args[0], int(s.s[2]-'0'))
	}
	return -1
}

// store: what AddNode writes.
func (g *graphT) store() {
	c := g.c
	mT := g.g.namedT("vectorpage.VectorPageManager")
	mk := g.g.function("vectorpage", "NewVectorPageManager")
	if mT == nil || mk == nil {
		c.Missing("store", "VectorPageManager")
		return
	}
	add, nb, flush := g.method("store", mT, "AddNode"), g.method("store", g.T, "Neighborhood"), g.method("store", g.fT, "Flush")
	if add == nil || nb == nil || flush == nil {
		return
	}
	cl := g.client()
	inner := cl.Call
	cell := func(x string) *Term { return mkFld(mkNamed("stored", nil), x) }
	count := func(st *State, x string) int64 {
		if t := st.mem[cell(x)]; t != nil {
			k, _ := constI(t)
			return k
		}
		return 0
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Fn != nil && cc.Short == "Insert" && (cc.Fn.Pkg == "btree" || cc.Fn.Pkg == "bptree") && len(cc.Args) == 3 {
			p := cc.Fn.Pkg
			ok, bad := st.clone(), st.clone()
			n := count(ok, p+".n")
			ok.mem[cell(p+".n")] = mkInt(n + 1)
			if p == "btree" {
				ok.mem[cell("id")] = mkField(cc.Args[1], "Value", tIntT)
				ok.mem[cell("vector")] = e.sliceSeq(st, cc.Args[2], g.vecT.Elem)
			} else {
				ok.mem[cell("bytes")] = e.sliceSeq(st, mkField(cc.Args[1], "Value", nil), tByteT())
			}
			bad.mem[cell("failed")] = tTrue
			return append(one2(ok, tNil), one2(bad, freshErr(p))...), true
		}
		return inner(e, st, cc)
	}
	for _, level := range []int{0, 2} {
		e := newEngine(g.g, cl)
		s := g.fresh("store", e, 8, 8)
		if s == nil {
			return
		}
		bt, bp := mkObj("btree", mk.ParamT[0]), mkObj("bptree", mk.ParamT[1])
		os := g.run(e, s.st, "store", "new", mk, bt, bp, s.h)
		if len(os) != 1 {
			return
		}
		for _, dim := range []int{2, 3} {
			g.level = level
			st := os[0].st.clone()
			v := g.vector(e, st, 1, dim)
			for _, o := range g.run(e, st, "store", "add", add, os[0].res[0], v) {
				n1 := count(o.st, "btree.n")
				n2 := count(o.st, "bptree.n")
				failed := o.st.mem[cell("failed")] != nil
				if dim != 2 || failed {
					con := "a failure"
					if dim != 2 {
						con = "another dimension"
						g.obl("store", con+": nothing stored", n1 == 0 && n2 == 0 && !failed, o.pos, "something is stored for a vector that is refused")
					}
					g.obl("store", con, o.st.facts.refuted(tEq(o.res[0], tNil)), o.pos, "no error")
					continue
				}
				g.obl("store", "add", o.st.facts.implied(tEq(o.res[0], tNil)), o.pos, "a vector is refused")
				id, vec := o.st.mem[cell("id")], o.st.mem[cell("vector")]
				g.obl("store", "vector", n1 == 1 && o.st.facts.implied(tEq(id, mkInt(1))) && vec == e.sliceSeq(st, v, g.vecT.Elem), o.pos, "not the vector is stored, once, under its id")
				g.obl("store", "friends", n2 == 1, o.pos, "the friends are not stored once")
				for _, p := range g.run(e, o.st, "store", "the friends", nb, s.h, mkInt(1)) {
					for _, q := range g.run(e, p.st, "store", "the friends", flush, p.res[0], mkInt(8)) {
						want := e.sliceSeq(q.st, q.res[0], tByteT())
						got := o.st.mem[cell("bytes")]
						same := got != nil
						for i := 0; i < 40; i++ {
							same = same && constByte(got, i) >= 0 && constByte(got, i) == constByte(want, i)
						}
						g.obl("store", "friends", same && o.st.facts.implied(tEq(seqLen(got), mkInt(40))), o.pos, "not the bytes of the eight nearest friends")
					}
				}
			}
		}
		c.Problems(e, "store")
	}
}

func one2(st *State, res ...*Term) []Outcome { return []Outcome{{st: st, res: res}} }
