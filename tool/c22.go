package main

// C22: a where query yields exactly the entries its operator asks for.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C22",
		Title: "a where query yields exactly the entries its operator asks for, in order",
		Rules: "(query) Database.query is run on every list of entries with up to two smaller than the value of the condition, up to two equal to it and up to two larger (three in the thorough tier), at least one in all, for every operator and for no order, ascending and descending: it yields the records of exactly the entries the operator asks for, each once, in the order of the keys (\"==\" in either), and throws nothing; what a tree does is taken from C10: an iterator begins at the first entry not smaller than its key, next stops there first and then at the entry after, prev at the entry before, and first and last return the outermost keys. (source) the tree searched is made from the index file's resolver, the page found for the field and the type of the value, the data file's resolver, the format and the width of the page; the values compared are those of the condition; a record is read from exactly its first to its last byte and is put through the selection asked for. (unknown) a condition on a field the index does not have throws. (builder) the same holds when the query is put together by where, orderBy, select and get, in either order.",
		Trust: []string{"TypeScript parser and type checker", "search and walk in a tree (C10)", "a map or filter over a list of one condition", "the parsing of a record and the selection of its fields"},
		Run:   runC22,
	})
}

type tsQuery struct {
	c  *Ctx
	ts *TSProg
}

func runC22(c *Ctx) {
	q := &tsQuery{c, c.TS()}
	for _, n := range []string{"Database.query", "QueryBuilder.where", "QueryBuilder.orderBy", "QueryBuilder.select", "QueryBuilder.get", "Database.where"} {
		f := q.ts.fn(n)
		if f == nil {
			c.Missing("query", n)
			return
		}
		c.Fn(f)
	}
	max := 2
	if c.thorough() {
		max = 3
	}
	for _, op := range []string{"<", "<=", "==", ">=", ">"} {
		for _, ord := range []string{"", "ASC", "DESC"} {
			for i := 0; i < (max+1)*(max+1)*(max+1); i++ {
				k := &queryCase{q: q, op: op, ord: ord, n: [3]int{i % (max + 1), i / (max + 1) % (max + 1), i / (max + 1) / (max + 1)}}
				if k.total() == 0 {
					continue
				}
				k.run("")
			}
			for _, how := range []string{"where, orderBy, select", "select, orderBy, where"} {
				k := &queryCase{q: q, op: op, ord: ord, n: [3]int{1, 2, 1}}
				k.run(how)
			}
		}
	}
	for _, op := range []string{"<", "<=", "==", ">=", ">"} {
		k := &queryCase{q: q, op: op, n: [3]int{1, 1, 1}, unknown: true}
		k.run("")
	}
	c.Min("unknown", 1)
	c.Min("query", 15)
	c.Min("builder", 5)
	c.Min("source", 3)
}

// queryCase is one list of entries, operator and order.
type queryCase struct {
	q       *tsQuery
	op, ord string
	n       [3]int // smaller, equal, larger
	values  map[*Term]int
	dps     map[*Term]int
	at      map[*Term]int // an offset of an entry's record
	unknown bool          // no field has the name
	con     string
	rule    string
	keys    []*Term
	ptrs    []*Term
}

func (k *queryCase) total() int { return k.n[0] + k.n[1] + k.n[2] }

// class is -1, 0 or 1 for an entry smaller, equal or larger.
func (k *queryCase) class(i int) int {
	switch {
	case i < k.n[0]:
		return -1
	case i < k.n[0]+k.n[1]:
		return 0
	}
	return 1
}

func (k *queryCase) want() []int {
	var r []int
	for i := 0; i < k.total(); i++ {
		s := k.class(i)
		ok := false
		switch k.op {
		case "<":
			ok = s < 0
		case "<=":
			ok = s <= 0
		case "==":
			ok = s == 0
		case ">=":
			ok = s >= 0
		case ">":
			ok = s > 0
		}
		if ok {
			r = append(r, i)
		}
	}
	if k.ord == "DESC" {
		for a, b := 0, len(r)-1; a < b; a, b = a+1, b-1 {
			r[a], r[b] = r[b], r[a]
		}
	}
	return r
}

func qt(name string, t *Type) *Term { return mkNamed("query:"+name, t) }

// bad reports and ends the path.
func (k *queryCase) bad(rule string, e *Engine, pos, msg string) ([]Outcome, bool) {
	k.q.c.Obl(rule, k.con, e.dry > 0, pos, msg)
	return nil, true
}

func (k *queryCase) good(rule string, pos string) { k.q.c.Obl(rule, k.con, true, pos, "") }

// begins is where an iterator for a key begins.
func (k *queryCase) begins(e *Engine, st *State, ref *Term) (int, bool) {
	ref = unbox(ref)
	for i, x := range k.keys {
		if x == ref {
			return i, true
		}
	}
	v := unbox(e.tsGet(st, ref, "value", tsAnyT))
	d := unbox(e.tsGet(st, ref, "dataPointer", tsObjP))
	if i, ok := k.dps[d]; ok && k.values[v] == i {
		if _, ok := k.values[v]; ok {
			return i, true
		}
	}
	off, n := tsNumOf(e.tsGet(st, d, "offset", tsNumT)), tsNumOf(e.tsGet(st, d, "length", tsNumT))
	low := st.facts.implied(tEq(off, tZero)) && st.facts.implied(tEq(n, tZero))
	high := st.facts.implied(tEq(off, maxU64))
	i, isKey := k.values[v]
	switch {
	case !low && !high:
		return 0, false
	case v == qt("value", tsAnyT):
		if low {
			return k.n[0], true
		}
		return k.n[0] + k.n[1], true
	case isKey && high && i == k.total()-1:
		return k.total(), true
	case isKey && low && i == 0:
		return 0, true
	case isKey && k.class(i) == 0:
		if low {
			return k.n[0], true
		}
		return k.n[0] + k.n[1], true
	}
	return 0, false
}

func (k *queryCase) client() *Client {
	c, ts := k.q.c, k.q.ts
	cl := c.tsClient(ts)
	cl.Paths = k.total() + 4
	cl.MaxDepth = 30
	inner := cl.Call
	posOf := func(e *Engine, st *State, it *Term) (int, bool) {
		p, ok := constI(st.facts.norm(e.tsGet(st, unbox(it), "$pos", tsNumT)))
		return int(p), ok
	}
	set := func(e *Engine, st *State, it *Term, p int) {
		st.mem[tsFld(unbox(it), "$pos")] = mkInt(int64(p))
		st.mem[tsFld(unbox(it), "$begun")] = tOne
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		name := cc.Short
		if cc.Fn != nil {
			name = cc.Fn.Short
		}
		recv := func() *Term {
			if len(cc.Args) == 0 {
				return nil
			}
			return unbox(cc.Args[0])
		}
		switch {
		case name == "metadata" && recv() == qt("indexFile", tsObjP):
			return one(st, e.tsObject(st, map[string]*Term{"version": tOne, "format": qt("format", tsNumT), "entries": qt("entries", tsNumT), "readOffset": qt("readOffset", tsNumT)})), true
		case name == "metadata" && recv() == qt("page", tsObjP):
			return one(st, qt("pagemeta", tsBytesT)), true
		case name == "readIndexMeta":
			if recv() != qt("pagemeta", tsBytesT) {
				return k.bad("source", e, cc.Pos, "the metadata read are not those of the page found")
			}
			return one(st, e.tsObject(st, map[string]*Term{"fieldName": mkStr("field"), "fieldType": qt("pagetype", tsNumT), "width": qt("width", tsNumT), "totalFieldValueLength": qt("total", tsNumT)})), true
		case name == "getResolver" && recv() == qt("indexFile", tsObjP):
			return one(st, qt("indexresolver", tsFuncT)), true
		case name == "getResolver":
			return one(st, qt("dataresolver", tsFuncT)), true
		case name == "indexHeaders" || name == "fields" && cc.Fn != nil && cc.Fn.Recv != "":
			hd := func(n string) *Term {
				return e.tsObject(st, map[string]*Term{"fieldName": mkStr(n), "fieldTypes": e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, qt("type", tsNumT))))})
			}
			if k.unknown {
				return one(st, e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, hd("other")), mkApp("unit", nil, hd("another"))))), true
			}
			return one(st, e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, hd("other")), mkApp("unit", nil, hd("field"))))), true
		case name == "seek" && recv() == qt("indexFile", tsObjP):
			if len(cc.Args) < 3 || unbox(cc.Args[1]) != mkStr("field") || tsNumOf(cc.Args[2]) != qt("type", tsNumT) {
				return k.bad("source", e, cc.Pos, "the page sought is not that of the field and the type of the value")
			}
			return one(st, e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, qt("page", tsObjP))))), true
		case name == "processWhere":
			if unbox(cc.Args[0]) != qt("operand", tsAnyT) {
				return k.bad("source", e, cc.Pos, "the value processed is not that of the condition")
			}
			return one(st, e.tsObject(st, map[string]*Term{"fieldType": qt("type", tsNumT), "valueBuf": qt("value", tsAnyT)})), true
		case cc.Fn != nil && strings.HasSuffix(cc.Fn.Name, "BPTree).constructor"):
			have := map[*Term]bool{}
			for _, a := range cc.Args[1:] {
				have[unbox(a)] = true
			}
			ok := have[qt("pagetype", tsNumT)] || have[qt("type", tsNumT)]
			for _, t := range []*Term{qt("indexresolver", tsFuncT), qt("page", tsObjP), qt("dataresolver", tsFuncT), qt("format", tsNumT), qt("width", tsNumT)} {
				ok = ok && have[t]
			}
			if !ok {
				return k.bad("source", e, cc.Pos, "the tree is not made from the resolvers, the page found, the format, and the type and width of the page")
			}
			k.good("source", cc.Pos)
			st.mem[tsFld(recv(), "$tree")] = tOne
			return one(st, tNil), true
		case cc.Fn != nil && strings.HasSuffix(cc.Fn.Name, "BPTree)."+name) && name != "constructor":
			if e.tsGet(st, recv(), "$tree", tsNumT) != tOne {
				return k.bad("source", e, cc.Pos, "the tree asked is not the one of the field")
			}
			switch name {
			case "iter":
				p, ok := k.begins(e, st, cc.Args[1])
				if !ok {
					return k.bad(k.rule, e, cc.Pos, "the position of an iterator is not decided by its key")
				}
				it := e.tsObject(st, map[string]*Term{"$pos": mkInt(int64(p)), "$begun": tZero})
				return one(st, it), true
			case "first":
				return one(st, k.keys[0]), true
			case "last":
				return one(st, k.keys[k.total()-1]), true
			case "find":
				p, ok := k.begins(e, st, cc.Args[1])
				if !ok || p >= k.total() {
					return k.bad(k.rule, e, cc.Pos, "what is found is not decided by the key")
				}
				return one(st, e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, k.keys[p]), mkApp("unit", nil, k.ptrs[p])))), true
			}
			return k.bad(k.rule, e, cc.Pos, "the tree is asked for something unknown: "+name)
		case cc.Fn != nil && strings.HasSuffix(cc.Fn.Name, "TraversalIterator)."+name):
			p, ok := posOf(e, st, recv())
			if !ok {
				return k.bad(k.rule, e, cc.Pos, "an iterator is not one of the tree of the field")
			}
			begun := e.tsGet(st, recv(), "$begun", tsNumT) == tOne
			switch name {
			case "next", "prev":
				switch {
				case name == "prev":
					p--
				case begun:
					p++
				}
				if p < -1 || p > k.total() {
					return k.bad(k.rule, e, cc.Pos, "an iterator is moved on after its end")
				}
				set(e, st, recv(), p)
				return one(st, mkBool(p >= 0 && p < k.total())), true
			case "getKey", "getPointer":
				if !begun || p < 0 || p >= k.total() {
					return k.bad(k.rule, e, cc.Pos, "an iterator is asked for an entry it is not at")
				}
				if name == "getKey" {
					return one(st, k.keys[p]), true
				}
				return one(st, k.ptrs[p]), true
			}
			return k.bad(k.rule, e, cc.Pos, "an iterator is asked for something unknown: "+name)
		case name == "compareBytes" && len(cc.Args) == 2:
			x, y := unbox(cc.Args[0]), unbox(cc.Args[1])
			flip := int64(1)
			if x == qt("value", tsAnyT) {
				x, y, flip = y, x, -1
			}
			i, ok := k.values[x]
			if !ok || y != qt("value", tsAnyT) {
				return k.bad(k.rule, e, cc.Pos, "what is compared is not the value of an entry and that of the condition")
			}
			if s := int64(k.class(i)); s != 0 {
				r := mkSym("sign", tsNumT)
				st.facts.assume(tLt(tZero, tMul(mkInt(s*flip), r)))
				return one(st, r), true
			}
			return one(st, tZero), true
		case name == "get" && recv() == qt("dataFile", tsObjP):
			lo, hi := tsNumOf(cc.Args[1]), tsNumOf(cc.Args[2])
			i, ok := k.at[lo]
			if !ok || !st.facts.implied(tEq(hi, tAddK(tAdd(lo, qt(fmt.Sprintf("length%d", i), tsNumT)), -1))) {
				return k.bad("source", e, cc.Pos, "what is read is not the record of an entry from its first to its last byte")
			}
			k.good("source", cc.Pos)
			return one(st, qt(fmt.Sprintf("data%d", i), tsAnyT)), true
		case name == "handleSelect":
			sel := unbox(cc.Args[1])
			ok := sel == qt("select", tsArrP) || sel == tNil && st.facts.implied(tEq(qt("select", tsArrP), tNil)) || sel != nil && k.selects(e, st, sel)
			if !ok {
				return k.bad("source", e, cc.Pos, "a record is put through another selection than the one asked for")
			}
			return one(st, mkApp("selected", tsAnyT, unbox(cc.Args[0]))), true
		}
		return inner(e, st, cc)
	}
	return cl
}

// selects: a copy of the selection asked for.
func (k *queryCase) selects(e *Engine, st *State, sel *Term) bool {
	if sel.op != TObj && sel.op != TSym {
		return false
	}
	items := e.tsItems(st, sel)
	want := e.tsItems(st, qt("select", tsArrP))
	return seqSame(st.facts, e.sliceSeq(st, items, tsAnyT), e.sliceSeq(st, want, tsAnyT))
}

// setup makes the database, the entries and the query.
func (k *queryCase) setup(e *Engine, st *State) (db *Term) {
	k.values, k.dps, k.at = map[*Term]int{}, map[*Term]int{}, map[*Term]int{}
	k.keys, k.ptrs = nil, nil
	for i := 0; i < k.total(); i++ {
		n := func(s string, t *Type) *Term { return qt(fmt.Sprintf("%s%d", s, i), t) }
		v := n("value", tsAnyT)
		k.values[v] = i
		d := e.tsObject(st, map[string]*Term{"offset": rng(n("fieldoffset", tsNumT), 0, 1<<50), "length": rng(n("fieldlength", tsNumT), 1, 1<<30)})
		k.dps[d] = i
		k.keys = append(k.keys, e.tsObject(st, map[string]*Term{"value": v, "dataPointer": d}))
		off := rng(n("offset", tsNumT), 0, 1<<50)
		k.at[off] = i
		k.ptrs = append(k.ptrs, e.tsObject(st, map[string]*Term{"offset": off, "length": rng(n("length", tsNumT), 1, 1<<30)}))
	}
	f := k.q.ts.fn("Database.constructor")
	db = mkObj("database", tsObjP)
	for _, r := range []string{"indexresolver", "dataresolver"} {
		st.facts.assume(tNot(tEq(qt(r, tsFuncT), tNil)))
	}
	args := []*Term{db}
	for i := 1; i < len(f.ParamT); i++ {
		t := qt("dataFile", tsObjP)
		if strings.Contains(strings.ToLower(paramName(f, i)), "index") {
			t = qt("indexFile", tsObjP)
		}
		args = append(args, t)
	}
	for _, o := range e.Run(f, args, nil, st) {
		if !o.panic {
			*st = *o.st
		}
	}
	return db
}

func (k *queryCase) run(how string) {
	c, ts := k.q.c, k.q.ts
	k.rule = "query"
	ord := k.ord
	if ord == "" {
		ord = "no order"
	}
	k.con = fmt.Sprintf("%s, %s, %d smaller, %d equal, %d larger", k.op, ord, k.n[0], k.n[1], k.n[2])
	if k.unknown {
		k.rule, k.con = "unknown", k.op+" on a field not in the index"
	}
	if how != "" {
		k.rule = "builder"
		k.con = fmt.Sprintf("%s, %s, by %s", k.op, ord, how)
	}
	e := newEngine(ts.GoProg, k.client())
	st := newState()
	db := k.setup(e, st)
	arr := func(xs ...*Term) *Term {
		var ps []*Term
		for _, x := range xs {
			ps = append(ps, mkApp("unit", nil, x))
		}
		return e.tsArray(st, mkApp("cat", nil, ps...))
	}
	run := func(in []Outcome, f *Func, args ...*Term) []Outcome {
		var out []Outcome
		for _, o := range in {
			if o.panic || !o.st.facts.satisfiable() {
				out = append(out, o)
				continue
			}
			as := append([]*Term{}, args...)
			if as[0] == nil {
				as[0] = unbox(o.res[0])
			}
			out = append(out, e.Run(f, as, nil, o.st)...)
		}
		return out
	}
	field := mkStr("field")
	var outs []Outcome
	if how == "" {
		fields := map[string]*Term{"search": tNil, "limit": tNil, "orderBy": tNil, "select": qt("select", tsArrP)}
		if k.ord != "" {
			fields["orderBy"] = arr(e.tsObject(st, map[string]*Term{"key": field, "direction": mkStr(k.ord)}))
		}
		fields["where"] = arr(e.tsObject(st, map[string]*Term{"key": field, "value": qt("operand", tsAnyT), "operation": mkStr(k.op)}))
		outs = e.Run(ts.fn("Database.query"), []*Term{db, e.tsObject(st, fields)}, nil, st)
	} else {
		where := []*Term{nil, field, mkStr(k.op), qt("operand", tsAnyT)}
		if how == "where, orderBy, select" {
			where[0] = db
			outs = e.Run(ts.fn("Database.where"), where, nil, st)
			if k.ord != "" {
				outs = run(outs, ts.fn("QueryBuilder.orderBy"), nil, field, mkStr(k.ord))
			}
			outs = run(outs, ts.fn("QueryBuilder.select"), nil, qt("select", tsArrP))
		} else {
			b := mkObj("builder", tsObjP)
			for _, o := range e.Run(ts.fn("QueryBuilder.constructor"), []*Term{b, db}, nil, st) {
				o.res = []*Term{b}
				outs = append(outs, o)
			}
			outs = run(outs, ts.fn("QueryBuilder.select"), nil, qt("select", tsArrP))
			if k.ord != "" {
				outs = run(outs, ts.fn("QueryBuilder.orderBy"), nil, field, mkStr(k.ord))
			}
			outs = run(outs, ts.fn("QueryBuilder.where"), where...)
		}
		outs = run(outs, ts.fn("QueryBuilder.get"), nil)
	}
	n := 0
	for _, o := range outs {
		if !o.st.facts.satisfiable() {
			continue
		}
		n++
		if k.unknown {
			c.Obl(k.rule, k.con, o.panic, o.pos, "the query does not throw")
			continue
		}
		if o.panic {
			c.Obl(k.rule, k.con, false, o.pos, "the query throws")
			continue
		}
		var got []string
		pos := o.pos
		for _, ev := range evsOf(o.st, "yield") {
			got = append(got, k.record(ev.A[0]))
			pos = ev.Pos
		}
		if how != "" || !ts.fn("Database.query").Gen {
			got = nil
			for _, p := range seqPieces(e.sliceSeq(o.st, e.tsItems(o.st, unbox(o.res[0])), tsAnyT)) {
				if p.op == TApp && p.s == "unit" {
					got = append(got, k.record(p.args[0]))
				} else {
					got = append(got, "?")
				}
			}
		}
		ok := false
		for _, rev := range []bool{false, true} {
			if rev && k.op != "==" {
				continue
			}
			w := k.want()
			if rev {
				for a, b := 0, len(w)-1; a < b; a, b = a+1, b-1 {
					w[a], w[b] = w[b], w[a]
				}
			}
			var s []string
			for _, i := range w {
				s = append(s, fmt.Sprint(i))
			}
			ok = ok || strings.Join(s, " ") == strings.Join(got, " ")
		}
		c.Obl(k.rule, k.con, ok, pos, fmt.Sprintf("the query yields entries [%s], but should yield %v", strings.Join(got, " "), k.want()))
	}
	c.Obl(k.rule, k.con, n > 0, ts.fn("Database.query").Pos, "the query never ends")
	c.Problems(e, k.con)
}

// record is the number of the entry a value yielded is the record of.
func (k *queryCase) record(v *Term) string {
	v = unbox(v)
	if v.op == TApp && v.s == "selected" {
		for i := 0; i < k.total(); i++ {
			if unbox(v.args[0]) == qt(fmt.Sprintf("data%d", i), tsAnyT) {
				return fmt.Sprint(i)
			}
		}
	}
	return "?"
}
