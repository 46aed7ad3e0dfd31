package main

// C17: a value means the same where it is indexed, read back and asked for.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C17",
		Title: "a value is the same key wherever it is indexed, read back and asked for",
		Rules: "The bytes Go's JSON handler yields for a string, number, true, false and null (JSONLHandler.Parse, run symbolically on a decoder that yields the value) are the reference. (query) processWhere gives a string, number, bigint, boolean or null value of a condition exactly those bytes and the number of the field type of the value. (read) a key kept by reference in a node of an index of that type over a JSON Lines file is, after the client's node reader, exactly those bytes of the value its place in the data file holds; a type without keys is refused. (csv) a text column's key is the text itself, in CSVHandler.Parse and in the client. (seek) on every list of one to three pages with arbitrary names and types, the client finds exactly the pages of the field whose type is the one asked for (any number type, if a number is asked for), in order, whatever was asked before. (headers) it reports each field once with all its types. (select) a record read is the parsed text, or its fields named in the selection as far as it has them.",
		Trust: []string{"Go type checker and go/ssa construction", "TypeScript parser and type checker", "encoding/json and JSON.parse agree on the value of a text", "TextEncoder and Go strings are UTF-8", "numbers are the same IEEE double on both sides"},
		Run:   runC17,
	})
}

type values struct {
	c  *Ctx
	ts *TSProg
	g  *GoProg
}

func runC17(c *Ctx) {
	v := &values{c, c.TS(), c.Prog("", "linux")}
	v.queryRule()
	v.readRule()
	v.csvRule()
	v.seekRule()
	v.headersRule()
	v.selectRule()
}

type valueKind struct {
	name, typ string
}

var valueKinds = []valueKind{{"string", "String"}, {"number", "Float64"}, {"true", "Boolean"}, {"false", "Boolean"}, {"null", "Null"}}

// tsValue is a value of the kind on the client's side, and its typeof.
func (v *values) tsValue(k valueKind, tag string) (*Term, string) {
	switch k.name {
	case "string":
		return mkNamed("text:"+tag, tStrT), "string"
	case "number":
		return mkNamed("number:"+tag, tsNumT), "number"
	case "true":
		return tTrue, "boolean"
	case "false":
		return tFalse, "boolean"
	}
	return tNil, "object"
}

// goBytes runs Go's parser on a text with that value.
func (v *values) goBytes(k valueKind, tag string) (*Term, *Func, string) {
	f := v.g.method("handlers", "JSONLHandler", "Parse")
	if f == nil {
		return nil, nil, "JSONLHandler.Parse was not found"
	}
	v.c.Fn(f)
	x, _ := v.tsValue(k, tag)
	var tok *Term
	switch k.name {
	case "string":
		tok = mkIface(v.g.typ(types.Typ[types.String]), x)
	case "number":
		tok = mkIface(v.g.typ(types.Typ[types.Float64]), x)
	case "true", "false":
		tok = mkIface(v.g.typ(types.Typ[types.Bool]), x)
	default:
		tok = tNil
	}
	use := false
	cl := &Client{Unroll: 12, Inline: func(f *Func) bool { return f.Pkg == "handlers" }}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		switch {
		case cc.Name == "encoding/json.NewDecoder":
			return one(st, mkNamed("nonnil:decoder", resultTypes(cc.In)[0])), true
		case strings.HasPrefix(cc.Name, "(*encoding/json.Decoder).") && cc.Short == "UseNumber":
			use = true
			return one(st), true
		case strings.HasPrefix(cc.Name, "(*encoding/json.Decoder).") && cc.Short == "Token":
			if use && k.name == "number" {
				t := v.g.namedT("json.Number")
				if t == nil {
					return nil, false
				}
				return one(st, mkIface(t, mkNamed("digits", t)), tNil), true
			}
			return one(st, tok, tNil), true
		case cc.Name == "(encoding/json.Number).Float64":
			return one(st, x, tNil), true
		}
		return nil, false
	}
	e := newEngine(v.g, cl)
	var got *Term
	st := newState()
	args := symArgs(f)
	for _, o := range e.Run(f, args, nil, st) {
		if !o.st.facts.satisfiable() {
			continue
		}
		if o.panic || len(o.res) != 1 {
			return nil, f, "Go's parser panics on a " + k.name
		}
		s := e.sliceSeq(o.st, o.res[0], byteT)
		if got != nil && !seqSame(o.st.facts, got, s) {
			return nil, f, "Go's parser yields several keys for a " + k.name
		}
		got = s
	}
	if got == nil || len(e.problems) > 0 {
		v.c.Problems(e, f.Name)
		return nil, f, "Go's parser yields no key for a " + k.name
	}
	return got, f, ""
}

func (v *values) fieldType(name string) (int64, bool) {
	t := v.g.namedT("appendable.FieldType")
	if t == nil {
		return 0, false
	}
	n, ok := v.g.goEnum(t, "FieldType")[name]
	return n, ok
}

// typeofClient answers typeof for a value.
func (v *values) typeofClient(val *Term, typeof string) *Client {
	cl := v.c.tsClient(v.ts)
	inner := cl.Call
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		switch {
		case cc.Name == "ts:typeof" && unbox(cc.Args[0]) == val:
			return one(st, mkStr(typeof)), true
		case (cc.Name == "ts:Number" || cc.Name == "ts:parseFloat") && len(cc.Args) == 1 && unbox(cc.Args[0]) == val && (typeof == "number" || typeof == "bigint"):
			return one(st, val), true
		case cc.Name == "ts:truthy" && unbox(cc.Args[0]) == val && val.op == TBool:
			return one(st, val), true
		}
		return inner(e, st, cc)
	}
	return cl
}

func (v *values) queryRule() {
	c := v.c
	f := v.ts.fn("processWhere")
	if f == nil {
		c.Missing("query", "processWhere")
		return
	}
	c.Fn(f)
	kinds := append([]valueKind{}, valueKinds...)
	for i := 0; i <= len(kinds); i++ {
		k := valueKind{"number", "Float64"}
		typeof := "bigint"
		val, _ := v.tsValue(k, "q")
		if i < len(kinds) {
			k = kinds[i]
			val, typeof = v.tsValue(k, "q")
		}
		con := k.name
		if typeof == "bigint" {
			con = typeof
		}
		want, gf, msg := v.goBytes(k, "q")
		num, ok := v.fieldType(k.typ)
		if want == nil || !ok {
			pos := f.Pos
			if gf != nil {
				pos = gf.Pos
			}
			c.Obl("query", con, false, pos, msg)
			continue
		}
		e := newEngine(v.ts.GoProg, v.typeofClient(val, typeof))
		n := 0
		st := newState()
		if val != tNil {
			st.facts.assume(tNot(tEq(val, tNil)))
		}
		for _, o := range e.Run(f, []*Term{val}, nil, st) {
			if !o.st.facts.satisfiable() {
				continue
			}
			n++
			if o.panic || unbox(o.res[0]) == tNil {
				c.Obl("query", con, false, o.pos, "the value is refused")
				continue
			}
			r := unbox(o.res[0])
			ft := e.tsGet(o.st, r, "fieldType", tsNumT)
			c.Obl("query", con, o.st.facts.implied(tEq(tsNumOf(ft), mkInt(num))), o.pos, fmt.Sprintf("the type is %v, Go's indexes of such values have type %d", ft, num))
			got := e.sliceSeq(o.st, unbox(e.tsGet(o.st, r, "valueBuf", tsBytesT)), byteT)
			c.Obl("query", con, seqSame(o.st.facts, got, want), o.pos, fmt.Sprintf("the key is %v, Go's is %v", got, want))
		}
		c.Obl("query", con, n > 0, f.Pos, "no key is made")
		c.Problems(e, con)
	}
	c.Min("query", 5)
}

// readRule: a node of one key by reference is read back.
func (v *values) readRule() {
	c := v.c
	rd := v.ts.fn("BPTreeNode.fromMemoryPointer")
	if rd == nil {
		c.Missing("read", "BPTreeNode.fromMemoryPointer")
		return
	}
	c.Fn(rd)
	for _, k := range valueKinds {
		want, gf, msg := v.goBytes(k, "r")
		num, ok := v.fieldType(k.typ)
		if want == nil || !ok {
			pos := rd.Pos
			if gf != nil {
				pos = gf.Pos
			}
			c.Obl("read", k.name, false, pos, msg)
			continue
		}
		val, typeof := v.tsValue(k, "r")
		v.readBack(rd, "read", k.name, num, "JSONL", val, typeof, want)
	}
	for _, t := range []string{"Object", "Array"} {
		if num, ok := v.fieldType(t); ok {
			v.readBack(rd, "read", t, num, "JSONL", mkNamed("thing", tsObjP), "object", nil)
		}
	}
	c.Min("read", 5)
}

func (v *values) readBack(rd *Func, rule, con string, num int64, format string, val *Term, typeof string, want *Term) {
	c := v.c
	treeR, dataR := mkNamed("arg:tree", tsFuncT), mkNamed("arg:data", tsFuncT)
	off, n := rng(mkNamed("key:offset", tsNumT), 0, 1<<53-1), rng(mkNamed("key:length", tsNumT), 1, 1<<31)
	text := seqVar("text", n)
	cl := v.typeofClient(val, typeof)
	inner := cl.Call
	cl.Unroll, cl.Follow = 16, true
	uv := func(x *Term) *Term {
		return seqVarApp(mkApp("uvarintbytes", nil, x), varintLen(x))
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Name == "dynamic" && len(cc.Args) == 1 && (unbox(cc.Callee) == treeR || unbox(cc.Callee) == dataR) {
			arr := unbox(cc.Args[0])
			a, b, ok := e.tsRange(st, arr, 0)
			if m, _ := constI(st.facts.norm(lenOf(e.tsItems(st, arr)))); !ok || m != 1 {
				return nil, false
			}
			var x *Term
			if unbox(cc.Callee) == treeR {
				x = e.seqCat(st.facts, seqVarApp(mkApp("le4", nil, mkInt(1<<32-1)), mkInt(4)), uv(off), uv(n), uv(rng(mkNamed("record:offset", tsNumT), 0, 1<<53-1)), uv(rng(mkNamed("record:length", tsNumT), 0, 1<<31)), seqVar("page:rest", rng(mkNamed("rest", tsNumT), 1, 4096)))
			} else {
				ok := st.facts.implied(tEq(tsNumOf(a), off)) && st.facts.implied(tEq(tsNumOf(b), tAddK(tAdd(off, n), -1)))
				if !ok {
					c.Obl(rule, con, e.dry > 0, cc.Pos, fmt.Sprintf("the text of the key is not read from its place: %v %v", a, b))
					return nil, true
				}
				x = text
			}
			o := e.tsObject(st, map[string]*Term{"data": e.newSlice(st, "resolved", byteT, x), "totalLength": mkSym("total", tsNumT)})
			return one(st, e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, o)))), true
		}
		if cc.Name == "ts:JSON.parse" {
			x := unbox(cc.Args[0])
			if x.op == TApp && x.s == "stringof" && seqSame(st.facts, x.args[len(x.args)-1], text) {
				return one(st, val), true
			}
		}
		return inner(e, st, cc)
	}
	e := newEngine(v.ts.GoProg, cl)
	st := newState()
	if val != tNil {
		st.facts.assume(tNot(tEq(val, tNil)))
	}
	args := symArgs(rd)
	fns, ints := []*Term{treeR, dataR}, []*Term{mkInt(v.ts.enums["FileFormat"][format]), mkInt(num), tZero}
	for i, p := range rd.ParamT {
		switch {
		case p == tsFuncT && len(fns) > 0:
			args[i], fns = fns[0], fns[1:]
		case p == tsNumT && len(ints) > 0:
			args[i], ints = ints[0], ints[1:]
		case p == tsObjP:
			args[i] = e.tsObject(st, map[string]*Term{"offset": mkInt(4096), "length": mkSym("length", tsNumT)})
		}
	}
	if len(fns)+len(ints) > 0 {
		c.Missing(rule, "the parameters of "+rd.Name)
		return
	}
	k := 0
	for _, o := range e.Run(rd, args, nil, st) {
		if !o.st.facts.satisfiable() {
			continue
		}
		k++
		if want == nil {
			c.Obl(rule, con, o.panic, o.pos, "a key is made up for a value that has none")
			continue
		}
		if o.panic {
			c.Obl(rule, con, false, o.pos, "the key is refused")
			continue
		}
		node := unbox(e.tsGet(o.st, unbox(o.res[0]), "node", tsObjP))
		ks := e.answers(o.st, e.tsGet(o.st, node, "keys", tsArrP))
		if len(ks) != 1 {
			c.Obl(rule, con, false, o.pos, "the node does not have its one key")
			continue
		}
		got := e.sliceSeq(o.st, unbox(e.tsGet(o.st, ks[0], "value", tsBytesT)), byteT)
		c.Obl(rule, con, seqSame(o.st.facts, got, want), o.pos, fmt.Sprintf("the key is %v, Go's is %v", got, want))
	}
	c.Obl(rule, con, k > 0, rd.Pos, "no node is read")
	c.Problems(e, con)
}

// csvRule: the text of a column is neither a number nor a truth value (the
// width of the indexes of those is C16's).
func (v *values) csvRule() {
	c := v.c
	rd := v.ts.fn("BPTreeNode.fromMemoryPointer")
	f := v.g.method("handlers", "CSVHandler", "Parse")
	if f == nil || rd == nil {
		c.Missing("csv", "CSVHandler.Parse and BPTreeNode.fromMemoryPointer")
		return
	}
	c.Fn(f)
	n := rng(mkNamed("key:length", tsNumT), 1, 1<<31)
	text := seqVar("text", n)
	for _, k := range []valueKind{{"text", "String"}} {
		num, ok := v.fieldType(k.typ)
		if !ok {
			continue
		}
		x, _ := v.tsValue(valueKind{name: k.name}, "r")
		cl := &Client{Unroll: 12, Inline: func(f *Func) bool { return f.Pkg == "handlers" }}
		cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
			give := func(ok bool, val *Term) ([]Outcome, bool) {
				if !ok {
					return one(st, zeroTerm(resultTypes(cc.In)[0]), freshErr("parse")), true
				}
				return one(st, val, tNil), true
			}
			switch cc.Name {
			case "strconv.Atoi", "strconv.ParseInt":
				return give(false, nil)
			case "strconv.ParseFloat":
				return give(k.name == "number", x)
			case "strconv.ParseBool":
				return give(k.typ == "Boolean", x)
			}
			return nil, false
		}
		e := newEngine(v.g, cl)
		st := newState()
		args := symArgs(f)
		args[len(args)-1] = e.newSlice(st, "text", byteT, text)
		str := mkApp("stringof", tStrT, args[len(args)-1], text)
		st.facts.assume(tNot(tEq(str, mkStr(""))))
		var want *Term
		for _, o := range e.Run(f, args, nil, st) {
			if o.panic || !o.st.facts.satisfiable() {
				continue
			}
			want = e.sliceSeq(o.st, o.res[0], byteT)
			if seqSame(o.st.facts, want, strSeq(str)) {
				want = text
			}
		}
		c.Problems(e, "csv: "+k.name)
		if want == nil {
			c.Obl("csv", k.name, false, f.Pos, "Go's parser yields no key")
			continue
		}
		v.readBack(rd, "csv", k.name, num, "CSV", mkNamed("thing", tsObjP), "object", want)
	}
	c.Min("csv", 1)
}

// pages is a list of index pages behind the file's page.
type pages struct {
	v     *values
	names []*Term
	types []*Term
}

func (p *pages) page(i int) *Term { return mkNamed(fmt.Sprintf("page%d", i), tsObjP) }

func (p *pages) client() *Client {
	cl := p.v.c.tsClient(p.v.ts)
	cl.Paths = len(p.names) + 2
	inner := cl.Call
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Name == "ts:truthy" {
			for i := range p.names {
				if unbox(cc.Args[0]) == p.page(i) {
					return one(st, tTrue), true
				}
			}
		}
		if cc.Fn != nil || strings.HasPrefix(cc.Name, "ts:invoke.") {
			name := cc.Name[strings.LastIndexAny(cc.Name, ".)")+1:]
			at := -1 // the page of the file
			if len(cc.Args) > 0 {
				for i := range p.names {
					if unbox(cc.Args[0]) == p.page(i) {
						at = i
					}
					if unbox(cc.Args[0]) == mkNamed(fmt.Sprintf("pagemeta%d", i), tsBytesT) {
						at = i
					}
				}
			}
			meta := strings.HasSuffix(cc.Name, "LinkedMetaPage).metadata") || cc.Name == "ts:invoke.metadata"
			next := strings.HasSuffix(cc.Name, "LinkedMetaPage).next") || cc.Name == "ts:invoke.next"
			switch {
			case next:
				if at+1 >= len(p.names) {
					return one(st, tNil), true
				}
				st.facts.assume(tNot(tEq(p.page(at+1), tNil)))
				return one(st, p.page(at+1)), true
			case meta && at >= 0:
				return one(st, mkNamed(fmt.Sprintf("pagemeta%d", at), tsBytesT)), true
			case name == "readIndexMeta" && at >= 0:
				return one(st, e.tsObject(st, map[string]*Term{"fieldName": p.names[at], "fieldType": p.types[at], "width": mkSym("width", tsNumT), "totalFieldValueLength": mkSym("total", tsNumT)})), true
			}
		}
		return inner(e, st, cc)
	}
	return cl
}

// tsLists is what the lists hold: states in which it differs stay apart.
func (e *Engine) tsLists(st *State) string {
	var ks []string
	for a, l := range st.mem {
		if a.op == TFld && strings.HasSuffix(a.s, "$items") {
			b, off, n := sliceParts(l)
			ks = append(ks, fmt.Sprintf("|%d=%d+%d:%d", a.id, e.seqOf(st, b, tsAnyT).id, off.id, n.id))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "")
}

func (v *values) indexFile(rule string) (*Func, func(e *Engine, st *State) []Outcome) {
	mk := v.ts.fn("IndexFile.forResolver")
	if mk == nil {
		v.c.Missing(rule, "IndexFile.forResolver")
		return nil, nil
	}
	return mk, func(e *Engine, st *State) []Outcome {
		return e.Run(mk, []*Term{mkNamed("under", tsFuncT)}, nil, st)
	}
}

func (v *values) seekRule() {
	c := v.c
	f := v.ts.fn("IndexFileV1.seek")
	_, mk := v.indexFile("seek")
	if f == nil || mk == nil {
		c.Missing("seek", "IndexFileV1.seek")
		return
	}
	c.Fn(f)
	max := 3
	if c.thorough() {
		max = 4
	}
	numeric := map[int64]bool{}
	for _, t := range []string{"Float64", "Int64", "Uint64"} {
		if n, ok := v.fieldType(t); ok {
			numeric[n] = true
		}
	}
	// every type, and a few where there are too many combinations
	all := []int64{1 << 10}
	for _, x := range v.g.goEnum(v.g.namedT("appendable.FieldType"), "FieldType") {
		all = append(all, x)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	var some []int64
	for _, t := range []string{"Float64", "Int64", "Uint64", "String", "Trigram"} {
		if n, ok := v.fieldType(t); ok {
			some = append(some, n)
		}
	}
	for k := 1; k <= max; k++ {
		for _, t := range []string{"String", "Float64", "Boolean", "Null", "Trigram", "Bigram", "Unigram"} {
			num, ok := v.fieldType(t)
			if !ok {
				continue
			}
			for again := 0; again < 2; again++ {
				if again == 1 && (k != 2 || t == "Null") {
					continue
				}
				con := fmt.Sprintf("%s among %d pages", t, k)
				if again == 1 {
					con += ", asked before"
				}
				dom := all
				if k > 2 {
					dom = []int64{num}
					for _, x := range some {
						if x != num {
							dom = append(dom, x)
						}
					}
				}
				types := make([]int64, k)
				var each func(i int)
				each = func(i int) {
					if i == k {
						v.seekOne(f, mk, con, num, types, again == 1, numeric)
						return
					}
					for _, x := range dom {
						types[i] = x
						each(i + 1)
					}
				}
				each(0)
			}
		}
	}
	c.Min("seek", 10)
}

// seekOne searches pages of these types and of any names.
func (v *values) seekOne(f *Func, mk func(e *Engine, st *State) []Outcome, con string, num int64, types []int64, again bool, numeric map[int64]bool) {
	c := v.c
	field := mkNamed("field", tStrT)
	p := &pages{v: v}
	for i, t := range types {
		p.names = append(p.names, mkNamed(fmt.Sprintf("name%d", i), tStrT))
		p.types = append(p.types, mkInt(t))
	}
	cl := p.client()
	e := newEngine(v.ts.GoProg, cl)
	cl.MergeKey = func(st *State) string {
		k := e.tsLists(st)
		tell := func(t *Term) {
			switch {
			case st.facts.implied(t):
				k += "y"
			case st.facts.refuted(t):
				k += "n"
			default:
				k += "?"
			}
		}
		for i := range p.names {
			tell(tEq(p.names[i], field))
		}
		return k
	}
	n := 0
	var run func(o Outcome, self *Term, first bool)
	run = func(o Outcome, self *Term, first bool) {
		if !o.st.facts.satisfiable() {
			return
		}
		if o.panic {
			c.Obl("seek", con, false, o.pos, "the search for a page throws")
			return
		}
		if first {
			for _, o := range e.Run(f, []*Term{self, field, mkInt(num)}, nil, o.st) {
				run(o, self, false)
			}
			return
		}
		n++
		v.judgeSeek(e, p, o, con, field, num, numeric)
	}
	for _, o := range mk(e, newState()) {
		if o.panic || len(o.res) == 0 {
			c.Obl("seek", con, false, o.pos, "no index file is made")
			continue
		}
		self := unbox(o.res[0])
		if !again {
			run(o, self, true)
			continue
		}
		null, _ := v.fieldType("Null")
		for _, o := range e.Run(f, []*Term{self, field, mkInt(null)}, nil, o.st) {
			run(o, self, true)
		}
	}
	c.Obl("seek", con, n > 0, f.Pos, "the search for a page never ends")
	c.Problems(e, con)
}

func (v *values) judgeSeek(e *Engine, p *pages, o Outcome, con string, field *Term, num int64, numeric map[int64]bool) {
	got := e.answers(o.st, o.res[0])
	last := -1
	found := map[int]bool{}
	for _, g := range got {
		at := -1
		for i := range p.names {
			if g == p.page(i) {
				at = i
			}
		}
		if at <= last {
			v.c.Obl("seek", con, false, o.pos, "a page is found twice, out of order, or is none of the index")
			return
		}
		last = at
		found[at] = true
	}
	for i := range p.names {
		var want []int64
		if numeric[num] {
			for t := range numeric {
				want = append(want, t)
			}
		} else {
			want = []int64{num}
		}
		if found[i] {
			st := o.st.clone()
			for _, t := range want {
				st.facts.assume(tNot(tEq(p.types[i], mkInt(t))))
			}
			v.c.Obl("seek", con, o.st.facts.implied(tEq(p.names[i], field)) && !st.facts.satisfiable(), o.pos, "a page of another field or type is found")
			continue
		}
		for _, t := range want {
			st := o.st.clone()
			st.facts.assume(tEq(p.names[i], field))
			st.facts.assume(tEq(p.types[i], mkInt(t)))
			v.c.Obl("seek", con, !st.facts.satisfiable(), o.pos, "a page of the field and type is not found")
		}
	}
}

// headersRule: fields with all their types, in every pattern of names.
func (v *values) headersRule() {
	c := v.c
	f := v.ts.fn("IndexFileV1.indexHeaders")
	_, mk := v.indexFile("headers")
	if f == nil || mk == nil {
		c.Missing("headers", "IndexFileV1.indexHeaders")
		return
	}
	c.Fn(f)
	sk := v.ts.fn("IndexFileV1.seek")
	for _, pat := range []string{"a", "aa", "ab", "aaa", "aab", "aba", "abb", "abc", "abab", "abca"} {
		for again := 0; again < 3; again++ {
			con := "fields " + pat + []string{"", ", asked before", ", after a search"}[again]
			if again == 2 && (len(pat) == 1 || sk == nil) {
				continue
			}
			p := &pages{v: v}
			order := []string{}
			want := map[string][]*Term{}
			for i, r := range pat {
				nm := string(r)
				t := rng(mkNamed(fmt.Sprintf("type%d", i), tsNumT), 0, 15)
				p.names, p.types = append(p.names, mkStr(nm)), append(p.types, t)
				if want[nm] == nil {
					order = append(order, nm)
				}
				want[nm] = append(want[nm], t)
			}
			cl := p.client()
			e := newEngine(v.ts.GoProg, cl)
			cl.MergeKey = e.tsLists
			n := 0
			for _, o := range mk(e, newState()) {
				if o.panic || len(o.res) == 0 {
					continue
				}
				self := unbox(o.res[0])
				var outs []Outcome
				if again < 2 {
					outs = e.Run(f, []*Term{self}, nil, o.st)
				} else {
					str, _ := v.fieldType("String")
					outs = e.Run(sk, []*Term{self, mkStr("a"), mkInt(str)}, nil, o.st)
				}
				if again > 0 {
					var more []Outcome
					for _, o := range outs {
						if !o.panic {
							more = append(more, e.Run(f, []*Term{self}, nil, o.st)...)
						}
					}
					outs = more
				}
				for _, o := range outs {
					if !o.st.facts.satisfiable() {
						continue
					}
					n++
					if o.panic {
						c.Obl("headers", con, false, o.pos, "the fields are refused")
						continue
					}
					got := e.answers(o.st, o.res[0])
					ok := len(got) == len(order)
					seen := map[string]bool{}
					for _, h := range got {
						nm := unbox(e.tsGet(o.st, h, "fieldName", tStrT))
						if nm.op != TStr || seen[nm.s] || want[nm.s] == nil {
							ok = false
							continue
						}
						seen[nm.s] = true
						ts := e.answers(o.st, e.tsGet(o.st, h, "fieldTypes", tsArrP))
						ok = ok && len(ts) == len(want[nm.s])
						// in any order
						used := map[*Term]bool{}
						for _, t := range ts {
							used[tsNumOf(t)] = true
						}
						for _, t := range want[nm.s] {
							ok = ok && used[t]
						}
					}
					c.Obl("headers", con, ok, o.pos, "the fields of the index are not each reported once with all their types")
				}
			}
			c.Obl("headers", con, n > 0, f.Pos, "the fields are never reported")
			c.Problems(e, con)
		}
	}
	c.Min("headers", 5)
}

// selectRule: a record of the fields a and b.
func (v *values) selectRule() {
	c := v.c
	f := v.ts.fn("handleSelect")
	if f == nil {
		c.Missing("select", "handleSelect")
		return
	}
	c.Fn(f)
	text := mkNamed("recordtext", tStrT)
	fa, fb := mkNamed("field a", tsAnyT), mkNamed("field b", tsAnyT)
	for _, sel := range []string{"none", "", "a", "b", "ab", "ba", "c", "ac", "cb"} {
		con := "selection of " + sel
		cl := c.tsClient(v.ts)
		cl.Paths = 4
		inner := cl.Call
		var rec *Term
		cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
			switch {
			case cc.Name == "ts:JSON.parse" && unbox(cc.Args[0]) == text:
				if rec == nil {
					rec = e.tsObject(st, map[string]*Term{"a": fa, "b": fb})
				}
				return one(st, rec), true
			case (cc.Name == "ts:in" || cc.Name == "ts:Object.hasOwn") && len(cc.Args) == 2:
				k, o := unbox(cc.Args[0]), unbox(cc.Args[1])
				if cc.Name != "ts:in" {
					k, o = o, k
				}
				if k.op == TStr && o == rec {
					return one(st, mkBool(k.s == "a" || k.s == "b")), true
				}
			case strings.HasSuffix(cc.Name, "hasOwnProperty.call") && len(cc.Args) == 3 && unbox(cc.Args[1]) == rec:
				if k := unbox(cc.Args[2]); k.op == TStr {
					return one(st, mkBool(k.s == "a" || k.s == "b")), true
				}
			case strings.HasSuffix(cc.Name, ".hasOwnProperty") && len(cc.Args) == 2 && unbox(cc.Args[0]) == rec:
				if k := unbox(cc.Args[1]); k.op == TStr {
					return one(st, mkBool(k.s == "a" || k.s == "b")), true
				}
			}
			return inner(e, st, cc)
		}
		e := newEngine(v.ts.GoProg, cl)
		st := newState()
		arg := tNil
		if sel != "none" {
			var ps []*Term
			for _, r := range sel {
				ps = append(ps, mkApp("unit", nil, mkStr(string(r))))
			}
			arg = e.tsArray(st, mkApp("cat", nil, ps...))
		}
		n := 0
		for _, o := range e.Run(f, []*Term{text, arg}, nil, st) {
			if !o.st.facts.satisfiable() {
				continue
			}
			n++
			if o.panic {
				c.Obl("select", con, false, o.pos, "the record is refused")
				continue
			}
			r := unbox(o.res[0])
			if sel == "none" || sel == "" {
				c.Obl("select", con, rec != nil && r == rec, o.pos, "without a selection, the record is not returned as it is")
				continue
			}
			ok := r.op == TObj && r != rec
			for nm, t := range map[string]*Term{"a": fa, "b": fb, "c": nil} {
				got, has := o.st.mem[tsFld(r, nm)]
				if t == nil || !strings.Contains(sel, nm) {
					ok = ok && !has
				} else {
					ok = ok && has && unbox(got) == t
				}
			}
			c.Obl("select", con, ok, o.pos, "the result is not the selected fields that the record has")
		}
		c.Obl("select", con, n > 0, f.Pos, "nothing is returned")
		c.Problems(e, con)
	}
	c.Min("select", 5)
}
