package main

// C21: the client gets exactly the bytes of the ranges it asks for.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C21",
		Title: "a range asked for is the range answered",
		Rules: "(cache) the closure made by cache() is run on every history of two requests (three in the thorough tier) for arbitrary ranges start <= end of a file of any length: each answer is exactly the bytes start to end, both included, whether asked of the resolver or taken from an earlier answer, and has the total length of the answer it comes from. (requests) requestRanges is run on one to three arbitrary ranges, for multipart on and off and every kind of answer of the server: each request names the URL and, in order, exactly the ranges asked for in the form first-last; there is one answer per range, in their order, with the body of the response (or the part of it) for that range and the total length of its Content-Range; a full response is replaced by single requests; any other status, and a partial response that says no range, is an error; a range whose end lies before its start is refused before anything is sent, any other range is accepted, one of a single byte included. (integrity) answered one by one, a range given with the length the file is expected to have is answered exactly if the file has that length. (file) DataFile.get asks for exactly the range given and decodes the answer, for every start <= end. (ended) a stream of a multipart body that has ended is not read again. (url) files opened by URL ask that URL, with the configuration given.",
		Trust: []string{"TypeScript parser and type checker", "fetch, Headers, Response and TextDecoder of the platform", "the server answers the ranges it is asked for", "the parts of a multipart body are taken apart in the order sent"},
		Run:   runC21,
	})
}

type tsRanges struct {
	c  *Ctx
	ts *TSProg
}

func runC21(c *Ctx) {
	r := &tsRanges{c, c.TS()}
	r.cacheRule()
	r.requestRules()
	r.fileRule()
	r.urlRule()
	r.endRule()
}

// endRule: a stream that has ended is not read again.
func (r *tsRanges) endRule() {
	c := r.c
	f := r.ts.fn("parseMultipartBody")
	if f == nil {
		c.Missing("ended", "parseMultipartBody")
		return
	}
	c.Fn(f)
	con := "parseMultipartBody"
	cl := c.tsClient(r.ts)
	stream, reader := mkNamed("stream", tsObjP), mkNamed("reader", tsObjP)
	inner := cl.Call
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		switch cc.Name {
		case "ts:ReadableStream.getReader":
			st.facts.assume(tNot(tEq(reader, tNil)))
			return one(st, reader), true
		case "ts:instanceof":
			if unbox(cc.Args[0]) == reader {
				return one(st, tFalse), true
			}
		}
		if strings.HasSuffix(cc.Name, ".read") && len(cc.Args) > 0 && unbox(cc.Args[0]) == reader {
			if st.auto["ended"] == tTrue {
				c.Obl("ended", con, e.dry > 0, cc.Pos, "a stream that has ended is read again, without end")
				return nil, true
			}
			c.Count("reads", 1)
			var outs []Outcome
			for _, done := range []bool{false, true} {
				st := st.clone()
				v := tNil
				if done {
					st.auto["ended"] = tTrue
				} else {
					v = mkSym("chunk", tsBytesT)
					st.facts.assume(tNot(tEq(v, tNil)))
				}
				outs = append(outs, one(st, e.tsObject(st, map[string]*Term{"done": mkBool(done), "value": v}))...)
			}
			return outs, true
		}
		return inner(e, st, cc)
	}
	e := newEngine(r.ts.GoProg, cl)
	n := 0
	for _, o := range e.Run(f, []*Term{mkNamed("type", tsAnyT), stream}, nil, newState()) {
		if o.st.facts.satisfiable() {
			n++
		}
	}
	c.Obl("ended", con, n > 0, f.Pos, "it never ends")
	c.Problems(e, con)
	c.Min("ended", 1)
}

// strParts takes a string apart into constants and values.
func strParts(t *Term) []*Term {
	t = unbox(t)
	var out []*Term
	add := func(x *Term) {
		if x.op == TStr {
			if x.s == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == TStr {
				out[n-1] = mkStr(out[n-1].s + x.s)
				return
			}
		}
		out = append(out, x)
	}
	if t.op == TApp {
		switch t.s {
		case "template", "concat", "add", "joined", "String.concat":
			for _, a := range t.args {
				for _, x := range strParts(a) {
					add(x)
				}
			}
			return out
		case "String", "Number.toString", "BigInt.toString", "number", "bigint":
			if len(t.args) == 1 {
				return strParts(t.args[0])
			}
		}
	}
	add(t)
	return out
}

// ---- cache -----------------------------------------------------------------

func (r *tsRanges) cacheRule() {
	c := r.c
	f := r.ts.fn("cache")
	if f == nil {
		c.Missing("cache", "cache")
		return
	}
	c.Fn(f)
	steps := 2
	if c.thorough() {
		steps = 3
	}
	size := mkNamed("file:len", tsNumT)
	file := seqVar("file", size)
	under := mkNamed("under", tsFuncT)
	cl := c.tsClient(r.ts)
	cl.Paths = steps + 3
	inner := cl.Call
	total := func(a, b *Term) *Term { return mkApp("totalOf", tsNumT, a, b) }
	con := "cache"
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Name == "dynamic" && len(cc.Args) == 1 && unbox(cc.Callee) == under {
			a, b, ok := e.tsRange(st, cc.Args[0], 0)
			n, _ := constI(st.facts.norm(lenOf(e.tsItems(st, unbox(cc.Args[0])))))
			if !ok || n != 1 {
				c.Obl("cache", con, e.dry > 0, cc.Pos, "the resolver is not asked for one range")
				return nil, true
			}
			a, b = tsNumOf(a), tsNumOf(b)
			if !st.facts.implied(tLe(tZero, a)) || !st.facts.implied(tLe(a, b)) || !st.facts.implied(tLt(b, size)) {
				c.Obl("cache", con, e.dry > 0, cc.Pos, "the resolver is asked for a range nobody asked for")
				return nil, true
			}
			st.emit(&Event{Kind: "asked", A: []*Term{a, b}, Pos: cc.Pos})
			d := e.newSlice(st, "answer", byteT, e.seqSub(st.facts, mkApp("cat", nil, mkApp("span", nil, file, tZero, size)), a, tAddK(b, 1)))
			o := e.tsObject(st, map[string]*Term{"data": d, "totalLength": total(a, b)})
			return one(st, e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, o)))), true
		}
		return inner(e, st, cc)
	}
	e := newEngine(r.ts.GoProg, cl)
	st := newState()
	var outs []Outcome
	for _, o := range e.Run(f, []*Term{under}, nil, st) {
		if o.panic || len(o.res) == 0 || unbox(o.res[0]).op != TClo {
			c.Obl("cache", con, false, o.pos, "no resolver is returned")
			continue
		}
		outs = append(outs, o)
	}
	type path struct {
		st  *State
		clo *Term
	}
	var ps []path
	for _, o := range outs {
		ps = append(ps, path{o.st, unbox(o.res[0])})
	}
	for k := 1; k <= steps; k++ {
		con = fmt.Sprintf("request %d", k)
		a, b := rng(mkNamed(fmt.Sprintf("start%d", k), tsNumT), 0, 1<<53), rng(mkNamed(fmt.Sprintf("end%d", k), tsNumT), 0, 1<<53)
		var next []path
		for _, p := range ps {
			st := p.st.clone()
			st.facts.assume(tLe(tZero, a))
			st.facts.assume(tLe(a, b))
			st.facts.assume(tLt(b, size))
			arr := e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, e.tsObject(st, map[string]*Term{"start": a, "end": b, "expectedLength": tNil}))))
			for _, o := range e.Run(p.clo.fn, []*Term{arr}, p.clo.args, st) {
				if !o.st.facts.satisfiable() {
					continue
				}
				if o.panic {
					c.Obl("cache", con, false, o.pos, "the request throws")
					continue
				}
				x, n := e.firstAnswer(o.st, o.res[0])
				ok := x != nil && n == 1
				if ok {
					got := e.sliceSeq(o.st, unbox(e.tsGet(o.st, x, "data", tsBytesT)), byteT)
					want := e.seqSub(o.st.facts, mkApp("cat", nil, mkApp("span", nil, file, tZero, size)), a, tAddK(b, 1))
					ok = seqSame(o.st.facts, got, want)
				}
				c.Obl("cache", con, ok, o.pos, "the answer is not the bytes of the range, both ends included")
				if ok {
					t := unbox(e.tsGet(o.st, x, "totalLength", tsNumT))
					okT := false
					for _, ev := range evsOf(o.st, "asked") {
						okT = okT || t == total(ev.A[0], ev.A[1])
					}
					c.Obl("cache", con, okT, o.pos, "the answer does not have the total length of an answer of the resolver")
					next = append(next, path{o.st, p.clo})
				}
			}
		}
		ps = next
		c.Obl("cache", con, len(ps) > 0, f.Pos, "no request is answered")
	}
	c.Problems(e, "cache")
	c.Min("cache", 2)
}

// firstAnswer is the first answer in a list, and how many there are.
func (e *Engine) firstAnswer(st *State, arr *Term) (*Term, int64) {
	xs := e.answers(st, arr)
	if len(xs) == 0 {
		return nil, 0
	}
	return xs[0], int64(len(xs))
}

// answers are the elements of a list of known length.
func (e *Engine) answers(st *State, arr *Term) []*Term {
	arr = unbox(arr)
	if arr == nil || arr == tNil {
		return nil
	}
	b, off, n := sliceParts(e.tsItems(st, arr))
	k, ok := constI(st.facts.norm(n))
	if !ok || k > 64 {
		return nil
	}
	var out []*Term
	for i := int64(0); i < k; i++ {
		out = append(out, unbox(e.selectElem(st, b, tAddK(off, i), tsObjP)))
	}
	return out
}

// ---- requests ----------------------------------------------------------------

type reqCase struct {
	expected  bool // the length of the file is expected to be some number
	name      string
	multipart *Term // the configuration
	status    int64
	ctype     *Term
	hasRange  bool
	n         int
	answer    string // "each", "parts", "whole", "error"
}

func (r *tsRanges) requestRules() {
	c := r.c
	f := r.ts.fn("requestRanges")
	p := r.ts.fn("parseMultipartBody")
	if f == nil || p == nil {
		c.Missing("requests", "requestRanges and parseMultipartBody")
		return
	}
	c.Fn(f)
	multi, plain := mkStr("multipart/byteranges; boundary=x"), mkStr("text/plain")
	for n := 1; n <= 3; n++ {
		for _, on := range []*Term{tTrue, tNil} {
			r.request(f, p, reqCase{false, "multipart, in parts", on, 206, multi, false, n, "parts"})
			r.request(f, p, reqCase{false, "multipart, in full", on, 200, plain, false, n, "each"})
			for _, s := range []int64{404, 416, 500, 304} {
				r.request(f, p, reqCase{false, fmt.Sprintf("multipart, status %d", s), on, s, plain, false, n, "error"})
			}
			r.request(f, p, reqCase{false, "multipart, partial without a range", on, 206, plain, false, n, "error"})
			r.request(f, p, reqCase{false, "multipart, no content type", on, 206, tNil, true, n, "error"})
			if n == 1 {
				r.request(f, p, reqCase{false, "multipart, one part", on, 206, plain, true, n, "whole"})
			}
		}
		r.request(f, p, reqCase{false, "single requests", tFalse, 206, plain, true, n, "each"})
		r.request(f, p, reqCase{true, "single requests, length expected", tFalse, 206, plain, true, n, "each"})
	}
	c.Min("requests", 10)
	c.Min("refusal", 1)
	c.Min("integrity", 1)
}

func (r *tsRanges) request(f, parse *Func, k reqCase) {
	c := r.c
	con := fmt.Sprintf("%s, %d ranges", k.name, k.n)
	url := mkNamed("url", tsAnyT)
	// bad: the range that ends before it starts; -1 for none
	for bad := -1; bad < k.n; bad++ {
		if bad >= 0 && (k.multipart == tFalse || k.answer != "parts") {
			break
		}
		cl := c.tsClient(r.ts)
		cl.Paths = k.n + 4
		inner := cl.Call
		var starts, ends []*Term
		expect := mkNamed("expected", tsNumT)
		rangeParts := func(is ...int) []*Term {
			var t []*Term
			for j, i := range is {
				sep := ","
				if j == 0 {
					sep = "bytes="
				}
				t = append(t, mkStr(sep), starts[i], mkStr("-"), ends[i])
			}
			return t
		}
		same := func(a []*Term, is ...int) bool {
			b := strParts(mkApp("joined", nil, rangeParts(is...)...))
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if tsNumOf(a[i]) != tsNumOf(b[i]) {
					return false
				}
			}
			return true
		}
		resp := func(i int, s string, t *Type) *Term { return mkNamed(fmt.Sprintf("response%d:%s", i, s), t) }
		respOf := func(o *Term, s string, t *Type) int {
			for i := 0; i < 8; i++ {
				if unbox(o) == resp(i, s, t) {
					return i
				}
			}
			return -1
		}
		totalS := func(who string, i int) *Term { return mkNamed(fmt.Sprintf("%s%d:total", who, i), tsAnyT) }
		rangeS := func(who string, i int) *Term { return mkNamed(fmt.Sprintf("%s%d:content-range", who, i), tsAnyT) }
		cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
			switch cc.Name {
			case "ts:fetch":
				if bad >= 0 {
					c.Obl("refusal", con, e.dry > 0, cc.Pos, "a range whose end lies before its start is sent to the server")
					return nil, true
				}
				i := len(evsOf(st, "fetch"))
				if len(cc.Args) != 2 || unbox(cc.Args[0]) != url {
					c.Obl("requests", con, e.dry > 0, cc.Pos, "another address than the one given is asked")
					return nil, true
				}
				h := e.tsGet(st, unbox(cc.Args[1]), "headers", tsObjP)
				hv := e.tsGet(st, unbox(h), "Range", tsAnyT)
				if v, ok := st.mem[tsFld(unbox(h), "range")]; ok {
					hv = v
				}
				parts := strParts(hv)
				which := int64(-2)
				var all []int
				for j := 0; j < k.n; j++ {
					all = append(all, j)
					if same(parts, j) {
						which = int64(j)
					}
				}
				if k.multipart != tFalse && i == 0 {
					if same(parts, all...) {
						which = -1
					} else {
						which = -2
					}
				}
				if which == -2 {
					c.Obl("requests", con, e.dry > 0, cc.Pos, "the request does not name the ranges asked for, in order")
					return nil, true
				}
				st.emit(&Event{Kind: "fetch", A: []*Term{mkInt(which)}, Pos: cc.Pos})
				status := int64(206)
				if i == 0 && k.multipart != tFalse {
					status = k.status
				}
				o := resp(i, "object", tsObjP)
				st.mem[tsFld(o, "status")] = mkInt(status)
				st.mem[tsFld(o, "ok")] = mkBool(status < 300)
				st.mem[tsFld(o, "headers")] = resp(i, "headers", tsObjP)
				body := resp(i, "stream", tsObjP)
				st.facts.assume(tNot(tEq(body, tNil)))
				st.mem[tsFld(o, "body")] = body
				return one(st, o), true
			case "ts:Headers.get", "ts:Headers.has":
				i := respOf(cc.Args[0], "headers", tsObjP)
				nm := unbox(cc.Args[1])
				if i < 0 || nm.op != TStr {
					return nil, false
				}
				var v *Term
				switch strings.ToLower(nm.s) {
				case "content-type":
					v = k.ctype
				case "content-range":
					v = tNil
					if k.hasRange || i > 0 {
						v = rangeS("response", i)
					}
				default:
					v = mkSym("header", tsAnyT)
				}
				if cc.Name == "ts:Headers.has" {
					return one(st, mkBool(v != tNil)), true
				}
				if v.op == TSym {
					st.facts.assume(tNot(tEq(v, tNil)))
					st.facts.assume(mkApp("truthy", tBoolT, v))
					st.facts.assume(tLe(tOne, lenOf(v)))
				}
				return one(st, v), true
			case "ts:Response.arrayBuffer":
				if i := respOf(cc.Args[0], "object", tsObjP); i >= 0 {
					return one(st, resp(i, "bytes", tsBytesT)), true
				}
			case "ts:new.Headers":
				if len(cc.Args) > 0 && unbox(cc.Args[0]) != tNil {
					return one(st, unbox(cc.Args[0])), true
				}
				return one(st, e.tsObject(st, map[string]*Term{})), true
			case "ts:Headers.set", "ts:Headers.append":
				if nm := unbox(cc.Args[1]); nm.op == TStr {
					st.mem[tsFld(unbox(cc.Args[0]), nm.s)] = cc.Args[2]
					st.mem[tsFld(unbox(cc.Args[0]), strings.ToLower(nm.s))] = cc.Args[2]
					return one(st, tNil), true
				}
			case "ts:String.indexOf", "ts:String.lastIndexOf":
				for _, who := range []string{"response", "part"} {
					for i := 0; i < 8; i++ {
						if unbox(cc.Args[0]) == rangeS(who, i) && unbox(cc.Args[1]) == mkStr("/") {
							return one(st, rng(mkNamed("slash", tsNumT), 1, 1<<16)), true
						}
					}
				}
			case "ts:String.substring", "ts:String.slice", "ts:String.substr":
				for _, who := range []string{"response", "part"} {
					for i := 0; i < 8; i++ {
						if unbox(cc.Args[0]) == rangeS(who, i) && len(cc.Args) == 2 && st.facts.implied(tEq(cc.Args[1], tAddK(rng(mkNamed("slash", tsNumT), 1, 1<<16), 1))) {
							return one(st, totalS(who, i)), true
						}
					}
				}
			case "ts:truthy":
				if unbox(cc.Args[0]) == expect {
					return one(st, tTrue), true
				}
				for _, who := range []string{"response", "part"} {
					for i := 0; i < 8; i++ {
						if v := unbox(cc.Args[0]); v == totalS(who, i) || v == rangeS(who, i) {
							return one(st, tTrue), true
						}
					}
				}
			case "ts:String.split":
				if unbox(cc.Args[1]) != mkStr("/") {
					return nil, false
				}
				for _, who := range []string{"response", "part"} {
					for i := 0; i < 8; i++ {
						if unbox(cc.Args[0]) == rangeS(who, i) {
							return one(st, e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, mkNamed(fmt.Sprintf("%s%d:range", who, i), tsAnyT)), mkApp("unit", nil, totalS(who, i))))), true
						}
					}
				}
			case "ts:Array.prototype.join":
				if len(cc.Args) != 2 || unbox(cc.Args[1]).op != TStr {
					return nil, false
				}
				var t []*Term
				for j, x := range e.answers(st, cc.Args[0]) {
					if j > 0 {
						t = append(t, cc.Args[1])
					}
					t = append(t, x)
				}
				return one(st, mkApp("joined", tsAnyT, t...)), true
			case "ts:parseInt", "ts:Number.parseInt", "ts:Number":
				if len(cc.Args) > 0 && (len(cc.Args) == 1 || unbox(cc.Args[1]) == mkInt(10)) {
					for _, who := range []string{"response", "part"} {
						for i := 0; i < 8; i++ {
							if unbox(cc.Args[0]) == totalS(who, i) {
								return one(st, mkNamed(fmt.Sprintf("%s%d:totalnumber", who, i), tsNumT)), true
							}
						}
					}
				}
			}
			if cc.Fn == parse {
				if unbox(cc.Args[0]) != k.ctype || respOf(cc.Args[1], "stream", tsObjP) != 0 {
					c.Obl("requests", con, e.dry > 0, cc.Pos, "the parts are not those of the response")
					return nil, true
				}
				var ps []*Term
				for i := 0; i < k.n; i++ {
					h := e.tsObject(st, map[string]*Term{"Content-Range": rangeS("part", i), "Content-Type": mkStr("text/plain")})
					st.facts.assume(tNot(tEq(rangeS("part", i), tNil)))
					st.facts.assume(mkApp("truthy", tBoolT, totalS("part", i)))
					st.facts.assume(tLe(tOne, lenOf(totalS("part", i))))
					st.facts.assume(tLe(tOne, lenOf(rangeS("part", i))))
					st.facts.assume(tNot(tEq(totalS("part", i), tNil)))
					d := mkNamed(fmt.Sprintf("part%d:bytes", i), tsBytesT)
					st.facts.assume(tNot(tEq(d, tNil)))
					ps = append(ps, mkApp("unit", nil, e.tsObject(st, map[string]*Term{"data": d, "headers": h})))
				}
				return one(st, e.tsArray(st, mkApp("cat", nil, ps...))), true
			}
			return inner(e, st, cc)
		}
		e := newEngine(r.ts.GoProg, cl)
		st := newState()
		var ps []*Term
		for i := 0; i < k.n; i++ {
			a, b := rng(mkNamed(fmt.Sprintf("start%d", i), tsNumT), 0, 1<<53), rng(mkNamed(fmt.Sprintf("end%d", i), tsNumT), 0, 1<<53)
			starts, ends = append(starts, a), append(ends, b)
			if i == bad {
				st.facts.assume(tLt(b, a))
			} else {
				st.facts.assume(tLe(a, b))
			}
			x := tNil
			if k.expected {
				x = expect
				st.facts.assume(tLe(tOne, expect))
				st.facts.assume(tNot(tEq(expect, tNil)))
			}
			ps = append(ps, mkApp("unit", nil, e.tsObject(st, map[string]*Term{"start": a, "end": b, "expectedLength": x})))
		}
		arr := e.tsArray(st, mkApp("cat", nil, ps...))
		cfg := e.tsObject(st, map[string]*Term{"useMultipartByteRanges": k.multipart})
		n := 0
		for _, o := range e.Run(f, []*Term{url, arr, cfg}, nil, st) {
			if !o.st.facts.satisfiable() {
				continue
			}
			n++
			if bad >= 0 {
				c.Obl("refusal", con, o.panic, o.pos, "a range whose end lies before its start is not refused")
				continue
			}
			if k.answer == "error" {
				c.Obl("requests", con, o.panic, o.pos, "an answer that does not hold the ranges is taken for one that does")
				continue
			}
			if o.panic && k.expected {
				// some answer has another length
				var all []*Term
				for j := range evsOf(o.st, "fetch") {
					all = append(all, tEq(mkNamed(fmt.Sprintf("response%d:totalnumber", j), tsNumT), expect))
				}
				st := o.st.clone()
				for _, x := range all {
					st.facts.assume(x)
				}
				c.Obl("integrity", con, !st.facts.satisfiable(), o.pos, "answers of the length expected are refused")
				continue
			}
			if o.panic {
				c.Obl("requests", con, false, o.pos, "the request throws")
				continue
			}
			if k.expected {
				for j := range evsOf(o.st, "fetch") {
					c.Obl("integrity", con, o.st.facts.implied(tEq(mkNamed(fmt.Sprintf("response%d:totalnumber", j), tsNumT), expect)), o.pos, "an answer of another length than the one expected is accepted")
				}
			}
			xs := e.answers(o.st, o.res[0])
			ok := len(xs) == k.n
			for i := 0; ok && i < k.n; i++ {
				who, at := "part", i
				if k.answer == "whole" {
					who, at = "response", 0
				}
				if k.answer == "each" {
					who, at = "response", -1
					for j, ev := range evsOf(o.st, "fetch") {
						if v, _ := constI(ev.A[0]); v == int64(i) && (j > 0 || k.multipart == tFalse) {
							at = j
						}
					}
				}
				d := unbox(e.tsGet(o.st, xs[i], "data", tsBytesT))
				t := unbox(e.tsGet(o.st, xs[i], "totalLength", tsNumT))
				ok = d == mkNamed(fmt.Sprintf("%s%d:bytes", who, at), tsBytesT) && t == mkNamed(fmt.Sprintf("%s%d:totalnumber", who, at), tsNumT)
			}
			c.Obl("requests", con, ok, o.pos, "there is not one answer per range, in order, with the bytes and the total length the server gives for it")
		}
		rule := "requests"
		if bad >= 0 {
			rule = "refusal"
		}
		c.Obl(rule, con, n > 0, f.Pos, "the request never ends")
		c.Problems(e, con)
	}
}

// ---- files -------------------------------------------------------------------

func (r *tsRanges) fileRule() {
	c := r.c
	mk, get := r.ts.fn("DataFile.forResolver"), r.ts.fn("DataFile.get")
	if mk == nil || get == nil {
		c.Missing("file", "DataFile.forResolver and DataFile.get")
		return
	}
	c.Fn(mk)
	c.Fn(get)
	under := mkNamed("under", tsFuncT)
	a, b := rng(mkNamed("start", tsNumT), 0, 1<<53), rng(mkNamed("end", tsNumT), 0, 1<<53)
	data := mkNamed("answer:bytes", tsBytesT)
	cl := c.tsClient(r.ts)
	inner := cl.Call
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Name == "dynamic" && len(cc.Args) == 1 && unbox(cc.Callee) == under {
			x, y, ok := e.tsRange(st, cc.Args[0], 0)
			ok = ok && len(e.answers(st, cc.Args[0])) == 1 && st.facts.implied(tEq(tsNumOf(x), a)) && st.facts.implied(tEq(tsNumOf(y), b))
			c.Obl("file", "DataFile.get", ok || e.dry > 0, cc.Pos, "another range than the one given is asked for")
			if !ok {
				return nil, true
			}
			o := e.tsObject(st, map[string]*Term{"data": data, "totalLength": mkSym("total", tsNumT)})
			return one(st, e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, o)))), true
		}
		if cc.Name == "ts:TextDecoder.decode" && len(cc.Args) > 1 && unbox(cc.Args[1]) == data {
			return one(st, mkNamed("answer:text", tsAnyT)), true
		}
		return inner(e, st, cc)
	}
	e := newEngine(r.ts.GoProg, cl)
	st := newState()
	st.facts.assume(tLe(a, b))
	n := 0
	for _, o := range e.Run(mk, []*Term{under}, nil, st) {
		if o.panic {
			continue
		}
		for _, p := range e.Run(get, []*Term{unbox(o.res[0]), a, b}, nil, o.st) {
			if !p.st.facts.satisfiable() {
				continue
			}
			n++
			c.Obl("file", "DataFile.get", !p.panic && unbox(p.res[0]) == mkNamed("answer:text", tsAnyT), p.pos, "what is returned is not the text of the answer")
		}
	}
	c.Obl("file", "DataFile.get", n > 0, get.Pos, "it never returns")
	c.Problems(e, "DataFile.get")
	c.Min("file", 1)
}

func (r *tsRanges) urlRule() {
	c := r.c
	req := r.ts.fn("requestRanges")
	for _, cls := range []string{"DataFile", "IndexFile"} {
		f := r.ts.fn(cls + ".forUrl")
		if f == nil || req == nil {
			c.Missing("url", cls+".forUrl")
			continue
		}
		c.Fn(f)
		con := cls + ".forUrl"
		url, cfg := mkNamed("url", tsAnyT), mkNamed("config", tsObjP)
		a, b := rng(mkNamed("start", tsNumT), 0, 1<<53), rng(mkNamed("end", tsNumT), 0, 1<<53)
		answer := mkNamed("answer", tsArrP)
		cl := c.tsClient(r.ts)
		inner := cl.Call
		cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
			if cc.Fn == req {
				x, y, ok := e.tsRange(st, cc.Args[1], 0)
				ok = ok && len(e.answers(st, cc.Args[1])) == 1 && st.facts.implied(tEq(tsNumOf(x), a)) && st.facts.implied(tEq(tsNumOf(y), b))
				c.Obl("url", con, ok && unbox(cc.Args[0]) == url && unbox(cc.Args[2]) == cfg || e.dry > 0, cc.Pos, "what is requested is not the range asked for of the address given, with its configuration")
				return one(st, answer), true
			}
			return inner(e, st, cc)
		}
		e := newEngine(r.ts.GoProg, cl)
		n := 0
		for _, o := range e.Run(f, []*Term{url, cfg}, nil, newState()) {
			if o.panic || !o.st.facts.satisfiable() {
				c.Obl("url", con, !o.panic, o.pos, "it throws")
				continue
			}
			// the closures kept are the resolvers
			for ad, v := range o.st.mem {
				v = unbox(v)
				if ad.op != TFld || v.op != TClo || len(v.fn.Params) != 1 {
					continue
				}
				st := o.st.clone()
				st.facts.assume(tLe(a, b))
				arr := e.tsArray(st, mkApp("cat", nil, mkApp("unit", nil, e.tsObject(st, map[string]*Term{"start": a, "end": b, "expectedLength": tNil}))))
				for _, p := range e.Run(v.fn, []*Term{arr}, v.args, st) {
					if !p.st.facts.satisfiable() {
						continue
					}
					n++
					c.Obl("url", con, !p.panic && unbox(p.res[0]) == answer, p.pos, "what is returned is not the answer to the request")
				}
			}
		}
		c.Obl("url", con, n > 0, f.Pos, "no resolver is made")
		c.Problems(e, con)
	}
	c.Min("url", 2)
}
