package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// tsTextModel are the functions of the client on texts of known characters;
// strings are indexed by UTF-16 units.
func tsTextModel(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
	a := cc.Args
	if cc.In.Call != nil && cc.In.Call.Builtin && cc.In.Call.Short == "len" && len(a) == 1 && isTextVal(a[0]) {
		us, ok := utf16Of(a[0])
		if !ok {
			return nil, false
		}
		return one(st, mkInt(int64(len(us)))), true
	}
	if !strings.HasPrefix(cc.Name, "ts:") {
		return nil, false
	}
	n := cc.Name[3:]
	for i := range a {
		if u := unbox(a[i]); isTextVal(u) {
			if i == 0 {
				a = append([]*Term{u}, a[1:]...)
			} else {
				a = append(append(append([]*Term{}, a[:i]...), u), a[i+1:]...)
			}
		}
	}
	for i := range a {
		u := unbox(a[i])
		if n == "String.normalize" && i == 0 && u.op == TApp && u.s == "unnormalised" {
			a = append([]*Term{u.args[0]}, a[1:]...)
		} else if e.rawText(st, u) {
			return nil, true
		}
	}
	switch n {
	case "new.Map":
		if len(a) != 1 {
			return nil, false
		}
		es, ok := textUnits(e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT))
		if !ok {
			return nil, false
		}
		m := mkApp("emptymap", nil)
		for _, x := range es {
			kv, ok := textUnits(e.sliceSeq(st, e.tsItems(st, unbox(x)), tsAnyT))
			if !ok || len(kv) != 2 {
				return nil, false
			}
			m = mkApp("mapupd", nil, m, unbox(kv[0]), unbox(kv[1]))
		}
		o := mkObj("map", tsMapT)
		st.mem[mapCell(o, tsMapT)] = m
		return one(st, o), true
	case "Array.from":
		if rs, ok := textOf(a[0]); ok {
			return one(st, textArray(e, st, rs)), true
		}
	case "String.split":
		if lit, more, ok := charRegexp(a[1]); ok && isTextVal(a[0]) {
			rs, _ := textOf(a[0])
			var parts, cur []*Term
			last := false
			for _, r := range rs {
				hit, known := regexpOn(lit, r)
				if !known {
					return nil, false
				}
				if hit && !(more && last) {
					parts, cur = append(parts, mkApp("unit", nil, mkText(cur))), nil
				} else if !hit {
					cur = append(cur, r)
				}
				last = hit
			}
			parts = append(parts, mkApp("unit", nil, mkText(cur)))
			return one(st, e.tsArray(st, mkApp("cat", nil, parts...))), true
		}
		if rs, ok := textOf(a[0]); ok && len(a) > 1 && a[1].op == TStr && a[1].s == "" {
			for _, r := range rs {
				if us, ok := utf16Of(mkText([]*Term{r})); !ok || len(us) != 1 {
					return nil, false
				}
			}
			return one(st, textArray(e, st, rs)), true
		}
	case "String.replace", "String.replaceAll":
		rs, ok := textOf(a[0])
		lit, more, ok2 := charRegexp(a[1])
		with, ok3 := textOf(a[2])
		if ok && ok2 && ok3 && (strings.Contains(lit[strings.LastIndexByte(lit, '/'):], "g")) && (!more || len(with) == 0) {
			var out []*Term
			for _, r := range rs {
				hit, known := regexpOn(lit, r)
				if !known {
					return nil, false
				}
				if hit {
					out = append(out, with...)
				} else {
					out = append(out, r)
				}
			}
			return one(st, mkText(out)), true
		}
	case "concat", "template", "String.concat":
		var all []*Term
		for _, x := range a {
			rs, ok := textOf(x)
			if !ok {
				return nil, false
			}
			all = append(all, rs...)
		}
		return one(st, mkText(all)), true
	case "String.normalize":
		if isTextVal(a[0]) && len(a) > 1 && a[1].op == TStr && a[1].s == "NFKD" {
			return one(st, a[0]), true
		}
	case "String.toLowerCase", "String.toLocaleLowerCase":
		if rs, ok := textOf(a[0]); ok {
			var ls []*Term
			for _, r := range rs {
				ls = append(ls, lowered(r))
			}
			return one(st, mkText(ls)), true
		}
	case "String.at", "String.charAt":
		us, ok := utf16Of(a[0])
		k, ok2 := constI(a[1])
		if ok && ok2 {
			if k < 0 || k >= int64(len(us)) {
				return one(st, mkStr("")), true
			}
			return one(st, mkText(us[k:k+1])), true
		}
	case "String.slice", "String.substring":
		us, ok := utf16Of(a[0])
		lo, ok2 := constI(a[1])
		hi := int64(len(us))
		if len(a) > 2 && a[2] != tNil {
			h, ok3 := constI(a[2])
			ok2, hi = ok2 && ok3, h
		}
		if ok && ok2 && 0 <= lo && lo <= hi && hi <= int64(len(us)) {
			return one(st, mkText(us[lo:hi])), true
		}
	case "Array.prototype.join":
		items, ok := textUnits(e.sliceSeq(st, e.tsItems(st, a[0]), tsAnyT))
		sep, ok2 := textOf(a[len(a)-1])
		if ok && ok2 && len(a) == 2 {
			var all []*Term
			for i, it := range items {
				rs, ok := textOf(unbox(it))
				if !ok {
					return nil, false
				}
				if i > 0 {
					all = append(all, sep...)
				}
				all = append(all, rs...)
			}
			return one(st, mkText(all)), true
		}
	case "TextEncoder.encode":
		if rs, ok := textOf(a[1]); ok {
			var us []*Term
			for _, r := range rs {
				us = append(us, mkApp("unit", nil, mkApp("utf8", byteT, r)))
			}
			return one(st, e.newSlice(st, "encoded", byteT, mkApp("cat", nil, us...))), true
		}
	case "RegExp.test":
		rs, ok := textOf(a[1])
		re := unbox(a[0])
		if ok && len(rs) == 1 && re.op == TApp && len(re.args) == 1 && re.args[0].op == TStr {
			if v, ok := regexpFlags(re.args[0].s, rs[0], "iu"); ok {
				return one(st, mkBool(v)), true
			}
		}
	}
	return nil, false
}

func textArray(e *Engine, st *State, rs []*Term) *Term {
	us := []*Term{}
	for _, r := range rs {
		us = append(us, mkApp("unit", nil, mkText([]*Term{r})))
	}
	return e.tsArray(st, mkApp("cat", nil, us...))
}

// utf16Of are the units of a text; a character beyond the first plane has two.
func utf16Of(t *Term) ([]*Term, bool) {
	rs, ok := textOf(t)
	if !ok {
		return nil, false
	}
	r := []*Term{}
	for _, x := range rs {
		w, ok := runeWidth(x)
		if !ok {
			return nil, false
		}
		if w == 4 {
			r = append(r, rng(mkApp("hi", tRuneT, x), 0xd800, 0xdbff), rng(mkApp("lo", tRuneT, x), 0xdc00, 0xdfff))
		} else {
			r = append(r, x)
		}
	}
	return r, true
}

// charRegexp: a regular expression for one character of a kind, or for several.
func charRegexp(t *Term) (lit string, more, ok bool) {
	t = unbox(t)
	if t.op != TApp || len(t.args) != 1 || t.args[0].op != TStr {
		return "", false, false
	}
	lit = t.args[0].s
	i := strings.LastIndexByte(lit, '/')
	if i <= 1 {
		return "", false, false
	}
	pat := lit[1:i]
	if strings.HasSuffix(pat, "+") && !strings.HasSuffix(pat, "\\+") {
		more, pat = true, pat[:len(pat)-1]
	}
	one := len(pat) == 1 || len(pat) == 2 && pat[0] == '\\' || pat[0] == '[' && strings.IndexByte(pat[1:], ']') == len(pat)-2
	return "/" + pat + lit[i:], more, one
}

// regexpOn tells whether all characters of a class match, or none.
func regexpOn(lit string, r *Term) (res, ok bool) {
	return regexpFlags(lit, r, "giu")
}

func regexpFlags(lit string, r *Term, flags string) (res, ok bool) {
	i := strings.LastIndexByte(lit, '/')
	if i <= 0 || strings.Trim(lit[i+1:], flags) != "" {
		return false, false
	}
	pat := lit[1:i]
	var b strings.Builder
	in := false
	for k := 0; k < len(pat); k++ {
		switch c := pat[k]; {
		case c == '\\' && k+1 < len(pat):
			k++
			switch {
			case pat[k] == 's' && in:
				b.WriteString(`\s\x0b\x{a0}\x{feff}\p{Z}`)
			case pat[k] == 's':
				b.WriteString(`[\s\x0b\x{a0}\x{feff}\p{Z}]`)
			default:
				b.WriteString(pat[k-1 : k+1])
			}
			continue
		case c == '[':
			in = true
		case c == ']':
			in = false
		}
		b.WriteByte(pat[k])
	}
	pat = b.String()
	if strings.Contains(lit[i:], "i") {
		pat = "(?i)" + pat
	}
	re, err := regexp.Compile(pat)
	if err != nil || r.lo == nil || r.hi == nil {
		return false, false
	}
	lo, hi := r.lo.Int64(), r.hi.Int64()
	for x := lo; x <= hi; x++ {
		v := re.MatchString(string(rune(x)))
		if x > lo && v != res {
			return false, false
		}
		res = v
	}
	return res, true
}

func (q *gramT) tsGrams() {
	c := q.c
	ts := c.TS()
	mk, cut := ts.fn("NgramTokenizer.constructor"), ts.fn("NgramTokenizer.tokens")
	if mk == nil || cut == nil {
		c.Missing("client", "NgramTokenizer.constructor and tokens")
		return
	}
	c.Fn(mk)
	c.Fn(cut)
	types := ts.enums["FieldType"]
	one := func(s string) {
		for _, w := range [][2]int{{1, 1}, {1, 2}, {2, 3}, {1, 3}, {3, 3}} {
			q.tsCut(ts, mk, cut, types, s, w[0], w[1])
		}
	}
	gramTexts(gramClasses, 3, one)
	others(one)
	k := 4
	if c.thorough() {
		k = 5
	}
	gramTexts("a é😀", k, func(s string) {
		if len([]rune(s)) > 3 {
			one(s)
		}
	})
	q.tsShuffle()
	c.Min("client", 3)
}

func (q *gramT) tsClient() *Client {
	k := 0
	return &Client{Paths: 24, Live: 4096, MaxDepth: 16, Recurse: 10, Text: true, Unroll: 16, Follow: true,
		Inline:      func(*Func) bool { return true },
		MergeKey:    func(*State) string { k++; return strconv.Itoa(k) },
		Call:        tsTextModel,
		OnRangeNext: func(e *Engine, st *State, coll *Term, in *Instr) { e.rawText(st, unbox(coll)) },
	}
}

func (q *gramT) tsCut(ts *TSProg, mk, cut *Func, types map[string]int64, text string, min, max int) {
	con := fmt.Sprintf("lengths %d to %d", min, max)
	var rs []*Term
	for i, c := range []rune(text) {
		rs = append(rs, gramChar(c, i))
	}
	var want []gram
	var wantT []int64
	for n := min; n <= max; n++ {
		for _, g := range gramsOf(text, n) {
			want = append(want, g)
			wantT = append(wantT, types[[]string{"", "Unigram", "Bigram", "Trigram"}[n]])
		}
	}
	e := newEngine(ts.GoProg, q.tsClient())
	self := mkObj("tokenizer", tsObjP)
	in := mkText(rs)
	if text == "é" {
		in = mkApp("unnormalised", tStrT, in)
	}
	st := newState()
	var outs []Outcome
	for _, o := range e.Run(mk, []*Term{self, mkInt(int64(min)), mkInt(int64(max))}, nil, st) {
		if o.panic {
			q.c.Obl("client", con, false, o.pos, "no tokenizer is made")
			continue
		}
		outs = append(outs, e.Run(cut, []*Term{self, in}, nil, o.st)...)
	}
	k := 0
	for _, o := range outs {
		if !o.st.facts.satisfiable() {
			continue
		}
		k++
		what := fmt.Sprintf("the text %q (each letter any of its kind, é any character outside of ASCII): ", text)
		if o.panic {
			q.c.Obl("client", con, false, o.pos, what+"it fails")
			continue
		}
		items, ok := textUnits(e.sliceSeq(o.st, e.tsItems(o.st, unbox(o.res[0])), tsAnyT))
		q.c.Obl("client", con, ok && len(items) == len(want), o.pos, what+fmt.Sprintf("%d n-grams instead of %d", len(items), len(want)))
		if !ok || len(items) != len(want) {
			continue
		}
		for i, it := range items {
			it = unbox(it)
			val := e.tsGet(o.st, it, "value", tStrT)
			w, ok := textOf(unbox(val))
			same := ok && len(w) == len(want[i].word)
			for j := 0; same && j < len(w); j++ {
				same = w[j] == want[i].word[j]
			}
			q.c.Obl("client", con, same, o.pos, what+fmt.Sprintf("the n-gram number %d is another: %s", i, val))
			bs, ok := textUnits(e.sliceSeq(o.st, unbox(e.tsGet(o.st, it, "valueBuf", tsBytesT)), byteT))
			same = ok && len(bs) == len(want[i].word)
			for j := 0; same && j < len(bs); j++ {
				same = bs[j] == mkApp("utf8", byteT, want[i].word[j])
			}
			q.c.Obl("client", con, same, o.pos, what+fmt.Sprintf("the key of n-gram number %d is not its bytes", i))
			t, ok := constI(o.st.facts.norm(unbox(e.tsGet(o.st, it, "type", tsNumT))))
			q.c.Obl("client", con, ok && t == wantT[i], o.pos, what+fmt.Sprintf("the n-gram number %d is not looked up by its length", i))
		}
	}
	q.c.Obl("client", con, k > 0, cut.Pos, "it never ends")
	q.c.Count("texts", 1)
	q.c.Count("paths", k)
	q.c.Problems(e, con)
}

// tsShuffle: the n-grams are searched for in any order, but all of them, once each.
func (q *gramT) tsShuffle() {
	c := q.c
	ts := c.TS()
	f := ts.fn("NgramTokenizer.shuffle")
	if f == nil {
		return // nothing is reordered
	}
	c.Fn(f)
	random := mkNamed("random", &Type{Kind: "float", Bits: 64, str: "float64"})
	cl := q.tsClient()
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		switch cc.Name {
		case "ts:Math.random":
			return one(st, random), true
		case "ts:Math.floor", "ts:Math.trunc":
			x := unbox(cc.Args[0])
			k := int64(0)
			for n := int64(1); n < 8; n++ {
				if x == tMul(mkInt(n), random) || x.op == TApp && len(x.args) == 2 && (x.args[0] == random && x.args[1] == mkInt(n) || x.args[1] == random && x.args[0] == mkInt(n)) {
					k = n
				}
			}
			if x == random {
				k = 1
			}
			var outs []Outcome
			for i := int64(0); i < k; i++ {
				outs = append(outs, Outcome{st: st.clone(), res: []*Term{mkInt(i)}})
			}
			return outs, k > 0
		}
		return tsTextModel(e, st, cc)
	}
	for n := 0; n <= 4; n++ {
		e := newEngine(ts.GoProg, cl)
		st := newState()
		var us []*Term
		for i := 0; i < n; i++ {
			us = append(us, mkApp("unit", nil, mkNamed(fmt.Sprintf("gram%d", i), tsObjP)))
		}
		in := e.tsArray(st, mkApp("cat", nil, us...))
		con := fmt.Sprintf("order of %d", n)
		k := 0
		for _, o := range e.Run(f, []*Term{in}, nil, st) {
			if !o.st.facts.satisfiable() {
				continue
			}
			k++
			if o.panic {
				c.Obl("client", con, false, o.pos, "putting the n-grams in another order fails")
				continue
			}
			items, ok := textUnits(e.sliceSeq(o.st, e.tsItems(o.st, unbox(o.res[0])), tsAnyT))
			seen := map[*Term]bool{}
			for _, it := range items {
				it = unbox(it)
				ok = ok && !seen[it] && it.op == TSym
				seen[it] = true
			}
			for _, u := range us {
				ok = ok && seen[u.args[0]]
			}
			c.Obl("client", con, ok && len(items) == n, o.pos, "n-grams are lost, repeated or invented when they are put in another order")
		}
		c.Obl("client", con, k > 0, f.Pos, "putting the n-grams in another order never ends")
		c.Problems(e, con)
	}
}
