package main

// C27: the n-grams of a text.

import (
	"fmt"
	"strconv"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C27",
		Title: "a text is cut into exactly the n-grams of its words",
		Rules: "Every text of up to 4 characters of six classes (small letter, capital, digit, white space, other ASCII, outside of ASCII), and of up to 6 (8 thorough) small letters, blanks and characters outside of ASCII, the characters themselves being arbitrary within their class, is cut into n-grams of length 1, 2 and 3, every path being followed. (grams) the n-grams are, in order, the windows of that many consecutive letters and digits of each word, in lower case, and no others; words are separated by white space only, other characters are left out. (place) the offset of an n-gram is the number of characters before its first one in the normalised text, and its length reaches to its last one. (client) for every range of lengths, the tokenizer of the client cuts a text of up to 3 such characters, and of up to 4 (5 thorough) small letters, blanks and characters outside of ASCII, into the same n-grams, with the bytes of each as key and the type of its length; the order drawn for them holds each exactly once. Nothing panics.",
		Trust: []string{"Go type checker and go/ssa construction", "NFKD normalisation", "utf8, unicode and strings functions on single characters"},
		Run:   runC27,
	})
}

const gramClasses = "aA0 -é😀" // one representative names each class

func gramChar(cl rune, i int) *Term {
	r := map[rune][2]int64{'a': {'a', 'z'}, 'A': {'A', 'Z'}, '0': {'0', '9'}, ' ': {'\t', '\r'}, '-': {'!', '/'}, ':': {':', '@'}, '[': {'[', '`'}, '{': {'{', '~'}, 's': {' ', ' '}, '\x00': {0, 8}, '\x0e': {14, 31}, '\x7f': {127, 127}, 'ü': {0x2500, 0x257f}, 'é': {0x4e00, 0x9fff}, '😀': {0x1f600, 0x1f64f}}[cl]
	return rng(mkNamed(fmt.Sprintf("char%d%c", i, cl), tRuneT), r[0], r[1])
}

func gramTexts(classes string, n int, f func(string)) {
	var rec func(p string, n int)
	rec = func(p string, n int) {
		f(p)
		if n == 0 {
			return
		}
		for _, c := range classes {
			rec(p+string(c), n-1)
		}
	}
	rec("", n)
}

// others are texts with the characters of less common kinds.
func others(f func(string)) {
	for _, c := range ":[{s\x00\x0e\x7fü" {
		for _, s := range []string{"%c", "a%c", "%ca", "a%ca", "aa%caa", "a %ca"} {
			f(fmt.Sprintf(s, c))
		}
	}
}

type gram struct {
	word     []*Term
	off, len int64
}

// gramsOf are the n-grams a text has to have.
func gramsOf(text string, n int) []gram {
	var r []gram
	cs := []rune(text)
	var word []int
	flush := func() {
		for i := 0; i+n <= len(word); i++ {
			g := gram{off: int64(word[i]), len: int64(word[i+n-1] - word[i] + 1)}
			for _, k := range word[i : i+n] {
				g.word = append(g.word, lowered(gramChar(cs[k], k)))
			}
			r = append(r, g)
		}
		word = nil
	}
	for i, c := range cs {
		switch c {
		case 'a', 'A', '0':
			word = append(word, i)
		case ' ', 's':
			flush()
		}
	}
	flush()
	return r
}

type gramT struct {
	c          *Ctx
	g          *GoProg
	f          *Func
	T, list    *Type
	word       string
	off, len   string
	textAt, at int // parameters
}

func runC27(c *Ctx) {
	q := &gramT{c: c, g: c.Prog("", "linux")}
	if !q.find() {
		c.Missing("grams", "the function that cuts a text into n-grams of a length: func(string, int) []Token")
		return
	}
	c.Fn(q.f)
	run := func(s string) {
		for n := 1; n <= 3; n++ {
			q.cut(s, n)
		}
	}
	gramTexts(gramClasses, 4, run)
	others(run)
	k := 6
	if c.thorough() {
		k = 7
	}
	gramTexts("a é😀", k, func(s string) {
		if len([]rune(s)) > 4 {
			run(s)
		}
	})
	q.tsGrams()
	c.Min("grams", 3)
	c.Min("place", 3)
}

func (q *gramT) find() bool {
	for _, f := range q.g.all {
		if f.Pkg != "ngram" || f.Recv != "" || len(f.ParamT) != 2 || len(f.Results) == 0 || strings.Contains(f.Short, "$") || f.Short[0] < 'A' || f.Short[0] > 'Z' {
			continue
		}
		if f.ParamT[0].Kind != "string" || f.ParamT[1].Kind != "int" || f.Results[0].Kind != "slice" {
			continue
		}
		t := f.Results[0].Elem
		if t.Kind == "ptr" || t.Kind != "struct" || t.field("Offset") == nil || t.field("Length") == nil {
			continue
		}
		for _, x := range t.Fields {
			if x.Typ.Kind == "string" {
				q.word = x.Name
			}
		}
		if q.word == "" {
			continue
		}
		q.f, q.T, q.list = f, t, f.Results[0]
		return true
	}
	return false
}

func (q *gramT) client() *Client {
	k := 0
	return &Client{Paths: 24, Live: 4096, MaxDepth: 16, Recurse: 10, Ordered: true, Text: true,
		Inline:   func(f *Func) bool { return f.Pkg == "ngram" },
		MergeKey: func(*State) string { k++; return strconv.Itoa(k) },
		Call: func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
			if strings.Contains(cc.Name, "unicode/norm.") && strings.HasSuffix(cc.Name, ".String") {
				if t := cc.Args[len(cc.Args)-1]; t.op != TApp || t.s != "unnormalised" {
					return one(st, t), true
				} else if q.nfkd(cc) {
					return one(st, t.args[0]), true
				} else if e.rawText(st, t) {
					return nil, true
				}
			}
			return nil, false
		},
		OnRangeNext: func(e *Engine, st *State, coll *Term, in *Instr) { e.rawText(st, coll) },
		OnBounds: func(e *Engine, st *State, kind string, idx, n *Term, in *Instr) {
			if e.dry > 0 || kind != "index" && kind != "slicelo" && kind != "slicehi" {
				return
			}
			ok := st.facts.implied(tLe(tZero, idx)) && st.facts.implied(tLe(idx, n))
			if kind == "index" {
				ok = ok && st.facts.implied(tLt(idx, n))
			}
			q.c.Obl("grams", "in range", ok, in.Pos, "a place outside of a list is used")
		},
	}
}

func (q *gramT) cut(text string, n int) {
	con := fmt.Sprintf("length %d", n)
	var rs []*Term
	for i, c := range []rune(text) {
		rs = append(rs, gramChar(c, i))
	}
	e := newEngine(q.g, q.client())
	want := gramsOf(text, n)
	k := 0
	in := mkText(rs)
	if text == "é" {
		in = mkApp("unnormalised", tStrT, in)
	}
	for _, o := range e.Run(q.f, []*Term{in, mkInt(int64(n))}, nil, newState()) {
		if !o.st.facts.satisfiable() {
			continue
		}
		k++
		what := fmt.Sprintf("the text %q (each letter any of its kind, é any character outside of ASCII): ", text)
		if o.panic {
			q.c.Obl("grams", con, false, o.pos, what+"it panics")
			continue
		}
		items, ok := textUnits(e.sliceSeq(o.st, o.res[0], q.T))
		q.c.Obl("grams", con, ok && len(items) == len(want), o.pos, what+fmt.Sprintf("%d n-grams instead of %d", len(items), len(want)))
		if !ok || len(items) != len(want) {
			continue
		}
		for i, it := range items {
			w, ok := textOf(mkField(it, q.word, tStrT))
			same := ok && len(w) == len(want[i].word)
			for j := 0; same && j < len(w); j++ {
				same = w[j] == want[i].word[j]
			}
			q.c.Obl("grams", con, same, o.pos, what+fmt.Sprintf("the n-gram number %d is another: %s", i, mkField(it, q.word, tStrT)))
			off, ok1 := constI(o.st.facts.norm(mkField(it, "Offset", q.T.field("Offset"))))
			ln, ok2 := constI(o.st.facts.norm(mkField(it, "Length", q.T.field("Length"))))
			q.c.Obl("place", con, ok1 && ok2 && off == want[i].off && ln == want[i].len, o.pos, what+fmt.Sprintf("the n-gram number %d is at %d for %d, not at %d for %d", i, off, ln, want[i].off, want[i].len))
		}
	}
	q.c.Obl("grams", con, k > 0, q.f.Pos, "it never ends")
	q.c.Count("texts", 1)
	q.c.Count("paths", k)
	q.c.Problems(e, con)
}

// nfkd: the form the text is normalised to is NFKD.
func (q *gramT) nfkd(cc *CallCtx) bool {
	k, ok := constI(cc.Args[0])
	return ok && k == 3
}
