package main

// C16: every value of a record is indexed once, under its path and type, with
// the key and the place in the data file that a reader of the index relies on.
// C26: a record that is valid is never refused.
//
// A record is followed token by token on an abstract document: the decoder may
// return any token that can follow in a well-formed document, or fail.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C16",
		Title: "every value is indexed once under its path, type, key and place",
		Rules: "Each data handler is analysed on an abstract record. JSON Lines: the decoder returns any token a well-formed document allows or fails; the function that handles an object is analysed by itself for any path, its recursive calls by the contract that they consume exactly the nested object. (walk) the handler and the decoder agree on the position: nested objects are handed on with the path extended by their key and consumed once, arrays are left only after their closing bracket; (name) an index is looked up under the path and key joined by dots; (type) its type is the one of the value's token, or, for a string of a field to be searched, one of the n-gram types; (width) the tree is opened with the width of that index and the key inserted has that width; (key) the key inserted is what the tree's own parser yields for the same value (n-grams: the word of the n-gram, for every n-gram of the length of that type, in order); (tree) the insertion goes to the tree of the index looked up last, over the same data file; (place) the value's place starts behind the colon after its key and ends where the decoder stopped behind the value; (every) each scalar is inserted once into the index of its type, every object and array is registered, and a string of a searched field gets all n-gram types. CSV: each column of a record, in order, is inserted once, under its header's name; type and key agree with the text of the field; the place starts behind the preceding fields and their separators.",
		Trust: []string{"Go type checker and go/ssa construction", "encoding/json's Decoder returns the tokens of a well-formed document in order and InputOffset the end of the last one", "only white space and one colon separate a key from its value", "64-bit offsets do not overflow, lengths are below 2^31", "BuildNgram returns words of the length asked for"},
		Run:   runC16,
	})
	register(&Check{
		ID:    "C26",
		Title: "a valid JSON record is never refused",
		Rules: "The walk of C16 over an abstract well-formed record, for any token sequence: (accept) once the opening brace of a record was read, neither the function that handles an object nor Synchronize reports an error unless the decoder or an operation on the index failed on that path; (panic) no panic is reachable on it.",
		Trust: []string{"Go type checker and go/ssa construction", "encoding/json's Decoder returns the tokens of a well-formed document in order"},
		Run:   runC26,
	})
}

// positions in the document
const (
	jNone  = iota // no record yet
	jStart        // before the record's first token
	jObj          // in an object, before a key or its end
	jKey          // a key follows
	jVal          // a value follows
	jEnd          // the end of the object follows
	jAfter        // behind the object
	jArr          // in an array that the handler skips
	jBad          // not an object
)

type walker struct {
	c      *Ctx
	g      *GoProg
	accept bool // C26 instead of C16
	idxT   *Type
	h      *Func // handles an object
	root   *Func
	cfg    string
	f      *Term // the index file
	r      *Term // the data file
	dec    *Term
	path   *Term
	rec    *Term
	recArg map[*Func]int
	csvP   int   // the parameter with the prefix of the names of columns
	csvS   *Term // the record's fields
	after  bool  // the handler consumes the object's end
	use    bool  // numbers arrive as json.Number
	delim  *Type
	number *Type
	widths map[int64]int64
	ngrams map[int64]string // n-gram field types
	base   map[string]int64 // token kind -> field type
	names  map[int64]string // field type -> name
	widthF *Func

	cst, cnest, csq, ctot, coff, ckeyEnd, ckey, ctok, ckind, cpend, ccolon, cnocolon, cfail, chint, cwin, cngl, cngn, cngk *Term
	cflag                                                                                                                  map[int64]*Term
}

func (w *walker) ghosts() []*Term {
	g := []*Term{w.cst, w.cnest, w.csq, w.ctot, w.coff, w.ckeyEnd, w.ckey, w.ctok, w.ckind, w.cpend, w.ccolon, w.cnocolon, w.cfail, w.chint, w.cwin, w.cngl, w.cngn, w.cngk}
	for _, k := range w.ngramTypes() {
		g = append(g, w.cflag[k])
	}
	return g
}

func (w *walker) ngramTypes() []int64 {
	var r []int64
	for k := range w.ngrams {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (w *walker) init(st *State, pos int) {
	gc := ghostCell
	w.cst, w.cnest, w.csq, w.ctot = gc("json.position", tIntT), gc("json.nest", tIntT), gc("json.squares", tIntT), gc("json.brackets", tIntT)
	w.coff, w.ckeyEnd, w.ckey, w.ctok, w.ckind = gc("json.offset", tIntT), gc("json.keyend", tIntT), gc("json.key", nil), gc("json.token", nil), gc("json.kind", tIntT)
	w.cpend, w.ccolon, w.cnocolon, w.cfail, w.chint = gc("json.pending", tIntT), gc("json.colon", tIntT), gc("json.nocolon", tIntT), gc("json.failed", tIntT), gc("json.hint", tIntT)
	w.cwin, w.cngl, w.cngn, w.cngk = gc("json.window", nil), gc("ngram.list", nil), gc("ngram.next", tIntT), gc("ngram.len", tIntT)
	w.cflag = map[int64]*Term{}
	for _, k := range w.ngramTypes() {
		w.cflag[k] = gc(fmt.Sprintf("ngram.done%d", k), tIntT)
	}
	for _, c := range w.ghosts() {
		st.mem[c] = tZero
	}
	st.mem[w.cst] = mkInt(int64(pos))
	st.mem[w.ccolon] = mkInt(-1)
}

func constOf(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	k, ok := isConst(t)
	if !ok || !k.IsInt64() {
		return 0, false
	}
	return k.Int64(), true
}

// behindArray: the array that was skipped has been left.
func (w *walker) behindArray(st *State) {
	if k, ok := w.at(st, w.cst); ok && k == jObj {
		st.mem[w.cst], st.mem[w.csq], st.mem[w.ctot] = mkInt(jObj), tZero, tZero
	}
}

func (w *walker) at(st *State, c *Term) (int64, bool) {
	if c == w.cst && st.mem[c] == mkInt(jArr) {
		// square brackets are open exactly while any are
		for _, n := range []*Term{st.mem[w.csq], st.mem[w.ctot]} {
			if st.facts.implied(tEq(n, tZero)) {
				return jObj, true
			}
			if st.facts.implied(tLe(tOne, n)) {
				return jArr, true
			}
		}
		return 0, false
	}
	v := st.mem[c]
	if k, ok := constOf(v); ok {
		return k, true
	}
	if k, ok := constOf(st.facts.norm(v)); ok {
		return k, true
	}
	for k := int64(0); k <= jBad && v != nil && v.op == TSym; k++ {
		if st.facts.implied(tEq(v, mkInt(k))) {
			return k, true
		}
	}
	return 0, false
}

func (w *walker) is(st *State, c *Term, k int64) bool {
	v, ok := w.at(st, c)
	return ok && v == k
}

// obl judges one of C16's rules, or one of C26's.
func (w *walker) obl(e *Engine, accept bool, rule, con string, ok bool, pos, msg string) {
	if e != nil && e.dry > 0 || accept != w.accept {
		return
	}
	w.c.Obl(rule, w.cfg+": "+con, ok, pos, msg)
}

// shape finds the roles the analysis needs.
func (w *walker) shape() string {
	w.idxT = w.g.namedT("appendable.IndexMeta")
	if w.idxT == nil {
		return "the metadata of an index"
	}
	var ftT types.Type
	for _, f := range w.g.all {
		if f.Pkg == "appendable" && f.Recv == "" && f.Exported && len(f.ParamT) == 1 && f.ParamT[0].Name == "appendable.FieldType" && len(f.Results) == 1 && f.Results[0].Kind == "int" && f.Results[0].Bits == 16 {
			w.widthF = f
			ftT = f.ParamT[0].gt
		}
	}
	if w.widthF == nil || ftT == nil {
		return "the width of a field type"
	}
	named, ok := ftT.(*types.Named)
	if !ok {
		return "the field types"
	}
	w.widths, w.ngrams, w.base, w.names = map[int64]int64{}, map[int64]string{}, map[string]int64{}, map[int64]string{}
	scope := named.Obj().Pkg().Scope()
	for _, n := range scope.Names() {
		cn, ok := scope.Lookup(n).(*types.Const)
		if !ok || !types.Identical(cn.Type(), ftT) {
			continue
		}
		v, ok := new(big.Int).SetString(cn.Val().ExactString(), 10)
		if !ok {
			continue
		}
		k := v.Int64()
		short := strings.TrimPrefix(n, "FieldType")
		w.names[k] = short
		if strings.HasSuffix(short, "gram") {
			w.ngrams[k] = short
		} else {
			w.base[short] = k
		}
		outs := newEngine(w.g, &Client{}).Run(w.widthF, []*Term{mkInt(k)}, nil, newState())
		if len(outs) == 1 && !outs[0].panic {
			if v, ok := constOf(outs[0].res[0]); ok {
				w.widths[k] = v
			}
		}
	}
	for _, n := range []string{"String", "Float64", "Boolean", "Null", "Object", "Array"} {
		k, ok := w.base[n]
		if !ok {
			return "the field type for " + n
		}
		if _, ok := w.widths[k]; !ok {
			return "the width of the field type for " + n
		}
	}
	return ""
}

func isDecoder(t *Type) bool {
	return t != nil && t.Kind == "ptr" && t.Elem != nil && strings.HasSuffix(t.Elem.Name, "json.Decoder")
}

func decoderParam(f *Func) int {
	for i, t := range f.ParamT {
		if isDecoder(t) {
			return i
		}
	}
	return -1
}

// jsonTypes finds the token types through the decoder's package.
func (w *walker) jsonTypes(t *Type) bool {
	if t.Elem == nil || t.Elem.gt == nil {
		return false
	}
	n, ok := t.Elem.gt.(*types.Named)
	if !ok {
		return false
	}
	look := func(name string) *Type {
		o := n.Obj().Pkg().Scope().Lookup(name)
		if o == nil {
			return nil
		}
		return w.g.typ(o.Type())
	}
	w.delim, w.number = look("Delim"), look("Number")
	return w.delim != nil && w.number != nil
}

// reachesFn: to can be reached from f through calls.
func reachesFn(f, to *Func, seen map[*Func]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	r := false
	eachInstr(f, func(in *Instr) {
		if in.Call != nil && in.Call.Fn != nil && !r {
			r = in.Call.Fn == to || reachesFn(in.Call.Fn, to, seen)
		}
	})
	return r
}

// objectHandler is the recursive function that Synchronize hands a decoder.
func (w *walker) objectHandler() *Func {
	var cand []*Func
	for _, f := range w.g.all {
		if f.Pkg == "handlers" && len(f.Blocks) > 0 && decoderParam(f) >= 0 && len(memPtrParams(f)) > 0 && reachesFn(f, f, map[*Func]bool{}) {
			cand = append(cand, f)
		}
	}
	for _, f := range cand {
		for _, x := range w.g.all {
			if x == f || x.Pkg != "handlers" || !callsFn(x, f) {
				continue
			}
			if !reachesFn(f, x, map[*Func]bool{}) {
				return f
			}
		}
	}
	return nil
}

func (w *walker) fail(st *State) { st.mem[w.cfail] = tOne }

func (w *walker) delimTok(c byte) *Term { return mkIface(w.delim, mkInt(int64(c))) }

// advance moves the decoder behind one more token.
func (w *walker) advance(st *State) {
	o := rng(mkSym("offset", &Type{Kind: "int", Bits: 64, Signed: true, str: "int64"}), 0, 1<<62)
	st.facts.assume(tLt(st.mem[w.coff], o))
	st.mem[w.coff] = o
	st.mem[w.chint] = tZero
}

// settled: nothing of the previous value is outstanding.
func (w *walker) settled(e *Engine, st *State, pos string) {
	if n, ok := w.at(st, w.cnest); ok && n > 0 || e.dry > 0 {
		return
	}
	con := w.root.Name
	pend := st.mem[w.cpend]
	w.obl(e, false, "every", con+": value", st.facts.implied(tEq(pend, tZero)), pos, "the handler goes on although the value read last was not inserted into the index of its type (object, array: not registered)")
	w.ngDone(e, st, pos)
	tok := st.mem[w.ctok]
	if tok == nil || tok.op != TIface || tok.typ.Kind != "string" {
		return
	}
	sc := w.searched(w.nameOf(e, st))
	for _, k := range w.ngramTypes() {
		done := st.facts.implied(tEq(st.mem[w.cflag[k]], tOne))
		w.obl(e, false, "every", con+": "+w.ngrams[k], done || st.facts.refuted(sc), pos, "a string of a searched field is not indexed by its "+strings.ToLower(w.ngrams[k])+"s")
	}
}

// ngDone: all n-grams of the last list were inserted.
func (w *walker) ngDone(e *Engine, st *State, pos string) {
	l := st.mem[w.cngl]
	if l == tZero || e.dry > 0 {
		return
	}
	w.obl(e, false, "every", w.root.Name+": n-grams", st.facts.implied(tEq(st.mem[w.cngn], seqLen(l))), pos, "not every n-gram of the value is inserted")
}

func (w *walker) searched(name *Term) *Term { return mkApp("searched", tBoolT, name) }

// nameOf is the name of the index of the current key.
func (w *walker) nameOf(e *Engine, st *State) *Term {
	key := st.mem[w.ckey]
	return mkApp("joined.name", nil, w.pathSeq(e, st), key)
}

func (w *walker) pathSeq(e *Engine, st *State) *Term {
	if w.path == nil {
		return mkApp("cat", nil)
	}
	return e.sliceSeq(st, w.path, &Type{Kind: "string", str: "string"})
}

// isName: t joins the path and the key by dots.
func (w *walker) isName(e *Engine, st *State, t *Term) bool {
	key := st.mem[w.ckey]
	want := e.seqCat(st.facts, w.pathSeq(e, st), mkApp("cat", nil, mkApp("unit", nil, key)))
	if t.op == TApp && t.s == "strings.Join" && len(t.args) == 2 {
		sep := t.args[1]
		return sep.op == TStr && sep.s == "." && seqSame(st.facts, t.args[0], want)
	}
	// joined by hand
	n := seqLen(w.pathSeq(e, st))
	ps := concatParts(t)
	switch len(ps) {
	case 1:
		return ps[0] == key && st.facts.implied(tEq(n, tZero))
	case 3:
		return ps[2] == key && isDot(ps[1]) && isJoin(ps[0]) && seqSame(st.facts, ps[0].args[0], w.pathSeq(e, st)) && st.facts.implied(tLe(tOne, n))
	}
	return false
}

// concatParts are the operands of a concatenation of strings.
func concatParts(t *Term) []*Term {
	if t.op == TApp && t.s == "concat" && len(t.args) == 2 {
		return append(concatParts(t.args[0]), concatParts(t.args[1])...)
	}
	return []*Term{t}
}

func isDot(t *Term) bool { return t.op == TStr && t.s == "." }

func isJoin(t *Term) bool {
	return t.op == TApp && t.s == "strings.Join" && len(t.args) == 2 && isDot(t.args[1])
}

func (w *walker) token(e *Engine, st *State, pos string) []Outcome {
	var outs []Outcome
	failed := func() {
		s := st.clone()
		w.fail(s)
		w.advance(s)
		outs = append(outs, Outcome{st: s, res: []*Term{tNil, ioError(s, "token")}})
	}
	give := func(tok *Term, do func(*State)) {
		s := st.clone()
		w.advance(s)
		do(s)
		if !s.facts.dead {
			outs = append(outs, Outcome{st: s, res: []*Term{tok, tNil}})
		}
	}
	to := func(k int) func(*State) {
		return func(s *State) { s.mem[w.cst] = mkInt(int64(k)) }
	}
	k, known := w.at(st, w.cst)
	if !known {
		if e.dry == 0 {
			w.obl(e, false, "walk", w.root.Name+": position", false, pos, "the position in the record is lost: what follows may be read as something else")
		}
		failed()
		return outs
	}
	strT, floatT := w.g.typ(types.Typ[types.String]), w.g.typ(types.Typ[types.Float64])
	key := func() {
		give(mkIface(strT, tNil), func(s *State) {})
		o := &outs[len(outs)-1]
		v := mkSym("key", strT)
		o.res[0] = mkIface(strT, v)
		s := o.st
		s.mem[w.cst], s.mem[w.ckey], s.mem[w.ckeyEnd] = mkInt(jVal), v, s.mem[w.coff]
		s.mem[w.ctok], s.mem[w.ccolon], s.mem[w.cnocolon], s.mem[w.cngl], s.mem[w.cngn] = tZero, mkInt(-1), tZero, tZero, tZero
	}
	end := func() {
		give(w.delimTok('}'), func(s *State) {
			n, ok := w.at(s, w.cnest)
			switch {
			case ok && n == 0:
				s.mem[w.cst] = mkInt(jAfter)
			default:
				s.mem[w.cnest] = tAddK(s.mem[w.cnest], -1)
				s.mem[w.cst] = mkInt(jObj)
			}
		})
	}
	switch k {
	case jStart:
		give(w.delimTok('{'), to(jObj))
		give(mkSym("othertoken", nil), to(jBad))
		o := outs[len(outs)-1]
		o.st.facts.assume(tNot(tEq(o.res[0], w.delimTok('{'))))
		failed()
	case jObj:
		w.settled(e, st, pos)
		key()
		end()
		failed()
	case jKey:
		key()
		failed()
	case jEnd:
		end()
		failed()
	case jVal:
		failed()
		if st.mem[w.cnocolon] == tOne {
			break
		}
		val := func(kind int64, tok *Term, next int) {
			give(tok, func(s *State) {
				s.mem[w.cst] = mkInt(int64(next))
				if n, ok := w.at(s, w.cnest); ok && n == 0 || next == jArr && ok && n == 0 {
					s.mem[w.cpend], s.mem[w.ckind], s.mem[w.ctok] = tOne, mkInt(kind), tok
					for _, k := range w.ngramTypes() {
						s.mem[w.cflag[k]] = tZero
					}
				}
				switch {
				case tok == w.delimTok('{'):
					s.mem[w.cnest] = tAddK(s.mem[w.cnest], 1)
				case tok == w.delimTok('['):
					s.mem[w.csq], s.mem[w.ctot] = tOne, tOne
				}
			})
		}
		val(w.base["Object"], w.delimTok('{'), jObj)
		val(w.base["Array"], w.delimTok('['), jArr)
		val(w.base["String"], mkIface(strT, mkSym("string", strT)), jObj)
		num := mkSym("number", floatT)
		val(w.base["Float64"], mkIface(floatT, num), jObj)
		if w.use {
			lit := mkSym("literal", strT)
			val(w.base["Float64"], mkIface(w.number, lit), jObj)
		}
		val(w.base["Boolean"], mkIface(tBoolT, tTrue), jObj)
		val(w.base["Boolean"], mkIface(tBoolT, tFalse), jObj)
		val(w.base["Null"], tNil, jObj)
	case jArr:
		hint, _ := w.at(st, w.chint)
		failed()
		sq, tot := st.mem[w.csq], st.mem[w.ctot]
		if hint != 2 { // not at an end
			give(w.delimTok('['), func(s *State) { s.mem[w.csq], s.mem[w.ctot] = tAddK(sq, 1), tAddK(tot, 1) })
			give(w.delimTok('{'), func(s *State) { s.mem[w.ctot] = tAddK(tot, 1) })
			give(mkIface(strT, mkSym("element", strT)), func(*State) {})
			give(mkIface(floatT, mkSym("element", floatT)), func(*State) {})
			if w.use {
				give(mkIface(w.number, mkSym("element", strT)), func(*State) {})
			}
			give(mkIface(tBoolT, mkSym("element", tBoolT)), func(*State) {})
			give(tNil, func(*State) {})
		}
		if hint != 1 {
			give(w.delimTok(']'), func(s *State) { // the last one
				s.facts.assume(tEq(sq, tOne))
				s.facts.assume(tEq(tot, tOne))
				s.mem[w.csq], s.mem[w.ctot] = tZero, tZero
			})
			give(w.delimTok(']'), func(s *State) {
				s.facts.assume(tLe(mkInt(2), sq))
				s.facts.assume(tLe(mkInt(2), tot))
				s.mem[w.csq], s.mem[w.ctot] = tAddK(sq, -1), tAddK(tot, -1)
			})
			give(w.delimTok('}'), func(s *State) {
				s.facts.assume(tLt(sq, tot))
				s.facts.assume(tLe(mkInt(2), tot))
				s.mem[w.ctot] = tAddK(tot, -1)
			})
		}
	default:
		give(mkSym("othertoken", nil), func(*State) {})
		failed()
	}
	return outs
}

func (w *walker) more(e *Engine, st *State, pos string) []Outcome {
	k, known := w.at(st, w.cst)
	ans := func(s *State, v *Term) Outcome { return Outcome{st: s, res: []*Term{v}} }
	if !known {
		w.obl(e, false, "walk", w.root.Name+": position", false, pos, "the position in the record is lost: what follows may be read as something else")
		return []Outcome{ans(st, tFalse)}
	}
	switch k {
	case jObj:
		w.settled(e, st, pos)
		s2 := st.clone()
		st.mem[w.cst] = mkInt(jKey)
		s2.mem[w.cst] = mkInt(jEnd)
		return []Outcome{ans(st, tTrue), ans(s2, tFalse)}
	case jKey, jVal:
		return []Outcome{ans(st, tTrue)}
	case jEnd:
		return []Outcome{ans(st, tFalse)}
	case jArr:
		s2 := st.clone()
		st.mem[w.chint] = tOne
		s2.mem[w.chint] = mkInt(2)
		return []Outcome{ans(st, tTrue), ans(s2, tFalse)}
	}
	return []Outcome{ans(st, mkSym("more", tBoolT))}
}

// colon recognises the search for the colon behind the key.
func (w *walker) colon(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
	var sep *Term
	switch cc.Name {
	case "bytes.IndexByte", "bytes.IndexRune":
		sep = cc.Args[1]
	case "bytes.Index":
		s := e.sliceSeq(st, cc.Args[1], byteT)
		if seqLen(s) == tOne {
			sep = e.seqAt(st.facts, s, tZero, byteT)
		}
	}
	if k, ok := constOf(sep); !ok || k != ':' {
		return nil, false
	}
	off, n, ok := inFile(w.r, cc.Args[0])
	if !ok || !st.facts.implied(tEq(off, tAdd(w.recOff(), st.mem[w.ckeyEnd]))) {
		return nil, false
	}
	end := tAdd(off, n)
	if !st.facts.implied(tEq(end, lenOf(w.r))) && !st.facts.implied(tEq(end, tAdd(w.recOff(), mkField(w.rec, "Length", nil)))) {
		return nil, false
	}
	idx := rng(mkSym("colon", tIntT), 0, 1<<62)
	k, _ := w.at(st, w.cst)
	var outs []Outcome
	if k == jVal {
		s2 := st.clone()
		s2.mem[w.cnocolon] = tOne
		outs = append(outs, Outcome{st: s2, res: []*Term{mkInt(-1)}})
	}
	st.facts.assume(tLe(tZero, idx))
	st.facts.assume(tLt(idx, n))
	st.mem[w.ccolon] = tAdd(st.mem[w.ckeyEnd], idx)
	return append(outs, Outcome{st: st, res: []*Term{idx}}), true
}

func (w *walker) recOff() *Term { return mkField(w.rec, "Offset", uint64T) }

var uint64T = &Type{Kind: "int", Bits: 64, str: "uint64"}

// unwrapDeep removes integer conversions everywhere in a sum.
func unwrapDeep(t *Term) *Term {
	m := map[*Term]*Term{}
	subterms(t, map[*Term]bool{}, func(x *Term) {
		if x.op == TApp && strings.HasPrefix(x.s, "wrap:") {
			m[x] = unwrapInt(x)
		}
	})
	for i := 0; i < 4 && len(m) > 0; i++ {
		n := replaceTerms(t, m)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// client is shared by the roots that see JSON.
func (w *walker) client() *Client {
	cl := &Client{Unroll: 12, Ghost: []string{ghostKey}, MaxDepth: 12}
	cl.Inline = func(fn *Func) bool {
		switch fn.Pkg {
		case "handlers":
			return fn != w.h
		case "linkedpage", "bptree":
			return len(fn.Results) == 1 && fn.Results[0].Kind == "ptr" && fn.Results[0].Elem.Name == "bptree.BPTree"
		}
		return false
	}
	cl.MergeKey = func(st *State) string {
		k := ""
		for _, c := range w.ghosts() {
			if v := st.mem[c]; v != nil {
				k += fmt.Sprintf("|%d", v.id)
			}
		}
		return k
	}
	cl.ExtraCands = func(e *Engine, st *State, fn *Func, h int) []*Term {
		var out []*Term
		add := func(v, t *Term) {
			for k := int64(-1); k <= 1; k++ {
				out = append(out, tEq(v, tAddK(t, k)))
			}
		}
		for _, v := range st.env {
			if v.op != TSym || v.typ == nil || v.typ.Kind != "int" {
				continue
			}
			if st.mem[w.cst] == mkInt(jArr) {
				add(v, st.mem[w.ctot])
				add(v, st.mem[w.csq])
			}
			if st.mem[w.cngl] != tZero {
				add(v, st.mem[w.cngn])
			}
		}
		for _, c := range w.ghosts() {
			v := st.mem[c]
			if c.typ != tIntT || v.op != TSym {
				continue
			}
			hi := int64(1)
			if c == w.cst {
				hi = jBad
			}
			for k := int64(0); k <= hi; k++ {
				out = append(out, tEq(v, mkInt(k)))
			}
		}
		out = append(out, tLe(tOne, st.mem[w.csq]), tLe(tZero, st.mem[w.csq]), tLe(tOne, st.mem[w.ctot]), tLe(tZero, st.mem[w.ctot]))
		if l := st.mem[w.cngl]; l != tZero && l.op != TSym {
			out = append(out, tLe(st.mem[w.cngn], seqLen(l)))
		}
		return out
	}
	cl.OnExitLoop = func(e *Engine, st *State, fn *Func, h int) {
		w.behindArray(st)
		l := st.mem[w.cngl]
		if l != tZero && l.op == TApp && st.facts.implied(tEq(st.mem[w.cngn], seqLen(l))) {
			st.mem[w.cngl], st.mem[w.cngn] = tZero, tZero
		}
	}
	cl.OnBack = func(e *Engine, st *State, fn *Func, h int) {
		if e.dry > 0 {
			return
		}
		k := fmt.Sprintf("%s:b%d", fn.Name, h)
		for i := len(st.trace) - 1; i >= 0; i-- {
			ev := st.trace[i]
			if ev.Kind != "loop-begin" || ev.Loop != k {
				continue
			}
			// an iteration that read a key has dealt with its value
			if hs := e.headSt[ev]; hs != nil && hs.mem[w.ckey] != st.mem[w.ckey] && w.is(st, w.cst, jObj) {
				w.settled(e, st, headPos(fn, h))
			}
			return
		}
	}
	cl.Call = w.call
	return cl
}

func (w *walker) call(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
	if strings.HasPrefix(cc.Name, "(*encoding/json.Decoder).") || strings.HasPrefix(cc.Name, "encoding/json.NewDecoder") {
		if cc.Short == "NewDecoder" {
			return w.newDecoder(e, st, cc), true
		}
		if w.dec == nil || cc.Args[0] != w.dec && !st.facts.implied(tEq(cc.Args[0], w.dec)) {
			return nil, false
		}
		w.behindArray(st)
		switch cc.Short {
		case "Token":
			return w.token(e, st, cc.Pos), true
		case "More":
			return w.more(e, st, cc.Pos), true
		case "InputOffset":
			return one(st, st.mem[w.coff]), true
		case "UseNumber", "DisallowUnknownFields":
			return one(st), true
		}
		st.mem[w.cst] = mkSym("position", tIntT)
		return nil, false
	}
	switch cc.Name {
	case "bytes.NewReader", "bytes.NewBuffer":
		return one(st, mkApp("nonnil:reader", resultTypes(cc.In)[0], cc.Args[0])), true
	case "(encoding/json.Number).Float64":
		s2 := st.clone()
		w.fail(s2)
		v := mkApp("floatof", resultTypes(cc.In)[0], cc.Args[0])
		ok := mkApp("isfloat", tBoolT, cc.Args[0])
		st.facts.assume(ok)
		s2.facts.assume(tNot(ok))
		var outs []Outcome
		if !st.facts.dead {
			outs = append(outs, Outcome{st: st, res: []*Term{v, tNil}})
		}
		if !s2.facts.dead {
			outs = append(outs, Outcome{st: s2, res: []*Term{tZero, ioError(s2, "float")}})
		}
		return outs, true
	}
	if w.rec != nil {
		if o, ok := w.colon(e, st, cc); ok {
			return o, true
		}
	}
	if cc.Fn == nil {
		return nil, false
	}
	if cc.Fn == w.h {
		return w.handObject(e, st, cc), true
	}
	if cc.Fn.Pkg == "appendable" {
		if o, ok := w.lookup(e, st, cc); ok {
			return o, true
		}
		if len(cc.Fn.Results) == 1 && cc.Fn.Results[0].Kind == "bool" && len(cc.Args) == 2 && cc.Fn.ParamT[1].Kind == "string" {
			n := cc.Args[1]
			if w.isName(e, st, n) {
				n = w.nameOf(e, st)
			}
			return one(st, w.searched(n)), true
		}
	}
	if isTreeInsert(cc) {
		w.insert(e, st, cc)
		s2 := st.clone()
		w.fail(s2)
		return []Outcome{{st: st, res: []*Term{tNil}}, {st: s2, res: []*Term{ioError(s2, "insert")}}}, true
	}
	if cc.Fn.Pkg == "ngram" && len(cc.Args) == 2 && cc.Fn.ParamT[0].Kind == "string" && cc.Fn.ParamT[1].Kind == "int" && len(cc.Fn.Results) == 1 && cc.Fn.Results[0].Kind == "slice" {
		w.ngDone(e, st, cc.Pos)
		l := seqVarApp(mkApp("ngrams", nil, cc.Args...), rng(mkApp("ngramcount", tIntT, cc.Args...), 0, 1<<40))
		st.mem[w.cngl], st.mem[w.cngn], st.mem[w.cngk] = l, tZero, cc.Args[1]
		tok := st.mem[w.ctok]
		if tok != nil && tok.op == TIface && tok.args[0] == cc.Args[0] {
			for _, k := range w.ngramTypes() {
				if n, ok := constOf(unwrapInt(cc.Args[1])); ok && n == w.widths[k]-1 {
					st.mem[w.cflag[k]] = tOne
				}
			}
		}
		return one(st, e.newSlice(st, "ngrams", cc.Fn.Results[0].Elem, l)), true
	}
	switch cc.Fn.Pkg {
	case "appendable", "linkedpage", "bptree", "metapage", "pagefile", "btree":
		if ei := errResult(cc.Fn.Results); ei >= 0 && !e.cl.Inline(cc.Fn) {
			var outs []Outcome
			for _, o := range e.opaque(st, cc, cc.In) {
				s2 := o.st.clone()
				r2 := append([]*Term{}, o.res...)
				w.fail(s2)
				o.res[ei], r2[ei] = tNil, ioError(s2, cc.Short)
				for i, r := range cc.Fn.Results {
					if r.Kind == "ptr" {
						o.st.facts.assume(tNot(tEq(o.res[i], tNil)))
					}
				}
				outs = append(outs, o, Outcome{st: s2, res: r2})
			}
			return outs, true
		}
	}
	return nil, false
}

func (w *walker) newDecoder(e *Engine, st *State, cc *CallCtx) []Outcome {
	w.dec = mkNamed("nonnil:decoder", resultTypes(cc.In)[0])
	st.mem[w.cst], st.mem[w.cnest], st.mem[w.cpend], st.mem[w.coff] = mkInt(jStart), tZero, tZero, tZero
	st.mem[w.cwin] = tZero
	if x := cc.Args[0]; x.op == TIface && x.args[0].op == TApp && x.args[0].s == "nonnil:reader" {
		st.mem[w.cwin] = x.args[0].args[0]
	}
	return one(st, w.dec)
}

// lookup models the lookup of an index: the slot returned remembers what was
// asked for.
func (w *walker) lookup(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
	mi, pi, ei := -1, -1, errResult(cc.Fn.Results)
	for i, r := range cc.Fn.Results {
		if r.Kind == "ptr" && r.Elem.String() == w.idxT.String() {
			mi = i
		}
		if r.Kind == "ptr" && r.Elem.Name == "linkedpage.LinkedPage" {
			pi = i
		}
	}
	if mi < 0 || pi < 0 || ei < 0 {
		return nil, false
	}
	var name, ft *Term
	for i, t := range cc.Fn.ParamT {
		if t.Kind == "string" {
			name = cc.Args[i]
		}
		if t.Name == "appendable.FieldType" {
			ft = cc.Args[i]
		}
	}
	if name == nil || ft == nil {
		return nil, false
	}
	s2 := st.clone()
	w.fail(s2)
	if w.cst != nil && !w.csv() {
		w.judgeLookup(e, st, name, ft, cc.Pos)
	}
	page := mkApp("nonnil:indexpage", cc.Fn.Results[pi], name, ft)
	o := mkObj("indexmeta", ptrTo(w.idxT))
	for _, fl := range w.idxT.Fields {
		v := mkSym("found."+fl.Name, fl.Typ)
		switch {
		case fl.Typ.Kind == "string":
			v = name
		case fl.Typ.Name == "appendable.FieldType":
			v = ft
		case fl.Typ.Bits == 16:
			if k, ok := constOf(ft); ok {
				if n, ok := w.widths[k]; ok {
					v = mkInt(n)
				}
			} else {
				v = mkApp("widthof", fl.Typ, ft)
			}
		}
		st.mem[fieldAddr(o, w.idxT, fl.Name)] = v
	}
	res, bad := make([]*Term, len(cc.Fn.Results)), make([]*Term, len(cc.Fn.Results))
	for i := range res {
		res[i], bad[i] = tNil, tNil
	}
	res[pi], res[mi] = page, o
	bad[ei] = ioError(s2, "lookup")
	return []Outcome{{st: st, res: res}, {st: s2, res: bad}}, true
}

func (w *walker) csv() bool { return strings.HasPrefix(w.cfg, "CSV") }

func (w *walker) judgeLookup(e *Engine, st *State, name, ft *Term, pos string) {
	con := w.root.Name
	w.obl(e, false, "name", con, w.isName(e, st, name), pos, fmt.Sprintf("the index looked up is not named by the path and the key of the value (%v)", name))
	kind, kok := w.at(st, w.ckind)
	k, fok := constOf(ft)
	tok := st.mem[w.ctok]
	ok := kok && fok && tok != tZero && k == kind
	if kok && fok && !ok && kind == w.base["String"] && tok != tZero {
		if _, ng := w.ngrams[k]; ng {
			ok = !st.facts.refuted(w.searched(w.nameOf(e, st))) && st.facts.implied(w.searched(w.nameOf(e, st)))
		}
	}
	what := "unknown"
	if fok {
		what = w.names[k]
	}
	w.obl(e, false, "type", con, ok, pos, fmt.Sprintf("an index of type %s is used for a value of type %s", what, w.names[kind]))
	if ok && (kind == w.base["Object"] || kind == w.base["Array"]) {
		st.mem[w.cpend] = tZero
	}
}

// handObject applies the contract of the object handler.
func (w *walker) handObject(e *Engine, st *State, cc *CallCtx) []Outcome {
	con := w.root.Name
	w.behindArray(st)
	if e.dry == 0 {
		nest, ok := w.at(st, w.cnest)
		in := w.is(st, w.cst, jObj) && ok && (w.root != w.h || nest == 1)
		w.obl(e, false, "walk", con+": nested", in, cc.Pos, "an object is handed on although the decoder is not behind its opening brace")
		var pathArg, rArg, fArg *Term
		for i, t := range w.h.ParamT {
			switch {
			case t.Kind == "slice" && t.Elem.Kind == "string":
				pathArg = cc.Args[i]
			case t.Kind == "slice" && t.Elem.Bits == 8:
				rArg = cc.Args[i]
			case t.Kind == "ptr" && t.Elem.Name == "appendable.IndexFile":
				fArg = cc.Args[i]
			}
		}
		strT := &Type{Kind: "string", str: "string"}
		want := w.pathSeq(e, st)
		if w.root == w.h {
			want = e.seqCat(st.facts, want, mkApp("cat", nil, mkApp("unit", nil, st.mem[w.ckey])))
		}
		if pathArg != nil {
			w.obl(e, false, "name", con+": nested path", seqSame(st.facts, e.sliceSeq(st, pathArg, strT), want), cc.Pos, "a nested object is not handed on with the path extended by its key (a record: with an empty path)")
		}
		w.obl(e, false, "tree", con+": same file", (rArg == nil || rArg == w.r) && (fArg == nil || fArg == w.f) && cc.Args[decoderParam(w.h)] == w.dec, cc.Pos, "an object is handed on with another decoder, index or data file")
		if w.root != w.h {
			ri := w.recArg[w.h]
			ok := false
			if ri >= 0 {
				win := st.mem[w.cwin]
				if off, _, in := inFile(w.r, win); in {
					ok = st.facts.implied(tEq(off, mkField(cc.Args[ri], "Offset", uint64T)))
				}
			}
			w.obl(e, false, "place", con+": record", ok, cc.Pos, "the decoder does not start at the record: places counted from the record are wrong")
		}
	}
	s2 := st.clone()
	w.fail(s2)
	w.advance(st)
	if w.after {
		n, ok := w.at(st, w.cnest)
		if ok && n > 0 {
			st.mem[w.cnest] = tAddK(st.mem[w.cnest], -1)
			st.mem[w.cst] = mkInt(jObj)
		} else {
			st.mem[w.cst] = mkInt(jAfter)
		}
	} else {
		st.mem[w.cst] = mkInt(jEnd)
	}
	ei := errResult(cc.Fn.Results)
	res, bad := make([]*Term, len(cc.Fn.Results)), make([]*Term, len(cc.Fn.Results))
	for i := range res {
		res[i], bad[i] = tNil, tNil
		if i != ei {
			res[i] = mkSym("res", cc.Fn.Results[i])
		}
	}
	if ei >= 0 {
		bad[ei] = ioError(s2, "object")
	}
	return []Outcome{{st: st, res: res}, {st: s2, res: bad}}
}

type insertion struct {
	page, width, data, parser *Term
	name, ft                  *Term
	k                         int64
	known                     bool
	off, n, val               *Term
}

// insertionOf collects what a tree insertion gets.
func (w *walker) insertionOf(e *Engine, st *State, cc *CallCtx) (insertion, bool) {
	var x insertion
	t := cc.Fn.ParamT[0]
	if t.Kind != "ptr" {
		return x, false
	}
	for _, fl := range t.Elem.Fields {
		v := e.load(st, fieldAddr(cc.Args[0], t.Elem, fl.Name), fl.Typ)
		switch {
		case fl.Name == "MetaPage":
			x.page = v
		case fl.Typ.Kind == "int" && fl.Typ.Bits == 16:
			x.width = v
		case fl.Typ.Kind == "slice" && fl.Typ.Elem.Bits == 8:
			x.data = v
		case fl.Typ.Kind == "iface" && strings.Contains(fl.Typ.Name, "DataParser"):
			x.parser = v
		}
	}
	if x.page == nil || x.width == nil || x.data == nil || x.parser == nil {
		return x, false
	}
	if x.page.op == TIface {
		x.page = x.page.args[0]
	}
	kt := cc.Fn.ParamT[1]
	for _, fl := range kt.Fields {
		v := mkField(cc.Args[1], fl.Name, fl.Typ)
		switch {
		case isMemPtr(fl.Typ):
			x.off, x.n = mkField(v, "Offset", uint64T), mkField(v, "Length", nil)
			for _, m := range fl.Typ.Fields {
				if m.Name == "Length" {
					x.n = mkField(v, "Length", m.Typ)
				}
			}
		case fl.Typ.Kind == "slice":
			x.val = v
		}
	}
	if x.off == nil || x.val == nil {
		return x, false
	}
	if x.page.op == TApp && x.page.s == "nonnil:indexpage" {
		x.name, x.ft = x.page.args[0], x.page.args[1]
		x.k, x.known = constOf(x.ft)
	}
	return x, true
}

func (w *walker) insert(e *Engine, st *State, cc *CallCtx) {
	if w.csv() {
		w.insertCSV(e, st, cc)
		return
	}
	con := w.root.Name
	pos := cc.Pos
	x, ok := w.insertionOf(e, st, cc)
	if !ok || w.rec == nil {
		w.obl(e, false, "tree", con, false, pos, "the tree and the key of an insertion cannot be told")
		return
	}
	w.c.Count("insertions", 1)
	w.obl(e, false, "tree", con+": index", x.known, pos, "the insertion does not go to the tree of an index that was looked up for the value")
	if !x.known {
		return
	}
	w.obl(e, false, "tree", con+": data file", x.data == w.r, pos, "the tree reads its keys from something other than the data file")
	kind, kok := w.at(st, w.ckind)
	tok := st.mem[w.ctok]
	_, ng := w.ngrams[x.k]
	w.obl(e, false, "type", con+": insertion", kok && tok != tZero && (x.k == kind || ng && kind == w.base["String"]) && w.isName(e, st, x.name), pos, fmt.Sprintf("a value of type %s is inserted into an index of type %s or of another field", w.names[kind], w.names[x.k]))
	con += ": " + w.names[x.k]
	wd, ok := w.widths[x.k]
	w.obl(e, false, "width", con, ok && st.facts.implied(tEq(x.width, mkInt(wd))), pos, fmt.Sprintf("the tree is opened with width %v although the index declares %d", x.width, wd))
	if ok && wd > 0 && !ng {
		w.obl(e, false, "width", con+": key", st.facts.implied(tEq(lenOf(x.val), mkInt(wd-1))), pos, fmt.Sprintf("a key of %v bytes is inserted into an index of keys of %d bytes", lenOf(x.val), wd-1))
	}
	if ng {
		w.insertNgram(e, st, x, con, wd, pos)
		return
	}
	w.obl(e, false, "every", con+": once", st.facts.implied(tEq(st.mem[w.cpend], tOne)), pos, "a value is inserted twice into the index of its type")
	st.mem[w.cpend] = tZero
	w.obl(e, false, "key", con, w.keyMatches(e, st, x, tok), pos, "the key inserted is not what the parser of the tree yields for the same value")
	start := tSub(unwrapDeep(x.off), w.recOff())
	end := tAdd(start, unwrapDeep(unwrapInt(x.n)))
	colon := tAddK(start, -1)
	okS := st.mem[w.ccolon] != mkInt(-1) && st.facts.implied(tEq(colon, st.mem[w.ccolon]))
	if !okS && st.facts.implied(tLe(st.mem[w.ckeyEnd], colon)) {
		b, o, _ := sliceParts(w.r)
		c := e.seqAt(st.facts, e.seqOf(st, b, byteT), tAdd(o, tAdd(w.recOff(), colon)), byteT)
		okS = st.facts.implied(tEq(c, mkInt(':')))
	}
	w.obl(e, false, "place", con+": start", okS, pos, "the place of the value is not known to start behind the colon that follows its key")
	w.obl(e, false, "place", con+": end", st.facts.implied(tEq(end, st.mem[w.coff])), pos, "the place of the value does not end where the value ends")
}

// keyMatches runs the parser of the tree on the same token.
func (w *walker) keyMatches(e *Engine, st *State, x insertion, tok *Term) bool {
	return w.parsed(e, st, x, func(pe *Engine, s *State, cc *CallCtx) ([]Outcome, bool) {
		if strings.HasPrefix(cc.Name, "encoding/json.NewDecoder") {
			return one(s, mkNamed("nonnil:parsedecoder", resultTypes(cc.In)[0])), true
		}
		if strings.HasPrefix(cc.Name, "(*encoding/json.Decoder).") && cc.Short == "Token" {
			return one(s, tok, tNil), true
		}
		if cc.Name == "(encoding/json.Number).Float64" {
			return w.call(pe, s, cc)
		}
		return nil, false
	}, mkSym("extent", nil))
}

// parsed: for every outcome, the parser of the tree yields the key inserted.
func (w *walker) parsed(e *Engine, st *State, x insertion, model func(*Engine, *State, *CallCtx) ([]Outcome, bool), arg *Term) bool {
	if x.parser.op != TIface {
		return false
	}
	t := x.parser.typ
	fn := w.g.methodOf(t, "Parse")
	if fn == nil && t.Kind == "ptr" {
		fn = w.g.methodOf(t.Elem, "Parse")
	}
	if fn == nil {
		return false
	}
	w.c.Fn(fn)
	cl := &Client{Unroll: 12, Inline: func(f *Func) bool { return f.Pkg == "handlers" }, Call: model}
	pe := newEngine(w.g, cl)
	s := st.clone()
	n := 0
	for _, o := range pe.Run(fn, []*Term{x.parser.args[0], arg}, nil, s) {
		if o.st.facts.dead || !o.st.facts.consistent() {
			continue
		}
		n++
		if o.panic || len(o.res) != 1 {
			return false
		}
		a, b := pe.sliceSeq(o.st, o.res[0], byteT), e.sliceSeq(st, x.val, byteT)
		if !o.st.facts.implied(tEq(lenOf(o.res[0]), lenOf(x.val))) || !seqSame(o.st.facts, a, b) {
			return false
		}
	}
	return n > 0
}

func (w *walker) insertNgram(e *Engine, st *State, x insertion, con string, wd int64, pos string) {
	l := st.mem[w.cngl]
	k, ok := constOf(unwrapInt(st.mem[w.cngk]))
	tok := st.mem[w.ctok]
	ok = ok && l != tZero && l.op == TApp && l.s == "ngrams" && k == wd-1 && tok.op == TIface && l.args[0] == tok.args[0]
	w.obl(e, false, "width", con+": key", ok, pos, fmt.Sprintf("the n-grams inserted are not those of %d characters of the value", wd-1))
	if !ok {
		return
	}
	// the word of the n-gram that is next
	val := x.val
	got := tNil
	if val.op == TApp && strings.HasPrefix(val.s, "bytesof") {
		got = val.args[0]
	}
	ok = false
	if got != tNil {
		i, field := ngramAt(l, got)
		ok = i != nil && field == "Word" && st.facts.implied(tEq(i, st.mem[w.cngn]))
	}
	w.obl(e, false, "key", con, ok, pos, "the key inserted is not the word of the next n-gram of the value")
	st.mem[w.cngn] = tAddK(st.mem[w.cngn], 1)
}

// ngramAt finds which element of the list a field comes from.
func ngramAt(l, t *Term) (idx *Term, field string) {
	if t.op == TApp && strings.HasPrefix(t.s, "fld:") && len(t.args) == 1 {
		if x := t.args[0]; x.op == TApp && x.s == "elem" && len(x.args) == 2 && x.args[0] == l {
			return x.args[1], strings.TrimPrefix(t.s, "fld:")
		}
	}
	return nil, ""
}

func runC16(c *Ctx) { runWalk(c, false) }
func runC26(c *Ctx) { runWalk(c, true) }

func runWalk(c *Ctx, accept bool) {
	g := c.Prog("", "")
	w := &walker{c: c, g: g, accept: accept}
	if miss := w.shape(); miss != "" {
		c.Missing("type", miss)
		return
	}
	scratch := *c
	scratch.obl, scratch.order = map[string]*obligation{}, nil
	w.recArg = recordParams(&scratch, g)
	w.jsonl()
	if accept {
		c.Min("accept", 2)
		return
	}
	w.csvRoots()
	c.Min("name", 3)
	c.Min("type", 2)
	c.Min("key", 5)
	c.Min("place", 5)
	c.Min("every", 4)
	c.Min("width", 6)
}

func (w *walker) jsonl() {
	w.cfg = "JSONL"
	w.h = w.objectHandler()
	if w.h == nil {
		w.c.Missing("walk", "the function that handles an object")
		return
	}
	if !w.jsonTypes(w.h.ParamT[decoderParam(w.h)]) {
		w.c.Missing("walk", "the tokens of encoding/json")
		return
	}
	for _, f := range w.g.all {
		if f.Pkg == "handlers" {
			eachInstr(f, func(in *Instr) {
				if in.Call != nil && in.Call.Short == "UseNumber" {
					w.use = true
				}
			})
		}
	}
	// does the handler consume the end of the object?
	w.after = true
	w.after = w.handlerRoot(true)
	w.handlerRoot(false)
	for _, f := range w.g.methodsNamed("Synchronize", "handlers") {
		if reachesFn(f, w.h, map[*Func]bool{}) {
			w.syncRoot(f)
		}
	}
}

// handlerRoot analyses the object handler for any path and record. It tells
// whether every success leaves the decoder behind the object.
func (w *walker) handlerRoot(probe bool) bool {
	f := w.h
	w.root = f
	w.c.Fn(f)
	args := symArgs(f)
	w.dec, w.path, w.r, w.f, w.rec = args[decoderParam(f)], nil, nil, nil, nil
	for i, t := range f.ParamT {
		switch {
		case t.Kind == "slice" && t.Elem.Kind == "string":
			w.path = args[i]
		case t.Kind == "slice" && t.Elem.Bits == 8:
			w.r = args[i]
		case t.Kind == "ptr" && t.Elem.Name == "appendable.IndexFile":
			w.f = args[i]
		}
	}
	if ri, ok := w.recArg[f]; ok && ri >= 0 {
		w.rec = args[ri]
	}
	if w.path == nil || w.r == nil || w.rec == nil {
		if !probe {
			w.c.Missing("walk", f.Name+": the path, the record and the data file")
		}
		return false
	}
	st := newState()
	w.init(st, jObj)
	st.facts.assume(tLe(lenOf(w.r), mkInt(1<<62)))
	e := newEngine(w.g, w.client())
	if probe {
		e.dry = 1
	}
	outs := e.Run(f, args, nil, st)
	behind := false
	all := true
	ei := errResult(f.Results)
	if !probe {
		w.c.Problems(e, w.cfg+": "+f.Name)
		w.c.Count("paths", len(outs))
	}
	for _, o := range outs {
		if o.panic {
			w.obl(e, true, "panic", f.Name, false, o.pos, "a panic is reachable on a valid record")
			continue
		}
		if ei >= 0 && o.st.facts.refuted(tEq(o.res[ei], tNil)) {
			w.obl(e, true, "accept", f.Name, o.st.mem[w.cfail] == tOne, o.pos, "an error is reported for a valid record although nothing failed")
			continue
		}
		k, ok := w.at(o.st, w.cst)
		behind = true
		all = all && ok && k == jAfter
		if probe {
			continue
		}
		w.settled(e, o.st, o.pos)
		want := int64(jEnd)
		if w.after {
			want = jAfter
		}
		n, nok := w.at(o.st, w.cnest)
		w.obl(e, false, "walk", f.Name+": end", ok && k == want && nok && n == 0, o.pos, "success is reported although the end of the object was not reached")
	}
	return behind && all
}

// syncRoot analyses how records reach the object handler.
func (w *walker) syncRoot(f *Func) {
	w.root = f
	w.c.Fn(f)
	args := symArgs(f)
	w.dec, w.path, w.rec = nil, nil, nil
	for i, t := range f.ParamT {
		switch {
		case t.Kind == "slice" && t.Elem.Bits == 8:
			w.r = args[i]
		case t.Kind == "ptr" && t.Elem.Name == "appendable.IndexFile":
			w.f = args[i]
		}
	}
	st := newState()
	w.init(st, jNone)
	e := newEngine(w.g, w.client())
	outs := e.Run(f, args, nil, st)
	w.c.Problems(e, w.cfg+": "+f.Name)
	ei := errResult(f.Results)
	for _, o := range outs {
		k, ok := w.at(o.st, w.cst)
		if o.panic {
			w.obl(e, true, "panic", f.Name, ok && (k == jNone || k == jStart || k == jBad), o.pos, "a panic is reachable on a valid record")
			continue
		}
		if ei >= 0 && o.st.facts.refuted(tEq(o.res[ei], tNil)) {
			fine := o.st.mem[w.cfail] == tOne || ok && (k == jNone || k == jStart || k == jBad)
			w.obl(e, true, "accept", f.Name, fine, o.pos, "an error is reported for a valid record although nothing failed")
		}
	}
}

// ---- CSV ---------------------------------------------------------------

func isCSVReader(t *Type) bool {
	return t != nil && t.Kind == "ptr" && t.Elem != nil && strings.HasSuffix(t.Elem.Name, "csv.Reader")
}

func (w *walker) csvRoots() {
	w.cfg = "CSV"
	n := 0
	for _, f := range w.g.methodsNamed("Synchronize", "handlers") {
		if w.h != nil && reachesFn(f, w.h, map[*Func]bool{}) {
			continue
		}
		// the function that gets a record
		var line *Func
		for _, x := range w.g.all {
			if _, ok := w.recArg[x]; !ok || !reachesFn(f, x, map[*Func]bool{}) {
				continue
			}
			outer := false
			for y := range w.recArg {
				outer = outer || y != x && reachesFn(y, x, map[*Func]bool{}) && reachesFn(f, y, map[*Func]bool{})
			}
			if !outer {
				line = x
			}
		}
		if line == nil {
			w.c.Missing("walk", "the function that handles a CSV record")
			continue
		}
		n++
		w.csvLine(line)
		w.csvSync(f, line)
	}
	if n == 0 {
		w.c.Missing("walk", "a handler of CSV files")
	}
}

func (w *walker) csvClient() *Client {
	cl := w.client()
	cl.OnBack, cl.OnExitLoop = nil, nil
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if o, ok := w.csvModel(e, st, cc); ok {
			return o, true
		}
		return w.call(e, st, cc)
	}
	cl.OnLoad = func(e *Engine, st *State, addr *Term, in *Instr) {
		if in.Typ != nil && in.Typ.Kind == "string" {
			st.facts.assume(tLt(lenOf(e.load(st, addr, in.Typ)), mkInt(1<<31)))
		}
	}
	cl.ExtraCands = func(e *Engine, st *State, fn *Func, h int) []*Term {
		var out []*Term
		for _, v := range st.env {
			if v.op != TSym || v.typ == nil || v.typ.Kind != "int" {
				continue
			}
			for k := int64(-1); k <= 1; k++ {
				out = append(out, tEq(v, tAddK(st.mem[w.cngn], k)))
			}
			for k := int64(0); k <= 1; k++ {
				out = append(out, tEq(v, tAdd(st.mem[w.coff], tMul(mkInt(k), w.recOff()))))
			}
		}
		if l := st.mem[w.cngl]; l != tZero && l.op != TSym {
			out = append(out, tLe(st.mem[w.cngn], seqLen(l)))
		}
		return out
	}
	return cl
}

// csvModel: the text of a field is a number, a truth value, both or neither.
func (w *walker) csvModel(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
	fork := func(v *Term, ok *Term, yes, no func(*State)) ([]Outcome, bool) {
		s2 := st.clone()
		st.facts.assume(ok)
		yes(st)
		s2.facts.assume(tNot(ok))
		no(s2)
		var outs []Outcome
		if !st.facts.dead && st.facts.consistent() {
			outs = append(outs, Outcome{st: st, res: []*Term{v, tNil}})
		}
		if !s2.facts.dead && s2.facts.consistent() {
			outs = append(outs, Outcome{st: s2, res: []*Term{zeroTerm(resultTypes(cc.In)[0]), freshErr("parse")}})
		}
		return outs, true
	}
	none := func(*State) {}
	is := func(what string) *Term { return mkApp("is"+what, tBoolT, cc.Args[0]) }
	rt := resultTypes(cc.In)
	switch cc.Name {
	case "strconv.Atoi":
		return fork(mkApp("atoi", rt[0], cc.Args[0]), is("int"), func(s *State) { s.facts.assume(is("float")) }, none)
	case "strconv.ParseInt":
		return fork(mkApp("atoi", rt[0], cc.Args[0]), is("int"), func(s *State) { s.facts.assume(is("float")) }, none)
	case "strconv.ParseFloat":
		return fork(mkApp("parsefloat", rt[0], cc.Args[0]), is("float"), none, func(s *State) { s.facts.assume(tNot(is("int"))) })
	case "strconv.ParseBool":
		return fork(mkApp("parsebool", rt[0], cc.Args[0]), is("bool"), none, none)
	case "(*encoding/csv.Reader).Read":
		s2 := st.clone()
		w.fail(s2)
		strT := w.g.typ(types.Typ[types.String])
		l := seqVarApp(mkApp("csvrecord", nil, mkSym("record", nil)), rng(mkSym("columns", tIntT), 0, 1<<40))
		if st.mem[w.cngl] == tZero && w.root != nil {
			st.mem[w.cngl] = l
		}
		return []Outcome{{st: st, res: []*Term{e.newSlice(st, "record", strT, l), tNil}}, {st: s2, res: []*Term{tNil, ioError(s2, "csv")}}}, true
	case "encoding/csv.NewReader":
		if x := cc.Args[0]; x.op == TIface && x.args[0].op == TApp && x.args[0].s == "nonnil:reader" {
			return one(st, mkApp("nonnil:csvreader", rt[0], x.args[0].args[0])), true
		}
	}
	return nil, false
}

func (w *walker) csvLine(f *Func) {
	w.root = f
	w.c.Fn(f)
	args := symArgs(f)
	w.dec, w.path, w.r, w.f, w.rec, w.csvP, w.csvS = nil, nil, nil, nil, nil, -1, nil
	for i, t := range f.ParamT {
		switch {
		case t.Kind == "slice" && t.Elem.Bits == 8:
			w.r = args[i]
		case t.Kind == "ptr" && t.Elem.Name == "appendable.IndexFile":
			w.f = args[i]
		}
	}
	if ri := w.recArg[f]; ri >= 0 {
		w.rec = args[ri]
	}
	if w.r == nil || w.rec == nil {
		w.c.Missing("walk", f.Name+": the record and the data file")
		return
	}
	st := newState()
	w.init(st, jNone)
	e := newEngine(w.g, w.csvClient())
	outs := e.Run(f, args, nil, st)
	w.c.Problems(e, w.cfg+": "+f.Name)
	ei := errResult(f.Results)
	for _, o := range outs {
		if o.panic || ei >= 0 && o.st.facts.refuted(tEq(o.res[ei], tNil)) {
			continue
		}
		s := o.st.mem[w.cngl]
		if s == tZero || s.op == TSym {
			s = w.csvS
		}
		ok := s != nil && o.st.facts.implied(tEq(o.st.mem[w.cngn], seqLen(s)))
		w.obl(e, false, "every", "columns", ok, o.pos, "success is reported although not every column of the record was inserted")
	}
}

// column finds the list and the position a text comes from.
func column(t *Term) (seq, idx *Term) {
	if t.op == TApp && t.s == "elem" && len(t.args) == 2 {
		return t.args[0], t.args[1]
	}
	return nil, nil
}

// csvName takes the name of an index apart: the header's list and position.
func (w *walker) csvName(t *Term) (prefix *Term, seq, idx *Term) {
	if t.op == TApp && t.s == "strings.Join" && len(t.args) == 2 && t.args[1].op == TStr && t.args[1].s == "." {
		ps := seqPieces(t.args[0])
		if len(ps) == 0 || ps[len(ps)-1].s != "unit" || len(ps) > 2 {
			return nil, nil, nil
		}
		seq, idx = column(ps[len(ps)-1].args[0])
		if len(ps) == 2 && ps[0].s == "span" {
			prefix = ps[0].args[0]
		} else if len(ps) == 2 {
			return nil, nil, nil
		}
		return prefix, seq, idx
	}
	if ps := concatParts(t); len(ps) == 3 && isDot(ps[1]) && isJoin(ps[0]) {
		seq, idx = column(ps[2])
		return ps[0].args[0], seq, idx
	}
	seq, idx = column(t)
	return nil, seq, idx
}

func (w *walker) insertCSV(e *Engine, st *State, cc *CallCtx) {
	pos := cc.Pos
	x, ok := w.insertionOf(e, st, cc)
	if !ok || w.rec == nil {
		w.obl(e, false, "tree", "insertion", false, pos, "the tree and the key of an insertion cannot be told")
		return
	}
	w.c.Count("insertions", 1)
	w.obl(e, false, "tree", "index", x.known || x.ft != nil, pos, "the insertion does not go to the tree of an index that was looked up for the value")
	if x.ft == nil {
		return
	}
	w.obl(e, false, "tree", "data file", x.data == w.r, pos, "the tree reads its keys from something other than the data file")
	// the field is the text whose length the place has
	var text *Term
	n := unwrapDeep(unwrapInt(x.n))
	if n.op == TApp && n.s == "len" {
		text = n.args[0]
	}
	var seq, idx *Term
	if text != nil {
		seq, idx = column(text)
	}
	w.obl(e, false, "place", "length", seq != nil, pos, "the place of a value does not have the length of a field of the record")
	if seq == nil {
		return
	}
	w.csvS = seq
	if e.dry == 0 && st.mem[w.cngl] != tZero {
		w.obl(e, false, "every", "record", st.mem[w.cngl] == seq, pos, "the values inserted are not those of the record")
	}
	prefix, hs, hi := w.csvName(x.name)
	okN := hs != nil && hs != seq && st.facts.implied(tEq(hi, idx))
	w.obl(e, false, "name", "column", okN, pos, "a field is indexed under a name that is not the one at its position in the header")
	if okN && prefix != nil {
		for i, t := range w.root.ParamT {
			if t.Kind == "slice" && t.Elem.Kind == "string" && e.sliceSeq(st, mkNamed("arg:"+w.root.ParamN[i], t), t.Elem) == prefix {
				w.csvP = i
			}
		}
		w.obl(e, false, "name", "prefix", w.csvP >= 0, pos, "the name of a column has an unknown prefix")
	}
	w.obl(e, false, "every", "in order", st.facts.implied(tEq(idx, st.mem[w.cngn])), pos, "a field is inserted twice, left out or not in order")
	// type
	fa := st.facts
	is := func(what string) *Term { return mkApp("is"+what, tBoolT, text) }
	empty := fa.implied(tEq(lenOf(text), tZero)) || fa.implied(tEq(text, intern(&Term{op: TStr})))
	filled := fa.refuted(tEq(lenOf(text), tZero)) || fa.refuted(tEq(text, intern(&Term{op: TStr})))
	okT := false
	if x.known {
		switch x.k {
		case w.base["Null"]:
			okT = empty
		case w.base["Float64"]:
			okT = fa.implied(is("int")) || fa.implied(is("float"))
		case w.base["Boolean"]:
			okT = fa.implied(is("bool")) && fa.refuted(is("int")) && fa.refuted(is("float"))
		case w.base["String"]:
			okT = filled && fa.refuted(is("bool")) && fa.refuted(is("int")) && fa.refuted(is("float"))
		}
		w.obl(e, false, "type", w.names[x.k], okT, pos, fmt.Sprintf("a field is indexed as %s although its text is of another type", w.names[x.k]))
		wd := w.widths[x.k]
		w.obl(e, false, "width", "declared: "+w.names[x.k], fa.implied(tEq(x.width, mkInt(wd))), pos, fmt.Sprintf("the tree is opened with width %v although the index declares %d", x.width, wd))
		if wd > 0 {
			w.obl(e, false, "width", "key: "+w.names[x.k], fa.implied(tEq(lenOf(x.val), mkInt(wd-1))), pos, fmt.Sprintf("a key of %v bytes is inserted into an index of keys of %d bytes", lenOf(x.val), wd-1))
		}
	} else {
		w.obl(e, false, "type", "known", false, pos, fmt.Sprintf("the type of the index is not known: %v", x.ft))
	}
	if e.dry == 0 {
		bs := mkApp("bytesof:uint8", nil, text)
		base := mkApp("arr", nil, bs)
		e.noteBase(base, byteT)
		s := st.clone()
		s.seq[base] = strSeq(text)
		w.obl(e, false, "key", "field", w.parsed(e, s, x, w.csvModel, bs), pos, "the key inserted is not what the parser of the tree yields for the text of the field")
	}
	off := tSub(unwrapDeep(x.off), w.recOff())
	okO := fa.implied(tEq(off, st.mem[w.coff]))
	w.obl(e, false, "place", "start", okO, pos, "the place of a field does not start behind the preceding fields and their separators")
	w.obl(e, false, "place", "quoted fields", !okO, pos, "the place of a field is computed from the lengths of decoded fields: behind a quoted field it is wrong")
	st.mem[w.coff] = tAddK(tAdd(st.mem[w.coff], lenOf(text)), 1)
	st.mem[w.cngn] = tAddK(st.mem[w.cngn], 1)
}

// csvSync: what a record handler gets.
func (w *walker) csvSync(f, line *Func) {
	w.root = f
	w.c.Fn(f)
	args := symArgs(f)
	for i, t := range f.ParamT {
		if t.Kind == "slice" && t.Elem.Bits == 8 {
			w.r = args[i]
		}
	}
	st := newState()
	w.rec = nil
	w.init(st, jNone)
	cl := w.csvClient()
	base := cl.Call
	cl.ExtraCands = nil
	cl.Inline = func(fn *Func) bool {
		_, rec := w.recArg[fn]
		return fn.Pkg == "handlers" && !rec
	}
	cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
		if cc.Fn != line {
			return base(e, st, cc)
		}
		if e.dry == 0 {
			con := f.Name
			ri := w.recArg[line]
			for i, t := range line.ParamT {
				a := cc.Args[i]
				switch {
				case isCSVReader(t):
					ok := false
					if a.op == TApp && a.s == "nonnil:csvreader" && ri >= 0 {
						off, n, in := inFile(w.r, a.args[0])
						ok = in && st.facts.implied(tEq(off, mkField(cc.Args[ri], "Offset", uint64T))) && st.facts.implied(tEq(n, unwrapDeep(unwrapInt(mkField(cc.Args[ri], "Length", nil)))))
					}
					w.obl(e, false, "place", con+": record", ok, cc.Pos, "the reader does not read the record: places counted from the record are wrong")
				case t.Kind == "slice" && t.Elem.Bits == 8:
					w.obl(e, false, "tree", con+": same file", a == w.r, cc.Pos, "a record is handed on with another data file")
				case i == w.csvP:
					w.obl(e, false, "name", con+": prefix", seqLen(e.sliceSeq(st, a, t.Elem)) == tZero, cc.Pos, "a record is handed on with a prefix for the names of its columns")
				}
			}
		}
		return forkErr(st, "record", func(*State) []*Term { return []*Term{tNil} }, func(_ *State, er *Term) []*Term { return []*Term{er} }), true
	}
	e := newEngine(w.g, cl)
	e.Run(f, args, nil, st)
	w.c.Problems(e, w.cfg+": "+f.Name)
}

func headPos(fn *Func, h int) string {
	for _, in := range fn.Blocks[h].Instrs {
		if in.Pos != "" {
			return in.Pos
		}
	}
	return fn.Pos
}
