package main

// Forward dataflow over the IR.  A state maps registers and abstract memory
// cells to value-number terms, carries a Facts element and a client automaton.
// Loops are handled by inferring inductive invariants (stability of cells, then
// a Houdini pass over linear candidates) and analysing the body once from the
// generalised header state, so every claim about a loop holds for any number
// of iterations.  Functions of the repository are analysed in context.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

type Event struct {
	Kind string
	A    []*Term
	Str  string
	Pos  string
	Loop string
	In   *Instr
}

func (e *Event) String() string {
	var p []string
	for _, a := range e.A {
		p = append(p, a.String())
	}
	return e.Kind + ":" + e.Str + "(" + strings.Join(p, ", ") + ")"
}

type State struct {
	dead    bool // a hook found that it cannot be
	env     map[int]*Term
	mem     map[*Term]*Term
	seq     map[*Term]*Term
	epoch   map[string]int
	facts   *Facts
	auto    map[string]*Term
	trace   []*Event
	escaped map[*Term]bool
	defers  []deferred
	path    []string
}

type deferred struct {
	in   *Instr
	args []*Term
}

func newState() *State {
	return &State{env: map[int]*Term{}, mem: map[*Term]*Term{}, seq: map[*Term]*Term{}, epoch: map[string]int{}, facts: newFacts(), auto: map[string]*Term{}, escaped: map[*Term]bool{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[int]*Term, len(s.env)+4), mem: make(map[*Term]*Term, len(s.mem)+4), seq: make(map[*Term]*Term, len(s.seq)+4), epoch: make(map[string]int, len(s.epoch)), auto: make(map[string]*Term, len(s.auto)), escaped: make(map[*Term]bool, len(s.escaped))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.seq {
		n.seq[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	n.facts = s.facts.clone()
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	n.path = s.path[:len(s.path):len(s.path)]
	return n
}

func (s *State) emit(ev *Event) { s.trace = append(s.trace, ev) }

func (s *State) autoKey() string {
	var ks []string
	for k, v := range s.auto {
		ks = append(ks, k+"="+fmt.Sprint(v.id))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

type Outcome struct {
	st    *State
	res   []*Term
	panic bool
	pos   string
}

type CallCtx struct {
	In     *Instr
	Name   string
	Short  string
	Args   []*Term
	Fn     *Func
	Pos    string
	Depth  int
	Caller *Func
	Callee *Term // of a call of a value
}

type Client struct {
	Call        func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool)
	Inline      func(fn *Func) bool
	OnStore     func(e *Engine, st *State, addr, val *Term, in *Instr)
	OnElem      func(e *Engine, st *State, base, idx, val *Term, in *Instr)
	OnAppend    func(e *Engine, st *State, pos, body *Term, in *Instr)
	OnBounds    func(e *Engine, st *State, kind string, idx, n *Term, in *Instr)
	OnBack      func(e *Engine, st *State, fn *Func, header int)
	OnHead      func(e *Engine, st *State, fn *Func, header int)
	OnEnterLoop func(e *Engine, st *State, fn *Func, header int)
	OnExitLoop  func(e *Engine, st *State, fn *Func, header int)
	OnPanic     func(e *Engine, st *State, in *Instr)
	OnReturn    func(e *Engine, st *State, fn *Func, res []*Term, in *Instr) // any frame
	OnGo        func(e *Engine, st *State, in *Instr)
	OnLoad      func(e *Engine, st *State, addr *Term, in *Instr)
	OnBranch    func(e *Engine, st *State, c *Term, taken bool, in *Instr)
	OnMapUpdate func(e *Engine, st *State, m, k, v *Term, in *Instr)
	OnRangeNext func(e *Engine, st *State, coll *Term, in *Instr)
	Distinct    func(e *Engine, st *State, a, b *Term) bool
	ExtraCands  func(e *Engine, st *State, fn *Func, header int) []*Term
	MaxDepth    int
	Recurse     int                    // how often a function may be entered while it runs
	Unroll      int                    // iterations of a loop that are followed one by one while its test is known
	Paths       int                    // iterations within which loops end on every path
	Follow      bool                   // also while the facts decide the test
	Live        int                    // how many paths through a loop are followed at once, if more than 64
	FloatInt    func(x *Term) *Term    // the integer part of a float
	Text        bool                   // strings are lists of characters
	Ordered     bool                   // floats are compared as members of a total order (no NaN)
	Ghost       []string               // keys of cells the client itself writes: any loop may change them
	MergeKey    func(st *State) string // states with different keys are never joined
}

type Engine struct {
	g        *GoProg
	cl       *Client
	stack    []*Func
	dry      int
	steps    int
	maxSteps int
	problems []string
	bodies   map[string][]*loopBody
	initGlob map[string]*Term
	visited  map[*Func]int
	unrolled int
	entry    map[*Event]*State // loop-begin event -> state on entry, header values initial
	headEnv  map[*Event]map[int]*Term
	headSt   map[*Event]*State
}

type loopBody struct {
	trace []*Event
	st    *State
}

func newEngine(g *GoProg, cl *Client) *Engine {
	e := &Engine{g: g, cl: cl, bodies: map[string][]*loopBody{}, entry: map[*Event]*State{}, headEnv: map[*Event]map[int]*Term{}, headSt: map[*Event]*State{}, maxSteps: 3000000, visited: map[*Func]int{}}
	if cl.MaxDepth == 0 {
		cl.MaxDepth = 14
	}
	return e
}

func (e *Engine) problem(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, x := range e.problems {
		if x == s {
			return
		}
	}
	e.problems = append(e.problems, s)
}

// ---- memory ------------------------------------------------------------

var fldKeyOf = map[*Term]string{}
var fldTypeOf = map[*Term]*Type{}

func fieldAddr(base *Term, st *Type, name string) *Term {
	t := mkFld(base, name)
	if _, ok := fldKeyOf[t]; !ok {
		k := "?"
		if st != nil {
			k = st.String()
		}
		fldKeyOf[t] = k + "." + name
		fldTypeOf[t] = st.field(name)
	}
	return t
}

func addrRoot(a *Term) *Term {
	for a.op == TFld || a.op == TIdx {
		a = a.args[0]
	}
	return a
}

func cellKey(a *Term, t *Type) string {
	if k, ok := fldKeyOf[a]; ok {
		return k
	}
	if t != nil {
		return "ptr:" + t.String()
	}
	return "ptr:?"
}

func (e *Engine) initSym(st *State, a *Term, t *Type) *Term {
	k := cellKey(a, t)
	return mkNamed(fmt.Sprintf("mem:%s@%d", a.String()+"~"+fmt.Sprint(a.id), st.epoch[k]), t)
}

// load reads a cell.
func (e *Engine) load(st *State, a *Term, t *Type) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if a.op == TIdx {
		return e.selectElem(st, a.args[0], a.args[1], t)
	}
	// field of an array element
	if elem, fields, ok := splitElem(a); ok {
		v := e.selectElem(st, elem.args[0], elem.args[1], elemTypeOf(elem))
		for _, f := range fields {
			v = mkField(v, f.s, fldTypeOf[f])
		}
		return v
	}
	if t != nil && t.Kind == "struct" {
		var fs []*Term
		for _, f := range t.Fields {
			fs = append(fs, e.load(st, fieldAddr(a, t, f.Name), f.Typ))
		}
		return mkAgg(t, fs)
	}
	if t != nil && t.Kind == "array" {
		return mkApp("arrval", t, a, e.seqOf(st, a, t.Elem))
	}
	if a.op == TObj && strings.HasPrefix(a.s, "global:") {
		if v := e.globalVal(a, t); v != nil {
			return v
		}
	}
	if e.g != nil {
		if k, ok := fldKeyOf[a]; ok {
			if c, ok := e.g.constFields[k]; ok {
				return c
			}
		}
	}
	v := e.initSym(st, a, t)
	st.mem[a] = v
	return v
}

var elemTypes = map[*Term]*Type{}

func elemTypeOf(idxAddr *Term) *Type { return elemTypes[idxAddr] }

func splitElem(a *Term) (elem *Term, fields []*Term, ok bool) {
	for a.op == TFld {
		fields = append([]*Term{a}, fields...)
		a = a.args[0]
	}
	if a.op == TIdx && len(fields) > 0 {
		return a, fields, true
	}
	return nil, nil, false
}

func setFieldPath(v *Term, t *Type, fields []*Term, val *Term) *Term {
	if len(fields) == 0 {
		return val
	}
	if t == nil {
		return mkSym("upd", nil)
	}
	var fs []*Term
	for _, f := range t.Fields {
		cur := mkField(v, f.Name, f.Typ)
		if f.Name == fields[0].s {
			cur = setFieldPath(cur, f.Typ, fields[1:], val)
		}
		fs = append(fs, cur)
	}
	return mkAgg(t, fs)
}

func (e *Engine) store(st *State, a, v *Term, t *Type, in *Instr) {
	if e.cl.OnStore != nil {
		e.cl.OnStore(e, st, a, v, in)
	}
	e.storeRaw(st, a, v, t, in)
}

func (e *Engine) storeRaw(st *State, a, v *Term, t *Type, in *Instr) {
	if addrRoot(a).op != TObj || st.escaped[addrRoot(a)] {
		e.escape(st, v)
	}
	if a.op == TIdx {
		if e.cl.OnElem != nil && in != nil {
			e.cl.OnElem(e, st, a.args[0], a.args[1], v, in)
		}
		e.updateElem(st, a.args[0], a.args[1], v, t)
		return
	}
	if elem, fields, ok := splitElem(a); ok {
		et := elemTypeOf(elem)
		cur := e.selectElem(st, elem.args[0], elem.args[1], et)
		nv := setFieldPath(cur, et, fields, v)
		e.updateElem(st, elem.args[0], elem.args[1], nv, et)
		return
	}
	if t != nil && t.Kind == "struct" {
		for _, f := range t.Fields {
			e.storeRaw(st, fieldAddr(a, t, f.Name), mkField(v, f.Name, f.Typ), f.Typ, in)
		}
		return
	}
	if t != nil && t.Kind == "array" {
		if v.op == TApp && v.s == "zeroarr" {
			st.seq[a] = e.zeroSeq(t)
		} else if v.op == TApp && v.s == "arrval" {
			st.seq[a] = v.args[1]
		} else {
			st.seq[a] = mkSym("seq", nil)
		}
		return
	}
	if r := addrRoot(a); r.op != TObj {
		k := cellKey(a, t)
		// may-alias: other symbolic bases of the same field
		bumped := false
		for c, old := range st.mem {
			if c != a && addrRoot(c).op != TObj && cellKey(c, t) == k && !e.distinct(st, c, a) {
				_ = old
				st.mem[c] = mkSym("alias", t)
				bumped = true
			}
		}
		_ = bumped
		st.epoch[k]++
	}
	st.mem[a] = v
}

func (e *Engine) distinct(st *State, a, b *Term) bool {
	ra, rb := addrRoot(a), addrRoot(b)
	if ra.op == TObj && rb.op == TObj {
		return ra != rb
	}
	// same struct path, bases known different
	x, y := a, b
	for x.op == TFld && y.op == TFld && x.s == y.s {
		x, y = x.args[0], y.args[0]
	}
	if e.cl.Distinct != nil && e.cl.Distinct(e, st, x, y) {
		return true
	}
	return st.facts.refuted(tEq(x, y))
}

func (e *Engine) escape(st *State, v *Term) {
	subterms(v, map[*Term]bool{}, func(x *Term) {
		if x.op == TObj && !st.escaped[x] {
			st.escaped[x] = true
			for c, cv := range st.mem {
				if addrRoot(c) == x && cv != v {
					e.escape(st, cv)
				}
			}
		}
	})
}

// ---- sequences (contents of arrays and slices) -------------------------

var seqLens = map[*Term]*Term{}

func seqVar(name string, n *Term) *Term {
	t := mkNamed(name, nil)
	if n != nil {
		seqLens[t] = n
	}
	return t
}

func seqLen(s *Term) *Term {
	if n, ok := seqLens[s]; ok {
		return n
	}
	if s.op == TApp {
		switch s.s {
		case "cat":
			r := tZero
			for _, p := range s.args {
				r = tAdd(r, seqLen(p))
			}
			return r
		case "unit":
			return tOne
		case "span":
			return tSub(s.args[2], s.args[1])
		}
	}
	return mkApp("len", nil, s)
}

func (e *Engine) zeroSeq(t *Type) *Term {
	return seqVar("zeros:"+t.Elem.String()+":"+fmt.Sprint(t.Len), mkInt(t.Len))
}

func (e *Engine) seqOf(st *State, base *Term, et *Type) *Term {
	if s, ok := st.seq[base]; ok {
		return s
	}
	k := "elem:?"
	if et != nil {
		k = "elem:" + et.String()
	}
	var n *Term
	if base.op == TApp && base.s == "arr" {
		n = lenOf(base.args[0])
	} else if ft, ok := fldTypeOf[base]; ok && ft != nil && ft.Kind == "array" {
		n = mkInt(ft.Len)
	}
	v := baseSeq(base, st.epoch[k], n)
	st.seq[base] = v
	return v
}

// baseSeq names the contents of an array at an epoch.
func baseSeq(base *Term, epoch int, n *Term) *Term {
	v := seqVar(fmt.Sprintf("seq:%s~%d@%d", base.String(), base.id, epoch), n)
	seqBase[v] = baseAt{base, epoch}
	return v
}

type baseAt struct {
	base  *Term
	epoch int
}

var seqBase = map[*Term]baseAt{}

func seqPieces(s *Term) []*Term {
	if s.op == TApp && s.s == "cat" {
		return s.args
	}
	if s.op == TApp && (s.s == "span" || s.s == "unit") {
		return []*Term{s}
	}
	return []*Term{mkApp("span", nil, s, tZero, seqLen(s))}
}

// seqCat builds the normal form of a concatenation.
func (e *Engine) seqCat(f *Facts, parts ...*Term) *Term {
	var ps []*Term
	for _, p := range parts {
		for _, q := range seqPieces(p) {
			if q.s == "span" && (q.args[1] == q.args[2] || f != nil && q.args[1].op != TInt && f.implied(tEq(q.args[1], q.args[2])) || f != nil && f.implied(tEq(q.args[1], q.args[2]))) {
				continue
			}
			if n := len(ps); n > 0 && q.s == "span" && ps[n-1].s == "span" && ps[n-1].args[0] == q.args[0] {
				l := ps[n-1]
				if l.args[2] == q.args[1] || f != nil && f.implied(tEq(l.args[2], q.args[1])) {
					ps[n-1] = mkApp("span", nil, q.args[0], l.args[1], q.args[2])
					continue
				}
			}
			ps = append(ps, q)
		}
	}
	// unbox whole spans
	var out []*Term
	for _, p := range ps {
		if p.s == "span" {
			n := seqLen(p.args[0])
			if p.args[1] == tZero && (p.args[2] == n || f != nil && f.implied(tEq(p.args[2], n))) {
				if p.args[0].op == TApp && p.args[0].s == "cat" {
					out = append(out, p.args[0].args...)
					continue
				}
				if len(ps) == 1 {
					return p.args[0]
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 && out[0].s == "span" && out[0].args[1] == tZero && out[0].args[2] == seqLen(out[0].args[0]) {
		return out[0].args[0]
	}
	return mkApp("cat", nil, out...)
}

// seqSub is s[lo:hi].
func (e *Engine) seqSub(f *Facts, s, lo, hi *Term) *Term {
	if lo == tZero && (hi == seqLen(s)) {
		return s
	}
	ps := seqPieces(s)
	if len(ps) == 1 && ps[0].s == "span" {
		p := ps[0]
		return e.seqCat(f, e.subAtom(f, p.args[0], tAdd(p.args[1], lo), tAdd(p.args[1], hi)))
	}
	// walk pieces with decided comparisons
	off := tZero
	var out []*Term
	ok := true
	toEnd, started := hi == seqLen(s), false
	for _, p := range ps {
		end := tAdd(off, seqLen(p))
		// entirely before lo or after hi?
		if !toEnd && f.implied(tLe(hi, off)) {
			break
		}
		if !started && f.implied(tLe(end, lo)) {
			off = end
			continue
		}
		if p.s == "unit" {
			started = true
			if f.implied(tLe(lo, off)) && (toEnd || f.implied(tLe(end, hi))) {
				out = append(out, p)
				off = end
				continue
			}
			ok = false
			break
		}
		a := p.args[1]
		if started {
			// the piece begins behind lo
		} else if f.implied(tLe(off, lo)) {
			if d := tSub(lo, off); d.op == TInt || !f.implied(tLe(lo, off)) {
				a = tAdd(p.args[1], d)
			}
		} else if !f.implied(tLe(lo, off)) {
			ok = false
			break
		}
		started = true
		b := p.args[2]
		if toEnd {
			// the rest of the sequence
		} else if f.implied(tLe(hi, end)) {
			b = tAdd(p.args[1], tSub(hi, off))
		} else if !f.implied(tLe(end, hi)) {
			ok = false
			break
		}
		out = append(out, e.subAtom(f, p.args[0], a, b))
		off = end
	}
	if ok {
		return e.seqCat(f, out...)
	}
	return mkApp("cat", nil, mkApp("span", nil, s, lo, hi))
}

// subAtom takes a part of the base of a span, which may itself be composed.
func (e *Engine) subAtom(f *Facts, base, a, b *Term) *Term {
	if base.op == TApp && base.s == "cat" {
		return e.seqSub(f, base, a, b)
	}
	return mkApp("span", nil, base, a, b)
}

func (e *Engine) seqAt(f *Facts, s, i *Term, t *Type) *Term {
	if s.op == TSym || s.op == TApp && s.s != "cat" && s.s != "span" && s.s != "unit" {
		return e.atomAt(s, i, t)
	}
	ps := seqPieces(s)
	if len(ps) == 1 && ps[0].s == "span" {
		return e.seqAtAtom(f, ps[0].args[0], tAdd(ps[0].args[1], i), t)
	}
	off := tZero
	for _, p := range ps {
		end := tAdd(off, seqLen(p))
		if f.implied(tLe(end, i)) {
			off = end
			continue
		}
		if p.s == "unit" {
			if f.implied(tEq(i, off)) {
				return p.args[0]
			}
			break
		}
		if f.implied(tLe(off, i)) && f.implied(tLt(i, end)) {
			return e.seqAtAtom(f, p.args[0], tAdd(p.args[1], tSub(i, off)), t)
		}
		break
	}
	return mkApp("elem", t, s, i)
}

func (e *Engine) seqAtAtom(f *Facts, s, i *Term, t *Type) *Term {
	if s.op == TApp && s.s == "cat" {
		return e.seqAt(f, s, i, t)
	}
	return e.atomAt(s, i, t)
}

func (e *Engine) atomAt(s, i *Term, t *Type) *Term {
	if s.op == TSym && strings.HasPrefix(s.s, "zeros:") && t != nil {
		return zeroTerm(t)
	}
	if s.op == TSym {
		if v, ok := repVals[s.s]; ok {
			return v
		}
	}
	if s.op == TSym && strings.HasPrefix(s.s, "nilmap") {
		return zeroTerm(t)
	}
	return mkApp("elem", t, s, i)
}

func (e *Engine) seqUpd(f *Facts, s, i, v *Term) *Term {
	n := seqLen(s)
	pre := e.seqSub(f, s, tZero, i)
	post := e.seqSub(f, s, tAddK(i, 1), n)
	return e.seqCat(f, pre, mkApp("unit", nil, v), post)
}

func (e *Engine) selectElem(st *State, base, i *Term, t *Type) *Term {
	s := e.seqOf(st, base, t)
	return e.seqAt(st.facts, s, i, t)
}

func (e *Engine) updateElem(st *State, base, i, v *Term, t *Type) {
	s := e.seqOf(st, base, t)
	if base.op != TObj && addrRoot(base).op != TObj {
		e.aliasElems(st, base, t)
	}
	st.seq[base] = e.seqUpd(st.facts, s, i, v)
}

// aliasElems forgets the contents of arrays that may overlap base.
func (e *Engine) aliasElems(st *State, base *Term, t *Type) {
	if t == nil {
		return
	}
	k := "elem:" + t.String()
	for b := range st.seq {
		if b == base || addrRoot(b).op == TObj {
			continue
		}
		if elemKeyOfBase(b) == k {
			st.seq[b] = seqVar(mkSym("seq", nil).s, seqLen(st.seq[b]))
		}
	}
	st.epoch[k]++
}

var baseElemKey = map[*Term]string{}

func elemKeyOfBase(b *Term) string { return baseElemKey[b] }

// ---- slices ------------------------------------------------------------

func sliceParts(s *Term) (base, off, n *Term) {
	if s.op == TSlice {
		return s.args[0], s.args[1], s.args[2]
	}
	if s == tNil {
		return tNil, tZero, tZero
	}
	return mkApp("arr", nil, s), tZero, lenOf(s)
}

func mkSlice(base, off, n *Term) *Term {
	if base.op == TApp && base.s == "arr" && off == tZero && n == lenOf(base.args[0]) {
		return base.args[0]
	}
	return intern(&Term{op: TSlice, args: []*Term{base, off, n}})
}

func lenOf(s *Term) *Term {
	switch s.op {
	case TSlice:
		return s.args[2]
	case TNil:
		return tZero
	case TStr:
		return mkInt(int64(len(s.s)))
	case TApp:
		switch s.s {
		case "runes":
			return textLen(s)
		case "bytesof", "bytesof:uint8":
			return lenOf(s.args[0])
		case "stringof":
			return lenOf(s.args[0])
		case "substr":
			return tSub(s.args[2], s.args[1])
		}
	}
	return mkApp("len", nil, s)
}

// contents of a slice value as a sequence term
func (e *Engine) sliceSeq(st *State, s *Term, et *Type) *Term {
	if s == tNil {
		return mkApp("cat", nil)
	}
	if s.op == TApp && s.s == "bytesof" {
		return seqVar("str:"+s.args[0].String()+fmt.Sprint(s.args[0].id), lenOf(s.args[0]))
	}
	b, o, n := sliceParts(s)
	e.noteBase(b, et)
	return e.seqSub(st.facts, e.seqOf(st, b, et), o, tAdd(o, n))
}

func (e *Engine) noteBase(b *Term, et *Type) {
	if et != nil {
		if _, ok := baseElemKey[b]; !ok {
			baseElemKey[b] = "elem:" + et.String()
		}
	}
}

func (e *Engine) newSlice(st *State, hint string, et *Type, content *Term) *Term {
	o := mkObj(hint, nil)
	e.noteBase(o, et)
	st.seq[o] = content
	return mkSlice(o, tZero, seqLen(content))
}

func (e *Engine) appendModel(st *State, a, b *Term, at, bt *Type) *Term {
	var et *Type
	if at != nil {
		et = at.Elem
	}
	sa := e.sliceSeq(st, a, et)
	var sb *Term
	if bt != nil && bt.Kind == "string" {
		sb = seqVar("str:"+b.String()+fmt.Sprint(b.id), lenOf(b))
	} else {
		sb = e.sliceSeq(st, b, et)
	}
	content := e.seqCat(st.facts, sa, sb)
	if e.cl.OnAppend != nil {
		e.cl.OnAppend(e, st, lenOf(a), sb, nil)
	}
	// the backing array of a may be overwritten past its length
	if a != tNil && lenOf(b) != tZero {
		ba, oa, na := sliceParts(a)
		if old, ok := st.seq[ba]; ok {
			end := tAdd(oa, na)
			if !st.facts.implied(tEq(end, seqLen(old))) {
				rest := seqVar(mkSym("clob", nil).s, tSub(seqLen(old), end))
				st.seq[ba] = e.seqCat(st.facts, e.seqSub(st.facts, old, tZero, end), rest)
			}
		}
		if e.cl.OnElem != nil {
			e.cl.OnElem(e, st, ba, tAdd(oa, na), mkNamed("append", nil), nil)
		}
	}
	return e.newSlice(st, "append", et, content)
}

// ---- integers ----------------------------------------------------------

func (e *Engine) wrap(st *State, t *Term, typ *Type) *Term {
	if typ == nil || typ.Kind != "int" || typ.Bits == 0 {
		return t
	}
	lo, hi := typeRange(typ)
	if k, ok := isConst(t); ok {
		if k.Cmp(lo) >= 0 && k.Cmp(hi) <= 0 {
			return t
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(typ.Bits))
		r := new(big.Int).Mod(k, m)
		if typ.Signed && r.Cmp(hi) > 0 {
			r.Sub(r, m)
		}
		return mkBig(r)
	}
	if typ.Bits >= 64 {
		return t
	}
	if t.lo != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	if st.facts.implied(tLe(mkBig(lo), t)) && st.facts.implied(tLe(t, mkBig(hi))) {
		return t
	}
	return mkApp("wrap:"+(&Type{Kind: "int", Bits: typ.Bits, Signed: typ.Signed}).String(), typ, t)
}

func (e *Engine) conv(st *State, x *Term, from, to *Type) *Term {
	if from == nil || to == nil {
		return mkApp("conv", to, x)
	}
	if e.cl.FloatInt != nil && from.Kind == "float" && to.Kind == "int" {
		return e.cl.FloatInt(x)
	}
	if e.cl.Text {
		if t := e.textConv(st, x, from, to); t != nil {
			return t
		}
	}
	switch {
	case from.Kind == "int" && to.Kind == "int":
		if to.Bits >= 64 {
			if to.Signed == from.Signed || from.Bits < 64 && from.Signed == false {
				return x
			}
			if k, ok := isConst(x); ok {
				_ = k
				return e.wrap(st, x, to)
			}
			if from.Signed && !to.Signed && from.Bits < 64 {
				if st.facts.implied(tLe(tZero, x)) {
					return x
				}
				return mkApp("wrap:uint64", to, x)
			}
			return x
		}
		return e.wrap(st, x, to)
	case from.Kind == "string" && to.Kind == "slice":
		if x.op == TApp && x.s == "stringof" {
			return mkApp("bytesof", to, x)
		}
		t := mkApp("bytesof:"+elemShort(to), to, x)
		if to.Elem != nil && to.Elem.Kind == "int" && to.Elem.Bits == 8 {
			base := mkApp("arr", nil, t)
			e.noteBase(base, to.Elem)
			if cur, ok := st.seq[base]; ok && cur != strSeq(x) {
				return e.newSlice(st, "bytesof", to.Elem, strSeq(x))
			}
			st.seq[base] = strSeq(x)
		}
		return t
	case from.Kind == "slice" && to.Kind == "string":
		c := e.sliceSeq(st, x, from.Elem)
		if x.op == TApp && x.s == "bytesof:uint8" && wholeOf(c) == strSeq(x.args[0]) {
			return x.args[0]
		}
		r := mkApp("stringof", to, x, c)
		return r
	case to.Kind == "string" && from.Kind == "int":
		return mkApp("runestr", to, x)
	case from.Kind == to.Kind && from.Bits == to.Bits:
		return x
	}
	return mkApp("conv:"+to.String(), to, x)
}

func elemShort(t *Type) string {
	if t != nil && t.Elem != nil {
		return t.Elem.String()
	}
	return ""
}

func (e *Engine) binop(st *State, op string, a, b *Term, ot, rt *Type) *Term {
	isInt := ot != nil && ot.Kind == "int"
	switch op {
	case "==", "!=":
		r := tEq(a, b)
		if e.cl.Text && ot != nil && ot.Kind == "string" {
			x, ok1 := textOf(a)
			y, ok2 := textOf(b)
			if ok1 && ok2 && len(x) != len(y) {
				r = tFalse
			}
		}
		if ot != nil && (ot.Kind == "slice" || ot.Kind == "map") && (a == tNil || b == tNil) {
			x := a
			if a == tNil {
				x = b
			}
			if x.op == TSlice && x.args[0].op == TObj {
				r = tFalse
			}
		}
		if op == "!=" {
			return tNot(r)
		}
		return r
	}
	if e.cl.Ordered && ot != nil && ot.Kind == "float" {
		switch op {
		case "<":
			return tLt(a, b)
		case "<=":
			return tLe(a, b)
		case ">":
			return tLt(b, a)
		case ">=":
			return tLe(b, a)
		}
	}
	if isInt {
		switch op {
		case "+":
			return e.wrap(st, tAdd(a, b), rt)
		case "-":
			return e.wrap(st, tSub(a, b), rt)
		case "*":
			return e.wrap(st, tMul(a, b), rt)
		case "/":
			return tDiv(a, b)
		case "%":
			return tMod(a, b)
		case "<":
			return tLt(a, b)
		case "<=":
			return tLe(a, b)
		case ">":
			return tLt(b, a)
		case ">=":
			return tLe(b, a)
		case "<<":
			if k, ok := constI(b); ok && k >= 0 && k < 62 {
				return e.wrap(st, tMul(mkInt(1<<uint(k)), a), rt)
			}
		case ">>":
			if k, ok := constI(b); ok && k >= 0 && k < 62 {
				return tDiv(a, mkInt(1<<uint(k)))
			}
		case "&", "|", "^", "&^":
			ka, oka := isConst(a)
			kb, okb := isConst(b)
			if oka && okb {
				r := new(big.Int)
				switch op {
				case "&":
					r.And(ka, kb)
				case "|":
					r.Or(ka, kb)
				case "^":
					r.Xor(ka, kb)
				case "&^":
					r.AndNot(ka, kb)
				}
				return e.wrap(st, mkBig(r), rt)
			}
			if op == "&" {
				if oka {
					a, b, kb, okb = b, a, ka, true
				}
				if okb && kb.Sign() == 0 {
					return tZero
				}
				if okb && new(big.Int).And(kb, new(big.Int).Add(kb, big.NewInt(1))).Sign() == 0 && st.facts.nonnegQuick(a) {
					return tMod(a, mkBig(new(big.Int).Add(kb, big.NewInt(1))))
				}
			}
			if op != "&^" && a.id > b.id {
				a, b = b, a
			}
		}
		return mkApp("bin:"+op, rt, a, b)
	}
	switch op {
	case "<":
		return mkApp("lt", rt, a, b)
	case ">":
		return mkApp("lt", rt, b, a)
	case "<=":
		if ot != nil && ot.Kind == "string" {
			return tNot(mkApp("lt", rt, b, a))
		}
		return mkApp("le", rt, a, b)
	case ">=":
		if ot != nil && ot.Kind == "string" {
			return tNot(mkApp("lt", rt, a, b))
		}
		return mkApp("le", rt, b, a)
	case "+":
		if ot != nil && ot.Kind == "string" {
			if e.cl.Text {
				x, ok1 := textOf(a)
				y, ok2 := textOf(b)
				if ok1 && ok2 {
					return mkText(append(append([]*Term{}, x...), y...))
				}
			}
			return mkApp("concat", rt, a, b)
		}
	}
	return mkApp("bin:"+op, rt, a, b)
}

// ---- globals -----------------------------------------------------------

func (e *Engine) globalVal(a *Term, t *Type) *Term {
	if e.g != nil {
		if v, ok := e.g.globals[a.s]; ok {
			return v
		}
	}
	if t != nil && t.Kind == "iface" && (t.Name == "error" || t.str == "error") {
		return mkNamed("global:err:"+strings.TrimPrefix(a.s, "global:"), t)
	}
	return nil
}

// ---- execution ---------------------------------------------------------

type edgeState struct {
	from, to int
	st       *State
}

type frame struct {
	fn   *Func
	li   *loopInfo
	bind []*Term
	id   int
}

var frameSeq int

// Run analyses fn from the given state; the caller's registers are preserved.
func (e *Engine) Run(fn *Func, args, bindings []*Term, st *State) []Outcome {
	if len(fn.Blocks) == 0 {
		e.problem("no body for %s", fn.Name)
		return nil
	}
	e.visited[fn]++
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	saved := st.env
	savedDef := st.defers
	st.env = map[int]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		} else {
			st.env[p] = tNil
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bindings) {
			st.env[p] = bindings[i]
		}
	}
	frameSeq++
	fr := &frame{fn: fn, li: fn.analyseLoops(), bind: bindings, id: frameSeq}
	outs, _, _ := e.explore(fr, 0, -1, []*State{st}, nil, -1)
	for i := range outs {
		outs[i].st.env = saved
		outs[i].st.defers = savedDef
		// env maps are shared: copy on write
		cp := make(map[int]*Term, len(saved)+4)
		for k, v := range saved {
			cp[k] = v
		}
		outs[i].st.env = cp
	}
	return e.mergeOutcomes(outs)
}

// mergeOutcomes joins outcomes that agree on everything but their facts.
func (e *Engine) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	byKey := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		k := outKey(o)
		if e.cl.MergeKey != nil {
			k += e.cl.MergeKey(o.st)
		}
		if i, ok := byKey[k]; ok {
			res[i].st.facts = joinFacts(res[i].st.facts, o.st.facts)
			continue
		}
		byKey[k] = len(res)
		res = append(res, o)
	}
	return res
}

func joinFacts(a, b *Facts) *Facts {
	n := newFacts()
	for _, l := range a.lits {
		if b.has[l] || b.implied(l) {
			n.assume(l)
		}
	}
	for _, l := range b.lits {
		if !n.has[l] && a.implied(l) {
			n.assume(l)
		}
	}
	return n
}

func outKey(o Outcome) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v|", o.panic)
	for _, r := range o.res {
		fmt.Fprintf(&b, "%d,", r.id)
	}
	b.WriteString(stateKey(o.st))
	return b.String()
}

func stateKey(s *State) string {
	var b strings.Builder
	b.WriteString(s.autoKey())
	b.WriteByte('|')
	for _, ev := range s.trace {
		fmt.Fprintf(&b, "%p", ev)
	}
	b.WriteByte('|')
	ks := make([]int, 0, len(s.mem))
	m := map[int]int{}
	for k, v := range s.mem {
		ks = append(ks, k.id)
		m[k.id] = v.id
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%d=%d,", k, m[k])
	}
	b.WriteByte('|')
	ks = ks[:0]
	m = map[int]int{}
	for k, v := range s.seq {
		ks = append(ks, k.id)
		m[k.id] = v.id
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%d=%d,", k, m[k])
	}
	return b.String()
}

var debugEngine = os.Getenv("VDEBUG") != ""

// explore runs the dataflow over a region (nil: whole function).
func (e *Engine) explore(fr *frame, start, from int, entry []*State, region map[int]bool, header int) (outs []Outcome, exits, backs []edgeState) {
	type item struct {
		from int
		st   *State
	}
	pending := map[int][]item{}
	for _, s := range entry {
		pending[start] = append(pending[start], item{from, s})
	}
	for len(pending) > 0 {
		best := -1
		for b := range pending {
			if best == -1 || fr.li.rpoIdx[b] < fr.li.rpoIdx[best] {
				best = b
			}
		}
		items := pending[best]
		delete(pending, best)
		if _, isHead := fr.li.headers[best]; len(items) > 6 && !(isHead && best != header) && best != header {
			var sts []*State
			for _, it := range items {
				e.resolvePhis(fr, best, it.from, it.st)
				sts = append(sts, it.st)
			}
			sts = e.mergeStates(fr, best, sts)
			items = items[:0]
			for _, s := range sts {
				items = append(items, item{-1, s})
			}
		}
		if len(items) > 400 && len(items) > e.cl.Live {
			e.problem("state explosion in %s block %d", fr.fn.Name, best)
			items = items[:400]
		}
		for _, it := range items {
			if it.st.facts.dead {
				continue
			}
			e.steps++
			if e.steps > e.maxSteps {
				e.problem("step limit reached in %s", fr.fn.Name)
				return
			}
			follow := func(ed edgeState) {
				if ed.to == header && region != nil {
					backs = append(backs, ed)
					return
				}
				if region != nil && !region[ed.to] {
					exits = append(exits, ed)
					return
				}
				pending[ed.to] = append(pending[ed.to], item{ed.from, ed.st})
			}
			if body, isHead := fr.li.headers[best]; isHead && best != header {
				o, ex := e.loop(fr, best, it.from, it.st, body)
				outs = append(outs, o...)
				for _, ed := range ex {
					follow(ed)
				}
				continue
			}
			if best != header {
				e.resolvePhis(fr, best, it.from, it.st)
			}
			o, eds := e.execBlock(fr, best, it.st)
			outs = append(outs, o...)
			for _, ed := range eds {
				follow(ed)
			}
		}
	}
	return
}

func (e *Engine) phiValues(fr *frame, b, from int, st *State) map[int]*Term {
	vals := map[int]*Term{}
	for _, in := range fr.fn.Blocks[b].Instrs {
		if in.Op != OpPhi {
			break
		}
		for i, p := range in.Edge {
			if p == from {
				vals[in.Dst] = e.val(st, in.A[i])
				break
			}
		}
	}
	return vals
}

func (e *Engine) resolvePhis(fr *frame, b, from int, st *State) {
	if from < 0 {
		return
	}
	for r, v := range e.phiValues(fr, b, from, st) {
		st.env[r] = v
	}
}

func (e *Engine) val(st *State, o Opnd) *Term {
	if o.C != nil {
		return o.C
	}
	if v, ok := st.env[o.Reg]; ok {
		return v
	}
	v := mkSym(fmt.Sprintf("undef%d", o.Reg), nil)
	st.env[o.Reg] = v
	return v
}

type loopSlot struct {
	phi  int   // register, or 0
	cell *Term // memory cell
	seq  *Term // array base
	sym  *Term
	init *Term
	typ  *Type
}

// rotates: the loop is left or continued on a test of nil or of a flag that
// the previous iteration has just set.  Such a test is followed separately for
// every way an iteration can end, so that what is known where the flag was set
// is not lost.
func (e *Engine) rotates(fr *frame, h int, body map[int]bool) bool {
	blk := fr.fn.Blocks[h]
	phi := map[int]bool{}
	var bin *Instr
	for _, in := range blk.Instrs {
		switch in.Op {
		case OpPhi:
			phi[in.Dst] = true
		case OpBin:
			if bin != nil || in.Str != "==" && in.Str != "!=" {
				return false
			}
			bin = in
		case OpIf:
			if len(blk.Succs) != 2 || body[blk.Succs[0]] == body[blk.Succs[1]] {
				return false
			}
			c := in.A[0]
			if c.C == nil && phi[c.Reg] && bin == nil {
				return true
			}
			if bin == nil || c.Reg != bin.Dst {
				return false
			}
			for i, o := range bin.A {
				if o.C == nil && phi[o.Reg] && bin.A[1-i].C == tNil {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// throughHead passes a state entering the loop head over the edge from->h
// through the head's test: in is the state, still before the head, of the
// iteration that follows, if any.
func (e *Engine) throughHead(fr *frame, h, from int, st *State, body map[int]bool) (in *State, exits []edgeState) {
	s := st.clone()
	s.env = copyEnv(s.env)
	for r, v := range e.phiValues(fr, h, from, st) {
		s.env[r] = v
	}
	_, eds := e.execBlock(fr, h, s)
	for _, ed := range eds {
		if ed.st.facts.dead {
			continue
		}
		if !body[ed.to] {
			exits = append(exits, ed)
			continue
		}
		in = st.clone()
		in.facts = ed.st.facts
	}
	return in, exits
}

// counted: the head of the loop only computes the test whether to go on.
func (e *Engine) counted(fr *frame, h int, body map[int]bool) *Instr {
	blk := fr.fn.Blocks[h]
	for _, in := range blk.Instrs {
		switch in.Op {
		case OpPhi, OpBin, OpUn:
		case OpFieldAddr, OpLoad:
			if e.g == nil || e.g.ts == nil {
				return nil
			}
		case OpIf:
			if len(blk.Succs) == 2 && body[blk.Succs[0]] != body[blk.Succs[1]] {
				return in
			}
			return nil
		case OpCall:
			if in.Call.Name != "len" && in.Call.Short != "len" {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

// loop analyses a natural loop entered with state st over the edge from->h.
// Iterations whose test is a known constant are followed one by one.
func (e *Engine) loop(fr *frame, h, from int, st *State, body map[int]bool) (outs []Outcome, exits []edgeState) {
	if e.cl.Paths > 0 {
		if o, x, ok := e.loopPaths(fr, h, from, st, body); ok {
			return o, x
		}
	}
	var test *Instr
	if e.cl.Unroll > 0 {
		test = e.counted(fr, h, body)
	}
	if test == nil {
		return e.loopAbs(fr, h, from, st, body)
	}
	cur := []edgeState{{from, h, st}}
	for k := 0; len(cur) > 0; k++ {
		var next []edgeState
		for _, s := range cur {
			pre := s.st.clone()
			pre.env = copyEnv(pre.env)
			for r, v := range e.phiValues(fr, h, s.from, s.st) {
				pre.env[r] = v
			}
			body0 := pre.clone()
			body0.env = copyEnv(body0.env)
			_, eds := e.execBlock(fr, h, pre)
			known := len(eds) == 1
			if known && !e.cl.Follow {
				known = e.val(eds[0].st, test.A[0]).op == TBool
			}
			if !known || k >= e.cl.Unroll {
				o, ex := e.loopAbs(fr, h, s.from, s.st, body)
				outs = append(outs, o...)
				exits = append(exits, ex...)
				continue
			}
			if !body[eds[0].to] {
				exits = append(exits, eds[0])
				continue
			}
			o, ex, backs := e.explore(fr, h, -2, []*State{body0}, body, h)
			if !e.sameStep(fr, h, test, backs) {
				o, ex = e.loopAbs(fr, h, s.from, s.st, body)
				backs = nil
			}
			outs = append(outs, o...)
			exits = append(exits, ex...)
			next = append(next, backs...)
		}
		cur = next
	}
	return outs, exits
}

// loopPaths follows every path through a loop, if they all end within the
// bound.
func (e *Engine) loopPaths(fr *frame, h, from int, st *State, body map[int]bool) (outs []Outcome, exits []edgeState, ok bool) {
	cur := []edgeState{{from, h, st.clone()}}
	for k := 0; len(cur) > 0; k++ {
		if k > e.cl.Paths || len(cur) > 64 && len(cur) > e.cl.Live {
			return nil, nil, false
		}
		var next []edgeState
		for _, s := range cur {
			pre := s.st
			pre.env = copyEnv(pre.env)
			for r, v := range e.phiValues(fr, h, s.from, s.st) {
				pre.env[r] = v
			}
			o, ex, backs := e.explore(fr, h, -2, []*State{pre}, body, h)
			outs = append(outs, o...)
			exits = append(exits, ex...)
			for _, b := range backs {
				if b.st.facts.satisfiable() {
					next = append(next, b)
				}
			}
		}
		cur = next
	}
	return outs, exits, true
}

// sameStep: however an iteration went, what the test of the loop is computed
// from has the same value next.
func (e *Engine) sameStep(fr *frame, h int, test *Instr, backs []edgeState) bool {
	if len(backs) < 2 {
		return true
	}
	blk := fr.fn.Blocks[h]
	uses := map[*Instr]bool{}
	var visit func(in *Instr)
	visit = func(in *Instr) {
		if uses[in] {
			return
		}
		uses[in] = true
		if in.Op == OpPhi {
			return
		}
		for _, a := range in.A {
			for _, d := range blk.Instrs {
				if a.C == nil && a.Fn == nil && d.Dst == a.Reg && d != in {
					visit(d)
				}
			}
		}
	}
	visit(test)
	first := map[int]*Term{}
	for i, b := range backs {
		vals := e.phiValues(fr, h, b.from, b.st)
		for in := range uses {
			if in.Op != OpPhi {
				continue
			}
			if i == 0 {
				first[in.Dst] = vals[in.Dst]
			} else if first[in.Dst] != vals[in.Dst] {
				return false
			}
		}
	}
	return true
}

// loopAbs analyses a natural loop by what holds in every iteration.
func (e *Engine) loopAbs(fr *frame, h, from int, st *State, body map[int]bool) (outs []Outcome, exits []edgeState) {
	if e.cl.OnEnterLoop != nil {
		e.cl.OnEnterLoop(e, st, fr.fn, h)
	}
	inits := e.phiValues(fr, h, from, st)
	rot := e.rotates(fr, h, body)
	if rot {
		in, ex := e.throughHead(fr, h, from, st, body)
		exits = append(exits, ex...)
		if in == nil {
			return outs, exits
		}
		st = in
	}
	explore := func(hs *State) (outs []Outcome, exits, backs []edgeState) {
		outs, ex, bs := e.explore(fr, h, -2, []*State{hs}, body, h)
		if !rot {
			return outs, ex, bs
		}
		for _, x := range ex {
			if x.from != h {
				exits = append(exits, x)
			}
		}
		for _, b := range bs {
			in, ex := e.throughHead(fr, h, b.from, b.st, body)
			exits = append(exits, ex...)
			if in != nil {
				backs = append(backs, edgeState{b.from, b.to, in})
			}
		}
		return outs, exits, backs
	}
	mod := e.modSet(fr.fn, body)
	if len(e.cl.Ghost) > 0 {
		m2 := map[string]bool{}
		for k := range mod {
			m2[k] = true
		}
		for _, k := range e.cl.Ghost {
			m2[k] = true
		}
		mod = m2
	}
	// slots that may change
	var slots []*loopSlot
	var phiRegs []int
	for r := range inits {
		phiRegs = append(phiRegs, r)
	}
	sort.Ints(phiRegs)
	phiT := map[int]*Type{}
	for _, in := range fr.fn.Blocks[h].Instrs {
		if in.Op == OpPhi {
			phiT[in.Dst] = in.Typ
		}
	}
	for _, r := range phiRegs {
		slots = append(slots, &loopSlot{phi: r, init: inits[r], typ: phiT[r]})
	}
	var cells []*Term
	for c := range st.mem {
		if mod[cellKeyAny(c)] && e.mayChange(st, c) {
			cells = append(cells, c)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		slots = append(slots, &loopSlot{cell: c, init: st.mem[c], typ: cellType(c, st.mem[c])})
	}
	var bases []*Term
	for b := range st.seq {
		if mod[baseElemKey[b]] || baseElemKey[b] == "" && len(mod) > 0 {
			bases = append(bases, b)
		}
	}
	sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
	for _, b := range bases {
		slots = append(slots, &loopSlot{seq: b, init: st.seq[b]})
	}
	unstable := map[*loopSlot]bool{}
	var cands []*Term
	candInit := func(c *Term) *Term { return c }
	dropped := map[*Term]bool{}
	loopKey := fmt.Sprintf("%s:b%d", fr.fn.Name, h)

	headState := func() *State {
		s := st.clone()
		for k := range mod {
			s.epoch[k]++
		}
		for _, sl := range slots {
			v := sl.init
			if unstable[sl] {
				v = sl.sym
			}
			switch {
			case sl.phi != 0:
				s.env[sl.phi] = v
			case sl.cell != nil:
				s.mem[sl.cell] = v
			case sl.seq != nil:
				s.seq[sl.seq] = v
			}
		}
		for _, c := range cands {
			if !dropped[c] {
				s.facts.assume(c)
			}
		}
		if e.cl.OnHead != nil {
			e.cl.OnHead(e, s, fr.fn, h)
		}
		return s
	}
	cur := func(sl *loopSlot, b edgeState, phis map[int]*Term) *Term {
		switch {
		case sl.phi != 0:
			return phis[sl.phi]
		case sl.cell != nil:
			if v, ok := b.st.mem[sl.cell]; ok {
				return v
			}
			return mkSym("lost", sl.typ)
		}
		if v, ok := b.st.seq[sl.seq]; ok {
			return v
		}
		return mkSym("lost", nil)
	}
	mkSlotSym := func(sl *loopSlot) {
		hint := "loop"
		if sl.phi != 0 {
			hint = "phi." + fr.fn.RegName[sl.phi]
		} else if sl.cell != nil {
			hint = "cell." + sl.cell.String()
		}
		if sl.seq != nil {
			sl.sym = mkSym("loopseq", nil)
			if n := seqLen(sl.init); n != nil {
				seqLens[sl.sym] = n // array length is fixed
			}
			return
		}
		sl.sym = mkSym(hint, sl.typ)
	}
	// phase 1: stability
	e.dry++
	for iter := 0; iter < 24; iter++ {
		_, _, backs := explore(headState())
		changed := false
		for _, b := range backs {
			phis := e.phiValues(fr, h, b.from, b.st)
			for _, sl := range slots {
				if unstable[sl] {
					continue
				}
				v := cur(sl, b, phis)
				if v == sl.init || b.st.facts.implied(tEq(v, sl.init)) {
					continue
				}
				unstable[sl] = true
				mkSlotSym(sl)
				changed = true
			}
			_ = b
		}
		if !changed {
			break
		}
	}
	// phase 2: candidate invariants over the unstable slots
	subst := map[*Term]*Term{}
	for _, sl := range slots {
		if unstable[sl] {
			subst[sl.sym] = sl.init
		}
	}
	cands = e.candidates(fr, h, slots, unstable, st, headState, body)
	if e.cl.ExtraCands != nil {
		cands = append(cands, e.cl.ExtraCands(e, headState(), fr.fn, h)...)
	}
	_ = candInit
	for _, c := range cands {
		if !st.facts.implied(replaceTerms(c, subst)) {
			dropped[c] = true
		}
	}
	for iter := 0; iter < 12; iter++ {
		_, _, backs := explore(headState())
		changed := false
		for _, b := range backs {
			phis := e.phiValues(fr, h, b.from, b.st)
			sb := map[*Term]*Term{}
			for _, sl := range slots {
				if unstable[sl] {
					sb[sl.sym] = cur(sl, b, phis)
				}
			}
			for _, c := range cands {
				if dropped[c] {
					continue
				}
				if !b.st.facts.implied(replaceTerms(c, sb)) {
					dropped[c] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	e.dry--
	if debugEngine && e.dry == 0 {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "LOOP %s cand %v kept=%v\n", loopKey, c, !dropped[c])
		}
		for _, sl := range slots {
			if unstable[sl] {
				fmt.Fprintf(os.Stderr, "LOOP %s unstable phi=%d cell=%v seq=%v sym=%v init=%v\n", loopKey, sl.phi, sl.cell, sl.seq, sl.sym, sl.init)
			}
		}
	}
	// final pass: client automaton to a fixpoint
	seen := map[string]bool{}
	work := []map[string]*Term{st.auto}
	for len(work) > 0 {
		a := work[0]
		work = work[1:]
		hs := headState()
		if len(seen) > 0 {
			hs.auto = map[string]*Term{}
			for k, v := range a {
				hs.auto[k] = v
			}
			if e.cl.OnHead != nil {
				e.cl.OnHead(e, hs, fr.fn, h)
			}
		}
		k := hs.autoKey()
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 40 {
			e.problem("automaton does not stabilise at loop %s", loopKey)
			break
		}
		begin := &Event{Kind: "loop-begin", Str: loopKey, Loop: loopKey}
		if e.dry == 0 {
			en := st.clone()
			for r, v := range inits {
				en.env[r] = v
			}
			e.entry[begin] = en
			e.headEnv[begin] = copyEnv(hs.env)
			e.headSt[begin] = hs.clone()
			e.headSt[begin] = hs.clone()
		}
		hs.emit(begin)
		base := len(hs.trace)
		o, ex, backs := explore(hs)
		for i := range o {
			outs = append(outs, o[i])
		}
		for _, x := range ex {
			x.st.emit(&Event{Kind: "loop-end", Str: loopKey, Loop: loopKey})
			if e.cl.OnExitLoop != nil {
				e.cl.OnExitLoop(e, x.st, fr.fn, h)
			}
			exits = append(exits, x)
		}
		for _, b := range backs {
			if e.cl.OnBack != nil {
				// make header phis observable under their next values
				bs := b.st
				bs.env = copyEnv(bs.env)
				for r, v := range e.phiValues(fr, h, b.from, b.st) {
					bs.env[r] = v
				}
				e.cl.OnBack(e, bs, fr.fn, h)
			}
			if e.dry == 0 {
				e.bodies[loopKey] = append(e.bodies[loopKey], &loopBody{trace: b.st.trace[base:], st: b.st})
			}
			work = append(work, b.st.auto)
		}
	}
	return outs, exits
}

func copyEnv(m map[int]*Term) map[int]*Term {
	n := make(map[int]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func cellKeyAny(c *Term) string {
	if k, ok := fldKeyOf[c]; ok {
		return k
	}
	if c.op == TObj && c.typ != nil {
		if c.typ.Elem != nil {
			return "ptr:" + c.typ.Elem.String()
		}
	}
	return "ptr:?"
}

func cellType(c, v *Term) *Type {
	if t, ok := fldTypeOf[c]; ok {
		return t
	}
	if c.op == TObj && c.typ != nil {
		return c.typ.Elem
	}
	if v != nil {
		return v.typ
	}
	return nil
}

func (e *Engine) mayChange(st *State, c *Term) bool { return true }

// replaceTerms substitutes terms structurally.
func replaceTerms(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	switch t.op {
	case TSym:
		if b, ok := seqBase[t]; ok {
			nb := replaceTerms(b.base, m)
			if nb == b.base {
				return t
			}
			n := seqLens[t]
			if n != nil {
				n = replaceTerms(n, m)
			}
			return baseSeq(nb, b.epoch, n)
		}
	case TLin:
		res := mkBig(t.k)
		for i, a := range t.args {
			res = tAdd(res, tMul(mkInt(t.co[i]), replaceTerms(a, m)))
		}
		return res
	case TApp:
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = replaceTerms(a, m)
			if na[i] != a {
				ch = true
			}
		}
		if !ch {
			return t
		}
		if t.s == "len" {
			return lenOfAny(na[0])
		}
		return rebuildApp(t, na)
	case TSlice:
		return mkSlice(replaceTerms(t.args[0], m), replaceTerms(t.args[1], m), replaceTerms(t.args[2], m))
	case TFld:
		nb := replaceTerms(t.args[0], m)
		if nb == t.args[0] {
			return t
		}
		n := mkFld(nb, t.s)
		if _, ok := fldKeyOf[n]; !ok {
			fldKeyOf[n] = fldKeyOf[t]
			fldTypeOf[n] = fldTypeOf[t]
		}
		return n
	case TIdx:
		return mkIdx(replaceTerms(t.args[0], m), replaceTerms(t.args[1], m))
	}
	return t
}

func lenOfAny(s *Term) *Term {
	if n, ok := seqLens[s]; ok {
		return n
	}
	return lenOf(s)
}

// candidates proposes invariants for the loop header.
func (e *Engine) candidates(fr *frame, h int, slots []*loopSlot, unstable map[*loopSlot]bool, st *State, headState func() *State, body map[int]bool) []*Term {
	var ints []*loopSlot
	var out []*Term
	for _, sl := range slots {
		if !unstable[sl] || sl.seq != nil || sl.typ == nil {
			continue
		}
		switch sl.typ.Kind {
		case "int":
			ints = append(ints, sl)
			out = append(out, tLe(sl.init, sl.sym), tLe(sl.sym, sl.init))
			if sl.init.op != TInt || sl.init.k.Sign() != 0 {
				out = append(out, tLe(tZero, sl.sym))
			}
		case "slice", "string":
			out = append(out, tLe(lenOf(sl.init), lenOf(sl.sym)), tLe(lenOf(sl.sym), lenOf(sl.init)))
			if lenOf(sl.init) != tZero {
				out = append(out, tLe(tOne, lenOf(sl.sym)))
			}
		case "iface", "ptr", "bool", "map":
			out = append(out, tEq(sl.sym, tNil), tNot(tEq(sl.sym, tNil)))
			if sl.typ.Kind == "bool" {
				out = out[:len(out)-2]
			}
		}
	}
	for i, a := range ints {
		for j, b := range ints {
			if i == j {
				continue
			}
			da, db := tSub(a.sym, a.init), tSub(b.sym, b.init)
			if i < j {
				out = append(out, tLe(da, db), tLe(db, da))
			}
			out = append(out, tLe(a.sym, b.sym))
		}
		for _, b := range slots {
			if unstable[b] && b.seq == nil && b.typ != nil && b.typ.Kind == "slice" {
				da, db := tSub(a.sym, a.init), tSub(lenOf(b.sym), lenOf(b.init))
				out = append(out, tLe(da, db), tLe(db, da))
			}
		}
	}
	// bounds suggested by the conditions inside the loop
	conds := map[*Term]bool{}
	e.dry++
	save := e.cl
	probe := *e.cl
	probe.OnBack = nil
	probe.OnBounds = nil
	e.cl = &probe
	hs := headState()
	nl := len(hs.facts.lits)
	_, ex, backs := e.explore(fr, h, -2, []*State{hs}, body, h)
	e.cl = save
	e.dry--
	for _, x := range append(backs, ex...) {
		if len(x.st.facts.lits) < nl {
			continue
		}
		for _, l := range x.st.facts.lits[nl:] {
			if l.op == TApp && l.s == "le0" {
				conds[l.args[0]] = true
			}
			if l.op == TApp && l.s == "not" && l.args[0].op == TApp && l.args[0].s == "eq0" {
				d := l.args[0].args[0]
				conds[d] = true
				conds[tMul(mkInt(-1), d)] = true
			}
			if l.op == TApp && l.s == "eq0" {
				d := l.args[0]
				conds[tAddK(d, 1)] = true
				conds[tAddK(tMul(mkInt(-1), d), 1)] = true
			}
		}
	}
	syms := map[*Term]bool{}
	for _, sl := range slots {
		if unstable[sl] && sl.sym != nil {
			syms[sl.sym] = true
		}
	}
	var ds []*Term
	for d := range conds {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].id < ds[j].id })
	for _, d := range ds {
		rel := false
		subterms(d, map[*Term]bool{}, func(x *Term) {
			if syms[x] {
				rel = true
			}
		})
		if !rel {
			continue
		}
		// d <= 0 guards an iteration: d <= 1 (one step beyond) and d <= 0 are candidates
		out = append(out, tLe0(tAddK(d, -1)), tLe0(d))
		nd := tSub(tOne, d)
		out = append(out, tLe0(tAddK(nd, -1)))
	}
	// dedupe
	seen := map[*Term]bool{}
	var res []*Term
	for _, c := range out {
		if c == tTrue || c == tFalse || seen[c] {
			continue
		}
		seen[c] = true
		res = append(res, c)
	}
	if len(res) > 120 {
		res = res[:120]
	}
	return res
}

// modSet computes the cells a set of blocks (nil: whole function) may write,
// including callees.
func (e *Engine) modSet(fn *Func, blocks map[int]bool) map[string]bool {
	if blocks == nil && fn.modOK {
		return fn.mod
	}
	res := map[string]bool{}
	seen := map[*Func]bool{}
	var visit func(f *Func, bl map[int]bool)
	visit = func(f *Func, bl map[int]bool) {
		types := map[int]*Instr{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if in.Dst != 0 {
					types[in.Dst] = in
				}
			}
		}
		for _, b := range f.Blocks {
			if bl != nil && !bl[b.Idx] {
				continue
			}
			for _, in := range b.Instrs {
				switch in.Op {
				case OpStore:
					addStoreKeys(res, types, f, in.A[0], in.OpT)
				case OpMapUpdate:
					res["map:"+in.OpT.String()] = true
				case OpGo, OpDefer, OpCall:
					ci := in.Call
					if ci.Builtin {
						switch ci.Short {
						case "append", "copy", "clear":
							if len(ci.ArgT) > 0 && ci.ArgT[0] != nil && ci.ArgT[0].Elem != nil {
								res["elem:"+ci.ArgT[0].Elem.String()] = true
							}
						case "delete":
							res["map:"+ci.ArgT[0].String()] = true
						}
						continue
					}
					if ci.Fn != nil && len(ci.Fn.Blocks) > 0 {
						if !seen[ci.Fn] {
							seen[ci.Fn] = true
							visit(ci.Fn, nil)
						}
						continue
					}
					if ci.Invoke && e.g != nil {
						for _, im := range e.g.impls[ci.Short] {
							if !seen[im] && len(im.Params) == len(in.A) {
								seen[im] = true
								visit(im, nil)
							}
						}
					}
					if ci.Dynamic {
						res["dyn"] = true
					}
					if !isPureName(ci.Name) {
						for _, at := range ci.ArgT {
							if at == nil {
								continue
							}
							if at.Kind == "slice" && at.Elem != nil {
								res["elem:"+at.Elem.String()] = true
							}
							if at.Kind == "ptr" && at.Elem != nil {
								res["ptr:"+at.Elem.String()] = true
								for _, fl := range at.Elem.Fields {
									res[at.Elem.String()+"."+fl.Name] = true
								}
							}
						}
						// interface holding a pointer (binary.Read)
						for _, o := range in.A {
							if d, ok := types[o.Reg]; ok && d.Op == OpMakeIface && d.OpT != nil && d.OpT.Kind == "ptr" {
								res["ptr:"+d.OpT.Elem.String()] = true
								for _, fl := range d.OpT.Elem.Fields {
									res[d.OpT.Elem.String()+"."+fl.Name] = true
								}
							}
						}
					}
				case OpClosure:
					if ci := in.Call; ci != nil && ci.Fn != nil && !seen[ci.Fn] {
						seen[ci.Fn] = true
						visit(ci.Fn, nil)
					}
				}
			}
		}
	}
	visit(fn, blocks)
	if blocks == nil {
		fn.mod, fn.modOK = res, true
	}
	return res
}

func addStoreKeys(res map[string]bool, defs map[int]*Instr, f *Func, a Opnd, vt *Type) {
	d := defs[a.Reg]
	if d != nil && a.C == nil {
		switch d.Op {
		case OpFieldAddr:
			// a field of an array element changes the element
			if x := defs[d.A[0].Reg]; x != nil && d.A[0].C == nil && x.Op == OpIndexAddr {
				if et := elemOfIndexed(x.OpT); et != nil {
					res["elem:"+et.String()] = true
				}
			}
			if d.OpT != nil {
				res[d.OpT.String()+"."+d.Str] = true
				ft := d.OpT.field(d.Str)
				addNested(res, ft)
				// nested struct field inside struct: outer elem
				y := d
				for {
					z := defs[y.A[0].Reg]
					if z == nil || y.A[0].C != nil {
						break
					}
					if z.Op == OpFieldAddr {
						y = z
						continue
					}
					if z.Op == OpIndexAddr {
						if et := elemOfIndexed(z.OpT); et != nil {
							res["elem:"+et.String()] = true
						}
					}
					break
				}
			}
			return
		case OpIndexAddr:
			if et := elemOfIndexed(d.OpT); et != nil {
				res["elem:"+et.String()] = true
				addNested(res, et)
			}
			return
		}
	}
	if vt != nil {
		res["ptr:"+vt.String()] = true
		addNested(res, vt)
	}
}

func addNested(res map[string]bool, t *Type) {
	if t == nil || t.Kind != "struct" {
		return
	}
	for _, f := range t.Fields {
		res[t.String()+"."+f.Name] = true
		addNested(res, f.Typ)
	}
}

func elemOfIndexed(t *Type) *Type {
	if t == nil {
		return nil
	}
	if t.Kind == "ptr" && t.Elem != nil {
		return t.Elem.Elem
	}
	return t.Elem
}

// havoc forgets the cells named by keys that an unknown callee may change.
func (e *Engine) havoc(st *State, keys map[string]bool) {
	for c := range st.mem {
		if keys[cellKeyAny(c)] {
			r := addrRoot(c)
			if r.op == TObj && !st.escaped[r] && !strings.HasPrefix(r.s, "global:") {
				continue
			}
			st.mem[c] = mkSym("havoc."+c.String(), cellType(c, st.mem[c]))
		}
	}
	for b := range st.seq {
		k := baseElemKey[b]
		if k != "" && keys[k] {
			r := addrRoot(b)
			if r.op == TObj && !st.escaped[r] {
				continue
			}
			n := seqLen(st.seq[b])
			st.seq[b] = seqVar(mkSym("havocseq", nil).s, n)
		}
	}
	for k := range keys {
		st.epoch[k]++
	}
}
