package main

// Value-number terms: hash-consed expressions that name the values the abstract
// interpreter computes with.  Integers are kept in linear normal form.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type TOp uint8

const (
	TInt TOp = iota
	TStr
	TBool
	TNil
	TSym
	TLin
	TApp
	TAgg
	TTuple
	TObj
	TFld
	TIdx
	TSlice // base, off, len
	TFn
	TClo
	TIface
)

type Term struct {
	id   int
	op   TOp
	s    string
	args []*Term
	k    *big.Int // TInt value; TLin constant
	co   []int64  // TLin coefficients, parallel to args
	typ  *Type
	fn   *Func // TFn / TClo
	// for symbols / apps of integer kind: value range
	lo, hi *big.Int
	str    string
}

// Type is the small type lattice shared by the Go and TS front ends.
type Type struct {
	Kind       string // int, float, bool, string, ptr, slice, array, struct, map, func, iface, tuple, other
	Name       string // fully qualified name for named types
	Elem       *Type
	Key        *Type
	Fields     []TField
	Bits       int
	Signed     bool
	Len        int64
	str        string
	emptyIface bool
	gt         types.Type
}
type TField struct {
	Name string
	Typ  *Type
}

func (t *Type) String() string {
	if t == nil {
		return "?"
	}
	if t.Name != "" {
		return t.Name
	}
	switch t.Kind {
	case "int":
		if t.Signed {
			return fmt.Sprintf("int%d", t.Bits)
		}
		return fmt.Sprintf("uint%d", t.Bits)
	case "ptr":
		return "*" + t.Elem.String()
	case "slice":
		return "[]" + t.Elem.String()
	case "array":
		return fmt.Sprintf("[%d]%s", t.Len, t.Elem.String())
	case "map":
		return "map[" + t.Key.String() + "]" + t.Elem.String()
	case "struct":
		var b strings.Builder
		b.WriteString("struct{")
		for _, f := range t.Fields {
			b.WriteString(f.Name + " " + f.Typ.String() + ";")
		}
		return b.String() + "}"
	}
	if t.str != "" {
		return t.str
	}
	return t.Kind
}

func (t *Type) field(name string) *Type {
	if t == nil {
		return nil
	}
	for _, f := range t.Fields {
		if f.Name == name {
			return f.Typ
		}
	}
	return nil
}

var (
	internTab = map[string]*Term{}
	termSeq   int
	symSeq    int
)

func bigOf(n int64) *big.Int { return big.NewInt(n) }

var (
	tTrue  = &Term{}
	tFalse = &Term{}
	tNil   = &Term{}
	tZero  *Term
	tOne   *Term
)

func init() {
	tTrue = intern(&Term{op: TBool, s: "true"})
	tFalse = intern(&Term{op: TBool, s: "false"})
	tNil = intern(&Term{op: TNil})
	tZero = mkInt(0)
	tOne = mkInt(1)
}

func termKey(t *Term) string {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(t.s)
	b.WriteByte('|')
	if t.k != nil {
		b.WriteString(t.k.String())
	}
	if t.fn != nil {
		b.WriteString("F" + t.fn.Name)
	}
	for i, a := range t.args {
		b.WriteByte(',')
		if t.co != nil {
			b.WriteString(strconv.FormatInt(t.co[i], 10))
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.op == TAgg && t.typ != nil {
		b.WriteString("T" + t.typ.String())
	}
	if t.op == TIface && t.typ != nil {
		b.WriteString("T" + t.typ.String())
	}
	return b.String()
}

func intern(t *Term) *Term {
	k := termKey(t)
	if x, ok := internTab[k]; ok {
		return x
	}
	termSeq++
	t.id = termSeq
	internTab[k] = t
	return t
}

func mkInt(n int64) *Term { return intern(&Term{op: TInt, k: big.NewInt(n)}) }
func mkBig(n *big.Int) *Term {
	return intern(&Term{op: TInt, k: new(big.Int).Set(n)})
}
func mkStr(s string) *Term { return intern(&Term{op: TStr, s: s}) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkSym(hint string, typ *Type) *Term {
	symSeq++
	t := &Term{op: TSym, s: fmt.Sprintf("%s#%d", hint, symSeq), typ: typ}
	setRange(t, typ)
	return intern(t)
}

// mkNamed interns a symbol with a stable name.
func mkNamed(name string, typ *Type) *Term {
	t := &Term{op: TSym, s: name, typ: typ}
	setRange(t, typ)
	return intern(t)
}

func typeRange(typ *Type) (lo, hi *big.Int) {
	if typ == nil || typ.Kind != "int" || typ.Bits == 0 {
		return nil, nil
	}
	one := big.NewInt(1)
	if typ.Signed {
		hi = new(big.Int).Lsh(one, uint(typ.Bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Lsh(one, uint(typ.Bits))
		hi.Sub(hi, one)
	}
	return
}

func setRange(t *Term, typ *Type) { t.lo, t.hi = typeRange(typ) }

func mkObj(hint string, typ *Type) *Term {
	symSeq++
	return intern(&Term{op: TObj, s: fmt.Sprintf("%s#%d", hint, symSeq), typ: typ})
}

func mkFld(base *Term, name string) *Term {
	return intern(&Term{op: TFld, s: name, args: []*Term{base}})
}
func mkIdx(base, i *Term) *Term {
	return intern(&Term{op: TIdx, args: []*Term{base, i}})
}
func mkTuple(ts ...*Term) *Term { return intern(&Term{op: TTuple, args: ts}) }
func mkAgg(typ *Type, ts []*Term) *Term {
	// eta: Agg of all fields of same source collapses to the source
	if len(ts) > 0 && len(ts) == len(typ.Fields) {
		var src *Term
		ok := true
		for i, f := range ts {
			if f.op == TApp && f.s == "fld:"+typ.Fields[i].Name && len(f.args) == 1 {
				if src == nil {
					src = f.args[0]
				} else if src != f.args[0] {
					ok = false
				}
			} else {
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok && src != nil && src.typ != nil && src.typ.String() == typ.String() {
			return src
		}
	}
	return intern(&Term{op: TAgg, args: ts, typ: typ})
}
func mkIface(typ *Type, v *Term) *Term {
	return intern(&Term{op: TIface, args: []*Term{v}, typ: typ})
}

// mkField projects a field out of a struct value.
func mkField(v *Term, name string, ft *Type) *Term {
	if v.op == TAgg && v.typ != nil {
		for i, f := range v.typ.Fields {
			if f.Name == name {
				return v.args[i]
			}
		}
	}
	return mkApp("fld:"+name, ft, v)
}

func mkApp(s string, typ *Type, args ...*Term) *Term {
	t := &Term{op: TApp, s: s, args: args, typ: typ}
	setRange(t, typ)
	return intern(t)
}

// ---- linear arithmetic -------------------------------------------------

type linForm struct {
	co map[*Term]int64
	k  *big.Int
}

func toLin(t *Term) linForm {
	switch t.op {
	case TInt:
		return linForm{map[*Term]int64{}, new(big.Int).Set(t.k)}
	case TLin:
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.co[i]
		}
		return linForm{m, new(big.Int).Set(t.k)}
	}
	return linForm{map[*Term]int64{t: 1}, big.NewInt(0)}
}

func (l linForm) term() *Term {
	var atoms []*Term
	for a, c := range l.co {
		if c != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return mkBig(l.k)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.co[atoms[0]] == 1 && l.k.Sign() == 0 {
		return atoms[0]
	}
	co := make([]int64, len(atoms))
	for i, a := range atoms {
		co[i] = l.co[a]
	}
	return intern(&Term{op: TLin, args: atoms, co: co, k: l.k})
}

func linAdd(a, b linForm, s int64) linForm {
	r := linForm{map[*Term]int64{}, new(big.Int).Add(a.k, new(big.Int).Mul(b.k, big.NewInt(s)))}
	for t, c := range a.co {
		r.co[t] += c
	}
	for t, c := range b.co {
		r.co[t] += c * s
		if r.co[t] == 0 {
			delete(r.co, t)
		}
	}
	return r
}

func tAdd(a, b *Term) *Term { return linAdd(toLin(a), toLin(b), 1).term() }
func tSub(a, b *Term) *Term { return linAdd(toLin(a), toLin(b), -1).term() }
func tAddK(a *Term, k int64) *Term {
	return tAdd(a, mkInt(k))
}
func tMul(a, b *Term) *Term {
	if a.op == TInt && b.op == TInt {
		return mkBig(new(big.Int).Mul(a.k, b.k))
	}
	if b.op == TInt {
		a, b = b, a
	}
	if a.op == TInt && a.k.IsInt64() {
		l := toLin(b)
		r := linForm{map[*Term]int64{}, new(big.Int).Mul(l.k, a.k)}
		c := a.k.Int64()
		for t, cc := range l.co {
			if c*cc != 0 {
				r.co[t] = cc * c
			}
		}
		return r.term()
	}
	// distribute over sums so that products have a canonical form
	if (a.op == TLin && len(a.args)+b2i(a.k.Sign() != 0) > 1) || (b.op == TLin && len(b.args)+b2i(b.k.Sign() != 0) > 1) {
		res := tZero
		la, lb := toLin(a), toLin(b)
		for ta, ca := range la.co {
			for tb, cb := range lb.co {
				res = tAdd(res, tMul(mkInt(ca*cb), mulAtoms(ta, tb)))
			}
			res = tAdd(res, tMul(mkBig(lb.k), tMul(mkInt(ca), ta)))
		}
		for tb, cb := range lb.co {
			res = tAdd(res, tMul(mkBig(la.k), tMul(mkInt(cb), tb)))
		}
		return tAdd(res, mkBig(new(big.Int).Mul(la.k, lb.k)))
	}
	if a.op == TLin || b.op == TLin {
		la, lb := toLin(a), toLin(b)
		for ta, ca := range la.co {
			for tb, cb := range lb.co {
				return tMul(mkInt(ca*cb), mulAtoms(ta, tb))
			}
		}
	}
	return mulAtoms(a, b)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func mulAtoms(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("mul", nil, a, b)
}

func isConst(t *Term) (*big.Int, bool) {
	if t.op == TInt {
		return t.k, true
	}
	return nil, false
}

func constI(t *Term) (int64, bool) {
	if t.op == TInt && t.k.IsInt64() {
		return t.k.Int64(), true
	}
	return 0, false
}

// ---- booleans ----------------------------------------------------------

func tNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == TApp && a.s == "not":
		return a.args[0]
	case a.op == TApp && a.s == "le0":
		// not (x <= 0)  ==>  x >= 1  ==> 1 - x <= 0
		return tLe0(tSub(tOne, a.args[0]))
	}
	return mkApp("not", nil, a)
}

// tLe0 is the atom "x <= 0" on integers.
func tLe0(x *Term) *Term {
	if x.op == TInt {
		return mkBool(x.k.Sign() <= 0)
	}
	return mkApp("le0", nil, x)
}
func tLe(a, b *Term) *Term { return tLe0(tSub(a, b)) }
func tLt(a, b *Term) *Term { return tLe0(tAddK(tSub(a, b), 1)) }

func isIntTerm(t *Term) bool {
	switch t.op {
	case TInt, TLin:
		return true
	case TSym, TApp:
		return t.typ != nil && t.typ.Kind == "int" || t.op == TApp && (t.s == "len" || t.s == "mul" || t.s == "div" || t.s == "mod" || strings.HasPrefix(t.s, "wrap:"))
	}
	return false
}

// scalarTerm: a number, boolean or string, which is never nil.
func scalarTerm(t *Term) bool {
	return t.op == TInt || t.op == TLin || t.op == TStr || t.op == TBool
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a == tNil && scalarTerm(b) || b == tNil && scalarTerm(a) {
		return tFalse
	}
	if isIntTerm(a) && isIntTerm(b) {
		d := tSub(a, b)
		if d.op == TInt {
			return mkBool(d.k.Sign() == 0)
		}
		// orient: leading coefficient positive
		if d.op == TLin && d.co[0] < 0 {
			d = tMul(mkInt(-1), d)
		}
		return mkApp("eq0", nil, d)
	}
	if a.op == TBool || b.op == TBool {
		if b.op == TBool {
			a, b = b, a
		}
		if b.op == TBool {
			return mkBool(a == b)
		}
		if a == tTrue {
			return b
		}
		return tNot(b)
	}
	if a.op == TStr && b.op == TStr {
		return tFalse
	}
	// addresses, closures, interface wrappers are never nil
	if a == tNil || b == tNil {
		x := a
		if a == tNil {
			x = b
		}
		if neverNil(x) {
			return tFalse
		}
		return mkApp("eq", nil, x, tNil)
	}
	if a.op == TObj && b.op == TObj {
		return tFalse
	}
	if a.op == TIface && b.op == TIface {
		if a.typ.String() != b.typ.String() {
			return tFalse
		}
		return tEq(a.args[0], b.args[0])
	}
	if a.op == TAgg && b.op == TAgg && len(a.args) == len(b.args) {
		all := true
		for i := range a.args {
			e := tEq(a.args[i], b.args[i])
			if e == tFalse {
				return tFalse
			}
			if e != tTrue {
				all = false
			}
		}
		if all {
			return tTrue
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("eq", nil, a, b)
}

func neverNil(x *Term) bool {
	switch x.op {
	case TObj, TFld, TIdx, TFn, TClo, TIface:
		return true
	case TApp:
		return strings.HasPrefix(x.s, "nonnil:") || x.s == "errval"
	case TSym:
		return strings.HasPrefix(x.s, "nonnil:") || strings.HasPrefix(x.s, "global:err")
	case TSlice:
		return x.args[0].op == TObj
	}
	return false
}

// ---- printing ----------------------------------------------------------

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.str != "" {
		return t.str
	}
	s := t.render(0)
	t.str = s
	return s
}

func (t *Term) render(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.op {
	case TInt:
		return t.k.String()
	case TStr:
		return strconv.Quote(t.s)
	case TBool:
		return t.s
	case TNil:
		return "nil"
	case TSym, TObj:
		return t.s
	case TFld:
		return t.args[0].render(d+1) + "." + t.s
	case TIdx:
		return t.args[0].render(d+1) + "[" + t.args[1].render(d+1) + "]"
	case TFn:
		return t.fn.Name
	case TLin:
		var b strings.Builder
		for i, a := range t.args {
			c := t.co[i]
			if i > 0 && c >= 0 {
				b.WriteString("+")
			}
			if c == -1 {
				b.WriteString("-")
			} else if c != 1 {
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(a.render(d + 1))
		}
		if t.k.Sign() > 0 {
			b.WriteString("+" + t.k.String())
		} else if t.k.Sign() < 0 {
			b.WriteString(t.k.String())
		}
		return b.String()
	}
	var parts []string
	for _, a := range t.args {
		parts = append(parts, a.render(d+1))
	}
	j := strings.Join(parts, ", ")
	switch t.op {
	case TAgg:
		n := ""
		if t.typ != nil {
			n = shortName(t.typ.Name)
		}
		return n + "{" + j + "}"
	case TTuple:
		return "(" + j + ")"
	case TSlice:
		return "slice(" + j + ")"
	case TClo:
		return "closure " + t.fn.Name
	case TIface:
		return "iface[" + shortName(t.typ.String()) + "](" + j + ")"
	}
	return t.s + "(" + j + ")"
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// subterms calls f on t and everything below it until f returns false.
func subterms(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		subterms(a, seen, f)
	}
}

func containsTerm(t, x *Term) bool {
	found := false
	subterms(t, map[*Term]bool{}, func(y *Term) {
		if y == x {
			found = true
		}
	})
	return found
}
