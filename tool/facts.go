package main

// Facts is the abstract domain attached to each dataflow state: a set of
// literals over value numbers plus a conjunction of linear inequalities.
// Entailment is decided by variable elimination (Fourier-Motzkin) on the
// inequalities connected with the query; it is sound and may answer "unknown".

import (
	"math/big"
	"strings"
)

type Facts struct {
	lits     []*Term // boolean terms known to be true
	has      map[*Term]bool
	lin      []*Term // terms known to be <= 0
	neq      []*Term // linear terms known to be != 0
	sub      map[*Term]*Term
	dead     bool
	modDepth int
	memo     map[*Term]*Term // cache of norm, dropped when sub grows
}

func newFacts() *Facts {
	return &Facts{has: map[*Term]bool{}, sub: map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{lits: f.lits[:len(f.lits):len(f.lits)], lin: f.lin[:len(f.lin):len(f.lin)], neq: f.neq[:len(f.neq):len(f.neq)], dead: f.dead}
	n.has = make(map[*Term]bool, len(f.has)+2)
	for k, v := range f.has {
		n.has[k] = v
	}
	n.sub = make(map[*Term]*Term, len(f.sub)+1)
	for k, v := range f.sub {
		n.sub[k] = v
	}
	return n
}

// norm rewrites t under the known equalities.
func (f *Facts) norm(t *Term) *Term {
	if len(f.sub) == 0 {
		return t
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := f.norm1(t, 0)
	if f.memo == nil {
		f.memo = map[*Term]*Term{}
	}
	f.memo[t] = r
	return r
}

func (f *Facts) norm1(t *Term, d int) *Term {
	if d > 8 {
		return t
	}
	if r, ok := f.sub[t]; ok {
		return f.norm1(r, d+1)
	}
	switch t.op {
	case TLin:
		res := mkBig(t.k)
		changed := false
		for i, a := range t.args {
			na := f.norm1(a, d+1)
			if na != a {
				changed = true
			}
			res = tAdd(res, tMul(mkInt(t.co[i]), na))
		}
		if changed {
			return res
		}
		return t
	case TApp:
		changed := false
		var na []*Term
		for i, a := range t.args {
			x := f.norm1(a, d+1)
			if x != a && !changed {
				changed = true
				na = append([]*Term{}, t.args...)
			}
			if changed {
				na[i] = x
			}
		}
		if !changed {
			return t
		}
		return rebuildApp(t, na)
	}
	return t
}

func rebuildApp(t *Term, na []*Term) *Term {
	switch t.s {
	case "not":
		return tNot(na[0])
	case "le0":
		return tLe0(na[0])
	case "eq0":
		return tEq(na[0], tZero)
	case "eq":
		return tEq(na[0], na[1])
	case "mul":
		return tMul(na[0], na[1])
	case "div":
		return tDiv(na[0], na[1])
	case "mod":
		return tMod(na[0], na[1])
	}
	if strings.HasPrefix(t.s, "fld:") {
		return mkField(na[0], t.s[4:], t.typ)
	}
	return mkApp(t.s, t.typ, na...)
}

func tDiv(a, b *Term) *Term {
	if x, ok := isConst(a); ok {
		if y, ok := isConst(b); ok && y.Sign() != 0 {
			return mkBig(new(big.Int).Quo(x, y))
		}
	}
	if b == tOne {
		return a
	}
	return mkApp("div", nil, a, b)
}
func tMod(a, b *Term) *Term {
	if x, ok := isConst(a); ok {
		if y, ok := isConst(b); ok && y.Sign() != 0 {
			return mkBig(new(big.Int).Rem(x, y))
		}
	}
	return mkApp("mod", nil, a, b)
}

// assume adds a boolean term to the facts.
func (f *Facts) assume(t *Term) {
	t = f.norm(t)
	if t == tTrue {
		return
	}
	if t == tFalse {
		f.dead = true
		return
	}
	if f.has[t] {
		return
	}
	f.lits = append(f.lits, t)
	f.has[t] = true
	nsub := len(f.sub)
	defer func() {
		if len(f.sub) != nsub {
			f.memo = nil
		}
	}()
	if t.op == TApp {
		switch t.s {
		case "le0":
			f.lin = append(f.lin, t.args[0])
		case "eq0":
			d := t.args[0]
			f.lin = append(f.lin, d, tMul(mkInt(-1), d))
			// single-atom equality: substitute
			if d.op == TLin && len(d.args) == 1 && (d.co[0] == 1 || d.co[0] == -1) {
				k := new(big.Int).Neg(d.k)
				if d.co[0] == -1 {
					k = new(big.Int).Set(d.k)
				}
				f.sub[d.args[0]] = mkBig(k)
			} else if d.op != TLin && d.op != TInt {
				f.sub[d] = tZero
			} else if d.op == TLin && len(d.args) == 2 && d.k.Sign() == 0 && d.co[0] == -d.co[1] && (d.co[0] == 1 || d.co[0] == -1) {
				// a == b: rewrite the younger atom into the older one
				a, b := d.args[0], d.args[1]
				if !containsTerm(a, b) {
					f.sub[b] = a
				}
			}
		case "eq":
			a, b := t.args[0], t.args[1]
			for i, x := range []*Term{a, b} {
				if x == tNil && t.args[1-i].typ != nil && t.args[1-i].typ.Kind == "slice" {
					f.assume(tEq(lenOf(t.args[1-i]), tZero))
				}
			}
			// rewrite b into a, preferring constants as representatives
			if isLeafConst(a) {
				a, b = b, a
			}
			if isLeafConst(b) || b.id < a.id {
				if !containsTerm(b, a) {
					f.sub[a] = b
				}
			} else if !containsTerm(a, b) {
				f.sub[b] = a
			}
		case "not":
			u := t.args[0]
			if u.op == TApp && u.s == "eq0" {
				f.neq = append(f.neq, u.args[0])
			} else if u.op == TSym || u.op == TApp && u.s != "eq" {
				f.sub[u] = tFalse
			}
		default:
			f.sub[t] = tTrue
		}
	} else if t.op == TSym {
		f.sub[t] = tTrue
	}
}

func isLeafConst(t *Term) bool {
	switch t.op {
	case TInt, TStr, TBool, TNil, TObj:
		return true
	}
	return false
}

// truth answers whether t is known true (1), known false (-1) or unknown (0).
func (f *Facts) truth(t *Term) int {
	if f.dead {
		return 1
	}
	t = f.norm(t)
	if t == tTrue {
		return 1
	}
	if t == tFalse {
		return -1
	}
	if f.has[t] {
		return 1
	}
	if f.has[tNot(t)] {
		return -1
	}
	if t.op == TApp {
		switch t.s {
		case "not":
			return -f.truth(t.args[0])
		case "le0":
			if f.entailsLe0(t.args[0]) {
				return 1
			}
			// x >= 1 ?
			if f.entailsLe0(tSub(tOne, t.args[0])) {
				return -1
			}
			return 0
		case "eq0":
			d := t.args[0]
			le, ge := f.entailsLe0(d), f.entailsLe0(tMul(mkInt(-1), d))
			if le && ge {
				return 1
			}
			if f.entailsLe0(tAddK(d, 1)) || f.entailsLe0(tSub(tOne, d)) {
				return -1
			}
			return 0
		case "eq":
			a, b := t.args[0], t.args[1]
			// x == c1 known, asking x == c2
			if isLeafConst(b) || isLeafConst(a) {
				return 0
			}
			return 0
		}
		if strings.HasPrefix(t.s, "is:") {
			// distinct concrete dynamic types exclude each other
			for _, l := range f.lits {
				if l.op == TApp && strings.HasPrefix(l.s, "is:") && l.s != t.s && l.args[0] == t.args[0] && concreteTest(l.s) && concreteTest(t.s) {
					return -1
				}
			}
			if f.has[mkApp("eq", nil, t.args[0], tNil)] {
				return -1
			}
		}
	}
	return 0
}

func concreteTest(s string) bool { return !strings.HasPrefix(s, "is:iface:") }

func (f *Facts) implied(t *Term) bool { return f.truth(t) > 0 }
func (f *Facts) refuted(t *Term) bool { return f.truth(t) < 0 }

// axioms adds what is always true of the atoms of a constraint.
func (f *Facts) atomAxioms(a *Term, add func(*Term)) {
	nonneg := func(x *Term) { add(tMul(mkInt(-1), x)) }
	if a.lo != nil {
		add(tSub(mkBig(a.lo), a))
		if a.hi != nil && a.typ != nil && (a.typ.Bits <= 32 || a.hi.BitLen() <= 40) {
			add(tSub(a, mkBig(a.hi)))
		}
	}
	if a.op != TApp {
		return
	}
	switch a.s {
	case "len":
		nonneg(a)
	case "nodesize":
		add(tSub(mkInt(5), a))
	case "div":
		if c, ok := constI(a.args[1]); ok && c > 0 {
			x := a.args[0]
			if f.nonnegQuick(x) || f.modNonneg(x) {
				// c*q <= x <= c*q + c-1
				add(tSub(tMul(mkInt(c), a), x))
				add(tSub(x, tAddK(tMul(mkInt(c), a), c-1)))
				nonneg(a)
			}
		}
	case "mod":
		if c, ok := constI(a.args[1]); ok && c > 0 {
			add(tSub(a, mkInt(c-1)))
			if f.nonnegQuick(a.args[0]) || f.modNonneg(a.args[0]) {
				nonneg(a)
				// x - m is a multiple of c: tie to the quotient
				q := mkApp("div", nil, a.args[0], a.args[1])
				d := tSub(tSub(a.args[0], a), tMul(mkInt(c), q))
				add(d)
				add(tMul(mkInt(-1), d))
			} else {
				add(tSub(mkInt(-(c - 1)), a))
			}
		} else if f.nonnegQuick(a.args[0]) {
			nonneg(a)
			if f.positiveQuick(a.args[1]) {
				add(tAddK(tSub(a, a.args[1]), 1))
			}
		}
	case "mul":
		if f.nonnegQuick(a.args[0]) && f.nonnegQuick(a.args[1]) {
			nonneg(a)
		}
	case "min":
		for _, x := range a.args {
			add(tSub(a, x))
		}
		ok := true
		for _, x := range a.args {
			ok = ok && f.nonnegQuick(x)
		}
		if ok {
			nonneg(a)
		}
	case "max":
		for _, x := range a.args {
			add(tSub(x, a))
		}
	}
}

// modNonneg decides the sign of a dividend from the facts.
func (f *Facts) modNonneg(x *Term) bool {
	if f.modDepth > 1 {
		return false
	}
	f.modDepth++
	r := f.implied(tLe(tZero, x))
	f.modDepth--
	return r
}

// nonnegQuick is a cheap syntactic/interval test.
func (f *Facts) nonnegQuick(x *Term) bool { return f.geQuick(x, 0, 6) }
func (f *Facts) positiveQuick(x *Term) bool {
	return f.geQuick(x, 1, 6)
}

func (f *Facts) geQuick(x *Term, k int64, depth int) bool {
	if depth <= 0 {
		return false
	}
	switch x.op {
	case TInt:
		return x.k.Cmp(big.NewInt(k)) >= 0
	case TLin:
		s := new(big.Int).Set(x.k)
		for i, a := range x.args {
			lo := f.atomLo(a, depth-1)
			if x.co[i] > 0 {
				if lo == nil {
					goto facts
				}
				s.Add(s, new(big.Int).Mul(lo, big.NewInt(x.co[i])))
			} else {
				goto facts
			}
		}
		return s.Cmp(big.NewInt(k)) >= 0
	default:
		if lo := f.atomLo(x, depth-1); lo != nil && lo.Cmp(big.NewInt(k)) >= 0 {
			return true
		}
	}
facts:
	for _, l := range f.lin {
		// l <= 0 with l = c - x  (c >= k)
		s := tAdd(l, x)
		if s.op == TInt && s.k.Cmp(big.NewInt(k)) >= 0 {
			return true
		}
		if s.op != TInt && s != x && len(toLin(s).co) < len(toLin(l).co) && f.geQuick(s, k, depth-2) {
			// x >= s >= k
			return true
		}
	}
	return false
}

func (f *Facts) atomLo(a *Term, depth int) *big.Int {
	if a.op == TApp && a.s == "nodesize" {
		return big.NewInt(5)
	}
	if a.lo != nil && a.lo.Sign() >= 0 {
		return a.lo
	}
	if a.op == TApp {
		switch a.s {
		case "len":
			return big.NewInt(0)
		case "mul":
			if depth > 0 && f.geQuick(a.args[0], 0, depth-1) && f.geQuick(a.args[1], 0, depth-1) {
				return big.NewInt(0)
			}
		case "div", "mod":
			if depth > 0 && f.geQuick(a.args[0], 0, depth-1) {
				return big.NewInt(0)
			}
		}
	}
	for _, l := range f.lin {
		if l.op == TLin && len(l.args) == 1 && l.args[0] == a && l.co[0] == -1 {
			return l.k
		}
		if l.op == TLin && len(l.args) == 1 && l.args[0] == a && l.co[0] < 0 {
			q := new(big.Int).Neg(l.k)
			q.Neg(q)
			q.Quo(q, big.NewInt(-l.co[0]))
			if q.Sign() >= 0 {
				return q
			}
		}
	}
	return nil
}

var fmCache = map[string]bool{}

// entailsLe0 decides whether the facts imply x <= 0.
func (f *Facts) entailsLe0(x *Term) bool {
	if f.dead {
		return true
	}
	x = f.norm(x)
	if x.op == TInt {
		return x.k.Sign() <= 0
	}
	// quick syntactic hits
	for _, l := range f.lin {
		if l == x {
			return true
		}
		d := tSub(x, l)
		if d.op == TInt && d.k.Sign() <= 0 {
			return true
		}
	}
	if f.maxNonpositive(x) {
		return true
	}
	if f.maxNonpositive(tSub(tOne, x)) {
		return false
	}
	// a fact and the bounds of what is left over
	if n := len(toLin(x).co); n > 1 {
		for _, l := range f.lin {
			if l.op != TLin {
				continue
			}
			if d := tSub(x, l); len(toLin(d).co) < n && f.maxNonpositive(d) {
				return true
			}
		}
	}
	goal := tSub(tOne, x) // negation: x >= 1
	return f.infeasibleWith(goal, true)
}

// maxNonpositive: the bounds of the atoms alone keep x at or below zero.
func (f *Facts) maxNonpositive(x *Term) bool {
	l := toLin(x)
	s := new(big.Int).Set(l.k)
	for a, co := range l.co {
		if co < 0 {
			lo := f.atomLo(a, 2)
			if lo == nil {
				return false
			}
			s.Add(s, new(big.Int).Mul(lo, big.NewInt(co)))
		} else if a.hi != nil {
			s.Add(s, new(big.Int).Mul(a.hi, big.NewInt(co)))
		} else {
			return false
		}
	}
	return s.Sign() <= 0
}

// infeasibleWith reports whether facts plus goal<=0 have no solution.
func (f *Facts) infeasibleWith(goal *Term, useNeq bool) bool {
	cons := []*Term{goal}
	inSet := map[*Term]bool{goal: true}
	atoms := map[*Term]bool{}
	var queue []*Term
	addAtoms := func(t *Term) {
		for a := range toLin(t).co {
			if !atoms[a] {
				atoms[a] = true
				queue = append(queue, a)
			}
		}
	}
	addCon := func(t *Term) {
		t = f.norm(t)
		if inSet[t] {
			return
		}
		if t.op == TInt && t.k.Sign() <= 0 {
			return
		}
		inSet[t] = true
		cons = append(cons, t)
		addAtoms(t)
	}
	addAtoms(goal)
	// saturate with connected constraints and axioms
	var normed []*Term
	for _, l := range f.lin {
		normed = append(normed, f.norm(l))
	}
	for len(queue) > 0 && len(atoms) < 60 {
		a := queue[0]
		queue = queue[1:]
		f.atomAxioms(a, addCon)
		for _, l := range normed {
			if inSet[l] {
				continue
			}
			if _, ok := toLin(l).co[a]; ok {
				addCon(l)
			}
		}
	}
	for _, l := range normed {
		if l.op == TInt && l.k.Sign() > 0 {
			return true
		}
	}
	if useNeq {
		for _, d := range f.neq {
			d = f.norm(d)
			rel := false
			for a := range toLin(d).co {
				if atoms[a] {
					rel = true
				}
			}
			if !rel {
				continue
			}
			nd := tMul(mkInt(-1), d)
			if f.le0NoNeq(d, cons) {
				addCon(tAddK(d, 1))
			} else if f.le0NoNeq(nd, cons) {
				addCon(tAddK(nd, 1))
			}
		}
	}
	return fmInfeasible(cons)
}

func (f *Facts) le0NoNeq(x *Term, base []*Term) bool {
	if x.op == TInt {
		return x.k.Sign() <= 0
	}
	for _, l := range f.lin {
		if l == x {
			return true
		}
	}
	cs := append(append([]*Term{}, base...), tSub(tOne, x))
	for a := range toLin(x).co {
		f.atomAxioms(a, func(t *Term) { cs = append(cs, f.norm(t)) })
	}
	return fmInfeasible(cs)
}

type fmRow struct {
	co map[*Term]*big.Int
	k  *big.Int
}

func fmInfeasible(cons []*Term) bool {
	var rows []fmRow
	seen := map[string]bool{}
	addRow := func(r fmRow) bool {
		if len(r.co) == 0 {
			return r.k.Sign() > 0
		}
		// gcd tightening for integers
		g := new(big.Int)
		for _, c := range r.co {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			for a, c := range r.co {
				r.co[a] = new(big.Int).Quo(c, g)
			}
			// sum + k <= 0  => sum <= -k => sum/g <= floor(-k/g)
			nk := new(big.Int).Neg(r.k)
			q := new(big.Int)
			m := new(big.Int)
			q.DivMod(nk, g, m) // floor for positive g (Euclid)
			r.k = q.Neg(q)
		}
		key := rowKey(r)
		if seen[key] {
			return false
		}
		seen[key] = true
		rows = append(rows, r)
		return false
	}
	for _, c := range cons {
		l := toLin(c)
		r := fmRow{map[*Term]*big.Int{}, l.k}
		for a, co := range l.co {
			r.co[a] = big.NewInt(co)
		}
		if addRow(r) {
			return true
		}
	}
	for {
		// choose variable with the fewest new rows
		pos := map[*Term]int{}
		neg := map[*Term]int{}
		for _, r := range rows {
			for a, c := range r.co {
				if c.Sign() > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		var best *Term
		bestCost := 1 << 30
		for a := range pos {
			c := pos[a]*neg[a] - pos[a] - neg[a]
			if c < bestCost || c == bestCost && best != nil && a.id < best.id {
				best, bestCost = a, c
			}
		}
		for a := range neg {
			if _, ok := pos[a]; !ok {
				c := -neg[a]
				if c < bestCost || c == bestCost && best != nil && a.id < best.id {
					best, bestCost = a, c
				}
			}
		}
		if best == nil {
			return false
		}
		if bestCost > 3000 {
			return false
		}
		var P, N, rest []fmRow
		for _, r := range rows {
			c, ok := r.co[best]
			if !ok {
				rest = append(rest, r)
			} else if c.Sign() > 0 {
				P = append(P, r)
			} else {
				N = append(N, r)
			}
		}
		rows = rest
		for _, p := range P {
			for _, n := range N {
				cp, cn := p.co[best], new(big.Int).Neg(n.co[best])
				r := fmRow{map[*Term]*big.Int{}, new(big.Int)}
				r.k.Add(new(big.Int).Mul(p.k, cn), new(big.Int).Mul(n.k, cp))
				for a, c := range p.co {
					if a != best {
						r.co[a] = new(big.Int).Mul(c, cn)
					}
				}
				for a, c := range n.co {
					if a != best {
						x := new(big.Int).Mul(c, cp)
						if o, ok := r.co[a]; ok {
							x.Add(x, o)
						}
						if x.Sign() == 0 {
							delete(r.co, a)
						} else {
							r.co[a] = x
						}
					}
				}
				if addRow(r) {
					return true
				}
			}
		}
		if len(rows) > 4000 {
			return false
		}
	}
}

func rowKey(r fmRow) string {
	var ids []*Term
	for a := range r.co {
		ids = append(ids, a)
	}
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j].id < ids[j-1].id; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
	var b strings.Builder
	b.WriteString(r.k.String())
	for _, a := range ids {
		b.WriteByte(' ')
		b.WriteString(big.NewInt(int64(a.id)).String())
		b.WriteByte('*')
		b.WriteString(r.co[a].String())
	}
	return b.String()
}

// consistent reports false when the facts are contradictory.
func (f *Facts) consistent() bool {
	if f.dead {
		return false
	}
	return true
}
