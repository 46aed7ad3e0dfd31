package main

// Loops whose variables move by a constant per iteration: every such variable
// is written as its entry value plus a multiple of the iteration number, so
// that "iteration k handles entry k" can be read off whatever shape the loop
// has.  Variables that move modulo a constant are kept up to congruence.

type loopRec struct {
	begin       *Event
	head, entry *State
	backs       []*State
	iter        *Term
	lin         map[*Term]*Term // head symbol -> entry + c*iter
	cong        map[*Term]*Term // the same modulo n
	step        map[*Term]int64
	n           int64
}

type loopTracker struct {
	recs map[*Event]*loopRec
}

func newLoopTracker() *loopTracker { return &loopTracker{recs: map[*Event]*loopRec{}} }

// back is to be called from the OnBack hook.
func (lt *loopTracker) back(e *Engine, st *State) {
	if e.dry > 0 {
		return
	}
	b := openLoop(st.trace)
	if b == nil {
		return
	}
	r := lt.recs[b]
	if r == nil {
		r = &loopRec{begin: b, head: e.headSt[b], entry: e.entry[b]}
		lt.recs[b] = r
	}
	r.backs = append(r.backs, st)
}

func (r *loopRec) solve(n int64) {
	if r.lin != nil {
		return
	}
	r.n = n
	r.iter = mkSym("iter", tIntT)
	r.lin, r.cong, r.step = map[*Term]*Term{}, map[*Term]*Term{}, map[*Term]int64{}
	if r.head == nil || r.entry == nil {
		return
	}
	add := func(h, en *Term, next func(*State) *Term) {
		if h == nil || en == nil || h == en || h.op != TSym || !isIntTerm(h) || len(r.backs) == 0 {
			return
		}
		for _, c := range []int64{1, -1, 2, 4, 8, -2, -4, -8} {
			exact, cong := true, true
			for _, b := range r.backs {
				v := next(b)
				if v == nil {
					return
				}
				d := tSub(v, h)
				if d == mkInt(c) || b.facts.implied(tEq(d, mkInt(c))) {
					continue
				}
				exact = false
				if n > 0 && (congSame(tSub(d, mkInt(c)), tZero, n, nil) || b.facts.implied(tEq(d, mkInt(c-n))) || b.facts.implied(tEq(d, mkInt(c+n)))) {
					continue
				}
				cong = false
			}
			if exact {
				r.lin[h] = tAdd(en, tMul(mkInt(c), r.iter))
				r.step[h] = c
				return
			}
			if cong {
				r.cong[h] = tAdd(en, tMul(mkInt(c), r.iter))
				r.step[h] = c
				return
			}
		}
	}
	for reg, h := range r.head.env {
		reg := reg
		add(h, r.entry.env[reg], func(s *State) *Term { return s.env[reg] })
	}
	for cell, h := range r.head.mem {
		cell := cell
		add(h, r.entry.mem[cell], func(s *State) *Term { return s.mem[cell] })
	}
}

// at writes t in terms of the iteration number (exact variables only).
func (r *loopRec) at(t *Term) *Term { return replaceTerms(t, r.lin) }

// atMod also replaces the variables known modulo n.
func (r *loopRec) atMod(t *Term) *Term {
	return replaceTerms(replaceTerms(t, r.lin), r.cong)
}

// iterations at least k were made when the loop was left with facts f.
func (r *loopRec) atLeast(f *Facts, k *Term) bool {
	for h, l := range r.lin {
		en := tSub(l, tMul(mkInt(r.step[h]), r.iter))
		d := tSub(h, en)
		if r.step[h] < 0 {
			d = tMul(mkInt(-1), d)
		}
		c := r.step[h]
		if c < 0 {
			c = -c
		}
		if f.implied(tLe(tMul(mkInt(c), k), d)) {
			return true
		}
	}
	return false
}

// since returns the events of one iteration.
func (r *loopRec) since(b *State) []*Event {
	for i := len(b.trace) - 1; i >= 0; i-- {
		if b.trace[i] == r.begin {
			return b.trace[i+1:]
		}
	}
	return nil
}

// lastPass returns the events of the pass in which the loop was left.
func (r *loopRec) lastPass(tr []*Event) []*Event {
	from := -1
	for i, ev := range tr {
		if ev == r.begin {
			from = i
		}
		if from >= 0 && ev.Kind == "loop-end" && ev.Loop == r.begin.Loop {
			return tr[from+1 : i]
		}
	}
	if from >= 0 {
		return tr[from+1:]
	}
	return nil
}

// stripMod drops reductions modulo n, which do not matter up to congruence.
func stripMod(t *Term, n int64) *Term {
	l := toLin(t)
	res := mkBig(l.k)
	for a, c := range l.co {
		x := a
		if a.op == TApp && len(a.args) == 2 {
			k, ok := constI(a.args[1])
			switch {
			case a.s == "mod" && ok && k%n == 0:
				x = stripMod(a.args[0], n)
			case a.s == "bin:&" && ok && k == n-1:
				x = stripMod(a.args[0], n)
			case a.s == "bin:&":
				if k, ok := constI(a.args[0]); ok && k == n-1 {
					x = stripMod(a.args[1], n)
				}
			}
		}
		res = tAdd(res, tMul(mkInt(c), x))
	}
	return res
}

// congSame: a and b differ by a multiple of n.
func congSame(a, b *Term, n int64, f *Facts) bool {
	d := stripMod(tSub(a, b), n)
	if f != nil {
		d = stripMod(f.norm(d), n)
	}
	if f != nil && f.implied(tEq(d, tZero)) {
		return true
	}
	l := toLin(d)
	for _, c := range l.co {
		if c%n != 0 {
			return false
		}
	}
	return l.k.IsInt64() && l.k.Int64()%n == 0
}
