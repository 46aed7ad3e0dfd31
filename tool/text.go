package main

import (
	"strings"
)

// Texts whose characters are known one by one, for clients with Text set: a
// text is an application "runes" of its characters.

func isText(t *Term) bool { return t.op == TApp && t.s == "runes" }

// runeWidth is the number of bytes of a character in UTF-8.
func runeWidth(r *Term) (int64, bool) {
	lo, hi := r.lo, r.hi
	if k, ok := isConst(r); ok {
		lo, hi = k, k
	}
	if lo == nil || hi == nil {
		return 0, false
	}
	cls := func(x int64) int64 {
		switch {
		case x < 0x80:
			return 1
		case x < 0x800:
			return 2
		case x < 0x10000:
			return 3
		}
		return 4
	}
	a, b := cls(lo.Int64()), cls(hi.Int64())
	return a, a == b
}

func textOf(t *Term) ([]*Term, bool) {
	switch {
	case isText(t):
		return t.args, true
	case t.op == TStr:
		var rs []*Term
		for _, r := range t.s {
			rs = append(rs, mkInt(int64(r)))
		}
		return rs, true
	case t.op == TApp && t.s == "runestr":
		return t.args, true
	}
	return nil, false
}

func mkText(rs []*Term) *Term {
	if len(rs) == 0 {
		return mkStr("")
	}
	return mkApp("runes", tStrT, rs...)
}

// textUnits are the characters of a list of runes.
func textUnits(c *Term) ([]*Term, bool) {
	rs := []*Term{}
	for _, p := range seqPieces(c) {
		if p.op == TApp && p.s == "span" {
			if n, ok := constI(tSub(p.args[2], p.args[1])); ok && n == 0 {
				continue
			}
		}
		if p.op != TApp || p.s != "unit" {
			return nil, false
		}
		rs = append(rs, p.args[0])
	}
	return rs, true
}

func (e *Engine) textConv(st *State, x *Term, from, to *Type) *Term {
	isRunes := func(t *Type) bool {
		return t.Kind == "slice" && t.Elem != nil && t.Elem.Kind == "int" && t.Elem.Bits == 32
	}
	if e.rawText(st, x) {
		return x
	}
	switch {
	case from.Kind == "string" && isRunes(to):
		if rs, ok := textOf(x); ok {
			var us []*Term
			for _, r := range rs {
				us = append(us, mkApp("unit", nil, r))
			}
			return e.newSlice(st, "runes", to.Elem, mkApp("cat", nil, us...))
		}
	case isRunes(from) && to.Kind == "string":
		if rs, ok := textUnits(e.sliceSeq(st, x, from.Elem)); ok {
			return mkText(rs)
		}
	case from.Kind == "int" && to.Kind == "string":
		return mkText([]*Term{x})
	case from.Kind == "string" && to.Kind == "slice":
		if rs, ok := textOf(x); ok {
			var us []*Term
			for _, r := range rs {
				if w, ok := runeWidth(r); !ok || w != 1 {
					return nil
				}
				us = append(us, mkApp("unit", nil, r))
			}
			return e.newSlice(st, "bytes", to.Elem, mkApp("cat", nil, us...))
		}
	case from.Kind == "slice" && to.Kind == "string":
		if rs, ok := textUnits(e.sliceSeq(st, x, from.Elem)); ok {
			for _, r := range rs {
				if w, ok := runeWidth(r); !ok || w != 1 {
					return nil
				}
			}
			return mkText(rs)
		}
	}
	return nil
}

// rawText: a text that has to be normalised first is used as it is.
func (e *Engine) rawText(st *State, x *Term) bool {
	if x.op != TApp || x.s != "unnormalised" {
		return false
	}
	if st.facts.satisfiable() {
		e.problem("a text is used before it is normalised")
	}
	st.facts.dead = true
	return true
}

// lowered is a character in lower case.
func lowered(r *Term) *Term {
	if k, ok := constI(r); ok && k < 0x80 {
		return mkInt(int64([]rune(strings.ToLower(string(rune(k))))[0]))
	}
	if r.op == TApp && r.s == "lower" {
		return r
	}
	if r.lo != nil && r.lo.Int64() >= 0x2500 { // neither has case
		return r
	}
	if r.lo != nil && r.hi != nil && r.hi.Int64() < 0x80 {
		if r.lo.Int64() > 'Z' || r.hi.Int64() < 'A' {
			return r
		}
		l := mkApp("lower", tRuneT, r)
		if r.lo.Int64() >= 'A' && r.hi.Int64() <= 'Z' {
			l.lo, l.hi = bigOf('a'), bigOf('z')
		}
		return l
	}
	return mkApp("lower", tRuneT, r)
}

var tRuneT = &Type{Kind: "int", Bits: 32, Signed: true, str: "int32"}

// textModel are the library functions on such texts.
func (e *Engine) textModel(st *State, c *CallCtx) ([]Outcome, bool) {
	n, a := c.Name, c.Args
	within := func(r *Term, lo, hi int64) bool {
		if k, ok := constI(r); ok {
			return lo <= k && k <= hi
		}
		return r.lo != nil && r.lo.Int64() >= lo && r.hi.Int64() <= hi
	}
	switch n {
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsNumber", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower", "unicode.IsPunct", "unicode.In":
		r := a[0]
		up, low, dig, sp := within(r, 'A', 'Z'), within(r, 'a', 'z'), within(r, '0', '9'), within(r, '\t', '\r') || within(r, ' ', ' ')
		if !within(r, 0, 127) {
			return nil, false
		}
		known := up || low || dig || sp || within(r, '!', '/') || within(r, ':', '@') || within(r, '[', '`') || within(r, '{', '~') || within(r, 0, 8) || within(r, 14, 31) || within(r, 127, 127)
		if !known {
			return nil, false
		}
		switch strings.TrimPrefix(n, "unicode.") {
		case "IsLetter":
			return one(st, mkBool(up || low)), true
		case "IsUpper":
			return one(st, mkBool(up)), true
		case "IsLower":
			return one(st, mkBool(low)), true
		case "IsDigit", "IsNumber":
			return one(st, mkBool(dig)), true
		case "IsSpace":
			return one(st, mkBool(sp)), true
		}
	case "unicode.ToLower":
		return one(st, lowered(a[0])), true
	case "strings.ToLower":
		if rs, ok := textOf(a[0]); ok {
			var ls []*Term
			for _, r := range rs {
				ls = append(ls, lowered(r))
			}
			return one(st, mkText(ls)), true
		}
	case "unicode/utf8.RuneLen":
		if w, ok := runeWidth(a[0]); ok {
			return one(st, mkInt(w)), true
		}
	case "unicode/utf8.RuneCountInString":
		if rs, ok := textOf(a[0]); ok {
			return one(st, mkInt(int64(len(rs)))), true
		}
	case "(*strings.Builder).WriteRune", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).String", "(*strings.Builder).Len", "(*strings.Builder).Grow", "(*strings.Builder).Reset",
		"(*bytes.Buffer).WriteRune", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).String", "(*bytes.Buffer).Len", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Reset":
		cell := mkFld(a[0], "#text")
		if _, ok := fldKeyOf[cell]; !ok {
			fldKeyOf[cell] = "text"
		}
		cur, ok := st.mem[cell]
		if !ok {
			cur = mkStr("")
		}
		rs, ok := textOf(cur)
		if !ok {
			return nil, false
		}
		switch c.Short {
		case "WriteRune", "WriteByte":
			w, ok := runeWidth(a[1])
			if !ok {
				return nil, false
			}
			st.mem[cell] = mkText(append(append([]*Term{}, rs...), a[1]))
			if c.Short == "WriteByte" {
				return one(st, tNil), true
			}
			return one(st, mkInt(w), tNil), true
		case "WriteString":
			more, ok := textOf(a[1])
			if !ok {
				return nil, false
			}
			st.mem[cell] = mkText(append(append([]*Term{}, rs...), more...))
			return one(st, textLen(a[1]), tNil), true
		case "String":
			return one(st, cur), true
		case "Len":
			return one(st, textLen(cur)), true
		case "Reset":
			st.mem[cell] = mkStr("")
		}
		return one(st), true
	case "strings.Map":
		rs, ok := textOf(a[1])
		if !ok || a[0].op != TClo && a[0].op != TFn {
			return nil, false
		}
		var out []*Term
		for _, r := range rs {
			os := e.Run(a[0].fn, []*Term{r}, a[0].args, st)
			if len(os) != 1 || os[0].panic || len(os[0].res) != 1 {
				return nil, false
			}
			st = os[0].st
			if k, ok := constI(os[0].res[0]); !ok || k >= 0 {
				out = append(out, os[0].res[0])
			}
		}
		return one(st, mkText(out)), true
	case "strings.Join":
		if ps, ok := textUnits(e.sliceSeq(st, a[0], tStrT)); ok {
			var all []*Term
			sep, ok := textOf(a[1])
			for i, p := range ps {
				rs, ok2 := textOf(p)
				if !ok || !ok2 {
					return nil, false
				}
				if i > 0 {
					all = append(all, sep...)
				}
				all = append(all, rs...)
			}
			return one(st, mkText(all)), true
		}
	}
	return nil, false
}

func textLen(t *Term) *Term {
	rs, ok := textOf(t)
	if !ok {
		return mkApp("len", nil, t)
	}
	n := int64(0)
	for _, r := range rs {
		w, ok := runeWidth(r)
		if !ok {
			return mkApp("len", nil, t)
		}
		n += w
	}
	return mkInt(n)
}

// textAt is the character that begins at a byte of a text.
func textAt(t *Term, at int64) (r *Term, w int64) {
	rs, _ := textOf(t)
	for _, r := range rs {
		w, ok := runeWidth(r)
		if !ok || at < 0 {
			return nil, 0
		}
		if at == 0 {
			return r, w
		}
		at -= w
	}
	return nil, 0
}

// textSlice is the part of a text between two bytes.
func textSlice(t, lo, hi *Term) *Term {
	l, ok1 := constI(lo)
	h, ok2 := constI(hi)
	rs, ok := textOf(t)
	if !ok || !ok1 || !ok2 {
		return nil
	}
	var part []*Term
	at := int64(0)
	for _, r := range rs {
		w, ok := runeWidth(r)
		if !ok {
			return nil
		}
		if at >= l && at+w <= h {
			part = append(part, r)
		} else if at < h && at+w > l {
			return nil
		}
		at += w
	}
	return mkText(part)
}

func isTextVal(t *Term) bool {
	_, ok := textOf(t)
	return ok
}
