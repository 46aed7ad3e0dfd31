package main

// C08: the key comparators are total orders, and every tree search uses one.

import "fmt"

func init() {
	register(&Check{
		ID:    "C08",
		Title: "key order is a total order",
		Rules: "The comparators touch keys only through comparisons, so their behaviour is a finite table: for each of the 27 sign combinations of (value bytes, record offset, record length), respectively the 3 orders of two ids, the dataflow over the comparator's paths must yield a result of the sign of the first difference (0 only when all are equal). Every comparator handed to a binary search of the tree packages is decided the same way, and the searches of one package all use the same one.",
		Trust: []string{"Go type checker and go/ssa construction", "bytes.Compare is the lexicographic order; slices.BinarySearchFunc finds the first element not smaller than the target"},
		Run:   runC08,
	})
}

// keyLeaves lists the scalar parts of a key type in order of declaration.
func keyLeaves(v *Term, t *Type, path string, out *[]keyLeaf) {
	if t == nil {
		return
	}
	switch t.Kind {
	case "struct":
		for _, f := range t.Fields {
			keyLeaves(mkField(v, f.Name, f.Typ), f.Typ, path+"."+f.Name, out)
		}
	default:
		*out = append(*out, keyLeaf{path, v, t})
	}
}

type keyLeaf struct {
	path string
	v    *Term
	t    *Type
}

// orderOf decides the comparator by exhausting the sign table; ranks lists the
// leaf paths from most to least significant (others must not matter).
func orderOf(c *Ctx, g *GoProg, fn *Func, bindings []*Term, ranks []string) {
	c.Fn(fn)
	if len(fn.ParamT) != 2 {
		c.Obl("order", fn.Name, false, fn.Pos, "not a comparator of two keys")
		return
	}
	a, b := mkNamed("arg:a", fn.ParamT[0]), mkNamed("arg:b", fn.ParamT[1])
	var la, lb []keyLeaf
	keyLeaves(a, fn.ParamT[0], "", &la)
	keyLeaves(b, fn.ParamT[1], "", &lb)
	find := func(ls []keyLeaf, p string) *keyLeaf {
		for i := range ls {
			if ls[i].path == p {
				return &ls[i]
			}
		}
		return nil
	}
	n := 1
	for range ranks {
		n *= 3
	}
	for combo := 0; combo < n; combo++ {
		signs := make([]int, len(ranks))
		x := combo
		want := 0
		for i := range ranks {
			signs[i] = x%3 - 1
			x /= 3
		}
		for i := range ranks {
			if want == 0 {
				want = signs[i]
			}
		}
		st := newState()
		byteSign := map[string]int{}
		for i, r := range ranks {
			pa, pb := find(la, r), find(lb, r)
			if pa == nil || pb == nil {
				c.Obl("order", fn.Name, false, fn.Pos, "the key has no part "+r)
				return
			}
			if pa.t.Kind == "int" {
				switch signs[i] {
				case -1:
					st.facts.assume(tLt(pa.v, pb.v))
				case 0:
					st.facts.assume(tEq(pa.v, pb.v))
				case 1:
					st.facts.assume(tLt(pb.v, pa.v))
				}
			} else {
				byteSign[r] = signs[i]
			}
		}
		cl := &Client{Inline: func(*Func) bool { return true }}
		cl.Call = func(e *Engine, st *State, cc *CallCtx) ([]Outcome, bool) {
			switch cc.Name {
			case "bytes.Compare", "bytes.Equal", "strings.Compare", "cmp.Compare", "slices.Compare", "slices.Equal":
				if cc.Name == "cmp.Compare" && len(cc.In.Call.ArgT) > 0 && cc.In.Call.ArgT[0].Kind == "int" {
					return nil, false
				}
				x, y := cc.Args[0], cc.Args[1]
				for i, r := range ranks {
					pa, pb := find(la, r), find(lb, r)
					if pa.t.Kind == "int" {
						continue
					}
					s := signs[i]
					hit := false
					if stripConv(x) == pa.v && stripConv(y) == pb.v {
						hit = true
					} else if stripConv(x) == pb.v && stripConv(y) == pa.v {
						hit = true
						s = -s
					}
					if hit {
						if cc.Short == "Equal" {
							return one(st, mkBool(s == 0)), true
						}
						return one(st, mkInt(int64(s))), true
					}
				}
			}
			return nil, false
		}
		e := newEngine(g, cl)
		outs := e.Run(fn, []*Term{a, b}, bindings, st)
		ok := len(outs) > 0 && len(e.problems) == 0
		msg := "no result"
		for _, o := range outs {
			if o.panic || len(o.res) != 1 {
				ok = false
				msg = "the comparator may panic"
				continue
			}
			f := o.st.facts
			r := o.res[0]
			switch want {
			case -1:
				if !f.implied(tLt(r, tZero)) {
					ok = false
				}
			case 0:
				if !f.implied(tEq(r, tZero)) {
					ok = false
				}
			case 1:
				if !f.implied(tLt(tZero, r)) {
					ok = false
				}
			}
			if !ok {
				msg = fmt.Sprintf("with the signs %v of %v the result is %v, expected sign %d", signs, ranks, r, want)
				break
			}
		}
		c.Obl("order", fmt.Sprintf("%s signs %v", fn.Name, signs), ok, fn.Pos, msg)
	}
}

func stripConv(t *Term) *Term {
	for t.op == TApp && (t.s == "stringof" || t.s == "bytesof") && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

func runC08(c *Ctx) {
	g := c.Prog("", "")
	vals := g.function("pointer", "CompareReferencedValues")
	ids := g.function("pointer", "CompareReferencedIds")
	rv := []string{".Value", ".DataPointer.Offset", ".DataPointer.Length"}
	ri := []string{".Value"}
	decided := map[*Func]bool{}
	if vals == nil {
		c.Missing("order", "the comparator of referenced values")
	} else {
		orderOf(c, g, vals, nil, rv)
		decided[vals] = true
	}
	if ids == nil {
		c.Missing("order", "the comparator of referenced ids")
	} else {
		orderOf(c, g, ids, nil, ri)
		decided[ids] = true
	}
	// every search of a tree package
	used := map[string]map[*Func]bool{}
	for _, f := range g.funcs {
		if f.Pkg != "bptree" && f.Pkg != "btree" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if in.Call == nil || in.Call.Short != "BinarySearchFunc" && in.Call.Short != "SearchFunc" {
					continue
				}
				fn := funcOperand(f, in.A[len(in.A)-1])
				if fn == nil {
					c.Obl("search", "search in "+f.Name, false, in.Pos, "the comparator of this search cannot be resolved")
					continue
				}
				c.Fn(f)
				if !decided[fn] {
					r := ri
					if f.Pkg == "bptree" {
						r = rv
					}
					orderOf(c, g, fn, nil, r)
					decided[fn] = true
				}
				if used[f.Pkg] == nil {
					used[f.Pkg] = map[*Func]bool{}
				}
				used[f.Pkg][fn] = true
				c.Obl("search", "search in "+f.Name, true, in.Pos, "")
			}
		}
	}
	c.Min("order", 30)
}

func funcOperand(f *Func, o Opnd) *Func {
	if o.C != nil {
		return o.C.fn
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Dst == o.Reg {
				if in.Op == OpClosure && len(in.A) == 0 {
					return in.Call.Fn
				}
				if in.Op == OpChangeType {
					return funcOperand(f, in.A[0])
				}
			}
		}
	}
	return nil
}
