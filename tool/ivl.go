package main

// A small interval interpreter over the IR, enough to decide functions of one
// unsigned argument (how many bytes a varint takes).

import (
	"math/big"
)

type ivl struct{ lo, hi *big.Int }

func (a ivl) single() bool { return a.lo.Cmp(a.hi) == 0 }

func ivlOf(lo, hi int64) ivl { return ivl{big.NewInt(lo), big.NewInt(hi)} }

// ivlRun follows the only path the argument range allows, up to limit blocks.
func ivlRun(f *Func, arg ivl, limit int) (ivl, bool) {
	env := map[int]ivl{f.Params[0]: arg}
	get := func(o Opnd) (ivl, bool) {
		if o.C != nil {
			if k, ok := isConst(o.C); ok {
				return ivl{k, k}, true
			}
			if o.C == tTrue {
				return ivlOf(1, 1), true
			}
			if o.C == tFalse {
				return ivlOf(0, 0), true
			}
			return ivl{}, false
		}
		v, ok := env[o.Reg]
		return v, ok
	}
	fits := func(v ivl, t *Type) bool {
		if t == nil || t.Kind != "int" {
			return false
		}
		lo, hi := typeRange(t)
		return lo != nil && v.lo.Cmp(lo) >= 0 && v.hi.Cmp(hi) <= 0
	}
	if len(f.Blocks) == 0 {
		return ivl{}, false
	}
	b, prev := 0, -1
	for n := 0; n < limit; n++ {
		next := -1
		blk := f.Blocks[b]
		phis := map[int]ivl{}
		for _, in := range blk.Instrs {
			if in.Op != OpPhi {
				continue
			}
			ok := false
			for k, p := range in.Edge {
				if p == prev {
					phis[in.Dst], ok = get(in.A[k])
				}
			}
			if !ok {
				return ivl{}, false
			}
		}
		for r, v := range phis {
			env[r] = v
		}
		for _, in := range blk.Instrs {
			switch in.Op {
			case OpPhi:
			case OpBin:
				x, ok1 := get(in.A[0])
				y, ok2 := get(in.A[1])
				if !ok1 || !ok2 {
					return ivl{}, false
				}
				v, ok := ivlBin(in.Str, x, y)
				if !ok {
					return ivl{}, false
				}
				if v.lo.Sign() < 0 || in.Typ == nil || in.Typ.Kind != "bool" {
					if !fits(v, in.Typ) {
						return ivl{}, false
					}
				}
				env[in.Dst] = v
			case OpConv, OpChangeType:
				x, ok := get(in.A[0])
				if !ok || !fits(x, in.Typ) {
					return ivl{}, false
				}
				env[in.Dst] = x
			case OpCall:
				if in.Call == nil || in.Call.Name != "math/bits.Len64" && in.Call.Name != "math/bits.Len" {
					return ivl{}, false
				}
				x, ok := get(in.A[0])
				if !ok || x.lo.Sign() < 0 {
					return ivl{}, false
				}
				env[in.Dst] = ivlOf(int64(x.lo.BitLen()), int64(x.hi.BitLen()))
			case OpIf:
				x, ok := get(in.A[0])
				if !ok || !x.single() {
					return ivl{}, false
				}
				if x.lo.Sign() != 0 {
					next = blk.Succs[0]
				} else {
					next = blk.Succs[1]
				}
			case OpJump:
				next = blk.Succs[0]
			case OpReturn:
				if len(in.A) != 1 {
					return ivl{}, false
				}
				return get(in.A[0])
			default:
				return ivl{}, false
			}
		}
		if next < 0 {
			return ivl{}, false
		}
		prev, b = b, next
	}
	return ivl{}, false
}

func ivlBin(op string, x, y ivl) (ivl, bool) {
	n := func() *big.Int { return new(big.Int) }
	cmp := func(yes, no bool) (ivl, bool) {
		switch {
		case yes:
			return ivlOf(1, 1), true
		case no:
			return ivlOf(0, 0), true
		}
		return ivlOf(0, 1), true
	}
	switch op {
	case "+":
		return ivl{n().Add(x.lo, y.lo), n().Add(x.hi, y.hi)}, true
	case "-":
		return ivl{n().Sub(x.lo, y.hi), n().Sub(x.hi, y.lo)}, true
	case "*":
		if x.lo.Sign() < 0 || y.lo.Sign() < 0 {
			return ivl{}, false
		}
		return ivl{n().Mul(x.lo, y.lo), n().Mul(x.hi, y.hi)}, true
	case "/":
		if x.lo.Sign() < 0 || y.lo.Sign() <= 0 {
			return ivl{}, false
		}
		return ivl{n().Quo(x.lo, y.hi), n().Quo(x.hi, y.lo)}, true
	case ">>":
		if x.lo.Sign() < 0 || !y.single() || y.lo.Sign() < 0 || !y.lo.IsInt64() || y.lo.Int64() > 1000 {
			return ivl{}, false
		}
		s := uint(y.lo.Int64())
		return ivl{n().Rsh(x.lo, s), n().Rsh(x.hi, s)}, true
	case "|":
		// x|1 is the usual way to treat zero like one
		if x.lo.Sign() < 0 || y.lo.Sign() < 0 {
			return ivl{}, false
		}
		if x.single() {
			x, y = y, x
		}
		if !y.single() || y.lo.Cmp(big.NewInt(1)) != 0 {
			return ivl{}, false
		}
		return ivl{n().Or(x.lo, y.lo), n().Or(x.hi, y.hi)}, true
	case "<":
		return cmp(x.hi.Cmp(y.lo) < 0, x.lo.Cmp(y.hi) >= 0)
	case "<=":
		return cmp(x.hi.Cmp(y.lo) <= 0, x.lo.Cmp(y.hi) > 0)
	case ">":
		return cmp(x.lo.Cmp(y.hi) > 0, x.hi.Cmp(y.lo) <= 0)
	case ">=":
		return cmp(x.lo.Cmp(y.hi) >= 0, x.hi.Cmp(y.lo) < 0)
	case "==":
		return cmp(x.single() && y.single() && x.lo.Cmp(y.lo) == 0, x.hi.Cmp(y.lo) < 0 || x.lo.Cmp(y.hi) > 0)
	case "!=":
		return cmp(x.hi.Cmp(y.lo) < 0 || x.lo.Cmp(y.hi) > 0, x.single() && y.single() && x.lo.Cmp(y.lo) == 0)
	}
	return ivl{}, false
}

// varintSizer decides that f(v) is the length of the varint of v, for all v.
func varintSizer(f *Func) (bool, int, string) {
	for k := 1; k <= 10; k++ {
		lo := new(big.Int)
		if k > 1 {
			lo.Lsh(big.NewInt(1), uint(7*(k-1)))
		}
		hi := new(big.Int).Lsh(big.NewInt(1), uint(7*k))
		if k == 10 {
			hi.Lsh(big.NewInt(1), 64)
		}
		hi.Sub(hi, big.NewInt(1))
		ranges := []ivl{{lo, hi}}
		if r, ok := ivlRun(f, ranges[0], 200); !ok || !r.single() {
			// bit by bit
			ranges = nil
			for b := lo.BitLen(); b <= hi.BitLen(); b++ {
				l, h := new(big.Int), new(big.Int)
				if b > 0 {
					l.Lsh(big.NewInt(1), uint(b-1))
					h.Lsh(big.NewInt(1), uint(b))
					h.Sub(h, big.NewInt(1))
				}
				ranges = append(ranges, ivl{l, h})
			}
		}
		for _, r := range ranges {
			v, ok := ivlRun(f, r, 200)
			if !ok || !v.single() {
				return false, k, "cannot be decided for " + r.lo.String() + ".." + r.hi.String()
			}
			if v.lo.Cmp(big.NewInt(int64(k))) != 0 {
				return false, k, "is " + v.lo.String() + " for " + r.lo.String() + ".." + r.hi.String() + ", which takes " + big.NewInt(int64(k)).String()
			}
		}
	}
	return true, 10, ""
}
