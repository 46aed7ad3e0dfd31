package main

// Fields that only ever receive one constant, and interface getters all of
// whose implementations return the same constant.

import "strings"

func (g *GoProg) buildConstFields() {
	type fk struct{ t, f string }
	vals := map[fk]*Term{}
	bad := map[fk]bool{}
	for _, f := range g.funcs {
		addr := map[int]fk{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if in.Op == OpFieldAddr && in.OpT != nil {
					addr[in.Dst] = fk{in.OpT.String(), in.Str}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for k, a := range in.A {
					if a.C != nil {
						continue
					}
					x, ok := addr[a.Reg]
					if !ok {
						continue
					}
					switch {
					case in.Op == OpStore && k == 0:
						v := in.A[1].C
						if v == nil || v.op != TInt {
							bad[x] = true
						} else if o, ok := vals[x]; ok && o != v {
							bad[x] = true
						} else {
							vals[x] = v
						}
					case in.Op == OpLoad:
					default:
						bad[x] = true
					}
				}
				// whole-struct stores and conversions may set the field as well
				if in.Op == OpStore && in.OpT != nil && in.OpT.Kind == "struct" {
					for _, fl := range in.OpT.Fields {
						if !copiedFrom(f, in.A[1]) {
							bad[fk{in.OpT.String(), fl.Name}] = true
						}
					}
				}
			}
		}
	}
	g.constFields = map[string]*Term{}
	for k, v := range vals {
		if !bad[k] {
			g.constFields[k.t+"."+k.f] = v
		}
	}
}

// copiedFrom: the stored struct is a copy of an existing one.
func copiedFrom(f *Func, o Opnd) bool {
	if o.C != nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Dst == o.Reg {
				return in.Op == OpLoad
			}
		}
	}
	return true // a parameter
}

// constGetter evaluates a method that returns one constant.
func (g *GoProg) constGetter(f *Func) *Term {
	if len(f.Blocks) != 1 || len(f.Results) != 1 {
		return nil
	}
	ins := f.Blocks[0].Instrs
	ret := ins[len(ins)-1]
	if ret.Op != OpReturn || len(ret.A) != 1 {
		return nil
	}
	if c := ret.A[0].C; c != nil {
		if c.op == TInt {
			return c
		}
		return nil
	}
	// return recv.field
	var ld, fa *Instr
	for _, in := range ins {
		if in.Call != nil || in.Op == OpStore {
			return nil
		}
		if in.Dst == ret.A[0].Reg && in.Op == OpLoad {
			ld = in
		}
	}
	if ld == nil || ld.A[0].C != nil {
		return nil
	}
	for _, in := range ins {
		if in.Dst == ld.A[0].Reg && in.Op == OpFieldAddr {
			fa = in
		}
	}
	if fa == nil || fa.OpT == nil {
		return nil
	}
	return g.constFields[fa.OpT.String()+"."+fa.Str]
}

// constInvoke is the value of an interface getter with one possible answer.
func (g *GoProg) constInvoke(iface *Type, short string) *Term {
	var v *Term
	n := 0
	for _, f := range g.impls[short] {
		if f.Pkg == "buftest" || f.Pkg == "mocks" || strings.Contains(f.Pkg, "example") {
			continue
		}
		if !g.implementsIface(f.Recv, iface) {
			continue
		}
		c := g.constGetter(f)
		if c == nil {
			return nil
		}
		if v != nil && v != c {
			return nil
		}
		v = c
		n++
	}
	return v
}
