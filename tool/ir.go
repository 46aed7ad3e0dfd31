package main

import "fmt"

// A small register IR shared by the Go front end (from go/ssa) and the
// TypeScript front end (from the TypeScript compiler's AST).

type Op uint8

const (
	OpAlloc Op = iota
	OpLoad
	OpStore
	OpFieldAddr
	OpIndexAddr
	OpField
	OpIndex
	OpBin
	OpUn
	OpConv
	OpChangeType
	OpCall
	OpPhi
	OpExtract
	OpSlice
	OpMakeSlice
	OpMakeMap
	OpMapUpdate
	OpLookup
	OpMakeIface
	OpTypeAssert
	OpClosure
	OpRange
	OpNext
	OpDefer
	OpRunDefers
	OpGo
	OpIf
	OpJump
	OpReturn
	OpPanic
	OpOther
)

type Opnd struct {
	Reg int
	C   *Term // constant when non-nil
	Fn  *Func
}

type CallInfo struct {
	Name    string // resolved callee, builtin:NAME, invoke:TYPE.METHOD or dynamic
	Short   string // method or function name only
	Fn      *Func  // body available
	Invoke  bool
	Builtin bool
	Dynamic bool
	IfaceT  *Type
	ArgT    []*Type
	Repo    bool
}

type Instr struct {
	Op    Op
	Dst   int
	A     []Opnd
	Str   string
	Typ   *Type // result type
	OpT   *Type // operand type where relevant
	Call  *CallInfo
	Comma bool
	Pos   string
	Edge  []int // phi: predecessor block per operand
	Catch int   // call: 1 + the block an exception continues in
}

type Block struct {
	Idx    int
	Instrs []*Instr
	Succs  []int
	Preds  []int
}

type Func struct {
	Name     string
	Short    string
	Pkg      string
	Recv     string
	Params   []int
	ParamN   []string
	ParamT   []*Type
	FreeVars []int
	FreeN    []string
	Results  []*Type
	Blocks   []*Block
	NReg     int
	Exported bool
	Gen      bool // a generator
	Pos      string
	RegName  map[int]string

	loops *loopInfo
	rpo   []int
	mod   map[string]bool
	modOK bool
	Src   interface{}
	names map[string]int
	live  []map[int]bool
}

type loopInfo struct {
	headers map[int]map[int]bool // header -> body blocks
	parent  map[int]int
	rpoIdx  map[int]int
}

func (f *Func) analyseLoops() *loopInfo {
	if f.loops != nil {
		return f.loops
	}
	li := &loopInfo{headers: map[int]map[int]bool{}, parent: map[int]int{}, rpoIdx: map[int]int{}}
	n := len(f.Blocks)
	// reverse postorder
	seen := make([]bool, n)
	var post []int
	var dfs func(int)
	dfs = func(b int) {
		seen[b] = true
		for i := len(f.Blocks[b].Succs) - 1; i >= 0; i-- {
			s := f.Blocks[b].Succs[i]
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if n > 0 {
		dfs(0)
	}
	for i := len(post) - 1; i >= 0; i-- {
		li.rpoIdx[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	// dominators (simple iterative bitsets)
	dom := make([]map[int]bool, n)
	all := map[int]bool{}
	for _, b := range f.rpo {
		all[b] = true
	}
	for _, b := range f.rpo {
		if b == 0 {
			dom[b] = map[int]bool{0: true}
		} else {
			dom[b] = all
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.rpo {
			if b == 0 {
				continue
			}
			var nd map[int]bool
			for _, p := range f.Blocks[b].Preds {
				if !seen[p] {
					continue
				}
				if nd == nil {
					nd = map[int]bool{}
					for k := range dom[p] {
						nd[k] = true
					}
				} else {
					for k := range nd {
						if !dom[p][k] {
							delete(nd, k)
						}
					}
				}
			}
			if nd == nil {
				nd = map[int]bool{}
			}
			nd[b] = true
			if len(nd) != len(dom[b]) {
				dom[b] = nd
				changed = true
			}
		}
	}
	for _, b := range f.rpo {
		for _, s := range f.Blocks[b].Succs {
			if dom[b][s] {
				body := li.headers[s]
				if body == nil {
					body = map[int]bool{s: true}
					li.headers[s] = body
				}
				stack := []int{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					for _, p := range f.Blocks[x].Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	f.loops = li
	return li
}

func (f *Func) dump() string {
	s := fmt.Sprintf("func %s params=%v\n", f.Name, f.Params)
	for _, b := range f.Blocks {
		s += fmt.Sprintf(" b%d preds=%v succs=%v\n", b.Idx, b.Preds, b.Succs)
		for _, i := range b.Instrs {
			s += fmt.Sprintf("   r%d = op%d %s %v", i.Dst, i.Op, i.Str, i.A)
			if i.Call != nil {
				s += " call " + i.Call.Name
			}
			s += " ; " + i.Pos + "\n"
		}
	}
	return s
}
