package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function][]*Loop{}

// Loops finds natural loops of a function.
func Loops(fn *ssa.Function) []*Loop {
	if l, ok := loopCache[fn]; ok {
		return l
	}

	var res []*Loop

	byHeader := map[*ssa.BasicBlock]*Loop{}

	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}

			l := byHeader[h]
			if l == nil {
				l = &Loop{Header: h, Blocks: map[*ssa.BasicBlock]bool{h: true}}
				byHeader[h] = l
				res = append(res, l)
			}

			var add func(b *ssa.BasicBlock)

			add = func(b *ssa.BasicBlock) {
				if l.Blocks[b] {
					return
				}

				l.Blocks[b] = true
				for _, p := range b.Preds {
					add(p)
				}
			}

			add(b)
		}
	}

	loopCache[fn] = res

	return res
}

// InnermostLoop finds the smallest loop with the block.
func InnermostLoop(b *ssa.BasicBlock) *Loop {
	var best *Loop

	for _, l := range Loops(b.Parent()) {
		if l.Blocks[b] && (best == nil || len(l.Blocks) < len(best.Blocks)) {
			best = l
		}
	}

	return best
}

// LoopEvent of an edge.
type LoopEvent int

// Loop events.
const (
	LoopNone LoopEvent = iota
	LoopIter           // next element is taken
	LoopDone           // all elements were visited
)

// loopEdge tells whether the branch starts an iteration over a container labelled with bit, or ends it.
func loopEdge(x *Explorer, st *State, ins *ssa.If, taken bool, bit uint64) (LoopEvent, *Loop) {
	b := ins.Block()

	l := InnermostLoop(b)
	if rangeInt(ins) {
		l = InnermostLoop(b.Succs[0])
	}

	if l == nil {
		return LoopNone, nil
	}

	in0, in1 := l.Blocks[b.Succs[0]], l.Blocks[b.Succs[1]]
	if in0 == in1 {
		return LoopNone, nil
	}

	c := x.Eval(st, ins.Cond)
	for c.K == KNot {
		c = *c.X
	}

	var lab uint64

	switch c.K {
	case KCmp:
		if c.X.K == KConst && c.Y.K == KConst || !isNumeric(ins.Cond) {
			return LoopNone, nil
		}

		lab = st.Label(*c.X) | st.Label(*c.Y)
	case KSym:
		e, ok := ins.Cond.(*ssa.Extract)
		if !ok || e.Index != 0 {
			return LoopNone, nil
		}

		if _, ok := e.Tuple.(*ssa.Next); !ok {
			return LoopNone, nil
		}

		lab = st.Label(c)
	default:
		return LoopNone, nil
	}

	if lab&bit == 0 {
		return LoopNone, nil
	}

	if taken == in0 {
		return LoopIter, l
	}

	return LoopDone, l
}

// rangeInt is true for both conditions (before the first and after each iteration) of a loop over an integer.
func rangeInt(ins *ssa.If) bool {
	b := ins.Block().Succs[0]

	return b.Comment == "rangeint.body" && isLoopHeader(b)
}

// lenOfChan tells that number of queued elements is used, not the capacity.
func lenOfChan(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || CallName(&c.Call) != "builtin:len" {
		return false
	}

	_, ok = c.Call.Args[0].Type().Underlying().(*types.Chan)

	return ok
}

func isNumeric(cond ssa.Value) bool {
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond = u.X

			continue
		}

		break
	}

	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}

	t, ok := b.X.Type().Underlying().(*types.Basic)

	return ok && t.Info()&types.IsInteger != 0
}

// fullLoop checks that an index loop visits all positions: the condition of a loop over a container of length n.
func fullLoop(ins *ssa.If) bool {
	cond := ins.Cond

	if e, ok := cond.(*ssa.Extract); ok {
		_, ok := e.Tuple.(*ssa.Next)

		return ok
	}

	neg := false

	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}

		cond = u.X
		neg = !neg
	}

	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}

	if lenOfChan(b.X) || lenOfChan(b.Y) {
		return false
	}

	if rangeInt(ins) {
		off, _ := constOffset(b.Y)

		return off == 0
	}

	l := InnermostLoop(ins.Block())

	if l.Blocks[ins.Block().Succs[1]] {
		neg = !neg
	}

	op, i, n := b.Op, b.X, b.Y

	iphi, ioff := phiOffset(i, l)
	if iphi == nil {
		if nphi, _ := phiOffset(n, l); nphi == nil {
			return false
		}

		i, n = n, i
		op = mirror(op)
		iphi, ioff = phiOffset(i, l)
	}

	if neg {
		op = negate(op)
	}

	var (
		init  ssa.Value
		steps []ssa.Value
	)

	for k, e := range iphi.Edges {
		if iphi.Block() != l.Header {
			return false
		}

		if l.Blocks[iphi.Block().Preds[k]] {
			steps = append(steps, e)
		} else {
			init = e
		}
	}

	if init == nil {
		return false
	}

	// All steps are the same.
	step := int64(0)

	for _, s := range steps {
		ph, off := phiOffset(s, l)
		if ph != iphi || off == 0 || (step != 0 && step != off) {
			return false
		}

		step = off
	}

	switch step {
	case 1:
		c, ok := init.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64()+ioff != 0 {
			return false
		}

		off, base := constOffset(n)
		_ = base

		switch op {
		case token.LSS, token.NEQ:
			return off == 0
		case token.LEQ:
			return off == -1
		}
	case -1:
		// i := n - 1; i >= 0; i--
		off, _ := constOffset(init)

		c, ok := n.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}

		if ioff != 0 {
			return false
		}

		switch op {
		case token.GEQ:
			return off == -1 && c.Int64() == 0
		case token.GTR:
			return (off == -1 && c.Int64() == -1) || (off == 0 && c.Int64() == 0)
		}
	}

	return false
}

func constOffset(v ssa.Value) (int64, ssa.Value) {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return 0, v
	}

	c, ok := b.Y.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, v
	}

	switch b.Op {
	case token.ADD:
		return c.Int64(), b.X
	case token.SUB:
		return -c.Int64(), b.X
	}

	return 0, v
}

// phiOffset matches phi of the loop header plus constant.
func phiOffset(v ssa.Value, l *Loop) (*ssa.Phi, int64) {
	off := int64(0)

	for {
		if p, ok := v.(*ssa.Phi); ok {
			if p.Block() == l.Header {
				return p, off
			}

			return nil, 0
		}

		o, base := constOffset(v)
		if base == v {
			return nil, 0
		}

		off += o
		v = base
	}
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}

	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}

	return op
}

// ForEach tracks that every element of a labelled container has an event.
type ForEach struct {
	Name string
	Bit  uint64
	// Except are labels of other containers that are made of elements.
	Except uint64
	Bad    func(st *State, ins ssa.Instruction, msg string)
}

// Edge is to be called from Client.Edge.
func (f *ForEach) Edge(x *Explorer, st *State, ins *ssa.If, taken bool) LoopEvent {
	ev, _ := loopEdge(x, st, ins, taken, f.Bit)
	if ev != LoopNone && f.Except != 0 && x.condLabel(st, ins)&f.Except != 0 {
		return LoopNone
	}

	k := "fe:" + f.Name

	switch ev {
	case LoopIter:
		if !fullLoop(ins) || x.partial(st, ins, f.Bit) {
			f.Bad(st, ins, "loop over "+f.Name+" does not visit every element")
		}

		if st.Get(k) == "p" {
			f.Bad(st, ins, "element of "+f.Name+" is skipped")
		}

		st.Set(k, "p")
	case LoopDone:
		if st.Get(k) == "p" {
			f.Bad(st, ins, "element of "+f.Name+" is skipped")
		}

		st.Set(k, "x")
	}

	return ev
}

func (x *Explorer) partial(st *State, ins *ssa.If, bit uint64) bool {
	return x.condLabel(st, ins)&(bit<<LabPartial) != 0
}

// condLabel finds labels of a loop condition.
func (x *Explorer) condLabel(st *State, ins *ssa.If) uint64 {
	c := x.Eval(st, ins.Cond)
	for c.K == KNot {
		c = *c.X
	}

	var l uint64

	switch c.K {
	case KCmp:
		l = st.Label(*c.X) | st.Label(*c.Y)
	case KSym:
		l = st.Label(c)
	}

	return l
}

// Hit records the event for the current element.
func (f *ForEach) Hit(st *State) {
	if st.Get("fe:"+f.Name) == "p" {
		st.Set("fe:"+f.Name, "k")
	}
}

// Status is "" when loop was not reached, p when event is missing, k after an event, x when all elements were visited.
func (f *ForEach) Status(st *State) string { return st.Get("fe:" + f.Name) }
