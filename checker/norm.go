package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// normalize brings equivalent spellings of conditions to one form, before anything is analyzed:
// constants are right operands of comparisons, emptiness of a string is a comparison with "", a branch on a negation is
// the swapped branch on its operand, a negated && or || of negations is the plain one.
func normalize(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				normCompare(bo)
			}
		}
	}

	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.UnOp); ok && n.Op == token.NOT {
				normNot(n)
			}
		}
	}

	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}

		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}

		for {
			n, ok := iff.Cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}

			dropRef(n, iff)
			addRef(n.X, iff)
			iff.Cond = n.X
			b.Succs[0], b.Succs[1] = b.Succs[1], b.Succs[0]
		}
	}
}

func addRef(v ssa.Value, in ssa.Instruction) {
	if r := v.Referrers(); r != nil {
		*r = append(*r, in)
	}
}

func dropRef(v ssa.Value, in ssa.Instruction) {
	r := v.Referrers()
	if r == nil {
		return
	}

	for i, x := range *r {
		if x == in {
			*r = append((*r)[:i:i], (*r)[i+1:]...)

			return
		}
	}
}

var mirrored = map[token.Token]token.Token{
	token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ,
}

func normCompare(bo *ssa.BinOp) {
	m, ok := mirrored[bo.Op]
	if !ok {
		return
	}

	_, cx := bo.X.(*ssa.Const)
	cy, ok := bo.Y.(*ssa.Const)

	if cx && !ok {
		bo.X, bo.Y, bo.Op = bo.Y, bo.X, m
		cy, ok = bo.Y.(*ssa.Const)
	}

	if !ok || cx {
		return
	}

	call, isCall := bo.X.(*ssa.Call)
	if !isCall || cy.Value == nil || cy.Value.Kind() != constant.Int {
		return
	}

	if bi, is := call.Call.Value.(*ssa.Builtin); !is || bi.Name() != "len" {
		return
	}

	s := call.Call.Args[0]
	if t, is := s.Type().Underlying().(*types.Basic); !is || t.Info()&types.IsString == 0 {
		return
	}

	n, _ := constant.Int64Val(cy.Value)

	var op token.Token

	switch {
	case n == 0 && (bo.Op == token.EQL || bo.Op == token.LEQ), n == 1 && bo.Op == token.LSS:
		op = token.EQL
	case n == 0 && (bo.Op == token.NEQ || bo.Op == token.GTR), n == 1 && bo.Op == token.GEQ:
		op = token.NEQ
	default:
		return
	}

	dropRef(call, bo)
	addRef(s, bo)
	bo.X, bo.Y, bo.Op = s, ssa.NewConst(constant.MakeString(""), s.Type()), op
}

// normNot resolves a negation of a negation, and of a merge of constants and negations.
func normNot(n *ssa.UnOp) {
	replace := func(by ssa.Value) {
		rr := n.Referrers()
		if rr == nil {
			return
		}

		for _, r := range append([]ssa.Instruction(nil), *rr...) {
			for _, op := range r.Operands(nil) {
				if *op == ssa.Value(n) {
					*op = by
					addRef(by, r)
				}
			}
		}

		*rr = nil
	}

	switch x := n.X.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			replace(x.X)
		}
	case *ssa.Phi:
		if rr := x.Referrers(); rr == nil || len(*rr) != 1 {
			return
		}

		flipped := make([]ssa.Value, len(x.Edges))

		for i, e := range x.Edges {
			switch e := e.(type) {
			case *ssa.Const:
				if e.Value == nil {
					return
				}

				flipped[i] = ssa.NewConst(constant.MakeBool(!constant.BoolVal(e.Value)), e.Type())
			case *ssa.UnOp:
				if e.Op != token.NOT {
					return
				}

				flipped[i] = e.X
			case *ssa.BinOp:
				rr := e.Referrers()

				if _, ok := negated[e.Op]; rr == nil || len(*rr) != 1 || !ok || !isExact(e.X.Type()) {
					return
				}

				flipped[i] = e
			default:
				return
			}
		}

		for i, e := range x.Edges {
			if bo, ok := e.(*ssa.BinOp); ok {
				bo.Op = negated[bo.Op]

				continue
			}

			dropRef(e, x)
			addRef(flipped[i], x)
			x.Edges[i] = flipped[i]
		}

		dropRef(x, n)
		replace(x)
	}
}

var negated = map[token.Token]token.Token{
	token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR,
}

// isExact is false for types where a negated comparison is not the opposite one (NaN).
func isExact(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)

	return !ok || b.Info()&types.IsFloat == 0
}
