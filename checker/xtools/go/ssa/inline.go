package ssa

// This file is not a part of golang.org/x/tools, it is added by /verif:
// functions that are built in naive form are inlined and only then lifted, so that code reads the same whether a part of a
// function is written in place or in a helper.

import (
	"go/token"
	"go/types"
	"reflect"
)

// Inlinable is true if calls of a function can be replaced with its body.
func Inlinable(f *Function) bool {
	if len(f.Blocks) == 0 || f.Recover != nil || f.parent != nil || len(f.FreeVars) > 0 || f.jump != nil {
		return false
	}

	ret := false

	for _, a := range f.AnonFuncs {
		if a.jump != nil {
			return false
		}
	}

	for in := range f.instrs() {
		switch in.(type) {
		case *Defer, *Select, *DebugRef:
			return false
		case *Return:
			ret = true
		}
	}

	return ret
}

// InlineCall replaces a call with the body of its static callee, for naive form.
func InlineCall(call *Call) {
	f, callee := call.Block().parent, call.Call.StaticCallee()
	b := call.Block()
	al := aliases(f, call, callee)

	at := -1

	for i, in := range b.Instrs {
		if in == Instruction(call) {
			at = i
		}
	}

	// The rest of the block.
	cont := f.newBasicBlock(b.Comment)
	cont.Instrs = append(cont.Instrs, b.Instrs[at+1:]...)

	for _, in := range cont.Instrs {
		in.setBlock(cont)
	}

	cont.Succs = append(cont.succs2[:0], b.Succs...)

	for _, s := range cont.Succs {
		s.replacePred(b, cont)
	}

	b.Instrs = b.Instrs[:at:at]
	b.Succs = b.succs2[:0]

	// Results are passed in variables.
	res := callee.Signature.Results()
	vars := make([]*Alloc, res.Len())

	for i := range vars {
		v := &Alloc{Comment: "result"}
		v.setType(types.NewPointer(res.At(i).Type()))
		v.setPos(call.Pos())
		b.emit(v)
		f.Locals = append(f.Locals, v)
		vars[i] = v
	}

	vals := map[Value]Value{}
	for s, k := range al.params {
		vals[s] = k
	}

	for i, p := range callee.Params {
		vals[p] = call.Call.Args[i]
	}

	blocks := map[*BasicBlock]*BasicBlock{}
	for _, cb := range callee.Blocks {
		blocks[cb] = f.newBasicBlock(cb.Comment)
	}

	var made []Instruction

	for _, cb := range callee.Blocks {
		nb := blocks[cb]

		for _, in := range cb.Instrs {
			switch in := in.(type) {
			case *RunDefers:
				continue
			case *Return:
				for i, r := range in.Results {
					st := &Store{Addr: vars[i], Val: r, pos: in.pos}
					nb.emit(st)
					made = append(made, st)
				}

				nb.emit(&Jump{})
				addEdge(nb, cont)

				continue
			}

			if al.skip[in] {
				continue
			}

			c := copyInstr(in)
			nb.emit(c)

			if v, ok := in.(Value); ok {
				vals[v] = c.(Value)
			}

			if a, ok := c.(*Alloc); ok && !a.Heap {
				f.Locals = append(f.Locals, a)
			}

			made = append(made, c)
		}

		for _, s := range cb.Succs {
			nb.Succs = append(nb.Succs, blocks[s])
		}
	}

	for _, cb := range callee.Blocks {
		// Order of predecessors is the order of edges of phis.
		for _, p := range cb.Preds {
			blocks[cb].Preds = append(blocks[cb].Preds, blocks[p])
		}
	}

	for _, in := range made {
		for _, op := range in.Operands(nil) {
			if n, ok := vals[*op]; ok && *op != nil {
				*op = n
			}
		}
	}

	b.emit(&Jump{})
	addEdge(b, blocks[callee.Blocks[0]])

	// Values of results.
	var loads []Instruction

	load := func(i int) Value {
		v := &UnOp{Op: token.MUL, X: vars[i]}
		v.setType(res.At(i).Type())
		v.setPos(call.Pos())
		v.setBlock(cont)
		loads = append(loads, v)

		return v
	}

	repl := map[Value]Value{}
	if len(vars) == 1 {
		repl[call] = load(0)
	}

	var rest []Instruction

	// Parts of a tuple are used in the same function only.
	for _, fb := range f.Blocks {
		j := 0

		for _, in := range fb.Instrs {
			if e, ok := in.(*Extract); ok && e.Tuple == Value(call) {
				if repl[e] == nil {
					repl[e] = load(e.Index)
				}

				continue
			}

			fb.Instrs[j] = in
			j++
		}

		fb.Instrs = fb.Instrs[:j]
	}

	rest = append(rest, loads...)
	cont.Instrs = append(rest, cont.Instrs...)

	for in := range f.instrs() {
		for _, op := range in.Operands(nil) {
			if n, ok := repl[*op]; ok && *op != nil {
				*op = n
			}
		}
	}

	for bv, a := range al.results {
		n := vals[a].(*Alloc)

		if bv.Heap && !n.Heap {
			n.Heap = true
			f.dropLocal(n)
		}

		n.Comment = bv.Comment
		f.dropLocal(bv)

		for _, fb := range f.Blocks {
			j := 0

			for _, in := range fb.Instrs {
				if in == Instruction(bv) {
					continue
				}

				fb.Instrs[j] = in
				j++
			}

			fb.Instrs = fb.Instrs[:j]
		}

		for in := range f.instrs() {
			for _, op := range in.Operands(nil) {
				if *op == Value(bv) {
					*op = n
				}
			}
		}
	}

	for _, st := range al.stores {
		sb := st.block
		j := 0

		for _, in := range sb.Instrs {
			if in != Instruction(st) {
				sb.Instrs[j] = in
				j++
			}
		}

		sb.Instrs = sb.Instrs[:j]
	}

	duplicateTail(f, cont)

	for _, a := range callee.AnonFuncs {
		a.parent = f
		a.anonIdx = int32(len(f.AnonFuncs))
		f.AnonFuncs = append(f.AnonFuncs, a)
	}
}

func (f *Function) dropLocal(a *Alloc) {
	j := 0

	for _, l := range f.Locals {
		if l != a {
			f.Locals[j] = l
			j++
		}
	}

	f.Locals = f.Locals[:j]
}

// duplicateTail lets every return of a helper have its own copy of a tail that only returns.
func duplicateTail(f *Function, cont *BasicBlock) {
	if len(cont.Succs) > 0 || len(cont.Preds) < 2 || cont.hasPhi() {
		return
	}

	for i, in := range cont.Instrs {
		switch in := in.(type) {
		case *Return:
			if i != len(cont.Instrs)-1 {
				return
			}
		case *Store:
			if _, ok := in.Addr.(*Alloc); !ok {
				return
			}
		case *UnOp:
			if _, ok := in.X.(*Alloc); !ok || in.Op != token.MUL {
				return
			}
		case *RunDefers, *ChangeInterface, *MakeInterface:
		default:
			return
		}
	}

	if _, ok := cont.Instrs[len(cont.Instrs)-1].(*Return); !ok {
		return
	}

	preds := append([]*BasicBlock(nil), cont.Preds...)

	for _, p := range preds[1:] {
		nb := f.newBasicBlock(cont.Comment)
		vals := map[Value]Value{}

		for _, in := range cont.Instrs {
			c := copyInstr(in)

			for _, op := range c.Operands(nil) {
				if n, ok := vals[*op]; ok && *op != nil {
					*op = n
				}
			}

			nb.emit(c)

			if v, ok := in.(Value); ok {
				vals[v] = c.(Value)
			}
		}

		p.replaceSucc(cont, nb)
		nb.Preds = append(nb.Preds, p)
	}

	cont.Preds = preds[:1]
}

// aliased are variables of a helper that are variables of the caller: arguments that are not changed or are given back, and
// results that are kept in a new variable.
type aliased struct {
	params  map[*Alloc]*Alloc    // variable of the helper to variable of the caller
	results map[*Alloc]*Alloc    // variable of the caller to variable of the helper
	skip    map[Instruction]bool // instructions of the helper
	stores  []*Store             // stores of the caller
}

func aliases(f *Function, call *Call, callee *Function) *aliased {
	al := &aliased{params: map[*Alloc]*Alloc{}, results: map[*Alloc]*Alloc{}, skip: map[Instruction]bool{}}

	var ret *Return

	for in := range callee.instrs() {
		if r, ok := in.(*Return); ok {
			if ret != nil {
				ret = nil

				break
			}

			ret = r
		}
	}

	// Stores of results in the caller, by index of a result.
	stored := map[int]*Store{}
	used := map[int]int{}

	note := func(i int, v Value) {
		for in := range f.instrs() {
			for _, op := range in.Operands(nil) {
				if *op == v {
					used[i]++

					if st, ok := in.(*Store); ok && st.Val == v && st.block == call.Block() {
						stored[i] = st
					}
				}
			}
		}
	}

	if callee.Signature.Results().Len() == 1 {
		note(0, call)
	} else {
		for in := range f.instrs() {
			if e, ok := in.(*Extract); ok && e.Tuple == Value(call) {
				note(e.Index, e)
			}
		}
	}

	// What is returned: a variable, directly or by a result variable.
	returned := func(i int) *Alloc {
		if ret == nil {
			return nil
		}

		v := ret.Results[i]

		for n := 0; n < 4; n++ {
			l, ok := v.(*UnOp)
			if !ok || l.Op != token.MUL || l.block != ret.block {
				return nil
			}

			a, ok := l.X.(*Alloc)
			if !ok {
				return nil
			}

			var st *Store

			k := 0

			for in := range callee.instrs() {
				if s, ok := in.(*Store); ok && s.Addr == Value(a) {
					st = s
					k++
				}
			}

			isRes := false
			for _, r := range callee.results {
				isRes = isRes || r == a
			}

			if !isRes {
				// Not changed after it is read.
				after := false

				for _, in := range ret.block.Instrs {
					if in == Instruction(l) {
						after = true
					}

					if s, ok := in.(*Store); ok && after && root(s.Addr) == Value(a) {
						return nil
					}

					if c, ok := in.(*Call); ok && after {
						for _, o := range c.Call.Args {
							if root(o) == Value(a) {
								return nil
							}
						}
					}
				}

				return a
			}

			if k != 1 || st.block != ret.block {
				return nil
			}

			v = st.Val
		}

		return nil
	}

	taken := map[*Alloc]bool{}

	for i, p := range callee.Params {
		var spill *Store

		n := 0

		for in := range callee.instrs() {
			for _, op := range in.Operands(nil) {
				if *op == Value(p) {
					n++

					if st, ok := in.(*Store); ok && st.Val == Value(p) {
						spill = st
					}
				}
			}
		}

		if n != 1 || spill == nil {
			continue
		}

		a, ok := spill.Addr.(*Alloc)
		if !ok || !plain(callee, a) {
			continue
		}

		l, ok := call.Call.Args[i].(*UnOp)
		if !ok || l.Op != token.MUL || l.block != call.Block() {
			continue
		}

		k, ok := l.X.(*Alloc)
		if !ok || taken[k] || !plain(f, k) || changedBetween(k, l, call) {
			continue
		}

		// A variable that is given twice is not replaced.
		twice := false

		for j, o := range call.Call.Args {
			if u, ok := o.(*UnOp); ok && j != i && u.Op == token.MUL && root(u.X) == Value(k) {
				twice = true
			}
		}

		if twice {
			continue
		}

		written := false

		for in := range callee.instrs() {
			if s, ok := in.(*Store); ok && s != spill && root(s.Addr) == Value(a) {
				written = true
			}

			if c, ok := in.(*Call); ok {
				for _, o := range c.Call.Args {
					written = written || root(o) == Value(a)
				}
			}
		}

		if written {
			back := -1

			for j := range callee.Signature.Results().Len() {
				if st := stored[j]; st != nil && used[j] == 1 && st.Addr == Value(k) && returned(j) == a && !touchedBetween(k, call, st) {
					back = j
				}
			}

			if back < 0 {
				continue
			}

			al.stores = append(al.stores, stored[back])
		}

		if a.Heap && !k.Heap {
			k.Heap = true
			f.dropLocal(k)
		}

		taken[k] = true
		al.params[a] = k
		al.skip[a] = true
		al.skip[spill] = true
	}

	for i := range callee.Signature.Results().Len() {
		st := stored[i]
		if st == nil || used[i] != 1 {
			continue
		}

		bv, ok := st.Addr.(*Alloc)
		if !ok || bv.block != call.Block() || taken[bv] {
			continue
		}

		a := returned(i)
		if a == nil || al.params[a] != nil || !kept(callee, a) {
			continue
		}

		// A new variable, which is not used before.
		fresh := true

		for _, in := range call.Block().Instrs {
			if in == Instruction(st) {
				break
			}

			for _, op := range in.Operands(nil) {
				if *op == Value(bv) {
					fresh = false
				}
			}
		}

		dup := false
		for _, o := range al.results {
			dup = dup || o == a
		}

		if !fresh || dup {
			continue
		}

		al.results[bv] = a
		al.stores = append(al.stores, st)
	}

	return al
}

// root is the variable of an address of its part.
func root(v Value) Value {
	for {
		switch x := v.(type) {
		case *FieldAddr:
			v = x.X
		case *IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// plain variables are only loaded and stored, as a whole or by parts.
func plain(f *Function, a *Alloc) bool {
	for in := range f.instrs() {
		for _, op := range in.Operands(nil) {
			if *op == nil || root(*op) != Value(a) {
				continue
			}

			switch x := in.(type) {
			case *UnOp, *FieldAddr, *IndexAddr:
			case *Store:
				if root(x.Val) == Value(a) {
					return false
				}
			case *Call:
				// A method of the variable.
				if x.Call.StaticCallee() == nil {
					return false
				}
			default:
				return false
			}
		}
	}

	return true
}

// kept variables are not used by anything that outlives the function.
func kept(f *Function, a *Alloc) bool {
	for in := range f.instrs() {
		for _, op := range in.Operands(nil) {
			if *op != Value(a) {
				continue
			}

			switch x := in.(type) {
			case *UnOp, *FieldAddr, *IndexAddr:
			case *Store:
				if x.Val == Value(a) {
					return false
				}
			case *MakeClosure:
				for use := range f.instrs() {
					for _, o := range use.Operands(nil) {
						if _, ok := use.(*Call); *o == Value(x) && !ok {
							return false
						}
					}
				}
			default:
				return false
			}
		}
	}

	return true
}

func changedBetween(k *Alloc, from, to Instruction) bool {
	in := false

	for _, i := range from.Block().Instrs {
		if i == to {
			break
		}

		if st, ok := i.(*Store); ok && in && root(st.Addr) == Value(k) {
			return true
		}

		if c, ok := i.(*Call); ok && in {
			for _, o := range c.Call.Args {
				if root(o) == Value(k) {
					return true
				}
			}
		}

		in = in || i == from
	}

	return false
}

func touchedBetween(k *Alloc, from, to Instruction) bool {
	in := false

	for _, i := range from.Block().Instrs {
		if i == to {
			break
		}

		if in {
			for _, op := range i.Operands(nil) {
				if *op != nil && root(*op) == Value(k) {
					return true
				}
			}
		}

		in = in || i == from
	}

	return false
}

func copyInstr(in Instruction) Instruction {
	c := reflect.New(reflect.TypeOf(in).Elem())
	c.Elem().Set(reflect.ValueOf(in).Elem())

	switch c := c.Interface().(type) {
	case *Phi:
		c.Edges = append([]Value(nil), c.Edges...)
	case *Call:
		c.Call.Args = append([]Value(nil), c.Call.Args...)
	case *Go:
		c.Call.Args = append([]Value(nil), c.Call.Args...)
	case *MakeClosure:
		c.Bindings = append([]Value(nil), c.Bindings...)
	case *Return:
		c.Results = append([]Value(nil), c.Results...)
	}

	return c.Interface().(Instruction)
}

// Finish lifts a function that is built in naive form.
func Finish(f *Function) {
	optimizeBlocks(f)
	refer(f)
	buildDomTree(f)
	lift(f)

	f.results = nil
	f.deferstack = nil
	f.vars = nil

	numberRegisters(f)
}

func refer(f *Function) {
	for _, p := range f.Params {
		p.referrers = nil
	}

	for _, v := range f.FreeVars {
		v.referrers = nil
	}

	for _, a := range f.AnonFuncs {
		a.referrers = nil
	}

	for in := range f.instrs() {
		if v, ok := in.(Value); ok {
			if r := v.Referrers(); r != nil {
				*r = nil
			}
		}
	}

	buildReferrers(f)
}
