package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// writerType is an output that has projections.
type writerType struct {
	name       string
	proj       *types.Var
	containers map[*types.Var]bool // maps of transposed outputs and lists of their names
	recv, prep *ssa.Function
}

// writers are outputs with projections.
func (j *Proj) writers() []*writerType {
	var res []*writerType

	sc := j.P.Lib.Pkg.Scope()
	iface, _ := sc.Lookup("WriteReceiver").Type().Underlying().(*types.Interface)

	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || iface == nil {
			continue
		}

		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(tn.Type()), iface) {
			continue
		}

		w := &writerType{name: n, containers: map[*types.Var]bool{}, recv: j.P.Method(n, "ReceiveRow"), prep: j.P.Method(n, "SetupKeys")}

		for i := range s.NumFields() {
			f := s.Field(i)

			switch t := f.Type().Underlying().(type) {
			case *types.Pointer:
				if typeName(t.Elem()) == "baseWriter" {
					w.proj = f
				}
			case *types.Map:
				if e := typeName(deref(t.Elem())); isString(t.Key()) && (e == "baseWriter" || e == n) {
					w.containers[f] = true
				}
			case *types.Slice:
				if isString(t.Elem()) && j.keepsNames(f, n) {
					w.containers[f] = true
				}
			}
		}

		if w.proj != nil && w.recv != nil && w.prep != nil {
			res = append(res, w)
		}
	}

	return res
}

// keepsNames tells that names of transpositions are added to the list.
func (j *Proj) keepsNames(f *types.Var, typ string) bool {
	for _, fn := range j.P.Funcs {
		if !recvIs(fn, typ) {
			continue
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				rg, ok := ins.(*ssa.Range)
				if !ok || !j.P.originField(rg.X, j.transposed) {
					continue
				}

				if storesInLoop(fn, rg, f) {
					return true
				}
			}
		}
	}

	return false
}

// storesInLoop tells that the field is assigned in the loop over a map.
func storesInLoop(fn *ssa.Function, rg *ssa.Range, f *types.Var) bool {
	for _, ref := range *rg.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}

		l := InnermostLoop(nx.Block())
		if l == nil {
			continue
		}

		for b := range l.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && fieldVar(s.Addr) == f {
					return true
				}
			}
		}
	}

	return false
}

// consumes tells that a function uses the row itself, it does not only pass it on.
func consumes(fn *ssa.Function) bool {
	for _, prm := range fn.Params {
		if t := shortType(prm.Type()); t != "[]string" && t != "[]Value" {
			continue
		}

		for _, ref := range *prm.Referrers() {
			switch i := ref.(type) {
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				if _, ok := i.Common().Value.(*ssa.Builtin); ok {
					return true
				}

				if !j0InRepo(i) {
					return true
				}
			default:
				return true
			}
		}
	}

	return false
}

func j0InRepo(ci ssa.CallInstruction) bool {
	f := ci.Common().StaticCallee()

	return f != nil && f.Pkg != nil && f.Pkg == ci.Parent().Pkg
}

// rowSink is a call that writes a row.
func rowSink(ci ssa.CallInstruction, callee *ssa.Function) bool {
	if p09CSVWrite(ci) {
		return true
	}

	return callee != nil && callee.Signature.Recv() != nil && returnsError(callee.Signature) && consumes(callee)
}

func (j *Proj) receive(t *writerType, rule string, r *Report) {
	for _, tr := range []bool{false, true} {
		if tr && !j.P.reachesFn(t.recv, func(f *ssa.Function) bool {
			return readsVar(f, j.isTr) && f != j.text && f != j.trValues && f != j.values
		}) {
			continue
		}

		j.receiveMode(t, rule, r, tr)
	}
}

func readsVar(fn *ssa.Function, v *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if f, ok := ins.(*ssa.FieldAddr); ok && fieldVar(f) == v {
				return true
			}
		}
	}

	return false
}

func (j *Proj) receiveMode(t *writerType, rule string, r *Report, transposed bool) {
	p, fn := j.P, t.recv
	name := FnName(fn)

	if transposed {
		name += " (transposed)"
	}

	main := rule == "P09.write"
	o := newOnce(r, rule, name, p.Pos(fn.Pos()))
	oMain, oTr := o, discard()

	if !main {
		oMain, oTr = oTr, o
	}

	recv := "P:" + fn.Params[0].Name()
	proj := recv + "." + t.proj.Name()
	seq := "P:" + paramOf(fn, "int64").Name()
	values := "P:" + paramOf(fn, "[]Value").Name()

	fe := &ForEach{Name: "transposed outputs", Bit: labTr, Bad: func(st *State, _ ssa.Instruction, msg string) { oTr.fail(st, msg) }}
	fr := &ForEach{Name: "transposed rows", Bit: labRows, Bad: func(st *State, _ ssa.Instruction, msg string) { oTr.fail(st, msg) }}

	isProj := func(id string) bool { return id == proj || id == "@"+proj || strings.TrimPrefix(id, "@") == proj }

	w := &Rows{P: p, Fields: map[*types.Var]uint64{j.transposed: labTr}, Each: []*ForEach{fe, fr}}
	for f := range t.containers {
		w.Fields[f] = labTr
	}

	w.Iter = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
		if bit == labTr {
			st.Set("fe:"+fr.Name, "")
			st.Set("proj", "")
		}
	}
	w.Done = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
		if bit == labRows && !transposed {
			fe.Hit(st)
		}
	}

	n := 0
	args0 := func(st *State, callee *ssa.Function, args []AV, o *once) {
		for i, a := range args {
			switch shortType(callee.Params[len(callee.Params)-len(args)+i].Type()) {
			case "int64":
				if a.ID != seq {
					o.fail(st, "row gets another sequence number")
				}
			case "[]Value":
				if a.ID != values {
					o.fail(st, "row is made of other values")
				}
			}
		}
	}

	c := w.Client(&Client{
		Load: j.mode(transposed, nil),
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			rows := AV{K: KSym, ID: "rows"}

			switch callee {
			case nil:
			case j.text, j.trValues, j.values:
				isMain := isProj(args[0].ID)
				if !isMain && fe.Status(st) != "p" {
					oTr.fail(st, "row is made for another projection: "+args[0].ID)
				}

				if isMain && !transposed {
					args0(st, callee, args[1:], oMain)
				} else {
					args0(st, callee, args[1:], oTr)
				}

				if isMain {
					st.Set("made", sprint(len(st.Get("made"))+1))
				} else if st.Get("proj") != "" {
					oTr.fail(st, "transposed rows are made more than once")
				}

				st.Set("proj", args[0].ID+" ")

				if callee == j.values {
					return &CallRes{Val: AV{K: KSym, ID: "P:mainrow", T: callee.Signature.Results().At(0).Type()}}
				}

				if callee == j.text && isMain && !transposed {
					st.Mem[args[0].ID+"."+j.row.Name()] = AV{K: KSym, ID: "P:mainrow", T: j.row.Type()}
				}

				rows.T = callee.Signature.Results().At(0).Type()
				st.AddLabel(rows, labRows)

				if isMain && !transposed {
					rows.ID = "mainrows"
				}

				return &CallRes{Val: rows}
			case fn:
				if fe.Status(st) != "p" || !strings.Contains(args[0].ID, "«") {
					oTr.fail(st, "row is passed to another output")
				}

				args0(st, callee, args[1:], oTr)
				fe.Hit(st)

				return &CallRes{Val: errSym(ci, x, st)}
			}

			if !rowSink(ci, callee) {
				return nil
			}

			row := args[len(args)-1]
			table := ""

			for i, a := range args[1:] {
				if shortType(a.T) == "string" || isString(a.T) {
					table = a.ID
				}

				if callee != nil && i+1 < len(callee.Params) && shortType(callee.Params[i+1].Type()) == "int64" && a.ID != seq {
					o.fail(st, "row gets another sequence number")
				}
			}

			switch {
			case row.ID == "P:mainrow":
				n++

				if !strings.HasPrefix(strings.TrimLeft(args[0].ID, "@"), recv) || strings.Contains(args[0].ID, "«") || strings.Contains(table, "«") || strings.Contains(table, j.ext.Name()) {
					oMain.fail(st, "row of the main table is written to another table")
				}

				if st.Get("made") == "" {
					oMain.fail(st, "row is written before it is made")
				}

				if st.Get("wrote") != "" {
					oMain.fail(st, "row is written more than once")
				}

				st.Set("wrote", "1")
			case strings.HasPrefix(row.ID, "@rows«"):
				n++

				if fr.Status(st) != "p" {
					oTr.fail(st, "transposed row is written more than once")
				}

				if table != "" && table != strings.TrimSpace(st.Get("proj"))+"."+j.ext.Name() && table != "@"+strings.TrimSpace(st.Get("proj"))+"."+j.ext.Name() {
					oTr.fail(st, "transposed row is written to another table: "+table)
				}

				fr.Hit(st)
			default:
				o.fail(st, "another row is written: "+row.Key())
			}

			return &CallRes{Val: errSym(ci, x, st)}
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" || !mayReturnNil(st, fn, results) {
				return
			}

			if transposed {
				if st.Get("made") != "1" || fr.Status(st) != "x" {
					oTr.fail(st, "transposed rows are not written")
				}

				return
			}

			if fe.Status(st) != "x" {
				oTr.fail(st, "row is not passed to transposed outputs")
			}

			if st.Get("made") != "1" {
				oMain.fail(st, "row is not made exactly once")
			}

			if st.Get("wrote") == "" {
				f := st.Facts[lenOf(AV{K: KSym, ID: "P:mainrow"}).ID]
				if f.Eq == nil || f.Eq.ExactString() != "0" {
					oMain.fail(st, "row is not written")
				}
			}
		},
	})

	keep := c.Keep
	c.Keep = func(id string, t types.Type) bool { return strings.Contains(id, "mainrow") || keep(id, t) }

	x := NewExplorer(p, c)
	x.Run(x.Initial(fn))

	if n == 0 {
		o.fail(nil, "no row is written")
	}

	o.done(x)
}

// errSym is a result that can be an error.
func errSym(ci ssa.CallInstruction, x *Explorer, st *State) AV {
	if v, ok := ci.(ssa.Value); ok {
		return x.resultSyms(st, v, ci.Common().Signature())
	}

	return AV{}
}

// firstIter decides comparisons of the loop index with constants by the number of iteration.
type firstIter struct{ name string }

func (f firstIter) next(st *State) {
	if st.Get("it:"+f.name) == "" {
		st.Set("it:"+f.name, "first")
	} else {
		st.Set("it:"+f.name, "next")
	}
}

func (f firstIter) first(st *State) bool { return st.Get("it:"+f.name) == "first" }

func (f firstIter) decide(x *Explorer, st *State, ins *ssa.If, c AV) (taken, ok bool) {
	neg := false
	for c.K == KNot {
		c = *c.X
		neg = !neg
	}

	if st.Get("it:"+f.name) == "" || c.K != KCmp {
		return false, false
	}

	l := InnermostLoop(ins.Block())
	if l == nil {
		return false, false
	}

	cond := ins.Cond
	for {
		u, isNot := cond.(*ssa.UnOp)
		if !isNot || u.Op != token.NOT {
			break
		}

		cond = u.X
	}

	b, isBin := cond.(*ssa.BinOp)
	if !isBin {
		return false, false
	}

	op, iv, nv := b.Op, b.X, b.Y
	if _, isC := iv.(*ssa.Const); isC {
		op, iv, nv = mirror(op), nv, iv
	}

	n, isC := nv.(*ssa.Const)
	if !isC || n.Value == nil || !isInteger(n.Type()) {
		return false, false
	}

	off, ok := loopIndex(iv, l)
	if !ok {
		return false, false
	}

	eval := func(i int64) bool {
		i += off

		switch op {
		case token.EQL:
			return i == n.Int64()
		case token.NEQ:
			return i != n.Int64()
		case token.LSS:
			return i < n.Int64()
		case token.LEQ:
			return i <= n.Int64()
		case token.GTR:
			return i > n.Int64()
		case token.GEQ:
			return i >= n.Int64()
		}

		return false
	}

	v := eval(0)

	if !f.first(st) {
		v = eval(1)
		for i := int64(2); i < 6; i++ {
			if eval(i) != v {
				return false, false
			}
		}
	}

	return v != neg, true
}

// loopIndex tells that a value is the number of the current iteration plus offset.
func loopIndex(v ssa.Value, l *Loop) (off int64, ok bool) {
	ph, o := phiOffset(v, l)
	if ph == nil {
		return 0, false
	}

	for k, e := range ph.Edges {
		if l.Blocks[ph.Block().Preds[k]] {
			continue
		}

		c, isC := e.(*ssa.Const)
		if !isC || c.Value == nil {
			return 0, false
		}

		return c.Int64() + o, true
	}

	return 0, false
}

// p09Fields checks that RAW output has each field, separated by the delimiter.
func p09Fields(p *Prog, r *Report, j *Proj) {
	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || !recvIs(fn, "RawWriter") || !takes(fn.Signature, "[]string") || !consumes(fn) {
			continue
		}

		n++
		o := newOnce(r, "P09.fields", FnName(fn), p.Pos(fn.Pos()))
		row := "P:" + paramOf(fn, "[]string").Name()
		fe := &ForEach{Name: "fields", Bit: labRow, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
		it := firstIter{"fields"}
		w := &Rows{P: p, Each: []*ForEach{fe}}
		w.Iter = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
			it.next(st)
			st.Set("delim", "")
		}
		delim := p.Field("RawWriter", "delim")

		if !need(r, "P09.fields", "RawWriter.delim", delim != nil) {
			return
		}

		isDelim := func(a AV) bool { return strings.HasSuffix(bareID(a.ID), "."+delim.Name()) }

		emit := func(x *Explorer, st *State, a AV) {
			for _, t := range flatText(asText(x, st, a)) {
				s, isC := constStr(t)

				switch {
				case isC && s == "":
				case strings.HasPrefix(t.ID, "join(") && st.Get("nl") == "":
					st.Set("fe:fields", "x")
				case isC && s == "\n":
					if fe.Status(st) != "x" || st.Get("nl") != "" {
						o.fail(st, "new line is not at the end of the row")
					}

					st.Set("nl", "1")
				case isDelim(t):
					if fe.Status(st) != "p" || it.first(st) || st.Get("delim") != "" {
						o.fail(st, "delimiter is at a wrong place")
					}

					st.Set("delim", "1")
				case strings.HasPrefix(t.ID, "@"+row+"«"):
					if fe.Status(st) != "p" {
						o.fail(st, "field is written more than once")
					}

					if !it.first(st) && st.Get("delim") == "" {
						empty := false
						for id, f := range st.Facts {
							empty = empty || strings.HasPrefix(id, "len(") && strings.HasSuffix(bareID(strings.TrimSuffix(id, ")")), "."+delim.Name()) && f.Eq != nil && f.Eq.ExactString() == "0"
						}

						if !empty {
							o.fail(st, "fields are not separated")
						}
					}

					fe.Hit(st)
				default:
					o.fail(st, "something else is written: "+t.Key())
				}
			}
		}

		c := w.Client(&Client{
			If: func(x *Explorer, st *State, ins *ssa.If, c AV) (bool, bool) { return it.decide(x, st, ins, c) },
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				switch CallName(ci.Common()) {
				case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "io.WriteString", "(io.Writer).Write", "io.Writer.Write", "(io.StringWriter).WriteString":
					emit(x, st, args[len(args)-1])

					return &CallRes{Val: errSym(ci, x, st)}
				case "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
					if k, ok := constInt(args[len(args)-1]); ok {
						emit(x, st, strAV(string(rune(k))))
					} else {
						o.fail(st, "something else is written")
					}

					return &CallRes{Val: errSym(ci, x, st)}
				case "strings.Join":
					if args[0].ID == row && isDelim(args[1]) {
						return &CallRes{Val: textSym(st, "join("+row+")", 0)}
					}
				}

				return nil
			},
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				if how != "return" || !mayReturnNil(st, fn, results) {
					return
				}

				if st.Get("nl") == "" {
					o.fail(st, "row is not finished with a new line")
				}
			},
		})

		keep := c.Keep
		c.Keep = func(id string, t types.Type) bool { return strings.HasPrefix(id, "len(") || keep(id, t) }

		x := NewExplorer(p, c)
		st := x.Initial(fn)
		st.AddLabel(AV{K: KSym, ID: row}, labRow)
		x.Run(st)
		o.done(x)
	}

	need(r, "P09.fields", "function that writes a RAW row", n > 0)
}
