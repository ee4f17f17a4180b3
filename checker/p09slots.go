package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// p09Slots checks that a row has a place for each column and that values are put to their columns.
func p09Slots(p *Prog, r *Report, j *Proj) {
	keys, inc, con := p.Field("Processor", "keys"), p.Field("Processor", "includeKeys"), p.Field("Processor", "constVals")
	vals := p.Field("lineBuf", "values")
	canonical := p.Field("flKey", "canonical")

	if !need(r, "P09.slots", "Processor.keys", keys != nil) || !need(r, "P09.slots", "Processor.includeKeys", inc != nil) ||
		!need(r, "P09.slots", "lineBuf.values", vals != nil) || !need(r, "P09.slots", "Processor.constVals", con != nil) {
		return
	}

	slots, setups, rows := 0, 0, 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib {
			continue
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if fieldVar(i.Addr) != vals {
						continue
					}

					slots++
					bad := false

					for _, v := range p.Origins(i.Val) {
						mk, ok := v.(*ssa.MakeSlice)
						bad = bad || !ok || !p.originLen(mk.Len, keys)
					}

					r.Check(!bad, "P09.slots", "slots of a row in "+FnName(fn), p.InstrPos(i), "number of values in a row is not the number of columns")
				case ssa.CallInstruction:
					if !i.Common().IsInvoke() && (i.Common().StaticCallee() == nil || !recvIs(i.Common().StaticCallee(), "Writer")) {
						continue
					}

					args := i.Common().Args
					if len(args) == 0 {
						continue
					}

					// Receivers get what the writer has got.
					last := args[len(args)-1]

					switch methodName(i.Common()) {
					case "SetupKeys":
						setups++
						r.Check(p.originField(last, keys), "P09.slots", "keys for outputs in "+FnName(fn), p.InstrPos(i), "outputs do not get columns of the processor")
					case "ReceiveRow":
						rows++
						r.Check(p.originField(last, vals), "P09.slots", "values for outputs in "+FnName(fn), p.InstrPos(i), "outputs do not get values of the row")
					}
				}
			}
		}
	}

	need(r, "P09.slots", "a row with values", slots > 0)
	need(r, "P09.slots", "setup of outputs", setups > 0)
	need(r, "P09.slots", "delivery of a row", rows > 0)

	p09Columns2(p, r, j, keys, inc, con)
	p09PathIndex(p, r, canonical)
}

// p09Columns2 checks that keys with the same name share a column.
func p09Columns2(p *Prog, r *Report, j *Proj, keys, inc, con *types.Var) {
	var fns []*ssa.Function

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || !recvIs(fn, "Processor") || !p.reachesFn(fn, func(f *ssa.Function) bool { return storesField(f, keys) }) {
			continue
		}

		if p.reachesFn(fn, func(f *ssa.Function) bool { return updatesField(f, con) }) {
			fns = append(fns, fn)
		}
	}

	// The innermost function that does both.
	var fn *ssa.Function

	for _, f := range fns {
		if fn == nil || p.reachesFn(fn, func(g *ssa.Function) bool { return g == f }) {
			fn = f
		}
	}

	if !need(r, "P09.slots", "function that assigns columns", fn != nil) {
		return
	}

	o := newOnce(r, "P09.slots", "columns of keys in "+FnName(fn), p.Pos(fn.Pos()))
	fe := &ForEach{Name: "keys", Bit: labKeys, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
	recv := "P:" + fn.Params[0].Name()
	n, incs := 0, 0

	list := func(id string) bool { return strings.HasPrefix(id, "len(") }

	w := &Rows{P: p, Fields: map[*types.Var]uint64{keys: labKeys}, Each: []*ForEach{fe}}

	clear := func(st *State) {
		for _, k := range []string{"app", "appl", "upd", "key", "exv", "exk"} {
			st.Set(k, "")
		}
	}

	// A key has its column at the end of its iteration.
	finish := func(st *State) {
		if st.Get("key") == "" {
			return
		}

		elem := st.Get("key")
		v, app := st.Get("upd"), st.Get("app")

		switch {
		case v == "":
			o.fail(st, "key has no column")
		case app != "":
			if v != "s"+app {
				o.fail(st, "column of a new key is not the last one: "+v)
			}

			if st.Get("appl") != elem {
				o.fail(st, "column is of another key")
			}
		case !strings.HasPrefix(v, "s@") || !strings.Contains(v, "«s"+elem+"."+j.kName.Name()+"»"):
			o.fail(st, "column is shared by keys with different names: "+v)
		default:
			f := st.Facts[elem+"."+j.kDst.Name()]
			if f.Eq == nil || f.Eq.ExactString() != `""` {
				o.fail(st, "column of a transposed key is shared")
			}
		}

		if app == "" && st.Get("exv") != "" || app != "" && st.Get("exv") != "" && (st.Get("exv") != "s"+app || st.Get("exk") != "s"+elem+"."+j.kName.Name()) {
			o.fail(st, "column of a name is recorded wrong")
		}

		if f := st.Facts[elem+"."+j.kDst.Name()]; app != "" && st.Get("exv") == "" && f.Eq != nil && f.Eq.ExactString() == `""` {
			o.fail(st, "column of a name is not recorded")
		}
	}

	w.Iter = func(x *Explorer, st *State, ins *ssa.If, bit uint64) { clear(st) }
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		if shortType(ins.Type()) != "[]flKey" || fe.Status(st) == "" || len(el) != 1 {
			return
		}

		if st.Get("app") != "" {
			o.fail(st, "more than one column for a key")
		}

		if isEmptyList(base) && st.Get("last") != "" || !isEmptyList(base) && base.ID != st.Get("last") {
			o.fail(st, "column is added to another list")
		}

		n++

		st.Set("app", w.lenOf(base).Key()[boolInt(w.lenOf(base).K == KSym):])
		if isEmptyList(base) {
			st.Set("app", "0")
		}

		id := x.fieldOf(st, el[0], j.kOrig.Name(), j.kOrig.Type()).ID
		st.Set("appl", strings.TrimSuffix(id, "."+j.kOrig.Name()))
		st.Set("last", x.id(st.Top(), ins)+"~a")
	}
	w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		f := loadedField(ins.Map)

		switch {
		case f == inc || f == con:
			incs++

			idx := key
			if f == inc {
				idx = val

				if !strings.HasPrefix(key.ID, "@") || !strings.Contains(key.ID, "«") {
					o.fail(st, "column is assigned to another key")
				}
			}

			// @keyMap«s@sorted«i».idx»
			a := strings.Index(idx.ID, "~k«s@")
			if a < 0 || !strings.HasPrefix(idx.ID, "@") || !strings.HasSuffix(idx.ID, "»") {
				o.fail(st, "column of a key is not the assigned one: "+idx.Key())

				return
			}

			elem, _, _ := cutLast(strings.TrimSuffix(idx.ID[a+len("~k«s"):], "»"), ".")

			if f == inc && !strings.HasPrefix(key.ID, elem+".") {
				o.fail(st, "column is assigned to another key")
			}
		case shortType(ins.Map.Type()) == "map[int]int" && fe.Status(st) != "":
			if st.Get("upd") != "" {
				o.fail(st, "more than one column for a key")
			}

			// Key of the current index.
			st.Set("key", "@"+x.loadID(st, recv+"."+keys.Name(), keys.Type(), nil).ID+"«"+key.Key()+"»")
			st.Set("upd", val.Key())

			if n, ok := constInt(val); ok {
				st.Set("upd", "s"+sprint(n))
			}

			fe.Hit(st)
			st.Set("fin", "")
		case shortType(ins.Map.Type()) == "map[string]int" && fe.Status(st) != "":
			st.Set("exk", key.Key())
			st.Set("exv", val.Key())

			if n, ok := constInt(val); ok {
				st.Set("exv", "s"+sprint(n))
			}
		}
	}
	w.Field = func(x *Explorer, st *State, ins *ssa.Store, f *types.Var, base, val AV) {
		if f != keys || fe.Status(st) != "x" {
			return
		}

		if val.ID != st.Get("last") && (st.Get("last") != "" || !isEmptyList(val)) {
			o.fail(st, "another list of columns is used: "+val.Key())
		}

		st.Set("set", "1")
	}

	c := w.Client(&Client{
		MaxStates: 200000,
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if callee == nil || callee.Pkg != p.Lib || rootFn(callee) != callee {
				return nil
			}

			// Names and types are not decided here.
			if s := callee.Signature; s.Results().Len() == 1 && isString(s.Results().At(0).Type()) {
				return &CallRes{Val: textSym(st, callee.Name()+"("+args[len(args)-1].Key()+")", 0)}
			}

			if recvIs(callee, "flKey") || recvIs(callee, "Type") {
				return &CallRes{}
			}

			return nil
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how == "return" && (fe.Status(st) != "x" || st.Get("set") == "") {
				o.fail(st, "columns are not assigned")
			}
		},
	})

	iter := w.Iter
	w.Iter = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
		iter(x, st, ins, bit)
	}

	// End of an iteration.
	edge := c.Edge
	c.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		if ev, _ := loopEdge(x, st, ins, taken, labKeys); ev != LoopNone {
			finish(st)

			if ev == LoopDone {
				clear(st)
			}
		}

		edge(x, st, ins, taken)
	}

	_ = list

	x := NewExplorer(p, c)
	x.Run(x.Initial(fn))

	if n == 0 || incs < 2 {
		o.fail(nil, "columns are not assigned")
	}

	o.done(x)
}

func boolInt(b bool) int {
	if b {
		return 1
	}

	return 0
}

func cutLast(s, sep string) (before, after string, ok bool) {
	if i := strings.LastIndex(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}

	return s, "", false
}

// updatesField tells that a function assigns an element of a map in the field.
func updatesField(fn *ssa.Function, f *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if mu, ok := ins.(*ssa.MapUpdate); ok && loadedField(mu.Map) == f {
				return true
			}
		}
	}

	return false
}

// p09PathIndex checks that hash of a path gives the column of its canonical key.
func p09PathIndex(p *Prog, r *Report, canonical *types.Var) {
	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib {
			continue
		}

		has := false

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				has = has || ok && shortType(mu.Map.Type()) == "map[uint64]int" && loadedField(mu.Map) == nil
			}
		}

		if !has {
			continue
		}

		n++
		o := newOnce(r, "P09.slots", "columns of paths in "+FnName(fn), p.Pos(fn.Pos()))
		w := &Rows{P: p}
		w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
			if shortType(ins.Map.Type()) != "map[uint64]int" {
				return
			}

			k, isElem := strings.CutSuffix(val.ID, "."+canonical.Name()+"»")
			if !isElem || key.K != KSym || !strings.HasPrefix(k, "@") {
				o.fail(st, "path does not get the column of its key: "+val.Key())

				return
			}

			known := st.Facts["@has "+strings.TrimPrefix(val.ID, "@")]
			if known.Eq == nil || known.Eq.ExactString() != "true" {
				o.fail(st, "path gets a column without being included")
			}
		}

		x := NewExplorer(p, w.Client(&Client{}))
		x.Run(x.Initial(fn))
		o.done(x)
	}

	need(r, "P09.slots", "function that finds columns of paths", n > 0)
}
