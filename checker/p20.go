package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P20"] = p20 }

func p20(p *Prog, r *Report) {
	r.Rule("P20.rows", "each present value of a line is put under its own column of the row of its index, the row has sequence and index", 2)
	r.Rule("P20.write", "all transposed rows of the line are passed to all transposed outputs exactly once", 6)
	r.Rule("P20.setup", "each transposition has its own table or file with its own columns in every output", 4)
	r.Rule("P20.index", "index has the same text and value in all outputs", 4)
	r.Rule("P20.split", "key of a transposed value is split to index and column without loss", 1)

	j := newProj(p, r, "P20.rows")
	if j == nil {
		return
	}

	j.trRows(r, j.text)
	j.trRows(r, j.trValues)

	for _, t := range j.writers() {
		j.receive(t, "P20.write", r)
		j.trSetup(r, t)
	}

	j.trIndex(r)
	j.trSplit(r)
}

// trRows checks how transposed rows are made.
func (j *Proj) trRows(r *Report, fn *ssa.Function) {
	p := j.P
	o := newOnce(r, "P20.rows", FnName(fn), p.Pos(fn.Pos()))
	texts := fn == j.text
	recv := "P:" + fn.Params[0].Name()
	values := "P:" + paramOf(fn, "[]Value").Name()
	seq := "P:" + paramOf(fn, "int64").Name()
	fe := &ForEach{Name: "keys", Bit: labIdx, Bad: func(st *State, _ ssa.Instruction, msg string) {
		// Absent values have no field.
		if msg != "element of keys is skipped" {
			o.fail(st, msg)
		}
	}}
	w := &Rows{P: p, Fields: j.labels(), Each: []*ForEach{fe}}
	stores, news := 0, 0

	elemType := "[]Value"
	if texts {
		elemType = "[]string"
	}

	// finish checks the iteration that ends.
	finish := func(st *State) {
		if fe.Status(st) != "p" && fe.Status(st) != "k" {
			return
		}

		if st.Get("new") != "" && (st.Get("n0") == "" || st.Get("n1") == "" || st.Get("nreg") == "" || st.Get("napp") == "") {
			o.fail(st, "new row is not complete or not added to rows of the line")
		}

		if st.Get("put") != "" {
			return
		}

		// The value has to be absent.
		idx := st.Get("cur")
		absent := false

		for id := range st.Facts {
			b, ok := strings.CutSuffix(id, ".Type")
			if !ok || !strings.HasPrefix(b, "@"+values+"«s@") {
				continue
			}

			if k, has := strings.CutSuffix(strings.TrimPrefix(b, "@"+values+"«"), "»"); has && keyIdx(k) && (idx == "" || k == idx) && typeIs(st, id, "") == 1 {
				absent = true
			}
		}

		if !absent {
			o.fail(st, "value that is not absent is not put to a row")
		}

		if st.Get("new") != "" {
			o.fail(st, "row is made for an absent value")
		}
	}

	w.Iter = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
		for _, k := range []string{"new", "n0", "n1", "nreg", "napp", "put", "cur"} {
			st.Set(k, "")
		}
	}

	// rowKey tells that a row is of the index of the key, idx is the index of the key.
	rowKey := func(id string) (idx string, ok bool) {
		// @<rows>«stk(s@@P:b.keys«idx».transposeKey)»
		a := strings.Index(id, "«stk(")
		if a < 0 || !strings.HasSuffix(id, ")»") {
			return "", false
		}

		return tkIdx(strings.TrimSuffix(id[a+len("«s"):], "»"), "tk", recv, j)
	}

	w.Store = func(x *Explorer, st *State, ins *ssa.Store, base, at AV, v AV) {
		if shortType(ins.Addr.(*ssa.IndexAddr).X.Type()) != elemType {
			return
		}

		isNew := base.ID != "" && base.ID == st.Get("new")

		if n, ok := constInt(at); ok && (n == 0 || n == 1) {
			if !isNew {
				o.fail(st, "sequence or index is put to another row")

				return
			}

			switch {
			case n == 0:
				rn := v
				if !texts {
					rn = x.fieldOf(st, v, "RawNumber", types.Typ[types.String])

					if k, ok := constStr(x.fieldOf(st, v, "Type", types.Typ[types.String])); !ok || k != "float" {
						o.fail(st, "sequence is not a number")
					}
				}

				if rn.ID != "itoa(s"+seq+")" {
					o.fail(st, "row has another sequence: "+rn.Key())
				}

				st.Set("n0", "1")
			default:
				kind := "tk"
				if !texts {
					kind = "tv"
				}

				idx, ok := tkIdx(v.ID, kind, recv, j)
				if !ok {
					o.fail(st, "row has another index: "+v.Key())

					return
				}

				if st.Get("cur") != "" && st.Get("cur") != idx {
					o.fail(st, "row has the index of another key")
				}

				st.Set("cur", idx)
				st.Set("n1", "1")
			}

			return
		}

		// Field.
		a := strings.Index(at.ID, "«")
		if a < 0 || !strings.HasSuffix(at.ID, "»") || !strings.HasSuffix(at.ID[:a], "."+j.mapping.Name()) {
			o.fail(st, "value is put to another column: "+at.Key())

			return
		}

		idx := strings.TrimSuffix(at.ID[a+len("«"):], "»")
		val := "@" + values + "«" + idx + "»"

		if texts {
			if c, ok := constStr(v); !ok || c != "" {
				if v.ID != "fmt(s"+val+")" {
					o.fail(st, "column has another value: "+v.Key())
				}
			}

			if msg := textOfValue(st, v, val); msg != "" {
				o.fail(st, msg)
			}
		} else if v.ID != val {
			o.fail(st, "column has another value: "+v.Key())
		}

		if typeIs(st, val+".Type", "") != 2 && typeIs(st, val+".Type", "null") != 1 {
			o.fail(st, "absent value is put to a row")
		}

		if !isNew {
			k, ok := rowKey(base.ID)
			if !ok || k != idx {
				o.fail(st, "value is put to a row of another index: "+base.Key())
			}
		}

		if st.Get("cur") != "" && st.Get("cur") != idx {
			o.fail(st, "value is put to a row of another key")
		}

		if st.Get("put") != "" {
			o.fail(st, "value is put more than once")
		}

		st.Set("cur", idx)
		st.Set("put", "1")

		stores++

		fe.Hit(st)
	}
	w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		if shortType(ins.Map.Type()) != "map[string]"+elemType {
			return
		}

		idx, ok := tkIdx(key.ID, "tk", recv, j)
		if !ok {
			o.fail(st, "row is registered under another index: "+key.Key())

			return
		}

		if val.ID == "" || val.ID != st.Get("new") {
			o.fail(st, "row of an index is replaced")

			return
		}

		// There was no row.
		el := m.ID + "«" + key.Key() + "»"
		if st.NilOf(AV{K: KSym, ID: "@" + el}) != isNil {
			if f := st.Facts["@has "+el]; f.Eq == nil || f.Eq.ExactString() != "false" {
				o.fail(st, "row of an index is replaced")
			}
		}

		if st.Get("cur") != "" && st.Get("cur") != idx {
			o.fail(st, "row is registered for another key")
		}

		st.Set("cur", idx)
		st.Set("nreg", "1")
	}
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		if shortType(ins.Type()) != "[]"+elemType || len(el) != 1 {
			return
		}

		if el[0].ID == "" || el[0].ID != st.Get("new") {
			o.fail(st, "existing row is added again")
		}

		if base.ID != st.Get("last") && !(isEmptyList(base) && st.Get("last") == "") {
			o.fail(st, "row is added to another list")
		}

		if st.Get("napp") != "" {
			o.fail(st, "row is added more than once")
		}

		st.Set("napp", "1")
		st.Set("last", x.id(st.Top(), ins)+"~a")
	}

	c := w.Client(&Client{
		MaxStates: 200000,
		Load:      j.mode(true, nil),
		Keep: func(id string, t types.Type) bool {
			if t == nil || strings.Contains(id, "«") || nillable(t) {
				return true
			}

			b, ok := t.Underlying().(*types.Basic)

			return ok && b.Info()&(types.IsBoolean|types.IsString) != 0
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if callee != nil && recvIs(callee, "intOrString") && len(args) == 1 {
				switch shortType(callee.Signature.Results()) {
				case "(string)":
					return &CallRes{Val: textSym(st, "tk("+args[0].Key()+")", 0)}
				case "(Value)":
					return &CallRes{Val: AV{K: KSym, ID: "tv(" + args[0].Key() + ")", T: callee.Signature.Results().At(0).Type()}}
				}
			}

			return nil
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			mk, ok := ins.(*ssa.MakeSlice)
			if !ok || shortType(mk.Type()) != elemType {
				return
			}

			if st.Get("new") != "" {
				o.fail(st, "more than one row is made for a value")
			}

			if n := x.Eval(st, mk.Len); n.ID != "len(s@"+recv+"."+j.trimmed.Name()+")" {
				o.fail(st, "row has another number of columns: "+n.Key())
			}

			news++

			st.Set("new", x.id(st.Top(), mk)+"~m")
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" {
				return
			}

			if fe.Status(st) != "x" {
				o.fail(st, "not every key is visited")
			}

			if v := results[0]; v.ID != st.Get("last") && !(isEmptyList(v) && st.Get("last") == "") {
				o.fail(st, "other rows are returned: "+v.Key())
			}
		},
	})

	edge := c.Edge
	c.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		if ev, _ := loopEdge(x, st, ins, taken, labIdx); ev != LoopNone {
			finish(st)
			fe.Hit(st)
		}

		edge(x, st, ins, taken)
	}

	x := NewExplorer(p, c)
	x.Run(x.Initial(fn))

	if stores == 0 || news == 0 {
		o.fail(nil, "no row is made")
	}

	o.done(x)
}

// tkIdx is the index of the key that an index of a transposed row is taken from.
func tkIdx(id, kind, recv string, j *Proj) (string, bool) {
	s, ok := strings.CutPrefix(id, kind+"(s")
	if !ok {
		return "", false
	}

	s, ok = strings.CutSuffix(s, "."+j.kKey.Name()+")")
	if !ok {
		return "", false
	}

	list, idx, ok := elemOf(strings.TrimLeft(s, "@"))

	return idx, ok && list == recv+"."+j.keys.Name() && keyIdx(idx)
}

// trSetup checks that all transposed outputs are created.
func (j *Proj) trSetup(r *Report, t *writerType) {
	p, fn := j.P, t.prep
	o := newOnce(r, "P20.setup", FnName(fn), p.Pos(fn.Pos()))
	recv := "P:" + fn.Params[0].Name()
	proj := recv + "." + t.proj.Name()
	keys := "P:" + paramOf(fn, "[]flKey").Name()
	fe := &ForEach{Name: "transpositions", Bit: labTr, Except: labTr << 8, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
	w := &Rows{P: p, Fields: map[*types.Var]uint64{j.transposed: labTr}, Each: []*ForEach{fe}}

	// Lists of names keep the names of all transpositions.
	for f := range t.containers {
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			w.Fields[f] = labTr << 8
		}
	}

	made, reg := 0, 0
	isTable := func(callee *ssa.Function) bool {
		return callee != nil && recvIs(callee, t.name) && takes(callee.Signature, "[]flKey") && takes(callee.Signature, "string") && returnsError(callee.Signature)
	}
	fileName := p.Method("baseWriter", "transposedFileName")

	clear := func(st *State) {
		for _, k := range []string{"reg", "made", "ext", "name", "proj", "head"} {
			st.Set(k, "")
		}
	}

	sql := p.reachesFn(fn, isTable)
	csv := !sql && p.reachesCall(fn, p09CSVWrite)

	finish := func(st *State) {
		if fe.Status(st) != "p" {
			return
		}

		switch {
		case st.Get("reg") == "" || st.Get("made") == "":
			return
		case sql && st.Get("ext") == "":
			o.fail(st, "table of transposed rows has no name")
		case sql && st.Get("ext") != st.Get("made"):
			o.fail(st, "rows are written to another table than the one that is created: "+st.Get("ext"))
		case csv && st.Get("head") == "":
			o.fail(st, "file of transposed rows has no header")
		case st.Get("proj") == "":
			o.fail(st, "output of transposed rows has no projection")
		}

		fe.Hit(st)
	}

	// isCur tells that a name or projection is of the current transposition.
	loop2 := &ForEach{Name: "names of transpositions", Bit: labTr << 8, Bad: fe.Bad}
	w.Each = append(w.Each, loop2)
	w.Iter = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
		st.Set("two", boolText(bit != labTr))

		if bit == labTr {
			clear(st)
		} else {
			for _, k := range []string{"made", "ext", "proj"} {
				st.Set(k, "")
			}
		}
	}
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		if len(el) == 1 && fe.Status(st) == "p" && isString(el[0].T) && strings.HasSuffix(el[0].ID, "#1") {
			st.Set("reg", "list")

			reg++
		}
	}
	w.Field = func(x *Explorer, st *State, ins *ssa.Store, f *types.Var, base, val AV) {
		switch f {
		case j.ext:
			st.Set("ext", textKeyOf(val))

			if !strings.Contains(base.ID, "«") {
				o.fail(st, "name of a transposed table is set for another projection")
			}
		case t.proj:
			if strings.Contains(val.ID, "«") {
				st.Set("proj", val.ID)
			}
		}
	}
	w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		f := loadedField(ins.Map)
		if f == nil || !t.containers[f] {
			return
		}

		reg++

		if !strings.HasSuffix(key.ID, "#1") || fe.Status(st) == "" {
			o.fail(st, "transposed output is registered under another name")
		}

		if st.Get("reg") != "" {
			o.fail(st, "transposed output is registered more than once")
		}

		st.Set("reg", "1")

		if typeName(deref(val.T)) == "baseWriter" || strings.Contains(val.ID, "«") {
			st.Set("proj", val.ID)
		}
	}

	c := w.Client(&Client{
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			switch {
			case callee == nil:
				return nil
			case callee == j.setup:
				if st.Get("setup") != "" {
					o.fail(st, "keys are distributed more than once")
				}

				if strings.TrimLeft(args[0].ID, "@") != proj && args[0].ID != strings.TrimLeft(x.loadID(st, proj, t.proj.Type(), nil).ID, "") {
					o.fail(st, "keys are distributed to another projection: "+args[0].ID)
				}

				if args[1].ID != keys {
					o.fail(st, "other keys are distributed")
				}

				st.Set("setup", "1")

				for _, f := range []*types.Var{j.filtered, j.transposed} {
					v := AV{K: KSym, ID: "@" + args[0].ID + "." + f.Name(), T: f.Type()}
					st.Mem[args[0].ID+"."+f.Name()] = v
				}

				return &CallRes{}
			case callee == fileName:
				name := "file(" + args[1].Key() + "," + args[2].Key() + ")"

				return &CallRes{Val: textSym(st, name, 0)}
			case isTable(callee):
				name, list := "", AV{}

				for i, prm := range callee.Params {
					switch {
					case shortType(prm.Type()) == "[]flKey":
						list = args[i]
					case isString(prm.Type()):
						name = textKeyOf(args[i])
					}
				}

				if fe.Status(st) == "" {
					if st.Get("main") != "" {
						o.fail(st, "main table is created more than once")
					}

					if strings.Contains(list.ID, "«") || !strings.HasSuffix(list.ID, "."+j.filtered.Name()) || strings.Contains(name, "+s") {
						o.fail(st, "main table is created with other name or columns: "+list.Key())
					}

					st.Set("main", "1")

					return &CallRes{Val: errSym(ci, x, st)}
				}

				made++

				if !strings.Contains(list.ID, "«") || !strings.HasSuffix(list.ID, "."+j.filtered.Name()) {
					o.fail(st, "table of transposed rows is created with other columns: "+list.Key())
				}

				if st.Get("made") != "" {
					o.fail(st, "table of transposed rows is created more than once")
				}

				st.Set("made", name)
				st.Set("proj", list.ID)

				loop2.Hit(st)

				if st.Get("two") == "1" && st.Get("ext") != name {
					o.fail(st, "rows are written to another table than the one that is created")
				}

				return &CallRes{Val: errSym(ci, x, st)}
			case callee.Signature.Recv() == nil && callee.Signature.Results().Len() == 2 && typeName(deref(callee.Signature.Results().At(0).Type())) == t.name:
				made++

				if nm := args[0]; !strings.HasPrefix(nm.ID, "file(") {
					// Output that is discarded has the same name.
					base := x.loadID(st, recv+".fn", types.Typ[types.String], nil)
					f := st.Facts[base.ID]
					// Name may be made in place.
					if nm.ID != base.ID && !(f.Eq != nil && nm.K == KConst) && !strings.Contains(nm.Key(), "#1") {
						o.fail(st, "transposed output has another file name: "+nm.Key())
					}
				} else if !strings.HasSuffix(nm.ID, "#1)") {
					o.fail(st, "transposed output has file name of another transposition")
				}

				if st.Get("made") != "" {
					o.fail(st, "transposed output is created more than once")
				}

				st.Set("made", "1")

				return nil
			case recvIs(callee, t.name) && p.reachesCall(callee, p09CSVWrite) && callee.Signature.Params().Len() == 0:
				if args[0].ID == recv {
					st.Set("mainhead", st.Get("mainhead")+"1")
				} else {
					st.Set("head", "1")
				}

				return &CallRes{Val: errSym(ci, x, st)}
			}

			return nil
		},
		NoInline: func(fn *ssa.Function) bool {
			return fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 2 && typeName(deref(fn.Signature.Results().At(0).Type())) == t.name
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" || !mayReturnNil(st, fn, results) {
				return
			}

			if st.Get("need2") != "" && loop2.Status(st) != "x" {
				o.fail(st, "transposed outputs are not created")
			}

			if st.Get("setup") == "" || fe.Status(st) != "x" {
				o.fail(st, "transposed outputs are not created")
			}

			if csv && st.Get("mainhead") != "1" {
				o.fail(st, "main header is not written once")
			}

			if sql && st.Get("main") == "" {
				o.fail(st, "main table is not created")
			}
		},
	})

	edge := c.Edge
	c.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		if ev, _ := loopEdge(x, st, ins, taken, labTr); ev != LoopNone && x.condLabel(st, ins)&(labTr<<8) == 0 {
			finish(st)

			// Names are only collected, tables are created in the next loop.
			if st.Get("reg") == "list" && st.Get("made") == "" {
				fe.Hit(st)
				st.Set("need2", "1")
			}
		}

		edge(x, st, ins, taken)
	}

	x := NewExplorer(p, c)
	x.Run(x.Initial(fn))

	if made == 0 || reg == 0 {
		o.fail(nil, "no output of transposed rows is created")
	}

	o.done(x)
}

func boolText(b bool) string {
	if b {
		return "1"
	}

	return ""
}

// trIndex checks that text and value of an index agree.
func (j *Proj) trIndex(r *Report) {
	p := j.P

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || !recvIs(fn, "intOrString") || fn.Signature.Results().Len() != 1 {
			continue
		}

		res := shortType(fn.Signature.Results().At(0).Type())
		if res != "string" && res != "Value" {
			continue
		}

		recv := "P:" + fn.Params[0].Name()

		for _, kind := range []string{"string", "int"} {
			o := newOnce(r, "P20.index", FnName(fn)+" ("+kind+")", p.Pos(fn.Pos()))
			n := 0

			check := func(st *State, v AV) {
				n++

				want := "itoa(s" + recv + ".i)"
				if kind == "string" {
					want = recv + ".s"
				}

				if strings.ReplaceAll(v.ID, "@", "") != want {
					o.fail(st, "index is written as "+v.Key())
				}
			}

			w := &Rows{P: p}
			c := w.Client(&Client{
				Exit: func(x *Explorer, st *State, how string, results []AV) {
					if how != "return" {
						o.fail(st, "index is not written")

						return
					}

					if res == "string" {
						check(st, results[0])

						return
					}

					f := "RawNumber"
					t := "float"

					if kind == "string" {
						f, t = "String", "string"
					}

					check(st, x.fieldOf(st, results[0], f, types.Typ[types.String]))

					if k, ok := constStr(x.fieldOf(st, results[0], "Type", types.Typ[types.String])); !ok || k != t {
						o.fail(st, "index has another type")
					}
				},
			})

			x := NewExplorer(p, c)
			st := x.Initial(fn)
			presetField(st, fn.Params[0], recv, "t", strAV(kind))
			x.Run(st)

			if n == 0 {
				o.fail(nil, "index is not written")
			}

			o.done(x)
		}
	}
}

// presetField sets a field of a parameter.
func presetField(st *State, prm *ssa.Parameter, id, field string, v AV) {
	st.Mem[id+"."+field] = v
	st.Mem["@"+id+"."+field] = v
}

// trSplit checks that a key is split to index and column.
func (j *Proj) trSplit(r *Report) {
	p := j.P
	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || !storesField(fn, j.kTrim) || !storesField(fn, j.kKey) {
			continue
		}

		n++
		o := newOnce(r, "P20.split", FnName(fn), p.Pos(fn.Pos()))
		sets := 0

		w := &Rows{P: p}
		w.Field = func(x *Explorer, st *State, ins *ssa.Store, f *types.Var, base, val AV) {
			switch f {
			case j.kKey:
				st.Set("t", x.fieldOf(st, val, "t", types.Typ[types.String]).Key())

				if k, ok := constStr(x.fieldOf(st, val, "t", types.Typ[types.String])); ok && k == "string" {
					st.Mem["P:index"] = x.fieldOf(st, val, "s", types.Typ[types.String])
				} else {
					st.Mem["P:index"] = x.fieldOf(st, val, "i", types.Typ[types.Int])
				}

				st.Set("key", "1")
			case j.kTrim:
				st.Mem["P:column"] = val
				st.Set("col", "1")
			case j.kDst:
				st.Set("dst", "1")

				if !strings.HasPrefix(val.ID, "P:") {
					o.fail(st, "key belongs to another transposition: "+val.Key())
				}
			default:
				return
			}

			sets++
		}

		c := w.Client(&Client{
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				switch name := CallName(ci.Common()); name {
				case "strings.Index", "strings.IndexByte":
					return &CallRes{Val: AV{K: KSym, ID: "pos(" + args[0].Key() + "," + args[1].Key() + ")", T: types.Typ[types.Int]}}
				case "strings.TrimPrefix":
					return &CallRes{Val: textSym(st, "tp("+args[0].Key()+","+args[1].Key()+")", 0)}
				case "strconv.Atoi":
					v := AV{K: KSym, ID: "atoi(" + args[0].Key() + ")", T: types.Typ[types.Int]}

					return &CallRes{Val: tupleOf([]AV{v, {K: KSym, ID: "atoiErr", T: ErrorType}})}
				}

				return nil
			},
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				if how != "return" || st.Get("key")+st.Get("col")+st.Get("dst") == "" {
					return
				}

				if st.Get("key") == "" || st.Get("col") == "" || st.Get("dst") == "" {
					o.fail(st, "key is transposed without index, column or destination")

					return
				}

				idx, col := st.Mem["P:index"], st.Mem["P:column"]

				if msg := splitOf(idx, col); msg != "" {
					o.fail(st, msg)
				}
			},
		})

		x := NewExplorer(p, c)
		x.Run(x.Initial(fn))

		if sets == 0 {
			o.fail(nil, "key is not split")
		}

		o.done(x)
	}

	need(r, "P20.split", "function that splits a transposed key", n > 0)
}

// splitOf checks that the column is the rest of the key after the index.
func splitOf(idx, col AV) string {
	part := func(a AV) (of, lo, hi AV, ok bool) {
		if strings.HasPrefix(a.ID, "sl(") && len(a.Bind) == 3 {
			return a.Bind[0], a.Bind[1], a.Bind[2], true
		}

		return AV{}, AV{}, AV{}, false
	}

	whole := false
	if c, ok := constStr(col); ok {
		if c != "._value" {
			return "column has a constant name " + c
		}

		whole = true
	}

	if s, ok := strings.CutPrefix(idx.ID, "atoi("); ok {
		// Index is the text between brackets, the column is the text after the closing one.
		if whole {
			return ""
		}

		of, lo, hi, ok := part(col)

		// Digits were cut from the text in brackets.
		if ok && hi.K == KTop && strings.HasSuffix(s, "#0)") && strings.HasSuffix(lo.Key(), "len("+strings.TrimSuffix(s, ")")+")+c2)") {
			return ""
		}

		if !ok || hi.K != KTop || !strings.Contains(lo.Key(), "pos("+of.Key()+",") || !strings.HasPrefix(s, "ssl("+of.Key()+";") {
			return "column is not the rest of the key after the index: " + col.Key()
		}

		return ""
	}

	if strings.HasPrefix(strings.TrimLeft(idx.ID, "s"), "v/") {
		return "index is made by another function: " + idx.Key()
	}

	of, lo, hi, ok := part(idx)
	if !ok || lo.K != KTop || hi.K == KTop || !strings.HasPrefix(hi.ID, "pos(") {
		// The whole key is the index.
		if !whole {
			return "column is not the rest of the key after the index: " + idx.Key() + " " + col.Key()
		}

		return ""
	}

	if whole {
		return ""
	}

	cof, clo, chi, ok := part(col)
	if !ok || cof.Key() != of.Key() || clo.Key() != hi.Key() || chi.K != KTop {
		return "column is not the rest of the key after the index: " + col.Key()
	}

	return ""
}
