package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["P19"] = p19
	props["P23"] = p23
}

var cellKinds = []string{"FnString", "FnNumber", "FnBool", "FnNull"}

func p19(p *Prog, r *Report) {
	r.Rule("P19.cell", "without a delimiter the first value that is not null is kept, with a delimiter every next value is appended", 4)
	r.Rule("P19.const", "constant columns have their constant in every row", 1)
	r.Rule("P19.constKeys", "constants are recorded for columns of their keys", 1)
	r.Rule("P19.type", "column with joined values is text", 1)

	c := newCells(p, r, "P19.cell")
	if c == nil {
		return
	}

	for _, name := range cellKinds {
		fns := c.callbacks(name)
		need(r, "P19.cell", name+" of the second pass", len(fns) > 0)

		for _, fn := range fns {
			o := newOnce(r, "P19.cell", name+" in "+FnName(rootFn(fn)), p.Pos(fn.Pos()))
			stored, joined := false, false

			x := c.explore(fn, name, o, func(put *Put) {
				st := put.St

				if put.What == "" {
					// Nothing is put.
					switch {
					case put.Found == 2:
					case put.Found == 0:
						o.fail(st, "value is dropped without looking for its column")
					case put.Concat == notNil:
						o.fail(st, "next value is not appended")
					case put.Concat == nilUnknown:
						o.fail(st, "value is dropped when there is a delimiter")
					case put.Class != "other":
						o.fail(st, "value is dropped when the column is "+classText(put.Class))
					}

					return
				}

				if put.Found != 1 {
					o.fail(st, "value is put without a column")

					return
				}

				switch put.What {
				case "new":
					stored = true

					switch {
					case put.Class == "absent":
					case put.Class == "null" && put.Concat == isNil:
					case put.Class == "null":
						o.fail(st, "value is replaced when there is a delimiter")
					default:
						o.fail(st, "value is replaced by the next one when the column is "+classText(put.Class))
					}
				case "joined":
					joined = true

					if put.Concat != notNil {
						o.fail(st, "values are joined without a delimiter")
					}

					if put.Class == "absent" || put.Class == "unknown" {
						o.fail(st, "the first value is joined with a missing one")
					}
				default:
					o.fail(st, put.What)
				}
			})

			if !stored || !joined {
				o.fail(nil, "value is not put to its column")
			}

			o.done(x)
		}
	}

	p19Const(p, r, c)
	p19Type(p, r, c)
}

func classText(c string) string {
	switch c {
	case "absent":
		return "empty"
	case "other":
		return "filled"
	case "some":
		return "filled or null"
	}

	return c
}

// p19Const checks that rows have values of constant columns.
func p19Const(p *Prog, r *Report, c *Cells) {
	con := p.Field("Processor", "constVals")
	if !need(r, "P19.const", "Processor.constVals", con != nil) {
		return
	}

	// Innermost functions that deliver a row.
	var fns []*ssa.Function

	delivers := func(ci ssa.CallInstruction) bool {
		cc := ci.Common()

		return methodName(cc) == "ReceiveRow" && cc.StaticCallee() != nil && recvIs(cc.StaticCallee(), "Writer")
	}

	reads := func(f *ssa.Function) bool { return readsVar(f, con) && p.reachesFn(f, storesCell) }

	for _, fn := range p.Funcs {
		if fn.Pkg == p.Lib && fn.Parent() == nil && p.reachesCall(fn, delivers) && p.reachesFn(fn, reads) {
			fns = append(fns, fn)
		}
	}

	p19ConstKeys(p, r, con)

	n := 0

	for _, fn := range fns {
		inner := true

		for _, g := range fns {
			if g != fn && p.reachesFn(fn, func(h *ssa.Function) bool { return h == g }) {
				inner = false
			}
		}

		if !inner {
			continue
		}

		n++
		o := newOnce(r, "P19.const", FnName(fn), p.Pos(fn.Pos()))
		fe := &ForEach{Name: "constants", Bit: labTr << 5, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
		w := &Rows{P: p, Fields: map[*types.Var]uint64{con: labTr << 5}, Each: []*ForEach{fe}}
		row := "." + c.values.Name() + "«"
		delivered := false

		cl := w.Client(&Client{
			NoInline: func(g *ssa.Function) bool { return recvIs(g, "Writer") },
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				s, ok := ins.(*ssa.Store)
				if !ok {
					return
				}

				id := x.Eval(st, s.Addr).ID
				if !strings.Contains(id, row) {
					return
				}

				if st.Get("sent") != "" {
					return
				}

				if fe.Status(st) == "p" {
					st.Set("cell", id[:strings.LastIndex(id, "»")+len("»")])

					return
				}

				if fe.Status(st) == "x" || fe.Status(st) == "k" {
					o.fail(st, "constant of a column is replaced")
				}
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if delivers(ci) {
					delivered = true

					if fe.Status(st) != "x" {
						o.fail(st, "row is delivered without constants")
					}

					st.Set("sent", "1")
				}

				return nil
			},
		})

		edge := cl.Edge
		cl.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			if ev, _ := loopEdge(x, st, ins, taken, labTr<<5); ev != LoopNone && fe.Status(st) == "p" {
				cell := st.Get("cell")

				if cell != "" {
					t := p.Lib.Type("Value").Type()
					ty, _ := constStr(x.loadID(st, cell+".Type", fieldType(t, "Type"), nil))
					s := x.loadID(st, cell+".String", fieldType(t, "String"), nil)

					_, idx, _ := strings.Cut(cell, row)
					idx = strings.TrimSuffix(idx, "»")

					// Value of the map with the same key.
					if ty == "string" && strings.HasSuffix(s.ID, "."+con.Name()+"«"+idx+"»") {
						fe.Hit(st)
					} else {
						o.fail(st, "column does not have its constant")
					}
				}

				st.Set("cell", "")
			}

			edge(x, st, ins, taken)
		}

		x := NewExplorer(p, cl)
		x.Run(x.Initial(fn))

		if !delivered {
			o.fail(nil, "row is not delivered")
		}

		o.done(x)
	}

	need(r, "P19.const", "function that delivers rows", n > 0)
}

// storesCell tells that a function writes to an element of a list of values.
func storesCell(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ia, ok := ins.(*ssa.IndexAddr); ok && shortType(ia.X.Type()) == "[]Value" {
				return true
			}
		}
	}

	return false
}

// p19ConstKeys checks that constants are recorded for columns of their keys.
func p19ConstKeys(p *Prog, r *Report, con *types.Var) {
	inc := p.Field("Processor", "includeKeys")
	if !need(r, "P19.constKeys", "Processor.includeKeys", inc != nil) {
		return
	}

	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || !updatesMap(fn, con) {
			continue
		}

		n++
		o := newOnce(r, "P19.constKeys", FnName(fn), p.Pos(fn.Pos()))
		done := 0

		w := &Rows{P: p}
		w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
			switch loadedField(ins.Map) {
			case inc:
				st.Set("k", key.Key())
				st.Set("i", val.Key())

				if c := st.Get("c"); c != "" && c != key.Key()+" "+val.Key() {
					o.fail(st, "constant is recorded for another column")
				}

				st.Set("c", "")
			case con:
				done++

				orig, ok := strings.CutPrefix(val.ID, "const-of(")
				orig = strings.TrimSuffix(orig, ")")

				switch {
				case !ok:
					o.fail(st, "constant is not the text after the prefix")
				case st.Get("k") == orig && st.Get("i") == key.Key():
				case st.Get("k") == orig:
					o.fail(st, "constant is recorded for another column")
				default:
					st.Set("c", orig+" "+key.Key())
				}
			}
		}

		x := NewExplorer(p, w.Client(&Client{
			NoInline: func(g *ssa.Function) bool {
				return !nestedIn(g, fn) && !p.reachesFn(g, func(h *ssa.Function) bool { return updatesMap(h, con) || updatesMap(h, inc) })
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				switch CallName(ci.Common()) {
				case "strings.TrimPrefix":
					if s, ok := constStr(args[1]); ok && s == "const:" && args[0].K == KSym {
						return &CallRes{Val: AV{K: KSym, ID: "const-of(" + args[0].Key() + ")", T: types.Typ[types.String]}}
					}
				case "strings.CutPrefix":
					if s, ok := constStr(args[1]); ok && s == "const:" && args[0].K == KSym {
						return &CallRes{Val: tupleOf([]AV{{K: KSym, ID: "const-of(" + args[0].Key() + ")", T: types.Typ[types.String]}, {K: KSym, ID: "is-const(" + args[0].Key() + ")", T: types.Typ[types.Bool]}})}
					}
				case "strings.HasPrefix":
					if s, ok := constStr(args[1]); ok && s == "const:" && args[0].K == KSym {
						return &CallRes{Val: AV{K: KSym, ID: "is-const(" + args[0].Key() + ")", T: types.Typ[types.Bool]}}
					}
				}

				return nil
			},
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				if how == "return" && st.Get("c") != "" {
					o.fail(st, "column of a constant is not recorded")
				}
			},
		}))
		x.Run(x.Initial(fn))

		if done == 0 {
			o.fail(nil, "constants are not recorded")
		}

		o.done(x)
	}

	need(r, "P19.constKeys", "function that records constants", n > 0)
}

// updatesMap tells that a function adds to the map in the field.
func updatesMap(fn *ssa.Function, f *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if mu, ok := ins.(*ssa.MapUpdate); ok && loadedField(mu.Map) == f {
				return true
			}
		}
	}

	return false
}

// p19Type checks that a column that is shared by keys is text when values are joined.
func p19Type(p *Prog, r *Report, c *Cells) {
	isLookup := func(ins ssa.Instruction) bool {
		l, ok := ins.(*ssa.Lookup)
		if !ok || !l.CommaOk {
			return false
		}

		f := fieldOfValue(l.Index)

		return f != nil && f.Name() == "replaced"
	}

	found := 0

	for _, fn := range p.Funcs {
		has := false

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				has = has || isLookup(ins)
			}
		}

		if !has {
			continue
		}

		found++
		o := newOnce(r, "P19.type", FnName(fn), p.Pos(fn.Pos()))

		check := func(st *State) {
			if st.Get("s") != "shared" {
				return
			}

			for id, f := range st.Facts {
				if c.isField(id, c.concat) && f.Nil == isNil {
					return
				}
			}

			o.fail(st, "type of a column with joined values is not text")
		}

		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool {
				return isMerge(p, f) || !nestedIn(f, fn) && !p.reachesCall(f, func(ci ssa.CallInstruction) bool { return isMerge(p, ci.Common().StaticCallee()) })
			},
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				if appendsKey(ins) {
					st.Set("s", "")
				}
			},
			Keep: func(id string, t types.Type) bool { return c.isField(id, c.concat) },
			Lookup: func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool) {
				if !isLookup(ins) {
					return AV{}, false
				}

				check(st)

				n := st.fork()
				n.Set("s", "")
				n.Top().Env[ins] = tupleOf([]AV{{K: KSym, ID: "none"}, boolAV(false)})
				n.Top().Idx++
				x.enqueue(n)

				st.Set("s", "shared")

				return tupleOf([]AV{{K: KSym, ID: "pos", T: types.Typ[types.Int]}, boolAV(true)}), true
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if st.Get("s") == "shared" && isMerge(p, callee) && len(args) == 2 {
					if s, ok := constStr(args[1]); ok && s == "string" {
						st.Set("s", "text")
					}
				}

				return nil
			},
			Exit: func(x *Explorer, st *State, kind string, results []AV) {
				if kind == "return" {
					check(st)
				}
			},
		})
		x.Run(x.Initial(fn))
		o.done(x)
	}

	need(r, "P19.type", "lookup of a column by name", found > 0)
}

func p23(p *Prog, r *Report) {
	r.Rule("P23.text", "only text of a key with a format other than RAW is converted, with the configured formats", 1)
	r.Rule("P23.other", "other values are not converted", 3)
	r.Rule("P23.formats", "formats of keys are those of the configuration", 1)
	r.Rule("P23.output", "output format and time zone are those of the configuration", 2)

	c := newCells(p, r, "P23.text")
	if c == nil {
		return
	}

	if !need(r, "P23.text", "formats of keys in the second pass", c.timeFmt != nil) ||
		!need(r, "P23.output", "output format in the second pass", c.outFmt != nil) ||
		!need(r, "P23.output", "output time zone in the second pass", c.outTZ != nil) {
		return
	}

	c.rawOut = p23Formats(p, r, c)

	for _, name := range cellKinds {
		rule := "P23.other"
		if name == "FnString" {
			rule = "P23.text"
		}

		fns := c.callbacks(name)
		need(r, rule, name+" of the second pass", len(fns) > 0)

		for _, fn := range fns {
			o := newOnce(r, rule, name+" in "+FnName(rootFn(fn)), p.Pos(fn.Pos()))
			seen := map[string]bool{}

			x := c.explore(fn, name, o, func(put *Put) {
				st := put.St

				if put.What == "" {
					return
				}

				if name != "FnString" {
					if put.What != "new" && put.What != "joined" {
						o.fail(st, put.What)
					}

					return
				}

				seen[put.Text] = true

				switch {
				case put.Text == "":
					o.fail(st, "text of a value is not followed")
				case put.Text == "raw" && put.Format == "set":
					o.fail(st, "text with a configured format is not converted")
				case put.Text == "raw" && put.Format == "?":
					o.fail(st, "text is not converted and its format is not checked")
				case put.Text == "raw":
				case put.Text != "time" && put.Text != "failed":
					o.fail(st, put.Text)
				case put.Format != "set":
					o.fail(st, "text without a configured format is converted")
				}
			})

			if name == "FnString" && (!seen["raw"] || !seen["time"] || !seen["failed"]) {
				o.fail(nil, "text is never converted or never kept")
			}

			o.done(x)
		}
	}

	p23Output(p, r, c)
}

// p23Formats checks the table of formats of keys, it tells that formats that leave values alone are not recorded.
func p23Formats(p *Prog, r *Report, c *Cells) (rawOut bool) {
	pt := p.Field("Config", "ParseTime")
	orig := p.Field("flKey", "original")

	if !need(r, "P23.formats", "Config.ParseTime", pt != nil) || !need(r, "P23.formats", "flKey.original", orig != nil) {
		return false
	}

	reads := func(v ssa.Value) bool {
		l, ok := v.(*ssa.Lookup)

		return ok && loadedField(l.X) == pt
	}

	var fns []*ssa.Function

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib {
			continue
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || !reads(v) {
					continue
				}

				// Only where the table is filled.
				if p.reachesFn(fn, func(g *ssa.Function) bool {
					for _, b := range g.Blocks {
						for _, ins := range b.Instrs {
							if mu, ok := ins.(*ssa.MapUpdate); ok && shortType(mu.Map.Type()) == "map[uint64]string" {
								return true
							}
						}
					}

					return false
				}) && (len(fns) == 0 || fns[len(fns)-1] != fn) {
					fns = append(fns, fn)
				}
			}
		}
	}

	rawOut = true

	for _, fn := range fns {
		o := newOnce(r, "P23.formats", FnName(fn), p.Pos(fn.Pos()))
		w := &Rows{P: p}
		w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
			if shortType(ins.Map.Type()) != "map[uint64]string" || !strings.Contains(val.ID, "."+pt.Name()+"«") {
				return
			}

			elem, ok := strings.CutSuffix(val.ID, "."+orig.Name()+"»")
			if !ok {
				o.fail(st, "format is not the format of the key: "+val.ID)

				return
			}

			// Key of the table and the key come from the same call.
			_, src, _ := cutLast(elem, "«s@")
			if key.K != KSym || rangeOf(fn, key.ID) == "" || rangeOf(fn, key.ID) != rangeOf(fn, src) {
				o.fail(st, "format is given to another key")
			}

			st.Set("upd", "1")

			if typeIs(st, val.ID, "RAW") != 2 {
				rawOut = false
			}
		}

		x := NewExplorer(p, w.Client(&Client{
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				for id, f := range st.Facts {
					if strings.HasPrefix(id, "@has ") && strings.Contains(id, "."+pt.Name()+"«") && f.Eq != nil && f.Eq.ExactString() == "true" && st.Get("upd") == "" && typeIs(st, "@"+strings.TrimPrefix(id, "@has "), "RAW") != 1 {
						o.fail(st, "key with a format is not recorded")
					}

					if strings.HasPrefix(id, "@has ") && strings.Contains(id, "."+pt.Name()+"«") {
						st.Set("seen", "1")
					}
				}

				if how == "return" && st.Get("seen") == "" && st.Get("upd") == "" {
					o.fail(st, "format of a key is not looked up")
				}
			},
		}))
		x.Run(x.Initial(fn))
		o.done(x)
	}

	return need(r, "P23.formats", "function that finds formats of keys", len(fns) > 0) && rawOut
}

// rangeOf names the owner of a parameter.
func rangeOf(fn *ssa.Function, id string) string {
	id = strings.TrimPrefix(strings.TrimPrefix(id, "@"), "P:")

	for _, prm := range fn.Params {
		if id == prm.Name() {
			return FnName(fn)
		}
	}

	return ""
}

// p23Output checks settings of the second pass.
func p23Output(p *Prog, r *Report, c *Cells) {
	of, tz := p.Field("Config", "OutputTimeFormat"), p.Field("Config", "OutputTimezone")
	if !need(r, "P23.output", "Config.OutputTimeFormat", of != nil) || !need(r, "P23.output", "Config.OutputTimezone", tz != nil) {
		return
	}

	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || !p.reachesFn(fn, func(g *ssa.Function) bool { return storesField(g, c.outFmt) }) ||
			!p.reachesFn(fn, func(g *ssa.Function) bool { return storesField(g, c.timeFmt) }) {
			continue
		}

		inner := true
		for _, g := range p.Funcs {
			if g != fn && g.Pkg == p.Lib && g.Parent() == nil && p.reachesFn(fn, func(h *ssa.Function) bool { return h == g }) &&
				p.reachesFn(g, func(h *ssa.Function) bool { return storesField(h, c.outFmt) }) &&
				p.reachesFn(g, func(h *ssa.Function) bool { return storesField(h, c.timeFmt) }) {
				inner = false
			}
		}

		if !inner {
			continue
		}

		n++
		of1 := newOnce(r, "P23.output", "format in "+FnName(fn), p.Pos(fn.Pos()))
		tz1 := newOnce(r, "P23.output", "time zone in "+FnName(fn), p.Pos(fn.Pos()))
		w := &Rows{P: p}
		w.Field = func(x *Explorer, st *State, ins *ssa.Store, f *types.Var, base, val AV) {
			switch f {
			case c.outFmt:
				st.Mem["of"] = val
				st.Set("of", "1")
			case c.outTZ:
				st.Mem["tz"] = val
				st.Set("tz", "1")
			}
		}

		x := NewExplorer(p, w.Client(&Client{
			NoInline: func(g *ssa.Function) bool {
				return !p.reachesFn(g, func(h *ssa.Function) bool {
					return storesField(h, c.outFmt) || storesField(h, c.outTZ) || readsVar(h, of) || readsVar(h, tz)
				})
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if CallName(ci.Common()) != "time.LoadLocation" {
					return nil
				}

				e := errSym(ci, x, st)
				if e.K != KTuple {
					return nil
				}

				st.Set("lerr", e.Bind[1].ID)

				return &CallRes{Val: tupleOf([]AV{{K: KSym, ID: "loc(" + args[0].Key() + ")"}, e.Bind[1]})}
			},
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				if how != "return" {
					return
				}

				v := st.Mem["of"]
				isOf := func(id string) bool { return strings.HasSuffix(id, "."+of.Name()) }
				empty := 0

				for id, f := range st.Facts {
					if !isOf(id) {
						continue
					}

					empty = typeIs(st, id, "")
					_ = f
				}

				switch s, isC := constStr(v); {
				case st.Get("of") == "":
					of1.fail(st, "output format is not set")
				case isC && s == "2006-01-02T15:04:05Z07:00":
					if empty != 1 {
						of1.fail(st, "configured output format is replaced")
					}
				case isC:
					of1.fail(st, "default output format is not RFC3339")
				case !isOf(v.ID):
					of1.fail(st, "output format is not the configured one: "+v.Key())
				case empty != 2:
					of1.fail(st, "there is no default for the output format")
				}

				t := st.Mem["tz"]
				set := 0

				for id := range st.Facts {
					if strings.HasSuffix(id, "."+tz.Name()) {
						set = typeIs(st, id, "")
					}
				}

				switch {
				case st.Get("tz") == "" || t.K == KNil:
					if set != 1 && (st.Get("lerr") == "" || st.Facts[st.Get("lerr")].Nil == isNil) {
						tz1.fail(st, "output time zone is not set")
					}
				case !strings.HasPrefix(t.ID, "loc(s@") || !strings.HasSuffix(t.ID, "."+tz.Name()+")"):
					tz1.fail(st, "output time zone is not the configured one")
				case set == 1:
					tz1.fail(st, "time zone is set without configuration")
				}
			},
		}))
		x.Run(x.Initial(fn))
		of1.done(x)
		tz1.done(x)
	}

	need(r, "P23.output", "function that prepares the second pass", n > 0)
}
