package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cells explores callbacks that put values of a line to columns.
type Cells struct {
	P       *Prog
	values  *types.Var // values of a row
	concat  *types.Var
	limit   *types.Var
	outTZ   *types.Var
	outFmt  *types.Var
	timeFmt *types.Var
	dst     *types.Var
	rawOut  bool // there are no formats that leave values alone
}

// Put is an end of a callback.
type Put struct {
	St     *State
	Found  int    // column of the value is found (1), not found (2)
	Class  string // value that was in the column: absent, null, other, some (other or null), "" is unknown
	Concat int    // nilness of the delimiter
	What   string // "" (not changed), new, joined, or description of a wrong value
	Text   string // raw, time, failed, or description of a wrong text
	Format string // "" (no format), raw (RAW), set, or ? when not decided
	Cut    string // cut, whole
	Long   string // what is known about length of the text
}

func newCells(p *Prog, r *Report, rule string) *Cells {
	c := &Cells{P: p, values: p.Field("lineBuf", "values"), concat: p.Field("Config", "ConcatDelimiter"), dst: p.Field("Value", "Dst")}

	if !need(r, rule, "lineBuf.values", c.values != nil) || !need(r, rule, "Config.ConcatDelimiter", c.concat != nil) {
		return nil
	}

	// Settings of the second pass.
	t := p.Lib.Type("writeIterator")
	if !need(r, rule, "writeIterator", t != nil) {
		return nil
	}

	s := t.Type().Underlying().(*types.Struct)
	for i := range s.NumFields() {
		f := s.Field(i)

		for _, st := range p.fieldSt[f] {
			for _, v := range p.Origins(st.Val) {
				switch ld := loadedField(v); {
				case ld != nil && ld == p.Field("Flags", "FieldLimit"):
					c.limit = f
				case ld != nil && ld == p.Field("Config", "OutputTimeFormat"):
					c.outFmt = f
				}

				if e, ok := v.(*ssa.Extract); ok {
					if call, ok := e.Tuple.(*ssa.Call); ok && CallName(&call.Call) == "time.LoadLocation" {
						c.outTZ = f
					}
				}

				if mm, ok := v.(*ssa.MakeMap); ok && shortType(mm.Type()) == "map[uint64]string" && c.madeOf(mm, p.Field("Config", "ParseTime")) {
					c.timeFmt = f
				}
			}
		}
	}

	return c
}

// madeOf tells that values of the map are values of a map in the field.
func (c *Cells) madeOf(mm *ssa.MakeMap, f *types.Var) bool {
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok || shortType(mu.Map.Type()) != shortType(mm.Type()) {
					continue
				}

				same := false
				for _, v := range c.P.Origins(mu.Map) {
					same = same || v == mm
				}

				if !same {
					continue
				}

				for _, v := range c.P.Origins(mu.Value) {
					if e, ok := v.(*ssa.Extract); ok {
						v = e.Tuple
					}

					if l, ok := v.(*ssa.Lookup); ok && loadedField(l.X) == f {
						return true
					}
				}
			}
		}
	}

	return false
}

// stores tells that a function puts a value to a row.
func (c *Cells) stores(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ia, ok := ins.(*ssa.IndexAddr); ok && loadedField(ia.X) == c.values {
				return true
			}
		}
	}

	return false
}

// callbacks of the second pass.
func (c *Cells) callbacks(name string) []*ssa.Function {
	var r []*ssa.Function

	for _, fn := range c.P.fieldFns[c.P.Field("FastWalker", name)] {
		fn = boundTarget(fn)
		if c.P.reachesFn(fn, c.stores) {
			r = append(r, fn)
		}
	}

	return r
}

func (c *Cells) isField(id string, f *types.Var) bool {
	return f != nil && strings.HasSuffix(id, "."+f.Name())
}

// param finds the last parameter of a type.
func lastParam(fn *ssa.Function, is func(t types.Type) bool) string {
	for i := len(fn.Params) - 1; i >= 0; i-- {
		if is(fn.Params[i].Type()) {
			return "P:" + fn.Params[i].Name()
		}
	}

	return ""
}

// classify a value that is described by its fields.
func (c *Cells) classify(x *Explorer, st *State, fn *ssa.Function, name string, field func(f string) AV) string {
	t, isC := constStr(field("Type"))
	if !isC {
		return "type of a value is not known"
	}

	switch name {
	case "FnString":
		if t != "string" {
			return "text is put as " + t
		}

		st.Set("text", c.text(x, st, lastParam(fn, isBytes), field("String")))
	case "FnNumber":
		if t != "float" && t != "int" {
			return "number is put as " + t
		}

		if s := textKeyOf(field("RawNumber")); s != "s"+lastParam(fn, isBytes)+"+" {
			return "number is put with another literal"
		}
	case "FnBool":
		v := field("Bool")
		prm := AV{K: KSym, ID: lastParam(fn, isBool)}

		if b, ok := x.Truth(st, v); ok {
			if pb, known := x.Truth(st, prm); !known || pb != b {
				return "bool is put with another value"
			}
		} else if v.ID != prm.ID {
			return "bool is put with another value"
		}

		if t != "bool" {
			return "bool is put as " + t
		}
	case "FnNull":
		if t != "null" {
			return "null is put as " + t
		}
	}

	return "new"
}

// text tells what the text of a value is.
func (c *Cells) text(x *Explorer, st *State, prm string, v AV) string {
	raw := func(a AV) bool {
		k := textKeyOf(asText(x, st, a))
		if k == "s"+prm+"+" {
			st.Set("cut", "whole")

			return true
		}

		// Beginning of the text.
		if t := asText(x, st, a); len(t.Bind) == 3 && t.Bind[0].ID == prm && t.Bind[1].K == KTop {
			hi := t.Bind[2]

			switch {
			case c.isField(hi.ID, c.limit):
				st.Set("cut", "cut")
			case strings.HasPrefix(hi.ID, "min(len(s"+prm+"),") && c.limit != nil && strings.HasSuffix(hi.ID, "."+c.limit.Name()+")"):
				st.Set("cut", "min")
			default:
				st.Set("cut", "other")
			}

			return true
		}

		return false
	}

	if raw(v) {
		return "raw"
	}

	if args, ok := strings.CutPrefix(v.ID, "tf("); ok {
		l := strings.Split(strings.TrimSuffix(args, ")"), "|")
		if len(l) != 4 {
			return "time is not followed"
		}

		tf := st.Get("tf")
		text := st.Mem["timetext"]

		switch {
		case tf == "" || l[0] != "s@"+tf:
			return "time is parsed with another format than configured"
		case !raw(text):
			return "parsed time is not the value"
		case l[3] == "" || c.outFmt == nil || !strings.HasSuffix(l[3], "."+c.outFmt.Name()):
			return "time is not printed in the output format"
		case st.Get("ten") != "ok":
			return "time that is not parsed is printed"
		case l[2] == "-" || l[2] == "@G:UTC":
			if c.outTZ != nil && st.Get("tz") != "nil" {
				return "output time zone is ignored"
			}
		case c.outTZ == nil || !strings.HasSuffix(l[2], "."+c.outTZ.Name()) || st.Get("tz") != "set":
			return "time is parsed in another time zone"
		}

		return "time"
	}

	if st.Get("ten") == "failed" {
		has, more := false, false

		for _, e := range flatText(v) {
			if raw(e) {
				has = true
			} else {
				more = true
			}
		}

		if has && more {
			return "failed"
		}

		return "text of a failure does not have the original value"
	}

	return "value is changed: " + textKeyOf(v)
}

// explore runs a callback, end gets all of its ends.
func (c *Cells) explore(fn *ssa.Function, name string, o *once, end func(put *Put)) *Explorer {
	row := "." + c.values.Name() + "«"
	prm := lastParam(fn, isBytes)
	lim := &Linear{Class: func(id string) string {
		switch {
		case id == "len(s"+prm+")":
			return "len"
		case c.isField(id, c.limit):
			return "lim"
		}

		return ""
	}}
	w := &Rows{P: c.P}

	note := func(x *Explorer, st *State, cell string) {
		// State of the column before it is changed.
		if st.Get("class") == "" {
			st.Set("class", c.class(st, cell))
		}
	}

	cl := w.Client(&Client{
		MaxStates: 200000,
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			// Only one key is read.
			if ins == nil {
				return AV{}, false
			}

			if b, ok := ins.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 && fieldVar(ins.X) != nil && c.P.Field("writeIterator", fieldVar(ins.X).Name()) == fieldVar(ins.X) {
				return mkInt(0), true
			}

			return AV{}, false
		},
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
			switch i := ins.(type) {
			case *ssa.Lookup:
				m, k := x.Eval(st, i.X), x.Eval(st, i.Index)
				if m.ID == "" || k.K == KTop {
					return AV{}, false
				}

				switch f := loadedField(i.X); {
				case shortType(i.X.Type()) == "map[uint64]int":
					st.Set("idx", elemID(m, k))

					if !i.CommaOk {
						o.fail(st, "missing column is not distinguished")
					}
				case f != nil && f == c.timeFmt:
					st.Set("tf", elemID(m, k))

					if !i.CommaOk {
						st.Set("tfz", "1")
					}
				}
			case *ssa.Call:
				if CallName(&i.Call) == "builtin:min" && len(i.Call.Args) == 2 {
					a, b := x.Eval(st, i.Call.Args[0]), x.Eval(st, i.Call.Args[1])
					if c.isField(a.ID, c.limit) {
						a, b = b, a
					}

					if c.isField(b.ID, c.limit) && strings.HasPrefix(a.ID, "len(") {
						return AV{K: KSym, ID: "min(" + a.ID + "," + b.ID + ")", T: i.Type()}, true
					}
				}
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			switch cn := CallName(ci.Common()); cn {
			case "time.Parse", "time.ParseInLocation":
				loc := "-"
				if cn == "time.ParseInLocation" {
					loc = args[2].ID
				}

				tz := ""
				for id, f := range st.Facts {
					if c.isField(id, c.outTZ) {
						tz = map[int]string{isNil: "nil", notNil: "set"}[f.Nil]
					}
				}

				st.Set("tz", tz)

				st.Mem["timetext"] = args[1]
				e := errSym(ci, x, st)
				err := e

				if e.K == KTuple {
					err = e.Bind[len(e.Bind)-1]
				}

				st.Set("terr", err.ID)

				return &CallRes{Val: tupleOf([]AV{{K: KSym, ID: "time(" + args[0].Key() + "|t|" + loc, T: nil}, err})}
			case "(time.Time).Format":
				if l, ok := strings.CutPrefix(args[0].ID, "time("); ok {
					return &CallRes{Val: textSym(st, "tf("+l+"|"+args[1].ID+")", 0)}
				}
			}

			if callee != nil && recvIs(callee, "Value") && callee.Name() == "Format" && len(args) == 1 {
				if strings.Contains(args[0].ID, row) {
					return &CallRes{Val: textSym(st, "old", 0)}
				}

				t := callee.Params[0].Type()
				what := c.classify(x, st, fn, name, func(f string) AV {
					return x.fieldOf(st, args[0], f, fieldType(t, f))
				})

				if what != "new" {
					st.Set("fmt", what)
				}

				return &CallRes{Val: textSym(st, what, 0)}
			}

			// Hashes and extraction are not decided here.
			if callee != nil && recvIs(callee, "hasher") {
				if v, ok := ci.(ssa.Value); ok {
					return &CallRes{Val: x.resultSyms(st, v, ci.Common().Signature())}
				}
			}

			return nil
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			s, ok := ins.(*ssa.Store)
			if !ok {
				return
			}

			id := x.Eval(st, s.Addr).ID

			i := strings.Index(id, row)
			if i < 0 {
				return
			}

			cell := id[:i+len(row)]
			rest := id[i+len(row):]

			if j := strings.LastIndex(rest, "»"); j >= 0 {
				cell += rest[:j] + "»"
			}

			if st.Get("cell") != "" && st.Get("cell") != cell {
				o.fail(st, "value is put to more than one column")
			}

			if idx := st.Get("idx"); idx == "" || !strings.HasSuffix(cell, row+"s@"+idx+"»") {
				o.fail(st, "value is not put to its column")
			}

			note(x, st, cell)
			st.Set("cell", cell)
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			lim.Edge(x, st, ins, taken)

			// Outcome of parsing.
			if e := st.Get("terr"); e != "" && st.Facts[e].Nil != nilUnknown {
				st.Set("ten", map[int]string{isNil: "ok", notNil: "failed"}[st.Facts[e].Nil])
			}
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" {
				return
			}

			put := &Put{St: st}

			if f := st.Facts["@has "+st.Get("idx")]; f.Eq != nil {
				put.Found = 2
				if f.Eq.ExactString() == "true" {
					put.Found = 1
				}
			}

			for id, f := range st.Facts {
				if c.isField(id, c.concat) && f.Nil != nilUnknown {
					put.Concat = f.Nil
				}
			}

			cell := st.Get("cell")
			put.Class = st.Get("class")

			if cell == "" {
				for id := range st.Facts {
					if i := strings.Index(id, row); i >= 0 && strings.HasSuffix(id, "».Type") {
						put.Class = c.class(st, strings.TrimSuffix(strings.TrimPrefix(id, "@"), ".Type"))
					}
				}
			}

			if cell != "" {
				t := c.P.Lib.Type("Value").Type()
				field := func(f string) AV { return x.loadID(st, cell+"."+f, fieldType(t, f), nil) }
				s := flatText(field("String"))

				ty, _ := constStr(field("Type"))

				switch {
				case len(s) == 3 && s[0].ID == "old" && c.isField(s[1].ID, c.concat) && ty == "string":
					put.What = "joined"
					if s[2].ID != "new" {
						put.What = "next value is lost: " + s[2].Key()
					}
				default:
					put.What = c.classify(x, st, fn, name, field)
				}
			}

			put.Text = st.Get("text")
			put.Cut = st.Get("cut")
			put.Format = "?"

			tf := st.Get("tf")
			has, val := st.Facts["@has "+tf], st.Facts["@"+tf]

			eq := func(f Fact, s string) bool { return f.Eq != nil && f.Eq.ExactString() == s }
			ne := func(f Fact, s string) bool {
				for _, n := range f.Ne {
					if n == s {
						return true
					}
				}

				return f.Eq != nil && f.Eq.ExactString() != s
			}

			switch {
			case eq(has, "false") || eq(val, `""`):
				put.Format = ""
			case eq(val, `"RAW"`):
				put.Format = "raw"
			case (eq(has, "true") || ne(val, `""`)) && (ne(val, `"RAW"`) || c.rawOut):
				put.Format = "set"
			}

			if name == "FnString" && c.limit != nil {
				if lim.Holds(st, 0, "lim", "-len") {
					put.Long += "long "
				}

				if lim.Holds(st, 0, "len", "-lim") {
					put.Long += "short "
				}

				if lim.Holds(st, 0, "lim") {
					put.Long += "unlimited "
				}

				if lim.Not(st, 0, "lim") {
					put.Long += "limited "
				}
			}

			end(put)
		},
	})

	x := NewExplorer(c.P, cl)
	x.Run(x.Initial(fn))

	return x
}

func (c *Cells) class(st *State, cell string) string {
	id := "@" + cell + ".Type"

	switch {
	case typeIs(st, id, "") == 1:
		return "absent"
	case typeIs(st, id, "null") == 1:
		return "null"
	case typeIs(st, id, "") == 2 && typeIs(st, id, "null") == 2:
		return "other"
	case typeIs(st, id, "") == 2:
		return "some"
	}

	return "unknown"
}

func fieldType(t types.Type, name string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := range s.NumFields() {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}

	return types.Typ[types.String]
}
