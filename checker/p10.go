package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P10"] = p10 }

// splitFn is a function that splits columns or values to parts of a table.
type splitFn struct {
	fn     *ssa.Function
	writer string
	ddl    bool // CREATE statements
	list   *ssa.Parameter
	name   *ssa.Parameter
	max    *types.Var
}

func p10(p *Prog, r *Report) {
	r.Rule("P10.max", "a part has one column less than the maximum, for the row id", 2)
	r.Rule("P10.split", "a new part is started exactly at multiples of the maximum number of columns, every column or value is in one part, every part has the row id", 4)
	r.Rule("P10.names", "parts have the same names for columns and for values", 2)
	r.Rule("P10.flush", "buffered rows of every part are written after its own header", 2)

	n := 0

	for _, d := range dialects {
		max := p.p10Max(r, d.writer)
		if max == nil {
			continue
		}

		var fns []*splitFn

		for _, fn := range p.Funcs {
			if fn.Pkg != p.Lib || fn.Parent() != nil || !recvIs(fn, d.writer) || !takes(fn.Signature, "string") || !returnsError(fn.Signature) {
				continue
			}

			f := &splitFn{fn: fn, writer: d.writer, max: max}

			for _, prm := range fn.Params[1:] {
				switch t := shortType(prm.Type()); {
				case t == "[]flKey":
					f.list = prm
					f.ddl = true
				case t == "[]Value" || t == "[]string":
					f.list = prm
				case isString(prm.Type()):
					f.name = prm
				}
			}

			// Functions that take a part are parts of functions that take the list.
			if f.list == nil || f.name == nil || !p.p10Reads(fn, max) || !f.ddl && !takes(fn.Signature, "int64") {
				continue
			}

			fns = append(fns, f)
		}

		fns = slices.DeleteFunc(fns, func(f *splitFn) bool {
			return !readsVar(f.fn, max) && slices.ContainsFunc(fns, func(g *splitFn) bool {
				return f != g && p.reachesFn(f.fn, func(h *ssa.Function) bool { return h == g.fn })
			})
		})

		kinds := map[bool]bool{}

		for _, f := range fns {
			n++
			kinds[f.ddl] = true
			p.p10Split(r, f)
		}

		need(r, "P10.split", d.writer+": functions that split columns and values", kinds[true] && kinds[false])

		// Names.
		o := newOnce(r, "P10.names", d.name, "-")

		for _, f := range fns {
			p.p10Names(f, o)
		}

		o.doneStatic()
	}

	p.p10Flush(r)
}

func (o *once) doneStatic() {
	if !o.bad {
		o.r.OK(o.rule, o.construct, o.pos)
	}
}

// p10Max finds the field with the maximum number of columns.
func (p *Prog) p10Max(r *Report, writer string) *types.Var {
	flag := p.Field("Flags", "SQLMaxCols")
	if !need(r, "P10.max", "Flags.SQLMaxCols", flag != nil) {
		return nil
	}

	var max *types.Var

	for f, stores := range p.fieldSt {
		for _, s := range stores {
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || typeName(deref(fa.X.Type())) != writer || !isInteger(f.Type()) {
				continue
			}

			for _, v := range p.Origins(s.Val) {
				off, base := constOffset(v)
				if ld := loadedField(base); ld != flag {
					// The field is maybe read through a copy.
					continue
				}

				max = f

				if off == -1 {
					r.OK("P10.max", writer+"."+f.Name(), p.Pos(s.Pos()))
				} else {
					r.Fail("P10.max", writer+"."+f.Name(), p.Pos(s.Pos()), "number of columns of a part is not one less than SQLMaxCols", nil)
				}
			}
		}
	}

	need(r, "P10.max", writer+": field with the maximum number of columns", max != nil)

	return max
}

func (p *Prog) p10Reads(fn *ssa.Function, v *types.Var) bool {
	return p.reachesFn(fn, func(f *ssa.Function) bool { return readsVar(f, v) })
}

func isQuote(ci ssa.CallInstruction) bool {
	v := ci.Value()

	return strings.HasSuffix(CallName(ci.Common()), "sqluct.QuoteANSI") || v != nil && doublesQuotes(v)
}

// p10Split checks one function.
//
// Parts are: begin (name), id, items, close. In an iteration, a part is closed and another one begins if and only if position
// of the item is a positive multiple of the maximum.
func (p *Prog) p10Split(r *Report, f *splitFn) {
	fn := f.fn
	o := newOnce(r, "P10.split", FnName(fn), p.Pos(fn.Pos()))
	list := AV{K: KSym, ID: "P:" + f.list.Name(), T: f.list.Type()}
	name := "P:" + f.name.Name()
	seq := ""

	if s := paramOf(fn, "int64"); s != nil && !f.ddl {
		seq = "P:" + s.Name()
	}

	maxID := "P:" + fn.Params[0].Name() + "." + f.max.Name()
	isMax := func(a AV) bool { return bareID(a.ID) == maxID }

	const bit = labRow

	fe := &ForEach{Name: "items", Bit: bit, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
	w := &Rows{P: p, Each: []*ForEach{fe}}
	incs := map[ssa.Instruction]bool{}

	for _, site := range p.p10Sites(fn) {
		for i := range site.incs {
			incs[i] = true
		}
	}

	parts, items := 0, 0

	// boundary: 1 when the position is a positive multiple of the maximum, 2 when it is not, 0 when unknown.
	boundary := func(st *State) int {
		if st.Get("pos") == "first" {
			return 2
		}

		if st.Get("full") != "" {
			if st.Get("full") == "1" {
				return 1
			}

			return 2
		}

		return 0
	}

	finish := func(st *State) {
		if fe.Status(st) != "p" && fe.Status(st) != "k" {
			return
		}

		b := boundary(st)

		switch closed := st.Get("closed") != ""; {
		case closed && b != 1:
			o.fail(st, "part is finished before it has the maximum number of columns")
		case !closed && b == 1:
			o.fail(st, "part has more columns than the maximum")
		case !closed && b == 0:
			o.fail(st, "part can have more columns than the maximum")
		}

		if closed := st.Get("closed") != ""; len(incs) > 0 && closed != (st.Get("inc") == "1") {
			o.fail(st, "number of the part is not increased once per part")
		}

		if st.Get("ph") != "item" {
			o.fail(st, "item is not written")
		}

		if k := st.Get("kind"); k == "?" && st.Get("bound") != "1" || k == "NULL" && st.Get("bound") != "" {
			o.fail(st, "values do not match placeholders")
		}

		if st.Get("item") == st.Get("nb") {
			fe.Hit(st)
		} else if st.Get("item") != "" {
			o.fail(st, "item is not written exactly once")
		}
	}

	begin := func(st *State, n AV) {
		cls := ""

		switch l := flatText(n); {
		case len(l) == 1 && l[0].ID == name:
			cls = "first"
		case len(l) == 3 && l[0].ID == name && strings.HasPrefix(l[2].ID, "itoa("):
			if c, ok := constStr(l[1]); ok && c != "" {
				cls = "next"
			}
		}

		if cls == "" {
			o.fail(st, "part has an unexpected name: "+textKeyOf(n))

			return
		}

		if (cls == "first") != (fe.Status(st) == "" && st.Get("rem") == "") {
			o.fail(st, "part has the name of another part")
		}

		switch st.Get("ph") {
		case "":
			parts++

			st.Set("ph", "open")
			st.Set("name", cls)
			st.Set("nb", "1")
			st.Set("ids", "")
		case "open":
			// Both CREATE and COPY statements are started.
			if st.Get("name") != cls {
				o.fail(st, "statements of a part have different names")
			}

			st.Set("nb", st.Get("nb")+"1")
		default:
			o.fail(st, "part is started before the previous one is finished")
		}
	}
	id := func(st *State) { st.Set("ids", st.Get("ids")+"1") }

	// started checks that row id is the first in each statement of the part.
	started := func(st *State) bool {
		if st.Get("ph") != "open" {
			return false
		}

		if st.Get("nb0") == "" {
			st.Set("nb0", st.Get("nb"))
		}

		return st.Get("nb") == st.Get("nb0") && st.Get("ids") == st.Get("nb")
	}
	item := func(st *State) {
		if fe.Status(st) == "" {
			o.fail(st, "item is written out of order")
		}

		if st.Get("ph") != "item" && !started(st) {
			o.fail(st, "part is not started with the row id")
		}

		if st.Get("closed") == "" && boundary(st) == 1 {
			o.fail(st, "item is written to the part that is full")
		}

		st.Set("ph", "item")
		st.Set("item", st.Get("item")+"1")

		items++
	}
	closePart := func(st *State) {
		switch ph := st.Get("ph"); {
		case ph == "":
			o.fail(st, "part is finished more than once")
		case ph == "open" && !started(st):
			o.fail(st, "part is finished without the row id")
		}

		if s := fe.Status(st); s == "p" || s == "k" {
			if st.Get("item") != "" {
				o.fail(st, "part is finished after the item that does not fit is written")
			}

			st.Set("closed", st.Get("closed")+"1")

			if st.Get("closed") != "1" {
				o.fail(st, "part is finished more than once")
			}
		} else {
			st.Set("end", "1")
		}

		st.Set("ph", "")
		st.Set("reg", "")
	}

	w.Iter = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
		if st.Get("pos") == "" {
			st.Set("pos", "first")
		} else {
			st.Set("pos", "next")
		}

		for _, k := range []string{"closed", "item", "inc", "full", "bound", "kind"} {
			st.Set(k, "")
		}

		st.Set("idx", "")

		c := x.Eval(st, ins.Cond)
		for c.K == KNot {
			c = *c.X
		}

		if c.K == KCmp {
			for _, a := range []*AV{c.X, c.Y} {
				if a.K == KSym && !strings.HasPrefix(a.ID, "len(") {
					st.Set("idx", a.ID)
				}
			}
		}
	}

	// addItems: a list of values is added to a row of the part.
	addItems := func(st *State, l AV, x *Explorer) {
		if !started(st) {
			o.fail(st, "part is not started with the row id")
		}

		items++

		st.Set("ph", "item")

		rem := st.Get("rem")
		cmp := st.Get("cmp")

		switch {
		case l.ID == rem:
			if cmp != rem+" le" {
				o.fail(st, "part can have more columns than the maximum")
			}

			st.Set("rem", "done")
		case strings.HasPrefix(l.ID, "sl(") && len(l.Bind) == 3 && l.Bind[0].ID == rem && isMax(l.Bind[2]) && l.Bind[1].K == KTop:
			if cmp != rem+" gt" {
				o.fail(st, "part is cut when it is not longer than the maximum")
			}

			st.Set("cut", rem)
		default:
			o.fail(st, "other values are written: "+l.Key())
		}
	}

	w.Concat = func(x *Explorer, st *State, ins *ssa.Call, base, tail AV) {
		if shortType(ins.Type()) == "[]string" && !f.ddl {
			addItems(st, tail, x)
		}
	}
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		if len(el) != 1 || f.ddl {
			return
		}

		e := el[0]
		if s, ok := constStr(e); ok && (s == "NULL" || s == "?") {
			item(st)
			st.Set("kind", s)

			return
		}

		if strings.Contains(e.ID, "«") && shortType(ins.Type()) == "[]string" {
			item(st)
		}

		if _, isAny := ins.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Interface); isAny && strings.Contains(e.ID, list.ID+"«") {
			if base.ID != st.Get("args") && !(isEmptyList(base) && st.Get("args") == "") {
				o.fail(st, "value is added to values of another part")
			}

			st.Set("args", x.id(st.Top(), ins)+"~a")
			st.Set("bound", st.Get("bound")+"1")
		}
	}
	w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		if !strings.Contains(shortType(ins.Map.Type()), "csvCopier") || !f.ddl {
			return
		}

		// The key is the name of the part that is finished.
		cls := "first"
		if textKeyOf(key) != textKeyOf(AV{K: KSym, ID: name}) {
			cls = "next"
		}

		cur := st.Get("name")
		if cur == "" || cls != cur {
			o.fail(st, "rows of the part are registered under the name of another part")
		}

		if st.Get("reg") != "" {
			o.fail(st, "part is registered more than once")
		}

		st.Set("reg", "1")
	}
	w.Get = func(x *Explorer, st *State, ins ssa.Instruction, m, key AV) (AV, bool) {
		lk, ok := ins.(*ssa.Lookup)
		if !ok || f.ddl || !strings.Contains(shortType(lk.X.Type()), "csvCopier") {
			return AV{}, false
		}

		begin(st, key)

		return AV{K: KSym, ID: "part(" + st.Get("name") + ")", T: lk.X.Type().Underlying().(*types.Map).Elem()}, true
	}

	// text is added to a statement.
	text := func(st *State, v AV) {
		l := flatText(v)
		if len(l) == 0 {
			return
		}

		last, _ := constStr(l[len(l)-1])

		if f.ddl && strings.Contains(last, "_seq_id") {
			id(st)
		}

		if !f.ddl && fe.Status(st) != "" && (strings.Contains(last, "?") || strings.Contains(last, "NULL")) {
			if strings.Contains(last, "?") == strings.Contains(last, "NULL") {
				o.fail(st, "placeholder is not clear: "+last)
			}

			item(st)

			st.Set("kind", strings.TrimRight(last, ", "))
		}
	}

	c := w.Client(&Client{
		MaxStates: 100000,
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			// Other counters are not followed.
			if ins == nil {
				return AV{}, false
			}

			if v := fieldVar(ins.X); v != nil && v != f.max && isInteger(v.Type()) {
				return AV{}, true
			}

			return AV{}, false
		},
		If: func(x *Explorer, st *State, ins *ssa.If, c AV) (bool, bool) {
			if full, ok := counterFull(ins, true, f.max); ok && st.Get("pos") == "first" {
				return !full, true
			}

			neg := false
			for c.K == KNot {
				c = *c.X
				neg = !neg
			}

			if c.K != KCmp || st.Get("idx") == "" || st.Get("pos") == "" {
				return false, false
			}

			op, a, b := c.Op, *c.X, *c.Y
			if a.K == KConst {
				op, a, b = mirror(op), b, a
			}

			n, ok := constInt(b)
			if !ok {
				return false, false
			}

			first := st.Get("pos") == "first"

			if strings.HasPrefix(a.ID, "rem(") && first {
				a.ID = st.Get("idx")
			}

			if a.ID != st.Get("idx") {
				return false, false
			}

			eval := func(i int64) bool {
				switch op {
				case token.EQL:
					return i == n
				case token.NEQ:
					return i != n
				case token.LSS:
					return i < n
				case token.LEQ:
					return i <= n
				case token.GTR:
					return i > n
				case token.GEQ:
					return i >= n
				}

				return false
			}

			if first {
				return eval(0) != neg, true
			}

			v := eval(1)
			for i := int64(2); i < 6; i++ {
				if eval(i) != v {
					return false, false
				}
			}

			return v != neg, true
		},
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
			if sl, ok := ins.(*ssa.Slice); ok && sl.High == nil && sl.Low != nil && sl.Max == nil {
				// The rest of values.
				if v := x.Eval(st, sl.X); isMax(x.Eval(st, sl.Low)) && (v.ID == list.ID || strings.HasPrefix(v.ID, "rest")) {
					rest := "rest0"
					if v.ID == rest {
						rest = "rest1"
					}

					delete(st.Facts, "len(s"+rest+")")

					return AV{K: KSym, ID: rest, T: sl.Type()}, true
				}
			}

			if ci, ok := ins.(*ssa.Call); ok && seq != "" {
				if cn := CallName(&ci.Call); (cn == "strconv.Itoa" || cn == "strconv.FormatInt") && bareID(x.Eval(st, ci.Call.Args[0]).ID) == seq {
					id(st)
				}
			}

			b, ok := ins.(*ssa.BinOp)
			if !ok {
				return AV{}, false
			}

			if incs[ins] {
				st.Set("inc", st.Get("inc")+"1")
			}

			if b.Op == token.ADD && isString(b.Type()) {
				l := append(flatText(x.Eval(st, b.X)), flatText(x.Eval(st, b.Y))...)
				if len(l) > 0 && l[0].ID == name {
					return AV{}, false
				}

				text(st, x.Eval(st, b.Y))

				// Content of the statement is not followed.
				return textSym(st, "stmt", 0), true
			}

			if b.Op == token.REM {
				i, m := x.Eval(st, b.X), x.Eval(st, b.Y)
				if i.ID == st.Get("idx") && isMax(m) {
					return AV{K: KSym, ID: "rem(" + i.ID + ")", T: b.Type()}, true
				}
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			switch cn := CallName(ci.Common()); {
			case isQuote(ci):
				n := args[len(args)-1]
				if strings.HasPrefix(cn, "strings.") {
					n = args[0]
				}

				if el, ok := elements(st, n); ok && len(el) == 1 {
					n = el[0]
				}

				if strings.Contains(n.ID, "«") && strings.HasSuffix(n.ID, ".replaced") {
					item(st)

					return &CallRes{Val: textSym(st, "quoted("+n.Key()+")", 0)}
				}

				begin(st, n)

				return &CallRes{Val: textSym(st, "quoted("+st.Get("name")+")", 0)}
			case cn == "fmt.Sprintf" && seq != "":
				if el, ok := elements(st, args[1]); ok {
					for _, e := range el {
						if bareID(e.ID) == seq {
							id(st)
						}
					}
				}
			case strings.HasSuffix(cn, ".Exec") || strings.HasSuffix(cn, ".ExecContext"):
				if !f.ddl {
					a := args[len(args)-1]
					if a.ID != st.Get("args") && !(isEmptyList(a) && st.Get("args") == "") {
						o.fail(st, "values of another part are inserted")
					}

					st.Set("args", "")
				}

				closePart(st)

				return &CallRes{Val: errSym(ci, x, st)}
			case f.ddl && (methodName(ci.Common()) == "Write" || methodName(ci.Common()) == "WriteString" || cn == "io.WriteString"):
				closePart(st)

				return &CallRes{Val: errSym(ci, x, st)}
			case !f.ddl && cn == "(*encoding/csv.Writer).Write":
				if !strings.Contains(args[0].ID, "part("+st.Get("name")+")") {
					o.fail(st, "row is written to another part: "+args[0].ID)
				}

				closePart(st)

				return &CallRes{Val: errSym(ci, x, st)}
			}

			return nil
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" || !mayReturnNil(st, fn, results) {
				return
			}

			if st.Get("rem") == "" && fe.Status(st) != "x" || st.Get("rem") != "" && st.Get("rem") != "done" {
				o.fail(st, "not every item is written")
			}

			if st.Get("ph") != "" {
				o.fail(st, "the last part is not finished")
			}
		},
	})

	edge := c.Edge
	c.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		if l, gt, ok := overMax(x.Eval(st, ins.Cond), taken, isMax); ok && !f.ddl {
			switch rem := st.Get("rem"); {
			case rem == "" && l == list.ID, rem == l && st.Get("cut") == "":
			case st.Get("cut") == rem && rem != "" && l != rem && strings.HasPrefix(l, "rest"):
				if ph := st.Get("ph"); ph != "" && ph != "open" {
					o.fail(st, "part is not finished")
				}

				if len(incs) > 0 && st.Get("inc") != "1" {
					o.fail(st, "number of the part is not increased once per part")
				}
			default:
				o.fail(st, "rest of values is not what is left after the part")
			}

			st.Set("rem", l)
			st.Set("inc", "")
			st.Set("cut", "")
			st.Set("cmp", l+" "+map[bool]string{true: "gt", false: "le"}[gt])

			return
		}

		if c := x.Eval(st, ins.Cond); st.Get("pos") == "next" {
			neg := false
			for c.K == KNot {
				c = *c.X
				neg = !neg
			}

			if c.K == KCmp && (c.Op == token.EQL || c.Op == token.NEQ) && strings.HasPrefix(c.X.ID, "rem(") {
				if n, ok := constInt(*c.Y); ok && n == 0 {
					st.Set("full", map[bool]string{true: "1", false: "0"}[(c.Op == token.EQL) == (taken != neg)])
				}
			}
		}

		// Counter of items of the part is compared with the maximum.
		if full, ok := counterFull(ins, taken, f.max); ok {
			st.Set("full", map[bool]string{true: "1", false: "0"}[full])
		}

		if ev, _ := loopEdge(x, st, ins, taken, bit); ev != LoopNone {
			finish(st)
		}

		edge(x, st, ins, taken)
	}

	x := NewExplorer(p, c)
	st := x.Initial(fn)
	st.AddLabel(list, bit)
	x.Run(st)

	if parts == 0 || items == 0 {
		o.fail(nil, "parts of the table are not found")
	}

	o.done(x)
}

// overMax matches comparison of length of a list with the maximum.
func overMax(c AV, taken bool, isMax func(a AV) bool) (list string, gt, ok bool) {
	for c.K == KNot {
		c = *c.X
		taken = !taken
	}

	if c.K != KCmp {
		return "", false, false
	}

	op, a, b := c.Op, *c.X, *c.Y
	if isMax(a) {
		op, a, b = mirror(op), b, a
	}

	if !isMax(b) || !strings.HasPrefix(a.ID, "len(s") {
		return "", false, false
	}

	list = strings.TrimSuffix(strings.TrimPrefix(a.ID, "len(s"), ")")

	switch op {
	case token.GTR:
		return list, taken, true
	case token.LEQ:
		return list, !taken, true
	}

	return "", false, false
}

// counterFull matches comparison of a number of items of the current part with the maximum: the counter starts with zero,
// is increased in every iteration and is reset when it reaches the maximum.
func counterFull(ins *ssa.If, taken bool, max *types.Var) (full, ok bool) {
	b, isBin := ins.Cond.(*ssa.BinOp)
	if !isBin {
		return false, false
	}

	op, cnt, m := b.Op, b.X, b.Y
	if loadedField(cnt) == max {
		op, cnt, m = mirror(op), m, cnt
	}

	ph, isPhi := cnt.(*ssa.Phi)

	if loadedField(m) != max || !isPhi || !isLoopHeader(ph.Block()) {
		return false, false
	}

	switch op {
	case token.EQL, token.GEQ:
	case token.NEQ, token.LSS:
		taken = !taken
	default:
		return false, false
	}

	yes := ins.Block().Succs[0]
	if op == token.NEQ || op == token.LSS {
		yes = ins.Block().Succs[1]
	}

	if len(yes.Preds) != 1 {
		return false, false
	}

	for k, e := range ph.Edges {
		pred := ph.Block().Preds[k]

		if !ph.Block().Dominates(pred) {
			if c, isC := e.(*ssa.Const); !isC || c.Int64() != 0 {
				return false, false
			}

			continue
		}

		// Next value is the counter or zero, plus one.
		off, base := constOffset(e)
		if off != 1 {
			return false, false
		}

		if base == ph {
			return false, false
		}

		reset, isPhi := base.(*ssa.Phi)
		if !isPhi {
			return false, false
		}

		for k, e := range reset.Edges {
			in := yes.Dominates(reset.Block().Preds[k])

			c, isC := e.(*ssa.Const)

			switch {
			case in && isC && c.Int64() == 0:
			case !in && e == ph:
			default:
				return false, false
			}
		}
	}

	return taken, true
}

// partSite is a place where name of a part is made.
type partSite struct {
	ins    ssa.Instruction
	suffix string
	starts map[int64]bool // number of the first of the following parts
	incs   map[ssa.Instruction]bool
	bad    string
}

// p10Sites finds places where names of parts are made.
func (p *Prog) p10Sites(fn *ssa.Function) []*partSite {
	var res []*partSite

	for _, f := range p.Funcs {
		if f.Pkg != p.Lib || f != fn && !p.reachesFn(fn, func(g *ssa.Function) bool { return g == f }) {
			continue
		}

		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || CallName(&c.Call) != "strconv.Itoa" && CallName(&c.Call) != "strconv.FormatInt" {
					continue
				}

				for _, ref := range *c.Referrers() {
					cat, ok := ref.(*ssa.BinOp)
					if !ok || cat.Op != token.ADD || cat.Y != c {
						continue
					}

					suffix := ""

					switch l := cat.X.(type) {
					case *ssa.Const:
						suffix = constText(l)
					case *ssa.BinOp:
						if k, ok := l.Y.(*ssa.Const); ok && l.Op == token.ADD {
							suffix = constText(k)
						}
					}

					if !strings.HasPrefix(suffix, "_") {
						continue
					}

					s := &partSite{ins: c, suffix: suffix, starts: map[int64]bool{}, incs: map[ssa.Instruction]bool{}}
					p.partNumber(fn, c.Call.Args[0], 0, s, 0)
					res = append(res, s)
				}
			}
		}
	}

	return res
}

func constText(c *ssa.Const) string {
	if c.Value == nil || !isString(c.Type()) {
		return ""
	}

	s, _ := constStr(constAV(c.Value))

	return s
}

// partNumber finds what the number of a part is counted from.
func (p *Prog) partNumber(root *ssa.Function, v ssa.Value, off int64, s *partSite, depth int) {
	if depth > 6 {
		s.bad = "number of the part is not followed"

		return
	}

	if o, base := constOffset(v); base != v {
		// Number of the part is made from the position.
		if q, ok := base.(*ssa.BinOp); ok && q.Op == token.QUO {
			s.starts[1+off+o] = true

			return
		}

		p.partNumber(root, base, off+o, s, depth+1)

		return
	}

	switch i := v.(type) {
	case *ssa.Const:
		// Names of parts with constant numbers are checked where they are used.
	case *ssa.Phi:
		if !isLoopHeader(i.Block()) {
			for _, e := range i.Edges {
				p.partNumber(root, e, off, s, depth+1)
			}

			return
		}

		for k, e := range i.Edges {
			if !i.Block().Dominates(i.Block().Preds[k]) {
				c, ok := e.(*ssa.Const)
				if !ok {
					s.bad = "number of the first part is not constant"

					return
				}

				s.starts[c.Int64()+off] = true

				continue
			}

			p.partIncs(i, e, s, map[ssa.Value]bool{})
		}
	case *ssa.Parameter:
		k := -1

		for j, prm := range i.Parent().Params {
			if prm == i {
				k = j
			}
		}

		for _, ci := range p.callers[i.Parent()] {
			if f := ci.Parent(); f == root || p.reachesFn(root, func(g *ssa.Function) bool { return g == f }) {
				p.partNumber(root, ci.Common().Args[k], off, s, depth+1)
			}
		}
	case *ssa.Convert:
		p.partNumber(root, i.X, off, s, depth+1)
	default:
		s.bad = "number of the part is not counted"
	}
}

// partIncs finds instructions that increase the number.
func (p *Prog) partIncs(ph *ssa.Phi, v ssa.Value, s *partSite, seen map[ssa.Value]bool) {
	if v == ph || seen[v] {
		return
	}

	seen[v] = true

	if q, ok := v.(*ssa.Phi); ok {
		for _, e := range q.Edges {
			p.partIncs(ph, e, s, seen)
		}

		return
	}

	o, base := constOffset(v)
	if o == 1 {
		s.incs[v.(ssa.Instruction)] = true
		p.partIncs(ph, base, s, seen)

		return
	}

	s.bad = "number of the part is not increased by one"
}

// p10Names checks that names of parts of columns and of values agree.
func (p *Prog) p10Names(f *splitFn, o *once) {
	sites := p.p10Sites(f.fn)
	if len(sites) == 0 {
		o.fail(nil, FnName(f.fn)+": name of a part is not found")
	}

	for _, s := range sites {
		if s.bad != "" {
			o.fail(nil, FnName(f.fn)+": "+s.bad)
		}

		for n := range s.starts {
			if o.names == "" {
				o.names = s.suffix + sprint(int(n))
			}

			if o.names != s.suffix+sprint(int(n)) {
				o.fail(nil, FnName(f.fn)+": the second part is "+s.suffix+sprint(int(n))+" instead of "+o.names)
			}
		}

		if len(s.starts) == 0 {
			o.fail(nil, FnName(f.fn)+": number of the part is not counted")
		}
	}
}

// p10Flush checks that buffered rows of all parts are written.
func (p *Prog) p10Flush(r *Report) {
	var reg *types.Var

	stmt := p.Field("csvCopier", "stmt")

	for f := range p.fieldSt {
		if m, ok := f.Type().Underlying().(*types.Map); ok && typeName(deref(m.Elem())) == "csvCopier" {
			reg = f
		}
	}

	if !need(r, "P10.flush", "field of PGDumpWriter with buffers of parts", reg != nil && stmt != nil) {
		return
	}

	// All names of buffers are listed, and all listed buffers are written.
	var names *types.Var

	for f, stores := range p.fieldSt {
		if !isStrings(f.Type()) {
			continue
		}

		for _, s := range stores {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == "PGDumpWriter" && p.p10Lists(s, reg) {
				names = f
			}
		}
	}

	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || !recvIs(fn, "PGDumpWriter") || !returnsError(fn.Signature) || fn.Signature.Params().Len() != 0 {
			continue
		}

		if p.reachesFn(fn, func(g *ssa.Function) bool { return readsVar(g, stmt) || p.loadsField(g, stmt) }) && p.loops(fn) {
			n++
			p.p10FlushFn(r, fn, reg, names, stmt)
		}
	}

	need(r, "P10.flush", "function that writes buffers of parts", n > 0)

	if names == nil {
		return
	}

	fn := p.Method("PGDumpWriter", "SetupKeys")
	if !need(r, "P10.flush", "PGDumpWriter.SetupKeys", fn != nil) {
		return
	}

	o := newOnce(r, "P10.flush", FnName(fn), p.Pos(fn.Pos()))
	fe := &ForEach{Name: "buffers", Bit: labTr << 4, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
	w := &Rows{P: p, Fields: map[*types.Var]uint64{reg: labTr << 4, names: 0}, Each: []*ForEach{fe}}
	list := "P:" + fn.Params[0].Name() + "." + names.Name()
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		if fe.Status(st) == "p" && len(el) == 1 && strings.HasSuffix(el[0].ID, "#1") {
			st.Set("app", x.id(st.Top(), ins)+"~a")
		}
	}
	w.Field = func(x *Explorer, st *State, ins *ssa.Store, f *types.Var, base, val AV) {
		if f != names {
			return
		}

		if st.Get("app") != "" && val.ID == st.Get("app") {
			fe.Hit(st)
			st.Set("stored", "1")

			return
		}

		if fe.Status(st) != "" && st.Get("stored") != "" {
			o.fail(st, "list of names of parts is replaced")
		}
	}
	ddl := func(g *ssa.Function) bool {
		return takes(g.Signature, "[]flKey") && g != fn
	}
	_ = list
	c := w.Client(&Client{
		NoInline: ddl,
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if callee != nil && takes(callee.Signature, "[]flKey") && recvIs(callee, "PGDumpWriter") && fe.Status(st) != "" {
				o.fail(st, "part is created after names of parts are listed")
			}

			return nil
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how == "return" && mayReturnNil(st, fn, results) && fe.Status(st) != "x" {
				o.fail(st, "names of parts are not listed")
			}
		},
	})

	x := NewExplorer(p, c)
	x.Run(x.Initial(fn))
	o.done(x)
}

// p10Lists tells that the stored list has keys of the map.
func (p *Prog) p10Lists(s *ssa.Store, reg *types.Var) bool {
	seen := map[ssa.Value]bool{}

	var has func(v ssa.Value) bool

	has = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}

		seen[v] = true

		switch i := v.(type) {
		case *ssa.Phi:
			return slices.ContainsFunc(i.Edges, has)
		case *ssa.Extract:
			n, ok := i.Tuple.(*ssa.Next)
			if !ok || i.Index != 1 {
				return false
			}

			rg, ok := n.Iter.(*ssa.Range)

			return ok && loadedField(rg.X) == reg
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return slices.ContainsFunc(i.Call.Args, has)
			}

			g := i.Call.StaticCallee()
			if g == nil || g.Pkg != p.Lib {
				return false
			}

			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && slices.ContainsFunc(ret.Results, has) {
					return true
				}
			}
		case *ssa.Slice:
			if al, ok := i.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ia && has(st.Val) {
								return true
							}
						}
					}
				}

				return false
			}

			return has(i.X)
		}

		return false
	}

	return has(s.Val)
}

func (p *Prog) loops(fn *ssa.Function) bool { return len(Loops(fn)) > 0 }

func (p *Prog) loadsField(fn *ssa.Function, v *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if f, ok := ins.(*ssa.Field); ok && fieldOfValue(f) == v {
				return true
			}
		}
	}

	return false
}

func (p *Prog) p10FlushFn(r *Report, fn *ssa.Function, reg, names, stmt *types.Var) {
	o := newOnce(r, "P10.flush", FnName(fn), p.Pos(fn.Pos()))
	fields := map[*types.Var]uint64{reg: labTr << 4}

	if names != nil {
		fields = map[*types.Var]uint64{names: labTr << 4}
	}

	fe := &ForEach{Name: "buffers", Bit: labTr << 4, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
	w := &Rows{P: p, Fields: fields, Each: []*ForEach{fe}}
	n := 0

	step := func(st *State, want, next string) {
		if fe.Status(st) != "p" {
			return
		}

		n++

		if st.Get("step") != want {
			o.fail(st, "buffered rows are not written in order: "+next+" after "+st.Get("step"))
		}

		st.Set("step", next)
	}

	w.Iter = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
		st.Set("step", "")
		st.Set("reset", "")
	}
	c := w.Client(&Client{
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			switch cn := CallName(ci.Common()); {
			case cn == "(*encoding/csv.Writer).Flush":
				step(st, "", "flush")

				return &CallRes{}
			case cn == "(*bytes.Buffer).Reset":
				if fe.Status(st) == "p" && st.Get("step") != "rows" && st.Get("step") != "end" {
					o.fail(st, "buffer is dropped before it is written")
				}

				st.Set("reset", "1")

				return &CallRes{}
			case cn == "(*bytes.Buffer).Bytes" || cn == "(*bytes.Buffer).String":
				if st.Get("reset") != "" {
					o.fail(st, "buffer is dropped before it is written")
				}

				return &CallRes{Val: AV{K: KSym, ID: "rows"}}
			case cn == "(*bytes.Buffer).WriteTo":
				step(st, "stmt", "rows")

				st.Set("reset", "1")

				if v, ok := ci.(ssa.Value); ok {
					return &CallRes{Val: x.resultSyms(st, v, ci.Common().Signature())}
				}
			case methodName(ci.Common()) == "Write" || methodName(ci.Common()) == "WriteString" || cn == "io.WriteString":
				a := args[len(args)-1]

				for _, t := range flatText(asText(x, st, a)) {
					switch s, isC := constStr(t); {
					case strings.HasSuffix(bareID(t.ID), "."+stmt.Name()):
						step(st, "flush", "stmt")
					case t.ID == "rows":
						step(st, "stmt", "rows")
					case isC && strings.HasPrefix(s, "\\."):
						step(st, "rows", "end")
					}
				}

				return &CallRes{Val: errSym(ci, x, st)}
			}

			return nil
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how == "return" && mayReturnNil(st, fn, results) && fe.Status(st) != "x" {
				o.fail(st, "buffers are not written")
			}
		},
	})

	edge := c.Edge
	c.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		if ev, _ := loopEdge(x, st, ins, taken, labTr<<4); ev != LoopNone && st.Get("step") == "end" {
			if st.Get("reset") == "" {
				o.fail(st, "rows are written again by the next flush")
			}

			fe.Hit(st)
		}

		edge(x, st, ins, taken)
	}

	x := NewExplorer(p, c)
	x.Run(x.Initial(fn))

	if n == 0 {
		o.fail(nil, "buffered rows are not written")
	}

	o.done(x)
}
