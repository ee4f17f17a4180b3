package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P22"] = p22 }

func p22(p *Prog, r *Report) {
	r.Rule("P22.field", "text is cut to the limit exactly when it is longer, other values are not cut", 4)
	r.Rule("P22.lines", "lines after the offset and up to the maximum are processed, others are not", 1)
	r.Rule("P22.pass", "limits of each pass are set before reading", 2)
	r.Rule("P22.settings", "field limit is the configured one", 1)

	p22Field(p, r)
	p22Lines(p, r)
	p22Pass(p, r)
}

func p22Field(p *Prog, r *Report) {
	c := newCells(p, r, "P22.field")
	if c == nil || !need(r, "P22.settings", "field limit of the second pass", c.limit != nil) {
		return
	}

	// The setting is not changed.
	n := 0

	for _, s := range p.fieldSt[c.limit] {
		for _, v := range p.Origins(s.Val) {
			n++
			r.Check(loadedField(v) == p.Field("Flags", "FieldLimit"), "P22.settings", FnName(s.Parent()), p.InstrPos(s), "field limit is not the configured one")
		}
	}

	need(r, "P22.settings", "assignment of the field limit", n > 0)

	for _, name := range cellKinds {
		fns := c.callbacks(name)
		need(r, "P22.field", name+" of the second pass", len(fns) > 0)

		for _, fn := range fns {
			o := newOnce(r, "P22.field", name+" in "+FnName(rootFn(fn)), p.Pos(fn.Pos()))
			cut, whole := false, false

			x := c.explore(fn, name, o, func(put *Put) {
				st := put.St

				if put.What == "" {
					return
				}

				if name != "FnString" {
					if put.What != "new" && put.What != "joined" {
						o.fail(st, put.What)
					}

					return
				}

				has := func(s string) bool { return strings.Contains(put.Long, s+" ") }

				switch put.Cut {
				case "cut":
					cut = true

					switch {
					case !has("limited"):
						o.fail(st, "text is cut when there is no limit")
					case !has("long"):
						o.fail(st, "text that is not longer than the limit is cut")
					}
				case "min":
					cut = true

					if !has("limited") {
						o.fail(st, "text is cut when there is no limit")
					}
				case "whole":
					whole = true

					if !has("unlimited") && !has("short") {
						o.fail(st, "text that is longer than the limit is not cut")
					}
				default:
					o.fail(st, "text is not cut to the limit")
				}
			})

			if name == "FnString" && (!cut || !whole) {
				o.fail(nil, "text is never cut or never kept")
			}

			o.done(x)
		}
	}
}

// p22Lines checks selection of lines in the reading loop.
func p22Lines(p *Prog, r *Report) {
	max, off, buf := p.Field("Reader", "MaxLines"), p.Field("Reader", "OffsetLines"), p.Field("syncWorker", "line")
	if !need(r, "P22.lines", "Reader.MaxLines", max != nil) || !need(r, "P22.lines", "Reader.OffsetLines", off != nil) || !need(r, "P22.lines", "syncWorker.line", buf != nil) {
		return
	}

	scan := func(ci ssa.CallInstruction) bool { return CallName(ci.Common()) == "(*bufio.Scanner).Scan" }
	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil {
			continue
		}

		direct := false

		for _, ci := range callsOf(fn) {
			direct = direct || scan(ci)
		}

		if !direct || !p.reachesFn(fn, func(g *ssa.Function) bool { return readsVar(g, max) || readsVar(g, off) }) {
			continue
		}

		n++
		p.p22Loop(r, fn, max, off, buf, scan)
	}

	need(r, "P22.lines", "loop that reads lines", n > 0)
}

func (p *Prog) p22Loop(r *Report, fn *ssa.Function, max, off, buf *types.Var, scan func(ci ssa.CallInstruction) bool) {
	o := newOnce(r, "P22.lines", FnName(fn), p.Pos(fn.Pos()))
	isField := func(id string, f *types.Var) bool {
		return strings.HasPrefix(id, "@") && strings.HasSuffix(id, "."+f.Name())
	}

	lim := &Linear{Class: func(id string) string {
		switch {
		case isField(id, max):
			return "max"
		case isField(id, off):
			return "off"
		case id == "line#":
			return "n"
		}

		return ""
	}}

	started := 0

	// A line is over.
	check := func(st *State, end bool) {
		if st.Get("line") == "" {
			return
		}

		// Offset is not negative.
		if lim.Holds(st, 1, "-max") && lim.Holds(st, 0, "max", "off") {
			return
		}

		noMax := lim.Holds(st, 0, "max")
		hasMax := lim.Holds(st, 1, "-max") || lim.Neq(st, 0, "max")
		below := lim.Holds(st, 1, "n", "-max", "-off") || lim.Neq(st, 0, "n", "-max", "-off")
		reached := lim.Holds(st, 0, "max", "off", "-n")
		above := lim.Holds(st, 1, "max", "off", "-n")

		switch given := st.Get("given"); {
		case given != "" && !end:
			// The maximum is checked before or after the line.
			if given != "checked" && !noMax && !below {
				o.fail(st, "next line is processed without checking the maximum")
			}
		case given != "":
			if st.Get("stop") == "" && (!reached || !hasMax) {
				o.fail(st, "reading is stopped before the maximum is reached")
			}
		case end:
			if st.Get("stop") == "" && (!above || !hasMax) {
				o.fail(st, "line is dropped when reading is stopped")
			}
		default:
			if !lim.Holds(st, 0, "n", "-off") {
				o.fail(st, "line after the offset is skipped")
			}
		}
	}

	w := &Rows{P: p}
	cl := w.Client(&Client{
		NoInline: func(g *ssa.Function) bool {
			return g.Parent() != nil && g.Signature.Results().Len() == 0 || !p.reachesFn(g, func(h *ssa.Function) bool {
				return readsVar(h, max) || readsVar(h, off) || storesField(h, buf) || p.callsScan(h)
			})
		},
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
			// Local counter is increased by one.
			b, ok := ins.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || st.Get("line") == "" || !isInteger(b.Type()) {
				return AV{}, false
			}

			if k, isC := b.Y.(*ssa.Const); isC && k.Value != nil && k.Int64() == 1 {
				if ph, isPhi := b.X.(*ssa.Phi); isPhi && isLoopHeader(ph.Block()) && ph.Parent() == fn && lineCounter(ph, b) {
					return AV{K: KSym, ID: "line#", T: b.Type()}, true
				}
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			cn := CallName(ci.Common())

			switch {
			case scan(ci):
				check(st, false)

				for _, k := range []string{"line", "given", "counted", "stop"} {
					st.Set(k, "")
				}

				lim.Clear(st, "n")

				if e := (AV{K: KSym, ID: "@scanErr", T: ErrorType}); st.NilOf(e) == isNil {
					st.SetNil(e, 0)
				}

				started++

				n := st.fork()
				n.Set("last", "1")
				n.Top().Env[ci.(ssa.Value)] = boolAV(false)
				n.Top().Idx++
				x.enqueue(n)

				st.Set("line", "1")

				return &CallRes{Val: boolAV(true)}
			case cn == "(*bufio.Scanner).Err":
				// Failure stays.
				return &CallRes{Val: AV{K: KSym, ID: "@scanErr", T: ErrorType}}
			case cn == "sync/atomic.AddInt64" && len(args) == 2 && args[0].K == KAddr && strings.HasPrefix(args[0].ID, "A"):
				if k, ok := constInt(args[1]); ok && k == 1 && st.Get("line") != "" {
					if st.Get("counted") != "" {
						o.fail(st, "line is counted twice")
					}

					st.Set("counted", "1")

					if al, isAlloc := ci.Common().Args[0].(*ssa.Alloc); !isAlloc || !startsFromZero(al) {
						o.fail(st, "lines are not counted from the first one")
					}

					return &CallRes{Val: AV{K: KSym, ID: "line#", T: types.Typ[types.Int64]}}
				}
			}

			return nil
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			lim.Edge(x, st, ins, taken)

			// Reading is stopped by a failure of a worker.
			if localFlag(ins.Cond) && raised(x.Eval(st, ins.Cond), taken) {
				st.Set("stop", "1")
			}
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			switch i := ins.(type) {
			case *ssa.Store:
				if fieldVar(i.Addr) != buf || st.Get("line") == "" {
					return
				}

				if !lim.Holds(st, 1, "off", "-n") && !lim.Holds(st, 0, "off") {
					o.fail(st, "line is processed without checking the offset")
				}

				st.Set("given", "1")

				if lim.Holds(st, 0, "n", "-max", "-off") || lim.Holds(st, 0, "max") {
					st.Set("given", "checked")
				}
			}
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how == "return" && st.Get("last") == "" && mayReturnNil(st, fn, results) {
				check(st, true)
			}
		},
	})

	x := NewExplorer(p, cl)
	x.Run(x.Initial(fn))

	if started == 0 {
		o.fail(nil, "lines are not read")
	}

	o.done(x)
}

// startsFromZero tells that a variable has no initial value.
func startsFromZero(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
			if c, isC := s.Val.(*ssa.Const); !isC || c.Value == nil || c.Int64() != 0 {
				return false
			}
		}
	}

	return true
}

// localFlag tells that a condition reads a variable of the function that is shared with its closures.
func localFlag(v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.BinOp:
		return localFlag(i.X) || localFlag(i.Y)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			return shared(i.X)
		}

		return localFlag(i.X)
	case *ssa.Call:
		if strings.HasPrefix(CallName(&i.Call), "sync/atomic.Load") || strings.HasPrefix(CallName(&i.Call), "(*sync/atomic.") {
			return shared(i.Call.Args[0])
		}
	}

	return false
}

func shared(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}

	for _, ref := range *al.Referrers() {
		if _, ok := ref.(*ssa.MakeClosure); ok {
			return true
		}
	}

	return false
}

// raised tells that a flag is set when the branch is taken.
func raised(c AV, taken bool) bool {
	for c.K == KNot {
		c = *c.X
		taken = !taken
	}

	if c.K != KCmp {
		return taken
	}

	switch c.Op {
	case token.NEQ, token.GTR:
		return taken
	case token.EQL, token.LEQ:
		return !taken
	}

	return false
}

func (p *Prog) callsScan(fn *ssa.Function) bool {
	for _, ci := range callsOf(fn) {
		if CallName(ci.Common()) == "(*bufio.Scanner).Scan" {
			return true
		}
	}

	return false
}

// lineCounter tells that the variable starts from 0 and is only increased.
func lineCounter(ph *ssa.Phi, inc *ssa.BinOp) bool {
	var only func(v ssa.Value, seen map[ssa.Value]bool) bool

	only = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == inc || v == ph || seen[v] {
			return true
		}

		seen[v] = true

		q, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}

		for _, e := range q.Edges {
			if !only(e, seen) {
				return false
			}
		}

		return true
	}

	for k, e := range ph.Edges {
		if !ph.Block().Dominates(ph.Block().Preds[k]) {
			c, ok := e.(*ssa.Const)
			if !ok || c.Int64() != 0 {
				return false
			}

			continue
		}

		if !only(e, map[ssa.Value]bool{}) {
			return false
		}
	}

	return true
}

// p22Pass checks that limits of the reader are set from the options before each pass.
func p22Pass(p *Prog, r *Report) {
	read := p.Method("Reader", "Read")
	max, off := p.Field("Reader", "MaxLines"), p.Field("Reader", "OffsetLines")

	if !need(r, "P22.pass", "Reader.Read", read != nil) || !need(r, "P22.pass", "limits of the reader", max != nil && off != nil) {
		return
	}

	for _, pass := range []struct {
		name string
		keys bool
	}{{"PrepareKeys", true}, {"WriteOutput", false}} {
		entry := p.Method("Processor", pass.name)
		if !need(r, "P22.pass", "Processor."+pass.name, entry != nil) {
			continue
		}

		o := newOnce(r, "P22.pass", pass.name, p.Pos(entry.Pos()))
		calls := 0

		// Fields of options are told from fields of the reader.
		class := func(id string) string {
			switch {
			case strings.HasSuffix(id, ".f.MaxLines"):
				return "max"
			case strings.HasSuffix(id, ".f.MaxLinesKeys"):
				return "keys"
			case strings.HasSuffix(id, ".f.OffsetLines"):
				return "off"
			}

			return ""
		}

		lim := &Linear{Class: class}

		classOf := func(x *Explorer, v AV) string {
			if n, ok := constInt(v); ok {
				return "c" + sprint(n)
			}

			if v.K == KSym {
				return class(v.ID)
			}

			return ""
		}

		x := NewExplorer(p, &Client{
			NoInline: func(g *ssa.Function) bool {
				return g == read || !p.reachesFn(g, func(h *ssa.Function) bool {
					return h == read || storesField(h, max) || storesField(h, off) || readsVar(h, max) || readsVar(h, off)
				}) && !returnsInt(g)
			},
			Keep: func(id string, t types.Type) bool { return class(id) != "" },
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				// Limits are not set by constructors.
				if !pass.keys || ins == nil {
					return AV{}, false
				}

				if f := fieldVar(ins.X); (f == max || f == off) && addr.ID != "" {
					if _, set := st.Mem[addr.ID]; !set {
						return constAV(constant.MakeInt64(0)), true
					}
				}

				return AV{}, false
			},
			Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
				if cv, ok := ins.(*ssa.Convert); ok && isInteger(cv.Type()) && isInteger(cv.X.Type()) && wide(cv.Type()) {
					return x.Eval(st, cv.X), true
				}

				c, ok := ins.(*ssa.Call)
				if !ok {
					return AV{}, false
				}

				b, ok := c.Call.Value.(*ssa.Builtin)
				if !ok || (b.Name() != "min" && b.Name() != "max") || len(c.Call.Args) != 2 {
					return AV{}, false
				}

				p, q := x.Eval(st, c.Call.Args[0]), x.Eval(st, c.Call.Args[1])
				if b.Name() == "max" {
					p, q = q, p
				}

				le := AV{K: KCmp, Op: token.LEQ, X: &p, Y: &q}
				first, second := x.Eval(st, c.Call.Args[0]), x.Eval(st, c.Call.Args[1])

				n := st.fork()
				lim.assume(n, le, false)
				n.Top().Env[c] = second
				n.Top().Idx++
				x.enqueue(n)

				lim.assume(st, le, true)

				return first, true
			},
			Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) { lim.Edge(x, st, ins, taken) },
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if callee != read || len(args) == 0 {
					return nil
				}

				calls++

				get := func(f *types.Var) string {
					v, ok := st.Mem[args[0].ID+"."+f.Name()]
					if !ok && pass.keys {
						return "c0"
					}

					return classOf(x, v)
				}

				none := func(t string) bool { return lim.Holds(st, 0, t) }
				some := func(t string) bool { return lim.Holds(st, 1, "-"+t) }
				le := func(a, b string) bool { return lim.Holds(st, 0, a, "-"+b) }

				switch o1 := get(off); {
				case o1 == "off":
				case o1 == "c0" && none("off"):
				default:
					o.fail(st, "number of lines to skip is not the configured one")
				}

				m := get(max)

				switch {
				case m == "max" && (!pass.keys || none("keys") || some("max") && le("max", "keys")):
				case m == "c0" && none("max") && (!pass.keys || none("keys")):
				case m == "keys" && pass.keys && some("keys") && (none("max") || le("keys", "max")):
				default:
					o.fail(st, "maximum number of lines is not the configured one: "+m)
				}

				return nil
			},
		})

		x.Run(x.Initial(entry))

		if calls == 0 {
			o.fail(nil, "lines are not read")
		}

		o.done(x)
	}
}

// returnsInt tells that a function calculates a number.
func returnsInt(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isInteger(res.At(i).Type()) {
			return len(fn.Blocks) > 0
		}
	}

	return false
}

// wide tells that values of int are not changed by conversion.
func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)

	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}
