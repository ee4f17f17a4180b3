package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P08"] = p08 }

func p08(p *Prog, r *Report) {
	r.Rule("P08.walk", "a number is reported with the literal it has in the line", 2)
	r.Rule("P08.literal", "literal of a number value comes from the reported literal or from an exact decimal representation of an integer", 3)
	r.Rule("P08.format", "text of a number value is its literal", 1)
	r.Rule("P08.read", "numeric representation of a value is not used to make output", 1)
	r.Rule("P08.row", "number of a line is only turned into text as an exact decimal integer", 5)
	r.Rule("P08.index", "index of a transposed array element is only turned into text as an exact decimal integer", 2)
	r.Rule("P08.service", "sequence number is reported with its exact decimal literal", 1)

	p08Walk(p, r)
	p08Literal(p, r)
	p08Format(p, r)
	p08Service(p, r)
	p08Ints(p, r)
}

func p08Walk(p *Prog, r *Report) {
	fn := p.Method("FastWalker", "WalkFastJSON")
	if !need(r, "P08.walk", "FastWalker.WalkFastJSON", fn != nil) {
		return
	}

	code, ok := jsonKinds(p)["number"]
	if !need(r, "P08.walk", "kind of numbers", ok) {
		return
	}

	for _, m := range walkModes {
		o := newOnce(r, "P08.walk", "number ("+m.name+")", p.Pos(fn.Pos()))
		o.done(walkKind(p, fn, "number", code, m, discard(), discard(), o))
	}
}

// p08Literal checks every assignment of a literal.
func p08Literal(p *Prog, r *Report) {
	f := p.Field("Value", "RawNumber")
	typ := p.Field("Value", "Type")
	num := p.Field("Value", "Number")

	if !need(r, "P08.literal", "fields of Value", f != nil && typ != nil && num != nil) {
		return
	}

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib {
			continue
		}

		// Number without a literal.
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok || fieldVar(s.Addr) != num {
					continue
				}

				if base := s.Addr.(*ssa.FieldAddr).X; !storedOn(fn, base, f) {
					r.Fail("P08.literal", FnName(fn), p.InstrPos(ins), "number value is made without a literal", nil)
				}
			}
		}

		if !storesField(fn, f) {
			continue
		}

		o := newOnce(r, "P08.literal", FnName(fn), p.Pos(fn.Pos()))
		n := 0

		x := NewExplorer(p, &Client{
			NoInline: func(g *ssa.Function) bool { return true },
			Value:    func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				s, ok := ins.(*ssa.Store)
				if !ok || fieldVar(s.Addr) != f {
					return
				}

				n++
				v := x.Eval(st, s.Val)

				if c, ok := constStr(v); ok && c == "" {
					return
				}

				// Copy of a value.
				if strings.HasSuffix(v.ID, ".RawNumber") {
					return
				}

				var raw *ssa.Parameter

				if isWalkFn(fn.Signature) {
					for _, prm := range fn.Params {
						if isBytes(prm.Type()) {
							raw = prm // The last one.
						}
					}
				}

				l := flatText(v)

				switch {
				case raw != nil && len(l) == 1 && l[0].ID == "P:"+raw.Name():
				case len(l) == 1 && strings.HasPrefix(l[0].ID, "itoa("):
					// Number of the same integer.
					i := strings.TrimSuffix(strings.TrimPrefix(l[0].ID, "itoa(s"), ")")
					nv := x.loadID(st, x.Eval(st, s.Addr.(*ssa.FieldAddr).X).ID+".Number", num.Type(), nil)

					if nv.ID != "" && nv.ID != "float(s"+i+")" && !strings.HasPrefix(nv.ID, "@") {
						o.fail(st, "literal and number are of different integers: "+nv.ID+" "+l[0].ID)
					}
				default:
					o.fail(st, "literal of a number is not the text that was read: "+textKeyOf(v))
				}
			},
		})
		x.Run(x.Initial(fn))

		if n == 0 {
			o.fail(nil, "assignment of a literal is not reachable")
		}

		o.done(x)
	}

	// Uses of the number.
	bad := false

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || p.onlyFrom(fn, func(g *ssa.Function) bool { return recvIs(g, "Value") && g.Name() == "Format" }) {
			continue
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || loadedField(v) != num {
					continue
				}

				for _, u := range *v.Referrers() {
					switch u := u.(type) {
					case *ssa.Store:
						if fieldVar(u.Addr) == num {
							continue
						}
					case *ssa.BinOp:
						if isBool(u.Type()) {
							continue
						}
					case *ssa.DebugRef:
						continue
					}

					bad = true

					r.Fail("P08.read", FnName(fn), p.InstrPos(ins), "numeric representation of a value is used instead of its text", nil)
				}
			}
		}
	}

	if !bad {
		r.OK("P08.read", "uses of Value.Number", p.Pos(num.Pos()))
	}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)

	return ok && b.Info()&types.IsBoolean != 0
}

// storedOn tells that the field of the same struct is assigned.
func storedOn(fn *ssa.Function, base ssa.Value, f *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}

			if fieldVar(s.Addr) == f && s.Addr.(*ssa.FieldAddr).X == base {
				return true
			}

			// The struct is copied.
			if l, ok := s.Val.(*ssa.UnOp); ok && l.Op == token.MUL && l.X == base && s.Addr != base && base != nil {
				if _, isAlloc := s.Addr.(*ssa.Alloc); isAlloc && storedOn(fn, s.Addr, f) {
					return true
				}
			}
		}
	}

	return false
}

// p08Format explores text of a number value.
func p08Format(p *Prog, r *Report) {
	fn := p.Method("Value", "Format")
	if !need(r, "P08.format", "Value.Format", fn != nil && len(fn.Blocks) > 0) {
		return
	}

	o := newOnce(r, "P08.format", FnName(fn), p.Pos(fn.Pos()))
	n := 0

	{
		x := NewExplorer(p, &Client{
			NoInline: func(g *ssa.Function) bool { return !p.InRepo(g) },
			Keep:     func(id string, t types.Type) bool { return strings.HasPrefix(id, "len(") },
			Value:    func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				switch {
				case lastField(addr.ID) == "Type":
					return strAV("float"), true
				case lastField(addr.ID) == "RawNumber":
					v := textSym(st, "literal", 0)
					st.Facts[lenOf(v).ID] = Fact{Ne: []string{"0"}}
					st.Facts[v.ID] = Fact{Ne: []string{`""`}}

					return v, true
				}

				return AV{}, false
			},
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				if how != "return" {
					o.fail(st, "number value has no text")

					return
				}

				n++

				if len(results) != 1 || textKeyOf(results[0]) != "sliteral+" {
					o.fail(st, "text of a number value is not its literal: "+textKeyOf(results[0]))
				}
			},
		})

		x.Run(x.Initial(fn))
		o.r.Saw(FnName(fn))
	}

	if n == 0 {
		o.fail(nil, "function does not return")
	}

	o.done(nil)
}

// p08Service checks the literal of the sequence number.
func p08Service(p *Prog, r *Report) {
	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || recvIs(rootFn(fn), "FastWalker") || isWalkFn(fn.Signature) {
			continue
		}

		sites := map[ssa.CallInstruction]*once{}

		for _, ci := range callsOf(fn) {
			cc := ci.Common()
			if cc.StaticCallee() == nil && isWalkFn(cc.Signature()) && cc.Signature().Params().Len() > 5 {
				sites[ci] = newOnce(r, "P08.service", FnName(fn)+" "+p.InstrPos(ci), p.InstrPos(ci))
			}
		}

		if len(sites) == 0 {
			continue
		}

		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool {
				return f.Signature.Results().Len() != 1 || !isText(f.Signature.Results().At(0).Type())
			},
			Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				o := sites[ci]
				if o == nil {
					return nil
				}

				w := splitArgs(ci.Common().Signature().Params(), args)

				if len(w.rest) < 2 || textKeyOf(asText(x, st, w.rest[1])) != "sitoa("+w.seq.Key()+")+" {
					o.fail(st, "sequence number is not reported with its exact decimal literal")
				}

				return nil
			},
		})
		x.Run(x.Initial(fn))

		for _, o := range sites {
			o.done(x)
		}
	}
}

// p08Ints follows numbers of lines and array indexes to outputs.
func p08Ints(p *Prog, r *Report) {
	// Receivers of rows.
	start := map[*ssa.Function]int{}

	for _, fn := range p.Funcs {
		if fn.Pkg == p.Lib && fn.Name() == "ReceiveRow" && fn.Signature.Recv() != nil {
			for i, prm := range fn.Params {
				if prm.Type().String() == "int64" {
					start[fn] = i

					break
				}
			}
		}
	}

	seen := map[ssa.Value]bool{}

	var follow func(rule string, v ssa.Value, o *once)

	follow = func(rule string, v ssa.Value, o *once) {
		if seen[v] || v.Referrers() == nil {
			return
		}

		seen[v] = true

		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				follow(rule, u, o)
			case *ssa.Convert:
				t, ok := u.Type().Underlying().(*types.Basic)

				switch {
				case ok && wideInt(t):
					follow(rule, u, o)
				case ok && t.Info()&types.IsFloat != 0:
					// Only for numeric representation.
					for _, s := range *u.Referrers() {
						if st, ok := s.(*ssa.Store); ok && fieldVar(st.Addr) == p.Field("Value", "Number") {
							continue
						}

						if _, ok := s.(*ssa.DebugRef); ok {
							continue
						}

						o.r.Fail(rule, o.construct, p.InstrPos(u), "number is converted to a type that does not keep it exactly", nil)
						o.bad = true
					}
				default:
					o.r.Fail(rule, o.construct, p.InstrPos(u), "number is converted to a type that does not keep it exactly", nil)
					o.bad = true
				}
			case *ssa.ChangeType:
				follow(rule, u, o)
			case *ssa.BinOp:
				if !isBool(u.Type()) {
					o.r.Fail(rule, o.construct, p.InstrPos(u), "number is changed", nil)
					o.bad = true
				}
			case *ssa.MakeInterface:
				// Formatting of the whole value in messages, argument of a statement.
			case *ssa.Store, *ssa.MapUpdate, *ssa.Return, *ssa.MakeClosure, *ssa.Lookup, *ssa.If, *ssa.Send, *ssa.Field, *ssa.FieldAddr:
			case ssa.CallInstruction:
				cc := u.Common()
				name := CallName(cc)

				if strings.HasPrefix(name, "strconv.") {
					base := 10
					if strings.HasPrefix(name, "strconv.Format") || strings.HasPrefix(name, "strconv.Append") {
						if n, ok := cc.Args[len(cc.Args)-1].(*ssa.Const); ok {
							base = int(n.Int64())
						}
					}

					if base != 10 {
						o.r.Fail(rule, o.construct, p.InstrPos(u), "number is not written as a decimal integer", nil)
						o.bad = true
					}

					continue
				}

				for _, g := range p.Callees(u) {
					if !p.InRepo(g) {
						continue
					}

					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}

					for i, a := range args {
						if a == v && i < len(g.Params) {
							c := newOnce(r, rule, FnName(g)+" "+g.Params[i].Name(), p.Pos(g.Pos()))
							follow(rule, g.Params[i], c)
							c.done(nil)
							o.r.Saw(FnName(g))
						}
					}
				}
			}
		}
	}

	for _, fn := range p.Funcs {
		if i, ok := start[fn]; ok {
			o := newOnce(r, "P08.row", FnName(fn)+" "+fn.Params[i].Name(), p.Pos(fn.Pos()))
			follow("P08.row", fn.Params[i], o)
			o.done(nil)
		}
	}

	f := p.Field("intOrString", "i")
	if !need(r, "P08.index", "index of a transposed element", f != nil) {
		return
	}

	if b, ok := f.Type().Underlying().(*types.Basic); !ok || !wideInt(b) {
		r.Fail("P08.index", "type of index", p.Pos(f.Pos()), "index of a transposed element is not kept exactly", nil)
	}

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib {
			continue
		}

		var o *once

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok && loadedField(v) == f {
					if o == nil {
						o = newOnce(r, "P08.index", FnName(fn), p.Pos(fn.Pos()))
					}

					follow("P08.index", v, o)
				}
			}
		}

		if o != nil {
			o.done(nil)
		}
	}
}

func wideInt(t *types.Basic) bool {
	switch t.Kind() {
	case types.Int, types.Int64, types.Uint64, types.Uint:
		return true
	}

	return false
}
