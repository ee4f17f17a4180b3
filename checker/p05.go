package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P05"] = p05 }

// typeConsts are the declared constants of Type by the exact text of the value.
func typeConsts(p *Prog) map[string]string {
	m := map[string]string{}

	for _, mem := range sortedMembers(p.Lib) {
		c, ok := mem.(*ssa.NamedConst)
		if ok && typeName(c.Type()) == "Type" {
			m[constant.StringVal(c.Value.Value)] = c.Name()
		}
	}

	return m
}

func kindNames(p *Prog) []string {
	var r []string
	for v := range typeConsts(p) {
		r = append(r, v)
	}

	sort.Strings(r)

	return r
}

// mergeSpec is the required result of merging, ok is false when any of both arguments is fine.
func mergeSpec(t, u string) (string, bool) {
	weak := func(s string) bool { return s == "" || s == "null" }
	structural := func(s string) bool { return s == "object" || s == "array" }

	switch {
	case t == u:
		return t, true
	case t == "":
		return u, true
	case u == "":
		return t, true
	case t == "null":
		return u, true
	case u == "null":
		return t, true
	case structural(t) && structural(u):
		return "", false
	case structural(t):
		return u, true
	case structural(u):
		return t, true
	case weak(t) || weak(u):
		return "", false
	case t == "int" && u == "float" || t == "float" && u == "int":
		return "float", true
	}

	return "string", true
}

func mergeOK(t, u, res string) bool {
	if want, ok := mergeSpec(t, u); ok {
		return res == want
	}

	return res == t || res == u
}

func p05(p *Prog, r *Report) {
	r.Rule("P05.table", "merging of each pair of types is defined and gives the type required for the pair", 81)
	r.Rule("P05.algebra", "merging is commutative on column types, associative and idempotent, so the result depends only on the set of types", 3)
	r.Rule("P05.update", "merging a type into a key stores the merged type and remembers the new one", 81)
	r.Rule("P05.scan", "type of a scanned value is merged to the type of its key", 81)
	r.Rule("P05.canonical", "types of keys that differ in case are merged", 81)
	r.Rule("P05.shared", "type of a key that shares a column with previous keys is merged to the type of the column", 1)
	r.Rule("P05.transposed", "types of all keys of a transposed column are merged", 1)
	r.Rule("P05.sites", "type of a key is changed only by merging, or set to a constant", 1)

	upd := p.Method("Type", "Update")
	if !need(r, "P05.table", "Type.Update", upd != nil && len(upd.Params) == 2) {
		return
	}

	kinds := kindNames(p)
	if len(kinds) != 9 {
		r.Fail("P05.table", "Type", "-", "number of types differs from the specified one", kinds)
	}

	table := map[[2]string]string{}

	for _, t := range kinds {
		for _, u := range kinds {
			o := newOnce(r, "P05.table", "Type.Update("+q(t)+", "+q(u)+")", p.Pos(upd.Pos()))
			x := NewExplorer(p, &Client{
				Exit: func(x *Explorer, st *State, kind string, results []AV) {
					if kind != "return" {
						o.fail(st, "merging is not defined for the pair: "+kind)

						return
					}

					res, ok := constStr(results[0])
					if !ok {
						o.fail(st, "result of merging is not determined by the pair")

						return
					}

					table[[2]string{t, u}] = res

					if !mergeOK(t, u, res) {
						want, _ := mergeSpec(t, u)
						o.fail(st, "merged type is "+q(res)+" instead of "+q(want))
					}
				},
			})

			st := x.Initial(upd)
			st.Frames[0].Env[upd.Params[0]] = strAV(t)
			st.Frames[0].Env[upd.Params[1]] = strAV(u)
			x.Run(st)
			o.done(x)
		}
	}

	p05Algebra(p, r, upd, kinds, table)
	p05Update(p, r, kinds, table)
	p05Scan(p, r, kinds, table)
	p05Canonical(p, r, kinds, table)
	p05Shared(p, r)
	p05Transposed(p, r)
	p05Sites(p, r)
}

func q(s string) string {
	if s == "" {
		return "absent"
	}

	return s
}

func p05Algebra(p *Prog, r *Report, upd *ssa.Function, kinds []string, table map[[2]string]string) {
	up := func(a, b string) string { return table[[2]string{a, b}] }
	structural := func(s string) bool { return s == "object" || s == "array" }
	comm, assoc, idem := "", "", ""

	for _, a := range kinds {
		if up(a, a) != a {
			idem = q(a)
		}

		for _, b := range kinds {
			if up(a, b) != up(b, a) && !(structural(a) && structural(b)) {
				comm = q(a) + ", " + q(b)
			}

			for _, c := range kinds {
				x, y := up(up(a, b), c), up(a, up(b, c))
				if x != y && !(structural(x) && structural(y)) {
					assoc = q(a) + ", " + q(b) + ", " + q(c)
				}
			}
		}
	}

	pos := p.Pos(upd.Pos())
	r.Check(comm == "", "P05.algebra", "Type.Update commutative", pos, "not commutative on "+comm)
	r.Check(assoc == "", "P05.algebra", "Type.Update associative", pos, "not associative on "+assoc)
	r.Check(idem == "", "P05.algebra", "Type.Update idempotent", pos, "not idempotent on "+idem)
}

// p05Update checks the method that merges a type into a key.
func p05Update(p *Prog, r *Report, kinds []string, table map[[2]string]string) {
	m := p.Method("flKey", "UpdateType")
	if !need(r, "P05.update", "flKey.UpdateType", m != nil && len(m.Params) == 2) {
		return
	}

	for _, t := range kinds {
		for _, u := range kinds {
			o := newOnce(r, "P05.update", "flKey.UpdateType("+q(t)+", "+q(u)+")", p.Pos(m.Pos()))
			loc := "P:" + m.Params[0].Name() + ".t"
			x := NewExplorer(p, &Client{
				Exit: func(x *Explorer, st *State, kind string, results []AV) {
					if kind != "return" {
						o.fail(st, "merging ends with "+kind)

						return
					}

					if res, ok := constStr(st.Mem[loc]); !ok || res != table[[2]string{t, u}] {
						o.fail(st, "type of the key is "+st.Mem[loc].Key()+" after the update")
					}
				},
			})
			st := x.Initial(m)
			st.Mem[loc] = strAV(t)
			st.Frames[0].Env[m.Params[1]] = strAV(u)
			x.Run(st)
			o.done(x)
		}
	}
}

// keyField reads a field of a struct that is passed by value.
func keyField(x *Explorer, st *State, v ssa.Value, av AV, name string, t types.Type) AV {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a := x.Eval(st, u.X); a.ID != "" {
			return x.loadID(st, a.ID+"."+name, t, nil)
		}
	}

	return x.fieldOf(st, av, name, t)
}

// fieldCall tells the method of a map in the field that is called.
func fieldCall(cc *ssa.CallCommon, field string) string {
	if cc.IsInvoke() || len(cc.Args) == 0 || cc.StaticCallee() == nil || cc.StaticCallee().Signature.Recv() == nil {
		return ""
	}

	f := loadedField(cc.Args[0])
	if f == nil {
		f = fieldVar(cc.Args[0])
	}

	if f == nil || f.Name() != field {
		return ""
	}

	return methodName(cc)
}

// scanFn is the function of the first pass that registers a value: it gets a type of the value and updates keys.
func scanFns(p *Prog) []*ssa.Function {
	stores := func(ci ssa.CallInstruction) bool { return fieldCall(ci.Common(), "flKeys") == "Store" }

	var r []*ssa.Function

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || typeParam(fn) < 0 || !p.reachesCall(fn, stores) {
			continue
		}

		outer := len(p.callers[fn]) > 0

		for _, c := range p.callers[fn] {
			if g := rootFn(c.Parent()); typeParam(g) >= 0 && p.reachesCall(g, stores) {
				outer = false
			}
		}

		if outer {
			r = append(r, fn)
		}
	}

	return r
}

func typeParam(fn *ssa.Function) int {
	for i, prm := range fn.Params {
		if typeName(prm.Type()) == "Type" && i > 0 {
			return i
		}
	}

	return -1
}

func p05Scan(p *Prog, r *Report, kinds []string, table map[[2]string]string) {
	fns := scanFns(p)
	if !need(r, "P05.scan", "function that registers a scanned value", len(fns) > 0) {
		return
	}

	for _, fn := range fns {
		tp := typeParam(fn)

		for _, t := range kinds {
			for _, u := range kinds {
				p05ScanPair(p, r, fn, tp, t, u, table)
			}
		}
	}
}

// newTypeGuard decides comparisons of the known types of a key (list in field tt) with the type u:
// the key of type t can not have u in its list if merging of u would change t.
func newTypeGuard(x *Explorer, st *State, cond AV, t, u string, table map[[2]string]string) (bool, bool) {
	if cond.K == KNot {
		v, ok := newTypeGuard(x, st, *cond.X, t, u, table)

		return !v, ok
	}

	if cond.K != KCmp || (cond.Op != token.EQL && cond.Op != token.NEQ) || table[[2]string{t, u}] == t {
		return false, false
	}

	a, b := *cond.X, *cond.Y
	if a.K == KConst {
		a, b = b, a
	}

	if c, ok := constStr(b); ok && c == u && st.Label(a)&1 != 0 {
		return cond.Op == token.NEQ, true
	}

	return false, false
}

func p05ScanPair(p *Prog, r *Report, fn *ssa.Function, tp int, t, u string, table map[[2]string]string) {
	o := newOnce(r, "P05.scan", FnName(fn)+"("+q(t)+", "+q(u)+")", p.Pos(fn.Pos()))
	tt := p.Field("flKey", "t").Type()
	key := AV{K: KSym, ID: "key", T: p.Lib.Type("flKey").Type()}
	list := AV{K: KSym, ID: "key.tt"}

	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool { return f.Name() == "collectKeyCardinality" || f.Name() == "KeyFromPath" },
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()

			switch fieldCall(cc, "flKeys") {
			case "Load":
				// The key is known.
				return &CallRes{Val: tupleOf([]AV{key, boolAV(true)})}
			case "Store", "LoadOrStore", "Compute":
				if methodName(cc) != "Store" {
					return nil
				}

				v := keyField(x, st, cc.Args[2], args[2], "t", tt)

				s, ok := constStr(v)
				if !ok {
					s = "?"
				}

				st.Set("t", "="+s)
			}

			if callee != nil && callee.Name() == "isNewType" && table[[2]string{t, u}] != t {
				return &CallRes{Val: boolAV(true)}
			}

			if CallName(cc) == "slices.Contains" && st.Label(args[0])&1 != 0 && table[[2]string{t, u}] != t {
				if c, ok := constStr(args[1]); ok && c == u {
					return &CallRes{Val: boolAV(false)}
				}
			}

			return nil
		},
		If: func(x *Explorer, st *State, ins *ssa.If, cond AV) (bool, bool) {
			return newTypeGuard(x, st, cond, t, u, table)
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if kind != "return" {
				return
			}

			// Nothing is stored below of a key with high cardinality.
			if len(results) > 0 {
				if b, ok := x.Truth(st, results[len(results)-1]); ok && b {
					return
				}
			}

			res := "=" + t
			if v := st.Get("t"); v != "" {
				res = v
			}

			if want := table[[2]string{t, u}]; res != "="+want {
				o.fail(st, "key of type "+q(t)+" has type "+q(res[1:])+" after a value of type "+q(u)+", expected "+q(want))
			}
		},
	})
	st := x.Initial(fn)
	st.Mem["key.t"] = strAV(t)
	st.Mem["key.tt"] = list
	st.AddLabel(list, 1)
	st.Frames[0].Env[fn.Params[tp]] = strAV(u)
	x.Run(st)
	o.done(x)
}

// p05Canonical checks the callback that merges keys which differ in case.
func p05Canonical(p *Prog, r *Report, kinds []string, table map[[2]string]string) {
	updates := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MapUpdate); ok {
					if f := loadedField(m.Map); f != nil && f.Name() == "canonicalKeys" {
						return true
					}
				}
			}
		}

		return false
	}

	var cbs []*ssa.Function

	for _, fn := range p.Funcs {
		for _, c := range callsOf(fn) {
			if fieldCall(c.Common(), "flKeys") != "Range" {
				continue
			}

			for _, f := range p.FuncsOf(c.Common().Args[1]) {
				if f = boundTarget(f); updates(f) || p.reachesFn(f, updates) {
					cbs = append(cbs, f)
				}
			}
		}
	}

	if !need(r, "P05.canonical", "iteration over keys that merges keys which differ in case", len(cbs) > 0) {
		return
	}

	kt := p.Lib.Type("flKey").Type()
	tt := p.Field("flKey", "t").Type()

	for _, fn := range cbs {
		for _, t := range kinds {
			for _, u := range kinds {
				o := newOnce(r, "P05.canonical", FnName(fn)+"("+q(t)+", "+q(u)+")", p.Pos(fn.Pos()))
				canon := AV{K: KSym, ID: "canon", T: kt}

				x := NewExplorer(p, &Client{
					Lookup: func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool) {
						if f := loadedField(ins.X); f != nil && f.Name() == "canonicalKeys" {
							if ins.CommaOk {
								return tupleOf([]AV{canon, boolAV(true)}), true
							}

							return canon, true
						}

						return AV{}, false
					},
					Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
						// Not below of a key with high cardinality.
						if fieldCall(ci.Common(), "parentHighCardinality") == "Load" {
							return &CallRes{Val: tupleOf([]AV{boolAV(false), boolAV(false)})}
						}

						if callee != nil && callee.Name() == "isNewType" {
							return &CallRes{}
						}

						return nil
					},
					Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
						m, ok := ins.(*ssa.MapUpdate)
						if !ok {
							return
						}

						if f := loadedField(m.Map); f != nil && f.Name() == "canonicalKeys" {
							s, ok := constStr(keyField(x, st, m.Value, x.Eval(st, m.Value), "t", tt))
							if !ok {
								s = "?"
							}

							st.Set("t", "="+s)
						}
					},
					Exit: func(x *Explorer, st *State, kind string, results []AV) {
						if kind != "return" {
							return
						}

						res := "=" + t
						if v := st.Get("t"); v != "" {
							res = v
						}

						if want := table[[2]string{t, u}]; res != "="+want && !mergeBoth(t, u, res[1:]) {
							o.fail(st, "column of type "+q(t)+" has type "+q(res[1:])+" after a key of type "+q(u)+", expected "+q(want))
						}
					},
				})
				st := x.Initial(fn)
				st.Mem["canon.t"] = strAV(t)

				for _, prm := range fn.Params {
					if types.Identical(prm.Type(), kt) {
						st.Mem["P:"+prm.Name()+".t"] = strAV(u)
					}
				}

				x.Run(st)
				o.done(x)
			}
		}
	}
}

// mergeBoth tells that order of merging does not matter for a column.
func mergeBoth(t, u, res string) bool {
	_, exact := mergeSpec(t, u)

	return !exact && (res == t || res == u)
}

func isMerge(p *Prog, callee *ssa.Function) bool {
	return callee != nil && (callee == p.Method("flKey", "UpdateType") || callee == p.Method("Type", "Update"))
}

// p05Shared: when an existing column is found by name, the type of the key is merged to it.
func p05Shared(p *Prog, r *Report) {
	// Function with a lookup by replaced name in a local map.
	isLookup := func(ins ssa.Instruction) bool {
		l, ok := ins.(*ssa.Lookup)
		if !ok || !l.CommaOk {
			return false
		}

		f := fieldOfValue(l.Index)

		return f != nil && f.Name() == "replaced"
	}

	found := 0

	for _, fn := range p.Funcs {
		has := false

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				has = has || isLookup(ins)
			}
		}

		if !has {
			continue
		}

		found++
		o := newOnce(r, "P05.shared", FnName(fn), p.Pos(fn.Pos()))
		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool {
				return isMerge(p, f) || !nestedIn(f, fn) && !p.reachesCall(f, func(ci ssa.CallInstruction) bool { return isMerge(p, ci.Common().StaticCallee()) })
			},
			Lookup: func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool) {
				if !isLookup(ins) {
					return AV{}, false
				}

				if st.Get("s") != "" {
					o.fail(st, "key is added to an existing column without merging its type")
				}

				n := st.fork()
				n.Set("s", "")
				n.Top().Env[ins] = tupleOf([]AV{{K: KSym, ID: "none"}, boolAV(false)})
				n.Top().Idx++
				x.enqueue(n)

				st.Set("s", "shared")

				return tupleOf([]AV{{K: KSym, ID: "pos", T: types.Typ[types.Int]}, boolAV(true)}), true
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if st.Get("s") == "shared" && isMerge(p, callee) && len(args) == 2 && args[1].K != KConst {
					if args[0].K == KAddr && !strings.HasPrefix(args[0].ID, "A") {
						st.Set("s", "")
					} else {
						// Merged to a local copy.
						st.Set("s", "copy")
					}
				}

				return nil
			},
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				if st.Get("s") == "copy" && storesKey(x, st, ins) || appendsKey(ins) {
					st.Set("s", "")
				}
			},
			Exit: func(x *Explorer, st *State, kind string, results []AV) {
				if kind == "return" && st.Get("s") != "" {
					o.fail(st, "key is added to an existing column without merging its type")
				}
			},
		})
		x.Run(x.Initial(fn))
		o.done(x)
	}

	need(r, "P05.shared", "lookup of a column by name", found > 0)
}

// appendsKey tells that a column is added.
func appendsKey(ins ssa.Instruction) bool {
	c, ok := ins.(*ssa.Call)

	return ok && CallName(&c.Call) == "builtin:append" && shortType(c.Type()) == "[]flKey"
}

// fieldOfValue is the field a value is read from.
func fieldOfValue(v ssa.Value) *types.Var {
	switch i := v.(type) {
	case *ssa.Field:
		if s := structOf(i.X.Type()); s != nil {
			return s.Field(i.Field)
		}
	}

	return loadedField(v)
}

// p05Transposed: each mapped key is merged to its transposed column.
func p05Transposed(p *Prog, r *Report) {
	fn := p.Method("baseWriter", "initFilteredKeys")

	// The function that merges types of a transposed table.
	if fn == nil {
		for _, f := range p.MethodsOf(p.Lib.Type("baseWriter").Type()) {
			if p.reachesCall(f, func(ci ssa.CallInstruction) bool { return isMerge(p, ci.Common().StaticCallee()) }) {
				fn = f
			}
		}
	}

	if !need(r, "P05.transposed", "function that prepares columns of a transposed table", fn != nil) {
		return
	}

	o := newOnce(r, "P05.transposed", FnName(fn), p.Pos(fn.Pos()))
	fe := &ForEach{Name: "mapped keys", Bit: 1, Bad: func(st *State, ins ssa.Instruction, msg string) { o.fail(st, msg) }}
	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool { return isMerge(p, f) },
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			switch lastField(addr.ID) {
			case "isTransposed":
				return boolAV(true), true
			case "transposedMapping":
				v := AV{K: KSym, ID: "@" + addr.ID, T: deref(addr.T)}
				st.AddLabel(v, 1)

				return v, true
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if isMerge(p, callee) && len(args) == 2 && args[1].K != KConst {
				if args[0].K == KAddr && !strings.HasPrefix(args[0].ID, "A") {
					fe.Hit(st)
				} else {
					// Merged to a local copy.
					st.Set("copy", "1")
				}
			}

			return nil
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			if st.Get("copy") != "" && storesKey(x, st, ins) {
				st.Set("copy", "")
				fe.Hit(st)
			}
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) { fe.Edge(x, st, ins, taken) },
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if kind == "return" && fe.Status(st) != "x" {
				o.fail(st, "types of keys are not merged to the columns of a transposed table")
			}
		},
	})
	x.Run(x.Initial(fn))
	o.done(x)
}

// storesKey: key or type is stored to a location which is not a local variable.
func storesKey(x *Explorer, st *State, ins ssa.Instruction) bool {
	s, ok := ins.(*ssa.Store)
	if !ok {
		return false
	}

	if n := typeName(s.Val.Type()); n != "flKey" && n != "Type" {
		return false
	}

	return !strings.HasPrefix(x.Eval(st, s.Addr).ID, "A")
}

// p05Sites enumerates assignments of types of keys.
func p05Sites(p *Prog, r *Report) {
	f := p.Field("flKey", "t")
	if !need(r, "P05.sites", "flKey.t", f != nil) {
		return
	}

	upd := p.Method("Type", "Update")

	for _, s := range p.fieldSt[f] {
		ok := mergedValue(p, s.Val, upd, 0)
		r.Check(ok, "P05.sites", FnName(s.Parent())+" sets "+f.Name(), p.InstrPos(s), "type of a key is replaced by a value which is not a result of merging")
		r.Saw(FnName(s.Parent()))
	}
}

// mergedValue: constant, result of merging, type of transposed index, or copy of a type of another key.
func mergedValue(p *Prog, v ssa.Value, upd *ssa.Function, depth int) bool {
	if depth > 4 {
		return false
	}

	switch i := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Call:
		return i.Call.StaticCallee() == upd
	case *ssa.Phi:
		for _, e := range i.Edges {
			if !mergedValue(p, e, upd, depth+1) {
				return false
			}
		}

		return true
	}

	if f := fieldOfValue(v); f != nil {
		return f.Name() == "indexType" || f.Name() == "t"
	}

	return false
}
