package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P24"] = p24 }

// Labels of lists.
const (
	labAllow  = labTr << 15 // elements with any number of children
	labHigh   = labTr << 16 // elements that have too many children
	labListed = labTr << 17 // keys of the input
)

type cardinality struct {
	p                                         *Prog
	limit, allow, keep, count, high, list, kt *types.Var
}

func p24(p *Prog, r *Report) {
	r.Rule("P24.limit", "an element is kept as JSON only when the limit is exceeded and the element is not listed, and every child is counted once", 1)
	r.Rule("P24.skip", "only keys below an element with too many children are skipped", 1)
	r.Rule("P24.remove", "only keys below such elements, and objects and arrays, are removed from columns, all others are listed", 2)
	r.Rule("P24.keep", "keys to keep as JSON are given to every traversal", 1)

	c := &cardinality{
		p: p, limit: p.Field("Flags", "ChildrenLimit"), allow: p.Field("Config", "AllowCardinality"), keep: p.Field("Config", "KeepJSON"),
		count: p.Field("Processor", "parentCardinality"), high: p.Field("Processor", "parentHighCardinality"), list: p.Field("Processor", "flKeysList"),
		kt: p.Field("flKey", "t"),
	}

	for name, v := range map[string]*types.Var{
		"Flags.ChildrenLimit": c.limit, "Config.AllowCardinality": c.allow, "Config.KeepJSON": c.keep, "Processor.parentCardinality": c.count,
		"Processor.parentHighCardinality": c.high, "Processor.flKeysList": c.list, "flKey.t": c.kt,
	} {
		if !need(r, "P24.limit", name, v != nil) {
			return
		}
	}

	fns := scanFns(p)
	if !need(r, "P24.limit", "function that registers a scanned value", len(fns) > 0) {
		return
	}

	for _, fn := range fns {
		c.scan(r, fn)
	}

	c.remove(r)
	c.given(r)
}

// isCall tells whether it is a call of a method of the field.
func isCall(ci ssa.CallInstruction, f *types.Var) string { return fieldCall(ci.Common(), f.Name()) }

// textName is the name of a text symbol.
func textName(a AV) string {
	if a.K == KSym {
		return a.ID
	}

	return a.Key()
}

func (c *cardinality) scan(r *Report, fn *ssa.Function) {
	p := c.p
	o := newOnce(r, "P24.limit", FnName(fn), p.Pos(fn.Pos()))
	so := newOnce(r, "P24.skip", FnName(fn), p.Pos(fn.Pos()))
	found := map[string]bool{}

	lim := &Linear{Class: func(id string) string {
		switch {
		case strings.HasSuffix(id, "."+c.limit.Name()):
			return "limit"
		case strings.Contains(id, "."+c.count.Name()+"«"):
			return "count"
		case strings.HasPrefix(id, "len(") && strings.Contains(strings.ToLower(id), "path"), id == "len(path)":
			return "len"
		}

		return ""
	}}

	allow := &ForEach{Name: "allow", Bit: labAllow, Bad: func(st *State, _ ssa.Instruction, _ string) { st.Set("ab", "1") }}
	w := &Rows{P: p, Fields: map[*types.Var]uint64{c.allow: labAllow}, Each: []*ForEach{allow}}

	isParent := func(v AV) bool { return v.ID == "P:parent" || v.Key() == "sP:parent" }

	// The parent is taken from the parameter.
	par := ""

	for _, prm := range fn.Params {
		if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
			par = prm.Name() // The last one of hashes.
		}
	}

	isParent = func(v AV) bool { return v.Key() == "sP:"+par }

	// Two results of a call.
	fork := func(x *Explorer, st *State, ci ssa.CallInstruction, a, b AV, then func(n *State)) *CallRes {
		v, ok := ci.(ssa.Value)
		if !ok {
			return nil
		}

		n := st.fork()
		n.Top().Env[v] = a
		n.Top().Idx++
		then(n)
		x.enqueue(n)

		return &CallRes{Val: b}
	}

	zeroParent := func(st *State) bool {
		f := st.Facts["P:"+par]

		return f.Eq != nil && f.Eq.ExactString() == "0"
	}

	collapsed := func(st *State) bool { return st.Get("keep") != "" || st.Get("high") != "" || st.Get("reg") != "" }

	w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		if loadedField(ins.Map) != c.count {
			return
		}

		switch {
		case !isParent(key):
			o.fail(st, "children of another element are counted")
		case !(val.Op == token.ADD && val.X != nil && strings.Contains(val.X.ID, "."+c.count.Name()+"«") && isOne(*val.Y)):
			o.fail(st, "number of children is not increased by one")
		case st.Get("new") == "":
			o.fail(st, "known key is counted as a new one")
		case st.Get("counted") != "":
			o.fail(st, "key is counted twice")
		}

		found["count"] = true
		st.Set("counted", "1")
	}
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		if len(el) != 1 || !strings.HasSuffix(base.ID, "."+c.keep.Name()) {
			return
		}

		if !strings.HasPrefix(textName(el[0]), "kp(up(") || strings.HasPrefix(textName(el[0]), "kp(up(up(") {
			o.fail(st, "key to keep as JSON is not the element with children")
		}

		st.Set("keep", "1")
	}

	cl := w.Client(&Client{
		MaxStates: 200000,
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
			// Path of the parent.
			s, ok := ins.(*ssa.Slice)
			if !ok || s.High == nil || !isStringList(s.X.Type()) {
				return AV{}, false
			}

			if s.Low != nil {
				if k, isC := s.Low.(*ssa.Const); !isC || k.Int64() != 0 {
					return AV{}, false
				}
			}

			b, ok := s.High.(*ssa.BinOp)
			if !ok || b.Op != token.SUB {
				return AV{}, false
			}

			k, ok := b.Y.(*ssa.Const)
			if !ok || k.Int64() != 1 {
				return AV{}, false
			}

			l, ok := b.X.(*ssa.Call)
			if !ok || CallName(&l.Call) != "builtin:len" {
				return AV{}, false
			}

			a, b2 := x.Eval(st, l.Call.Args[0]), x.Eval(st, s.X)
			if a.Key() != b2.Key() {
				return AV{}, false
			}

			return AV{K: KSym, ID: "up(" + a.Key() + ")", T: s.Type()}, true
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()

			switch isCall(ci, c.high) {
			case "Load":
				if !isParent(args[1]) {
					so.fail(st, "another element is looked for instead of the parent")
				}

				found["high"] = true

				return fork(x, st, ci, tupleOf([]AV{boolAV(true), boolAV(true)}), tupleOf([]AV{boolAV(false), boolAV(false)}), func(n *State) { n.Set("hc", "1") })
			case "Store":
				if b, ok := constBool(args[2]); !isParent(args[1]) || !ok || !b {
					o.fail(st, "another element is marked instead of the parent")
				}

				found["mark"] = true
				st.Set("high", "1")

				switch {
				case st.Get("new") == "":
					o.fail(st, "element is kept as JSON when a known key is found")
				case !lim.Holds(st, 1, "-limit"):
					o.fail(st, "element is kept as JSON without a limit")
				case !lim.Holds(st, 0, "limit", "-count"):
					o.fail(st, "element is kept as JSON before the limit is exceeded")
				case !neqZero(st, "P:"+par):
					o.fail(st, "root element is kept as JSON")
				case st.Get("am") != "":
					o.fail(st, "element that is listed in "+c.allow.Name()+" is kept as JSON")
				case (allow.Status(st) != "x" || st.Get("ab") != "") && st.Get("ao") == "":
					o.fail(st, "element is kept as JSON without checking "+c.allow.Name())
				}
			}

			switch fieldCall(cc, "flKeys") {
			case "Load":
				var k AV
				if callee != nil {
					k = AV{K: KSym, ID: "known" + st.Get("loads"), T: callee.Signature.Results().At(0).Type()}
				}

				v, ok := ci.(ssa.Value)
				if !ok {
					return nil
				}

				if st.Get("new") == "" && st.Get("seen") == "" || st.Get("new") != "" && st.Get("stored") == "" {
					n := st.fork()
					n.Top().Env[v] = tupleOf([]AV{{K: KSym, ID: "none", T: k.T}, boolAV(false)})
					n.Top().Idx++
					n.Set("new", "1")
					x.enqueue(n)
				}

				st.Set("new", "")
				st.Set("seen", "1")

				return &CallRes{Val: tupleOf([]AV{k, boolAV(true)})}
			case "Store":
				if st.Get("hc") != "" {
					so.fail(st, "key below an element with too many children is stored")
				}

				st.Set("stored", "1")
			}

			if callee == nil {
				return nil
			}

			// What was known before is not up to date.
			if m := methodName(cc); (m == "Lock" || m == "RLock") && calleePkg(cc) == "sync" && st.Get("counted") == "" && !collapsed(st) {
				if st.Get("stored") == "" {
					st.Set("new", "")
				}
			}

			// The element with children becomes a key.
			if tp := typeParam(callee); tp >= 0 && len(st.Frames) > 1 {
				for _, f := range st.Frames {
					if f.Fn != callee {
						continue
					}

					if s, ok := constStr(args[tp]); !ok || s != "json" {
						o.fail(st, "type of an element that is kept as JSON is not JSON")
					}

					up := false
					for _, a := range args {
						up = up || strings.HasPrefix(a.ID, "up(") && !strings.HasPrefix(a.ID, "up(up(")
					}

					if !up {
						o.fail(st, "another element becomes a key instead of the one with children")
					}

					st.Set("reg", "1")

					return &CallRes{}
				}
			}

			switch {
			case callee.Name() == "KeyFromPath" && callee.Pkg == p.Lib && len(args) == 1:
				return &CallRes{Val: AV{K: KSym, ID: "kp(" + args[0].Key()[1:] + ")", T: types.Typ[types.String]}}
			case callee.Name() == "isNewType":
				return &CallRes{}
			case c.details(callee):
				return &CallRes{}
			case strings.HasSuffix(CallName(cc), "slices.Contains") && len(args) == 2 && st.Label(args[0])&labAllow != 0:
				if !strings.HasPrefix(args[1].ID, "kp(up(") {
					return nil
				}

				return fork(x, st, ci, boolAV(true), boolAV(false), func(n *State) { n.Set("am", "1"); st.Set("ao", "1") })
			}

			return nil
		},
		NoInline: func(g *ssa.Function) bool {
			return !p.reachesFn(g, func(h *ssa.Function) bool {
				if readsVar(h, c.limit) || updatesMap(h, c.count) || readsVar(h, c.allow) {
					return true
				}

				for _, ci := range callsOf(h) {
					if isCall(ci, c.high) != "" || fieldCall(ci.Common(), "flKeys") == "Store" {
						return true
					}
				}

				return false
			})
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			lim.Edge(x, st, ins, taken)

			// The element is listed.
			cond := x.Eval(st, ins.Cond)
			for cond.K == KNot {
				cond = *cond.X
				taken = !taken
			}

			if cond.K == KCmp && (cond.Op == token.EQL || cond.Op == token.NEQ) {
				a, b := cond.X.ID, cond.Y.ID
				if strings.Contains(a, "kp(") {
					a, b = b, a
				}

				if strings.Contains(b, "kp(up(") && !strings.Contains(b, "up(up(") && strings.Contains(a, "."+c.allow.Name()+"«") {
					if (cond.Op == token.EQL) == taken {
						st.Set("am", "1")
					}

					allow.Hit(st)
				}
			}
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" {
				return
			}

			// Result for the walker.
			if n := len(results); n > 0 && isBool(fn.Signature.Results().At(n-1).Type()) {
				stop, ok := x.Truth(st, results[n-1])

				switch {
				case !ok:
					so.fail(st, "it is not known whether the element is skipped")
				case stop && st.Get("hc") == "":
					so.fail(st, "element is skipped when its parent does not have too many children")
				case !stop && st.Get("hc") != "":
					so.fail(st, "element is not skipped when its parent has too many children")
				}
			}

			if st.Get("new") == "" || st.Get("hc") != "" {
				return
			}

			if st.Get("stored") == "" {
				so.fail(st, "new key is not stored")
			}

			if collapsed(st) {
				if st.Get("keep") == "" || st.Get("high") == "" || st.Get("reg") == "" {
					o.fail(st, "element is not kept as JSON in all steps: key, list of keys to keep and mark are needed")
				}

				return
			}

			switch {
			case lim.Holds(st, 0, "limit"), zeroParent(st), lim.Holds(st, -1, "len"):
			case st.Get("am") != "" && lim.Holds(st, 0, "limit", "-count"):
			case st.Get("counted") == "":
				o.fail(st, "new key is not counted")
			case !lim.Holds(st, 1, "count", "-limit"):
				o.fail(st, "element is not kept as JSON when the limit is exceeded")
			}
		},
	})

	edge := cl.Edge
	cl.Edge = edge
	cl.Keep = func(id string, t types.Type) bool {
		if strings.Contains(id, "«") || id == "P:"+par || nillable(t) {
			return true
		}

		b, ok := t.Underlying().(*types.Basic)

		return ok && b.Info()&types.IsBoolean != 0
	}

	x := NewExplorer(p, cl)
	x.Run(x.Initial(fn))

	if x.Err == nil {
		for _, k := range []string{"count", "high", "mark"} {
			if !found[k] {
				o.fail(nil, "limit of children is not implemented: "+k)
			}
		}
	}

	o.done(x)
	so.done(x)
}

// details tells that a function changes a key, but not its place.
func (c *cardinality) details(fn *ssa.Function) bool {
	path, parent := c.p.Field("flKey", "path"), c.p.Field("flKey", "parent")

	for _, prm := range fn.Params {
		if typeName(deref(prm.Type())) == "flKey" && prm.Type() != deref(prm.Type()) && fn.Signature.Results().Len() == 0 {
			return !c.p.reachesFn(fn, func(g *ssa.Function) bool { return storesField(g, path) || storesField(g, parent) })
		}
	}

	return false
}

func isOne(a AV) bool {
	n, ok := constInt(a)

	return ok && n == 1
}

func isStringList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)

	return ok && isString(s.Elem())
}

func neqZero(st *State, id string) bool {
	for _, n := range st.Facts[id].Ne {
		if n == "0" {
			return true
		}
	}

	return false
}

// cellOf is the variable a value is read from or an address belongs to.
func cellOf(p *Prog, v ssa.Value) *ssa.Alloc {
	switch i := v.(type) {
	case *ssa.UnOp:
		if i.Op == token.MUL {
			return cellOf(p, i.X)
		}
	case *ssa.Alloc:
		return i
	case *ssa.FreeVar:
		fn := i.Parent()

		for k, fv := range fn.FreeVars {
			if fv != i || fn.Parent() == nil {
				continue
			}

			for _, b := range fn.Parent().Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
						return cellOf(p, mc.Bindings[k])
					}
				}
			}
		}
	}

	return nil
}

func (c *cardinality) remove(r *Report) {
	p := c.p
	n := 0

	scans := map[*ssa.Function]bool{}
	for _, fn := range scanFns(p) {
		scans[fn] = true
	}

	for _, fn := range p.Funcs {
		if fn.Parent() != nil || fn.Pkg != p.Lib || !storesField(fn, c.list) || typeParam(fn) >= 0 || !p.reachesCall(fn, func(ci ssa.CallInstruction) bool { return fieldCall(ci.Common(), "flKeys") == "Range" }) {
			continue
		}

		n++
		c.removeIn(r, fn)
	}

	need(r, "P24.remove", "function that removes keys", n > 0)
}

// rangeCallbacks are functions that get all elements of the map in the field.
func (c *cardinality) rangeCallbacks(fn *ssa.Function, field string) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}

	c.p.reachesCall(fn, func(ci ssa.CallInstruction) bool {
		if fieldCall(ci.Common(), field) == "Range" {
			for _, f := range c.p.FuncsOf(ci.Common().Args[1]) {
				res[boundTarget(f)] = true
			}
		}

		return false
	})

	return res
}

func (c *cardinality) removeIn(r *Report, fn *ssa.Function) {
	const labScanned = labTr << 18

	p := c.p
	o := newOnce(r, "P24.remove", FnName(fn), p.Pos(fn.Pos()))
	lo := newOnce(r, "P24.remove", FnName(fn)+" (list)", p.Pos(fn.Pos()))
	highCbs := c.rangeCallbacks(fn, c.high.Name())
	keyCbs := c.rangeCallbacks(fn, "flKeys")
	done := map[string]bool{}

	// List of elements that have too many children.
	cells := map[*ssa.Alloc]bool{}

	for f := range highCbs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok || !isStringList(s.Val.Type()) {
					continue
				}

				if a := cellOf(p, s.Addr); a != nil {
					cells[a] = true
				}
			}
		}
	}

	// It can be made by another function.
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok || !isStringList(s.Val.Type()) {
				continue
			}

			if call, ok := s.Val.(*ssa.Call); ok && call.Call.StaticCallee() != nil {
				for a := range cells {
					if a.Parent() == call.Call.StaticCallee() && cellOf(p, s.Addr) != nil {
						cells[cellOf(p, s.Addr)] = true
					}
				}
			}
		}
	}

	high := &ForEach{Name: "high", Bit: labHigh, Bad: func(st *State, _ ssa.Instruction, msg string) {}}
	scanned := &ForEach{Name: "columns", Bit: labScanned, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
	w := &Rows{P: p, Fields: map[*types.Var]uint64{c.list: labListed}, Each: []*ForEach{high, scanned, {Name: "listed", Bit: labListed, Bad: func(st *State, _ ssa.Instruction, msg string) {}}}}

	inCb := func(st *State, cbs map[*ssa.Function]bool) bool {
		for _, f := range st.Frames {
			if cbs[f.Fn] {
				return true
			}
		}

		return false
	}

	isArg := func(st *State, a AV) bool {
		for _, f := range st.Frames {
			if highCbs[f.Fn] {
				return f.Env[f.Fn.Params[0]].Key() == a.Key()
			}
		}

		return false
	}

	canonical := canonicalFn(p)

	w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		if !isBoolMap(ins.Map.Type()) {
			return
		}

		b, ok := constBool(val)
		_, set := val.T, false

		if s, isS := ins.Map.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Struct); isS && s.NumFields() == 0 {
			set = true
		}

		if !set && (!ok || !b) {
			return
		}

		switch {
		case inCb(st, keyCbs) && strings.HasSuffix(key.ID, ".original"):
			st.Set("q:deleted", "1")
		case strings.HasSuffix(key.ID, ".canonical"):
			scanned.Hit(st)
		}
	}
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		switch {
		case inCb(st, highCbs) && len(el) == 1 && strings.HasSuffix(el[0].ID, ".original"):
			st.Set("q:high", "1")
		case inCb(st, keyCbs) && shortType(ins.Type()) == "[]flKey":
			st.Set("q:scanned", "1")
		case !inCb(st, keyCbs) && !inCb(st, highCbs) && len(el) == 1 && strings.Contains(el[0].ID, "."+c.list.Name()+"«"):
			st.Set("q:app", el[0].Key())

			if sl, ok := ins.Call.Args[0].(*ssa.Slice); ok {
				if _, isNew := sl.X.(*ssa.Alloc); !isNew && !isEmptySlice(sl) {
					lo.fail(st, "key replaces another one in the list")
				}
			}
		}
	}
	w.Field = func(x *Explorer, st *State, ins *ssa.Store, fv *types.Var, base, val AV) {
		if fv == c.list {
			st.Set("saved", "1")
		}
	}

	typeFact := func(st *State) int {
		for id := range st.Facts {
			if strings.HasSuffix(id, "."+c.kt.Name()) {
				if t := typeIs(st, id, "object", "array"); t != 0 {
					return t
				}
			}
		}

		return 0
	}

	cl := w.Client(&Client{
		MaxStates: 200000,
		Callbacks: true,
		NoInline: func(g *ssa.Function) bool {
			return !nestedIn(g, fn) && !highCbs[g] && !keyCbs[g] && !p.reachesCall(g, func(ci ssa.CallInstruction) bool {
				return isCall(ci, c.high) != "" || fieldCall(ci.Common(), "flKeys") == "Delete" || fieldCall(ci.Common(), "flKeys") == "Range"
			}) && !callsName(g, "strings.HasPrefix") && !readsVar(g, c.list)
		},
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if ins == nil || fieldVar(ins.X) != nil {
				return AV{}, false
			}

			lab := uint64(0)
			if a := cellOf(p, ins.X); a != nil && cells[a] {
				lab = labHigh
			}

			if shortType(ins.Type()) == "[]flKey" {
				lab = labScanned
			}

			if lab == 0 {
				return AV{}, false
			}

			v := AV{K: KSym, ID: "@list:" + addr.ID, T: ins.Type()}
			st.AddLabel(v, lab)

			return v, true
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			v, isV := ci.(ssa.Value)

			if callee != nil && callee == canonical && len(args) == 2 && args[1].K == KSym {
				return &CallRes{Val: AV{K: KSym, ID: "ck(" + args[1].Key() + ")", T: types.Typ[types.String]}}
			}

			switch fieldCall(ci.Common(), "flKeys") {
			case "Load":
				if !isV || !inCb(st, highCbs) {
					return nil
				}

				k := AV{K: KSym, ID: "@elem", T: callee.Signature.Results().At(0).Type()}
				n := st.fork()
				n.Top().Env[v] = tupleOf([]AV{k, boolAV(false)})
				n.Top().Idx++
				x.enqueue(n)

				if !isArg(st, args[1]) {
					o.fail(st, "another key is changed instead of the one with too many children")
				}

				st.Set("q:found", "1")

				return &CallRes{Val: tupleOf([]AV{k, boolAV(true)})}
			case "Store":
				if !inCb(st, highCbs) {
					return nil
				}

				if s, ok := constStr(keyField(x, st, ci.Common().Args[2], args[2], c.kt.Name(), c.kt.Type())); ok && s == "json" && isArg(st, args[1]) {
					st.Set("q:json", "1")
				}
			case "Delete":
				if inCb(st, keyCbs) && st.Get("q:below") == "" {
					o.fail(st, "key that is not below an element with too many children is removed")
				}

				st.Set("q:removed", "1")
			}

			if CallName(ci.Common()) == "strings.HasPrefix" && len(args) == 2 && inCb(st, keyCbs) && isV {
				b, ok := ci.Common().Args[1].(*ssa.BinOp)
				if !ok || b.Op != token.ADD {
					o.fail(st, "keys are compared with the name of an element without a separator")

					return nil
				}

				if s, ok := constStr(x.Eval(st, b.Y)); !ok || s != "." || !strings.HasSuffix(args[0].ID, ".original") || !strings.HasPrefix(x.Eval(st, b.X).ID, "@@list:") {
					o.fail(st, "keys are compared with something else than names of elements with too many children")
				}

				n := st.fork()
				n.Top().Env[v] = boolAV(true)
				n.Top().Idx++
				n.Set("q:below", "1")
				x.enqueue(n)
				high.Hit(st)

				return &CallRes{Val: boolAV(false)}
			}

			return nil
		},
		Enter: func(x *Explorer, st *State, g *ssa.Function, args []AV) {
			if !highCbs[g] && !keyCbs[g] {
				return
			}

			for k := range st.Auto {
				if strings.HasPrefix(k, "q:") || k == "fe:high" {
					delete(st.Auto, k)
				}
			}

			for id := range st.Facts {
				if strings.Contains(id, FnName(g)) {
					delete(st.Facts, id)
				}
			}

		},
		Leave: func(x *Explorer, st *State, g *ssa.Function, results []AV) {
			switch {
			case highCbs[g]:
				done["high"] = true

				if st.Get("q:found") != "" && (st.Get("q:json") == "" || st.Get("q:high") == "") {
					o.fail(st, "element with too many children does not become a column with JSON")
				}
			case keyCbs[g]:
				done["keys"] = true
				obj, below := typeFact(st) == 1, st.Get("q:below") != ""

				switch {
				case obj || below:
					if st.Get("q:deleted") == "" || st.Get("q:scanned") != "" {
						o.fail(st, "key that is not a column is not removed")
					}

					if below && st.Get("q:removed") == "" {
						o.fail(st, "key below an element with too many children is not removed")
					}
				case typeFact(st) == 0:
					o.fail(st, "type of a key is not checked")
				case st.Get("q:deleted") != "" || st.Get("q:scanned") == "":
					o.fail(st, "key is removed without a reason")
				case high.Status(st) != "x":
					o.fail(st, "key is kept without checking all elements with too many children")
				}
			default:
				return
			}

			if b, ok := constBool(results[0]); !ok || !b {
				o.fail(st, "iteration over keys is stopped")
			}

			for k := range st.Auto {
				if strings.HasPrefix(k, "q:") || k == "fe:high" {
					delete(st.Auto, k)
				}
			}

			for id := range st.Facts {
				if strings.Contains(id, "@list:") || strings.HasPrefix(id, "@elem") || strings.HasSuffix(id, "."+c.kt.Name()) {
					delete(st.Facts, id)
				}
			}
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" {
				return
			}

			if scanned.Status(st) != "x" {
				o.fail(st, "columns that share a name in other case with a removed key are not known")
			}

			if st.Get("fe:listed") != "x" || st.Get("saved") == "" {
				lo.fail(st, "list of keys is not updated")
			}
		},
	})

	edge := cl.Edge
	cl.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		if ev, _ := loopEdge(x, st, ins, taken, labListed); ev != LoopNone {
			if !fullLoop(ins) || x.partial(st, ins, labListed) {
				lo.fail(st, "loop over keys does not visit every key")
			}

			if st.Get("saved") != "" {
				lo.fail(st, "list of keys is updated before all keys are checked")
			}

			if scanned.Status(st) != "x" {
				lo.fail(st, "keys are removed before all columns are known")
			}

			if st.Get("fe:listed") == "p" {
				c.listEnd(lo, st)
			}

			st.Set("q:app", "")

			for id := range st.Facts {
				if strings.Contains(id, "."+c.list.Name()+"«") {
					delete(st.Facts, id)
				}
			}

			done["list"] = true
		}

		edge(x, st, ins, taken)
	}
	cl.Keep = func(id string, t types.Type) bool {
		if strings.Contains(id, "«") || strings.HasSuffix(id, "."+c.kt.Name()) || nillable(t) {
			return true
		}

		b, ok := t.Underlying().(*types.Basic)

		return ok && b.Info()&types.IsBoolean != 0
	}

	x := NewExplorer(p, cl)
	x.Run(x.Initial(fn))

	if x.Err == nil {
		for _, k := range []string{"high", "keys", "list"} {
			if !done[k] {
				o.fail(nil, "keys are not removed: "+k)
			}
		}
	}

	o.done(x)
	lo.done(x)
}

// listEnd checks decision about a key of the list.
func (c *cardinality) listEnd(o *once, st *State) {
	del, shared := 0, 0

	for id, f := range st.Facts {
		if f.Eq == nil || !strings.HasPrefix(id, "@") || !strings.Contains(id, "."+c.list.Name()+"«") || !strings.HasSuffix(id, "»") {
			continue
		}

		v := 2
		if f.Eq.ExactString() == "true" {
			v = 1
		}

		if strings.Contains(id, "«sck(") {
			shared = v
		} else {
			del = v
		}
	}

	app := st.Get("q:app") != ""

	switch {
	case app && del == 1 && shared != 1:
		o.fail(st, "removed key is kept in the list")
	case app && del == 0 && shared != 1:
		o.fail(st, "key is kept in the list without checking that it is not removed")
	case !app && del != 1:
		o.fail(st, "key that is not removed is dropped from the list")
	case !app && shared != 2:
		o.fail(st, "key of a column is dropped from the list")
	}
}

func isBoolMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}

	if s, isS := m.Elem().Underlying().(*types.Struct); isS {
		return s.NumFields() == 0
	}

	return isBool(m.Elem())
}

// isEmptySlice is s[:0].
func isEmptySlice(s *ssa.Slice) bool {
	k, ok := s.High.(*ssa.Const)

	return ok && k.Value != nil && k.Int64() == 0
}

// given checks that keys to keep are given to the walker.
func (c *cardinality) given(r *Report) {
	p := c.p
	dst := p.Field("FastWalker", "KeepJSON")

	if !need(r, "P24.keep", "FastWalker.KeepJSON", dst != nil) {
		return
	}

	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || !recvIs(fn, "FastWalker") && fn.Signature.Recv() != nil || !readsVar(fn, c.keep) || !storesField(fn, dst) {
			continue
		}

		n++
		o := newOnce(r, "P24.keep", FnName(fn), p.Pos(fn.Pos()))
		fe := &ForEach{Name: "keys to keep", Bit: labAllow, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
		w := &Rows{P: p, Fields: map[*types.Var]uint64{c.keep: labAllow}, Each: []*ForEach{fe}}
		w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
			if b, ok := constBool(val); ok && b && strings.Contains(key.ID, "."+c.keep.Name()+"«") {
				fe.Hit(st)
				st.Set("m", m.Key())
			}
		}
		w.Field = func(x *Explorer, st *State, ins *ssa.Store, fv *types.Var, base, val AV) {
			if fv == dst {
				st.Set("set", val.Key())
			}
		}

		x := NewExplorer(p, w.Client(&Client{Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" {
				return
			}

			for id, f := range st.Facts {
				if strings.HasPrefix(id, "len(") && strings.HasSuffix(id, "."+c.keep.Name()+")") && f.Eq != nil && f.Eq.ExactString() == "0" {
					return
				}
			}

			if fe.Status(st) != "x" || st.Get("m") != "" && st.Get("m") != st.Get("set") {
				o.fail(st, "keys to keep as JSON are not given to the walker")
			}
		}, Keep: func(id string, t types.Type) bool {
			return strings.HasPrefix(id, "len(") || strings.Contains(id, "«") || nillable(t)
		}}))
		x.Run(x.Initial(fn))
		o.done(x)
	}

	need(r, "P24.keep", "function that configures the walker", n > 0)
}
