package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P13"] = p13 }

// Labels of lists of keys and patterns.
const (
	labInc    = labTr << 9  // included keys of the configuration
	labScan   = labTr << 10 // keys of the input
	labExRx   = labTr << 11 // patterns of excluded keys
	labIncRx  = labTr << 12 // patterns of included keys
	labExKey  = labTr << 13 // excluded keys of the configuration
	labInputs = labTr << 14 // inputs
)

type filters struct {
	p                                       *Prog
	canonKeys                               *types.Var
	inc, scan, exRx, incRx, exKeys, columns *types.Var
	canonical                               *ssa.Function
}

func p13(p *Prog, r *Report) {
	r.Rule("P13.filter", "a key becomes a column only when it is not excluded and, if there are filters, is included; included keys are first", 1)
	r.Rule("P13.compile", "every pattern of the configuration is used", 2)
	r.Rule("P13.reindex", "columns are not added in another way", 1)
	r.Rule("P13.unique", "columns with the same name are one column", 1)

	f := &filters{
		p: p, inc: p.Field("Config", "IncludeKeys"), exKeys: p.Field("Config", "ExcludeKeys"), columns: p.Field("Processor", "includeKeys"),
		scan: p.Field("Processor", "flKeysList"), exRx: p.Field("Processor", "excludeRegex"), incRx: p.Field("Processor", "includeRegex"),
	}

	for name, v := range map[string]*types.Var{
		"Config.IncludeKeys": f.inc, "Config.ExcludeKeys": f.exKeys, "Processor.includeKeys": f.columns, "Processor.flKeysList": f.scan,
		"Processor.excludeRegex": f.exRx, "Processor.includeRegex": f.incRx,
	} {
		if !need(r, "P13.filter", name, v != nil) {
			return
		}
	}

	f.canonKeys = p.Field("Processor", "canonicalKeys")
	f.canonical = canonicalFn(p)

	f.filter(r)
	f.compile(r, "ExcludeKeysRegex", f.exRx)
	f.compile(r, "IncludeKeysRegex", f.incRx)
	f.unique(r)
}

// canonicalFn is the function that makes a key canonical.
func canonicalFn(p *Prog) *ssa.Function {
	cs := p.Field("Flags", "CaseSensitiveKeys")

	for _, fn := range p.Funcs {
		s := fn.Signature
		if recvIs(fn, "Processor") && fn.Parent() == nil && s.Params().Len() == 1 && isString(s.Params().At(0).Type()) && s.Results().Len() == 1 && isString(s.Results().At(0).Type()) && cs != nil && readsVar(fn, cs) {
			return fn
		}
	}

	return nil
}

// reindexes tells that a function changes indexes of columns that exist.
func (f *filters) reindexes(fn *ssa.Function) bool {
	return f.p.reachesFn(fn, func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if rg, ok := ins.(*ssa.Range); ok && loadedField(rg.X) == f.columns {
					return true
				}
			}
		}

		return false
	})
}

func (f *filters) reads(fn *ssa.Function) bool {
	return readsVar(fn, f.exRx) || readsVar(fn, f.exKeys) || readsVar(fn, f.incRx)
}

func (f *filters) isList(id string, v *types.Var) bool {
	return strings.Contains(id, "."+v.Name()+"«")
}

func (f *filters) empty(x *Explorer, st *State, lists ...string) bool {
	for id, fact := range st.Facts {
		if fact.Eq == nil || fact.Eq.ExactString() != "0" {
			continue
		}

		for _, l := range lists {
			if strings.HasPrefix(id, "len(") && strings.HasSuffix(id, "."+l+")") {
				return true
			}
		}
	}

	return false
}

func (f *filters) filled(st *State, lists ...string) bool {
	for id, fact := range st.Facts {
		for _, l := range lists {
			if strings.HasPrefix(id, "len(") && strings.HasSuffix(id, "."+l+")") {
				for _, n := range fact.Ne {
					if n == "0" {
						return true
					}
				}
			}
		}
	}

	return false
}

// member tells whether the element is known to be (1) or not to be (2) in the map.
func member(st *State, m, key string) int {
	for _, id := range []string{"@" + m + "«" + key + "»", "@has " + m + "«" + key + "»"} {
		if e := st.Facts[id].Eq; e != nil {
			if e.ExactString() == "true" {
				return 1
			}

			return 2
		}
	}

	return 0
}

func (f *filters) filter(r *Report) {
	p := f.p
	entry := p.Method("Processor", "PrepareKeys")

	if !need(r, "P13.filter", "Processor.PrepareKeys", entry != nil) {
		return
	}

	o := newOnce(r, "P13.filter", "PrepareKeys", p.Pos(entry.Pos()))
	visited := map[*ssa.Function]bool{}
	added := map[string]bool{}

	w := &Rows{P: p, Fields: map[*types.Var]uint64{f.inc: labInc, f.scan: labScan, f.exRx: labExRx, f.incRx: labIncRx, f.exKeys: labExKey}}
	if in := p.Field("Processor", "inputs"); in != nil {
		w.Fields[in] = labInputs
	}

	excluded := &ForEach{Name: "excluded keys", Bit: labExKey, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
	w.Each = []*ForEach{excluded, {Name: "included", Bit: labInc, Bad: func(*State, ssa.Instruction, string) {}}, {Name: "scanned", Bit: labScan, Bad: func(*State, ssa.Instruction, string) {}}, {Name: "xr", Bit: labExRx, Bad: func(*State, ssa.Instruction, string) {}}, {Name: "ir", Bit: labIncRx, Bad: func(*State, ssa.Instruction, string) {}}}

	ck := func(k string) string { return "sck(" + k + ")" }

	w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		k := key.Key()

		// Set of excluded keys.
		if arg, ok := strings.CutPrefix(k, "sck("); ok && f.isList(arg, f.exKeys) && strings.Contains(m.Key(), "~k") || ok && f.isList(arg, f.exKeys) && strings.HasPrefix(m.ID, "@") {
			if b, isC := constBool(val); isC && !b {
				o.fail(st, "excluded key is recorded as not excluded")
			}

			excluded.Hit(st)
			st.Set("exset", m.ID)
		}

		if loadedField(ins.Map) != f.columns {
			return
		}

		visited[ins.Parent()] = true
		id := key.ID

		fromInc, fromScan := f.isList(id, f.inc), f.isList(id, f.scan)
		if !fromInc && !fromScan {
			o.fail(st, "key that becomes a column is not one of the included or scanned keys")

			return
		}

		// Exclusion.
		set := st.Get("exset")

		switch {
		case f.empty(x, st, f.exKeys.Name()):
		case excluded.Status(st) != "x":
			o.fail(st, "key becomes a column before excluded keys are known")
		case set != "" && member(st, set, ck(k)) != 2:
			o.fail(st, "key becomes a column without checking that it is not one of the excluded keys")
		}

		if xn := st.Get("q:xn"); xn != k && xn != "*" && !f.empty(x, st, f.exRx.Name()) {
			o.fail(st, "key becomes a column without checking all patterns of excluded keys")
		}

		if st.Get("q:xm") == k {
			o.fail(st, "key that matches a pattern of excluded keys becomes a column")
		}

		if member(st, strings.TrimPrefix(m.ID, ""), k) != 2 {
			o.fail(st, "key becomes a column again")
		}

		if fromScan {
			if st.Get("fe:included") != "x" {
				o.fail(st, "scanned key becomes a column before included keys")
			}

			if st.Get("q:im") != k && (!f.empty(x, st, f.inc.Name()) || !f.empty(x, st, f.incRx.Name(), "IncludeKeysRegex") && st.Get("q:in") != "*") {
				o.fail(st, "key that is not included becomes a column")
			}

			added["scan"] = true
		}

		if fromInc {
			if st.Get("fe:scanned") != "" {
				o.fail(st, "included key becomes a column after scanned keys")
			}

			added["inc"] = true
		}

		if !counts(ins) {
			o.fail(st, "index of a column is not the next one")
		}

		st.Set("q:ins", "1")
	}

	w.Field = func(x *Explorer, st *State, ins *ssa.Store, fv *types.Var, base, val AV) {
		if fv == f.scan {
			st.Set("listed", "1")
		}
	}

	end := func(x *Explorer, st *State, scanned bool) {
		k := st.Get("q:key")
		if st.Get("q:ins") != "" {
			return
		}

		if k == "" {
			o.fail(st, "key is skipped")

			return
		}

		set := st.Get("exset")

		// It is a column already.
		for id, fact := range st.Facts {
			if strings.HasPrefix(id, "@has ") && strings.HasSuffix(id, "."+f.columns.Name()+"«"+k+"»") && fact.Eq != nil && fact.Eq.ExactString() == "true" {
				return
			}

			// Other key of the same column is included.
			if (scanned || set == "") && (strings.HasSuffix(id, "«"+ck(k)+"»") || strings.HasSuffix(id, "«"+k+"»")) && strings.Contains(id, "~k") && (set == "" || !strings.Contains(id, set+"«")) && fact.Eq != nil && fact.Eq.ExactString() == "true" {
				return
			}

			if scanned && strings.HasSuffix(id, ".isZero") && strings.Contains(id, k) && fact.Eq != nil && fact.Eq.ExactString() == "true" {
				for fl, ff := range st.Facts {
					if strings.HasSuffix(fl, ".SkipZeroCols") && ff.Eq != nil && ff.Eq.ExactString() == "true" && st.Get("q:im") == "" {
						return
					}
				}
			}
		}

		switch {
		case set != "" && member(st, set, ck(k)) == 1:
		case st.Get("q:xm") == k:
		case !scanned:
			o.fail(st, "included key is skipped")
		case st.Get("q:im") == k:
			o.fail(st, "key that matches a pattern of included keys is skipped")
		case st.Get("q:in") == k:
		case f.filled(st, f.inc.Name()) && (f.empty(x, st, f.incRx.Name(), "IncludeKeysRegex") || st.Get("q:in") == "*"):
		default:
			o.fail(st, "key is skipped")
		}
	}

	match := func(x *Explorer, st *State, ci ssa.CallInstruction, rx, key AV) *CallRes {
		var pre string

		switch {
		case f.isList(rx.ID, f.exRx):
			pre = "q:x"
		case f.isList(rx.ID, f.incRx):
			pre = "q:i"
		default:
			return nil
		}

		v, ok := ci.(ssa.Value)
		if !ok {
			return nil
		}

		k := key.Key()

		n := st.fork()
		n.Top().Env[v] = boolAV(true)
		n.Top().Idx++
		n.Set(pre+"m", k)
		n.Set(pre+"s", "k")
		x.enqueue(n)

		if old := st.Get(pre + "k"); old != "" && old != k {
			st.Set(pre+"k", "?")
		} else {
			st.Set(pre+"k", k)
		}

		st.Set(pre+"s", "k")

		return &CallRes{Val: boolAV(false)}
	}

	cl := w.Client(&Client{
		MaxStates: 300000,
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
			// Counter of columns.
			if b, ok := ins.(*ssa.BinOp); ok && b.Op == token.ADD && isInteger(b.Type()) {
				if _, isLoad := b.X.(*ssa.UnOp); isLoad {
					return AV{K: KSym, ID: "n+", T: b.Type()}, true
				}
			}

			return AV{}, false
		},
		NoInline: func(g *ssa.Function) bool {
			if g.Parent() != nil || f.p.reachesFn(g, f.reads) || len(g.Params) > 0 && strings.HasSuffix(g.Params[0].Type().String(), "regexp.Regexp") && g.Pkg == p.Lib && callsName(g, "(*regexp.Regexp).MatchString") {
				return false
			}

			return !p.reachesFn(g, func(h *ssa.Function) bool { return updatesMap(h, f.columns) }) || f.reindexes(g)
		},
		Keep: func(id string, t types.Type) bool {
			if strings.Contains(id, "«") || strings.HasPrefix(id, "len(") {
				return true
			}

			if strings.HasSuffix(id, ".SkipZeroCols") || strings.HasPrefix(id, "v") {
				b, ok := t.Underlying().(*types.Basic)

				return ok && b.Info()&(types.IsBoolean|types.IsString) != 0
			}

			return nillable(t) && !IsError(t)
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			if u, ok := ins.(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					if a := x.Eval(st, ia); f.isList(a.ID, f.inc) || f.isList(a.ID, f.scan) {
						st.Set("q:key", "s@"+a.ID)
					}
				}
			}
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" || !mayReturnNil(st, entry, results) {
				return
			}

			for _, l := range []string{"included", "scanned"} {
				if st.Get("fe:"+l) != "x" {
					o.fail(st, "not all "+l+" keys are checked")
				}
			}

			if st.Get("input") == "" && !(f.filled(st, f.inc.Name()) && f.empty(x, st, f.incRx.Name(), "IncludeKeysRegex")) {
				o.fail(st, "keys of the input are not scanned")
			}
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if callee != nil && p.reachesFn(callee, func(g *ssa.Function) bool { return storesField(g, f.scan) }) && !p.reachesFn(callee, f.reads) {
				st.Set("listed", "1")
			}

			if callee != nil && p.reachesFn(callee, func(g *ssa.Function) bool { return f.canonKeys != nil && updatesMap(g, f.canonKeys) }) && !p.reachesFn(callee, f.reads) {
				st.Set("merged", "1")
			}

			switch cn := CallName(ci.Common()); {
			case cn == "(*regexp.Regexp).MatchString" || cn == "(*regexp.Regexp).Match":
				return match(x, st, ci, args[0], args[1])
			case callee != nil && callee == f.canonical && len(args) == 2 && args[1].K == KSym:
				return &CallRes{Val: AV{K: KSym, ID: "ck(" + args[1].Key() + ")", T: types.Typ[types.String]}}
			case strings.HasSuffix(cn, "slices.ContainsFunc") && len(args) == 2:
				// Any of patterns matches the key.
				if key, ok := matcher(x, st, args[1]); ok {
					rx := AV{K: KSym, ID: args[0].ID + "«any»"}

					pre := "q:x"
					if f.isList(rx.ID, f.incRx) {
						pre = "q:i"
					}

					r := match(x, st, ci, rx, key)
					if r != nil {
						st.Set(pre+"n", st.Get(pre+"k"))
					}

					return r
				}
			}

			return nil
		},
	})

	edge := cl.Edge
	cl.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		if ev, _ := loopEdge(x, st, ins, taken, labInputs); ev != LoopNone {
			st.Set("input", "1")
		}

		for _, l := range []struct {
			bit  uint64
			pre  string
			name string
			list *types.Var
		}{{labExRx, "q:x", "excluded", f.exRx}, {labIncRx, "q:i", "included", f.incRx}} {
			ev, _ := loopEdge(x, st, ins, taken, l.bit)
			if ev == LoopNone {
				continue
			}

			if st.Get(l.pre+"s") == "p" {
				o.fail(st, "pattern of "+l.name+" keys is not checked")
			}

			if ev == LoopIter {
				if !fullLoop(ins) || x.partial(st, ins, l.bit) {
					o.fail(st, "loop over patterns of "+l.name+" keys does not visit every pattern")
				}

				st.Set(l.pre+"s", "p")

				continue
			}

			if k := st.Get(l.pre + "k"); k != "" {
				st.Set(l.pre+"n", k)
			} else if st.Get(l.pre+"m") == "" {
				st.Set(l.pre+"n", "*")

				// The list is empty.
				if f.filled(st, l.list.Name()) {
					st.Dead = true
				}
			}

			st.Set(l.pre+"s", "")
		}

		for _, l := range []struct {
			bit  uint64
			name string
		}{{labInc, "included"}, {labScan, "scanned"}} {
			ev, _ := loopEdge(x, st, ins, taken, l.bit)
			if ev == LoopNone {
				continue
			}

			if l.name == "scanned" && st.Get("listed") == "" && st.Get("input") != "" {
				o.fail(st, "scanned keys are not listed before columns are chosen")
			}

			if l.name == "scanned" && f.canonKeys != nil && st.Get("merged") == "" {
				o.fail(st, "keys that differ only in case are not merged before columns are chosen")
			}

			if !fullLoop(ins) || x.partial(st, ins, l.bit) {
				if ev == LoopIter {
					o.fail(st, "loop over "+l.name+" keys does not visit every key")
				}
			}

			if st.Get("fe:"+l.name) == "p" {
				end(x, st, l.name == "scanned")
			}

			for k := range st.Auto {
				if strings.HasPrefix(k, "q:") {
					delete(st.Auto, k)
				}
			}

			for id := range st.Facts {
				if f.isList(id, f.inc) || f.isList(id, f.scan) {
					delete(st.Facts, id)
				}
			}

			for id := range st.Mem {
				if f.isList(id, f.inc) || f.isList(id, f.scan) {
					delete(st.Mem, id)
				}
			}
		}

		edge(x, st, ins, taken)
	}

	x := NewExplorer(p, cl)
	x.Run(x.Initial(entry))

	if x.Err == nil && (!added["inc"] || !added["scan"]) {
		o.fail(nil, "included or scanned keys do not become columns")
	}

	o.done(x)

	// Other places.
	n := 0

	for _, fn := range p.Funcs {
		if !updatesMap(fn, f.columns) || visited[fn] {
			continue
		}

		n++
		r.Check(f.reindexes(fn), "P13.reindex", FnName(fn), p.Pos(fn.Pos()), "columns are added without filters")
	}

	if n == 0 {
		r.Check(true, "P13.reindex", "no other updates", "-", "")
	}
}

// matcher tells that a function matches its argument (pattern) with a key.
func matcher(x *Explorer, st *State, f AV) (AV, bool) {
	if f.K != KFunc || f.Fn == nil || len(f.Fn.Blocks) != 1 || len(f.Bind) != 1 {
		return AV{}, false
	}

	for _, ins := range f.Fn.Blocks[0].Instrs {
		c, ok := ins.(*ssa.Call)
		if !ok || CallName(&c.Call) != "(*regexp.Regexp).MatchString" || len(f.Fn.Params) != 1 || c.Call.Args[0] != f.Fn.Params[0] {
			continue
		}

		ret, ok := f.Fn.Blocks[0].Instrs[len(f.Fn.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 || ret.Results[0] != c {
			return AV{}, false
		}

		if c.Call.Args[1] == f.Fn.FreeVars[0] {
			return f.Bind[0], true
		}

		// Captured variable.
		if u, ok := c.Call.Args[1].(*ssa.UnOp); ok && u.X == f.Fn.FreeVars[0] {
			return x.load(st, f.Bind[0], u.Type(), u), true
		}
	}

	return AV{}, false
}

// counts tells that the assigned value is a counter that is increased after it is used, or number of columns.
func counts(ins *ssa.MapUpdate) bool {
	v := ins.Value

	if c, ok := v.(*ssa.Call); ok && CallName(&c.Call) == "builtin:len" {
		return loadedField(c.Call.Args[0]) == loadedField(ins.Map)
	}

	same := func(a ssa.Value) bool {
		if a == v {
			return true
		}

		l, ok := a.(*ssa.UnOp)
		m, ok2 := v.(*ssa.UnOp)

		return ok && ok2 && l.X == m.X
	}

	for _, b := range ins.Parent().Blocks {
		if b != ins.Block() && !ins.Block().Dominates(b) {
			continue
		}

		for _, i := range b.Instrs {
			if bo, ok := i.(*ssa.BinOp); ok && bo.Op.String() == "+" && same(bo.X) {
				if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() == 1 {
					return true
				}
			}
		}
	}

	return false
}

// compile checks that each pattern of the list gets to compiled patterns.
func (f *filters) compile(r *Report, list string, dst *types.Var) {
	p := f.p
	src := p.Field("Config", list)
	entry := p.Func("NewProcessor")

	if !need(r, "P13.compile", "Config."+list, src != nil) || !need(r, "P13.compile", "NewProcessor", entry != nil) {
		return
	}

	o := newOnce(r, "P13.compile", list, p.Pos(entry.Pos()))
	fe := &ForEach{Name: list, Bit: labExKey, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
	w := &Rows{P: p, Fields: map[*types.Var]uint64{src: labExKey}, Each: []*ForEach{fe}}
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		for _, e := range el {
			if strings.HasPrefix(e.ID, "rx(") && strings.Contains(e.ID, "."+list+"«") {
				st.Set("rx", "appended")
				fe.Hit(st)
			}
		}

		if sl, ok := ins.Call.Args[0].(*ssa.Slice); ok && st.Get("rx") == "appended" {
			if _, isNew := sl.X.(*ssa.Alloc); !isNew {
				o.fail(st, "pattern of "+list+" replaces another one")
			}
		}
	}
	w.Field = func(x *Explorer, st *State, ins *ssa.Store, fv *types.Var, base, val AV) {
		if !types.Identical(fv.Type(), dst.Type()) || st.Get("rx") != "appended" {
			return
		}

		if fv != dst {
			o.fail(st, "patterns of "+list+" are used as "+fv.Name())
		}

		st.Set("rx", "")
	}

	x := NewExplorer(p, w.Client(&Client{
		MaxStates: 200000,
		NoInline: func(g *ssa.Function) bool {
			return !p.reachesFn(g, func(h *ssa.Function) bool { return storesField(h, dst) || readsVar(h, src) }) && !takesPatterns(g)
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			sig := ci.Common().Signature()
			if sig.Results().Len() != 2 || shortType(sig.Results().At(0).Type()) != "*Regexp" && !strings.HasSuffix(sig.Results().At(0).Type().String(), "regexp.Regexp") || len(args) != 1 {
				return nil
			}

			e := errSym(ci, x, st)
			if e.K != KTuple {
				return nil
			}

			return &CallRes{Val: tupleOf([]AV{{K: KSym, ID: "rx(" + args[0].Key() + ")", T: sig.Results().At(0).Type()}, e.Bind[1]})}
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how == "return" && mayReturnNil(st, entry, results) && (fe.Status(st) != "x" || st.Get("rx") != "") {
				o.fail(st, "patterns of "+list+" are not used")
			}
		},
	}))
	x.Run(x.Initial(entry))
	o.done(x)
}

// takesPatterns tells that a function has a list of texts as an argument and results with patterns.
func takesPatterns(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := range res.Len() {
		if strings.HasSuffix(res.At(i).Type().String(), "[]*regexp.Regexp") {
			return true
		}
	}

	return false
}

// unique checks that columns with the same name are joined.
func (f *filters) unique(r *Report) {
	p := f.p
	keys := p.Field("Processor", "keys")
	n := 0

	if !need(r, "P13.unique", "Processor.keys", keys != nil) {
		return
	}

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || !storesField(fn, keys) || !f.reindexes(fn) {
			continue
		}

		n++
		o := newOnce(r, "P13.unique", FnName(fn), p.Pos(fn.Pos()))
		appended := false

		w := &Rows{P: p}
		w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
			if shortType(ins.Type()) != "[]flKey" || len(el) != 1 {
				return
			}

			appended = true

			// Name of the column is new, or the column is in another table.
			name := ""
			transposed := false

			for id, fact := range st.Facts {
				switch {
				case strings.HasSuffix(id, ".transposeDst") && strings.HasPrefix(id, el[0].ID):
					transposed = transposed || typeIs(st, id, "") == 2
				case strings.HasPrefix(id, "@has ") && strings.HasSuffix(id, ".replaced»") && strings.Contains(id, "«s"+el[0].ID+"."):
					if fact.Eq != nil && fact.Eq.ExactString() == "false" {
						name = id
					}
				}
			}

			if !transposed && name == "" {
				o.fail(st, "column is added without looking for another one with the same name")
			}

			if name != "" && !transposed {
				st.Set("todo", strings.TrimPrefix(name, "@has "))

				if _, ok := st.Mem[strings.TrimPrefix(name, "@has ")]; ok {
					st.Set("todo", "")
				}
			}
		}

		cl := w.Client(&Client{
			NoInline: func(g *ssa.Function) bool { return !nestedIn(g, fn) },
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				if how == "return" && st.Get("todo") != "" {
					o.fail(st, "name of a column is not recorded")
				}
			},
		})
		w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
			if elemID(m, key) == st.Get("todo") {
				st.Set("todo", "")
			}
		}

		x := NewExplorer(p, cl)
		x.Run(x.Initial(fn))

		if !appended {
			o.fail(nil, "columns are not collected")
		}

		o.done(x)
	}

	need(r, "P13.unique", "function that makes the list of columns", n > 0)
}
