package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P26"] = p26 }

// Labels of names.
const (
	labRaw   = 1 << 20 // text of a key that may have its separators
	labCfg   = 1 << 21 // name is made by a rule of configuration
	labRepl  = 1 << 22 // replacements of configuration
	labIncl  = 1 << 23 // included keys
	labCols  = 1 << 24 // columns
	labRegex = 1 << 25 // rules of configuration
)

// namer follows names of columns.
type namer struct {
	p *Prog
	r *Report

	replaced, keys, incl, repl, rules, canonical *types.Var

	fns   map[*ssa.Function]bool // functions that make a name of a key
	canon map[*ssa.Function]bool // functions that fold a key
	rule  map[*ssa.Function]bool // functions that make a name with rules of configuration
	top   *ssa.Function          // makes names of all keys

	// Fields of maps of the processor.
	owners map[string]bool // owners of names
	plain  map[string]bool // names that are not changed
	cached map[string]bool // known replacements

	terms    map[string]bool // keys that are reserved before names are made
	explicit bool            // rules are reserved
}

func p26(p *Prog, r *Report) {
	r.Rule("P26.name", "generated name of a column is registered for its key after it was checked that it is free or belongs to the same key", 1)
	r.Rule("P26.plain", "names of all keys and names that are given by configuration are reserved before names are generated", 1)
	r.Rule("P26.merge", "columns are merged only when they have the same name", 1)

	n := &namer{
		p: p, r: r, replaced: p.Field("flKey", "replaced"), keys: p.Field("Processor", "keys"), incl: p.Field("Processor", "includeKeys"),
		repl: p.Field("Config", "ReplaceKeys"), rules: p.Field("Processor", "replaceRegex"), canonical: p.Field("Processor", "canonicalKeys"),
		fns: map[*ssa.Function]bool{}, canon: map[*ssa.Function]bool{}, rule: map[*ssa.Function]bool{},
		owners: map[string]bool{}, plain: map[string]bool{}, cached: map[string]bool{}, terms: map[string]bool{},
	}

	for what, f := range map[string]*types.Var{
		"flKey.replaced": n.replaced, "Processor.keys": n.keys, "Processor.includeKeys": n.incl, "Config.ReplaceKeys": n.repl,
		"Processor.replaceRegex": n.rules, "Processor.canonicalKeys": n.canonical,
	} {
		if !need(r, "P26.name", what, f != nil) {
			return
		}
	}

	n.find()

	if !need(r, "P26.name", "function that makes a name of a key", len(n.fns) > 0) || !need(r, "P26.plain", "function that makes names of all keys", n.top != nil) {
		return
	}

	for _, fn := range sortFns(n.fns) {
		n.name(fn)
	}

	n.all()
}

func sortFns(m map[*ssa.Function]bool) []*ssa.Function {
	byName := map[string]*ssa.Function{}
	for fn := range m {
		byName[FnName(fn)] = fn
	}

	var r []*ssa.Function
	for _, k := range sortedKeys(byName) {
		r = append(r, byName[k])
	}

	return r
}

// textFn tells that results of a function start with a text and it has a text as the last argument.
func textFn(fn *ssa.Function) bool {
	if fn == nil || len(fn.Params) == 0 || fn.Signature.Results().Len() == 0 || len(fn.Blocks) == 0 {
		return false
	}

	return isString(fn.Signature.Results().At(0).Type()) && isString(fn.Params[len(fn.Params)-1].Type())
}

func (n *namer) find() {
	readsRules := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok && fieldVar(u.X) == n.rules {
					return true
				}
			}
		}

		return false
	}

	writesMap := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.MapUpdate); ok {
					return true
				}
			}
		}

		return false
	}

	for _, fn := range n.p.Funcs {
		if fn.Pkg != n.p.Lib {
			continue
		}

		if textFn(fn) && n.p.reachesFn(fn, readsRules) && !n.p.reachesFn(fn, writesMap) {
			n.rule[fn] = true
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if fieldVar(i.Addr) != n.replaced {
						continue
					}

					for _, v := range append(n.p.Origins(i.Val), i.Val) {
						if c, ok := v.(*ssa.Call); ok && textFn(c.Call.StaticCallee()) && c.Call.StaticCallee().Pkg == n.p.Lib {
							n.fns[c.Call.StaticCallee()] = true
						}
					}
				case *ssa.Lookup:
					if loadedField(i.X) != n.canonical {
						continue
					}

					for _, v := range append(n.p.Origins(i.Index), i.Index) {
						if c, ok := v.(*ssa.Call); ok && textFn(c.Call.StaticCallee()) && c.Call.StaticCallee().Pkg == n.p.Lib {
							n.canon[c.Call.StaticCallee()] = true
						}
					}
				}
			}
		}
	}

	for _, fn := range n.p.Funcs {
		if fn.Pkg != n.p.Lib || fn.Parent() != nil || !n.p.reachesCall(fn, func(ci ssa.CallInstruction) bool { return n.fns[ci.Common().StaticCallee()] }) {
			continue
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && fieldVar(s.Addr) == n.keys {
					n.top = fn
				}
			}
		}
	}
}

// mapName is a field of a map.
func mapName(st *State, id string) string {
	for _, k := range sortedKeys(st.Mem) {
		if st.Mem[k].ID == id && strings.HasPrefix(k, "P:") && strings.Contains(k, ".") {
			return k[strings.LastIndexByte(k, '.')+1:]
		}
	}

	id = strings.TrimLeft(id, "@")

	return id[strings.LastIndexByte(id, '.')+1:]
}

// drop forgets what is known about a symbol.
func (n *namer) drop(st *State, id string) {
	forget(st, id)

	for k := range st.Auto {
		if strings.Contains(k, "|"+id+"|") || strings.Contains(k, "s"+id+"»") {
			delete(st.Auto, k)
		}
	}
}

// text makes a symbol of a text that is derived from others.
func (n *namer) text(x *Explorer, st *State, v ssa.Value, from ...AV) AV {
	var l uint64
	for _, a := range from {
		l |= labelDeep(st, a)
	}

	r := x.Fresh(st, v, "")
	n.drop(st, r.ID)
	st.AddLabel(r, l)

	return r
}

// value is a model of texts.
func (n *namer) value(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
	switch i := ins.(type) {
	case *ssa.BinOp:
		if i.Op == token.ADD && (isString(i.Type()) || isInteger(i.Type())) {
			if a, b := x.Eval(st, i.X), x.Eval(st, i.Y); isString(i.Type()) || !isLoopIndex(i) && a.K != KConst || b.K != KConst {
				return n.text(x, st, i, a, b), true
			}
		}
	case *ssa.Slice:
		if isString(i.X.Type()) {
			v := x.Eval(st, i.X)
			if i.Low == nil && i.High == nil {
				return v, true
			}

			return n.text(x, st, i, v), true
		}
	case *ssa.Next:
		m := x.Eval(st, i.Iter)
		if st.Label(m)&labRegex != 0 {
			tt := i.Type().(*types.Tuple)
			r := make([]AV, 3)

			for k := range r {
				r[k] = AV{K: KSym, ID: x.id(st.Top(), i) + "#" + string(rune('0'+k)), T: tt.At(k).Type()}
				n.drop(st, r[k].ID)
			}

			st.AddLabel(r[2], labCfg)

			return tupleOf(r), true
		}
	case *ssa.Call:
		name := CallName(&i.Call)
		fn := i.Call.StaticCallee()

		if strings.HasPrefix(name, "builtin:") || fn == nil || fn.Pkg == n.p.Lib {
			return AV{}, false
		}

		res := i.Call.Signature().Results()
		if res.Len() == 0 {
			return AV{}, false
		}

		args := x.evalArgs(st, &i.Call)
		out := make([]AV, res.Len())

		for k := range out {
			out[k] = n.text(x, st, i, args...)
			if k > 0 {
				out[k].ID += "#" + string(rune('0'+k))
			}

			out[k].T = res.At(k).Type()
			f := Fact{Lab: st.Label(out[k])}

			// Separators are removed.
			if strings.HasPrefix(name, "(*regexp.Regexp).Replace") || (name == "strings.Split" || name == "strings.SplitN" || name == "strings.FieldsFunc") && len(args) > 1 && (args[1].Key() == strAV(".").Key() || name == "strings.FieldsFunc") {
				f.Lab &^= labRaw
			}

			st.Facts[out[k].ID] = f
		}

		return tupleOf(out), true
	}

	return AV{}, false
}

// isLoopIndex tells that a counter is an index of a list.
func isLoopIndex(i *ssa.BinOp) bool {
	phi, ok := i.X.(*ssa.Phi)

	return ok && indexes(phi, i)
}

// call is a model of functions for names.
func (n *namer) call(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
	call, ok := ci.(*ssa.Call)
	if !ok || callee == nil {
		return nil
	}

	if n.canon[callee] {
		v := AV{K: KSym, ID: "@fold(" + args[len(args)-1].Key() + ")", T: call.Type()}

		return &CallRes{Val: v}
	}

	if n.rule[callee] && !n.fns[callee] {
		key := args[len(args)-1]
		v := AV{K: KSym, ID: "@rule(" + key.Key() + ")", T: resultType(call, 0)}
		st.AddLabel(v, labCfg)
		st.Set("rule", key.Key())

		if callee.Signature.Results().Len() == 1 {
			return &CallRes{Val: v}
		}

		s := st.fork()
		s.Set("matched", "n")
		s.Top().Env[call] = tupleOf([]AV{strAV(""), boolAV(false)})
		s.Top().Idx++
		x.enqueue(s)
		st.Set("matched", "y")

		return &CallRes{Val: tupleOf([]AV{v, boolAV(true)})}
	}

	return nil
}

// free tells that a name of a map is not used or belongs to the owner.
func free(st *State, m, key, owner AV) bool {
	id := elemID(m, key)

	if f, ok := st.Facts["@has "+id]; ok && f.Eq != nil && f.Eq.Kind() == constant.Bool && !constant.BoolVal(f.Eq) {
		return true
	}

	f := st.Facts["@"+id]
	if f.Eq != nil && (f.Eq.Kind() == constant.String && constant.StringVal(f.Eq) == "" || f.Eq.Kind() == constant.Bool && !constant.BoolVal(f.Eq)) {
		return true
	}

	return owner.K != KTop && st.Get("own:"+id) == owner.Key()
}

// edge remembers owners of names.
func (n *namer) edge(x *Explorer, st *State, ins *ssa.If, taken bool) {
	c := x.Eval(st, ins.Cond)
	for c.K == KNot {
		c = *c.X
		taken = !taken
	}

	if c.K != KCmp || c.Op != token.EQL && c.Op != token.NEQ || (c.Op == token.EQL) != taken {
		return
	}

	for _, s := range [][2]*AV{{c.X, c.Y}, {c.Y, c.X}} {
		if id, ok := strings.CutPrefix(s[0].ID, "@"); ok && strings.Contains(id, "«") {
			st.Set("own:"+id, s[1].Key())
		}
	}
}

// name checks names that are made of a key.
func (n *namer) name(fn *ssa.Function) {
	o := newOnce(n.r, "P26.name", "names in "+FnName(fn), n.p.Pos(fn.Pos()))
	n.r.Saw(FnName(fn))

	generated := false
	foreign := map[string]string{} // maps with other keys

	var param, folded AV

	accepted := func(st *State, v AV) string {
		switch {
		case v.ID == param.ID:
			return ""
		case st.Label(v)&labCfg != 0:
			return ""
		case strings.HasSuffix(v.ID, "«"+folded.Key()+"»"):
			n.cached[mapName(st, v.ID[:strings.Index(v.ID, "«")])] = true

			return ""
		}

		m := st.Get("reg|" + v.ID + "|")

		switch {
		case v.ID == "" || m == "":
			if at := st.Get("taken|" + v.ID + "|"); at != "" {
				return "name may belong to another key, it is registered without a check at " + at
			}

			return "generated name is not registered"
		case st.Label(v)&labRaw != 0:
			ok := false

			for k, f := range st.Facts {
				id, isHas := strings.CutPrefix(k, "@has ")
				id = strings.TrimPrefix(id, "@")

				if m, e, found := strings.Cut(id, "«"); found && e == v.Key()+"»" && f.Eq != nil && f.Eq.Kind() == constant.Bool && !constant.BoolVal(f.Eq) {
					if name := mapName(st, m); isHas || !n.owners[name] {
						if !n.owners[name] {
							n.plain[name] = true
							ok = true
						}
					}
				}
			}

			if !ok {
				return "shortened name may be the name of another key"
			}
		}

		generated = true

		return ""
	}

	w := &Rows{P: n.p, Fields: map[*types.Var]uint64{n.rules: labRegex}}
	w.Update = func(_ *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		if key.ID == folded.ID {
			// Replacement for the key.
			st.Set("cache", val.Key())

			if msg := accepted(st, val); msg != "" {
				o.fail(st, "replacement of a key is kept: "+msg)
			}

			return
		}

		foreign[mapName(st, m.ID)] = n.p.InstrPos(ins)

		if val.ID != param.ID && val.ID != folded.ID && accepted(st, val) != "" {
			st.Set("taken|"+key.ID+"|", n.p.InstrPos(ins))

			return
		}

		if !free(st, m, key, val) {
			st.Set("taken|"+key.ID+"|", n.p.InstrPos(ins))
			st.Set("reg|"+key.ID+"|", "")

			return
		}

		n.owners[mapName(st, m.ID)] = true
		st.Set("reg|"+key.ID+"|", m.ID)
	}

	c := &Client{Callbacks: false, MaxStates: 60000, Value: n.value, Call: n.call, Edge: n.edge}
	c.Load = func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
		if ins == nil {
			return AV{}, false
		}

		// Element of a list of texts.
		if base, _, ok := strings.Cut(addr.ID, "«"); ok && isString(ins.Type()) {
			v := x.Fresh(st, ins, "")
			n.drop(st, v.ID)
			st.AddLabel(v, st.Facts[base].Lab)

			return v, true
		}

		return AV{}, false
	}
	c.Exit = func(_ *Explorer, st *State, kind string, res []AV) {
		if kind != "return" || len(res) == 0 {
			return
		}

		if msg := accepted(st, res[0]); msg != "" {
			o.fail(st, msg)
		}

		if k := st.Get("cache"); k != "" && k != res[0].Key() {
			o.fail(st, "replacement that is kept differs from the name")
		}
	}

	x := NewExplorer(n.p, w.Client(c))
	st := x.Initial(fn)
	param = st.Top().Env[fn.Params[len(fn.Params)-1]]
	folded = AV{K: KSym, ID: "@fold(" + param.Key() + ")"}
	st.AddLabel(param, labRaw)
	x.Run(st)

	for m, at := range foreign {
		if n.cached[m] {
			o.fail(nil, "replacement is kept for another key at "+at)
		}
	}

	need(n.r, "P26.name", "generated names in "+FnName(fn), generated || o.bad)
	o.done(x)
}

// all checks names of all keys.
func (n *namer) all() {
	pos := n.p.Pos(n.top.Pos())
	o := newOnce(n.r, "P26.plain", "names in "+FnName(n.top), pos)
	om := newOnce(n.r, "P26.merge", "columns in "+FnName(n.top), pos)
	n.r.Saw(FnName(n.top))

	ruled := map[string]bool{}
	wrong, compared := map[string]string{}, map[string]bool{}
	used, usedAt := map[string]*State{}, map[string]string{}
	names, merges, kept := 0, 0, 0
	nop := func(*State, ssa.Instruction, string) {}
	w := &Rows{P: n.p, Fields: map[*types.Var]uint64{n.incl: labIncl, n.repl: labRepl, n.keys: labCols, n.rules: labRegex}}
	w.Each = []*ForEach{{Name: "keys", Bit: labIncl, Except: labCols, Bad: nop}, {Name: "replacements", Bit: labRepl, Bad: nop}, {Name: "columns", Bit: labCols, Bad: nop}}

	bits := map[uint64]string{labIncl: "i", labRepl: "r", labCols: "c"}

	// What has to be done with every element.
	flags := map[string][]string{"i": {"list", "plain", "rules"}, "r": {"list", "owner"}, "c": {"column", "named", "main"}}

	// isKey tells that a text is the key of the current element.
	isKey := func(st *State, b string, v AV) bool {
		return v.ID != "" && (v.ID == st.Get("key:"+b) || st.Get("elem:"+b) != "" && v.ID == "@"+st.Get("elem:"+b)+st.Get("fld:"+b))
	}

	term := func(st *State, v AV) string {
		k := v.Key()
		for _, e := range []string{st.Get("key:i"), "@" + st.Get("elem:i") + st.Get("fld:i")} {
			if len(e) > 1 {
				k = strings.ReplaceAll(k, e, "$")
			}
		}

		return strings.ReplaceAll(k, "@", "")
	}

	settle := func(st *State, b string) {
		// Knowledge about elements of the previous iteration is not needed.
		for k := range st.Mem {
			if strings.Contains(k, "«") {
				delete(st.Mem, k)
			}
		}

		for k := range st.Facts {
			if strings.Contains(k, "«") {
				delete(st.Facts, k)
			}
		}

		if st.Get("in:"+b) == "" {
			return
		}

		if b == "i" && st.Get("rule") != "" && (st.Get("matched") == "n" || st.Get("given") != "") {
			st.Set("on:i:rules", "1")
			ruled[st.Get("ruleterm")] = true
		}

		if b == "c" && st.Get("on:c:column") == "" {
			switch {
			case st.Get("on:c:named") == "":
				om.fail(st, "column is dropped, but there is no other column with the same name")
			case st.Get("on:c:main") == "":
				om.fail(st, "transposed column is merged with another column")
			}
		}

		for _, f := range flags[b] {
			if st.Get("on:"+b+":"+f) == "" {
				st.Set("miss:"+b+":"+f, "1")
			}

			st.Set("on:"+b+":"+f, "")
		}

		for _, k := range []string{"in:" + b, "elem:" + b, "key:" + b} {
			st.Set(k, "")
		}

		if b == "i" {
			st.Set("rule", "")
			st.Set("ruleterm", "")
			st.Set("matched", "")
			st.Set("given", "")
		}
	}

	w.Iter = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
		b := bits[bit]
		settle(st, b)

		if !fullLoop(ins) || x.partial(st, ins, bit) {
			for _, f := range flags[b] {
				st.Set("miss:"+b+":"+f, "1")
			}
		}

		st.Set("in:"+b, "1")
		st.Set("some:"+b, "1")

		if e, ok := ins.Cond.(*ssa.Extract); ok {
			if _, ok := e.Tuple.(*ssa.Next); ok {
				st.Set("key:"+b, strings.TrimSuffix(x.Eval(st, e).ID, "#0")+"#1")
			}
		}
	}
	w.Done = func(x *Explorer, st *State, ins *ssa.If, bit uint64) {
		b := bits[bit]
		settle(st, b)

		if b == "c" {
			st.Dead = true

			return
		}

		if b == "i" && st.Get("some:i") == "" {
			// There are no keys.
			st.Dead = true

			return
		}

		for _, f := range flags[b] {
			if st.Get("miss:"+b+":"+f) == "" {
				st.Set("all:"+b+":"+f, "1")

				if f == "list" && st.Get("into:"+b) != "" {
					st.AddLabel(AV{K: KSym, ID: st.Get("into:" + b)}, bit)
				}
			}

			st.Set("miss:"+b+":"+f, "")
		}

		st.Set("some:"+b, "")
		st.Set("into:"+b, "")
	}
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, _ AV, el []AV) {
		args := x.Eval(st, ins.Call.Args[1]).ID
		args = args[:max(0, strings.LastIndexByte(args, '!'))]

		for j, e := range el {
			if c := st.Get("elem:c"); st.Get("in:c") != "" && c != "" && strings.TrimLeft(e.ID, "@") == strings.TrimLeft(c, "@") {
				kept++

				st.Set("on:c:column", "1")
			}

			for _, b := range []string{"i", "r"} {
				if st.Get("in:"+b) == "" {
					continue
				}

				fld, ok := "", isKey(st, b, e)

				if t := ins.Type().Underlying().(*types.Slice).Elem(); !ok {
					if s, isStruct := t.Underlying().(*types.Struct); isStruct {
						for k := range s.NumFields() {
							if isString(s.Field(k).Type()) && (isKey(st, b, x.fieldOf(st, e, s.Field(k).Name(), s.Field(k).Type())) || isKey(st, b, st.Mem[args+"["+strconv.Itoa(j)+"]."+s.Field(k).Name()])) {
								fld, ok = "."+s.Field(k).Name(), true
							}
						}
					}
				}

				if ok {
					st.Set("on:"+b+":list", "1")
					st.Set("into:"+b, x.id(st.Top(), ins)+"~a")
					st.Set("fld:"+b, fld)
				}
			}
		}
	}
	w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		name := mapName(st, m.ID)

		if b, ok := ins.Map.Type().Underlying().(*types.Map); ok && st.Get("in:c") != "" && isString(b.Key()) && !strings.HasSuffix(key.ID, ".replaced") {
			wrong[m.ID] = n.p.InstrPos(ins)
		}

		if st.Get("in:c") != "" && strings.HasSuffix(key.ID, ".replaced") {
			if key.ID != "@"+st.Get("elem:c")+".replaced" {
				om.fail(st, "name of another column is remembered at "+n.p.InstrPos(ins))
			}

			if st.Get("on:c:main") == "" {
				om.fail(st, "columns may be merged with a transposed column that is remembered at "+n.p.InstrPos(ins))
			}

			return
		}

		if n.plain[name] && st.Get("in:i") != "" {
			if t, ok := constBool(val); ok && !t {
				return
			}

			n.terms[term(st, key)] = true
			st.Set("on:i:plain", "1")
		}

		if !n.owners[name] {
			return
		}

		if st.Get("in:r") != "" && key.ID != "" {
			if mm, k, ok := strings.Cut(strings.TrimLeft(key.ID, "@"), "«"); ok && mapName(st, mm) == n.repl.Name() {
				k = strings.TrimPrefix(strings.TrimSuffix(k, "»"), "s")
				if isKey(st, "r", AV{K: KSym, ID: k}) {
					st.Set("on:r:owner", "1")
				}
			}
		}

		if st.Label(key)&labCfg != 0 && st.Get("in:i") != "" && key.ID == "@rule("+st.Get("rule")+")" {
			st.Set("given", "1")
		}
	}

	c := &Client{Callbacks: false, MaxStates: 60000, Value: n.value}
	c.NoInline = func(fn *ssa.Function) bool { return recvIs(fn, "flKey") }
	c.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		c := x.Eval(st, ins.Cond)
		for c.K == KNot {
			c = *c.X
			taken = !taken
		}

		if id, ok := strings.CutPrefix(c.ID, "@has "); ok && c.K == KSym && taken {
			_, k, _ := strings.Cut(id, "«")
			k = strings.TrimSuffix(k, "»")

			if st.Get("rule") != "" && k == "s@rule("+st.Get("rule")+")" {
				st.Set("given", "1")
			}

			if e := st.Get("elem:c"); e != "" && k == "s@"+e+".replaced" {
				merges++

				compared[strings.Split(id, "«")[0]] = true

				st.Set("on:c:named", "1")
			}
		}

		if c.K == KCmp && (c.Op == token.NEQ) == taken && (c.Op == token.EQL || c.Op == token.NEQ) && st.Get("rule") != "" {
			for _, s := range [][2]*AV{{c.X, c.Y}, {c.Y, c.X}} {
				if strings.HasSuffix(s[0].ID, "«s@rule("+st.Get("rule")+")»") && s[1].Key() == strAV("").Key() {
					st.Set("given", "1")
				}
			}
		}

		// Column of the main table.
		if e := st.Get("elem:c"); e != "" && c.K == KCmp && (c.Op == token.EQL) == taken && (c.Op == token.EQL || c.Op == token.NEQ) {
			dst, none := "s@"+e+".transposeDst", strAV("").Key()
			if a, b := c.X.Key(), c.Y.Key(); a == dst && b == none || a == none && b == dst || a == "slen("+dst+")" && b == "c0" {
				st.Set("on:c:main", "1")
			}
		}
	}

	// Names are forgotten.
	reset := func(st *State, name string) {
		if n.owners[name] {
			for _, k := range []string{"all:r:owner", "all:i:rules"} {
				st.Set(k, "")
			}

			for _, k := range []string{"miss:r:owner", "miss:i:rules"} {
				st.Set(k, "1")
			}
		}

		if n.plain[name] {
			st.Set("all:i:plain", "")
			st.Set("miss:i:plain", "1")
		}
	}
	c.Instr = func(x *Explorer, st *State, ins ssa.Instruction) {
		switch i := ins.(type) {
		case *ssa.Store:
			if f := fieldVar(i.Addr); f != nil && (st.Get("all:r:owner") != "" || st.Get("all:i:plain") != "" || st.Get("in:i") != "" || st.Get("in:r") != "") {
				reset(st, f.Name())
			}
		case *ssa.Call:
			if name := CallName(&i.Call); name == "builtin:delete" || name == "builtin:clear" {
				reset(st, mapName(st, x.Eval(st, i.Call.Args[0]).ID))
			}
		}
	}
	c.Load = func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
		base, _, ok := strings.Cut(addr.ID, "»")
		if i := strings.LastIndex(base, "«"); ok && i > 0 {
			l := st.Facts[base[:i]].Lab
			for bit, b := range bits {
				if l&bit != 0 && st.Get("in:"+b) != "" && st.Get("elem:"+b) == "" {
					st.Set("elem:"+b, base+"»")
				}
			}
		}

		return AV{}, false
	}
	c.Call = func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
		call, ok := ci.(*ssa.Call)
		if !ok || !n.fns[callee] {
			if callee != nil && n.rule[callee] && st.Get("in:i") != "" {
				st.Set("ruleterm", term(st, args[len(args)-1]))
			}

			return n.call(x, st, ci, callee, args)
		}

		names++

		key := args[len(args)-1]

		switch {
		case st.Get("in:i") == "":
			o.fail(st, "name is made for an unknown key at "+n.p.InstrPos(call))
		case st.Get("all:i:plain") == "":
			o.fail(st, "name is generated before names of all keys are known at "+n.p.InstrPos(call))
		case st.Get("all:i:rules") == "":
			o.fail(st, "name is generated before names that are made by rules are known at "+n.p.InstrPos(call))
		case st.Get("all:r:owner") == "":
			o.fail(st, "name is generated before replacements of configuration are registered at "+n.p.InstrPos(call))
		default:
			if t := term(st, key); used[t] == nil {
				used[t] = st.fork()
				usedAt[t] = n.p.InstrPos(call)
			}
		}

		return &CallRes{Val: AV{K: KSym, ID: "@name", T: call.Type()}}
	}

	x := NewExplorer(n.p, w.Client(c))
	x.Run(x.Initial(n.top))

	for _, t := range sortedKeys(used) {
		if !n.terms[t] {
			o.fail(used[t], "name is made of a key that is not reserved at "+usedAt[t])
		}

		if !ruled[t] {
			o.fail(used[t], "name is made of a key that is not the one rules are applied to at "+usedAt[t])
		}
	}

	for _, m := range sortedKeys(wrong) {
		if compared[m] {
			om.fail(nil, "names of columns are mixed with other texts at "+wrong[m])
		}
	}

	need(n.r, "P26.plain", "names of keys in "+FnName(n.top), names > 0 || o.bad)
	need(n.r, "P26.merge", "columns in "+FnName(n.top), kept > 0 && merges > 0 || om.bad)
	o.done(x)
	om.done(x)
}
