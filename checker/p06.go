package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P06"] = p06 }

type dialect struct {
	name   string
	writer string
	accept func(kind string, parseTime bool) []string
}

var dialects = []dialect{
	{"SQLite", "SQLiteWriter", func(k string, _ bool) []string {
		switch k {
		case "int", "bool":
			return []string{"INTEGER", "INT", "BIGINT"}
		case "float":
			return []string{"REAL", "FLOAT", "DOUBLE"}
		}

		return []string{"", "TEXT", "BLOB", "VARCHAR"}
	}},
	{"PostgreSQL", "PGDumpWriter", func(k string, pt bool) []string {
		switch k {
		case "int":
			return []string{"INT8", "BIGINT"}
		case "bool":
			return []string{"BOOL", "BOOLEAN"}
		case "float":
			return []string{"FLOAT8", "DOUBLE"}
		case "string":
			if pt {
				return []string{"TIMESTAMP"}
			}
		}

		return []string{"VARCHAR", "TEXT"}
	}},
}

func p06(p *Prog, r *Report) {
	r.Rule("P06.ddl", "declared type of a column accepts values of the type of its key", 14)
	r.Rule("P06.schema", "JSON schema names the JSON type that matches the discovered type", 9)
	r.Rule("P06.schema.all", "every discovered type of a key is added to JSON schema", 1)
	r.Rule("P06.kinds", "kind of a scanned value is registered as its type", 6)
	r.Rule("P06.number", "a number is registered as int only if its literal is an integer", 1)
	r.Rule("P06.index", "type of transposed index is merged from types of all indexes", 1)
	r.Rule("P06.const", "a restricting type is set without a value only for the sequence", 3)

	for _, d := range dialects {
		fn := p.Method(d.writer, "SetupKeys")
		if !need(r, "P06.ddl", d.writer+".SetupKeys", fn != nil) {
			continue
		}

		for _, k := range kindNames(p) {
			// Objects and arrays never become columns.
			if k != "object" && k != "array" {
				p06DDL(p, r, d, fn, k)
			}
		}
	}

	p06Schema(p, r)
	p06Kinds(p, r)
	p06Index(p, r)
	p06Const(p, r)
}

// quotesIdent: function reaches a quoted identifier.
func quotesIdent(p *Prog) func(fn *ssa.Function) bool {
	q := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					if f := fieldOfValue(v); f != nil && f.Name() == "replaced" {
						return true
					}

					if f := fieldVar(v); f != nil && f.Name() == "replaced" {
						return true
					}
				}
			}
		}

		return false
	}

	return func(fn *ssa.Function) bool { return p.reachesFn(fn, q) }
}

func p06DDL(p *Prog, r *Report, d dialect, fn *ssa.Function, kind string) {
	const (
		bitKeys = 1
		bitName = 1 << 20
	)

	o := newOnce(r, "P06.ddl", d.name+" column of type "+q(kind), p.Pos(fn.Pos()))
	kt := p.Lib.Type("flKey").Type()
	key := AV{K: KSym, ID: "K", T: kt}
	reach := quotesIdent(p)
	seen := false

	check := func(st *State) {
		words := strings.Fields(st.Get("types"))
		acc := d.accept(kind, st.Get("pt") == "1")

		if len(words) == 0 && acc[0] != "" {
			o.fail(st, "column has no type")
		}

		for _, w := range words {
			ok := false
			for _, a := range acc {
				ok = ok || a == w
			}

			if !ok {
				o.fail(st, "column is declared as "+w)
			}
		}

		if len(words) > 0 {
			seen = true
		}

		st.Set("types", "")
		st.Set("pt", "")
	}

	fe := &ForEach{Name: "keys", Bit: bitKeys, Bad: func(*State, ssa.Instruction, string) {}}
	helper := func(f *ssa.Function) bool {
		// Helpers that make texts of a key or of a type.
		for _, prm := range f.Params {
			if t := typeName(prm.Type()); t == "Type" || t == "flKey" {
				return f.Signature.Results().Len() > 0
			}
		}

		return false
	}

	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool {
			if f.Name() == "setupKeys" || f.Name() == "initFilteredKeys" {
				return true
			}

			return !nestedIn(f, fn) && !reach(f) && !helper(f)
		},
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			switch {
			case lastField(addr.ID) == "filteredKeys":
				v := AV{K: KSym, ID: "@" + addr.ID, T: loadedType(addr, ins)}
				st.AddLabel(v, bitKeys)

				return v, true
			case strings.HasPrefix(addr.ID, "A"):
			case typeName(loadedType(addr, ins)) == "flKey":
				return key, true
			case lastField(addr.ID) == "t" && typeName(loadedType(addr, ins)) == "Type":
				return strAV(kind), true
			case lastField(addr.ID) == "replaced":
				return st.Mem["K.replaced"], true
			case lastField(addr.ID) == "original":
				return st.Mem["K.original"], true
			}

			return AV{}, false
		},
		Lookup: func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool) {
			f := loadedField(ins.X)
			if f == nil || f.Name() != "ParseTime" {
				return AV{}, false
			}

			format := AV{K: KSym, ID: "format"}

			if x.Eval(st, ins.Index).ID != "K.original" {
				o.fail(st, "time format is not looked up by the original name of the key")
			}

			if !ins.CommaOk {
				return format, true
			}

			n := st.fork()
			n.Top().Env[ins] = tupleOf([]AV{format, boolAV(false)})
			n.Top().Idx++
			x.enqueue(n)

			st.Set("pt", "1")

			return tupleOf([]AV{format, boolAV(true)}), true
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			// Quoted name is still a name.
			var l uint64
			for _, a := range args {
				l |= labelDeep(st, a)
			}

			v, isVal := ci.(ssa.Value)
			if !isVal || l&bitName == 0 || callee != nil && p.InRepo(callee) || !isString(v.Type()) || strings.HasPrefix(CallName(ci.Common()), "fmt.") || CallName(ci.Common()) == "strings.Join" {
				return nil
			}

			if l&bitKeys != 0 {
				return nil
			}

			s := AV{K: KSym, ID: "quoted", T: v.Type()}
			st.AddLabel(s, bitName)

			return &CallRes{Val: s}
		},
		Text: func(x *Explorer, st *State, ins ssa.Instruction, v AV) {
			parts := textParts(v)
			for i, a := range parts {
				if st.Label(a)&bitName == 0 || a.ID != "quoted" && a.ID != "K.replaced" || i+1 == len(parts) {
					continue
				}

				c, ok := "", false

				for _, a := range parts[i+1:] {
					s, isConst := constStr(a)
					if !isConst {
						break
					}

					c, ok = c+s, true
				}

				if !ok {
					continue
				}

				c = strings.TrimLeft(strings.TrimPrefix(c, `"`), " \t")
				if j := strings.IndexAny(c, " ,\n\t)("); j >= 0 {
					c = c[:j]
				}

				if c = strings.ToUpper(c); c != "" && !strings.Contains(" "+st.Get("types")+" ", " "+c+" ") {
					w := append(strings.Fields(st.Get("types")), c)
					sort.Strings(w)
					st.Set("types", strings.Join(w, " "))
				}
			}
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			before := fe.Status(st)

			switch fe.Edge(x, st, ins, taken) {
			case LoopIter, LoopDone:
				if before == "p" {
					check(st)
				}

				st.Set("types", "")
				st.Set("pt", "")
			}
		},
		Exit: func(x *Explorer, st *State, kindOf string, results []AV) {
			if kindOf == "panic" {
				o.fail(st, "the type is not handled: panic")
			}
		},
	})
	st := x.Initial(fn)
	st.Mem["K.t"] = strAV(kind)
	name := AV{K: KSym, ID: "K.replaced"}
	st.Mem["K.replaced"] = name
	st.AddLabel(name, bitName)
	st.Mem["K.original"] = AV{K: KSym, ID: "K.original"}
	x.Run(st)

	if !seen && d.accept(kind, false)[0] != "" && !o.bad {
		o.fail(nil, "declaration of the column is not found")
	}

	o.done(x)
}

var schemaTypes = map[string]string{
	"string": "string", "int": "integer", "float": "number", "bool": "boolean", "array": "array", "object": "object", "null": "null",
	"json": "", "": "",
}

func p06Schema(p *Prog, r *Report) {
	// The method that adds a type to the schema.
	var add *ssa.Function

	types := p.Field("jsonSchema", "Types")

	for _, fn := range p.Funcs {
		if fn.Pkg == p.Lib && fn.Parent() == nil && typeParam(fn) > 0 && types != nil {
			for _, s := range p.fieldSt[types] {
				if s.Parent() == fn {
					add = fn
				}
			}
		}
	}

	if !need(r, "P06.schema", "function that adds a type to JSON schema", add != nil) {
		return
	}

	names := map[string]bool{}
	for _, v := range schemaTypes {
		names[v] = v != ""
	}

	for _, kind := range kindNames(p) {
		o := newOnce(r, "P06.schema", "JSON schema of type "+q(kind), p.Pos(add.Pos()))
		want := schemaTypes[kind]
		tl := AV{K: KSym, ID: "types"}
		sees := func(st *State, s string) {
			if !strings.Contains(" "+st.Get("n")+" ", " "+s+" ") {
				st.Set("n", strings.TrimSpace(st.Get("n")+" "+s))
			}
		}

		x := NewExplorer(p, &Client{
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				if lastField(addr.ID) == "Types" {
					st.AddLabel(tl, 1)

					return tl, true
				}

				return AV{}, false
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if CallName(ci.Common()) == "slices.Contains" && st.Label(args[0])&1 != 0 {
					if s, ok := constStr(args[1]); ok {
						n := st.fork()
						n.Top().Env[ci.(ssa.Value)] = boolAV(false)
						n.Top().Idx++
						x.enqueue(n)
						sees(st, s)

						return &CallRes{Val: boolAV(true)}
					}
				}

				return nil
			},
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				if s, ok := ins.(*ssa.Store); ok && isString(s.Val.Type()) {
					if v, ok := constStr(x.Eval(st, s.Val)); ok && !strings.HasPrefix(typeName(s.Val.Type()), "Type") {
						if _, elem := s.Addr.(*ssa.IndexAddr); elem {
							sees(st, v)
						}
					}
				}
			},
			Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
				c := x.Eval(st, ins.Cond)
				if c.K != KCmp || labelOf(st, c)&1 == 0 {
					return
				}

				for _, a := range []AV{*c.X, *c.Y} {
					if v, ok := constStr(a); ok && (c.Op == token.EQL) == taken {
						sees(st, v)
					}
				}
			},
			Exit: func(x *Explorer, st *State, kindOf string, results []AV) {
				if kindOf != "return" {
					o.fail(st, "type is not handled: "+kindOf)
				} else if st.Get("n") != want {
					o.fail(st, "JSON type is "+q(st.Get("n"))+" instead of "+q(want))
				}
			},
		})
		st := x.Initial(add)
		st.AddLabel(tl, 1)
		st.Frames[0].Env[add.Params[typeParam(add)]] = strAV(kind)
		x.Run(st)
		o.done(x)
	}

	// Callers pass all discovered types.
	n := 0

	for _, ci := range p.callers[add] {
		fn := rootFn(ci.Parent())
		if fn == add {
			continue
		}

		n++
		o := newOnce(r, "P06.schema.all", FnName(fn), p.Pos(fn.Pos()))
		fe := &ForEach{Name: "types of the key", Bit: 1, Bad: func(st *State, ins ssa.Instruction, msg string) { o.fail(st, msg) }}
		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool { return f == add },
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				if lastField(addr.ID) == "tt" {
					v := AV{K: KSym, ID: "@" + addr.ID, T: loadedType(addr, ins)}
					st.AddLabel(v, 1)

					return v, true
				}

				// Contents of schemas do not matter.
				if ins != nil && (typeName(deref(ins.Type())) == "jsonSchema" || strings.HasPrefix(ins.Type().String(), "map[")) {
					v := x.Fresh(st, ins, "")
					st.SetNil(v, notNil)

					return v, true
				}

				return AV{}, false
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if callee == add {
					fe.Hit(st)

					if st.Label(args[1])&1 == 0 {
						o.fail(st, "added type is not one of discovered types of the key")
					}
				}

				// A key without known parent is a bug.
				if fieldCallType(ci.Common()) == "Load" {
					v := AV{K: KSym, ID: "parent", T: p.Lib.Type("flKey").Type()}

					return &CallRes{Val: tupleOf([]AV{v, boolAV(true)})}
				}

				return nil
			},
			Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) { fe.Edge(x, st, ins, taken) },
			Exit: func(x *Explorer, st *State, kind string, results []AV) {
				if kind == "return" && fe.Status(st) != "x" {
					o.fail(st, "types of the key are not added")
				}
			},
		})
		st := x.Initial(fn)
		tt := AV{K: KSym, ID: "tt"}

		for _, prm := range fn.Params {
			if typeName(prm.Type()) == "flKey" {
				st.Mem["P:"+prm.Name()+".tt"] = tt
				st.AddLabel(tt, 1)
			}
		}

		x.Run(st)
		o.done(x)
	}

	need(r, "P06.schema.all", "callers of "+FnName(add), n > 0)
}

// fieldCallType is a method of a concurrent map.
func fieldCallType(cc *ssa.CallCommon) string {
	if isMapType(recvType(cc)) {
		return methodName(cc)
	}

	return ""
}

var kindOfCallback = map[string][]string{
	"FnObjectStop": {"object"}, "FnArrayStop": {"array"}, "FnString": {"string"}, "FnNumber": {"int", "float"}, "FnBool": {"bool"}, "FnNull": {"null"},
}

// p06Kinds checks types registered by callbacks of the first pass.
func p06Kinds(p *Prog, r *Report) {
	scans := map[*ssa.Function]bool{}
	for _, fn := range scanFns(p) {
		scans[fn] = true
	}

	isScan := func(ci ssa.CallInstruction) bool { return scans[ci.Common().StaticCallee()] }

	var names []string
	for n := range kindOfCallback {
		names = append(names, n)
	}

	sort.Strings(names)

	for _, name := range names {
		f := p.Field("FastWalker", name)
		if !need(r, "P06.kinds", "FastWalker."+name, f != nil) {
			continue
		}

		n := 0

		for _, fn := range p.fieldFns[f] {
			fn = boundTarget(fn)
			if !p.reachesCall(fn, isScan) {
				continue
			}

			n++

			o := newOnce(r, "P06.kinds", name+" "+FnName(rootFn(fn)), p.Pos(fn.Pos()))
			on := o

			if name == "FnNumber" {
				on = newOnce(r, "P06.number", FnName(rootFn(fn)), p.Pos(fn.Pos()))
			}

			p06Callback(p, fn, name, isScan, o, on)
		}

		if n == 0 {
			r.Fail("P06.kinds", name, "-", "no callback registers values of the kind in the first pass", nil)
		}
	}
}

func p06Callback(p *Prog, fn *ssa.Function, name string, isScan func(ci ssa.CallInstruction) bool, o, on *once) {
	const (
		bitVal = 1
		bitRaw = 2
	)

	allowed := kindOfCallback[name]
	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool {
			return f.Name() == "hashParentBytes" || f.Name() == "hashBytes"
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if isScan(ci) {
				k, ok := constStr(args[typeParam(ci.Common().StaticCallee())])
				good := false

				for _, a := range allowed {
					good = good || a == k
				}

				if !ok || !good {
					o.fail(st, "value is registered as "+q(k))
				}

				st.Set("reg", "1")

				if k == "int" && (st.Get("integral") != "1" || st.Get("literal") != "1") {
					on.fail(st, "a number is registered as int without a check that its literal is an integer")
				}

				return &CallRes{}
			}

			return p06Literal(x, st, ci, args, bitRaw)
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			c := x.Eval(st, ins.Cond)
			for c.K == KNot {
				c = *c.X
				taken = !taken
			}

			if c.K == KCmp && (c.Op == token.EQL || c.Op == token.NEQ) && st.Label(*c.X)&bitVal != 0 && st.Label(*c.Y)&bitVal != 0 && taken == (c.Op == token.EQL) {
				st.Set("integral", "1")
			}

			// math.Mod(value, 1) == 0 and similar.
			if c.K == KCmp && (c.Op == token.EQL || c.Op == token.NEQ) && (c.X.ID == "frac" || c.Y.ID == "frac") && taken == (c.Op == token.EQL) {
				st.Set("integral", "1")
			}
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			// Root element has no key.
			if kind == "return" && st.Get("reg") == "" && name != "FnObjectStop" && name != "FnArrayStop" {
				o.fail(st, "value is not registered")
			}
		},
	})
	st := x.Initial(fn)

	for _, prm := range fn.Params {
		switch prm.Type().String() {
		case "float64":
			st.AddLabel(st.Frames[0].Env[prm], bitVal)
		case "[]byte":
			if name == "FnNumber" && prm == fn.Params[len(fn.Params)-1] {
				st.AddLabel(st.Frames[0].Env[prm], bitRaw)
			}
		}
	}

	x.Run(st)
	o.done(x)

	if on != o {
		on.done(x)
	}
}

// p06Literal models tests of the text of a number.
func p06Literal(x *Explorer, st *State, ci ssa.CallInstruction, args []AV, bitRaw uint64) *CallRes {
	name := CallName(ci.Common())
	raw := len(args) > 0 && st.Label(args[0])&bitRaw != 0

	res := func(v AV) *CallRes { return &CallRes{Val: v} }
	v, _ := ci.(ssa.Value)

	fork := func(other AV) {
		n := st.fork()
		n.Top().Env[v] = other
		n.Top().Idx++
		x.enqueue(n)
	}

	switch name {
	case "math.Mod":
		return res(AV{K: KSym, ID: "frac", T: v.Type()})
	case "math.Trunc", "math.Floor", "math.Round", "math.Ceil":
		s := AV{K: KSym, ID: name + "(" + args[0].Key() + ")", T: v.Type()}
		st.AddLabel(s, st.Label(args[0]))

		return res(s)
	}

	if !raw {
		return nil
	}

	switch name {
	case "bytes.ContainsAny", "strings.ContainsAny", "bytes.IndexAny", "strings.IndexAny":
		set, ok := constStr(args[1])
		if !ok || !strings.Contains(set, ".") || !strings.Contains(set, "e") || !strings.Contains(set, "E") {
			return nil
		}

		if strings.HasSuffix(name, "IndexAny") {
			fork(constAV(constant.MakeInt64(1)))
			st.Set("literal", "1")

			return res(constAV(constant.MakeInt64(-1)))
		}

		fork(boolAV(true))
		st.Set("literal", "1")

		return res(boolAV(false))
	case "strconv.ParseInt", "strconv.Atoi":
		e := AV{K: KSym, ID: "notint", T: ErrorType}
		n := st.fork()
		n.SetNil(e, notNil)
		n.Top().Env[v] = tupleOf([]AV{{K: KSym, ID: "parsed"}, e})
		n.Top().Idx++
		x.enqueue(n)
		st.Set("literal", "1")
		st.Set("integral", "1")

		return res(tupleOf([]AV{{K: KSym, ID: "parsed"}, {K: KNil}}))
	}

	return nil
}

// p06Index: the type of index of a transposed table covers all indexes.
func p06Index(p *Prog, r *Report) {
	f := p.Field("baseWriter", "indexType")
	if !need(r, "P06.index", "baseWriter.indexType", f != nil) {
		return
	}

	upd := p.Method("Type", "Update")

	for _, s := range p.fieldSt[f] {
		c, ok := s.Val.(*ssa.Call)
		good := ok && isMerge(p, c.Call.StaticCallee()) && upd != nil && len(c.Call.Args) == 2

		if good {
			old, add := fieldOfValue(c.Call.Args[0]), fieldOfValue(c.Call.Args[1])
			if old != f {
				old, add = add, old
			}

			good = old == f && add != nil && add.Name() == "t"
		}

		r.Check(good, "P06.index", FnName(s.Parent()), p.InstrPos(s), "type of the index does not cover both array indexes and property names")
	}
}

// p06Const: types set without a value.
func p06Const(p *Prog, r *Report) {
	f := p.Field("flKey", "t")
	if !need(r, "P06.const", "flKey.t", f != nil) {
		return
	}

	for _, s := range p.fieldSt[f] {
		c, ok := s.Val.(*ssa.Const)
		if !ok || c.Value == nil {
			continue
		}

		k := constant.StringVal(c.Value)
		good := k == "string" || k == "json" || k == "object" || k == "array" || k == "" || k == "null"

		if !good && k == "int" {
			// The first column of a transposed table is the sequence.
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
				if ia, ok := fa.X.(*ssa.IndexAddr); ok {
					i, isC := ia.Index.(*ssa.Const)
					good = isC && i.Int64() == 0
				} else {
					good = literalOf(fa, "._sequence")
				}
			}
		}

		r.Check(good, "P06.const", FnName(s.Parent())+" "+q(k), p.InstrPos(s), "restricting type is set to a key without its values")
	}
}

// literalOf tells that a composite literal has the original name.
func literalOf(fa *ssa.FieldAddr, name string) bool {
	for _, ref := range *fa.X.Referrers() {
		f, ok := ref.(*ssa.FieldAddr)
		if !ok || fieldVar(f) == nil || fieldVar(f).Name() != "original" {
			continue
		}

		for _, s := range *f.Referrers() {
			if st, ok := s.(*ssa.Store); ok {
				if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && constant.StringVal(c.Value) == name {
					return true
				}
			}
		}
	}

	return false
}

// loadedType is the type of a loaded value, a field of a value has no load instruction.
func loadedType(addr AV, ins *ssa.UnOp) types.Type {
	if ins == nil {
		return addr.T
	}

	return ins.Type()
}
