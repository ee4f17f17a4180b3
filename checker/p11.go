package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P11"] = p11 }

func p11(p *Prog, r *Report) {
	r.Rule("P11.walk", "children are walked with flat path, list of segments and length of parent path of the element that contains them, values are reported with the identity of their element", 14)
	r.Rule("P11.key", "callback of a pass identifies a value by the hash of its flat path and its parent by the hash of the parent part of it", 10)
	r.Rule("P11.text", "text of a key is made of its path segments", 1)

	if fn := p.Method("FastWalker", "WalkFastJSON"); need(r, "P11.walk", "FastWalker.WalkFastJSON", fn != nil) {
		kinds := jsonKinds(p)

		var names []string
		for k := range kinds {
			names = append(names, k)
		}

		sort.Strings(names)

		for _, k := range names {
			for _, m := range walkModes {
				o := newOnce(r, "P11.walk", k+" ("+m.name+")", p.Pos(fn.Pos()))
				o.done(walkKind(p, fn, k, kinds[k], m, discard(), o, discard()))
			}
		}
	}

	r.Rule("P11.service", "sequence number and groups of line prefix are reported with a flat path that matches segments, at the root", 2)
	r.Rule("P11.single", "the key that is read without traversal is identified by the text of its own path", 4)
	r.Rule("P11.index", "tables of keys of the second pass are filled with the hash and the properties of the same key", 1)

	p11Keys(p, r)
	p11Text(p, r)
	p11Service(p, r)
	p11Single(p, r)
	p11Index(p, r)
}

// walkCallbacks are functions that receive values of a pass.
func walkCallbacks(p *Prog) []*ssa.Function {
	t := p.Lib.Type("FastWalker")
	if t == nil {
		return nil
	}

	var (
		res []*ssa.Function
		s   = structOf(t.Type())
	)

	for i := range s.NumFields() {
		if f := s.Field(i); strings.HasPrefix(f.Name(), "Fn") {
			for _, g := range p.fieldFns[f] {
				res = appendFn(res, g)
			}
		}
	}

	return res
}

// keyed is an access to a map with hashes of keys.
func keyedMap(t types.Type) bool {
	m, ok := deref(t).Underlying().(*types.Map)

	return ok && m.Key().String() == "uint64"
}

func hashMapOf(cc *ssa.CallCommon) bool {
	return strings.Contains(recvType(cc), "xsync/v3.MapOf[uint64")
}

func p11Keys(p *Prog, r *Report) {
	for _, fn := range walkCallbacks(p) {
		o := newOnce(r, "P11.key", FnName(fn), p.Pos(fn.Pos()))
		n := 0
		h := &Hashes{}
		path := AV{}

		check := func(st *State, key AV, field string) {
			n++

			t, ok := h.text(key)
			parent := field == "parentHighCardinality" || field == "parentCardinality"
			want, what := h.flat, "flat path of the value"

			if parent {
				want, what = sliceOf(st, h.flat, AV{}, h.pl, nil), "flat path of the parent"
			}

			if !ok || h.canon(st, t) != h.canon(st, want) {
				o.fail(st, "key of "+field+" is not the hash of the "+what+": "+key.Key())
			}
		}

		fieldName := func(v ssa.Value) string {
			f := loadedField(v)
			if f == nil {
				f = fieldVar(v)
			}

			if f == nil {
				return "map"
			}

			return f.Name()
		}

		isKey := func(st *State, v AV) bool {
			t, ok := h.text(v)

			return ok && h.canon(st, t) == h.canon(st, h.flat)
		}

		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool {
				return !nestedIn(f, rootFn(fn)) && !p.reachesFn(f, func(g *ssa.Function) bool { return touchesHash(g) })
			},
			InlineCall: func(st *State, f *ssa.Function, args []AV) bool { return KeyText(f) || takesKey(f) },
			Keep:       func(id string, t types.Type) bool { return strings.HasPrefix(id, "len(") || id == h.pl.ID },
			Edge:       h.edge,
			Value:      func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
			Lookup: func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool) {
				if keyedMap(ins.X.Type()) {
					check(st, x.Eval(st, ins.Index), fieldName(ins.X))
				}

				return AV{}, false
			},
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				if m, ok := ins.(*ssa.MapUpdate); ok && keyedMap(m.Map.Type()) {
					check(st, x.Eval(st, m.Key), fieldName(m.Map))
				}
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if res := h.call(x, st, ci, callee, args); res != nil {
					return res
				}

				cc := ci.Common()

				// Changes of a key that are not related to its identity.
				if callee != nil && p.InRepo(callee) && takesKey(callee) && !p.reachesFn(callee, func(g *ssa.Function) bool {
					return touchesHash(g) || storesAny(g, "flKey", "original", "path", "parent")
				}) {
					return &CallRes{Val: AV{K: KTop}}
				}

				// Registration of another element by the same code.
				if callee != nil && p.InRepo(callee) && onStack(st, callee) && len(args) > 2 {
					p11Other(p, o, st, h, callee, args)
				}

				if !hashMapOf(cc) || len(args) < 2 || cc.Args[1].Type().String() != "uint64" {
					return nil
				}

				f := fieldName(cc.Args[0])
				check(st, args[1], f)

				switch {
				case methodName(cc) == "Load" && f == "flKeys":
					id := x.id(st.Top(), ci.(ssa.Value))
					v := AV{K: KSym, ID: "loaded(" + args[1].Key() + ")", T: cc.Signature().Results().At(0).Type()}
					b := AV{K: KSym, ID: id + "#ok", T: types.Typ[types.Bool]}
					delete(st.Facts, b.ID)

					return &CallRes{Val: tupleOf([]AV{v, b})}
				case methodName(cc) == "Store" && f == "flKeys":
					if isKey(st, args[1]) {
						p11Store(p, o, x, st, h, path, cc.Args[2], args)
					}
				}

				return nil
			},
		})

		st := x.Initial(fn)
		l := make([]AV, len(fn.Params))

		for i, prm := range fn.Params {
			l[i] = st.Frames[0].Env[prm]
		}

		w := splitArgs(fn.Signature.Params(), l)
		h.flat, h.pl, path = w.flat, w.pl, w.path
		x.Run(st)

		if n == 0 {
			o.fail(nil, "callback does not use the key of the value")
		}

		o.done(x)
	}
}

func onStack(st *State, fn *ssa.Function) bool {
	for _, f := range st.Frames {
		if f.Fn == fn {
			return true
		}
	}

	return false
}

// touchesHash tells that a function works with hashes of keys.
func touchesHash(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Lookup:
				if keyedMap(i.X.Type()) {
					return true
				}
			case *ssa.MapUpdate:
				if keyedMap(i.Map.Type()) {
					return true
				}
			case ssa.CallInstruction:
				if hashMapOf(i.Common()) || calleePkg(i.Common()) == hashPath {
					return true
				}
			}
		}
	}

	return false
}

// takesKey tells that a function can change a key.
func takesKey(fn *ssa.Function) bool {
	for _, prm := range fn.Params {
		if t, ok := prm.Type().(*types.Pointer); ok && typeName(t.Elem()) == "flKey" {
			return true
		}
	}

	return false
}

// KeyText tells that a function makes a text of a list of path segments.
func KeyText(fn *ssa.Function) bool {
	s := fn.Signature

	return s.Results().Len() == 1 && isString(s.Results().At(0).Type()) && s.Params().Len() == 1 && isStrings(s.Params().At(0).Type())
}

// keyTextOf is the text of a key with the path.
func keyTextOf(st *State, path AV) string { return `c"."+sjoin(` + path.Key() + `,.)+` }

// p11Other checks identity of an element that is registered together with the value (parent with high cardinality).
func p11Other(p *Prog, o *once, st *State, h *Hashes, callee *ssa.Function, args []AV) {
	var (
		key  AV
		path AV
	)

	for i, prm := range callee.Params {
		if key.K == KTop && prm.Type().String() == "uint64" {
			key = args[i]
		}

		if isStrings(prm.Type()) {
			path = args[i]
		}
	}

	if key.K == KTop || path.K == KTop {
		return
	}

	want := keyTextOf(st, copied(st, path))
	if t, ok := h.text(key); !ok || h.canon(st, t) != want {
		o.fail(st, "an element is registered with a key that is not the hash of the text of its path")
	}
}

func p11Store(p *Prog, o *once, x *Explorer, st *State, h *Hashes, path AV, arg ssa.Value, args []AV) {
	f := func(name string) AV {
		return keyField(x, st, arg, args[2], name, p.Field("flKey", name).Type())
	}

	loaded := "@loaded(" + args[1].Key() + ")."
	if v := f("original"); v.ID != loaded+"original" {
		if textKeyOf(v) != keyTextOf(st, path) {
			o.fail(st, "key is registered with a text that is not made of its path")
		}

		if v := copied(st, f("path")); v.Key() != path.Key() {
			o.fail(st, "key is registered with another path: "+v.Key())
		}

		t, ok := h.text(f("parent"))
		if !ok || h.canon(st, t) != h.canon(st, sliceOf(st, h.flat, AV{}, h.pl, nil)) {
			o.fail(st, "key is registered with a parent that is not the element that contains it")
		}
	}
}

// p11Text checks functions that make a text of path segments.
func p11Text(p *Prog, r *Report) {
	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || !KeyText(fn) {
			continue
		}

		o := newOnce(r, "P11.text", FnName(fn), p.Pos(fn.Pos()))
		n := 0

		x := NewExplorer(p, &Client{
			Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				if how != "return" {
					return
				}

				n++

				if len(results) != 1 || textKeyOf(results[0]) != keyTextOf(st, AV{K: KSym, ID: "P:" + fn.Params[0].Name()}) {
					o.fail(st, "text of a key is not a dot followed by its segments joined with dots")
				}
			},
		})
		x.Run(x.Initial(fn))

		if n == 0 {
			o.fail(nil, "function does not return")
		}

		o.done(x)
	}
}

// p11Service checks values that are not elements of JSON.
func p11Service(p *Prog, r *Report) {
	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || recvIs(rootFn(fn), "FastWalker") || isWalkFn(fn.Signature) {
			continue
		}

		sites := map[ssa.CallInstruction]*once{}

		for _, ci := range callsOf(fn) {
			if cc := ci.Common(); cc.StaticCallee() == nil && isWalkFn(cc.Signature()) {
				sites[ci] = newOnce(r, "P11.service", FnName(fn)+" "+p.InstrPos(ci), p.InstrPos(ci))
			}
		}

		if len(sites) == 0 {
			continue
		}

		seen := map[*once]bool{}

		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool {
				return f.Signature.Results().Len() != 1 || !isText(f.Signature.Results().At(0).Type())
			},
			Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				o := sites[ci]
				if o == nil {
					return nil
				}

				seen[o] = true
				w := splitArgs(ci.Common().Signature().Params(), args)
				el, ok := elements(st, w.path)
				t := strAV("")
				for _, e := range el {
					t = addText(x, st, addText(x, st, t, strAV(".")), e)
				}

				if !ok || textKeyOf(asText(x, st, w.flat)) != textKeyOf(t) {
					o.fail(st, "flat path of a value does not match its list of segments")
				}

				if n, ok := constInt(w.pl); !ok || n != 0 {
					o.fail(st, "value at the root is reported with another parent")
				}

				return nil
			},
		})
		x.Run(x.Initial(fn))

		for _, o := range sites {
			if !seen[o] {
				o.fail(nil, "call is not reachable")
			}

			o.done(x)
		}
	}
}

// isWalkFn tells that a function receives values of a line.
func isWalkFn(s *types.Signature) bool {
	t := s.Params()

	return t.Len() >= 4 && t.At(0).Type().String() == "int64" && isBytes(t.At(1).Type()) && t.At(2).Type().String() == "int" && isStrings(t.At(3).Type())
}

// p11Single checks identity of the key that is read without traversal.
func p11Single(p *Prog, r *Report) {
	for _, name := range []string{"singleKeyHash", "singleKeyFlat", "singleKeyPath"} {
		var f *types.Var

		for _, t := range []string{"writeIterator", "Reader"} {
			if v := p.Field(t, name); v != nil {
				f = v
			}
		}

		if !need(r, "P11.single", name, f != nil) {
			continue
		}

		n := 0

		for _, fn := range p.Funcs {
			if fn.Pkg != p.Lib || !storesField(fn, f) {
				continue
			}

			n++
			o := newOnce(r, "P11.single", name+" in "+FnName(fn), p.Pos(fn.Pos()))
			h := &Hashes{}
			seen := false

			x := NewExplorer(p, &Client{
				NoInline:   func(g *ssa.Function) bool { return !touchesHash(g) },
				InlineCall: func(st *State, g *ssa.Function, args []AV) bool { return KeyText(g) },
				Keep:       func(id string, t types.Type) bool { return strings.HasPrefix(id, "len(") },
				Edge:       h.edge,
				Value:      func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
				Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
					if s := ci.Common().Signature(); s.Results().Len() > 0 && typeName(s.Results().At(0).Type()) == "flKey" {
						l := []AV{{K: KSym, ID: "single", T: s.Results().At(0).Type()}}
						for i := 1; i < s.Results().Len(); i++ {
							l = append(l, AV{K: KSym, ID: x.id(st.Top(), ci.(ssa.Value)) + "#b", T: s.Results().At(i).Type()})
						}

						return &CallRes{Val: tupleOf(l)}
					}

					return h.call(x, st, ci, callee, args)
				},
				Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
					s, ok := ins.(*ssa.Store)
					if !ok || fieldVar(s.Addr) != f {
						return
					}

					seen = true
					v := x.Eval(st, s.Val)
					path := ".path"

					if name == "singleKeyPath" {
						if v.K != KNil && !strings.HasSuffix(copied(st, v).ID, path) {
							o.fail(st, "path is not the path of the only key: "+v.Key())
						}

						return
					}

					t, ok := v, true
					if name == "singleKeyHash" {
						t, ok = h.text(v)
					} else {
						t = asText(x, st, v)
					}

					k := h.canon(st, t)
					if !ok || !strings.HasPrefix(k, `c"."+sjoin(`) || !strings.HasSuffix(k, path+",.)+") {
						o.fail(st, "value is not made of the path of the only key: "+k)
					}
				},
			})
			x.Run(x.Initial(fn))

			if !seen {
				o.fail(nil, "assignment is not reachable")
			}

			o.done(x)
		}

		need(r, "P11.single", "assignment of "+name, n > 0)
	}

	fn := p.Method("FastWalker", "GetKey")
	if !need(r, "P11.single", "FastWalker.GetKey", fn != nil) {
		return
	}

	o := newOnce(r, "P11.single", FnName(fn), p.Pos(fn.Pos()))
	n := 0

	var own walkArgs

	x := NewExplorer(p, &Client{
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if callee == nil || !recvIs(callee, "FastWalker") || !isWalkFn(ci.Common().Signature()) && !(len(args) > 0 && callee.Signature.Recv() != nil && isWalkFn(callee.Signature)) {
				return nil
			}

			n++
			a := args
			if callee.Signature.Recv() != nil {
				a = args[1:]
			}

			w := splitArgs(callee.Signature.Params(), a)
			h := &Hashes{flat: own.flat}

			if w.seq.Key() != own.seq.Key() || w.path.Key() != own.path.Key() || strings.Replace(h.canon(st, asText(x, st, w.flat)), "{?:"+lenOf(own.flat).Key()+"}", "", 1) != h.canon(st, own.flat) {
				o.fail(st, "the only key is walked with another identity")
			}

			return &CallRes{Val: AV{K: KTop}}
		},
	})
	st := x.Initial(fn)
	l := make([]AV, 0, len(fn.Params))

	for _, prm := range fn.Params[1:] {
		l = append(l, st.Frames[0].Env[prm])
	}

	own = splitArgs(fn.Signature.Params(), l)
	x.Run(st)

	if n == 0 {
		o.fail(nil, "the only key is not walked")
	}

	o.done(x)
}

func storesField(fn *ssa.Function, f *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok && fieldVar(s.Addr) == f {
				return true
			}
		}
	}

	return false
}

// p11Index checks tables of keys of the second pass.
func p11Index(p *Prog, r *Report) {
	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Signature.Params().Len() != 2 || fn.Signature.Params().At(0).Type().String() != "uint64" || typeName(fn.Signature.Params().At(1).Type()) != "flKey" {
			continue
		}

		upd := false

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MapUpdate); ok && keyedMap(m.Map.Type()) {
					upd = true
				}
			}
		}

		if !upd {
			continue
		}

		o := newOnce(r, "P11.index", FnName(fn), p.Pos(fn.Pos()))

		x := NewExplorer(p, &Client{
			Lookup: func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool) {
				k := x.Eval(st, ins.Index)
				v := AV{K: KSym, ID: "at(" + k.Key() + ")", T: ins.X.Type().Underlying().(*types.Map).Elem()}

				if ins.CommaOk {
					b := AV{K: KSym, ID: x.id(st.Top(), ins) + "#ok", T: types.Typ[types.Bool]}
					delete(st.Facts, b.ID)

					return tupleOf([]AV{v, b}), true
				}

				return v, true
			},
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				m, ok := ins.(*ssa.MapUpdate)
				if !ok || !keyedMap(m.Map.Type()) {
					return
				}

				n++

				if k := x.Eval(st, m.Key); k.ID != "P:"+fn.Params[0].Name() {
					o.fail(st, "table of keys is filled with another key")
				}

				if v := x.Eval(st, m.Value); !strings.Contains(v.ID, "P:"+fn.Params[1].Name()) {
					o.fail(st, "table of keys is filled with a value of another key: "+v.Key())
				}
			},
		})
		x.Run(x.Initial(fn))
		o.done(x)
	}

	need(r, "P11.index", "tables of keys of the second pass", n > 0)
}

// storesAny tells that a function assigns a field of the type or a value of the type as a whole.
func storesAny(fn *ssa.Function, typ string, fields ...string) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}

			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				if typeName(s.Val.Type()) == typ {
					return true
				}

				continue
			}

			if typeName(deref(fa.X.Type())) != typ {
				continue
			}

			for _, f := range fields {
				if fieldVar(fa).Name() == f {
					return true
				}
			}
		}
	}

	return false
}
