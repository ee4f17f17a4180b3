package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const fastjsonPath = "github.com/vearutop/fastjson"

// jsonKinds are kinds of JSON values declared by the parser.
func jsonKinds(p *Prog) map[string]int64 {
	r := map[string]int64{}

	for _, imp := range p.Lib.Pkg.Imports() {
		if imp.Path() != fastjsonPath {
			continue
		}

		for _, n := range imp.Scope().Names() {
			c, ok := imp.Scope().Lookup(n).(*types.Const)
			if !ok || typeName(c.Type()) != "Type" || !c.Exported() {
				continue
			}

			if v, ok := constant.Int64Val(c.Val()); ok {
				r[strings.ToLower(strings.TrimPrefix(n, "Type"))] = v
			}
		}
	}

	return r
}

// args4 are arguments of a call of a callback or of the walk by their types.
type walkArgs struct {
	seq, flat, pl, path, val AV
	rest                     []AV
}

func splitArgs(ts *types.Tuple, args []AV) (w walkArgs) {
	for i := range ts.Len() {
		if i >= len(args) {
			break
		}

		t := ts.At(i).Type()

		switch {
		case t.String() == "int64" && w.seq.K == KTop:
			w.seq = args[i]
		case isBytes(t) && w.flat.K == KTop:
			w.flat = args[i]
		case t.String() == "int" && w.pl.K == KTop:
			w.pl = args[i]
		case isStrings(t) && w.path.K == KTop:
			w.path = args[i]
		default:
			w.rest = append(w.rest, args[i])
		}
	}

	if len(w.rest) > 0 {
		w.val = w.rest[0]
	}

	return w
}

type walkMode struct {
	name string
	scan bool
}

var walkModes = []walkMode{{"scan", true}, {"write", false}}

// walkKind explores the traversal of a value of a kind. Violations of what is reported go to val, of its identity to loc, of text of numbers to num.
func walkKind(p *Prog, fn *ssa.Function, kind string, code int64, mode walkMode, val, loc, num *once) *Explorer {
	const bitElems = 1

	var (
		sig    = fn.Signature.Params()
		params = fn.Params[1:]
		own    walkArgs
		object ssa.CallInstruction
	)

	fe := &ForEach{Name: "elements", Bit: bitElems, Bad: func(st *State, ins ssa.Instruction, msg string) { val.fail(st, msg) }}

	inc := func(st *State, k string) {
		switch st.Get(k) {
		case "":
			st.Set(k, "1")
		case "1":
			st.Set(k, "2")
		}
	}

	v, _ := constInt(constAV(constant.MakeInt64(code)))

	accessor := func(st *State, ci ssa.CallInstruction, recv AV, name string) *CallRes {
		if recv.ID != own.val.ID {
			return nil
		}

		ok := map[string]string{"Array": "array", "GetArray": "array", "Object": "object", "GetObject": "object", "StringBytes": "string", "GetStringBytes": "string",
			"Bool": "true false", "GetBool": "true false", "Float64": "number", "GetFloat64": "number"}

		want, known := ok[name]
		if !known || len(ci.Common().Args) > 1 && strings.HasPrefix(name, "Get") && elementsOf(st, ci) > 0 {
			return nil
		}

		res := AV{}

		switch name {
		case "Array", "GetArray":
			res = AV{K: KSym, ID: "array(v)", T: ci.Common().Signature().Results().At(0).Type()}
			st.AddLabel(res, bitElems)
			st.SetNil(res, notNil)
		case "Object", "GetObject":
			res = AV{K: KSym, ID: "object(v)", T: ci.Common().Signature().Results().At(0).Type()}
			st.SetNil(res, notNil)
		case "StringBytes", "GetStringBytes":
			res = textSym(st, "str(v)", 0)
		case "Bool", "GetBool":
			res = AV{K: KSym, ID: "bool(v)", T: types.Typ[types.Bool]}
			if kind == "true" || kind == "false" {
				res = boolAV(kind == "true")
			}
		case "Float64", "GetFloat64":
			res = AV{K: KSym, ID: "num(v)", T: types.Typ[types.Float64]}
		}

		if ci.Common().Signature().Results().Len() == 1 {
			return &CallRes{Val: res}
		}

		good := false
		for _, w := range strings.Fields(want) {
			good = good || w == kind
		}

		fail := AV{K: KSym, ID: "fails", T: ErrorType}
		st.SetNil(fail, notNil)

		if !good {
			return &CallRes{Val: tupleOf([]AV{res, fail})}
		}

		return &CallRes{Val: tupleOf([]AV{res, {K: KNil}})}
	}

	checkLoc := func(st *State, w walkArgs, keep bool) {
		switch {
		case w.seq.K != KTop && w.seq.Key() != own.seq.Key():
			loc.fail(st, "value is reported with another line number")
		case textKeyOf(w.flat) != textKeyOf(own.flat):
			loc.fail(st, "value is reported with another flat path")
		case w.pl.K != KTop && w.pl.Key() != own.pl.Key() && !(keep && w.pl.Key() == lenOf(own.flat).Key()):
			loc.fail(st, "value is reported with wrong length of parent path")
		case mode.scan && w.path.Key() != own.path.Key():
			loc.fail(st, "value is reported with another path")
		}
	}

	report := func(st *State, name string, w walkArgs) {
		keep := st.Get("kj") == "1"
		checkLoc(st, w, keep && (kind == "object" || kind == "array"))
		inc(st, "rep")

		text := textKeyOf(w.val)
		raw := "sraw(v)+"

		switch {
		case kind == "string":
			if name != "FnString" || text != "sstr(v)+" {
				val.fail(st, "string is not reported with its content")
			}
		case kind == "number" && name == "FnString":
			if st.Get("numerr") != "1" {
				num.fail(st, "a number is reported as a string")
			} else if text != raw {
				num.fail(st, "malformed number is not reported with its literal")
			}
		case kind == "number":
			if name != "FnNumber" || w.val.ID != "num(v)" || st.Get("numerr") == "1" {
				val.fail(st, "number is not reported with its value")
			}

			if len(w.rest) < 2 || textKeyOf(w.rest[1]) != raw {
				num.fail(st, "number is not reported with its literal")
			}
		case kind == "true" || kind == "false":
			b, ok := constBool(w.val)
			if name != "FnBool" || !ok || b != (kind == "true") {
				val.fail(st, "boolean is not reported with its value")
			}
		case kind == "null":
			if name != "FnNull" {
				val.fail(st, "null is reported by "+name)
			}
		default:
			if !keep {
				val.fail(st, kind+" is reported as a value without being configured to keep JSON")
			} else if name != "FnString" || text != raw {
				val.fail(st, "kept JSON is not reported as JSON text of the element")
			}
		}
	}

	recurse := func(st *State, w walkArgs) {
		fp := flatText(w.flat)

		if len(fp) < 2 || fp[0].Key() != own.flat.Key() {
			loc.fail(st, "flat path of a child does not extend flat path of its parent")

			return
		}

		if w.seq.Key() != own.seq.Key() {
			loc.fail(st, "line number of a child is not of its line")
		}

		if w.pl.Key() != lenOf(own.flat).Key() {
			loc.fail(st, "length of parent path of a child is not the length of flat path of the element that contains it")
		}

		rest := ""
		for _, e := range fp[1:] {
			rest += e.Key() + "+"
		}

		if mode.scan {
			if len(w.path.Bind) != 2 || w.path.Bind[0].Key() != own.path.Key() {
				loc.fail(st, "path of a child does not extend path of its parent with one segment")
			} else if seg := w.path.Bind[1]; textKeyOf(dotText(seg)) != rest {
				loc.fail(st, "last segments of path and of flat path of a child are different")
			}
		}

		switch {
		case strings.HasPrefix(w.val.ID, "el("):
			idx := strings.TrimSuffix(strings.TrimPrefix(w.val.ID, "el("), ")")
			if kind != "array" || (rest != `c".["+sitoa(`+idx+`)+c"]"+`) {
				loc.fail(st, "array element is not identified by its index")
			}

			if fe.Status(st) == "k" {
				val.fail(st, "array element is walked more than once")
			}

			fe.Hit(st)
		case strings.Contains(w.val.ID, "/arg:"):
			// Property passed to the callback.
			var key AV

			for _, f := range st.Frames {
				match := false

				for _, prm := range f.Fn.Params {
					if f.Env[prm].ID == w.val.ID {
						match = true
					}
				}

				if match {
					for _, prm := range f.Fn.Params {
						if isBytes(prm.Type()) {
							key = f.Env[prm]
						}
					}

					break
				}
			}

			if key.K == KTop || rest != `c"."+`+textKeyOf(key) {
				loc.fail(st, "property is not identified by its name")
			}

			if st.Get("visit") == "k" {
				val.fail(st, "property is walked more than once")
			}

			st.Set("visit", "k")
		case strings.HasPrefix(w.val.ID, "parsed"):
			if kind != "string" {
				val.fail(st, "parsed text is walked for a value that is not a string")
			}
		default:
			val.fail(st, "value of a child is not one of the parts of the element")
		}

		if st.Get("kj") == "1" && kind != "string" {
			val.fail(st, "children of an element that is kept as JSON are walked")
		}
	}

	x := NewExplorer(p, &Client{
		Callbacks: true,
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if ins == nil {
				return AV{}, false
			}

			switch f := lastField(addr.ID); {
			case f == "WantPath":
				return boolAV(mode.scan), true
			case f == "FnObjectStop" || f == "FnArrayStop":
				if !mode.scan {
					return AV{K: KNil, T: ins.Type()}, true
				}

				v := AV{K: KSym, ID: "@" + addr.ID, T: ins.Type()}
				st.SetNil(v, notNil)

				return v, true
			}

			if ia, ok := ins.X.(*ssa.IndexAddr); ok && x.Eval(st, ia.X).ID == "array(v)" {
				return AV{K: KSym, ID: "el(" + x.Eval(st, ia.Index).Key() + ")", T: ins.Type()}, true
			}

			return AV{}, false
		},
		Lookup: func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool) {
			if isText(ins.X.Type()) {
				return AV{}, false
			}

			f := loadedField(ins.X)
			if f == nil || f.Name() != "KeepJSON" {
				return AV{}, false
			}

			if textKeyOf(x.Eval(st, ins.Index)) != textKeyOf(own.flat) {
				val.fail(st, "keys to keep as JSON are not looked up by the flat path of the element")
			}

			res := func(b bool) AV {
				if ins.CommaOk {
					return tupleOf([]AV{boolAV(b), boolAV(b)})
				}

				return boolAV(b)
			}

			n := st.fork()
			n.Set("kj", "0")
			n.Top().Env[ins] = res(false)
			n.Top().Idx++
			x.enqueue(n)

			st.Set("kj", "1")

			return res(true), true
		},
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
			return textValue(x, st, ins)
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()

			if f := fieldOfCallee(cc); f != nil && strings.HasPrefix(f.Name(), "Fn") {
				w := splitArgs(cc.Signature().Params(), args)

				switch f.Name() {
				case "FnObjectStop", "FnArrayStop":
					checkLoc(st, w, false)
					inc(st, "struct")

					if (f.Name() == "FnObjectStop") != (kind == "object") {
						val.fail(st, kind+" is reported by "+f.Name())
					}

					if st.Get("rep")+st.Get("child") != "" {
						val.fail(st, kind+" is reported after its children")
					}

					n := st.fork()
					n.Set("stop", "1")
					n.Top().Env[ci.(ssa.Value)] = boolAV(true)
					n.Top().Idx++
					x.enqueue(n)

					return &CallRes{Val: boolAV(false)}
				}

				report(st, f.Name(), w)

				return nil
			}

			if callee == fn {
				recurse(st, splitArgs(sig, args[1:]))
				st.Set("child", "1")

				return &CallRes{Val: AV{K: KNil}}
			}

			if callee == nil {
				callee = cc.StaticCallee()
			}

			if callee == nil || callee.Signature.Recv() == nil || calleePkg(cc) != fastjsonPath {
				return nil
			}

			switch tn, name := typeName(deref(callee.Signature.Recv().Type())), callee.Name(); {
			case tn == "Value" && name == "Type":
				if args[0].ID == own.val.ID {
					return &CallRes{Val: constAV(constant.MakeInt64(v))}
				}
			case tn == "Value" && name == "MarshalTo":
				r := textSym(st, "raw("+args[0].ID+")", 0)
				if args[0].ID == own.val.ID {
					r = textSym(st, "raw(v)", 0)
				}

				return &CallRes{Val: addText(x, st, asText(x, st, args[1]), r)}
			case tn == "Value" && name == "String":
				if args[0].ID == own.val.ID {
					return &CallRes{Val: textSym(st, "raw(v)", 0)}
				}
			case tn == "Value" && name == "Float64" && args[0].ID == own.val.ID && kind == "number":
				n := st.fork()
				e := AV{K: KSym, ID: "fails", T: ErrorType}
				n.SetNil(e, notNil)
				n.Set("numerr", "1")
				n.Top().Env[ci.(ssa.Value)] = tupleOf([]AV{{K: KSym, ID: "bad"}, e})
				n.Top().Idx++
				x.enqueue(n)

				return &CallRes{Val: tupleOf([]AV{{K: KSym, ID: "num(v)", T: types.Typ[types.Float64]}, {K: KNil}})}
			case tn == "Value":
				return accessor(st, ci, args[0], name)
			case tn == "Object" && name == "Visit":
				if args[0].ID == "object(v)" {
					st.Set("visited", "1")

					object = ci
				}
			case tn == "Parser" && strings.HasPrefix(name, "Parse"):
				t := ""
				if len(args) > 1 {
					t = textKeyOf(asText(x, st, args[1]))
				}

				e := AV{K: KSym, ID: "parse error " + t, T: ErrorType}
				pv := AV{K: KSym, ID: "parsed " + t, T: cc.Signature().Results().At(0).Type()}
				delete(st.Facts, e.ID)
				delete(st.Facts, pv.ID)

				return &CallRes{Val: tupleOf([]AV{pv, e})}
			}

			return nil
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) { fe.Edge(x, st, ins, taken) },
		Enter: func(x *Explorer, st *State, f *ssa.Function, args []AV) {
			if object != nil && st.Top().Call == object {
				st.Set("visit", "p")
			}
		},
		Leave: func(x *Explorer, st *State, f *ssa.Function, results []AV) {
			if object != nil && st.Top().Call == object {
				if st.Get("visit") == "p" {
					val.fail(st, "a property of an object is skipped")
				}

				st.Set("visit", "")
			}
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" {
				val.fail(st, "traversal of "+kind+" ends with "+how)

				return
			}

			rep, stop := st.Get("rep"), st.Get("stop") == "1" && kind == "object"

			switch kind {
			case "array", "object":
				if mode.scan && st.Get("struct") != "1" {
					loc.fail(st, kind+" is not registered exactly once")
				}

				done := fe.Status(st) == "x"
				if kind == "object" {
					done = st.Get("visited") == "1"
				}

				switch {
				case stop:
				case st.Get("kj") == "1":
					if rep != "1" {
						val.fail(st, "element that is kept as JSON is not reported exactly once")
					}
				case !done:
					val.fail(st, "elements of "+kind+" are not walked")
				}
			default:
				if rep != "1" {
					o := val
					if kind == "number" && st.Get("numerr") == "1" {
						o = num
					}

					o.fail(st, kind+" is not reported exactly once: "+rep)
				}
			}
		},
	})

	st := x.Initial(fn)
	l := make([]AV, len(params))

	for i, prm := range params {
		l[i] = st.Frames[0].Env[prm]
	}

	own = splitArgs(sig, l)
	x.Run(st)

	if x.Err != nil {
		val.fail(nil, x.Err.Error())
	}

	return x
}

// dotText is a text with a leading dot.
func dotText(seg AV) AV {
	dot := strAV(".")

	return AV{K: KSym, ID: "dot", Op: token.ADD, X: &dot, Y: &seg}
}

func elementsOf(st *State, ci ssa.CallInstruction) int {
	// Get* accessors without keys return the value itself.
	a := ci.Common().Args[len(ci.Common().Args)-1]
	if c, ok := a.(*ssa.Const); ok && c.IsNil() {
		return 0
	}

	return 1
}

func constBool(a AV) (bool, bool) {
	if a.K == KConst && a.C.Kind() == constant.Bool {
		return constant.BoolVal(a.C), true
	}

	return false, false
}

func discard() *once { return newOnce(NewReport(""), "x", "x", "-") }
