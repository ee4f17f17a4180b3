package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P32"] = p32 }

// p32 checks that values of the only key are found without traversal exactly where the traversal finds them.
func p32(p *Prog, r *Report) {
	r.Rule("P32.mode", "direct lookup is used only for a single column that has a single source, and nothing is extracted from values", 1)
	r.Rule("P32.use", "key for the lookup is used only when it is the single one", 1)
	r.Rule("P32.descend", "lookup descends into every part of an element that is named by the next segment of the path, and into no other", 4)
	r.Rule("P32.line", "every parsed line is either traversed, or the key is looked up in it once", 1)
	r.Rule("P32.filter", "only values of other keys are left out", 1)
	r.Rule("P32.start", "lookup starts at the root of the line with the whole path", 1)

	p32Mode(p, r)
	p32Use(p, r)
	p32Descend(p, r)
	p32Line(p, r)
	p32Filter(p, r)
}

func p32Mode(p *Prog, r *Report) {
	fn := p.Method("Processor", "singleKey")
	if !need(r, "P32.mode", "Processor.singleKey", fn != nil) {
		return
	}

	o := newOnce(r, "P32.mode", FnName(fn), p.Pos(fn.Pos()))
	n := 0

	isCounter := func(v AV) bool {
		return v.K == KSym && strings.Contains(v.ID, "cb:")
	}

	// single tells that a condition holds only for a single source.
	single := func(c AV, taken bool) bool {
		for c.K == KNot {
			c, taken = *c.X, !taken
		}

		if c.K != KCmp || (c.Op == token.EQL) != taken || c.Op != token.EQL && c.Op != token.NEQ {
			return false
		}

		return isOne(*c.Y) && isCounter(*c.X)
	}

	x := NewExplorer(p, &Client{
		Callbacks: true,
		Keep:      func(id string, t types.Type) bool { return strings.HasPrefix(id, "@") },
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
			switch i := ins.(type) {
			case *ssa.Call:
				if isLenCall(i) {
					if f := loadedField(i.Call.Args[0]); f != nil {
						return AV{K: KSym, ID: "@len:" + f.Name(), T: i.Type()}, true
					}
				}
			}

			return AV{}, false
		},
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if ins == nil {
				return AV{}, false
			}

			if f := fieldVar(ins.X); f != nil {
				switch f.Name() {
				case "ExtractStrings":
					return AV{K: KSym, ID: "@ExtractStrings", T: ins.Type()}, true
				case "canonical":
					if of, ok := strings.CutSuffix(addr.ID, ".canonical"); ok && st.Mem[of].ID == "@key" {
						return AV{K: KSym, ID: "@canonical:key", T: ins.Type()}, true
					}

					fa, _ := ins.X.(*ssa.FieldAddr)
					if ia, ok := fa.X.(*ssa.IndexAddr); ok && firstKey(x, st, ia) {
						return AV{K: KSym, ID: "@canonical:key", T: ins.Type()}, true
					}
				}
			}

			if ia, ok := ins.X.(*ssa.IndexAddr); ok && firstKey(x, st, ia) {
				return AV{K: KSym, ID: "@key", T: ins.Type()}, true
			}

			return AV{}, false
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			c := x.Eval(st, ins.Cond)
			for c.K == KNot {
				c, taken = *c.X, !taken
			}

			if c.ID == "@ExtractStrings" && !taken {
				st.Set("noextract", "1")
			}

			if single(c, taken) {
				st.Set("single", "1")
			}

			if c.K != KCmp || c.Op != token.EQL && c.Op != token.NEQ {
				if c.K == KCmp && c.X.ID == "@len:extractRegex" && c.Op == token.GTR && !taken {
					if k, ok := constInt(*c.Y); ok && k == 0 {
						st.Set("noregex", "1")
					}
				}

				return
			}

			eq := (c.Op == token.EQL) == taken
			k, isInt := constInt(*c.Y)

			switch {
			case isInt && k == 1 && eq && c.X.ID == "@len:includeKeys":
				st.Set("include", "1")
			case isInt && k == 1 && eq && c.X.ID == "@len:keys":
				st.Set("keys", "1")
			case isInt && k == 0 && eq && c.X.ID == "@len:extractRegex", eq && c.Y.K == KNil && strings.HasSuffix(c.X.ID, ".extractRegex"):
				st.Set("noregex", "1")
			}

			a, b := c.X.ID, c.Y.ID
			if strings.HasSuffix(b, ".canonical") {
				a, b = b, a
			}

			if strings.HasSuffix(a, ".canonical") && strings.Contains(a, "/arg:") && (b == "@canonical:key" || strings.HasSuffix(b, "@key.canonical")) {
				if eq {
					st.Set("same", "y")
				} else {
					st.Set("same", "n")
				}
			}
		},
		Enter: func(x *Explorer, st *State, fn *ssa.Function, args []AV) {
			if isKeyCallback(fn) {
				st.Set("same", "")
				st.Set("inc", "")
			}
		},
		Leave: func(x *Explorer, st *State, fn *ssa.Function, res []AV) {
			if !isKeyCallback(fn) {
				return
			}

			n++

			switch same, inc := st.Get("same"), st.Get("inc"); {
			case same == "":
				o.fail(st, "a key is not compared with the column")
			case same == "y" && inc != "1":
				o.fail(st, "a source of the column is not counted once")
			case same == "n" && inc != "":
				o.fail(st, "a key that is not a source of the column is counted")
			}

			if len(res) == 1 {
				if b, ok := constBool(res[0]); !ok || !b {
					o.fail(st, "not all keys are counted")
				}
			}
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			s, ok := ins.(*ssa.Store)
			if !ok || !isKeyCallback(s.Parent()) || !isInteger(s.Val.Type()) {
				return
			}

			v := x.Eval(st, s.Val)
			if v.Op == token.ADD && isOne(*v.Y) && isCounter(*v.X) {
				st.Set("inc", st.Get("inc")+"1")
			} else if v.K == KConst {
				st.Set("inc", st.Get("inc")+"=")
			}
		},
		Exit: func(x *Explorer, st *State, kind string, res []AV) {
			if kind != "return" || len(res) != 2 {
				return
			}

			if b, ok := constBool(res[1]); ok && !b {
				return
			}

			// No keys, no sources.
			if k := res[1]; k.K == KCmp && k.X.K == KConst && k.Y.K == KConst {
				return
			}

			for _, f := range [][2]string{
				{"include", "more than one key is requested"}, {"keys", "there is more than one column"},
				{"noextract", "JSON is extracted from strings"}, {"noregex", "values are extracted with regular expressions"},
			} {
				if st.Get(f[0]) == "" {
					o.fail(st, "direct lookup is used when "+f[1])
				}
			}

			if st.Get("single") == "" && !single(res[1], true) {
				o.fail(st, "direct lookup is used when the column has many sources")
			}

			if res[0].ID != "@key" {
				o.fail(st, "key of the lookup is not the key of the column: "+res[0].Key())
			}
		},
	})
	x.Run(x.Initial(fn))
	need(r, "P32.mode", "count of sources", n > 0)
	o.done(x)
}

func isKeyCallback(fn *ssa.Function) bool {
	if fn.Parent() == nil && fn.Synthetic == "" {
		return false
	}

	for _, prm := range fn.Params {
		if typeName(prm.Type()) == "flKey" {
			return true
		}
	}

	return false
}

// firstKey tells that an address is of the first column.
func firstKey(x *Explorer, st *State, ia *ssa.IndexAddr) bool {
	f := loadedField(ia.X)
	n, ok := constInt(x.Eval(st, ia.Index))

	return f != nil && f.Name() == "keys" && ok && n == 0
}

func p32Use(p *Prog, r *Report) {
	fields := map[string]bool{"singleKeyHash": true, "singleKeyFlat": true, "singleKeyPath": true}
	total := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib {
			continue
		}

		stores := false

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if f := fieldVar(s.Addr); f != nil && fields[f.Name()] {
						stores = true
					}
				}
			}
		}

		if !stores {
			continue
		}

		o := newOnce(r, "P32.use", FnName(fn), p.Pos(fn.Pos()))

		x := NewExplorer(p, &Client{
			NoInline: func(*ssa.Function) bool { return true },
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if s := ci.Common().Signature(); s.Results().Len() == 2 && typeName(s.Results().At(0).Type()) == "flKey" {
					b := AV{K: KSym, ID: "@single", T: s.Results().At(1).Type()}
					delete(st.Facts, b.ID)
					st.Set("single", "")

					return &CallRes{Val: tupleOf([]AV{{K: KSym, ID: "single", T: s.Results().At(0).Type()}, b})}
				}

				return nil
			},
			Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
				c := x.Eval(st, ins.Cond)
				for c.K == KNot {
					c, taken = *c.X, !taken
				}

				if c.ID == "@single" && taken {
					st.Set("single", "1")
				}
			},
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				s, ok := ins.(*ssa.Store)
				if !ok {
					return
				}

				f := fieldVar(s.Addr)
				if f == nil || !fields[f.Name()] {
					return
				}

				total++

				v := x.Eval(st, s.Val)
				if c, isConst := constInt(v); v.K == KNil || isConst && c == 0 {
					return
				}

				if st.Get("single") == "" {
					o.fail(st, f.Name()+" is set for a key that is not the only one")
				}
			},
		})
		x.Run(x.Initial(fn))
		o.done(x)
	}

	need(r, "P32.use", "assignments of the key", total > 0)
}

func isJSONValue(t types.Type) bool { return strings.HasSuffix(t.String(), "fastjson.Value") }

// lookupArgs are arguments of a lookup: list of segments of the key and what is left of it, they come in this order.
type lookupArgs struct {
	seq, flat, path, rest, val AV
}

func lookupOf(s *types.Tuple, args []AV) lookupArgs {
	l := lookupArgs{}

	for i := 0; i < s.Len() && i < len(args); i++ {
		switch t := s.At(i).Type(); {
		case t.String() == "int64":
			l.seq = args[i]
		case isBytes(t):
			l.flat = args[i]
		case isStrings(t) && l.path.K == KTop:
			l.path, l.rest = args[i], args[i]
		case isStrings(t):
			l.rest = args[i]
		case isJSONValue(t):
			l.val = args[i]
		}
	}

	return l
}

func p32Descend(p *Prog, r *Report) {
	start, fn, walk := p.Method("FastWalker", "GetKey"), p.Method("FastWalker", "getKey"), p.Method("FastWalker", "WalkFastJSON")
	if !need(r, "P32.start", "FastWalker.GetKey", start != nil) || !need(r, "P32.descend", "FastWalker.getKey", fn != nil) || !need(r, "P32.descend", "FastWalker.WalkFastJSON", walk != nil) {
		return
	}

	p32Start(p, r, start, fn)

	kinds := jsonKinds(p)

	var names []string
	for k := range kinds {
		names = append(names, k)
	}

	sort.Strings(names)

	for _, k := range names {
		for _, end := range []bool{true, false} {
			what := k + ", part of the path"
			if end {
				what = k + ", end of the path"
			}

			o := newOnce(r, "P32.descend", what, p.Pos(fn.Pos()))
			d := &descend{p: p, fn: fn, walk: walk, kind: k, code: int64(kinds[k]), end: end, o: o}
			o.done(d.explore())
		}
	}
}

func p32Start(p *Prog, r *Report, start, fn *ssa.Function) {
	o := newOnce(r, "P32.start", FnName(start), p.Pos(start.Pos()))

	var own lookupArgs

	x := NewExplorer(p, &Client{
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if callee != fn {
				return nil
			}

			if st.Get("started") != "" {
				o.fail(st, "value is looked up twice")
			}

			st.Set("started", "1")

			l := lookupOf(callee.Signature.Params(), args[1:])
			if l.seq.Key() != own.seq.Key() || l.path.Key() != own.path.Key() || l.rest.Key() != own.path.Key() || l.val.Key() != own.val.Key() {
				o.fail(st, "lookup does not start at the root with the whole path")
			}

			return &CallRes{Val: AV{K: KTop}}
		},
		Exit: func(_ *Explorer, st *State, kind string, _ []AV) {
			if kind == "return" && st.Get("started") == "" {
				o.fail(st, "value is not looked up")
			}
		},
	})
	st := x.Initial(start)
	l := make([]AV, 0, len(start.Params))

	for _, prm := range start.Params[1:] {
		l = append(l, st.Frames[0].Env[prm])
	}

	own = lookupOf(start.Signature.Params(), l)
	x.Run(st)
	o.done(x)
}

type descend struct {
	p        *Prog
	fn, walk *ssa.Function
	kind     string
	code     int64
	end      bool
	o        *once
	own      lookupArgs
}

const segKey = "sseg+"

func (d *descend) explore() *Explorer {
	o := d.o

	x := NewExplorer(d.p, &Client{
		Callbacks: true,
		NoInline:  func(g *ssa.Function) bool { return g == d.walk },
		Value:     d.value,
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if ins == nil {
				return AV{}, false
			}

			ia, ok := ins.X.(*ssa.IndexAddr)
			if !ok {
				return AV{}, false
			}

			i := x.Eval(st, ia.Index)

			switch b := x.Eval(st, ia.X); {
			case b.Key() == d.own.rest.Key():
				if n, ok := constInt(i); ok && n == 0 {
					return textSym(st, "seg", 0), true
				}
			case b.ID == "array(v)":
				return AV{K: KSym, ID: "el(" + i.Key() + ")", T: ins.Type()}, true
			}

			return AV{}, false
		},
		Call: d.call,
		Edge: d.edge,
		Enter: func(x *Explorer, st *State, fn *ssa.Function, args []AV) {
			if isVisitor(fn) {
				st.Set("prop", "")
				st.Set("hits", "")
			}
		},
		Leave: func(x *Explorer, st *State, fn *ssa.Function, res []AV) {
			switch prop := st.Get("prop"); {
			case !isVisitor(fn):
			case prop == "":
				o.fail(st, "property is skipped without comparison of its name with the next segment of the path")
			case prop != "other" && st.Get("hits") == "":
				o.fail(st, "property that is named by the next segment of the path is skipped")
			}
		},
		Exit: func(_ *Explorer, st *State, kind string, _ []AV) {
			if kind != "return" {
				return
			}

			switch {
			case d.end:
				if st.Get("walk") != "1" {
					o.fail(st, "value at the end of the path is not walked once")
				}
			case d.kind == "array":
				if st.Get("elem") == "" {
					o.fail(st, "element of an array that is named by the next segment is not found")
				}
			case d.kind == "object":
				if st.Get("visited") != "1" {
					o.fail(st, "properties of an object are not visited once")
				}
			}
		},
	})
	st := x.Initial(d.fn)
	l := make([]AV, 0, len(d.fn.Params))

	for _, prm := range d.fn.Params[1:] {
		l = append(l, st.Frames[0].Env[prm])
	}

	d.own = lookupOf(d.fn.Signature.Params(), l)
	x.Run(st)

	return x
}

func isVisitor(fn *ssa.Function) bool {
	s := fn.Signature.Params()

	return s.Len() == 2 && isBytes(s.At(0).Type()) && isJSONValue(s.At(1).Type())
}

func (d *descend) value(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
	if c, ok := ins.(*ssa.Call); ok && isLenCall(c) {
		switch v := x.Eval(st, c.Call.Args[0]); {
		case v.Key() == d.own.rest.Key() && d.end:
			return AV{K: KConst, C: constant.MakeInt64(0), T: c.Type()}, true
		case v.Key() == d.own.rest.Key():
			st.Facts["@restlen"] = Fact{Ne: []string{"0"}}

			return AV{K: KSym, ID: "@restlen", T: c.Type()}, true
		case v.ID == "array(v)":
			return AV{K: KSym, ID: "@arraylen", T: c.Type()}, true
		}
	}

	if s, ok := ins.(*ssa.Slice); ok && isStrings(s.Type()) && x.Eval(st, s.X).Key() == d.own.rest.Key() {
		if n, ok := constInt(lowOf(x, st, s)); ok && n == 1 && s.High == nil {
			return AV{K: KSym, ID: "@tail", T: s.Type()}, true
		}
	}

	return textValue(x, st, ins)
}

func lowOf(x *Explorer, st *State, s *ssa.Slice) AV {
	if s.Low == nil {
		return AV{}
	}

	return x.Eval(st, s.Low)
}

func (d *descend) call(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
	cc := ci.Common()
	name := CallName(cc)
	res := func(v AV) *CallRes {
		if cc.Signature().Results().Len() == 2 {
			return &CallRes{Val: tupleOf([]AV{v, {K: KNil}})}
		}

		return &CallRes{Val: v}
	}

	switch {
	case callee != nil && callee == d.walk:
		w := splitArgs(callee.Signature.Params(), args[1:])
		st.Set("walk", st.Get("walk")+"1")

		if !d.end || w.seq.Key() != d.own.seq.Key() || w.path.Key() != d.own.path.Key() || w.val.Key() != d.own.val.Key() || w.flat.Key() != d.own.flat.Key() {
			d.o.fail(st, "value that is not at the end of the path is walked")
		}

		return &CallRes{Val: AV{K: KTop}}
	case callee != nil && callee == d.fn:
		d.recurse(st, lookupOf(callee.Signature.Params(), args[1:]))

		return &CallRes{Val: AV{K: KTop}}
	case name == "bytes.Equal" && len(args) == 2:
		a, b := asText(x, st, args[0]), asText(x, st, args[1])

		return &CallRes{Val: AV{K: KCmp, Op: token.EQL, X: &a, Y: &b}}
	case strings.HasPrefix(name, "strconv.") && len(args) > 0 && strings.HasPrefix(args[0].ID, "@inner"):
		if name == "strconv.Atoi" {
			return &CallRes{Val: tupleOf([]AV{{K: KSym, ID: "@index", T: types.Typ[types.Int]}, {K: KSym, ID: "@indexerr", T: ErrorType}})}
		}
	case name == "strings.Trim" && len(args) == 2 && textKeyOf(args[0]) == segKey && args[1].Key() == `c"[]"`,
		name == "strings.TrimPrefix" && len(args) == 2 && args[0].ID == "@innerr" && args[1].Key() == `c"["`,
		name == "strings.TrimSuffix" && len(args) == 2 && args[0].ID == "@innerl" && args[1].Key() == `c"]"`:
		return &CallRes{Val: AV{K: KSym, ID: "@inner", T: types.Typ[types.String]}}
	case name == "strings.TrimPrefix" && len(args) == 2 && textKeyOf(args[0]) == segKey && args[1].Key() == `c"["`:
		return &CallRes{Val: AV{K: KSym, ID: "@innerl", T: types.Typ[types.String]}}
	case name == "strings.TrimSuffix" && len(args) == 2 && textKeyOf(args[0]) == segKey && args[1].Key() == `c"]"`:
		return &CallRes{Val: AV{K: KSym, ID: "@innerr", T: types.Typ[types.String]}}
	}

	if len(args) == 0 || args[0].Key() != d.own.val.Key() {
		if strings.HasSuffix(name, "fastjson.Object).Visit") && len(args) > 0 && args[0].ID == "object(v)" && st.Get("visiting") == "" {
			st.Set("visited", st.Get("visited")+"1")
			st.Set("visiting", "1")
		}

		return nil
	}

	extra := len(cc.Args) > 1 && elementsOf(st, ci) > 0

	switch m := methodName(cc); {
	case m == "Type":
		return &CallRes{Val: AV{K: KConst, C: constant.MakeInt64(d.code), T: ci.Value().Type()}}
	case (m == "Array" || m == "GetArray") && !extra && d.kind == "array":
		v := AV{K: KSym, ID: "array(v)", T: cc.Signature().Results().At(0).Type()}
		st.SetNil(v, notNil)

		return res(v)
	case (m == "Object" || m == "GetObject") && !extra && d.kind == "object":
		v := AV{K: KSym, ID: "object(v)", T: cc.Signature().Results().At(0).Type()}
		st.SetNil(v, notNil)

		return res(v)
	case (m == "GetArray" || m == "GetObject") && !extra:
		return res(AV{K: KNil})
	}

	return nil
}

func (d *descend) recurse(st *State, l lookupArgs) {
	o := d.o

	if d.end || l.seq.Key() != d.own.seq.Key() || l.path.Key() != d.own.path.Key() || l.flat.Key() != d.own.flat.Key() {
		o.fail(st, "lookup goes on with another identity of the value")
	}

	if l.rest.ID != "@tail" {
		o.fail(st, "lookup of a part of the element does not go on with the next segment")
	}

	switch {
	case strings.HasPrefix(l.val.ID, "el("):
		idx := strings.TrimSuffix(strings.TrimPrefix(l.val.ID, "el("), ")")

		if d.kind != "array" || st.Get("idx") != idx {
			o.fail(st, "element of an array is taken without comparison of its index with the segment")
		}

		st.Set("elem", "hit")
	case strings.Contains(l.val.ID, "/arg:"):
		if st.Get("prop") != strings.TrimSuffix(l.val.ID, "/arg:"+lastArg(l.val.ID)) {
			o.fail(st, "property is taken without comparison of its name with the segment")
		}

		if st.Get("hits") != "" {
			o.fail(st, "property is taken twice")
		}

		st.Set("hits", "1")
	default:
		o.fail(st, "part of the element is not one of its elements or properties")
	}
}

func lastArg(id string) string { return id[strings.LastIndex(id, ":")+1:] }

// edge finds comparisons of the segment.
func (d *descend) edge(x *Explorer, st *State, ins *ssa.If, taken bool) {
	c := x.Eval(st, ins.Cond)
	for c.K == KNot {
		c, taken = *c.X, !taken
	}

	if c.K != KCmp {
		return
	}

	a, b, op := *c.X, *c.Y, c.Op
	if textKeyOf(b) == segKey || b.ID == "@index" {
		a, b = b, a

		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}

	if !taken {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}

	n, isInt := constInt(b)

	switch {
	case textKeyOf(a) == segKey:
		k := textKeyOf(b)

		switch {
		case strings.HasPrefix(k, `c"["+sitoa(`) && strings.HasSuffix(k, `)+c"]"+`):
			if op == token.EQL {
				st.Set("idx", strings.TrimSuffix(strings.TrimPrefix(k, `c"["+sitoa(`), `)+c"]"+`))
			} else if op == token.NEQ && st.Get("elem") == "" {
				st.Set("elem", "other")
			}
		case strings.Contains(k, "/arg:"):
			pre, _, _ := strings.Cut(strings.TrimPrefix(k, "s"), "/arg:")
			if op == token.EQL {
				st.Set("prop", pre)
			} else if op == token.NEQ {
				st.Set("prop", "other")
			}
		}
	case a.ID == "@index" && (isInt && (n == 0 && op == token.LSS || n == -1 && op == token.LEQ) || b.ID == "@arraylen" && op == token.GEQ || b.ID == "e(s@arraylen-c1)" && op == token.GTR),
		a.ID == "@indexerr" && b.K == KNil && op == token.NEQ, a.ID == "@arraylen" && isInt && n == 0 && op == token.EQL:
		if st.Get("elem") == "" {
			st.Set("elem", "none")
		}
	case b.ID == "@arraylen" && op == token.GEQ:
		// End of the loop over elements.
		if _, ok := ins.Cond.(*ssa.BinOp); ok && fullLoop(ins) && st.Get("elem") == "" {
			st.Set("elem", "none")
		}
	}
}

// p32Line checks functions that give parsed lines to traversal.
func p32Line(p *Prog, r *Report) {
	get, walk := p.Method("FastWalker", "GetKey"), p.Method("FastWalker", "WalkFastJSON")
	if !need(r, "P32.line", "FastWalker.GetKey", get != nil) || !need(r, "P32.line", "FastWalker.WalkFastJSON", walk != nil) {
		return
	}

	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib {
			continue
		}

		calls := false
		for _, ci := range callsOf(fn) {
			calls = calls || ci.Common().StaticCallee() == get
		}

		if !calls {
			continue
		}

		n++
		o := newOnce(r, "P32.line", FnName(fn), p.Pos(fn.Pos()))
		seq := ""

		for _, prm := range fn.Params {
			if prm.Type().String() == "int64" && prm.Name() == "seq" {
				seq = "sP:" + prm.Name()
			}
		}

		x := NewExplorer(p, &Client{
			NoInline: func(*ssa.Function) bool { return true },
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				if ins == nil {
					return AV{}, false
				}

				switch f := fieldVar(ins.X); {
				case f == nil:
				case f.Name() == "singleKeyPath" || f.Name() == "singleKeyFlat":
					return AV{K: KSym, ID: "@" + f.Name(), T: ins.Type()}, true
				}

				return AV{}, false
			},
			Keep: func(id string, t types.Type) bool { return strings.HasPrefix(id, "@") },
			Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
				if c, ok := ins.(*ssa.Call); ok && isLenCall(c) && x.Eval(st, c.Call.Args[0]).ID == "@singleKeyPath" {
					return AV{K: KSym, ID: "@segments", T: c.Type()}, true
				}

				return AV{}, false
			},
			Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
				c := x.Eval(st, ins.Cond)
				for c.K == KNot {
					c, taken = *c.X, !taken
				}

				if c.K != KCmp {
					return
				}

				k, isInt := constInt(*c.Y)

				switch {
				case c.X.ID == "@singleKeyPath" && c.Y.K == KNil && (c.Op == token.NEQ) == taken,
					c.X.ID == "@segments" && isInt && k == 0 && (c.Op == token.NEQ || c.Op == token.GTR) && taken, c.X.ID == "@segments" && isInt && k == 0 && c.Op == token.EQL && !taken:
					st.Set("single", "1")
				}
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				name := CallName(ci.Common())
				call, _ := ci.(*ssa.Call)

				switch {
				case call != nil && strings.HasPrefix(name, "(*"+fastjsonPath+".Parser).Parse"):
					e := AV{K: KSym, ID: "@malformed", T: ErrorType}
					s := st.fork()
					s.SetNil(e, notNil)
					s.Top().Env[call] = tupleOf([]AV{{K: KNil}, e})
					s.Top().Idx++
					x.enqueue(s)

					v := AV{K: KSym, ID: "@line", T: resultType(call, 0)}
					st.SetNil(v, notNil)
					st.Set("parsed", "1")

					return &CallRes{Val: tupleOf([]AV{v, {K: KNil}})}
				case callee == walk:
					w := splitArgs(callee.Signature.Params(), args[1:])
					st.Set("walked", st.Get("walked")+"1")

					if w.val.ID != "@line" || seq != "" && w.seq.Key() != seq {
						o.fail(st, "traversal does not start at the root of the line")
					}
				case callee == get:
					l := lookupOf(callee.Signature.Params(), args[1:])
					st.Set("walked", st.Get("walked")+"1")

					switch {
					case st.Get("single") == "":
						o.fail(st, "key is looked up when there is no single key")
					case l.val.ID != "@line" || seq != "" && l.seq.Key() != seq:
						o.fail(st, "lookup does not start at the root of the line")
					case l.path.ID != "@singleKeyPath" || l.flat.ID != "@singleKeyFlat":
						o.fail(st, "another key is looked up")
					}
				}

				return nil
			},
			Exit: func(_ *Explorer, st *State, kind string, _ []AV) {
				if kind == "return" && st.Get("parsed") != "" && st.Get("walked") != "1" {
					o.fail(st, "parsed line is not traversed once")
				}
			},
		})
		x.Run(x.Initial(fn))
		o.done(x)
	}

	need(r, "P32.line", "calls of GetKey", n > 0)
}

// p32Filter checks that values of the single key are not left out.
func p32Filter(p *Prog, r *Report) {
	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil {
			continue
		}

		looks, filters := false, false

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Lookup:
					f := loadedField(i.X)
					looks = looks || f != nil && f.Name() == "pkIndex"
				case *ssa.FieldAddr:
					filters = filters || fieldVar(i).Name() == "singleKeyHash"
				}
			}
		}

		if !looks || !filters {
			continue
		}

		pk := ""

		for _, prm := range fn.Params {
			if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
				pk = "sP:" + prm.Name()
			}
		}

		if pk == "" {
			continue
		}

		n++
		o := newOnce(r, "P32.filter", FnName(fn), p.Pos(fn.Pos()))

		x := NewExplorer(p, &Client{
			NoInline: func(*ssa.Function) bool { return true },
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				if ins == nil {
					return AV{}, false
				}

				if f := fieldVar(ins.X); f != nil && f.Name() == "singleKeyHash" {
					return AV{K: KSym, ID: "@hash", T: ins.Type()}, true
				}

				return AV{}, false
			},
			Lookup: func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool) {
				if f := loadedField(ins.X); f != nil && f.Name() == "pkIndex" {
					st.Set("looked", "1")
				}

				return AV{}, false
			},
			Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
				c := x.Eval(st, ins.Cond)
				for c.K == KNot {
					c, taken = *c.X, !taken
				}

				if c.K != KCmp {
					return
				}

				a, b := *c.X, *c.Y
				if b.ID == "@hash" {
					a, b = b, a
				}

				k, isInt := constInt(b)
				ne := c.Op == token.NEQ && taken || c.Op == token.EQL && !taken

				switch {
				case a.ID != "@hash":
				case b.Key() == pk && ne:
					st.Set("other", "1")
				case isInt && k == 0 && (ne || c.Op == token.GTR && taken || c.Op == token.LEQ && !taken):
					st.Set("single", "1")
				}
			},
			Exit: func(_ *Explorer, st *State, kind string, _ []AV) {
				if kind == "return" && st.Get("looked") == "" && (st.Get("other") == "" || st.Get("single") == "") {
					o.fail(st, "a value of a requested key is left out")
				}
			},
		})
		x.Run(x.Initial(fn))
		o.done(x)
	}

	if n == 0 {
		r.OK("P32.filter", "values are not left out", "-")
	}
}
