package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Elem makes identity of an element of a list or a map.
func elemID(base, idx AV) string { return base.ID + "«" + idx.Key() + "»" }

// Rows is a model of lists, maps and structs where elements are identified by their list and index.
type Rows struct {
	P *Prog
	// Labels of containers by field name of the struct they are read from.
	Fields map[*types.Var]uint64

	Append func(x *Explorer, st *State, ins *ssa.Call, base AV, elems []AV)         // list is extended
	Concat func(x *Explorer, st *State, ins *ssa.Call, base, tail AV)               // list is extended by a list
	Store  func(x *Explorer, st *State, ins *ssa.Store, base, idx AV, val AV)       // element of a list is assigned
	Update func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key AV, val AV)      // element of a map is assigned
	Field  func(x *Explorer, st *State, ins *ssa.Store, f *types.Var, base, val AV) // field is assigned
	Get    func(x *Explorer, st *State, ins ssa.Instruction, m, key AV) (AV, bool)  // element of a map is read
	Call   func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes

	Iter func(x *Explorer, st *State, ins *ssa.If, bit uint64)
	Done func(x *Explorer, st *State, ins *ssa.If, bit uint64)
	Each []*ForEach
}

// indexable tells that elements of the type are followed.
func indexable(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)

	return ok && !isBytes(s)
}

func (w *Rows) value(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
	switch i := ins.(type) {
	case *ssa.IndexAddr:
		if !indexable(i.X.Type()) {
			return AV{}, false
		}

		base, idx := x.Eval(st, i.X), x.Eval(st, i.Index)
		if base.ID == "" || idx.K == KTop {
			return AV{}, false
		}

		if _, ok := x.constElem(st, i.X, base, idx); ok {
			return AV{}, false
		}

		if strings.LastIndexByte(base.ID, '!') > 0 && strings.HasPrefix(base.ID, "A") {
			return AV{}, false
		}

		return AV{K: KAddr, ID: elemID(base, idx), T: i.Type()}, true
	case *ssa.MakeSlice:
		if isBytes(i.Type()) {
			return AV{}, false
		}

		n := x.Eval(st, i.Len)
		v := AV{K: KSym, ID: x.id(st.Top(), i) + "~m", T: i.Type(), Bind: []AV{n}}
		w.clear(st, v.ID)
		st.SetNil(v, notNil)

		return v, true
	case *ssa.MakeMap:
		v := AV{K: KSym, ID: x.id(st.Top(), i) + "~k", T: i.Type()}
		w.clear(st, v.ID)
		st.SetNil(v, notNil)

		return v, true
	case *ssa.Lookup:
		m, k := x.Eval(st, i.X), x.Eval(st, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok || m.ID == "" || k.K == KTop {
			return AV{}, false
		}

		t := i.X.Type().Underlying().(*types.Map).Elem()
		id := elemID(m, k)
		v, known := st.Mem[id]

		if w.Get != nil && !known {
			v, known = w.Get(x, st, ins, m, k)
		}

		has := boolAV(true)

		if !known {
			v = AV{K: KSym, ID: "@" + id, T: t}
			has = AV{K: KSym, ID: "@has " + id, T: types.Typ[types.Bool]}

			if strings.HasSuffix(m.ID, "~k") && !i.CommaOk {
				v.ID = "@" + id
			}
		}

		st.AddLabel(v, st.Label(m))

		if i.CommaOk {
			return tupleOf([]AV{v, has}), true
		}

		return v, true
	case *ssa.Range:
		// Iterator is identified by its map.
		if m := x.Eval(st, i.X); m.ID != "" && !isString(i.X.Type()) {
			return m, true
		}
	case *ssa.Next:
		rg, ok := i.Iter.(*ssa.Range)

		if i.IsString || !ok {
			return AV{}, false
		}

		m := x.Eval(st, i.Iter)

		tt := i.Type().(*types.Tuple)
		base := x.id(st.Top(), i)
		okv := AV{K: KSym, ID: base + "#0", T: tt.At(0).Type()}
		k := AV{K: KSym, ID: base + "#1", T: rg.X.Type().Underlying().(*types.Map).Key()}

		v := AV{K: KSym, ID: "@" + elemID(m, k), T: rg.X.Type().Underlying().(*types.Map).Elem()}
		if mem, ok := st.Mem[elemID(m, k)]; ok {
			v = mem
		}

		for _, e := range []AV{okv, k} {
			delete(st.Facts, e.ID)
			st.AddLabel(e, st.Label(m))
		}

		return tupleOf([]AV{okv, k, v}), true
	case *ssa.Slice:
		if !indexable(i.Type()) || !indexable(i.X.Type()) {
			return textValue(x, st, ins)
		}

		v := x.Eval(st, i.X)
		if v.ID == "" {
			return AV{}, false
		}

		lo, hi := AV{}, AV{}
		if i.Low != nil {
			lo = x.Eval(st, i.Low)
			if n, ok := constInt(lo); ok && n == 0 {
				lo = AV{}
			}
		}

		if i.High != nil {
			hi = x.Eval(st, i.High)
			if n, ok := constInt(hi); ok && n == 0 {
				return w.empty(x, st, i), true
			}

			if hi.ID != "" && hi.ID == w.lenOf(v).ID {
				hi = AV{}
			}
		}

		if lo.K == KTop && hi.K == KTop {
			return v, true
		}

		return sliceOf(st, v, lo, hi, i.Type()), true
	case *ssa.Call:
		return w.builtin(x, st, i)
	}

	return textValue(x, st, ins)
}

// empty is a list without elements.
func (w *Rows) empty(x *Explorer, st *State, ins ssa.Value) AV {
	v := AV{K: KSym, ID: x.id(st.Top(), ins) + "~m", T: ins.Type(), Bind: []AV{mkInt(0)}}
	w.clear(st, v.ID)
	st.SetNil(v, notNil)

	return v
}

func (w *Rows) lenOf(v AV) AV {
	if strings.HasSuffix(v.ID, "~m") && len(v.Bind) == 1 {
		return v.Bind[0]
	}

	return lenOf(v)
}

// clear forgets elements of a list.
func (w *Rows) clear(st *State, id string) {
	for k := range st.Mem {
		if strings.HasPrefix(k, id+"«") {
			delete(st.Mem, k)
		}
	}

	delete(st.Facts, id)

	for k := range st.Facts {
		if strings.Contains(k, id+"«") {
			delete(st.Facts, k)
		}
	}
}

func (w *Rows) builtin(x *Explorer, st *State, i *ssa.Call) (AV, bool) {
	arg := func(k int) AV { return x.Eval(st, i.Call.Args[k]) }

	switch CallName(&i.Call) {
	case "builtin:append":
		// Copy of a list.
		if len(i.Call.Args) == 2 && isStrings(i.Type()) && w.Concat == nil {
			b := arg(1)
			_, ok := elements(st, b)

			if el, empty := elements(st, arg(0)); empty && len(el) == 0 && !ok && b.ID != "" {
				return b, true
			}
		}

		if len(i.Call.Args) != 2 || !indexable(i.Type()) {
			return textValue(x, st, i)
		}

		a, b := arg(0), arg(1)

		el, ok := elements(st, b)
		if ok && w.Append != nil {
			w.Append(x, st, i, a, el)
		}

		if !ok && w.Concat != nil {
			w.Concat(x, st, i, a, b)
		}

		v := AV{K: KSym, ID: x.id(st.Top(), i) + "~a", T: i.Type()}
		l := st.Label(a)
		w.clear(st, v.ID)
		st.SetNil(v, notNil)
		st.AddLabel(v, l)

		for _, e := range el {
			st.AddLabel(v, st.Label(e))
		}

		return v, true
	case "builtin:len":
		t := i.Call.Args[0].Type().Underlying()
		if _, isMap := t.(*types.Map); !isMap && !indexable(t) {
			return textValue(x, st, i)
		}

		a := arg(0)
		if el, ok := elements(st, a); ok {
			return mkInt(int64(len(el))), true
		}

		if a.ID == "" {
			return AV{}, false
		}

		v := w.lenOf(a)
		if v.K == KSym {
			st.AddLabel(v, st.Label(a))
		}

		return v, true
	}

	return textValue(x, st, i)
}

func (w *Rows) instr(x *Explorer, st *State, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.Store:
		addr, val := x.Eval(st, i.Addr), x.Eval(st, i.Val)

		if ia, ok := i.Addr.(*ssa.IndexAddr); ok && w.Store != nil && indexable(ia.X.Type()) {
			if base := x.Eval(st, ia.X); base.ID != "" && strings.Contains(addr.ID, "«") {
				w.Store(x, st, i, base, x.Eval(st, ia.Index), w.whole(x, st, i.Val, val))
			}
		}

		if f := fieldVar(i.Addr); f != nil && w.Field != nil {
			w.Field(x, st, i, f, x.Eval(st, i.Addr.(*ssa.FieldAddr).X), val)
		}
	case *ssa.MapUpdate:
		m, k, v := x.Eval(st, i.Map), x.Eval(st, i.Key), x.Eval(st, i.Value)
		if m.ID == "" || k.K == KTop {
			return
		}

		if w.Update != nil {
			w.Update(x, st, i, m, k, w.whole(x, st, i.Value, v))
		}

		id := elemID(m, k)
		x.store(st, AV{K: KAddr, ID: id}, v)
	}
}

// whole is a value with its identity.
func (w *Rows) whole(_ *Explorer, _ *State, _ ssa.Value, v AV) AV { return v }

func (w *Rows) load(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
	if ins == nil {
		return AV{}, false
	}

	f := fieldVar(ins.X)
	if f == nil {
		return AV{}, false
	}

	if l, ok := w.Fields[f]; ok {
		v := x.load(st, addr, ins.Type(), ins)
		st.AddLabel(v, l)

		return v, true
	}

	return AV{}, false
}

// edge has to be called on every branch: a new iteration knows nothing about its element.
func (w *Rows) edge(x *Explorer, st *State, ins *ssa.If, taken bool) {
	for _, f := range w.Each {
		ev, _ := loopEdge(x, st, ins, taken, f.Bit)
		if ev == LoopIter {
			for _, id := range loopVars(x, st, ins) {
				forget(st, id)
			}
		}

		switch f.Edge(x, st, ins, taken) {
		case LoopIter:
			if w.Iter != nil {
				w.Iter(x, st, ins, f.Bit)
			}
		case LoopDone:
			if w.Done != nil {
				w.Done(x, st, ins, f.Bit)
			}
		}
	}
}

// loopVars are variables of an iteration that a condition starts.
func loopVars(x *Explorer, st *State, ins *ssa.If) []string {
	var r []string

	c := x.Eval(st, ins.Cond)
	for c.K == KNot {
		c = *c.X
	}

	if c.K == KSym {
		return []string{strings.TrimSuffix(c.ID, "#0") + "#"}
	}

	var add func(a *AV)

	add = func(a *AV) {
		if a == nil {
			return
		}

		if a.Op != 0 && a.X != nil {
			add(a.X)
			add(a.Y)

			return
		}

		if a.K == KSym && len(a.Bind) == 0 && strings.HasPrefix(a.ID, "v") {
			r = append(r, a.ID)
		}
	}

	add(c.X)
	add(c.Y)

	return r
}

func forget(st *State, id string) {
	has := func(k string) bool {
		for i := strings.Index(k, id); i >= 0; {
			e := i + len(id)
			if e == len(k) || strings.HasSuffix(id, "#") || k[e] < '0' || k[e] > '9' {
				return true
			}

			j := strings.Index(k[e:], id)
			if j < 0 {
				return false
			}

			i = e + j
		}

		return false
	}

	for k := range st.Mem {
		if has(k) {
			delete(st.Mem, k)
		}
	}

	for k, f := range st.Facts {
		if has(k) && k != id {
			if f.Lab != 0 && !strings.Contains(k, "«") {
				st.Facts[k] = Fact{Lab: f.Lab}

				continue
			}

			delete(st.Facts, k)
		}
	}
}

// Client makes a client with the model.
func (w *Rows) Client(c *Client) *Client {
	value, instr, load, edge, keep, call := c.Value, c.Instr, c.Load, c.Edge, c.Keep, c.Call

	c.Value = func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
		if value != nil {
			if v, ok := value(x, st, ins); ok {
				return v, true
			}
		}

		return w.value(x, st, ins)
	}
	c.Instr = func(x *Explorer, st *State, ins ssa.Instruction) {
		if instr != nil {
			instr(x, st, ins)
		}

		w.instr(x, st, ins)
	}
	c.Load = func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
		if load != nil {
			if v, ok := load(x, st, addr, ins); ok {
				return v, true
			}
		}

		return w.load(x, st, addr, ins)
	}
	c.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		w.edge(x, st, ins, taken)

		if edge != nil {
			edge(x, st, ins, taken)
		}
	}
	c.Call = func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
		if call != nil {
			if r := call(x, st, ci, callee, args); r != nil {
				return r
			}
		}

		if callee != nil && recvIs(callee, "Value") && callee.Name() == "Format" && len(args) == 1 {
			return &CallRes{Val: textSym(st, "fmt("+args[0].Key()+")", 0)}
		}

		return nil
	}

	if keep == nil {
		c.Keep = func(id string, t types.Type) bool {
			if strings.Contains(id, "«") || nillable(t) {
				return true
			}

			b, ok := t.Underlying().(*types.Basic)

			return ok && b.Info()&(types.IsBoolean|types.IsString) != 0
		}
	}

	return c
}

// typeOf tells whether a Value with the identity is known to be of (1) or not of (2) any of types.
func typeIs(st *State, id string, vals ...string) int {
	f := st.Facts[id]

	if f.Eq != nil {
		for _, v := range vals {
			if f.Eq.ExactString() == `"`+v+`"` {
				return 1
			}
		}

		return 2
	}

	ne := 0

	for _, v := range vals {
		for _, n := range f.Ne {
			if n == `"`+v+`"` {
				ne++
			}
		}
	}

	if ne == len(vals) {
		return 2
	}

	return 0
}

func mkInt(n int64) AV { return constAV(constant.MakeInt64(n)) }
