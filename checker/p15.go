package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P15"] = p15 }

// Class of a value in the body of an iteration without a stable order.
const (
	clsNone  = iota // Constant or not known yet.
	clsSame         // The same for all elements.
	clsFresh        // Memory that was allocated for the element.
	clsKey          // Key of the element, distinct for all elements.
	clsElem         // Value of the element and memory behind it.
	clsDep          // Computed of the element, can be equal for several elements.
)

// Unordered is an iteration that visits elements in an order that changes from run to run.
type Unordered struct {
	what   string
	fn     *ssa.Function
	pos    string
	loop   *Loop // nil for a callback
	at     ssa.Instruction
	source ssa.Value // collection
	seed   map[ssa.Value]int
}

// ord is the analysis of one iteration.
type ord struct {
	p    *Prog
	it   *Unordered
	fail func(ins ssa.Instruction, msg string)

	// Effects that differ between elements, they must not be cut by an early exit.
	perElem []ssa.Instruction
	exits   []ssa.Instruction
	lists   []listPlace
	body    map[*ssa.Function]bool
	depth   int
	busy    map[ssa.Value]bool
	calls   map[string]bool
	whole   bool // Function of the iteration is called for an element.
}

// listPlace is a list that gets elements in an order that is not stable.
type listPlace struct {
	val ssa.Value // phi or cell or address of a field
	ins ssa.Instruction
	up  int
}

type ordEnv map[ssa.Value]int

func p15(p *Prog, r *Report) {
	r.Rule("P15.unordered", "iteration over a map has the same effects in any order: elements have effects of their own, are merged by operations that do not depend on order, or are collected and sorted", 12)
	r.Rule("P15.sorted", "list collected from a map is put into a total order before its order is used", 4)
	r.Rule("P15.source", "output does not depend on time, randomness or identity of the process", 1)
	r.Rule("P15.registered", "every recorded key has its column registered, order of recorded keys does not choose names", 1)

	its := findUnordered(p)
	done := map[string]bool{}

	for len(its) > 0 {
		it := its[0]
		its = its[1:]

		key := it.what + it.pos
		if done[key] || ambiguous(p, it.source) {
			continue
		}

		done[key] = true
		r.Saw(FnName(it.fn))

		bad := false
		o := &ord{p: p, it: it, body: map[*ssa.Function]bool{}, busy: map[ssa.Value]bool{}, calls: map[string]bool{}}
		o.fail = func(ins ssa.Instruction, msg string) {
			if !bad {
				r.Fail("P15.unordered", FnName(it.fn)+": "+it.what, p.InstrPos(ins), msg+" in the iteration at "+it.pos, nil)
			}

			bad = true
		}

		o.run()

		if !bad {
			r.OK("P15.unordered", FnName(it.fn)+": "+it.what, it.pos)
		}

		for _, l := range o.lists {
			more, where, msg := sortedBeforeUse(p, it, l)
			if msg != "" {
				r.Fail("P15.sorted", FnName(it.fn)+": "+describe(l.val), where, msg, nil)
			} else {
				r.OK("P15.sorted", FnName(it.fn)+": "+describe(l.val), p.InstrPos(l.ins))
			}

			its = append(its, more...)
		}
	}

	p15Source(p, r)
	p15Registered(p, r)
}

// ambiguous tells a map of replacement patterns: when several patterns fit the same key, it is documented that any of them can be used.
func ambiguous(p *Prog, m ssa.Value) bool {
	cfg := p.Field("Config", "ReplaceKeysRegex")
	if cfg == nil || m == nil {
		return false
	}

	f := loadedField(m)
	if f == cfg {
		return true
	}

	for _, fn := range p.Funcs {
		for _, l := range Loops(fn) {
			for _, ins := range l.Header.Instrs {
				n, ok := ins.(*ssa.Next)
				if !ok {
					continue
				}

				rg, ok := n.Iter.(*ssa.Range)
				if !ok || loadedField(rg.X) != cfg {
					continue
				}

				for b := range l.Blocks {
					for _, i := range b.Instrs {
						if u, ok := i.(*ssa.MapUpdate); ok && f != nil && loadedField(u.Map) == f {
							return true
						}
					}
				}
			}
		}
	}

	return false
}

// findUnordered finds iterations over maps and shared containers.
func findUnordered(p *Prog) []*Unordered {
	var res []*Unordered

	for _, fn := range p.Funcs {
		if rootFn(fn).Pkg != p.Lib {
			continue
		}

		for _, l := range Loops(fn) {
			for _, ins := range l.Header.Instrs {
				n, ok := ins.(*ssa.Next)
				if !ok || n.IsString {
					continue
				}

				rg, ok := n.Iter.(*ssa.Range)
				if !ok {
					continue
				}

				it := &Unordered{what: "range " + describe(rg.X), fn: fn, pos: p.InstrPos(rg), loop: l, at: n, source: rg.X, seed: map[ssa.Value]int{}}

				for _, ref := range *n.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok {
						switch e.Index {
						case 1:
							it.seed[e] = clsKey
						case 2:
							it.seed[e] = clsElem
						}
					}
				}

				res = append(res, it)
			}
		}

		for _, ci := range callsOf(fn) {
			cc := ci.Common()

			name := CallName(cc)
			if i := strings.Index(name, "["); i > 0 {
				name = name[:i]
			}

			switch {
			case isContainer(cc) && methodName(cc) == "Range":
				res = append(res, callbacks(p, ci, cc.Args[len(cc.Args)-1], describe(cc.Args[0]))...)
			case name == "maps.Keys" || name == "maps.Values" || name == "maps.All":
				v := ci.Value()
				if v == nil || v.Referrers() == nil {
					continue
				}

				for _, ref := range *v.Referrers() {
					if c, ok := ref.(*ssa.Call); ok && c.Call.Value == v {
						res = append(res, callbacks(p, c, c.Call.Args[0], describe(cc.Args[0]))...)
					}
				}
			}
		}
	}

	return res
}

func callbacks(p *Prog, ci ssa.CallInstruction, f ssa.Value, what string) []*Unordered {
	var res []*Unordered

	for _, fn := range p.FuncsOf(f) {
		it := &Unordered{what: "range " + what, fn: fn, pos: p.InstrPos(ci), at: ci, seed: map[ssa.Value]int{}}
		if len(ci.Common().Args) > 0 {
			it.source = ci.Common().Args[0]
		}

		for k, prm := range fn.Params {
			it.seed[prm] = clsElem
			if k == 0 {
				it.seed[prm] = clsKey
			}
		}

		res = append(res, it)
	}

	return res
}

func (o *ord) run() {
	env := ordEnv{}
	for v, c := range o.it.seed {
		env[v] = c
	}

	o.body[o.it.fn] = true

	for _, b := range o.it.fn.Blocks {
		if o.it.loop == nil || o.it.loop.Blocks[b] {
			o.block(b, env)
		}
	}

	if o.it.loop != nil {
		o.phis(env)
		o.leave(env)
	} else {
		o.callbackEnd(env)
	}

	if len(o.exits) > 0 && len(o.perElem) > 0 {
		o.fail(o.perElem[0], "iteration ends early, which elements were processed depends on order")
	}
}

// inBody tells an instruction that runs for each element.
func (o *ord) inBody(ins ssa.Instruction) bool {
	fn := ins.Parent()
	if fn != o.it.fn || o.whole {
		return o.body[fn]
	}

	return o.it.loop == nil || o.it.loop.Blocks[ins.Block()]
}

func (o *ord) block(b *ssa.BasicBlock, env ordEnv) {
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Store:
			o.store(i, env)
		case *ssa.MapUpdate:
			o.update(i, i.Map, i.Key, i.Value, env)
		case *ssa.Send:
			if o.class(i.X, env) > clsFresh {
				o.fail(i, "element is sent to a channel")
			}
		case ssa.CallInstruction:
			o.call(i, env)
		}
	}
}

func joinCls(a, b int) int {
	switch {
	case a == clsNone || a == b:
		return b
	case b == clsNone:
		return a
	case a == clsFresh && b > clsFresh, a == clsSame && b == clsKey:
		return b
	case b == clsFresh && a > clsFresh, b == clsSame && a == clsKey:
		return a
	case a <= clsFresh && b <= clsFresh:
		return clsSame
	}

	return clsDep
}

func isScalar(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)

	return ok
}

// class of a value.
func (o *ord) class(v ssa.Value, env ordEnv) int {
	if c, ok := env[v]; ok {
		return c
	}

	if o.busy[v] {
		return clsNone
	}

	o.busy[v] = true
	c := o.classify(v, env)
	delete(o.busy, v)

	return c
}

func (o *ord) classify(v ssa.Value, env ordEnv) int {
	ins, isIns := v.(ssa.Instruction)
	if isIns && !o.inBody(ins) {
		return clsSame
	}

	switch i := v.(type) {
	case *ssa.Const:
		return clsNone
	case *ssa.Alloc:
		return clsFresh
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		return clsFresh
	case *ssa.FreeVar:
		if b := o.p.binding(i); b != nil {
			return o.class(b, env)
		}

		return clsSame
	case *ssa.Convert:
		return o.class(i.X, env)
	case *ssa.ChangeType:
		return o.class(i.X, env)
	case *ssa.ChangeInterface:
		return o.class(i.X, env)
	case *ssa.MakeInterface:
		return o.class(i.X, env)
	case *ssa.TypeAssert:
		return o.class(i.X, env)
	case *ssa.Field:
		return o.class(i.X, env)
	case *ssa.FieldAddr:
		return o.class(i.X, env)
	case *ssa.IndexAddr:
		return o.indexed(i.X, i.Index, env)
	case *ssa.Index:
		return o.indexed(i.X, i.Index, env)
	case *ssa.Lookup:
		return o.indexed(i.X, i.Index, env)
	case *ssa.Slice:
		c := o.class(i.X, env)
		for _, b := range []ssa.Value{i.Low, i.High} {
			if b != nil && o.class(b, env) > clsFresh {
				return clsDep
			}
		}

		if c == clsKey && (i.Low != nil || i.High != nil) {
			return clsDep
		}

		return c
	case *ssa.Range:
		return o.class(i.X, env)
	case *ssa.Next:
		return o.class(i.Iter, env)
	case *ssa.Extract:
		return o.class(i.Tuple, env)
	case *ssa.Phi:
		res := clsNone
		for _, e := range i.Edges {
			res = joinCls(res, o.class(e, env))
		}

		return res
	case *ssa.BinOp:
		x, y := o.class(i.X, env), o.class(i.Y, env)
		if i.Op == token.ADD && isString(i.Type()) && (x == clsKey && y <= clsSame || y == clsKey && x <= clsSame) {
			// Name made of the key.
			return clsKey
		}

		if x > clsFresh || y > clsFresh {
			return clsDep
		}

		return clsSame
	case *ssa.UnOp:
		if i.Op != token.MUL {
			if c := o.class(i.X, env); c > clsFresh {
				return clsDep
			}

			return clsSame
		}

		return o.loaded(i, env)
	case *ssa.Call:
		return o.result(i, env)
	}

	return clsSame
}

// indexed element of a collection.
func (o *ord) indexed(x, idx ssa.Value, env ordEnv) int {
	c, k := o.class(x, env), o.class(idx, env)

	switch {
	case c > clsFresh:
		if c == clsKey {
			return clsDep
		}

		return c
	case k == clsKey:
		// Each element has its own.
		return clsElem
	case k > clsFresh:
		return clsDep
	}

	return c
}

func (o *ord) loaded(u *ssa.UnOp, env ordEnv) int {
	if al, path := cellRoot(u.X); al != nil && o.inBody(al) {
		res := clsNone

		for _, s := range cellWrites(al) {
			a, sp := cellRoot(s.Addr)
			if a == al && (sp == path || sp == "" || path == "") {
				res = joinCls(res, o.class(s.Val, env))
			}
		}

		if res == clsNone {
			return clsFresh
		}

		return res
	}

	c := o.class(u.X, env)
	if c == clsElem {
		// State of the whole run is reachable from elements.
		if n := typeName(deref(u.Type())); n == "Processor" || n == "Reader" {
			return clsSame
		}
	}

	return c
}

// cellRoot is a local struct or variable with the path of fields to its part.
func cellRoot(v ssa.Value) (*ssa.Alloc, string) {
	switch i := v.(type) {
	case *ssa.Alloc:
		return i, ""
	case *ssa.FieldAddr:
		if a, p := cellRoot(i.X); a != nil {
			return a, p + "." + fieldVar(i).Name()
		}
	}

	return nil, ""
}

func cellWrites(al *ssa.Alloc) []*ssa.Store {
	var res []*ssa.Store

	var rec func(v ssa.Value)

	rec = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch i := ref.(type) {
			case *ssa.Store:
				if i.Addr == v {
					res = append(res, i)
				}
			case *ssa.FieldAddr:
				rec(i)
			}
		}
	}

	rec(al)

	return res
}

// argClass is the class of an argument, for values of variadic parameters it is the class of their contents.
func (o *ord) argClass(a ssa.Value, env ordEnv) int {
	sl, ok := a.(*ssa.Slice)
	if !ok {
		return o.class(a, env)
	}

	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return o.class(a, env)
	}

	res := clsNone

	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}

		for _, s := range *ia.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				res = joinCls(res, o.class(st.Val, env))
			}
		}
	}

	return res
}

// result of a call.
func (o *ord) result(call *ssa.Call, env ordEnv) int {
	cc := &call.Call
	dep := clsNone
	name := CallName(cc)

	for _, a := range argsOf(cc) {
		if _, isFn := a.Type().Underlying().(*types.Signature); isFn {
			continue
		}

		dep = joinCls(dep, o.argClass(a, env))
	}

	if name == "builtin:append" || name == "builtin:len" || name == "builtin:cap" {
		if dep > clsFresh {
			return clsDep
		}

		return dep
	}

	// Keys that differ only in case share the column.
	if name == "strings.ToLower" && dep == clsKey {
		return clsKey
	}

	if isContainer(cc) && len(cc.Args) > 1 {
		switch k := o.class(cc.Args[1], env); {
		case k == clsKey:
			return clsElem
		case k > clsFresh:
			return clsDep
		}

		return clsSame
	}

	if f := cc.StaticCallee(); f != nil && o.p.InRepo(f) && len(f.Blocks) > 0 && o.depth < 6 {
		sub := o.args(f, call, env)
		res := clsNone

		o.depth++
		was, whole := o.body[f], o.whole
		o.body[f] = true
		o.whole = whole || f == o.it.fn

		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for k, v := range ret.Results {
					if IsError(v.Type()) && k == len(ret.Results)-1 && k > 0 {
						continue
					}

					res = joinCls(res, o.class(v, sub))
				}
			}
		}

		o.body[f], o.whole = was, whole
		o.depth--

		// Result that was chosen by the element.
		if res <= clsSame && dep > clsFresh && isScalar(call.Type()) {
			return clsDep
		}

		return res
	}

	if dep <= clsFresh {
		return clsSame
	}

	if dep == clsElem && !isScalar(call.Type()) {
		return clsElem
	}

	return clsDep
}

func (o *ord) args(f *ssa.Function, ci ssa.CallInstruction, env ordEnv) ordEnv {
	sub := ordEnv{}
	args := argsOf(ci.Common())

	for k, prm := range f.Params {
		if k < len(args) {
			sub[prm] = o.class(args[k], env)
		}
	}

	// Captured variables keep their classes.
	for v, c := range env {
		if _, ok := sub[v]; !ok && v.Parent() == o.it.fn {
			sub[v] = c
		}
	}

	return sub
}

func (o *ord) mark(ins ssa.Instruction, dep bool) {
	if dep {
		o.perElem = append(o.perElem, ins)
	}
}

func (o *ord) store(s *ssa.Store, env ordEnv) {
	if al, _ := cellRoot(s.Addr); al != nil && o.inBody(al) {
		return
	}

	val := o.class(s.Val, env)

	if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
		if base := o.class(ia.X, env); base > clsSame {
			return
		}

		switch k := o.class(ia.Index, env); {
		case k == clsKey, k == clsElem && (val <= clsFresh || val == clsElem):
			o.mark(s, true)
		case val <= clsSame:
		case o.merged(s, s.Val, s.Addr, env):
			o.mark(s, true)
		default:
			o.fail(s, "several elements can be stored at the same index, the last one stays")
		}

		return
	}

	if c := o.class(s.Addr, env); c > clsSame && c != clsDep {
		o.mark(s, true)

		return
	}

	o.accumulate(s, s.Val, env, func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)

		return ok && u.Op == token.MUL && (u.X == s.Addr || sameValue(u.X, s.Addr) || o.sameCell(u.X, s.Addr))
	}, s.Addr)
}

// sameCell tells addresses of the same captured variable.
func (o *ord) sameCell(a, b ssa.Value) bool {
	root := func(v ssa.Value) ssa.Value {
		for {
			f, ok := v.(*ssa.FreeVar)
			if !ok {
				return v
			}

			n := o.p.binding(f)
			if n == nil {
				return v
			}

			v = n
		}
	}

	return root(a) == root(b)
}

// accumulate checks a new value of a variable that outlives the element.
func (o *ord) accumulate(ins ssa.Instruction, v ssa.Value, env ordEnv, isOld func(ssa.Value) bool, place ssa.Value) {
	seen := map[ssa.Value]bool{}

	var alts func(v ssa.Value)

	alts = func(v ssa.Value) {
		if seen[v] || isOld(v) {
			return
		}

		seen[v] = true

		if phi, ok := v.(*ssa.Phi); ok && o.inBody(phi) && !isOld(phi) {
			// Loop of its own is not followed.
			for _, e := range phi.Edges {
				alts(e)
			}

			return
		}

		if call, ok := v.(*ssa.Call); ok && CallName(&call.Call) == "builtin:append" {
			if isOldList(call.Call.Args[0], isOld) {
				if o.class(call.Call.Args[1], env) > clsSame {
					o.mark(ins, true)
					o.lists = append(o.lists, listPlace{val: place, ins: call})
				}

				return
			}
		}

		if o.class(v, env) <= clsSame {
			return
		}

		if o.commutative(v, env, isOld) {
			o.mark(ins, true)

			return
		}

		if isError(v.Type()) {
			return
		}

		if o.best(ins, v, env, isOld) {
			o.mark(ins, true)

			return
		}

		o.fail(ins, "variable "+describe(place)+" gets a value of one of elements, which one depends on order,")
	}

	alts(v)
}

func isError(t types.Type) bool { return IsError(t) }

func isOldList(v ssa.Value, isOld func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}

	var rec func(v ssa.Value) bool

	rec = func(v ssa.Value) bool {
		if isOld(v) {
			return true
		}

		if seen[v] {
			return false
		}

		seen[v] = true

		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				if rec(e) {
					return true
				}
			}
		case *ssa.Call:
			if CallName(&i.Call) == "builtin:append" {
				return rec(i.Call.Args[0])
			}
		}

		return false
	}

	return rec(v)
}

// commutative tells a value that was made of the old one by an operation that gives the same result in any order.
func (o *ord) commutative(v ssa.Value, env ordEnv, isOld func(ssa.Value) bool) bool {
	switch i := v.(type) {
	case *ssa.BinOp:
		switch i.Op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if isString(i.Type()) {
				return false
			}

			if isOld(i.X) || o.commutative(i.X, env, isOld) {
				return !isOld(i.Y)
			}

			return isOld(i.Y) || o.commutative(i.Y, env, isOld)
		case token.SUB:
			return isOld(i.X)
		}
	case *ssa.Phi:
		// a && b, a || b.
		if !isBool(i.Type()) {
			return false
		}

		consts := map[string]bool{}
		other := 0

		for k, e := range i.Edges {
			if c, ok := e.(*ssa.Const); ok {
				consts[c.Value.String()] = true

				continue
			}

			other++

			// The other operand was tested before.
			ok := isOld(e)

			for _, pr := range i.Block().Preds {
				if ifi, isIf := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); isIf && (isOld(ifi.Cond) || isOld(notOf(ifi.Cond))) {
					ok = true
				}
			}

			_ = k

			if !ok {
				return false
			}
		}

		return other == 1 && len(consts) == 1
	case *ssa.Call:
		if o.mergeFn(i.Call.StaticCallee()) {
			for _, a := range i.Call.Args {
				if isOld(a) {
					return true
				}
			}
		}

		if n := CallName(&i.Call); n == "builtin:min" || n == "builtin:max" {
			for _, a := range i.Call.Args {
				if isOld(a) {
					return true
				}
			}
		}
	}

	return false
}

func notOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		return u.X
	}

	return v
}

// mergeFn tells merging of types, it gives the same result in any order (P05).
func (o *ord) mergeFn(f *ssa.Function) bool {
	if f == nil {
		return false
	}

	upd := o.p.Method("Type", "Update")
	if f == upd {
		return true
	}

	if f.Signature.Recv() == nil || f.Signature.Params().Len() != 1 || typeName(f.Signature.Params().At(0).Type()) != "Type" {
		return false
	}

	return o.p.reachesFn(f, func(g *ssa.Function) bool { return g == upd })
}

// best tells the choice of the best element, there can not be two of them.
func (o *ord) best(ins ssa.Instruction, v ssa.Value, env ordEnv, isOld func(ssa.Value) bool) bool {
	strip := func(v ssa.Value) (ssa.Value, bool) {
		if c, ok := v.(*ssa.Call); ok && CallName(&c.Call) == "builtin:len" {
			return c.Call.Args[0], true
		}

		return v, false
	}

	fn := ins.Parent()

	for _, b := range fn.Blocks {
		if fn == o.it.fn && o.it.loop != nil && !o.it.loop.Blocks[b] {
			continue
		}

		for _, i := range b.Instrs {
			if call, ok := i.(*ssa.Call); ok {
				if n := CallName(&call.Call); n == "builtin:min" || n == "builtin:max" {
					old, own := false, false
					for _, a := range call.Call.Args {
						old = old || isOld(a)
						own = own || a == v && o.class(a, env) == clsKey
					}

					if old && own {
						return true
					}
				}

				continue
			}

			cmp, ok := i.(*ssa.BinOp)
			if !ok {
				continue
			}

			switch cmp.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
			default:
				continue
			}

			x, lx := strip(cmp.X)
			y, ly := strip(cmp.Y)

			if lx != ly {
				continue
			}

			if isOld(x) {
				x, y = y, x
			}

			if !isOld(y) || !(x == v || sameValue(x, v)) || o.class(x, env) != clsKey {
				continue
			}

			if !lx || o.prefixOfSame(fn, x, env) {
				return true
			}
		}
	}

	return false
}

// prefixOfSame tells that all candidates are prefixes of the same text, ones of the same length are equal.
func (o *ord) prefixOfSame(fn *ssa.Function, x ssa.Value, env ordEnv) bool {
	for _, ci := range callsOf(fn) {
		cc := ci.Common()
		switch CallName(cc) {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.CutPrefix", "strings.CutSuffix":
			if (cc.Args[1] == x || sameValue(cc.Args[1], x)) && o.class(cc.Args[0], env) <= clsSame {
				return true
			}
		}
	}

	return false
}

// update of a map or a container.
func (o *ord) update(ins ssa.Instruction, m, key, val ssa.Value, env ordEnv) {
	if o.class(m, env) > clsSame {
		o.mark(ins, true)

		return
	}

	k := clsNone
	if key != nil {
		k = o.class(key, env)
	}

	vc := o.class(val, env)

	switch {
	case k == clsKey:
		o.mark(ins, true)
	case vc <= clsSame:
		// Several elements store the same.
		o.mark(ins, k > clsFresh)
	case o.merged(ins, val, nil, env):
		o.mark(ins, true)
	case k > clsFresh && o.registered(ins, m, key, val):
	default:
		o.fail(ins, "entry of "+describe(m)+" gets a value of one of elements with the same key, which one depends on order,")
	}
}

// registered tells an entry that can not be missing: it is stored along with the element.
func (o *ord) registered(ins ssa.Instruction, m, key, val ssa.Value) bool {
	f := loadedField(m)
	if f == nil || o.it.loop != nil {
		return false
	}

	// The entry is only added when it is missing.
	missing := false

	for _, b := range ins.Parent().Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}

		cond := notOf(ifi.Cond)

		e, ok := cond.(*ssa.Extract)
		if !ok || e.Index != 1 {
			continue
		}

		l, ok := e.Tuple.(*ssa.Lookup)
		if !ok || loadedField(l.X) != f || !(l.Index == key || sameValue(l.Index, key)) {
			continue
		}

		side := 1
		if cond != ifi.Cond {
			side = 0
		}

		if s := b.Succs[side]; len(s.Preds) == 1 && s.Dominates(ins.Block()) {
			missing = true
		}
	}

	return missing
}

// merged tells a value that is the old one merged with the element.
func (o *ord) merged(ins ssa.Instruction, val, addr ssa.Value, env ordEnv) bool {
	if call, ok := val.(*ssa.Call); ok && o.mergeFn(call.Call.StaticCallee()) {
		for _, a := range call.Call.Args {
			if o.oldEntry(ins, a, addr) {
				return true
			}
		}
	}

	if o.commutative(val, env, func(v ssa.Value) bool { return o.oldEntry(ins, v, addr) }) {
		return true
	}

	old := func(v ssa.Value) bool { return o.oldEntry(ins, v, addr) }

	// Helper that updates its argument.
	if call, ok := val.(*ssa.Call); ok {
		f := call.Call.StaticCallee()
		if f == nil || !o.p.InRepo(f) || f.Signature.Results().Len() != 1 || o.depth > 4 {
			return false
		}

		sub := o.args(f, call, env)
		was := o.body[f]
		o.body[f] = true
		o.depth++

		ok := false

		for _, b := range f.Blocks {
			ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isRet {
				continue
			}

			ok = o.mergedCell(ret.Results[0], sub, func(v ssa.Value) bool {
				for k, prm := range f.Params {
					if v == ssa.Value(prm) {
						return old(call.Call.Args[k])
					}
				}

				return false
			})

			if !ok {
				break
			}
		}

		o.depth--
		o.body[f] = was

		return ok
	}

	return o.mergedCell(val, env, old)
}

// mergedCell tells a struct that was the old value with fields merged with the element.
func (o *ord) mergedCell(val ssa.Value, env ordEnv, whole func(v ssa.Value) bool) bool {
	if whole(val) {
		return true
	}

	u, ok := val.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}

	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}

	old := false

	for _, s := range cellWrites(al) {
		if s.Addr == ssa.Value(al) {
			if whole(s.Val) {
				old = true

				continue
			}

			// New entry is replaced by the old one when there is one.
			replaced := false

			for _, w := range cellWrites(al) {
				if w.Addr == ssa.Value(al) && whole(w.Val) && s.Block().Dominates(w.Block()) && foundBranch(w) {
					replaced = true
				}
			}

			if !replaced {
				return false
			}

			continue
		}

		_, path := cellRoot(s.Addr)
		isOld := func(v ssa.Value) bool {
			l, ok := v.(*ssa.UnOp)
			if !ok || l.Op != token.MUL {
				return false
			}

			a, p := cellRoot(l.X)
			if a == nil || p != path {
				return false
			}

			if a == al {
				return true
			}

			w := cellWrites(a)

			return len(w) == 1 && w[0].Addr == ssa.Value(a) && whole(w[0].Val)
		}

		if o.class(s.Val, env) > clsSame && !isOld(s.Val) && !o.commutative(s.Val, env, isOld) {
			return false
		}
	}

	return old
}

// assigned is the value of a variable that is only assigned once.
func assigned(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}

	if al, ok := u.X.(*ssa.Alloc); ok {
		if w := cellWrites(al); len(w) == 1 && w[0].Addr == ssa.Value(al) {
			return w[0].Val
		}
	}

	return v
}

// foundBranch tells a store of the old entry that is made whenever the entry exists.
func foundBranch(s *ssa.Store) bool {
	e, ok := assigned(s.Val).(*ssa.Extract)
	if !ok || len(s.Block().Preds) != 1 {
		return false
	}

	pr := s.Block().Preds[0]

	ifi, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}

	c, ok := ifi.Cond.(*ssa.Extract)

	return ok && c.Index == 1 && c.Tuple == e.Tuple && pr.Succs[0] == s.Block()
}

// oldEntry tells the value that the entry or the slot had before.
func (o *ord) oldEntry(ins ssa.Instruction, v, addr ssa.Value) bool {
	v = assigned(v)

	if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
		v = e.Tuple
	}

	switch i := v.(type) {
	case *ssa.Lookup:
		u, ok := ins.(*ssa.MapUpdate)

		return ok && sameValue(i.X, u.Map) && (i.Index == u.Key || sameValue(i.Index, u.Key))
	case *ssa.Call:
		ci, ok := ins.(ssa.CallInstruction)

		return ok && isContainer(&i.Call) && methodName(&i.Call) == "Load" &&
			sameValue(i.Call.Args[0], ci.Common().Args[0]) && sameValue(i.Call.Args[1], ci.Common().Args[1])
	case *ssa.UnOp:
		if i.Op != token.MUL || addr == nil {
			return false
		}

		a, ok1 := i.X.(*ssa.IndexAddr)
		b, ok2 := addr.(*ssa.IndexAddr)

		return ok1 && ok2 && sameValue(a.X, b.X) && (a.Index == b.Index || sameValue(a.Index, b.Index))
	}

	return false
}

var pureCalls = []string{
	"strings.", "strconv.", "bytes.", "path.", "path/filepath.", "unicode.", "errors.", "fmt.Sprint", "fmt.Errorf", "regexp.", "(*strings.Replacer)", "(*regexp.", "time.", "(time.", "math.",
	"(*bytes.Buffer).Len", "slices.Contains", "unicode/utf8.", "utf8.", "sort.Search", "(reflect.", "reflect.", "(error).", "runtime.",
}

func (o *ord) call(ci ssa.CallInstruction, env ordEnv) {
	cc := ci.Common()
	name := CallName(cc)
	args := argsOf(cc)

	dep := false
	for _, a := range args {
		dep = dep || o.argClass(a, env) > clsFresh
	}

	switch {
	case name == "builtin:append":
		// Result is followed where it is stored.
		return
	case name == "builtin:delete":
		o.mark(ci, o.class(cc.Args[1], env) > clsFresh && o.class(cc.Args[0], env) <= clsSame)

		return
	case name == "builtin:copy":
		if o.class(cc.Args[0], env) <= clsSame && o.class(cc.Args[1], env) > clsFresh {
			o.fail(ci, "element is copied over the previous one")
		}

		return
	case strings.HasPrefix(name, "builtin:"):
		return
	case isContainer(cc):
		switch m := methodName(cc); m {
		case "Store", "Swap", "LoadOrStore", "LoadAndStore":
			if m == "LoadOrStore" && o.class(args[1], env) != clsKey && o.class(args[2], env) > clsSame {
				o.fail(ci, "the first of elements with the same key is stored")
			}

			o.update(ci, args[0], args[1], args[2], env)
		case "Delete", "LoadAndDelete":
			o.mark(ci, o.class(args[1], env) > clsFresh)
		}

		if methodName(cc) != "Range" {
			return
		}
	case strings.HasPrefix(name, "sync/atomic.Add"), strings.HasPrefix(name, "(*sync."):
		return
	case strings.HasPrefix(name, "sync/atomic.Store"), strings.HasPrefix(name, "sync/atomic.Swap"):
		if o.class(args[1], env) > clsFresh {
			o.fail(ci, "the last element stays in a variable")
		}

		return
	}

	if o.diagnostic(cc) {
		return
	}

	if o.mergeFn(cc.StaticCallee()) {
		o.mark(ci, dep)

		return
	}

	inner := false

	for _, f := range o.p.Callees(ci) {
		if !o.p.InRepo(f) || len(f.Blocks) == 0 {
			continue
		}

		inner = true

		sub := o.args(f, ci, env)
		key := FnName(f)

		for _, prm := range f.Params {
			key += string(rune('0' + sub[prm]))
		}

		if o.calls[key] || o.depth > 8 {
			continue
		}

		o.calls[key] = true
		o.depth++
		was, whole := o.body[f], o.whole
		o.body[f] = true
		o.whole = whole || f == o.it.fn

		for _, b := range f.Blocks {
			o.block(b, sub)
		}

		o.body[f], o.whole = was, whole
		o.depth--
	}

	// Interface of another package can have other implementations.
	if foreign := cc.IsInvoke() && cc.Method.Pkg() != o.p.Lib.Pkg; inner && !foreign || !dep {
		return
	}

	for _, s := range pureCalls {
		if strings.HasPrefix(name, s) {
			return
		}
	}

	// Order of statements for different tables does not matter.
	if strings.Contains(name, "database/sql") || strings.Contains(name, "/progress.") || strings.HasPrefix(name, "os.") {
		o.mark(ci, true)

		return
	}

	target := ssa.Value(nil)

	switch {
	case cc.IsInvoke():
		target = cc.Value
	case cc.Signature().Recv() != nil:
		if _, ok := cc.Signature().Recv().Type().Underlying().(*types.Pointer); ok {
			target = cc.Args[0]
		}
	default:
		for k, a := range cc.Args {
			if writesArg(name, k) {
				target = a
			}
		}
	}

	if target == nil || IsError(target.Type()) {
		return
	}

	if o.class(target, env) <= clsSame {
		o.fail(ci, "element is written by "+shortCall(cc)+", order of the output is not stable,")

		return
	}

	o.mark(ci, true)
}

// diagnostic tells a message for the user.
func (o *ord) diagnostic(cc *ssa.CallCommon) bool {
	name := CallName(cc)

	switch {
	case name == "builtin:println", name == "builtin:print", strings.HasPrefix(name, "log."):
		return true
	case strings.HasPrefix(name, "fmt.Fprint"):
		v := cc.Args[0]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}

		if u, ok := v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				return g.Name() == "Stderr"
			}
		}
	}

	if cc.StaticCallee() != nil || cc.IsInvoke() {
		return false
	}

	sig := cc.Signature()

	return sig.Variadic() && sig.Params().Len() == 1 && sig.Results().Len() == 0
}

// phis checks variables that are carried from element to element.
func (o *ord) phis(env ordEnv) {
	l := o.it.loop

	for _, ins := range l.Header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}

		if o.isIndex(phi) {
			continue
		}

		env[phi] = clsSame

		for k, e := range phi.Edges {
			if !l.Blocks[l.Header.Preds[k]] {
				continue
			}

			last := l.Header.Preds[k].Instrs[len(l.Header.Preds[k].Instrs)-1]
			o.accumulate(last, e, env, func(v ssa.Value) bool { return v == ssa.Value(phi) }, phi)
		}
	}
}

func (o *ord) isIndex(phi *ssa.Phi) bool {
	if _, ok := o.it.seed[phi]; ok {
		return true
	}

	for _, e := range phi.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(phi) {
			if _, isConst := b.Y.(*ssa.Const); isConst {
				return true
			}
		}
	}

	return false
}

// leave checks ways out of the loop before all elements are visited.
func (o *ord) leave(env ordEnv) {
	l := o.it.loop

	// Error of the element.
	failing := func(b *ssa.BasicBlock) bool {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			_, isPanic := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)

			return isPanic
		}

		v := ret.Results[len(ret.Results)-1]
		c, isConst := v.(*ssa.Const)

		return IsError(v.Type()) && !(isConst && c.IsNil())
	}

	for _, b := range o.it.fn.Blocks {
		if !l.Blocks[b] || b == l.Header {
			continue
		}

		for _, s := range b.Succs {
			if l.Blocks[s] {
				continue
			}

			last := b.Instrs[len(b.Instrs)-1]

			if failing(s) {
				continue
			}

			o.exits = append(o.exits, last)
			o.exitValues(s, b, env)
		}
	}
}

// exitValues checks what the block after an early exit gets.
func (o *ord) exitValues(s, from *ssa.BasicBlock, env ordEnv) {
	seen := map[*ssa.BasicBlock]bool{}

	for _, ins := range s.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}

		for k, e := range phi.Edges {
			if s.Preds[k] == from && o.class(e, env) > clsSame {
				o.fail(from.Instrs[len(from.Instrs)-1], "the first found element is used, which one depends on order,")
			}
		}
	}

	var walk func(b *ssa.BasicBlock)

	walk = func(b *ssa.BasicBlock) {
		if seen[b] || o.it.loop.Blocks[b] {
			return
		}

		seen[b] = true

		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}

				v, ok := (*op).(ssa.Instruction)
				if !ok || v.Parent() != o.it.fn || !o.it.loop.Blocks[v.Block()] {
					continue
				}

				if phi, isPhi := (*op).(*ssa.Phi); isPhi && phi.Block() == o.it.loop.Header {
					continue
				}

				if _, isPhi := ins.(*ssa.Phi); isPhi {
					continue
				}

				if o.class(*op, env) > clsSame {
					o.fail(ins, "the first found element is used, which one depends on order,")
				}
			}
		}

		for _, n := range b.Succs {
			walk(n)
		}
	}

	walk(s)
}

// callbackEnd checks results of a callback: it can stop the iteration.
func (o *ord) callbackEnd(env ordEnv) {
	for _, b := range o.it.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}

		c, ok := ret.Results[0].(*ssa.Const)
		if !ok || c.Value == nil || c.Value.String() != "true" {
			o.exits = append(o.exits, ret)
		}
	}
}

// sortedBeforeUse checks that a list is sorted before its order matters.
func sortedBeforeUse(p *Prog, it *Unordered, l listPlace) (more []*Unordered, where, msg string) {
	// Function where the list is declared and continues to be used.
	fn := it.fn
	start := it.at

	cells := map[*ssa.Alloc]bool{}

	v := l.val
	for {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			break
		}

		v = p.binding(fv)
		if v == nil {
			return nil, p.InstrPos(l.ins), "list can not be followed"
		}
	}

	if al, ok := v.(*ssa.Alloc); ok {
		cells[al] = true
	}

	if it.loop == nil && it.at != nil {
		fn = it.at.Parent()
	}

	field := fieldVar(v)

	isList := map[ssa.Value]bool{}

	strip := func(u ssa.Value) ssa.Value {
		for {
			switch i := u.(type) {
			case *ssa.MakeInterface:
				u = i.X
			case *ssa.ChangeType:
				u = i.X
			default:
				return u
			}
		}
	}

	loads := func(u ssa.Value) bool {
		u = strip(u)

		if isList[u] {
			return true
		}

		ld, ok := u.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}

		if field != nil {
			return fieldVar(ld.X) == field
		}

		x := ld.X
		for {
			fv, ok := x.(*ssa.FreeVar)
			if !ok {
				break
			}

			if x = p.binding(fv); x == nil {
				return false
			}
		}

		al, ok := x.(*ssa.Alloc)

		return ok && cells[al]
	}

	if field == nil {
		if len(cells) == 0 {
			isList[v] = true
		}

		// Variables that the list is assigned to.
		for changed := true; changed; {
			changed = false

			for _, b := range fn.Blocks {
				if it.loop != nil && it.loop.Blocks[b] {
					continue
				}

				for _, ins := range b.Instrs {
					switch i := ins.(type) {
					case *ssa.Phi:
						for _, e := range i.Edges {
							if !isList[i] && isList[e] {
								isList[i] = true
								changed = true
							}
						}
					case *ssa.Store:
						if al, ok := i.Addr.(*ssa.Alloc); ok && !cells[al] && loads(i.Val) {
							cells[al] = true
							changed = true
						}
					}
				}
			}
		}
	}

	fail := func(ins ssa.Instruction, m string) {
		if msg == "" {
			where, msg = p.InstrPos(ins), m
		}
	}

	// use of the list while its order is not stable.
	next := func(it2 *Unordered, up listPlace) {
		up.ins, up.up = l.ins, l.up+1
		it2.what, it2.pos, it2.seed = it.what, it.pos, map[ssa.Value]int{}

		m, w, bad := sortedBeforeUse(p, it2, up)
		more = append(more, m...)

		if bad != "" && msg == "" {
			where, msg = w, bad
		}
	}

	use := func(ins ssa.Instruction) {
		switch i := ins.(type) {
		case ssa.CallInstruction:
			// Helper that uses the list.
			f := i.Common().StaticCallee()
			if f == nil || !p.InRepo(f) || len(f.Blocks) == 0 || l.up > 3 {
				break
			}

			for k, a := range i.Common().Args {
				if loads(a) {
					next(&Unordered{fn: f}, listPlace{val: f.Params[k]})
				}
			}

			return
		case *ssa.Store:
			if !loads(i.Val) {
				break
			}

			switch a := i.Addr.(type) {
			case *ssa.Alloc:
				return
			case *ssa.FieldAddr:
				if l.up <= 3 {
					next(&Unordered{fn: fn, at: i}, listPlace{val: a})

					return
				}
			}
		}

		more = append(more, listUse(p, ins, loads, fail)...)
	}

	// Callers continue with the list.
	returned := func(ret *ssa.Return) {
		callers := p.callers[fn]
		if obj := fn.Object(); len(callers) == 0 || l.up > 3 || field != nil && obj != nil && obj.Exported() {
			fail(ret, "list of elements of a map is kept without sorting")
		}

		for _, c := range callers {
			up := listPlace{val: v}

			if field == nil {
				up.val = callResult(c, ret, loads)
			}

			if up.val == nil {
				continue
			}

			next(&Unordered{fn: c.Parent(), at: c}, up)
		}
	}

	// Closures that use the list.
	inner := func(mc *ssa.MakeClosure) {
		f := mc.Fn.(*ssa.Function)

		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				use(ins)
			}
		}
	}

	seen := map[*ssa.BasicBlock]bool{}

	var walk func(b *ssa.BasicBlock, from int)

	walk = func(b *ssa.BasicBlock, from int) {
		for _, ins := range b.Instrs[from:] {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if tot, isSort := totalSort(p, ci, loads, 0); isSort {
					if !tot {
						fail(ins, "list of elements of a map is sorted by a property that can be equal for different elements")
					}

					return
				}
			}

			if mc, ok := ins.(*ssa.MakeClosure); ok && len(cells) > 0 && !comparator(mc) {
				if !closureOf(it, mc) {
					inner(mc)
				}

				continue
			}

			if ret, ok := ins.(*ssa.Return); ok && (field != nil || usesAny(ret, loads)) {
				if !failingReturn(ret) {
					returned(ret)
				}

				continue
			}

			use(ins)
		}

		for _, n := range b.Succs {
			if !seen[n] && !(it.loop != nil && it.loop.Blocks[n]) {
				seen[n] = true
				walk(n, 0)
			}
		}
	}

	if it.loop != nil {
		for b := range it.loop.Blocks {
			for _, s := range b.Succs {
				if !it.loop.Blocks[s] && !seen[s] {
					seen[s] = true
					walk(s, 0)
				}
			}
		}

		return more, where, msg
	}

	if start == nil {
		walk(fn.Blocks[0], 0)

		return more, where, msg
	}

	for k, ins := range start.Block().Instrs {
		if ins == start {
			seen[start.Block()] = true
			walk(start.Block(), k+1)
		}
	}

	return more, where, msg
}

func usesAny(ins ssa.Instruction, loads func(ssa.Value) bool) bool {
	for _, op := range ins.Operands(nil) {
		if *op != nil && loads(*op) {
			return true
		}
	}

	return false
}

// callResult is the value of a call that has the returned list.
func callResult(ci ssa.CallInstruction, ret *ssa.Return, loads func(ssa.Value) bool) ssa.Value {
	v := ci.Value()
	if v == nil {
		return nil
	}

	if len(ret.Results) == 1 {
		return v
	}

	for _, ref := range *v.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && loads(ret.Results[e.Index]) {
			return e
		}
	}

	return nil
}

func closureOf(it *Unordered, mc *ssa.MakeClosure) bool { return mc.Fn == ssa.Value(it.fn) }

// failingReturn tells a return of an error.
func failingReturn(ret *ssa.Return) bool {
	if len(ret.Results) == 0 {
		return false
	}

	v := ret.Results[len(ret.Results)-1]
	if !IsError(v.Type()) {
		return false
	}

	switch i := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if n := CallName(&i.Call); n == "fmt.Errorf" || strings.HasPrefix(n, "errors.") {
			return true
		}
	}

	for b := ret.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}

		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}

		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || cmp.X != v && cmp.Y != v {
			continue
		}

		side := 0
		if cmp.Op == token.EQL {
			side = 1
		}

		if d.Succs[side].Dominates(ret.Block()) && len(d.Succs[side].Preds) == 1 {
			return true
		}
	}

	return false
}

// comparator tells a closure that is only used to compare elements when the list is sorted.
func comparator(mc *ssa.MakeClosure) bool {
	for _, ref := range *mc.Referrers() {
		switch ci := ref.(type) {
		case ssa.CallInstruction:
			n := CallName(ci.Common())
			if !strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "slices.Sort") {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}

	return true
}

// totalSort tells a call that sorts the list, tot is false when different elements can be equal in the order.
func totalSort(p *Prog, ci ssa.CallInstruction, isList func(ssa.Value) bool, depth int) (tot, isSort bool) {
	if depth > 2 {
		return false, false
	}

	cc := ci.Common()
	name := CallName(cc)

	if i := strings.Index(name, "["); i > 0 {
		name = name[:i]
	}

	// Helper that sorts its argument or the field.
	if f := cc.StaticCallee(); f != nil && p.InRepo(f) {
		inner := func(u ssa.Value) bool {
			switch i := u.(type) {
			case *ssa.MakeInterface:
				u = i.X
			case *ssa.ChangeType:
				u = i.X
			}

			for k, prm := range f.Params {
				if u == ssa.Value(prm) {
					return k < len(cc.Args) && isList(cc.Args[k])
				}

				if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if al, ok := ld.X.(*ssa.Alloc); ok {
						for _, s := range cellWrites(al) {
							if s.Val == ssa.Value(prm) {
								return k < len(cc.Args) && isList(cc.Args[k])
							}
						}
					}
				}
			}

			return isList(u)
		}

		for _, c := range callsOf(f) {
			if t, ok := totalSort(p, c, inner, depth+1); ok && everyReturn(f, c.Block()) {
				return t, true
			}
		}

		return false, false
	}

	if len(cc.Args) == 0 || !isList(cc.Args[0]) {
		return false, false
	}

	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true, true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		for _, f := range p.FuncsOf(cc.Args[1]) {
			if totalCompare(p, f) {
				return true, true
			}
		}

		return false, true
	}

	return false, false
}

// everyReturn tells that each normal end of a function is preceded by the block.
func everyReturn(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, x := range f.Blocks {
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) && x != f.Recover {
			return false
		}
	}

	return true
}

// totalCompare tells that a comparator compares elements or fields themselves.
func totalCompare(p *Prog, f *ssa.Function) bool {
	plain := func(v ssa.Value) bool {
		for {
			switch i := v.(type) {
			case *ssa.UnOp:
				if i.Op != token.MUL {
					return false
				}

				v = i.X
			case *ssa.FieldAddr:
				v = i.X
			case *ssa.Field:
				v = i.X
			case *ssa.IndexAddr, *ssa.Index, *ssa.Parameter:
				return true
			case *ssa.Alloc:
				return true
			case *ssa.Call:
				if m := methodName(&i.Call); m != "String" {
					return false
				}

				v = argsOf(&i.Call)[0]
			default:
				return false
			}
		}
	}

	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.BinOp:
				if (i.Op == token.LSS || i.Op == token.GTR) && plain(i.X) && plain(i.Y) {
					return true
				}
			case *ssa.Call:
				n := CallName(&i.Call)
				if (strings.HasPrefix(n, "strings.Compare") || strings.HasPrefix(n, "cmp.Compare") || strings.HasPrefix(n, "cmp.Less")) && plain(i.Call.Args[0]) && plain(i.Call.Args[1]) {
					return true
				}
			}
		}
	}

	return false
}

// listUse checks an instruction that uses a list with an order that is not stable.
func listUse(p *Prog, ins ssa.Instruction, loads func(ssa.Value) bool, fail func(ins ssa.Instruction, m string)) []*Unordered {
	var res []*Unordered

	for _, op := range ins.Operands(nil) {
		if *op == nil || !loads(*op) {
			continue
		}

		switch i := ins.(type) {
		case *ssa.DebugRef, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType:
		case *ssa.IndexAddr:
			l := innermost(ins.Parent(), ins.Block())
			if l == nil {
				fail(ins, "element of an unsorted list is used by its position")

				continue
			}

			it := &Unordered{what: "list " + describe(*op), fn: ins.Parent(), pos: p.InstrPos(ins), loop: l, at: ins, source: *op, seed: map[ssa.Value]int{}}
			it.seed[i] = clsElem
			it.seed[i.Index] = clsDep

			for _, ref := range *i.Referrers() {
				if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
					it.seed[u] = clsKey
				}
			}

			res = append(res, it)
		case ssa.CallInstruction:
			cc := i.Common()
			n := CallName(cc)

			switch {
			case n == "builtin:len", n == "builtin:cap", n == "builtin:append" && *op == cc.Args[0], strings.HasPrefix(n, "slices.Contains"):
			default:
				fail(ins, "list of elements of a map is used by "+shortCall(cc)+" without sorting")
			}
		case *ssa.Return:
			fail(ins, "list of elements of a map is returned without sorting")
		case *ssa.Store:
			if i.Val == *op {
				fail(ins, "list of elements of a map is kept without sorting")
			}
		case *ssa.Slice, *ssa.MapUpdate, *ssa.Index:
			fail(ins, "list of elements of a map is used without sorting")
		}
	}

	return res
}

// p15Source checks that nothing random gets to output.
func p15Source(p *Prog, r *Report) {
	n := 0

	for _, fn := range p.Funcs {
		if rootFn(fn).Pkg != p.Lib {
			continue
		}

		n++

		for _, ci := range callsOf(fn) {
			name := CallName(ci.Common())

			random := false
			for _, s := range []string{"time.Now", "time.Since", "math/rand", "crypto/rand", "rand.", "os.Getpid", "os.Hostname", "hash/maphash", "runtime.NumGoroutine", "os.Getppid", "(*math/rand"} {
				random = random || strings.HasPrefix(name, s)
			}

			if random && ci.Value() != nil {
				if sink := flowsOut(p, ci.Value()); sink != nil {
					r.Fail("P15.source", FnName(fn)+"->"+name, p.InstrPos(ci), "result of "+name+" gets to output at "+p.InstrPos(sink), nil)
				}
			}
		}
	}

	if n > 0 {
		r.OK("P15.source", "calls of all functions", "-")
	}
}

// flowsOut finds where a value is stored or returned.
func flowsOut(p *Prog, v ssa.Value) ssa.Instruction {
	seen := map[ssa.Value]bool{}
	work := []ssa.Value{v}

	for len(work) > 0 {
		v := work[0]
		work = work[1:]

		if seen[v] || v.Referrers() == nil {
			continue
		}

		seen[v] = true

		for _, ref := range *v.Referrers() {
			switch i := ref.(type) {
			case *ssa.Return:
				for _, c := range p.callers[i.Parent()] {
					if c.Value() != nil {
						work = append(work, c.Value())
					}
				}
			case *ssa.Store:
				if i.Val != v {
					continue
				}

				if f := fieldVar(i.Addr); f != nil && f.Pkg() == p.Lib.Pkg && (isText(f.Type()) || isBasicNum(f.Type())) {
					switch i.Val.Type().String() {
					case "time.Time", "time.Duration":
					default:
						return ref
					}
				}

				if al, ok := i.Addr.(*ssa.Alloc); ok {
					work = append(work, al)
				}

				if ia, ok := i.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok {
						work = append(work, al)
					}
				}
			case *ssa.MapUpdate:
				return ref
			case *ssa.Call:
				n := CallName(&i.Call)
				if strings.HasPrefix(n, "fmt.Fprint") && !(&ord{p: p}).diagnostic(&i.Call) || strings.HasSuffix(n, ".Write") || strings.HasSuffix(n, ".WriteString") {
					return ref
				}

				if (&ord{p: p}).diagnostic(&i.Call) {
					continue
				}

				if f := i.Call.StaticCallee(); f != nil && f.Pkg == p.Lib {
					for k, a := range i.Call.Args {
						if a == v && k < len(f.Params) {
							work = append(work, f.Params[k])
						}
					}

					continue
				}

				work = append(work, i)
			case ssa.Value:
				work = append(work, i)
			}
		}
	}

	return nil
}

func isBasicNum(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)

	return ok && b.Info()&types.IsNumeric != 0
}

// p15Registered checks that a recorded key is registered in the index of columns, so that iteration over recorded keys never adds to it.
func p15Registered(p *Prog, r *Report) {
	index, recs := p.Field("Processor", "canonicalKeys"), p.Field("Processor", "flKeys")
	if !need(r, "P15.registered", "index of columns", index != nil && recs != nil) {
		return
	}

	n := 0

	for _, fn := range p.Funcs {
		if rootFn(fn).Pkg != p.Lib {
			continue
		}

		for _, ci := range callsOf(fn) {
			cc := ci.Common()
			if fieldCall(cc, recs.Name()) != "Store" {
				continue
			}

			// Record that is already known.
			known := false

			for _, o := range callsOf(fn) {
				if m := fieldCall(o.Common(), recs.Name()); (m == "Load" || m == "LoadAndDelete") && sameValue(o.Common().Args[1], cc.Args[1]) && !onlyAbsent(p, o, ci) {
					known = true
				}
			}

			if known || inRange(p, fn, recs) {
				continue
			}

			n++
			p15Stored(p, r, index, fn, ci)
		}
	}

	need(r, "P15.registered", "place where a key is recorded", n > 0)
}

// onlyAbsent tells that the store is only reached when the load has found nothing.
func onlyAbsent(p *Prog, load, store ssa.CallInstruction) bool {
	v := load.Value()
	if v == nil {
		return false
	}

	for _, ref := range *v.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index != 1 {
			continue
		}

		for _, u := range *e.Referrers() {
			ifi, ok := u.(*ssa.If)

			side := 1

			if n, isNot := u.(*ssa.UnOp); isNot && n.Op == token.NOT {
				for _, nu := range *n.Referrers() {
					if i2, isIf := nu.(*ssa.If); isIf {
						ifi, ok, side = i2, true, 0
					}
				}
			}

			if !ok {
				continue
			}

			if s := ifi.Block().Succs[side]; s.Dominates(store.Block()) {
				return true
			}
		}
	}

	return false
}

// inRange tells a callback of an iteration over recorded keys.
func inRange(p *Prog, fn *ssa.Function, recs *types.Var) bool {
	if fn.Parent() == nil {
		return false
	}

	for _, ci := range callsOf(fn.Parent()) {
		if fieldCall(ci.Common(), recs.Name()) == "Range" {
			for _, f := range p.FuncsOf(ci.Common().Args[len(ci.Common().Args)-1]) {
				if f == fn {
					return true
				}
			}
		}
	}

	return false
}

func p15Stored(p *Prog, r *Report, index *types.Var, fn *ssa.Function, ci ssa.CallInstruction) {
	if updatesMap(fn, index) {
		r.OK("P15.registered", FnName(fn), p.InstrPos(ci))

		return
	}

	for _, c := range p.callers[fn] {
		if updatesMap(c.Parent(), index) {
			r.OK("P15.registered", FnName(fn), p.InstrPos(ci))

			return
		}
	}

	if p.reachesFn(fn, func(g *ssa.Function) bool { return updatesMap(g, index) }) {
		r.OK("P15.registered", FnName(fn), p.InstrPos(ci))

		return
	}

	r.Fail("P15.registered", FnName(fn), p.InstrPos(ci), "key is recorded without registering its column, the name is chosen by the order of iteration later", nil)
}

// argsOf returns arguments of a call with the receiver.
func argsOf(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}

	return cc.Args
}
