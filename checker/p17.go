package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P17"] = p17 }

// recovers finds the deferred closure that recovers from a panic.
func recovers(fn *ssa.Function) (*ssa.Function, *ssa.Defer) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}

			var f *ssa.Function

			switch v := d.Call.Value.(type) {
			case *ssa.MakeClosure:
				f = v.Fn.(*ssa.Function)
			case *ssa.Function:
				f = v
			}

			if f == nil {
				continue
			}

			for _, ci := range callsOf(f) {
				if CallName(ci.Common()) == "builtin:recover" {
					return f, d
				}
			}
		}
	}

	return nil, nil
}

// unguarded are functions that can run when a panic is not recovered.
func unguarded(p *Prog) []*ssa.Function {
	seen := map[*ssa.Function]bool{}

	var res []*ssa.Function

	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.InRepo(f) || len(f.Blocks) == 0 {
			return
		}

		seen[f] = true

		if r, _ := recovers(f); r != nil {
			add(r)

			return
		}

		res = append(res, f)

		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case ssa.CallInstruction:
					for _, c := range p.Callees(i) {
						add(c)
					}
					for _, a := range i.Common().Args {
						if mc, ok := a.(*ssa.MakeClosure); ok && !p.InRepo(i.Common().StaticCallee()) {
							add(mc.Fn.(*ssa.Function))
						}
						if fn, ok := a.(*ssa.Function); ok {
							add(fn)
						}
					}
				}
			}
		}
	}

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil {
			continue
		}

		switch FnName(fn) {
		case "NewProcessor", "New", "(*Processor).Process", "(*Processor).PrepareKeys", "(*Processor).WriteOutput", "Main":
			add(fn)
		}
	}

	return res
}

func p17(p *Prog, r *Report) {
	r.Rule("P17.bounds", "outside of recovered line processing, an index, a slice of a text or of a list made from data, a size and a divisor are within bounds on every path, options are validated when processor is created", 60)
	r.Rule("P17.panic", "explicit panic outside of recovered line processing is not reachable for any type of value", 6)
	r.Rule("P17.exit", "process is not ended by library functions other than the entry point of the tool", 1)
	r.Rule("P17.regexp", "regular expressions from configuration are compiled with a failure reported, only constants that compile are compiled with a panic", 8)
	r.Rule("P17.recover", "line is processed under a recover that is registered before, turns a panic into an error and does not end the process", 2)
	r.Rule("P17.guarded", "parsing and walking of a line and callbacks of a line run only under the recover", 3)
	r.Rule("P17.optional", "reader of an input that can be absent is used only after a check", 3)
	r.Rule("P17.extract", "text that was extracted into itself is not extracted endlessly", 1)
	r.Assum = append(r.Assum,
		"positions of columns in rows and lists of keys that are kept in maps and lists are not decided here (P09, P10, P11)",
		"hash functions never report an error")

	q := newBounds(p)
	fns := unguarded(p)
	n := map[string]int{}

	for _, fn := range fns {
		r.Saw(FnName(fn))

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				what, ok := q.safe(ins)
				if what == "" {
					continue
				}

				rule := "P17.bounds"
				if what == "panic" {
					rule = "P17.panic"
				}

				name := FnName(fn) + " " + what
				if n[name]++; n[name] > 1 {
					name += fmt.Sprintf("#%d", n[name])
				}

				switch {
				case ok:
				case what == "panic":
					p17Panic(p, r, name, ins.(*ssa.Panic))

					continue
				case !p17FromData(p, ins):
					r.Stats["slots of columns, not decided here"]++

					continue
				}

				r.Check(ok, rule, name, p.InstrPos(ins), "not proved to be within bounds: "+ins.String())
			}
		}
	}

	p17Interval(p, r, q)
	p17Optional(p, r, fns)
	p17Guards(p, r, fns)
	p17Exit(p, r)
	p17Regexp(p, r)
	p17Extract(p, r)
}

// p17FromData tells that bounds depend on text of data or on options: parts of a text, parts of a split text, elements of options.
func p17FromData(p *Prog, ins ssa.Instruction) bool {
	var x ssa.Value

	switch i := ins.(type) {
	case *ssa.IndexAddr:
		x = i.X
	case *ssa.Index:
		x = i.X
	case *ssa.Lookup:
		x = i.X
	case *ssa.Slice:
		x = i.X
	case *ssa.TypeAssert:
		return !storedAs(p, i.X, i.AssertedType)
	default:
		return true
	}

	if isString(x.Type()) || isBytes(x.Type()) {
		return !composedTail(p, ins)
	}

	for _, o := range p.Origins(x) {
		if f := loadedField(o); f != nil && fieldOfOptions(p, f) {
			return true
		}

		var c *ssa.Call

		switch i := o.(type) {
		case *ssa.Call:
			c = i
		case *ssa.Extract:
			c, _ = i.Tuple.(*ssa.Call)
		}

		if c == nil {
			continue
		}

		name := CallName(&c.Call)

		for _, s := range []string{"strings.Split", "strings.Fields", "bytes.Split", "bytes.Fields", "(*regexp.Regexp).Find"} {
			if strings.HasPrefix(name, s) {
				return true
			}
		}
	}

	return false
}

// composedTail tells that the tail of a text that is composed by the function is removed, for example, the last separator.
func composedTail(p *Prog, ins ssa.Instruction) bool {
	s, ok := ins.(*ssa.Slice)
	if !ok || s.Low != nil || s.High == nil {
		return false
	}

	b, ok := s.High.(*ssa.BinOp)
	if !ok || b.Op != token.SUB || !isLen(b.X) || b.X.(*ssa.Call).Call.Args[0] != s.X {
		return false
	}

	if _, ok := b.Y.(*ssa.Const); !ok {
		return false
	}

	for _, o := range p.Origins(s.X) {
		switch i := o.(type) {
		case *ssa.Const:
			continue
		case *ssa.BinOp:
			if i.Op == token.ADD {
				continue
			}
		case *ssa.Slice:
			continue
		case *ssa.Call:
			switch n := CallName(&i.Call); n {
			case "fmt.Sprintf", "(*strings.Builder).String", "(*bytes.Buffer).String":
				continue
			}
		}

		return false
	}

	return true
}

// storedAs tells that a value was received from sync.Map or sync.Pool that keeps only values of the type.
func storedAs(p *Prog, v ssa.Value, t types.Type) bool {
	var f *types.Var

	arg := 1

	switch i := v.(type) {
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			f = containerOf(c.Common())
			arg = 2
		}
	case *ssa.Call:
		f = containerOf(i.Common())
		arg = 1
	case *ssa.Parameter:
		// Callback of Range.
		fn := i.Parent()

		for k, prm := range fn.Params {
			if prm == i {
				arg = k + 1
			}
		}

		for _, c := range callsOf(rootFn(fn)) {
			for _, a := range c.Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == fn {
					f = containerOf(c.Common())
				}
			}
		}
	}

	if f == nil {
		return false
	}

	n := 0

	for _, fn := range p.Funcs {
		for _, c := range callsOf(fn) {
			cc := c.Common()
			if containerOf(cc) != f {
				continue
			}

			switch methodName(cc) {
			case "Store", "Put", "LoadOrStore", "Swap":
			default:
				continue
			}

			if arg >= len(cc.Args) {
				return false
			}

			for _, o := range cc.Args[arg : arg+1] {
				mi, ok := o.(*ssa.MakeInterface)
				if !ok || !types.Identical(mi.X.Type(), t) {
					return false
				}

				n++
			}
		}
	}

	return n > 0
}

// containerOf is the field with a container whose method is called.
func containerOf(cc *ssa.CallCommon) *types.Var {
	if cc.IsInvoke() || len(cc.Args) == 0 {
		return nil
	}

	if n := CallName(cc); !strings.HasPrefix(n, "(*sync.Map).") && !strings.HasPrefix(n, "(*sync.Pool).") {
		return nil
	}

	if f := loadedField(cc.Args[0]); f != nil {
		return f
	}

	if fa, ok := cc.Args[0].(*ssa.FieldAddr); ok {
		return fieldVar(fa)
	}

	return nil
}

// p17Panic decides an explicit panic.
func p17Panic(p *Prog, r *Report, name string, i *ssa.Panic) {
	fn := i.Parent()
	pos := p.InstrPos(i)

	// Conditions that lead to the panic.
	for d := i.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}

		c, ok := d.Preds[0].Instrs[len(d.Preds[0].Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}

		taken := d.Preds[0].Succs[0] == d

		switch b := c.Cond.(type) {
		case *ssa.BinOp:
			// Failure of a hash function.
			if e, ok := b.X.(*ssa.Extract); ok && IsError(e.Type()) {
				if call, ok := e.Tuple.(*ssa.Call); ok && isHash(call.Common()) {
					r.OK("P17.panic", name+": hash does not fail", pos)

					return
				}
			}

			// Row that does not fit the columns.
			if taken == (b.Op == token.NEQ) && (b.Op == token.NEQ || b.Op == token.EQL) && isLen(b.X) && isLen(b.Y) {
				r.OK("P17.panic", name+": number of values is the number of keys (P09, P10)", pos)

				return
			}
		case *ssa.Extract:
			if ta, ok := b.Tuple.(*ssa.TypeAssert); ok && !taken && storedAs(p, ta.X, ta.AssertedType) {
				r.OK("P17.panic", name+": only values of the type are stored", pos)

				return
			}
		}
	}

	p17Kinds(p, r, name, i, fn, pos)
}

func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)

	return ok && CallName(&c.Call) == "builtin:len"
}

func isHash(cc *ssa.CallCommon) bool {
	if methodName(cc) != "Write" && methodName(cc) != "WriteString" {
		return false
	}

	var t types.Type

	if cc.IsInvoke() {
		t = cc.Value.Type()
	} else if len(cc.Args) > 0 {
		t = cc.Args[0].Type()
	}

	if t == nil {
		return false
	}

	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Sum")
	_, ok := o.(*types.Func)
	o2, _, _ := types.LookupFieldOrMethod(t, true, nil, "BlockSize")
	_, ok2 := o2.(*types.Func)

	return ok && ok2
}

// p17Kinds runs the function for every type of a value.
func p17Kinds(p *Prog, r *Report, name string, at *ssa.Panic, fn *ssa.Function, pos string) {
	type dim struct {
		prm   *ssa.Parameter
		kinds []string
		field bool
	}

	var dims []dim

	for _, prm := range fn.Params {
		switch typeName(prm.Type()) {
		case "Type":
			dims = append(dims, dim{prm: prm, kinds: kindNames(p)})
		case "Value":
			if _, ok := prm.Type().Underlying().(*types.Struct); ok {
				dims = append(dims, dim{prm: prm, kinds: storedKinds(p), field: true})
			}
		}
	}

	if len(dims) == 0 {
		r.Fail("P17.panic", name, pos, "panic can not be excluded", nil)

		return
	}

	bad := false

	var rec func(k int, set map[*ssa.Parameter]string)
	rec = func(k int, set map[*ssa.Parameter]string) {
		if k < len(dims) {
			for _, t := range dims[k].kinds {
				set[dims[k].prm] = t
				rec(k+1, set)
			}

			return
		}

		x := NewExplorer(p, &Client{
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				if ins == ssa.Instruction(at) {
					bad = true

					var ks []string
					for _, d := range dims {
						ks = append(ks, q(set[d.prm]))
					}

					r.Fail("P17.panic", name, pos, "panic for type "+strings.Join(ks, ", "), st.Path())
				}
			},
			Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
				// Type of the value.
				v, ok := ins.(ssa.Value)
				if !ok || typeName(v.Type()) != "Type" || len(st.Frames) > 1 {
					return AV{}, false
				}

				for _, d := range dims {
					if d.field && readsTypeOf(v, d.prm) {
						return strAV(set[d.prm]), true
					}
				}

				return AV{}, false
			},
		})

		st := x.Initial(fn)

		for _, d := range dims {
			if !d.field {
				st.Frames[0].Env[d.prm] = strAV(set[d.prm])
			}
		}

		x.Run(st)

		if x.Err != nil && !bad {
			bad = true
			r.Fail("P17.panic", name, pos, x.Err.Error(), nil)
		}
	}

	rec(0, map[*ssa.Parameter]string{})

	if !bad {
		r.OK("P17.panic", name, pos)
	}
}

// readsTypeOf tells that the type of a value in a parameter is read.
func readsTypeOf(v ssa.Value, prm *ssa.Parameter) bool {
	switch i := v.(type) {
	case *ssa.Field:
		return i.X == ssa.Value(prm)
	case *ssa.UnOp:
		fa, ok := i.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}

		al, ok := fa.X.(*ssa.Alloc)
		if !ok {
			return false
		}

		for _, ref := range *al.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(al) && s.Val == ssa.Value(prm) {
				return true
			}
		}
	}

	return false
}

// storedKinds are types that are given to values of rows.
func storedKinds(p *Prog) []string {
	set := map[string]bool{"": true}

	tp := p.Lib.Type("Value")
	if tp == nil {
		return kindNames(p)
	}

	f := fieldByName(tp.Type(), "Type")
	if f == nil {
		return kindNames(p)
	}

	for _, s := range p.fieldSt[f] {
		for _, o := range p.Origins(s.Val) {
			if t, ok := ssaText(o); ok {
				set[t] = true
			}
		}
	}

	var res []string
	for _, k := range kindNames(p) {
		if set[k] {
			res = append(res, k)
		}
	}

	return res
}

// p17Interval checks the interval of a ticker.
func p17Interval(p *Prog, r *Report, q *Bounds) {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}

				f := fieldVar(s.Addr)
				if f == nil || f.Name() != "Interval" || f.Pkg() == nil || !strings.HasSuffix(f.Pkg().Path(), "/progress") {
					continue
				}

				r.Check(q.nonNegative(s.Val, s.Block()), "P17.bounds", FnName(fn)+" interval", p.InstrPos(ins), "interval of progress can be negative, ticker panics")
			}
		}
	}
}

// p17Optional checks that the optional reader of an input is compared with nil before its methods are called.
func p17Optional(p *Prog, r *Report, fns []*ssa.Function) {
	n := map[string]int{}

	for _, fn := range fns {
		for _, ci := range callsOf(fn) {
			cc := ci.Common()
			if !cc.IsInvoke() {
				continue
			}

			var f *types.Var

			for _, o := range p.Origins(cc.Value) {
				if l := loadedField(o); l != nil && l.Pkg() == p.Lib.Pkg && l.Name() == "Reader" {
					f = l
				}
			}

			if f == nil {
				continue
			}

			id := FnName(fn) + " " + cc.Method.Name()
			if n[id]++; n[id] > 1 {
				id += fmt.Sprintf("#%d", n[id])
			}

			r.Check(p.comparedWithNil(f, ci, 3), "P17.optional", id, p.InstrPos(ci), "reader can be nil")
		}
	}
}

// comparedWithNil tells that an instruction is executed only when a field is not nil.
func (p *Prog) comparedWithNil(f *types.Var, at ssa.Instruction, depth int) bool {
	for d := at.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}

		pr := d.Preds[0]

		i, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}

		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || (c.Op != token.EQL && c.Op != token.NEQ) || (pr.Succs[0] == d) != (c.Op == token.NEQ) {
			continue
		}

		for _, xy := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			if !isNilConst(xy[1]) {
				continue
			}

			for _, o := range p.Origins(xy[0]) {
				if loadedField(o) == f {
					return true
				}
			}
		}
	}

	cs := p.callers[at.Parent()]
	if len(cs) == 0 || depth == 0 || p.addrTaken[at.Parent()] {
		return false
	}

	for _, c := range cs {
		if !p.comparedWithNil(f, c, depth-1) {
			return false
		}
	}

	return true
}

// p17Guards checks functions that recover.
func p17Guards(p *Prog, r *Report, fns []*ssa.Function) {
	content := func(ci ssa.CallInstruction) string {
		cc := ci.Common()

		if n := CallName(cc); strings.Contains(n, "fastjson.Parser).Parse") {
			return "parsing"
		}

		if f := fieldOfCallee(cc); f != nil && f.Pkg() == p.Lib.Pkg {
			switch f.Name() {
			case "lineStarted", "lineFinished":
				return f.Name()
			}
		}

		if f := cc.StaticCallee(); f != nil && p.InRepo(f) && recvIs(f, "FastWalker") && p.reachesFn(f, func(g *ssa.Function) bool {
			for _, c := range callsOf(g) {
				if strings.Contains(CallName(c.Common()), "fastjson.Value)") {
					return true
				}
			}

			return false
		}) {
			return "walking"
		}

		return ""
	}

	bare := map[*ssa.Function]bool{}
	for _, fn := range fns {
		bare[fn] = true
	}

	for _, fn := range p.Funcs {
		if rootFn(fn).Pkg != p.Lib || fn.Synthetic != "" {
			continue
		}

		for _, ci := range callsOf(fn) {
			what := content(ci)
			if what == "" {
				continue
			}

			r.Check(!bare[fn], "P17.guarded", FnName(fn)+" "+what, p.InstrPos(ci), "panic in the call is not recovered")
		}

		cl, _ := recovers(fn)
		if cl == nil {
			continue
		}

		p17Guard(p, r, fn)
	}
}

func p17Guard(p *Prog, r *Report, fn *ssa.Function) {
	name := FnName(fn)
	pos := p.Pos(fn.Pos())

	hasErr := false
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		hasErr = hasErr || IsError(fn.Signature.Results().At(i).Type())
	}

	cl, _ := recovers(fn)
	bad := ""

	var path []string

	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool { return f != cl && !nestedIn(f, cl) },
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, f *ssa.Function, args []AV) *CallRes {
			if f != cl && ci.Parent() == fn {
				st.Set("panicked", "")
			}

			return nil
		},
		MayPanic: func(ci ssa.CallInstruction) bool {
			f := ci.Common().StaticCallee()
			if _, ok := ci.(*ssa.Defer); ok {
				return false
			}

			if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
				return false
			}

			return ci.Parent() == fn && f != cl
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			if s, ok := ins.(*ssa.Store); ok && (s.Parent() == cl || nestedIn(s.Parent(), cl)) && IsError(s.Val.Type()) && !isNilConst(s.Val) {
				st.Set("told", "1")
			}

			if c, ok := ins.(ssa.CallInstruction); ok && (c.Parent() == cl || nestedIn(c.Parent(), cl)) {
				if CallName(c.Common()) == "builtin:recover" {
					st.Set("recovering", "1")
				}
			}
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			if c, ok := ins.Cond.(*ssa.BinOp); ok && isRecovered(c.X) && isNilConst(c.Y) {
				if taken == (c.Op == token.NEQ) {
					st.Set("caught", "1")
				} else {
					st.Set("caught", "0")
				}
			}
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			switch {
			case bad != "":
			case kind == "panic":
				bad, path = "panic is not recovered", st.Path()
			case kind == "return" && st.Get("caught") == "1" && st.Get("told") != "1":
				bad, path = "recovered panic is not reported as an error", st.Path()
			case kind != "return":
				bad, path = "process is ended: "+kind, st.Path()
			}
		},
	})
	x.Run(x.Initial(fn))

	if x.Err != nil && bad == "" {
		bad = x.Err.Error()
	}

	if bad == "" {
		r.OK("P17.recover", name, pos)
	} else {
		r.Fail("P17.recover", name, pos, bad, path)
	}

	// Deferred function is registered before line is processed and reports the panic to the result.
	r.Check(hasErr || capturesError(cl), "P17.recover", name+" result", pos, "there is no error to report the panic")
}

func isRecovered(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)

	return ok && CallName(&c.Call) == "builtin:recover"
}

func capturesError(cl *ssa.Function) bool {
	for _, v := range cl.FreeVars {
		if pt, ok := v.Type().(*types.Pointer); ok && IsError(pt.Elem()) {
			return true
		}
	}

	return false
}

// p17Exit checks that the process is ended only by the entry point.
func p17Exit(p *Prog, r *Report) {
	seen := map[*ssa.Function]bool{}

	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.InRepo(f) {
			return
		}

		seen[f] = true

		for _, c := range callsOf(f) {
			for _, g := range p.Callees(c) {
				add(g)
			}
		}

		for _, a := range f.AnonFuncs {
			add(a)
		}
	}

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Name() == "Main" {
			continue
		}

		add(fn)
	}

	n := 0

	for _, fn := range p.Funcs {
		if !seen[fn] {
			continue
		}

		n++

		for _, c := range callsOf(fn) {
			switch name := CallName(c.Common()); name {
			case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit", "syscall.Exit":
				r.Fail("P17.exit", FnName(fn)+" "+name, p.InstrPos(c), "process is ended outside of the entry point", nil)
			}
		}
	}

	r.Stats["functions that must not end the process"] = n
	r.Check(n > 50, "P17.exit", "functions", "-", "functions of the library were not found")
}

// p17Regexp checks compilation of regular expressions.
func p17Regexp(p *Prog, r *Report) {
	n := map[string]int{}

	for _, fn := range allFuncs {
		if !p.InRepo(fn) {
			continue
		}

		for _, c := range callsOf(fn) {
			cc := c.Common()
			name := CallName(cc)

			id := FnName(fn) + " " + name
			if strings.HasPrefix(name, "regexp.") {
				if n[id]++; n[id] > 1 {
					id += fmt.Sprintf("#%d", n[id])
				}
			}

			switch name {
			case "regexp.MustCompile", "regexp.MustCompilePOSIX":
				s, ok := ssaText(cc.Args[0])
				if ok {
					_, err := regexp.Compile(s)
					ok = err == nil
				}

				r.Check(ok, "P17.regexp", id, p.InstrPos(c), "expression that is not a valid constant panics")
			case "regexp.Compile", "regexp.CompilePOSIX":
				propagates(p, r, "P17.regexp", id, fn, c)
			case "strings.Repeat", "bytes.Repeat":
				q := newBounds(p)
				r.Check(q.nonNegative(cc.Args[1], c.Block()), "P17.bounds", id, p.InstrPos(c), "count can be negative")
			}

			// Failures of repository functions that compile.
			if f := cc.StaticCallee(); f != nil && p.InRepo(f) && f.Parent() == nil && IsError(lastResult(f)) && compiles(f) {
				id := FnName(fn) + " " + FnName(f)
				if n[id]++; n[id] > 1 {
					id += fmt.Sprintf("#%d", n[id])
				}

				if fn.Name() != "Main" {
					propagates(p, r, "P17.regexp", id, fn, c)
				}
			}
		}
	}
}

func lastResult(f *ssa.Function) types.Type {
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return types.Typ[types.Invalid]
	}

	return rs.At(rs.Len() - 1).Type()
}

func compiles(f *ssa.Function) bool {
	for _, c := range callsOf(f) {
		if strings.HasPrefix(CallName(c.Common()), "regexp.Compile") {
			return true
		}
	}

	return false
}

// p17Extract checks that recursion through extraction ends.
func p17Extract(p *Prog, r *Report) {
	for _, fn := range p.Funcs {
		if rootFn(fn).Pkg != p.Lib || fn.Synthetic != "" {
			continue
		}

		for _, ci := range callsOf(fn) {
			cc := ci.Common()
			if !cc.IsInvoke() || cc.Method.Name() != "extract" {
				continue
			}

			p17ExtractCall(p, r, fn, ci)
		}
	}
}

func p17ExtractCall(p *Prog, r *Report, fn *ssa.Function, ci ssa.CallInstruction) {
	v := ci.Value()
	if v == nil {
		return
	}

	text := map[ssa.Value]bool{}

	for _, ref := range *v.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
			text[e] = true
		}
	}

	root := rootFn(fn)

	for _, c := range callsOf(fn) {
		f := c.Common().StaticCallee()
		if f == nil || !p.InRepo(f) || !ci.Block().Dominates(c.Block()) || c == ci {
			continue
		}

		if !p.reachesFn(f, func(g *ssa.Function) bool { return g == root }) {
			continue
		}

		ok := false

		for d := c.Block(); d != nil && d != ci.Block(); d = d.Idom() {
			pr := d.Idom()
			if pr == nil {
				break
			}

			i, isIf := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if isIf && mentions(i.Cond, text, 6) {
				ok = true
			}
		}

		// Helper compares.
		if !ok && !callsName(f, "(*FastWalker).WalkFastJSON") && f.Name() != "WalkFastJSON" {
			for k, a := range c.Common().Args {
				if text[a] && k < len(f.Params) {
					ok = ok || comparesParam(f, f.Params[k])
				}
			}
		}

		stored := false

		for _, fs := range p.fieldSt {
			for _, s := range fs {
				if fa, isFA := s.Addr.(*ssa.FieldAddr); isFA && ptrTo(fa.X.Type(), "FastWalker") && isBytes(s.Val.Type()) {
					for _, o := range p.Origins(s.Val) {
						stored = stored || text[o]
					}
				}
			}
		}

		r.Check(ok && stored, "P17.extract", FnName(fn)+" "+FnName(f), p.InstrPos(c), "extracted text is not compared with the text it was extracted from, extraction does not end")
	}
}

func comparesParam(f *ssa.Function, prm *ssa.Parameter) bool {
	for _, b := range f.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && mentions(i.Cond, map[ssa.Value]bool{prm: true}, 6) {
			return true
		}
	}

	return false
}

// mentions tells that an expression is made of one of the values.
func mentions(v ssa.Value, vals map[ssa.Value]bool, depth int) bool {
	if vals[v] {
		return true
	}

	// Result of parsing of the text is not a comparison.
	if IsError(v.Type()) {
		return false
	}

	if depth == 0 {
		return false
	}

	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}

	for _, o := range ins.Operands(nil) {
		if *o != nil && mentions(*o, vals, depth-1) {
			return true
		}
	}

	return false
}

// safe decides an instruction that can panic.
func (q *Bounds) safe(ins ssa.Instruction) (what string, ok bool) {
	at := ins.Block()

	switch i := ins.(type) {
	case *ssa.TypeAssert:
		if !i.CommaOk {
			return "type assertion", false
		}
	case *ssa.IndexAddr:
		if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
			return "index", q.nonNegative(i.Index, at) && q.within(i.Index, 1, i.X, at)
		}
	case *ssa.Index:
		return "index", q.nonNegative(i.Index, at) && q.within(i.Index, 1, i.X, at)
	case *ssa.Lookup:
		if isString(i.X.Type()) {
			return "index", q.nonNegative(i.Index, at) && q.within(i.Index, 1, i.X, at)
		}
	case *ssa.Slice:
		if i.Low == nil && i.High == nil {
			return "", true
		}

		_, ptr := i.X.Type().Underlying().(*types.Pointer)
		if ptr {
			return "", true
		}

		if c, ok := i.High.(*ssa.Const); ok && c.Int64() == 0 && i.Low == nil {
			return "", true
		}

		ok := true
		if i.High != nil {
			ok = q.within(i.High, 0, i.X, at)
			if i.Low == nil {
				ok = ok && q.nonNegative(i.High, at)
			} else {
				ok = ok && q.nonNegative(i.Low, at) && q.notGreater(i.Low, i.High, at)
			}
		} else {
			ok = q.nonNegative(i.Low, at) && q.within(i.Low, 0, i.X, at)
		}

		return "slice", ok
	case *ssa.MakeSlice:
		if _, ok := i.Len.(*ssa.Const); !ok {
			return "size", q.nonNegative(i.Len, at)
		}
	case *ssa.MakeChan:
		if _, ok := i.Size.(*ssa.Const); !ok {
			return "size", q.nonNegative(i.Size, at)
		}
	case *ssa.BinOp:
		if (i.Op == token.QUO || i.Op == token.REM) && isInteger(i.Type()) {
			if _, ok := i.Y.(*ssa.Const); !ok {
				t, k := q.num(i.Y)
				q.steps = 0

				return "divisor", q.le(bterm{}, t, k-1, at, 0)
			}
		}
	case *ssa.Panic:
		return "panic", false
	}

	return "", true
}

func ptrTo(t types.Type, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)

	return ok && typeName(pt.Elem()) == name
}
