package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P01"] = p01 }

const labErr = 1

func p01(p *Prog, r *Report) {
	io := NewIO(p)

	r.Rule("P01.propagate", "an error of a call that reads, writes, creates, flushes, commits or closes makes every path of the caller return a non-nil error, store it to the variable its parent returns, or end the process", 60)
	r.Rule("P01.sticky", "a call that reports failure later (csv Flush, Scanner.Scan) is followed by a check of the failure on every path to success", 2)
	r.Rule("P01.close", "Close of every output flushes, commits and closes each resource it holds (also transposed outputs) on every path, also after failures", 9)
	r.Rule("P01.fanout", "rows and Close are passed to every output, failure of one does not stop the loop", 2)
	r.Rule("P01.closed-always", "outputs are closed on every exit of WriteOutput, also on failures", 1)

	n := map[string]int{}

	for _, fn := range p.Funcs {
		if fn.Pkg == p.Eq || rootFn(fn).Pkg == p.Eq || fn.Synthetic != "" {
			continue
		}

		r.Saw(FnName(fn))

		for _, c := range callsOf(fn) {
			if !io.Source(c) {
				continue
			}

			if why := p01Exempt(p, fn, c); why != "" {
				r.Stats["exempt: "+why]++

				continue
			}

			name := FnName(fn) + "->" + shortCall(c.Common())
			n[name]++

			if n[name] > 1 {
				name += fmt.Sprintf("#%d", n[name])
			}

			propagates(p, r, "P01.propagate", name, fn, c)
		}
	}

	p01Sticky(p, r)
	p01Close(p, r)
	p01Fanout(p, r)
	p01ClosedAlways(p, r, "P01.closed-always")
}

func p01Exempt(p *Prog, fn *ssa.Function, c ssa.CallInstruction) string {
	cc := c.Common()

	// Closing of an input that was read is reported to stderr, nothing is lost.
	if strings.HasSuffix(CallName(cc), ".Close") {
		recv := cc.Value
		if !cc.IsInvoke() && len(cc.Args) > 0 {
			recv = cc.Args[0]
		}

		if fromField(recv, p.Field("readSession", "fj"), p.Field("readSession", "r")) {
			return "close of an input"
		}
	}

	return ""
}

// fromField is true if a value was loaded from one of fields.
func fromField(v ssa.Value, fields ...*types.Var) bool {
	seen := map[ssa.Value]bool{}

	var rec func(v ssa.Value) bool

	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}

		seen[v] = true

		switch v := v.(type) {
		case *ssa.UnOp:
			return rec(v.X)
		case *ssa.FieldAddr, *ssa.Field:
			fv := fieldVar(v)
			for _, f := range fields {
				if f != nil && f == fv {
					return true
				}
			}
		case *ssa.Extract:
			return rec(v.Tuple)
		case *ssa.TypeAssert:
			return rec(v.X)
		case *ssa.ChangeInterface:
			return rec(v.X)
		case *ssa.MakeInterface:
			return rec(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if rec(e) {
					return true
				}
			}
		}

		return false
	}

	return rec(v)
}

// propagates decides that failure of the call c of fn makes the analysis root fail.
func propagates(p *Prog, r *Report, rule, name string, fn *ssa.Function, c ssa.CallInstruction) {
	root := analysisRoot(p, fn)
	isGo := root.Parent() != nil && closureUse(p, root) == "go"
	pos := p.InstrPos(c)
	reached := false

	if _, ok := c.(*ssa.Defer); ok && errCell(c.Common()) < 0 {
		r.Fail(rule, name, pos, "error of a deferred call is dropped", nil)

		return
	}

	if _, ok := c.(*ssa.Go); ok {
		r.Fail(rule, name, pos, "error of a call in a goroutine is dropped", nil)

		return
	}

	bad := false
	fail := func(st *State, msg string) {
		if !bad {
			r.Fail(rule, name, pos, msg, st.Path())
		}

		bad = true
	}

	x := NewExplorer(p, &Client{
		Callbacks: true,
		NoInline:  func(f *ssa.Function) bool { return !nestedIn(f, root) },
		InlineCall: func(st *State, _ *ssa.Function, args []AV) bool {
			for _, a := range args {
				if st.Label(a)&labErr != 0 {
					return true
				}

				// Address of a variable with the error.
				if a.K == KAddr {
					if v, ok := st.Mem[a.ID]; ok && st.Label(v)&labErr != 0 {
						return true
					}
				}
			}

			return false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, _ *ssa.Function, args []AV) *CallRes {
			name := CallName(ci.Common())

			if isFatal(name) {
				return &CallRes{Stop: true}
			}

			if name == "errors.Is" && st.Get("failed") == "1" && len(args) == 2 && st.Label(args[0])&labErr != 0 && benignError(args[1]) {
				// Expected condition, not a failure.
				n := st.fork()
				v := ci.(ssa.Value)
				n.Set("failed", "")
				n.Top().Env[v] = boolAV(true)
				n.Top().Idx++
				x.enqueue(n)

				return &CallRes{Val: boolAV(false)}
			}

			// Such failure stays.
			if call, ok := ci.(*ssa.Call); ok && st.Get("failed") == "1" && name == CallName(c.Common()) && stickyCheck(name) {
				v := x.resultSyms(st, call, ci.Common().Signature())
				setErr(st, v, notNil, labErr)

				return &CallRes{Val: v}
			}

			if ci != c || st.Get("failed") != "" {
				return nil
			}

			reached = true

			if k := errCell(ci.Common()); k >= 0 && !returnsError(ci.Common().Signature()) {
				n := st.fork()
				n.Set("failed", "0")

				if call, ok := ci.(*ssa.Call); ok {
					n.Top().Env[call] = AV{}
					n.Top().Idx++
				}

				x.enqueue(n)

				if ci.Common().IsInvoke() {
					k++
				}

				e := AV{K: KSym, ID: "Ecell", T: ErrorType}
				st.SetNil(e, notNil)
				st.AddLabel(e, labErr)
				x.store(st, args[k], e)
				st.Set("failed", "1")
				st.Note(pos, "call fails: "+shortCall(ci.Common()))

				return &CallRes{}
			}

			if call, ok := ci.(*ssa.Call); ok {
				ok := st.fork()
				okv := x.resultSyms(ok, call, ci.Common().Signature())
				setErr(ok, okv, isNil, 0)
				ok.Top().Env[call] = okv
				ok.Top().Idx++
				x.enqueue(ok)

				v := x.resultSyms(st, call, ci.Common().Signature())
				setErr(st, v, notNil, labErr)
				st.Set("failed", "1")
				st.Note(pos, "call fails: "+shortCall(ci.Common()))

				return &CallRes{Val: v}
			}

			return nil
		},
		If: func(x *Explorer, st *State, ins *ssa.If, cond AV) (bool, bool) {
			return decideNonEmpty(x, st, cond, labErr)
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if st.Get("failed") != "1" || kind == "panic" {
				return
			}

			for _, res := range results {
				if res.T != nil && !IsError(res.T) && res.K == KSym && st.Label(res)&labErr == 0 {
					continue
				}

				if st.Label(res)&labErr != 0 || (isErrIndex(root, results, res) && st.NilOf(res) == notNil) {
					return
				}
			}

			for _, prm := range root.Params {
				if pt, ok := prm.Type().Underlying().(*types.Pointer); ok && IsError(pt.Elem()) {
					if v, ok := st.Mem["P:"+prm.Name()]; ok && st.Label(v)&labErr != 0 {
						return
					}
				}
			}

			if isGo {
				for id, v := range st.Mem {
					if strings.HasPrefix(id, "FV:") && st.Label(v)&labErr != 0 {
						return
					}
				}
			}

			fail(st, "the failure is not reported: "+FnName(root)+" can end without an error after it")
		},
	})

	x.Run(x.Initial(root))

	switch {
	case x.Err != nil:
		r.Fail(rule, name, pos, x.Err.Error(), nil)
	case bad:
	case !reached:
		r.Fail(rule, name, pos, "call was not reached by the analysis of "+FnName(root), nil)
	case isGo:
		p01GoCell(p, r, rule, name, root)
	default:
		r.OK(rule, name, pos)
	}
}

// stickyCheck tells a call that keeps reporting the first failure.
func stickyCheck(name string) bool {
	return name == "(*bufio.Scanner).Err" || name == "(*encoding/csv.Writer).Error"
}

func isErrIndex(root *ssa.Function, results []AV, res AV) bool {
	for i, x := range results {
		if x.Key() == res.Key() && IsError(root.Signature.Results().At(i).Type()) {
			return true
		}
	}

	return false
}

func benignError(a AV) bool {
	switch a.K {
	case KConst:
		return strings.Contains(a.C.ExactString(), "empty file")
	case KSym:
		return a.ID == "@G:EOF" || strings.HasSuffix(a.ID, "errEmptyFile")
	}

	return false
}

func setErr(st *State, v AV, n int, lab uint64) {
	if v.K == KTuple {
		v = v.Bind[len(v.Bind)-1]
	}

	st.SetNil(v, n)
	st.AddLabel(v, lab)
}

// p01GoCell checks that a variable with an error of a goroutine makes the parent fail.
func p01GoCell(p *Prog, r *Report, rule, name string, cl *ssa.Function) {
	parent := cl.Parent()
	name = "captured error of " + FnName(cl)
	bad := false
	reached := false

	var pos string

	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool { return !nestedIn(f, parent) },
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			g, ok := ins.(*ssa.Go)
			if !ok || st.Get("failed") != "" {
				return
			}

			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(cl) {
				return
			}

			pos = p.InstrPos(ins)
			reached = true

			n := st.fork()
			n.Set("failed", "1")
			n.Note(pos, "goroutine fails")

			for _, b := range mc.Bindings {
				if !IsError(deref(b.Type())) {
					continue
				}

				addr := x.Eval(n, b)
				e := AV{K: KSym, ID: "Egoroutine", T: ErrorType}
				n.SetNil(e, notNil)
				n.AddLabel(e, labErr)
				n.Mem[addr.ID] = e
			}

			n.Top().Idx++
			x.enqueue(n)
			st.Set("failed", "0")
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if st.Get("failed") != "1" || kind == "panic" {
				return
			}

			for i, res := range results {
				if st.Label(res)&labErr != 0 || (IsError(parent.Signature.Results().At(i).Type()) && st.NilOf(res) == notNil) {
					return
				}
			}

			bad = true

			r.Fail(rule, name, pos, "error of a goroutine is not returned by "+FnName(parent), st.Path())
		},
	})
	x.Run(x.Initial(parent))

	if !bad {
		r.Check(reached && x.Err == nil, rule, name, pos, fmt.Sprint("goroutine is not found in the parent ", x.Err))
	}
}

// csvSinks tells whether csv.Writer values of a field write to memory.
func csvMemorySink(p *Prog, v ssa.Value) bool {
	mem, n := true, 0

	var walk func(v ssa.Value, seen map[ssa.Value]bool)

	walk = func(v ssa.Value, seen map[ssa.Value]bool) {
		if v == nil || seen[v] {
			return
		}

		seen[v] = true

		switch v := v.(type) {
		case *ssa.Call:
			if CallName(&v.Call) == "encoding/csv.NewWriter" {
				n++

				mi, ok := v.Call.Args[0].(*ssa.MakeInterface)
				if !ok || mi.X.Type().String() != "*bytes.Buffer" {
					mem = false
				}
			} else {
				mem = false
			}
		case *ssa.UnOp:
			walk(v.X, seen)
		case *ssa.FieldAddr, *ssa.Field:
			for _, st := range p.fieldSt[fieldVar(v)] {
				walk(st.Val, seen)
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, seen)
			}
		default:
			mem = false
		}
	}

	walk(v, map[ssa.Value]bool{})

	return mem && n > 0
}

func p01Sticky(p *Prog, r *Report) {
	for _, fn := range p.Funcs {
		if rootFn(fn).Pkg != p.Lib {
			continue
		}

		for _, c := range callsOf(fn) {
			cc := c.Common()

			var check string

			switch CallName(cc) {
			case "(*encoding/csv.Writer).Flush":
				if csvMemorySink(p, cc.Args[0]) {
					r.Stats["csv flush to memory"]++

					continue
				}

				check = "(*encoding/csv.Writer).Error"
			case "(*bufio.Scanner).Scan":
				check = "(*bufio.Scanner).Err"
			default:
				continue
			}

			root := analysisRoot(p, fn)
			name := FnName(fn) + ": " + CallName(cc)
			bad := false

			x := NewExplorer(p, &Client{
				NoInline: func(f *ssa.Function) bool { return !nestedIn(f, root) },
				// A helper that reports the failure.
				InlineCall: func(st *State, f *ssa.Function, _ []AV) bool { return callsName(f, check) },
				Call: func(x *Explorer, st *State, ci ssa.CallInstruction, _ *ssa.Function, _ []AV) *CallRes {
					switch n := CallName(ci.Common()); {
					case ci == c:
						st.Set("pending", "1")

						if call, ok := ci.(*ssa.Call); ok && check == "(*bufio.Scanner).Err" {
							n := st.fork()
							n.Set("pending", "")
							n.Top().Env[call] = boolAV(true)
							n.Top().Idx++
							x.enqueue(n)

							return &CallRes{Val: boolAV(false)}
						}
					case n == check:
						st.Set("pending", "")
					case isFatal(n):
						return &CallRes{Stop: true}
					}

					return nil
				},
				Exit: func(x *Explorer, st *State, kind string, results []AV) {
					if st.Get("pending") == "" || kind == "panic" || bad {
						return
					}

					for _, res := range results {
						if st.NilOf(res) == notNil {
							return
						}
					}

					bad = true

					r.Fail("P01.sticky", name, p.InstrPos(c), check+" is not checked after it", st.Path())
				},
			})
			x.Run(x.Initial(root))

			if !bad {
				r.Check(x.Err == nil, "P01.sticky", name, p.InstrPos(c), fmt.Sprint(x.Err))
			}
		}
	}
}

func callsName(fn *ssa.Function, name string) bool {
	for _, c := range callsOf(fn) {
		if CallName(c.Common()) == name {
			return true
		}
	}

	return false
}

// resource held by an output.
type resource struct {
	path  string   // Field path from the receiver.
	ops   []string // Method names that have to be called.
	opt   bool     // Nothing to do if it is nil.
	each  bool     // For each element.
	elemM string
}

// resourcesOf lists resources in fields of an output.
func resourcesOf(p *Prog, t types.Type, prefix string) []resource {
	var res []resource

	s := structOf(t)
	if s == nil {
		return nil
	}

	for i := range s.NumFields() {
		f := s.Field(i)
		path := prefix + "." + f.Name()
		ts := types.TypeString(f.Type(), nil)

		switch ts {
		case "*encoding/csv.Writer", "*bufio.Writer":
			res = append(res, resource{path: path, ops: []string{"Flush"}})

			continue
		case "*database/sql.DB", "*os.File", "io.WriteCloser", "io.Closer":
			res = append(res, resource{path: path, ops: []string{"Close"}})

			continue
		case "*database/sql.Tx":
			res = append(res, resource{path: path, ops: []string{"Commit"}, opt: true})

			continue
		}

		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			if m := elemOp(p, u.Elem()); m != "" {
				res = append(res, resource{path: path, each: true, elemM: m})
			}
		case *types.Slice:
			if m := elemOp(p, u.Elem()); m != "" {
				res = append(res, resource{path: path, each: true, elemM: m})
			}
		case *types.Pointer:
			if f.Embedded() {
				res = append(res, resourcesOf(p, u.Elem(), path)...)
			}
		case *types.Struct:
			res = append(res, resourcesOf(p, f.Type(), path)...)
		}
	}

	return res
}

// elemOp names the operation that finalizes an element of a container.
func elemOp(p *Prog, t types.Type) string {
	if n, ok := types.Unalias(deref(t)).(*types.Named); ok {
		for i := range n.NumMethods() {
			m := n.Method(i)
			if m.Name() == "Close" && returnsError(m.Type().(*types.Signature)) {
				return "Close"
			}
		}
	}

	if s := structOf(t); s != nil {
		for i := range s.NumFields() {
			if types.TypeString(s.Field(i).Type(), nil) == "*encoding/csv.Writer" {
				return "Flush"
			}
		}
	}

	return ""
}

// outputTypes are implementations of WriteReceiver.
func outputTypes(p *Prog) []types.Type {
	t := p.Lib.Type("WriteReceiver")
	if t == nil {
		return nil
	}

	iface := t.Type().Underlying().(*types.Interface)

	var res []types.Type

	for _, m := range sortedMembers(p.Lib) {
		tt, ok := m.(*ssa.Type)
		if !ok || types.IsInterface(tt.Type()) {
			continue
		}

		if types.Implements(types.NewPointer(tt.Type()), iface) {
			res = append(res, tt.Type())
		}
	}

	return res
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(deref(t)).(*types.Named); ok {
		return n.Obj().Name()
	}

	return t.String()
}

func p01Close(p *Prog, r *Report) {
	for _, t := range outputTypes(p) {
		cl := p.Method(typeName(t), "Close")
		if cl == nil {
			r.Fail("P01.close", typeName(t), "-", "output has no Close method of its own", nil)

			continue
		}

		for _, rs := range resourcesOf(p, t, "") {
			checkClose(p, r, "P01.close", t, cl, rs)
		}
	}
}

func checkClose(p *Prog, r *Report, rule string, t types.Type, cl *ssa.Function, rs resource) {
	name := typeName(t) + rs.path
	bad := false
	fail := func(st *State, msg string) {
		if !bad {
			r.Fail(rule, name, p.Pos(cl.Pos()), msg, st.Path())
		}

		bad = true
	}

	id := "P:" + cl.Params[0].Name() + rs.path
	fe := &ForEach{Name: rs.path, Bit: 2, Bad: func(st *State, ins ssa.Instruction, msg string) { fail(st, msg) }}

	x := NewExplorer(p, &Client{
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if rs.each && bareID(addr.ID) == id {
				v := AV{K: KSym, ID: "@" + id, T: deref(addr.T)}
				st.AddLabel(v, 2)

				return v, true
			}

			if rs.each && elemKeys(p, addr, rs.path, t) {
				v := AV{K: KSym, ID: "@" + addr.ID, T: deref(addr.T)}
				st.AddLabel(v, 2)

				return v, true
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, _ *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()

			op := ""
			if cc.IsInvoke() {
				op = cc.Method.Name()
			} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
				op = f.Name()
			}

			if op == "" || len(args) == 0 {
				return nil
			}

			if rs.each {
				if op == rs.elemM && (st.Label(args[0])&2 != 0) {
					fe.Hit(st)

					if f := cc.StaticCallee(); f != nil && p.InRepo(f) {
						return &CallRes{}
					}
				}

				return nil
			}

			for _, o := range rs.ops {
				if o == op && (bareID(args[0].ID) == id) {
					st.Set("done", "1")
				}
			}

			return nil
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			if rs.each {
				fe.Edge(x, st, ins, taken)
			}
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			switch {
			case rs.each && fe.Status(st) != "x":
				if p.hasErr(st, results) && rs.elemM == "Flush" {
					// A statement that could not be written ends the dump, the file is still closed.
					return
				}

				fail(st, rs.elemM+" is not called for every element of "+rs.path)
			case !rs.each && st.Get("done") == "":
				if rs.opt && st.nilByID(id) == isNil {
					return
				}

				if rs.ops[0] == "Flush" && kind == "panic" {
					return
				}

				fail(st, fmt.Sprintf("%s can end without %s of %s", FnName(cl), rs.ops[0], rs.path))
			}
		},
	})

	x.Run(x.Initial(cl))

	if !bad {
		r.Check(x.Err == nil, rule, name, p.Pos(cl.Pos()), fmt.Sprint(x.Err))
	}
}

// bareID drops marks of dereferences.
func bareID(id string) string { return strings.ReplaceAll(id, "@", "") }

func (s *State) nilByID(id string) int {
	for k, f := range s.Facts {
		if bareID(k) == id && f.Nil != nilUnknown {
			return f.Nil
		}
	}

	return nilUnknown
}

func (p *Prog) hasErr(st *State, results []AV) bool {
	for _, v := range results {
		if st.NilOf(v) == isNil {
			return false
		}
	}

	return true
}

// elemKeys is true for a list of keys of the map: a slice field that is filled with keys of the map field.
func elemKeys(p *Prog, addr AV, path string, t types.Type) bool {
	i := strings.LastIndex(addr.ID, ".")
	if i < 0 {
		return false
	}

	fv := fieldByName(t, addr.ID[i+1:])
	mf := fieldByName(t, path[strings.LastIndex(path, ".")+1:])

	if fv == nil || mf == nil {
		return false
	}

	return p.keysOf(fv, mf)
}

func fieldByName(t types.Type, name string) *types.Var {
	s := structOf(t)
	if s == nil {
		return nil
	}

	for i := range s.NumFields() {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}

	return nil
}

// keysOf tells that the slice field is only filled by appending keys of a range over the map field (sorting aside), or from library
// functions that collect keys of the map.
func (p *Prog) keysOf(slice, m *types.Var) bool {
	if _, ok := slice.Type().Underlying().(*types.Slice); !ok {
		return false
	}

	if _, ok := m.Type().Underlying().(*types.Map); !ok {
		return false
	}

	n := 0

	for _, st := range p.fieldSt[slice] {
		if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
			continue
		}

		if !derivesFromField(st.Val, m) {
			return false
		}

		n++
	}

	return n > 0
}

// derivesFromField is true if a value is computed from a field (through range, append, library calls).
func derivesFromField(v ssa.Value, f *types.Var) bool {
	seen := map[ssa.Value]bool{}

	var rec func(v ssa.Value) bool

	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}

		seen[v] = true

		if fv := fieldVar(v); fv == f && fv != nil {
			return true
		}

		switch v := v.(type) {
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == ssa.Value(v) && rec(r.Val) {
						return true
					}
				case *ssa.IndexAddr:
					for _, rr := range *r.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(r) && rec(s.Val) {
							return true
						}
					}
				}
			}

			return false
		case *ssa.FieldAddr, *ssa.Field:
			return false
		case ssa.Instruction:
			var rands [12]*ssa.Value
			for _, op := range v.Operands(rands[:0]) {
				if op != nil && *op != nil && rec(*op) {
					return true
				}
			}
		}

		return false
	}

	return rec(v)
}

func p01Fanout(p *Prog, r *Report) {
	wt := p.Lib.Type("Writer")
	recv := p.Field("Writer", "receivers")

	if wt == nil || recv == nil {
		r.Fail("P01.fanout", "Writer.receivers", "-", "not found", nil)

		return
	}

	for _, op := range []string{"ReceiveRow", "Close"} {
		m := p.Method("Writer", op)
		if m == nil {
			r.Fail("P01.fanout", "Writer."+op, "-", "not found", nil)

			continue
		}

		forEachReceiver(p, r, "P01.fanout", m, op, true)
	}
}

// forEachReceiver checks that op is called for each receiver.
func forEachReceiver(p *Prog, r *Report, rule string, m *ssa.Function, op string, always bool) {
	bad := false
	name := FnName(m)
	fail := func(st *State, msg string) {
		if !bad {
			r.Fail(rule, name, p.Pos(m.Pos()), msg, st.Path())
		}

		bad = true
	}
	fe := &ForEach{Name: "receivers", Bit: 2, Bad: func(st *State, ins ssa.Instruction, msg string) { fail(st, msg) }}
	id := "P:" + m.Params[0].Name() + ".receivers"

	x := NewExplorer(p, &Client{
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if bareID(addr.ID) == id {
				v := AV{K: KSym, ID: "@" + id, T: deref(addr.T)}
				st.AddLabel(v, 2)

				return v, true
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, _ *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()
			if cc.IsInvoke() && cc.Method.Name() == op && st.Label(args[0])&2 != 0 {
				if fe.Status(st) == "k" {
					fail(st, op+" is called twice for a receiver")
				}

				fe.Hit(st)
			}

			return nil
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) { fe.Edge(x, st, ins, taken) },
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if fe.Status(st) == "x" {
				return
			}

			if !always && p.hasErr(st, results) {
				return
			}

			fail(st, op+" is not called for every receiver")
		},
	})
	x.Run(x.Initial(m))

	if !bad {
		r.Check(x.Err == nil, rule, name, p.Pos(m.Pos()), fmt.Sprint(x.Err))
	}
}

// p01ClosedAlways checks that Writer.Close is called on every exit of the function that sets up outputs.
func p01ClosedAlways(p *Prog, r *Report, rule string) {
	wc := p.Method("Writer", "Close")
	add := p.Method("Writer", "Add")

	if wc == nil || add == nil {
		r.Fail(rule, "Writer", "-", "Close or Add is not found", nil)

		return
	}

	// Functions outside of which receivers are not added.
	reach := map[*ssa.Function]bool{add: true}

	m := p.Method("Processor", "WriteOutput")
	if m == nil {
		r.Fail(rule, "Processor.WriteOutput", "-", "not found", nil)

		return
	}

	bad := false
	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool { return !nestedIn(f, m) && !callsFn(f, wc) },
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, fn *ssa.Function, args []AV) *CallRes {
			if fn == wc || ci.Common().StaticCallee() == wc {
				st.Set("closed", "1")

				return &CallRes{}
			}

			if fn != nil && p.reaches(fn, reach) {
				st.Set("closed", "0")
			}

			return nil
		},
		MayPanic: func(ci ssa.CallInstruction) bool {
			f := ci.Common().StaticCallee()

			return f != nil && p.InRepo(f) && f != wc
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if st.Get("closed") == "0" || (st.Get("closed") == "" && kind == "return") {
				bad = true

				r.Fail(rule, FnName(m), p.Pos(m.Pos()), "outputs are not closed on an exit ("+kind+")", st.Path())
			}
		},
	})
	x.Run(x.Initial(m))

	if !bad {
		r.Check(x.Err == nil, rule, FnName(m), p.Pos(m.Pos()), fmt.Sprint(x.Err))
	}
}

func callsFn(f, g *ssa.Function) bool {
	for _, c := range callsOf(f) {
		if c.Common().StaticCallee() == g {
			return true
		}
	}

	return false
}

// reaches tells that fn can call (transitively) one of targets.
func (p *Prog) reaches(fn *ssa.Function, targets map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}

	var rec func(f *ssa.Function) bool

	rec = func(f *ssa.Function) bool {
		if targets[f] {
			return true
		}

		if seen[f] {
			return false
		}

		seen[f] = true

		for _, c := range callsOf(f) {
			for _, g := range p.Callees(c) {
				if rec(g) {
					return true
				}
			}
		}

		for _, a := range f.AnonFuncs {
			if rec(a) {
				return true
			}
		}

		return false
	}

	return rec(fn)
}

var _ = token.NoPos
