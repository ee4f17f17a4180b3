package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P16"] = p16 }

func p16(p *Prog, r *Report) {
	r.Rule("P16.output", "an output with .gz or .zst at the end of its name is written through one compressor of that format, any other is written as is, and the file has the given name", 9)
	r.Rule("P16.input", "an input with .gz or .zst at the end of its name is read through one decompressor of that format, any other is read as is", 3)
	r.Rule("P16.suffix", "names of transposed outputs keep the last extension of the name they are made of", 2)
	r.Rule("P16.order", "buffered rows are flushed before the stream is closed, a compressor is closed before the file under it", 4)
	r.Assum = append(r.Assum, "file names have no path separator after the extension", "compressors and buffers deliver what was written to them once they are closed or flushed")

	wrap := p16Wrappers(p)

	for _, t := range outputTypes(p) {
		for _, c := range p16Constructors(p, t) {
			r.Saw(FnName(c))

			for _, class := range p16Classes {
				p16Output(p, r, wrap, c, t, class)
			}

			p16Suffix(p, r, t, c)
		}

		p16Order(p, r, t)
	}

	p16Inputs(p, r, wrap)

	for _, m := range sortedMembers(p.Lib) {
		tt, ok := m.(*ssa.Type)
		if !ok || structOf(tt.Type()) == nil {
			continue
		}

		p16Wrapper(p, r, wrap, tt.Type())
	}
}

// Classes of file names by the end of name.
var p16Classes = []string{".gz", ".zst", ""}

func className(c string) string {
	if c == "" {
		return "other names"
	}

	return c
}

// p16Compressor gives format of a library constructor of compressor or decompressor.
func p16Compressor(cc *ssa.CallCommon) string {
	f := cc.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil || f.Signature.Recv() != nil {
		return ""
	}

	if !strings.HasPrefix(f.Name(), "NewWriter") && !strings.HasPrefix(f.Name(), "NewReader") && !strings.HasPrefix(f.Name(), "New") {
		return ""
	}

	path := f.Object().Pkg().Path()
	if !strings.Contains(path, ".") && !strings.HasPrefix(path, "compress/") {
		return ""
	}

	last := path[strings.LastIndex(path, "/")+1:]

	switch {
	case strings.Contains(last, "gzip"):
		return ".gz"
	case strings.Contains(last, "zstd"):
		return ".zst"
	case strings.Contains(path, "compress"):
		return last
	}

	return ""
}

func p16Opens(cc *ssa.CallCommon) bool {
	switch CallName(cc) {
	case "os.Create", "os.Open", "os.OpenFile":
		return true
	}

	return false
}

// p16Constructors are functions that make an output of a file name.
func p16Constructors(p *Prog, t types.Type) []*ssa.Function {
	var res []*ssa.Function

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Signature.Results().Len() != 2 {
			continue
		}

		if !types.Identical(deref(fn.Signature.Results().At(0).Type()), t) {
			continue
		}

		if p.reachesCall(fn, func(ci ssa.CallInstruction) bool { return p16Opens(ci.Common()) }) && p16NameParam(p, fn) != nil {
			res = append(res, fn)
		}
	}

	return res
}

// p16NameParam is the string parameter that names the file.
func p16NameParam(p *Prog, fn *ssa.Function) *ssa.Parameter {
	var res *ssa.Parameter

	seen := map[*ssa.Function]bool{}

	var visit func(f *ssa.Function)

	visit = func(f *ssa.Function) {
		if seen[f] || len(seen) > 40 {
			return
		}

		seen[f] = true

		for _, ci := range callsOf(f) {
			cc := ci.Common()

			if p16Opens(cc) && len(cc.Args) > 0 {
				for _, prm := range fn.Params {
					if isString(prm.Type()) && p16Reaches(p, fn, prm, cc.Args[0], 0) {
						res = prm
					}
				}
			}

			if g := cc.StaticCallee(); g != nil && p.InRepo(g) {
				visit(g)
			}
		}
	}

	visit(fn)

	if res == nil {
		// The first text is the name, another one is not the name of the file.
		for _, prm := range fn.Params {
			if isString(prm.Type()) {
				return prm
			}
		}
	}

	return res
}

func p16Reaches(p *Prog, fn *ssa.Function, prm *ssa.Parameter, v ssa.Value, depth int) bool {
	if v == ssa.Value(prm) {
		return true
	}

	q, ok := v.(*ssa.Parameter)
	if !ok || depth > 6 {
		return false
	}

	for _, a := range p.argsOf(q) {
		if p16Reaches(p, fn, prm, a, depth+1) {
			return true
		}
	}

	return false
}

// delegated finds the interface field that provides a method of a repository struct.
func delegated(p *Prog, t types.Type, method string) *types.Var {
	s := structOf(deref(t))
	if s == nil {
		return nil
	}

	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != p.Lib.Pkg {
		return nil
	}

	sel := types.NewMethodSet(types.NewPointer(deref(t))).Lookup(n.Obj().Pkg(), method)
	if sel == nil {
		return nil
	}

	if ix := sel.Index(); len(ix) > 1 {
		f := s.Field(ix[0])
		if types.IsInterface(f.Type()) {
			return f
		}

		return nil
	}

	fn := p.Method(typeName(t), method)
	if fn == nil || fn.Blocks == nil {
		return nil
	}

	for _, ci := range callsOf(fn) {
		cc := ci.Common()
		if !cc.IsInvoke() || cc.Method.Name() != method {
			continue
		}

		for _, o := range p.Origins(cc.Value) {
			if f := loadedField(o); f != nil {
				for i := range s.NumFields() {
					if s.Field(i) == f {
						return f
					}
				}
			}
		}
	}

	return nil
}

type p16Wrap struct {
	p *Prog
}

func p16Wrappers(p *Prog) *p16Wrap { return &p16Wrap{p: p} }

func streamID(v AV) string {
	id := v.ID
	for strings.HasPrefix(id, "i(") && strings.HasSuffix(id, ")") {
		id = id[2 : len(id)-1]
	}

	return id
}

func chainOf(st *State, v AV) string {
	if id := streamID(v); id != "" {
		return st.Get("c:" + id)
	}

	return ""
}

// stream tells types data flows through.
func stream(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, m := range []string{"Write", "Read", "Scan"} {
		if ms.Lookup(nil, m) != nil {
			return true
		}
	}

	return false
}

// client follows streams for names of the class.
func (w *p16Wrap) client(class string, isName func(a AV) bool, created func(st *State, ci ssa.CallInstruction, name AV)) *Client {
	has := func(lit string) (val, known bool) {
		switch {
		case class == "":
			if strings.HasSuffix(lit, ".gz") || strings.HasSuffix(lit, ".zst") {
				return false, true
			}
		case strings.HasSuffix(class, lit):
			return true, true
		case !strings.HasSuffix(lit, class):
			return false, true
		}

		return false, false
	}

	ext := func(v AV) (AV, bool) {
		if class != "" {
			return strAV(class), true
		}

		return AV{K: KSym, ID: "@EXT", T: types.Typ[types.String]}, true
	}

	return &Client{
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
			// name[len(name)-n:]
			sl, ok := ins.(*ssa.Slice)
			if !ok || sl.High != nil || sl.Low == nil || !isString(sl.Type()) || !isName(x.Eval(st, sl.X)) {
				return AV{}, false
			}

			b, ok := sl.Low.(*ssa.BinOp)
			if !ok || b.Op != token.SUB {
				return AV{}, false
			}

			n, ok := constInt(x.Eval(st, b.Y))
			if c, isCall := b.X.(*ssa.Call); !ok || !isCall || !lenCallOf(c, func(v ssa.Value) bool { return isName(x.Eval(st, v)) }) {
				return AV{}, false
			}

			if k := int64(len(class)); class != "" && n <= k {
				return strAV(class[k-n:]), true
			}

			return AV{K: KSym, ID: fmt.Sprintf("@TAIL%d", n), T: types.Typ[types.String]}, true
		},
		If: func(x *Explorer, st *State, ins *ssa.If, cond AV) (bool, bool) {
			c, neg := cond, false
			for c.K == KNot {
				c, neg = *c.X, !neg
			}

			if c.K != KCmp || c.Op != token.EQL && c.Op != token.NEQ {
				return false, false
			}

			a, b := *c.X, *c.Y
			if a.K == KConst {
				a, b = b, a
			}

			lit, ok := constStr(b)
			if !ok {
				return false, false
			}

			val, known := false, false

			switch {
			case isName(a):
				// Empty name and names with another end.
				if lit == "" || class != "" && !strings.HasSuffix(lit, class) || class == "" && (strings.HasSuffix(lit, ".gz") || strings.HasSuffix(lit, ".zst")) {
					val, known = false, true
				}
			case a.ID == "@EXT":
				if lit == ".gz" || lit == ".zst" {
					val, known = false, true
				}
			case strings.HasPrefix(a.ID, "@TAIL"):
				v, k := has(lit)
				if k && !v {
					val, known = false, true
				}
			}

			if c.Op == token.NEQ {
				val = !val
			}

			return val != neg, known
		},
		Lookup: func(x *Explorer, st *State, i *ssa.Lookup) (AV, bool) {
			if x.Eval(st, i.Index).ID != "@EXT" {
				return AV{}, false
			}

			m := constMap(i.X)
			if m == nil {
				return AV{}, false
			}

			for k := range m {
				if k != `".gz"` && k != `".zst"` {
					return AV{}, false
				}
			}

			if i.CommaOk {
				return tupleOf([]AV{zeroOf(i.Type().(*types.Tuple).At(0).Type()), boolAV(false)}), true
			}

			return zeroOf(i.Type()), true
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			c := x.Eval(st, ins.Cond)
			for c.K == KNot {
				c, taken = *c.X, !taken
			}

			if c.K == KCmp && (c.Op == token.EQL) == taken && (c.Op == token.EQL || c.Op == token.NEQ) && (isName(*c.X) && c.Y.K == KConst || isName(*c.Y) && c.X.K == KConst) {
				st.Set("particular", "1")
			}
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			mi, ok := ins.(*ssa.MakeInterface)
			if !ok || structOf(deref(mi.X.Type())) == nil {
				return
			}

			av := x.Eval(st, mi.X)
			if av.ID == "" || chainOf(st, av) != "" {
				return
			}

			for _, m := range []string{"Write", "Read"} {
				f := delegated(w.p, mi.X.Type(), m)
				if f == nil {
					continue
				}

				var fv AV
				if av.K == KAddr {
					fv = x.loadID(st, av.ID+"."+f.Name(), f.Type(), nil)
				} else {
					fv = x.fieldOf(st, av, f.Name(), f.Type())
				}

				if c := chainOf(st, fv); c != "" {
					st.Set("c:"+streamID(av), c)
				}
			}
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, fn *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()
			name := CallName(cc)
			v, _ := ci.(ssa.Value)

			switch name {
			case "strings.HasSuffix", "strings.Contains":
				if len(args) == 2 && isName(args[0]) {
					if lit, ok := constStr(args[1]); ok {
						val, known := has(lit)
						if name == "strings.Contains" && !val {
							known = false
						}

						if known {
							return &CallRes{Val: boolAV(val)}
						}
					}
				}

				return nil
			case "strings.CutSuffix":
				if len(args) == 2 && isName(args[0]) && v != nil {
					if lit, ok := constStr(args[1]); ok {
						if val, known := has(lit); known {
							r := x.resultSyms(st, v, cc.Signature())
							r.Bind[1] = boolAV(val)

							return &CallRes{Val: r}
						}
					}
				}

				return nil
			case "path.Ext", "path/filepath.Ext":
				if isName(args[0]) {
					if e, ok := ext(args[0]); ok {
						return &CallRes{Val: e}
					}
				}

				return nil
			case "strings.ToLower":
				if class != "" && isName(args[0]) {
					return &CallRes{Val: args[0]}
				}

				return nil
			}

			if p16Opens(cc) && v != nil {
				if created != nil {
					created(st, ci, args[0])
				}

				r := x.resultSyms(st, v, cc.Signature())
				if len(r.Bind) > 0 {
					st.Set("c:"+streamID(r.Bind[0]), "file")
				}

				return &CallRes{Val: r}
			}

			if fn != nil && w.p.InRepo(fn) || v == nil {
				return nil
			}

			f := p16Compressor(cc)
			sig := cc.Signature()

			if sig.Results().Len() == 0 || !stream(sig.Results().At(0).Type()) {
				return nil
			}

			for i, a := range args {
				c := chainOf(st, a)
				if c == "" {
					continue
				}

				// Methods of streams do not make streams.
				if i == 0 && sig.Recv() != nil {
					continue
				}

				st.Set("u:"+streamID(a), "1")

				r := x.resultSyms(st, v, sig)
				res := r

				if r.K == KTuple {
					res = r.Bind[0]
				}

				if f != "" {
					c = f + "(" + c + ")"
				}

				st.Set("c:"+streamID(res), c)

				if p16Sink(cc) {
					st.Set("sink:"+streamID(res), c)
				}

				return &CallRes{Val: r}
			}

			return nil
		},
	}
}

// p16Sink tells buffers of rows and scanners of lines.
func p16Sink(cc *ssa.CallCommon) bool {
	switch CallName(cc) {
	case "encoding/csv.NewWriter", "bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewScanner":
		return true
	}

	return false
}

func lenCallOf(c *ssa.Call, is func(v ssa.Value) bool) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)

	return ok && b.Name() == "len" && is(c.Call.Args[0])
}

func wantChain(class string) string {
	if class == "" {
		return "file"
	}

	return class + "(file)"
}

func p16Output(p *Prog, r *Report, w *p16Wrap, fn *ssa.Function, t types.Type, class string) {
	prm := p16NameParam(p, fn)
	o := newOnce(r, "P16.output", FnName(fn)+" "+className(class), p.Pos(fn.Pos()))
	isName := func(a AV) bool { return a.ID == "P:"+prm.Name() }
	want := wantChain(class)

	c := w.client(class, isName, func(st *State, ci ssa.CallInstruction, name AV) {
		if !isName(name) {
			o.fail(st, "file with another name is created at "+p.InstrPos(ci))
		}
	})

	done := 0

	c.Exit = func(x *Explorer, st *State, kind string, results []AV) {
		if kind == "panic" || len(results) != 2 || st.NilOf(results[1]) == notNil || results[0].ID == "" {
			return
		}

		if st.Get("particular") != "" {
			// A particular name, it has no file.
			return
		}

		n := 0

		var visit func(v AV, t types.Type, path string, depth int)

		visit = func(v AV, t types.Type, path string, depth int) {
			s := structOf(deref(t))
			if s == nil || depth > 3 {
				return
			}

			for i := range s.NumFields() {
				f := s.Field(i)

				var fv AV
				if v.K == KAddr {
					fv = x.loadID(st, v.ID+"."+f.Name(), f.Type(), nil)
				} else {
					fv = x.fieldOf(st, v, f.Name(), f.Type())
				}

				if c := chainOf(st, fv); c != "" && st.Get("u:"+streamID(fv)) == "" {
					n++

					if c != want {
						o.fail(st, fmt.Sprintf("field %s writes to %s instead of %s", path+f.Name(), c, want))
					}
				} else if c != "" {
					n++
				}

				if structOf(deref(f.Type())) != nil && fv.ID != "" && f.Pkg() == p.Lib.Pkg {
					visit(fv, f.Type(), path+f.Name()+".", depth+1)
				}
			}
		}

		visit(results[0], t, "", 0)

		if n == 0 {
			o.fail(st, "no field of "+typeName(t)+" writes to the file")
		}

		done++
	}

	x := NewExplorer(p, c)
	x.Run(x.Initial(fn))

	if done == 0 && !o.bad {
		o.fail(&State{}, "no successful end was found")
	}

	o.done(x)
}

// p16Inputs checks streams that lines are scanned from.
func p16Inputs(p *Prog, r *Report, w *p16Wrap) {
	name := p.Field("Input", "FileName")
	if !need(r, "P16.input", "Input.FileName", name != nil) {
		return
	}

	opens := func(ci ssa.CallInstruction) bool { return p16Opens(ci.Common()) }
	scans := func(ci ssa.CallInstruction) bool { return p16Sink(ci.Common()) }
	both := func(fn *ssa.Function) bool { return p.reachesCall(fn, opens) && p.reachesCall(fn, scans) }

	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil || !takesInput(fn) || !both(fn) {
			continue
		}

		lowest := true

		for _, ci := range callsOf(fn) {
			if g := ci.Common().StaticCallee(); g != nil && p.InRepo(g) && both(g) {
				lowest = false
			}
		}

		if !lowest {
			continue
		}

		n++

		r.Saw(FnName(fn))

		for _, class := range p16Classes {
			o := newOnce(r, "P16.input", FnName(fn)+" "+className(class), p.Pos(fn.Pos()))
			isName := func(a AV) bool { return a.ID == "@NAME" }
			want := wantChain(class)
			done := 0

			c := w.client(class, isName, func(st *State, ci ssa.CallInstruction, name AV) {
				if !isName(name) {
					o.fail(st, "file with another name is opened at "+p.InstrPos(ci))
				}
			})

			call := c.Call
			c.Call = func(x *Explorer, st *State, ci ssa.CallInstruction, f *ssa.Function, args []AV) *CallRes {
				res := call(x, st, ci, f, args)

				if p16Sink(ci.Common()) && strings.HasPrefix(CallName(ci.Common()), "bufio.NewScanner") {
					done++

					if c := chainOf(st, args[0]); c != want {
						if c == "" {
							c = "something else"
						}

						o.fail(st, fmt.Sprintf("lines are read from %s instead of %s at %s", c, want, p.InstrPos(ci)))
					}
				}

				return res
			}

			c.Load = func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				if ins != nil {
					if fa, ok := ins.X.(*ssa.FieldAddr); ok && fieldVar(fa) == name {
						return AV{K: KSym, ID: "@NAME", T: name.Type()}, true
					}

					return AV{}, false
				}

				if strings.HasSuffix(addr.ID, "."+name.Name()) {
					return AV{K: KSym, ID: "@NAME", T: name.Type()}, true
				}

				return AV{}, false
			}

			x := NewExplorer(p, c)
			x.Run(x.Initial(fn))

			if done == 0 && !o.bad {
				o.fail(&State{}, "no scanner of lines is reached")
			}

			o.done(x)
		}
	}

	if n == 0 {
		r.Fail("P16.input", "input", "-", "no function opens an input and scans its lines", nil)
	}
}

func takesInput(fn *ssa.Function) bool {
	for _, prm := range fn.Params {
		if typeName(prm.Type()) == "Input" {
			return true
		}
	}

	return false
}

const labEnd = 1 << 9

// p16Suffix checks names given to the constructor by the output itself.
func p16Suffix(p *Prog, r *Report, t types.Type, ctor *ssa.Function) {
	prm := p16NameParam(p, ctor)
	at := -1

	for i, q := range ctor.Params {
		if q == prm {
			at = i
		}
	}

	// Fields that keep the name of the file.
	isName := func(f *types.Var) bool {
		if f == nil || !isString(f.Type()) || f.Pkg() != p.Lib.Pkg {
			return false
		}

		return p16KeepsName(p, f, prm)
	}

	for _, ci := range p.callers[ctor] {
		fn := rootFn(ci.Parent())
		if fn.Signature.Recv() == nil || !types.Identical(deref(fn.Signature.Recv().Type()), t) {
			continue
		}

		root := fn
		for !root.Object().Exported() && len(p.callers[root]) == 1 {
			up := rootFn(p.callers[root][0].Parent())
			if up.Signature.Recv() == nil || !types.Identical(deref(up.Signature.Recv().Type()), t) {
				break
			}

			root = up
		}

		o := newOnce(r, "P16.suffix", FnName(root)+" "+FnName(ctor), p.InstrPos(ci))
		n := 0

		label := func(st *State, x *Explorer, v ssa.Value) uint64 { return st.Label(x.Eval(st, v)) & labEnd }
		end := func(x *Explorer, st *State, ins ssa.Value, keep bool) AV {
			v := x.Fresh(st, ins, "")
			if keep {
				st.AddLabel(v, labEnd)
			}

			return v
		}

		x := NewExplorer(p, &Client{
			NoInline: func(fn *ssa.Function) bool {
				// Only names and calls of the constructor matter.
				if fn == ctor {
					return true
				}

				for i := range fn.Signature.Results().Len() {
					if isString(fn.Signature.Results().At(i).Type()) {
						return false
					}
				}

				return !p.reachesCall(fn, callsStatic(ctor))
			},
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				if ins == nil {
					return AV{}, false
				}

				if fa, ok := ins.X.(*ssa.FieldAddr); ok && isName(fieldVar(fa)) {
					v := AV{K: KSym, ID: "@BASE", T: ins.Type()}
					st.AddLabel(v, labEnd)

					return v, true
				}

				return AV{}, false
			},
			Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
				switch i := ins.(type) {
				case *ssa.BinOp:
					if i.Op == token.ADD && isString(i.Type()) {
						return end(x, st, i, label(st, x, i.Y) != 0), true
					}
				case *ssa.Slice:
					if isString(i.Type()) {
						return end(x, st, i, i.High == nil && label(st, x, i.X) != 0 && p16WholeTail(i)), true
					}
				}

				return AV{}, false
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				v, _ := ci.(ssa.Value)
				if v == nil {
					return nil
				}

				if callee == ctor && at < len(args) {
					n++

					if st.Label(args[at])&labEnd == 0 {
						o.fail(st, "name given at "+p.InstrPos(ci)+" may end in another way than the name of the output it is made of")
					}

					return nil
				}

				if callee != nil && p.InRepo(callee) {
					return nil
				}

				res := func(keep ...int) *CallRes {
					r := x.resultSyms(st, v, ci.Common().Signature())
					if r.K != KTuple {
						delete(st.Facts, r.ID)
					}

					for _, k := range keep {
						if r.K == KTuple {
							st.AddLabel(r.Bind[k], labEnd)
						} else {
							st.AddLabel(r, labEnd)
						}
					}

					return &CallRes{Val: r}
				}

				has := func(i int) bool { return i < len(args) && st.Label(args[i])&labEnd != 0 }

				switch name := CallName(ci.Common()); name {
				case "path.Ext", "path/filepath.Ext", "path.Base", "path/filepath.Base", "path.Clean", "path/filepath.Clean", "strings.ToLower", "strings.TrimPrefix":
					if name != "strings.ToLower" && has(0) {
						return res(0)
					}

					return res()
				case "path.Split", "path/filepath.Split":
					if has(0) {
						return res(1)
					}

					return res()
				case "path.Join", "path/filepath.Join":
					if l, ok := elements(st, args[0]); ok && len(l) > 0 && st.Label(l[len(l)-1])&labEnd != 0 {
						return res(0)
					}

					return res()
				case "fmt.Sprintf", "fmt.Sprint":
					l, ok := elements(st, args[len(args)-1])
					if f, isConst := constStr(args[0]); ok && len(l) > 0 && st.Label(l[len(l)-1])&labEnd != 0 && (name == "fmt.Sprint" || isConst && (strings.HasSuffix(f, "%s") || strings.HasSuffix(f, "%v"))) {
						return res(0)
					}

					return res()
				}

				if sig := ci.Common().Signature(); sig.Results().Len() > 0 && isString(sig.Results().At(0).Type()) {
					return res()
				}

				return nil
			},
		})

		x.Run(x.Initial(root))

		if n == 0 && !o.bad {
			o.fail(&State{}, "call of the constructor is not reached")
		}

		o.done(x)
	}
}

// p16WholeTail tells s[LastIndex(s, ".")...:] and similar tails.
func p16WholeTail(s *ssa.Slice) bool {
	c, ok := s.Low.(*ssa.Call)
	if !ok {
		return false
	}

	switch CallName(&c.Call) {
	case "strings.LastIndex", "strings.LastIndexByte":
		return true
	}

	return false
}

// p16KeepsName tells fields that are only set to the name given to the constructor.
func p16KeepsName(p *Prog, f *types.Var, prm *ssa.Parameter) bool {
	n := 0

	for _, u := range fieldUses(p, f) {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok {
			continue
		}

		for _, ref := range *fa.Referrers() {
			s, ok := ref.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(fa) {
				continue
			}

			n++

			if q, ok := s.Val.(*ssa.Parameter); !ok || q != prm && !p16Reaches(p, prm.Parent(), prm, q, 0) {
				return false
			}
		}
	}

	return n > 0
}

// p16Order checks that buffers are flushed before the stream is closed.
func p16Order(p *Prog, r *Report, t types.Type) {
	cl := p.Method(typeName(t), "Close")
	if cl == nil {
		r.Fail("P16.order", typeName(t), "-", "output has no Close method of its own", nil)

		return
	}

	var flush, close []resource

	for _, rs := range resourcesOf(p, t, "") {
		switch {
		case rs.each && rs.elemM == "Flush":
			flush = append(flush, rs)
		case rs.each:
		case rs.ops[0] == "Flush":
			flush = append(flush, rs)
		case rs.ops[0] == "Close" && !strings.Contains(typeOfPath(p, t, rs.path), "sql"):
			close = append(close, rs)
		}
	}

	r.Saw(FnName(cl))

	for _, a := range flush {
		for _, b := range close {
			p16Before(p, r, t, cl, a, b)
		}
	}
}

func typeOfPath(p *Prog, t types.Type, path string) string {
	for _, n := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		s := structOf(deref(t))
		if s == nil {
			return ""
		}

		for i := range s.NumFields() {
			if s.Field(i).Name() == n {
				t = s.Field(i).Type()
			}
		}
	}

	return types.TypeString(t, nil)
}

// p16Before checks that the operation of the first resource is done when the second one is closed.
func p16Before(p *Prog, r *Report, t types.Type, cl *ssa.Function, a, b resource) {
	o := newOnce(r, "P16.order", typeName(t)+": "+a.path+" before "+b.path, p.Pos(cl.Pos()))
	ida := "P:" + cl.Params[0].Name() + a.path
	idb := "P:" + cl.Params[0].Name() + b.path
	fe := &ForEach{Name: a.path, Bit: 2, Bad: func(st *State, ins ssa.Instruction, msg string) {
		if st.Get("failed") == "" {
			st.Set("skipped", "1")
		}
	}}

	x := NewExplorer(p, &Client{
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if a.each && (bareID(addr.ID) == ida || elemKeys(p, addr, a.path, t)) {
				v := AV{K: KSym, ID: "@" + addr.ID, T: deref(addr.T)}
				if bareID(addr.ID) == ida {
					v.ID = "@" + ida
				}

				st.AddLabel(v, 2)

				return v, true
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, _ *ssa.Function, args []AV) *CallRes {
			op := methodName(ci.Common())
			if op == "" || len(args) == 0 {
				return nil
			}

			switch {
			case a.each && op == a.elemM && st.Label(args[0])&2 != 0:
				fe.Hit(st)

				if f := ci.Common().StaticCallee(); f != nil && p.InRepo(f) {
					return &CallRes{}
				}
			case !a.each && contains(a.ops, op) && bareID(args[0].ID) == ida:
				if st.Get("closed") != "" {
					o.fail(st, fmt.Sprintf("%s is called at %s after %s was closed", op, p.InstrPos(ci), b.path))
				}

				st.Set("done", "1")
			case contains(b.ops, op) && bareID(args[0].ID) == idb:
				st.Set("closed", "1")

				switch {
				case a.each && st.Get("failed") == "" && (fe.Status(st) != "x" || st.Get("skipped") != ""):
					o.fail(st, fmt.Sprintf("%s is closed at %s before %s is called for every element of %s", b.path, p.InstrPos(ci), a.elemM, a.path))
				case !a.each && st.Get("done") == "":
					o.fail(st, fmt.Sprintf("%s is closed at %s before %s of %s", b.path, p.InstrPos(ci), a.ops[0], a.path))
				}
			}

			return nil
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			if a.each {
				fe.Edge(x, st, ins, taken)
			}
		},
		Leave: func(x *Explorer, st *State, fn *ssa.Function, results []AV) {
			if len(results) > 0 && returnsError(fn.Signature) && st.NilOf(results[len(results)-1]) == notNil {
				st.Set("failed", "1")
			}
		},
	})

	x.Run(x.Initial(cl))
	o.done(x)
}

func contains(l []string, s string) bool {
	for _, v := range l {
		if v == s {
			return true
		}
	}

	return false
}

// p16Wrapper checks a struct that is a stream over another stream and closes more than that.
func p16Wrapper(p *Prog, r *Report, w *p16Wrap, t types.Type) {
	if isOutput(p, t) {
		return
	}

	f := delegated(p, t, "Write")
	if f == nil {
		return
	}

	cl := p.Method(typeName(t), "Close")
	if cl == nil || cl.Synthetic != "" {
		return
	}

	first := resource{path: "." + f.Name(), ops: []string{"Close"}}

	for _, rs := range resourcesOf(p, t, "") {
		if len(rs.ops) > 0 && rs.ops[0] == "Close" && rs.path != first.path {
			r.Saw(FnName(cl))
			p16Before(p, r, t, cl, first, rs)
		}
	}
}
