package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P18"] = p18 }

const labRes = 1 << 8

func p18(p *Prog, r *Report) {
	r.Rule("P18.acquired", "an opened input, a created output or database is closed or handed over to its owner on every path, also on failures, and is not used or closed again after it was closed", 10)
	r.Rule("P18.session", "close of a reading session closes the input file and stops progress reporting on every path", 2)
	r.Rule("P18.outputs", "close of an output closes everything it holds on every path, also after failures", 6)
	r.Rule("P18.fanout", "all outputs are closed, a failure of one does not stop the others", 1)
	r.Rule("P18.closed-always", "outputs are closed on every exit of the function that makes them", 1)
	r.Rule("P18.rows", "nothing is done with outputs after they were closed", 1)
	r.Assum = append(r.Assum, "compressors made with constant options do not fail", "close of a file releases it even when it reports a failure")

	acq := p18Acquirers(p)

	for _, fn := range p.Funcs {
		if rootFn(fn).Pkg != p.Lib || fn.Synthetic != "" {
			continue
		}

		// Debug profiles are not inputs or outputs.
		if ofEntryPoint(p, rootFn(fn)) {
			continue
		}

		n := map[string]int{}

		for _, ci := range callsOf(fn) {
			what := p18Acquires(p, acq, ci)
			if what == "" {
				continue
			}

			name := FnName(fn) + " " + what
			if n[name]++; n[name] > 1 {
				name += fmt.Sprintf("#%d", n[name])
			}

			p18Site(p, r, acq, fn, ci, name)
		}
	}

	p18Session(p, r, acq)

	for _, t := range outputTypes(p) {
		cl := p.Method(typeName(t), "Close")
		if cl == nil {
			r.Fail("P18.outputs", typeName(t), "-", "output has no Close method of its own", nil)

			continue
		}

		for _, rs := range resourcesOf(p, t, "") {
			if rs.elemM == "Flush" || len(rs.ops) > 0 && rs.ops[0] != "Close" {
				continue
			}

			checkClose(p, r, "P18.outputs", t, cl, rs)
		}
	}

	// Wrappers of files.
	for _, m := range sortedMembers(p.Lib) {
		tt, ok := m.(*ssa.Type)
		if !ok || structOf(tt.Type()) == nil {
			continue
		}

		cl := p.Method(tt.Name(), "Close")
		if cl == nil || cl.Synthetic != "" || isOutput(p, tt.Type()) || typeName(tt.Type()) == "Writer" || stopsProgress(p, tt.Type()) {
			continue
		}

		for _, rs := range resourcesOf(p, tt.Type(), "") {
			if len(rs.ops) > 0 && rs.ops[0] == "Close" {
				checkClose(p, r, "P18.outputs", tt.Type(), cl, rs)
			}
		}
	}

	if m := p.Method("Writer", "Close"); m != nil && p.Field("Writer", "receivers") != nil {
		forEachReceiver(p, r, "P18.fanout", m, "Close", true)
	}

	p01ClosedAlways(p, r, "P18.closed-always")
	p18Rows(p, r)
}

// ofEntryPoint tells the entry point or its helper.
func ofEntryPoint(p *Prog, fn *ssa.Function) bool {
	if fn.Name() == "Main" {
		return true
	}

	if fn.Object() == nil || fn.Object().Exported() || len(p.callers[fn]) == 0 {
		return false
	}

	for _, c := range p.callers[fn] {
		if rootFn(c.Parent()).Name() != "Main" {
			return false
		}
	}

	return true
}

// p18Opens names a library call that opens something that has to be closed.
func p18Opens(cc *ssa.CallCommon) string {
	switch n := CallName(cc); n {
	case "os.Open", "os.Create", "os.OpenFile", "database/sql.Open", "sql.Open", "os.CreateTemp":
		return n
	}

	return ""
}

// p18Acquirers are functions that return what they have opened.
func p18Acquirers(p *Prog) map[*ssa.Function]bool {
	acq := map[*ssa.Function]bool{}

	for changed := true; changed; {
		changed = false

		for _, fn := range p.Funcs {
			if rootFn(fn).Pkg != p.Lib || fn.Parent() != nil || acq[fn] || fn.Synthetic != "" {
				continue
			}

			rs := fn.Signature.Results()
			if rs.Len() == 0 || !holds(rs.At(0).Type()) {
				continue
			}

			for _, ci := range callsOf(fn) {
				if p18Acquires(p, acq, ci) != "" {
					acq[fn] = true
					changed = true
				}
			}
		}
	}

	return acq
}

// holds tells a type of a value that can keep an opened file.
func holds(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Struct)

		return ok
	case *types.Interface:
		return !IsError(t)
	case *types.Struct:
		return true
	}

	return false
}

func p18Acquires(p *Prog, acq map[*ssa.Function]bool, ci ssa.CallInstruction) string {
	if n := p18Opens(ci.Common()); n != "" {
		return n
	}

	if f := ci.Common().StaticCallee(); f != nil && acq[f] {
		return FnName(f)
	}

	return ""
}

// p18Site follows what was opened by a call until the function ends.
func p18Site(p *Prog, r *Report, acq map[*ssa.Function]bool, fn *ssa.Function, site ssa.CallInstruction, name string) {
	r.Saw(FnName(fn))

	bad := ""
	pos := p.InstrPos(site)

	var path []string

	fail := func(st *State, msg string) {
		if bad == "" {
			bad, path = msg, st.Path()
		}
	}

	session := false

	if f := site.Common().StaticCallee(); f != nil && acq[f] {
		t := f.Signature.Results().At(0).Type()
		session = typeName(t) == "readSession" || stopsProgress(p, t)
	}

	res := AV{K: KSym, ID: "@opened"}
	errv := AV{K: KSym, ID: "@openErr"}

	is := func(st *State, v AV) bool { return st.Label(v)&labRes != 0 }

	x := NewExplorer(p, &Client{
		Callbacks: true,
		NoInline:  func(f *ssa.Function) bool { return !nestedIn(f, fn) },
		InlineCall: func(st *State, f *ssa.Function, args []AV) bool {
			if !p.InRepo(f) || f.Name() == "Close" || acq[f] {
				return false
			}

			// Compressor that can not fail.
			if p.reachesCall(f, func(c ssa.CallInstruction) bool { return strings.HasSuffix(CallName(c.Common()), "zstd.NewWriter") }) {
				return true
			}

			for _, a := range args {
				if is(st, a) {
					return p.reachesCall(f, func(c ssa.CallInstruction) bool {
						m := methodName(c.Common())

						return m == "Close" || m == "Add"
					})
				}
			}

			return false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, f *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()

			if ci == site {
				if h := st.Get("h"); h == "open" {
					fail(st, "opened again while the previous one is not closed")
				}

				st.Set("h", "open")

				tp, ok := site.Value().Type().(*types.Tuple)
				v := res

				if !ok {
					v.T = site.Value().Type()
					st.AddLabel(v, labRes)

					return &CallRes{Val: v}
				}

				v.T = tp.At(0).Type()
				e := errv
				e.T = tp.At(tp.Len() - 1).Type()
				delete(st.Facts, e.ID)
				delete(st.Facts, v.ID)
				st.AddLabel(v, labRes)

				return &CallRes{Val: AV{K: KTuple, Bind: []AV{v, e}}}
			}

			if strings.HasSuffix(CallName(cc), "zstd.NewWriter") && ci.Value() != nil {
				if tp, ok := ci.Value().Type().(*types.Tuple); ok {
					z := AV{K: KSym, ID: "@compressor", T: tp.At(0).Type()}
					e := AV{K: KSym, ID: "@compressorErr", T: tp.At(1).Type()}
					st.SetNil(e, isNil)

					return &CallRes{Val: AV{K: KTuple, Bind: []AV{z, e}}}
				}
			}

			if st.Get("h") == "" {
				return nil
			}

			for k, a := range args {
				if !is(st, a) {
					continue
				}

				m := methodName(cc)

				switch {
				case m == "Close" && k == 0:
					if st.Get("h") == "closed" && session {
						fail(st, "closed twice")
					}

					st.Set("h", "closed")

					return &CallRes{Val: AV{}}
				case st.Get("h") == "closed":
					fail(st, "used after it was closed: "+shortCall(cc))
				case m == "Add" && k > 0:
					// Outputs are owned by the writer.
					st.Set("h", "owned")
				}
			}

			return nil
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			if st.Get("h") != "" && st.nilByID(bareID(errv.ID)) == notNil {
				st.Set("h", "")
			}

			// Errors of a kind are not nil.
			if c, ok := ins.Cond.(*ssa.Call); ok && taken && (CallName(&c.Call) == "errors.Is" || CallName(&c.Call) == "errors.As") {
				if bareID(x.Eval(st, c.Call.Args[0]).ID) == bareID(errv.ID) {
					st.Set("h", "")
				}
			}
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			if st.Get("h") != "open" && st.Get("h") != "kept" {
				return
			}

			switch i := ins.(type) {
			case *ssa.Store:
				if !is(st, x.Eval(st, i.Val)) {
					return
				}

				switch a := i.Addr.(type) {
				case *ssa.FieldAddr:
					base := x.Eval(st, a.X)
					if strings.HasPrefix(bareID(base.ID), "P:") {
						st.Set("h", "owned")
					} else {
						st.Set("h", "kept")
					}
				case *ssa.IndexAddr:
					st.Set("h", "owned")
				}
			case *ssa.MapUpdate:
				if is(st, x.Eval(st, i.Value)) {
					st.Set("h", "owned")
				}
			}
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if kind != "return" {
				return
			}

			h := st.Get("h")
			if h != "open" && h != "kept" {
				return
			}

			for _, v := range results {
				if is(st, v) {
					return
				}

				if bareID(v.ID) == bareID(errv.ID) && st.NilOf(v) != isNil {
					return
				}
			}

			if len(results) > 1 && h == "kept" && st.NilOf(results[0]) != isNil {
				return
			}

			fail(st, "not closed on a path to the end of "+FnName(fn))
		},
	})

	x.Run(x.Initial(fn))

	if bad == "" && x.Err != nil {
		bad = x.Err.Error()
	}

	if bad == "" {
		r.OK("P18.acquired", name, pos)
	} else {
		r.Fail("P18.acquired", name, pos, bad, path)
	}
}

// stopsProgress tells a type that has a progress and a file.
func stopsProgress(p *Prog, t types.Type) bool {
	s := structOf(deref(t))
	if s == nil {
		return false
	}

	file, pr := false, false

	for i := range s.NumFields() {
		switch ts := types.TypeString(s.Field(i).Type(), nil); {
		case ts == "*os.File" || ts == "io.ReadCloser" || ts == "io.Closer":
			file = true
		case strings.HasSuffix(ts, "/progress.Progress"):
			pr = true
		}
	}

	return file && pr
}

func isOutput(p *Prog, t types.Type) bool {
	for _, o := range outputTypes(p) {
		if types.Identical(o, t) {
			return true
		}
	}

	return false
}

// p18Session checks the close of a reading session.
func p18Session(p *Prog, r *Report, acq map[*ssa.Function]bool) {
	seen := map[string]bool{}

	for _, fn := range p.Funcs {
		if !acq[fn] {
			continue
		}

		t := fn.Signature.Results().At(0).Type()
		if !stopsProgress(p, t) || seen[typeName(t)] {
			continue
		}

		seen[typeName(t)] = true

		cl := p.Method(typeName(t), "Close")
		if cl == nil {
			r.Fail("P18.session", typeName(t), p.Pos(fn.Pos()), "session has no Close method", nil)

			continue
		}

		s := structOf(deref(t))

		for i := range s.NumFields() {
			f := s.Field(i)

			switch ts := types.TypeString(f.Type(), nil); {
			case ts == "*os.File" || ts == "io.ReadCloser" || ts == "io.Closer":
				checkClose(p, r, "P18.session", deref(t), cl, resource{path: "." + f.Name(), ops: []string{"Close"}, opt: true})
			case strings.HasSuffix(ts, "/progress.Progress"):
				checkClose(p, r, "P18.session", deref(t), cl, resource{path: "." + f.Name(), ops: []string{"Stop"}})
			}
		}
	}
}

// p18Rows checks that outputs are not used after they were closed.
func p18Rows(p *Prog, r *Report) {
	wc := p.Method("Writer", "Close")
	if wc == nil {
		r.Fail("P18.rows", "Writer.Close", "-", "not found", nil)

		return
	}

	uses := map[*ssa.Function]bool{}

	for _, m := range []string{"Add", "SetupKeys", "ReceiveRow"} {
		if f := p.Method("Writer", m); f != nil {
			uses[f] = true
		}
	}

	roots := map[*ssa.Function]bool{}
	for _, c := range p.callers[wc] {
		if f := rootFn(c.Parent()); f.Synthetic == "" && p.InRepo(f) {
			roots[f] = true
		}
	}

	for _, fn := range p.Funcs {
		if !roots[fn] {
			continue
		}

		bad := false
		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool { return !nestedIn(f, fn) && !callsFn(f, wc) },
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, f *ssa.Function, args []AV) *CallRes {
				if f == wc || ci.Common().StaticCallee() == wc {
					st.Set("closed", "1")

					return &CallRes{}
				}

				if f != nil && st.Get("closed") == "1" && (uses[f] || p.reaches(f, uses)) && !bad {
					bad = true

					r.Fail("P18.rows", FnName(fn), p.InstrPos(ci), "outputs are used after they were closed", st.Path())
				}

				return nil
			},
		})
		x.Run(x.Initial(fn))

		if !bad {
			r.Check(x.Err == nil, "P18.rows", FnName(fn), p.Pos(fn.Pos()), fmt.Sprint(x.Err))
		}
	}
}
