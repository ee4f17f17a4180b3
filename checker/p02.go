package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P02"] = p02 }

func p02(p *Prog, r *Report) {
	r.Rule("P02.line", "processing of a line starts it once, passes its values between start and finish, and finishes it exactly once with its own number on every path without an error", 1)
	r.Rule("P02.seq", "every scanned line that is not skipped by the offset takes one sequence number and is given to exactly one worker with that number", 1)
	r.Rule("P02.wait", "reading ends without an error only after all workers have finished", 1)
	r.Rule("P02.finish", "finished line is moved from pending to finished under its own number and delivery is attempted", 1)
	r.Rule("P02.deliver", "row is delivered only after an atomic claim of the expected number, with the claimed values, and the expected number advances by one after the delivery", 1)
	r.Rule("P02.drain", "processing ends without an error only when no finished line is left", 2)
	r.Rule("P02.pass", "numbers start from the expected one once per pass and all inputs share one order", 2)
	r.Rule("P02.inputs", "every input is read", 1)
	r.Rule("P02.fanout", "row is passed to every output", 1)
	r.Rule("P02.row", "output writes the row on every path", 4)
	r.Rule("P02.pgflush", "buffered rows of each table are written after its COPY statement and dropped from the buffer once written", 1)

	p02Read(p, r, p02Line(p, r), nil)
	p02Finish(p, r)
	p02Deliver(p, r)
	p02Drain(p, r)
	p02Pass(p, r)

	if m := p.Method("Writer", "ReceiveRow"); need(r, "P02.fanout", "Writer.ReceiveRow", m != nil) {
		forEachReceiver(p, r, "P02.fanout", m, "ReceiveRow", false)
	}

	p02Row(p, r)
	p02PGFlush(p, r, "P02.pgflush")
}

// lineFunc is the function that processes a line: the innermost one that both starts and finishes it.
func lineFunc(p *Prog) *ssa.Function {
	s, f := p.Field("readSession", "lineStarted"), p.Field("readSession", "lineFinished")
	if s == nil || f == nil {
		return nil
	}

	both := func(fn *ssa.Function) bool {
		return p.reachesCall(fn, callsField(s)) && p.reachesCall(fn, callsField(f))
	}

	var best *ssa.Function

	for _, fn := range p.Funcs {
		if rootFn(fn).Pkg != p.Lib || !both(fn) {
			continue
		}

		inner := false

		for _, c := range callsOf(fn) {
			if g := c.Common().StaticCallee(); g != nil && p.InRepo(g) && both(g) {
				inner = true
			}
		}

		for _, a := range fn.AnonFuncs {
			if both(a) {
				inner = true
			}
		}

		if !inner {
			best = fn
		}
	}

	return best
}

// p02Line returns index of the parameter with number of the line.
func p02Line(p *Prog, r *Report) (seqParam int) {
	seqParam = -1

	fn := lineFunc(p)
	if !need(r, "P02.line", "function that starts and finishes a line", fn != nil) {
		return
	}

	o := newOnce(r, "P02.line", FnName(fn), p.Pos(fn.Pos()))
	started, finished := p.Field("readSession", "lineStarted"), p.Field("readSession", "lineFinished")
	walker := p.Lib.Type("FastWalker")

	isWalk := func(cc *ssa.CallCommon) bool {
		if f := fieldOfCallee(cc); f != nil && strings.HasPrefix(f.Name(), "Fn") {
			return true
		}

		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && walker != nil {
			return types.Identical(deref(f.Signature.Recv().Type()), walker.Type()) && f.Name() != "configure"
		}

		// Callback of the walker is passed.
		for _, a := range cc.Args {
			if f := loadedField(a); f != nil && strings.HasPrefix(f.Name(), "Fn") {
				return true
			}
		}

		return false
	}

	interesting := func(f *ssa.Function) bool {
		return nestedIn(f, fn) || p.reachesCall(f, callsField(started)) || p.reachesCall(f, callsField(finished)) ||
			(p.reachesCall(f, func(ci ssa.CallInstruction) bool { return isWalk(ci.Common()) }) && f.Signature.Recv() != nil &&
				!types.Identical(deref(f.Signature.Recv().Type()), walker.Type()))
	}

	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool { return !interesting(f) },
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			// Both callbacks are set in the pass that writes rows.
			if strings.HasSuffix(addr.ID, ".lineStarted") || strings.HasSuffix(addr.ID, ".lineFinished") {
				v := AV{K: KSym, ID: "@" + addr.ID, T: deref(addr.T)}
				st.SetNil(v, notNil)

				return v, true
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()
			f := fieldOfCallee(cc)

			switch {
			case f != nil && f == started:
				if st.Get("s") != "" {
					o.fail(st, "line is started more than once")
				}

				st.Set("s", "started")
				st.Set("seq", args[0].Key())

				for k, prm := range fn.Params {
					if args[0].Key() == "sP:"+prm.Name() {
						seqParam = k
					}
				}
			case f != nil && f == finished:
				if st.Get("s") != "started" {
					o.fail(st, "line is finished in state \""+st.Get("s")+"\"")
				}

				if st.Get("seq") != args[0].Key() {
					o.fail(st, "line is finished with another number")
				}

				st.Set("s", "finished")
			case isWalk(cc):
				if st.Get("s") != "started" {
					o.fail(st, "values of the line are passed in state \""+st.Get("s")+"\"")
				}

				for _, a := range args {
					if a.T != nil && types.Identical(a.T, types.Typ[types.Int64]) && a.Key() != st.Get("seq") {
						o.fail(st, "values are passed with another line number")
					}
				}
			}

			return nil
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if kind == "return" && mayReturnNil(st, fn, results) && st.Get("s") != "finished" {
				// Result of the finish callback is returned as is.
				if st.Get("panicked") == "" {
					o.fail(st, "line can end without being finished, rows after it would never be written")
				}
			}
		},
	})
	x.Run(x.Initial(fn))
	o.done(x)

	return seqParam
}

// passesSeq checks the number given to the function that processes a line inside of a closure.
func passesSeq(x *Explorer, st *State, g *ssa.Go, line *ssa.Function, k int) bool {
	f := x.Eval(st, g.Call.Value)
	if k < 0 || f.K != KFunc {
		return true
	}

	for _, c := range callsOf(f.Fn) {
		if c.Common().StaticCallee() != line {
			continue
		}

		v := c.Common().Args[k]
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = u.X
		}

		switch v := v.(type) {
		case *ssa.FreeVar:
			for i, fv := range f.Fn.FreeVars {
				if fv == v && i < len(f.Bind) && f.Bind[i].Key() != st.Get("seq") && st.Mem[f.Bind[i].ID].Key() != st.Get("seq") {
					return false
				}
			}
		case *ssa.Parameter, *ssa.Alloc:
		default:
			return false
		}
	}

	return true
}

// readFn is the function that scans lines.
func readFn(p *Prog) *ssa.Function { return p.Method("Reader", "Read") }

// p02Read checks the loop that reads lines, join is about all ends of it.
func p02Read(p *Prog, r *Report, seqParam int, join *once) {
	fn := readFn(p)
	line := lineFunc(p)

	if !need(r, "P02.seq", "Reader.Read", fn != nil && line != nil) {
		return
	}

	o := newOnce(r, "P02.seq", FnName(fn), p.Pos(fn.Pos()))
	w := newOnce(r, "P02.wait", FnName(fn), p.Pos(fn.Pos()))
	spawns := 0

	offset := p.Field("Reader", "OffsetLines")
	isScan := func(ci ssa.CallInstruction) bool { return CallName(ci.Common()) == "(*bufio.Scanner).Scan" }
	recv := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.UnOp:
					if ins.Op == token.ARROW {
						return true
					}
				case *ssa.Go:
					return true
				}
			}
		}

		return p.reachesCall(f, isScan) || p.reachesCall(f, func(ci ssa.CallInstruction) bool {
			n := CallName(ci.Common())

			return n == "(*sync.WaitGroup).Wait" || isSeqAdd(ci)
		})
	}

	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool {
			return f == line || (!nestedIn(f, fn) && !recv(f) && (offset == nil || !readsVar(f, offset)))
		},
		Made: func(x *Explorer, st *State, ins ssa.Instruction, v AV) {
			if _, ok := ins.(*ssa.MakeChan); ok {
				st.AddLabel(v, 4)
			}
		},
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if lastField(addr.ID) == "OffsetLines" {
				v := AV{K: KSym, ID: "@" + addr.ID, T: deref(addr.T)}
				st.AddLabel(v, 32)

				return v, true
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			switch name := CallName(ci.Common()); {
			case isScan(ci):
				p02NextLine(o, st)

				call := ci.(*ssa.Call)
				n := st.fork()
				n.Set("s", "")
				n.Set("off", "")
				n.Set("waited", "")
				n.Top().Env[call] = boolAV(false)
				n.Top().Idx++
				x.enqueue(n)

				st.Set("s", "scanned")
				st.Set("off", "")
				st.Set("waited", "")

				return &CallRes{Val: boolAV(true)}
			case isSeqAdd(ci):
				if st.Get("s") != "scanned" {
					o.fail(st, "sequence number is taken in state \""+st.Get("s")+"\"")
				}

				if d, ok := constInt(args[1]); !ok || d != 1 {
					o.fail(st, "sequence number does not advance by one")
				}

				st.Set("s", "numbered")
				st.Set("seq", "s"+x.id(st.Top(), ci.Value()))
			case name == "(*sync.WaitGroup).Wait":
				st.Set("waited", "1")
			}

			return nil
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			switch i := ins.(type) {
			case *ssa.Go:
				if !goesTo(p, i, line) {
					return
				}

				spawns++

				if st.Get("s") != "numbered" {
					o.fail(st, "worker is started in state \""+st.Get("s")+"\"")
				}

				// The number is given to the worker.
				found := false

				for _, a := range x.evalArgs(st, &i.Call) {
					found = found || a.Key() == st.Get("seq")
				}

				if f := x.Eval(st, i.Call.Value); f.K == KFunc {
					for _, b := range f.Bind {
						found = found || b.Key() == st.Get("seq") || st.Mem[b.ID].Key() == st.Get("seq")

						// Closure that is called by the closure.
						if m := st.Mem[b.ID]; m.K == KFunc {
							for _, b := range m.Bind {
								found = found || st.Mem[b.ID].Key() == st.Get("seq")
							}
						}
					}
				}

				if !found || !passesSeq(x, st, i, line, seqParam) {
					o.fail(st, "worker does not get the sequence number of the line")
				}

				st.Set("s", "spawned")
				st.Set("any", "1")
			case *ssa.UnOp:
				if i.Op == token.ARROW && st.Label(x.Eval(st, i.X))&4 != 0 {
					if st.Get("loop") == "p" {
						st.Set("loop", "k")
					}
				}
			}
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			// The last decision before the next line.
			if c := x.Eval(st, ins.Cond); c.K != KConst {
				st.Set("off", "")

				if labelOf(st, c)&32 != 0 {
					st.Set("off", "1")
				}
			}

			ev, l := loopEdge(x, st, ins, taken, 4)

			if ev != LoopNone && !loopReceives(l) {
				return
			}

			switch ev {
			case LoopIter:
				if st.Get("loop") == "p" {
					w.fail(st, "an iteration of the waiting loop does not receive from the channel of workers")
				}

				st.Set("loop", "p")
			case LoopDone:
				if st.Get("loop") != "p" && fullLoop(ins) {
					st.Set("waited", "1")
				}

				st.Set("loop", "")
			}
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if join != nil && kind == "return" && st.Get("any") != "" && st.Get("waited") == "" {
				join.fail(st, "reading ends while workers run, they use what is closed after it")
			}

			if kind == "panic" || !mayReturnNil(st, fn, results) {
				return
			}

			if st.Get("s") == "numbered" {
				o.fail(st, "numbered line is not given to a worker")
			}

			if st.Get("waited") == "" {
				w.fail(st, "Read can return before workers finish")
			}
		},
	})
	x.Run(x.Initial(fn))

	if spawns == 0 {
		o.fail(nil, "no worker is started for a line")
	}

	o.done(x)
	w.done(x)

	if join != nil {
		join.done(x)
	}
}

func loopReceives(l *Loop) bool {
	if l == nil {
		return false
	}

	for b := range l.Blocks {
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return true
			}
		}
	}

	return false
}

func p02NextLine(o *once, st *State) {
	switch st.Get("s") {
	case "scanned":
		if st.Get("off") == "" {
			o.fail(st, "a line is skipped")
		}
	case "numbered":
		o.fail(st, "numbered line is not given to a worker")
	}
}

func isSeqAdd(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	if !strings.HasPrefix(CallName(cc), "sync/atomic.Add") || len(cc.Args) == 0 {
		return false
	}

	f := fieldVar(cc.Args[0])

	return f != nil && f.Name() == "Sequence"
}

// goesTo tells that the goroutine processes a line.
func goesTo(p *Prog, g *ssa.Go, line *ssa.Function) bool {
	if g.Call.StaticCallee() == line {
		return true
	}

	for _, f := range p.FuncsOf(g.Call.Value) {
		if f == line || p.reaches(f, map[*ssa.Function]bool{line: true}) {
			return true
		}
	}

	return false
}

func p02Finish(p *Prog, r *Report) {
	wi := p.Lib.Type("writeIterator")
	fins := p.fieldFns[p.Field("readSession", "lineFinished")]

	if !need(r, "P02.finish", "readSession.lineFinished", wi != nil && len(fins) > 0) {
		return
	}

	del := deliverFn(p)

	for _, f := range fins {
		fn := boundTarget(f)
		o := newOnce(r, "P02.finish", FnName(fn), p.Pos(fn.Pos()))

		seq := ""

		for _, prm := range fn.Params {
			if types.Identical(prm.Type(), types.Typ[types.Int64]) {
				seq = "sP:" + prm.Name()
			}
		}

		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool { return f == del },
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				cc := ci.Common()

				if isMapType(recvType(cc)) {
					fld := lastField(args[0].ID)

					switch {
					case methodName(cc) == "LoadAndDelete" && fld == "pending":
						if args[1].Key() != seq {
							o.fail(st, "another line is taken from pending")
						}

						st.Set("s", "taken")
						st.Set("v", x.id(st.Top(), ci.Value())+"#0")
					case methodName(cc) == "Store" && fld == "finished":
						if st.Get("s") != "taken" || args[1].Key() != seq || !strings.Contains(args[2].ID, st.Get("v")) {
							o.fail(st, "finished line is not stored under its own number with its own values")
						}

						st.Set("s", "stored")
					}
				}

				if callee != nil && callee == del {
					if st.Get("s") != "stored" {
						o.fail(st, "delivery is attempted before the line is stored as finished")
					}

					st.Set("s", "delivered")
				}

				return nil
			},
			Exit: func(x *Explorer, st *State, kind string, results []AV) {
				if kind == "return" && st.Get("s") != "delivered" && mayReturnNil(st, fn, results) {
					o.fail(st, "finished line is not stored or its delivery is not attempted")
				}
			},
		})
		x.Run(x.Initial(fn))
		o.done(x)
	}
}

// boundTarget unwraps bound methods.
func boundTarget(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && strings.HasSuffix(f.Name(), "$bound") {
		for _, c := range callsOf(f) {
			if g := c.Common().StaticCallee(); g != nil {
				return g
			}
		}
	}

	return f
}

func lastField(id string) string { return id[strings.LastIndex(id, ".")+1:] }

// deliverFn is the method of writeIterator that claims expected lines in a loop.
func deliverFn(p *Prog) *ssa.Function {
	t := p.Lib.Type("writeIterator")
	if t == nil {
		return nil
	}

	rr := p.Method("Writer", "ReceiveRow")
	claims := func(ci ssa.CallInstruction) bool {
		cc := ci.Common()
		if methodName(cc) != "LoadAndDelete" || !isMapType(recvType(cc)) {
			return false
		}

		f := loadedField(cc.Args[0])

		return f != nil && f.Name() == "finished"
	}

	both := func(fn *ssa.Function) bool {
		return p.reachesCall(fn, callsStatic(rr)) && p.reachesCall(fn, claims)
	}

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || !both(fn) {
			continue
		}

		inner := false

		for _, c := range callsOf(fn) {
			if g := c.Common().StaticCallee(); g != nil && p.InRepo(g) && both(g) {
				inner = true
			}
		}

		if !inner {
			return fn
		}
	}

	return nil
}

func p02Deliver(p *Prog, r *Report) {
	fn := deliverFn(p)
	rr := p.Method("Writer", "ReceiveRow")

	if !need(r, "P02.deliver", "function that delivers rows in order", fn != nil && rr != nil) {
		return
	}

	o := newOnce(r, "P02.deliver", FnName(fn), p.Pos(fn.Pos()))
	isExpected := func(a AV) bool { return lastField(a.ID) == "seqExpected" && a.X == nil }
	seen := map[ssa.CallInstruction]bool{}

	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool { return f == rr },
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()
			name := CallName(cc)

			switch {
			case isMapType(recvType(cc)) && lastField(args[0].ID) == "finished":
				if methodName(cc) != "LoadAndDelete" {
					if methodName(cc) == "Load" || methodName(cc) == "Delete" {
						o.fail(st, "finished line is claimed not atomically")
					}

					return nil
				}

				if st.Get("s") == "claimed" || st.Get("s") == "delivered" {
					o.fail(st, "next line is claimed in state "+st.Get("s"))
				}

				st.Set("exp", "")

				if !strings.HasPrefix(args[1].ID, "exp") {
					o.fail(st, "claimed line is not the expected one")
				}

				call := ci.(*ssa.Call)
				n := st.fork()
				n.Set("s", "empty")
				none := AV{K: KSym, ID: "none", T: cc.Signature().Results().At(0).Type()}
				n.SetNil(none, isNil)
				n.Top().Env[call] = tupleOf([]AV{none, boolAV(false)})
				n.Top().Idx++
				x.enqueue(n)

				st.Set("s", "claimed")
				st.Set("k", args[1].Key())

				v := AV{K: KSym, ID: "claimed", T: cc.Signature().Results().At(0).Type()}
				st.SetNil(v, notNil)

				return &CallRes{Val: tupleOf([]AV{v, boolAV(true)})}
			case callee == rr || cc.StaticCallee() == rr:
				seen[ci] = true

				if st.Get("s") != "claimed" {
					o.fail(st, "row is delivered in state \""+st.Get("s")+"\"")
				}

				if args[1].Key() != st.Get("k") {
					o.fail(st, "row is delivered with another number")
				}

				if !strings.Contains(args[2].ID, "claimed.values") {
					o.fail(st, "delivered values are not those of the claimed line")
				}

				st.Set("s", "delivered")
			case strings.HasPrefix(name, "sync/atomic.Load") && isExpected(args[0]):
				return &CallRes{Val: AV{K: KSym, ID: "exp", T: types.Typ[types.Int64]}}
			case strings.HasPrefix(name, "sync/atomic.Add") && isExpected(args[0]):
				if d, ok := constInt(args[1]); !ok || d != 1 {
					o.fail(st, "expected number does not advance by one")
				}

				if st.Get("s") != "delivered" {
					o.fail(st, "expected number advances before the row is delivered, next row can overtake it")
				}

				st.Set("s", "advanced")
			case strings.HasPrefix(name, "sync/atomic.Store") && isExpected(args[0]):
				d, ok := AV{}, false
				if args[1].Op == token.ADD && args[1].X != nil {
					d, ok = *args[1].Y, args[1].X.Key() == st.Get("k")
				}

				if n, isInt := constInt(d); !ok || !isInt || n != 1 || st.Get("s") != "delivered" {
					o.fail(st, "expected number does not advance by one after the delivery")
				}

				st.Set("s", "advanced")
			}

			return nil
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if kind == "panic" || !mayReturnNil(st, fn, results) {
				return
			}

			if st.Get("s") != "empty" {
				o.fail(st, "delivery ends in state \""+st.Get("s")+"\", lines that are ready would wait")
			}
		},
	})
	x.Run(x.Initial(fn))

	for _, ci := range p.callers[rr] {
		if !seen[ci] {
			o.fail(nil, "row is delivered outside of the ordered delivery: "+p.InstrPos(ci))
		}
	}

	o.done(x)
}

// drainFn is the method that waits for finished lines.
func drainFn(p *Prog) *ssa.Function {
	t := p.Lib.Type("writeIterator")
	if t == nil {
		return nil
	}

	// The outermost one.
	for _, fn := range p.MethodsOf(t.Type()) {
		if !p.reachesCall(fn, rangesFinished) {
			continue
		}

		outer := true

		for _, c := range p.callers[fn] {
			if rv := rootFn(c.Parent()).Signature.Recv(); rv != nil && types.Identical(deref(rv.Type()), t.Type()) {
				outer = false
			}
		}

		if outer {
			return fn
		}
	}

	return nil
}

func rangesFinished(ci ssa.CallInstruction) bool {
	if methodName(ci.Common()) != "Range" || !isMapType(recvType(ci.Common())) {
		return false
	}

	f := loadedField(ci.Common().Args[0])

	return f != nil && f.Name() == "finished"
}

func p02Drain(p *Prog, r *Report) {
	fn := drainFn(p)
	if need(r, "P02.drain", "function that waits for finished lines", fn != nil) {
		o := newOnce(r, "P02.drain", FnName(fn), p.Pos(fn.Pos()))
		isRange := rangesFinished

		x := NewExplorer(p, &Client{
			Callbacks: true,
			NoInline: func(f *ssa.Function) bool {
				return !nestedIn(f, fn) && !p.reachesCall(rootFn(f), rangesFinished)
			},
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				if ci, ok := ins.(ssa.CallInstruction); ok && isRange(ci) {
					return
				}

				if st.Top().Fn.Parent() == nil {
					st.Set("cb", "")
				}
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, _ *ssa.Function, args []AV) *CallRes {
				if isRange(ci) {
					st.Set("ranged", "1")

					if st.Get("cb") == "" {
						st.Set("seen", "")
					}
				}

				return nil
			},
			Leave: func(x *Explorer, st *State, f *ssa.Function, results []AV) {
				if f.Parent() != nil {
					st.Set("cb", "1")
					st.Set("seen", "1")
				}
			},
			If: func(x *Explorer, st *State, ins *ssa.If, cond AV) (bool, bool) { return counterCond(x, st, cond) },
			Exit: func(x *Explorer, st *State, kind string, results []AV) {
				if kind == "return" && mayReturnNil(st, fn, results) && (st.Get("seen") == "1" || st.Get("ranged") == "") {
					o.fail(st, "processing can end without an error while there are finished lines that were not delivered")
				}
			},
		})
		x.Run(x.Initial(fn))
		o.done(x)
	}

	// The pass waits for delivery after the last input.
	it := p.Method("Processor", "iterateForWriters")
	if !need(r, "P02.drain", "Processor.iterateForWriters", it != nil && fn != nil) {
		return
	}

	read := readFn(p)
	o := newOnce(r, "P02.drain", FnName(it), p.Pos(it.Pos()))
	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool {
			return !nestedIn(f, it) && !(f != read && f != fn && p.reachesCall(f, func(ci ssa.CallInstruction) bool {
				c := ci.Common().StaticCallee()

				return c != nil && (c == read || c == fn)
			}))
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if callee == read {
				st.Set("w", "")
			}

			if callee == fn {
				st.Set("w", "1")
			}

			return nil
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if kind == "return" && mayReturnNil(st, it, results) && st.Get("w") == "" {
				o.fail(st, "the pass can end without waiting for delivery of all rows")
			}
		},
	})
	x.Run(x.Initial(it))
	o.done(x)
}

// counterCond decides comparisons of a counter that was incremented in a callback with zero.
func counterCond(x *Explorer, st *State, c AV) (bool, bool) {
	if c.K == KNot {
		v, ok := counterCond(x, st, *c.X)

		return !v, ok
	}

	if c.K != KCmp {
		return false, false
	}

	a, b, op := *c.X, *c.Y, c.Op
	if a.K == KConst {
		a, b, op = b, a, mirror(op)
	}

	n, ok := constInt(b)
	if !ok || a.K != KSym || a.Op != token.ADD || a.X == nil || !strings.HasPrefix(a.X.ID, "cb:") {
		return false, false
	}

	if d, ok := constInt(*a.Y); !ok || d != 1 {
		return false, false
	}

	// a >= 1.
	switch {
	case n == 0 && (op == token.EQL || op == token.LEQ), n == 1 && op == token.LSS:
		return false, true
	case n == 0 && (op == token.NEQ || op == token.GTR), n == 1 && op == token.GEQ:
		return true, true
	}

	return false, false
}

func p02Pass(p *Prog, r *Report) {
	it := p.Method("Processor", "iterateForWriters")
	read := readFn(p)
	exp := p.Field("writeIterator", "seqExpected")
	seqF := p.Field("Reader", "Sequence")

	if !need(r, "P02.pass", "Processor.iterateForWriters", it != nil && read != nil && exp != nil && seqF != nil) {
		return
	}

	// Expected number starts from 1 in constructor.
	o := newOnce(r, "P02.pass", "writeIterator.seqExpected starts from 1", p.Pos(exp.Pos()))

	for _, s := range p.fieldSt[exp] {
		c, ok := s.Val.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() != 1 {
			o.fail(nil, "first expected number is not 1: "+p.InstrPos(s))
		}
	}

	if len(p.fieldSt[exp]) != 1 {
		o.fail(nil, "expected number is not set exactly in one place")
	}

	o.done(nil)

	o = newOnce(r, "P02.pass", FnName(it), p.Pos(it.Pos()))
	in := newOnce(r, "P02.inputs", FnName(it), p.Pos(it.Pos()))
	fe := &ForEach{Name: "inputs", Bit: 8, Bad: func(st *State, ins ssa.Instruction, msg string) { in.fail(st, msg) }}
	sess := p.Method("Reader", "session")
	makesIter := func(f *ssa.Function) bool {
		if f == nil || f.Signature.Results().Len() != 1 {
			return false
		}

		return typeName(f.Signature.Results().At(0).Type()) == "writeIterator"
	}

	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool {
			if nestedIn(f, it) {
				return false
			}

			return f == read || makesIter(f) || !p.reachesCall(f, func(ci ssa.CallInstruction) bool {
				return ci.Common().StaticCallee() == read || isSeqStore(ci)
			})
		},
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if strings.HasSuffix(addr.ID, "P:"+it.Params[0].Name()+".inputs") {
				v := AV{K: KSym, ID: "@" + addr.ID, T: deref(addr.T)}
				st.AddLabel(v, 8)

				return v, true
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			switch {
			case isSeqStore(ci):
				if v, ok := constInt(args[1]); !ok || v != 0 {
					o.fail(st, "sequence does not start from 0")
				}

				if st.Get("read") == "1" {
					o.fail(st, "sequence is reset between inputs, numbers of lines repeat")
				}

				st.Set("reset", "1")
			case callee != nil && makesIter(callee):
				if st.Get("read") == "1" {
					o.fail(st, "order of rows is restarted between inputs")
				}
			case callee == sess && callee != nil:
				if st.Label(args[1])&8 == 0 && len(args) > 1 && !labelledStruct(st, args) {
					in.fail(st, "session is opened for another input")
				}
			case callee == read:
				if st.Get("reset") == "" {
					o.fail(st, "sequence is not reset before reading")
				}

				st.Set("read", "1")
				fe.Hit(st)
			case CallName(ci.Common()) == "errors.Is" && len(args) == 2 && benignError(args[1]):
				n := st.fork()
				fe.Hit(n)
				n.Top().Env[ci.Value()] = boolAV(true)
				n.Top().Idx++
				x.enqueue(n)

				return &CallRes{Val: boolAV(false)}
			}

			return nil
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) { fe.Edge(x, st, ins, taken) },
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if kind == "return" && mayReturnNil(st, it, results) && fe.Status(st) != "x" {
				in.fail(st, "not every input is read")
			}
		},
	})
	x.Run(x.Initial(it))
	o.done(x)
	in.done(x)
}

func labelledStruct(st *State, args []AV) bool {
	for _, a := range args {
		if st.Label(a)&8 != 0 {
			return true
		}
	}

	return false
}

func isSeqStore(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	if !strings.HasPrefix(CallName(cc), "sync/atomic.Store") || len(cc.Args) == 0 {
		return false
	}

	f := fieldVar(cc.Args[0])

	return f != nil && f.Name() == "Sequence"
}

// p02Row checks that the main row is written once by each output.
func p02Row(p *Prog, r *Report) {
	for _, t := range outputTypes(p) {
		if typeName(t) == "Writer" {
			continue // Dispatcher of outputs.
		}

		m := p.Method(typeName(t), "ReceiveRow")
		if !need(r, "P02.row", typeName(t)+".ReceiveRow", m != nil) {
			continue
		}

		o := newOnce(r, "P02.row", typeName(t), p.Pos(m.Pos()))
		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool {
				return (f.Signature.Recv() == nil || !types.Identical(deref(f.Signature.Recv().Type()), t)) && !p.reachesCall(f, func(ci ssa.CallInstruction) bool {
					return rowEvent(ci.Common(), nil) != "" || strings.HasPrefix(CallName(ci.Common()), "(*bufio.Writer).Write")
				})
			},
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				if strings.HasSuffix(addr.ID, ".isTransposed") {
					return boolAV(false), true
				}

				return AV{}, false
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				ev := rowEvent(ci.Common(), args)

				if ev == "" {
					return nil
				}

				// The row is written on this path.
				st.Dead = true

				return nil
			},
			Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
				// Row without columns is not written.
				c := x.Eval(st, ins.Cond)
				if c.K == KCmp && isLenCond(ins.Cond) {
					if ev, _ := loopEdge(x, st, ins, taken, ^uint64(0)); ev == LoopNone && InnermostLoop(ins.Block()) == nil {
						b := ins.Cond.(*ssa.BinOp)
						if (b.Op == token.GTR || b.Op == token.NEQ) != taken {
							st.Set("empty", "1")
						}
					}
				}
			},
			Exit: func(x *Explorer, st *State, kind string, results []AV) {
				if kind == "return" && mayReturnNil(st, m, results) && st.Get("empty") == "" {
					o.fail(st, "ReceiveRow can end without writing the row and without an error")
				}
			},
		})
		x.Run(x.Initial(m))
		o.done(x)
	}
}

func isLenCond(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}

	c, ok := b.X.(*ssa.Call)
	if !ok || CallName(&c.Call) != "builtin:len" {
		return false
	}

	k, ok := b.Y.(*ssa.Const)

	return ok && k.Value != nil && k.Int64() == 0
}

func rowEvent(cc *ssa.CallCommon, args []AV) string {
	switch CallName(cc) {
	case "(*encoding/csv.Writer).Write":
		return "each"
	case "(*database/sql.Tx).Exec", "(*database/sql.Tx).ExecContext", "(*database/sql.DB).Exec":
		return "each"
	case "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		if len(args) > 1 {
			if s, ok := constStr(args[1]); ok && strings.HasSuffix(s, "\n") {
				return "each"
			}

			if n, ok := constInt(args[1]); ok && n == '\n' || endsLine(cc.Args[1]) {
				return "each"
			}
		}
	}

	return ""
}

// endsLine tells that a text ends with a new line.
func endsLine(v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.Const:
		return i.Value != nil && i.Value.Kind() == constant.String && strings.HasSuffix(constant.StringVal(i.Value), "\n")
	case *ssa.BinOp:
		return i.Op == token.ADD && endsLine(i.Y)
	case *ssa.Convert:
		return endsLine(i.X)
	}

	return false
}

func p02PGFlush(p *Prog, r *Report, rule string) {
	m := p.Method("PGDumpWriter", "flush")
	if m == nil {
		m = p.Method("PGDumpWriter", "Close")
	}

	if !need(r, rule, "PGDumpWriter.flush", m != nil) {
		return
	}

	o := newOnce(r, rule, FnName(m), p.Pos(m.Pos()))
	fe := &ForEach{Name: "tables", Bit: 2, Bad: func(st *State, ins ssa.Instruction, msg string) { o.fail(st, msg) }}
	t := p.Lib.Type("PGDumpWriter").Type()

	x := NewExplorer(p, &Client{
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if lastField(addr.ID) == "stmt" {
				v := AV{K: KSym, ID: "@" + addr.ID, T: types.Typ[types.String]}
				st.AddLabel(v, 64)

				return v, true
			}

			if strings.HasSuffix(addr.ID, ".csvCopiers") || elemKeys(p, addr, ".csvCopiers", t) {
				v := AV{K: KSym, ID: "@" + addr.ID, T: deref(addr.T)}
				st.AddLabel(v, 2)

				return v, true
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()
			name := CallName(cc)
			step := func(from, to, what string) {
				if st.Get("s") != from {
					o.fail(st, what+" in state \""+st.Get("s")+"\" instead of \""+from+"\"")
				}

				st.Set("s", to)
			}

			switch {
			case name == "(*encoding/csv.Writer).Flush":
				if st.Get("s") != "" && st.Get("s") != "stmt" {
					o.fail(st, "CSV encoder is flushed after the buffer was written")
				}

				st.Set("fl", "1")
			case name == "(*bytes.Buffer).Bytes" || name == "(*bytes.Buffer).String":
				if st.Get("fl") == "" {
					o.fail(st, "buffer is read before CSV encoder is flushed to it")
				}

				st.AddLabel(x.resultSyms(st, ci.(*ssa.Call), cc.Signature()), 16)

				v := x.resultSyms(st, ci.(*ssa.Call), cc.Signature())
				st.AddLabel(v, 16)

				return &CallRes{Val: v}
			case name == "(*bytes.Buffer).WriteTo":
				step("stmt", "rows", "rows are written")
				step("rows", "reset", "rows are dropped")
			case name == "(*bytes.Buffer).Reset" || name == "(*bytes.Buffer).Truncate":
				step("rows", "reset", "rows are dropped")
			case cc.IsInvoke() && cc.Method.Name() == "Write" || name == "io.WriteString" || name == "fmt.Fprint" || name == "fmt.Fprintf":
				d := args[len(args)-1]

				switch {
				case st.Label(d)&16 != 0:
					step("stmt", "rows", "rows are written")
				case st.Label(d)&64 != 0:
					step("", "stmt", "COPY statement is written")
				}
			}

			return nil
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			ev, _ := loopEdge(x, st, ins, taken, 2)
			if ev == LoopNone {
				return
			}

			if fe.Status(st) == "p" && st.Get("s") == "reset" {
				fe.Hit(st)
			}

			fe.Edge(x, st, ins, taken)

			st.Set("s", "")
			st.Set("fl", "")
		},
		Exit: func(x *Explorer, st *State, kind string, results []AV) {
			if kind == "return" && mayReturnNil(st, m, results) && fe.Status(st) != "x" {
				o.fail(st, "not every table is flushed")
			}
		},
	})
	x.Run(x.Initial(m))
	o.done(x)
}
