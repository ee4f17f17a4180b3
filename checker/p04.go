package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P04"] = p04 }

// access to memory in concurrent code.
type access struct {
	ins    ssa.Instruction
	place  string
	write  bool
	atomic bool
	why    string
}

func p04(p *Prog, r *Report) {
	c := newConc(p)
	if !need(r, "P04.write", "goroutine started for a line", c != nil) {
		return
	}

	r.Rule("P04.access", "memory that concurrent code changes is accessed under one lock, only atomically, only by the goroutine that reads lines, or only while a row is claimed", 10)
	r.Rule("P04.handoff", "the reader does not touch what it gave to a worker", 1)
	r.Rule("P04.slot", "worker slot is given to a goroutine on every path and given back however the goroutine ends", 2)
	r.Rule("P04.join", "reading ends only after all workers have finished, with or without an error", 1)
	r.Rule("P04.unlock", "lock is released on every path, panics included, and is not taken while it is held", 3)
	r.Rule("P04.update", "record shared by workers is read and written back inside one critical section", 2)

	for _, fn := range c.order {
		r.Saw(FnName(fn))
	}

	p04Access(p, r, c)
	p04Handoff(p, r, c)
	p04Slot(p, r, c)
	p02Read(p, NewReport("P04"), -1, newOnce(r, "P04.join", FnName(c.reader), p.Pos(c.reader.Pos())))
	p04Unlock(p, r, c)
	p04Update(p, r, c)
}

// place of memory: field, variable.
func (c *Conc) place(v ssa.Value) (string, bool) {
	switch i := v.(type) {
	case *ssa.FieldAddr:
		return "field " + ownerName(i.X.Type()) + "." + fieldVar(i).Name(), true
	case *ssa.IndexAddr:
		return c.contentOf(i.X), true
	case *ssa.Alloc, *ssa.FreeVar:
		if a := c.cell(v); a != nil {
			return "variable " + a.Comment + " of " + FnName(a.Parent()), true
		}

		return "variable " + v.Name(), true
	case *ssa.Global:
		return "variable " + i.Name(), true
	case *ssa.Parameter:
		return "memory of " + i.Name(), true
	}

	return "memory of " + describe(v), true
}

// contentOf a slice or a map: the place that keeps it.
func (c *Conc) contentOf(v ssa.Value) string {
	switch i := v.(type) {
	case *ssa.UnOp:
		if i.Op == token.MUL {
			s, _ := c.place(i.X)

			return s
		}
	case *ssa.Slice:
		return c.contentOf(i.X)
	case *ssa.FieldAddr:
		s, _ := c.place(i)

		return s
	case *ssa.Call:
		if CallName(&i.Call) == "builtin:append" {
			return c.contentOf(i.Call.Args[0])
		}
	case *ssa.Field:
		return "field " + ownerName(i.X.Type()) + "." + fieldVar(i).Name()
	}

	return "memory of " + describe(v)
}

func ownerName(t types.Type) string {
	n := deref(t).String()

	return n[strings.LastIndex(n, ".")+1:]
}

// accesses of one instruction.
func (c *Conc) accesses(ins ssa.Instruction) []access {
	var res []access

	add := func(v ssa.Value, place string, write, atomic bool) {
		if why := c.sharedBy(v); why != "" {
			res = append(res, access{ins: ins, place: place, write: write, atomic: atomic, why: why})
		}
	}

	at := func(v ssa.Value) string { s, _ := c.place(v); return s }

	switch i := ins.(type) {
	case *ssa.Store:
		add(i.Addr, at(i.Addr), true, false)
	case *ssa.MapUpdate:
		add(i.Map, c.contentOf(i.Map), true, false)
	case *ssa.Lookup:
		if isRef(i.X.Type()) {
			add(i.X, c.contentOf(i.X), false, false)
		}
	case *ssa.Range:
		if isRef(i.X.Type()) {
			add(i.X, c.contentOf(i.X), false, false)
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			add(i.X, at(i.X), false, false)
		}
	case ssa.CallInstruction:
		cc := i.Common()
		n := CallName(cc)

		switch {
		case n == "builtin:append":
			if why := c.appendsTo(cc.Args[0]); why != "" && !capped(cc.Args[0]) {
				res = append(res, access{ins: ins, place: c.contentOf(cc.Args[0]), write: true, why: why})
			}
		case n == "builtin:copy", n == "builtin:delete", n == "builtin:clear":
			add(cc.Args[0], c.contentOf(cc.Args[0]), true, false)
		case strings.HasPrefix(n, "builtin:"):
		case strings.HasPrefix(n, "sync/atomic."):
			add(cc.Args[0], at(cc.Args[0]), !strings.Contains(n, ".Load"), true)
		case len(c.p.Callees(i)) > 0, safeRecv(cc):
		case cc.IsInvoke():
			if t := cc.Value.Type().String(); t != "error" && !strings.HasSuffix(t, "Context") {
				add(cc.Value, "object "+describe(cc.Value), true, false)
			}
		case cc.Signature().Recv() != nil:
			if _, ok := cc.Signature().Recv().Type().Underlying().(*types.Pointer); ok {
				add(cc.Args[0], "object "+describe(cc.Args[0]), true, false)
			}
		default:
			// Functions that write to their arguments.
			for k, a := range cc.Args {
				if writesArg(n, k) && !isFile(a) {
					add(a, c.contentOf(a), true, false)
				}
			}
		}
	}

	return res
}

// isFile tells a file, it can be written concurrently.
func isFile(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}

	return v.Type().String() == "*os.File"
}

// writesArg tells external functions that write to an argument.
func writesArg(name string, k int) bool {
	switch {
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "slices.Reverse"):
		return k == 0
	case strings.HasPrefix(name, "strconv.Append"), strings.HasPrefix(name, "fmt.Append"), name == "maps.Copy":
		return k == 0
	case strings.HasPrefix(name, "fmt.Fprint"), name == "io.WriteString":
		return k == 0
	}

	return false
}

// p04Access checks that memory written by concurrent code is accessed under one lock, atomically, or by one goroutine.
func p04Access(p *Prog, r *Report, c *Conc) {
	byPlace := map[string][]access{}

	c.instrs(func(ins ssa.Instruction) {
		for _, a := range c.accesses(ins) {
			byPlace[a.place] = append(byPlace[a.place], a)
		}
	})

	for _, pl := range sortedKeys(byPlace) {
		list := byPlace[pl]
		written := false

		for _, a := range list {
			written = written || a.write
		}

		if !written {
			r.Stats["places only read"]++

			continue
		}

		if bad, msg := c.race(list); bad != nil {
			r.Fail("P04.access", pl, p.InstrPos(bad.ins), msg+" in "+FnName(bad.ins.Parent())+": "+bad.why, nil)

			continue
		}

		r.OK("P04.access", pl, p.InstrPos(list[0].ins))
	}
}

// race finds an access that is not ordered with others.
func (c *Conc) race(list []access) (*access, string) {
	atomic, loop, serial := 0, 0, 0

	for _, a := range list {
		if a.atomic {
			atomic++
		}

		if c.inLoop(a.ins) {
			loop++
		}

		if c.isSerial(a.ins) {
			serial++
		}
	}

	if atomic == len(list) || loop == len(list) || serial == len(list) {
		return nil, ""
	}

	if atomic > 0 {
		for i := range list {
			if !list[i].atomic {
				return &list[i], "not atomic access to a counter that is changed atomically"
			}
		}
	}

	// Lock that most of accesses hold.
	count := map[string]int{}

	for _, a := range list {
		for _, l := range c.locks.held(a.ins) {
			if a.write && strings.HasSuffix(l, " (read)") {
				continue
			}

			count[strings.TrimSuffix(l, " (read)")]++
		}
	}

	best := ""
	for _, l := range sortedKeys(count) {
		if count[l] > count[best] {
			best = l
		}
	}

	for i, a := range list {
		ok := false

		for _, l := range c.locks.held(a.ins) {
			ok = ok || l == best || !a.write && strings.TrimSuffix(l, " (read)") == best
		}

		if !ok && (best != "" || serial == 0 || !c.isSerial(a.ins)) {
			what := "read"
			if a.write {
				what = "change"
			}

			if best == "" {
				return &list[i], "unprotected " + what + " of memory that other workers use"
			}

			return &list[i], what + " without " + best + " of memory that other workers use"
		}
	}

	return nil, ""
}

// p04Handoff checks that the reader leaves what it gave to a worker alone.
func p04Handoff(p *Prog, r *Report, c *Conc) {
	given := map[*ssa.Alloc]bool{}

	var rec func(v ssa.Value, depth int)

	rec = func(v ssa.Value, depth int) {
		if depth > 4 {
			return
		}

		switch i := v.(type) {
		case *ssa.MakeClosure:
			for _, b := range i.Bindings {
				rec(b, depth+1)
			}
		case *ssa.Alloc:
			given[i] = true

			for _, s := range c.cellStores(i) {
				if mc, ok := s.Val.(*ssa.MakeClosure); ok {
					rec(mc, depth+1)
				}
			}
		case *ssa.UnOp:
			if al, ok := i.X.(*ssa.Alloc); ok && i.Op == token.MUL && isRef(i.Type()) {
				given[al] = true
			}
		}
	}

	rec(c.spawn.Call.Value, 0)

	args := map[ssa.Value]bool{}

	for _, a := range c.spawn.Call.Args {
		rec(a, 0)

		if _, isPrm := a.(*ssa.Parameter); !isPrm && isRef(a.Type()) {
			args[a] = true
		}
	}

	// Cells written by workers.
	written := map[*ssa.Alloc]bool{}

	for al := range given {
		for _, s := range c.cellStores(al) {
			if c.fns[s.Parent()] {
				written[al] = true
			}
		}
	}

	bad := false
	fail := func(ins ssa.Instruction, msg string) {
		if !bad {
			r.Fail("P04.handoff", FnName(c.reader), p.InstrPos(ins), msg, nil)
		}

		bad = true
	}

	seen := map[*ssa.BasicBlock]bool{}

	var walk func(b *ssa.BasicBlock, from int)

	walk = func(b *ssa.BasicBlock, from int) {
		for _, ins := range b.Instrs[from:] {
			switch i := ins.(type) {
			case *ssa.Store:
				if al, ok := i.Addr.(*ssa.Alloc); ok && given[al] && c.loop.Blocks[al.Block()] {
					fail(ins, "variable "+al.Comment+" is changed while a worker uses it")
				}
			case *ssa.UnOp:
				al, ok := i.X.(*ssa.Alloc)
				if ok && i.Op == token.MUL && given[al] && c.loop.Blocks[al.Block()] {
					if written[al] {
						fail(ins, "variable "+al.Comment+" is read while a worker changes it")
					}

					if isRef(i.Type()) && c.sharedBy(i) == "" {
						fail(ins, "the reader uses "+al.Comment+" after it was given to a worker")
					}
				}
			}

			for _, op := range ins.Operands(nil) {
				if op != nil && *op != nil && args[*op] && c.sharedBy(*op) == "" && ins != ssa.Instruction(c.spawn) {
					if _, isDbg := ins.(*ssa.DebugRef); !isDbg {
						fail(ins, "the reader uses "+describe(*op)+" after it was given to a worker")
					}
				}
			}
		}

		for _, n := range b.Succs {
			if c.loop.Blocks[n] && n != c.loop.Header && !seen[n] {
				seen[n] = true
				walk(n, 0)
			}
		}
	}

	for k, ins := range c.spawn.Block().Instrs {
		if ins == ssa.Instruction(c.spawn) {
			walk(c.spawn.Block(), k+1)
		}
	}

	if !bad {
		r.OK("P04.handoff", FnName(c.reader), p.InstrPos(c.spawn))
	}
}

// slotOp is taking (in the reader) or giving back (in a worker) of a worker slot.
func slotOp(ins ssa.Instruction, elem types.Type, send bool) bool {
	switch i := ins.(type) {
	case *ssa.UnOp:
		if i.Op != token.ARROW || send {
			return false
		}

		return types.Identical(i.X.Type().Underlying().(*types.Chan).Elem(), elem)
	case *ssa.Send:
		return send && types.Identical(i.Chan.Type().Underlying().(*types.Chan).Elem(), elem)
	}

	return false
}

// p04Slot checks that a slot that is taken for a line is given back.
func p04Slot(p *Prog, r *Report, c *Conc) {
	var (
		take ssa.Instruction
		elem types.Type
		send bool
	)

	// The operation before the goroutine is started.
	for b := range c.loop.Blocks {
		for _, ins := range b.Instrs {
			if !b.Dominates(c.spawn.Block()) {
				continue
			}

			switch i := ins.(type) {
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					take, elem, send = ins, i.X.Type().Underlying().(*types.Chan).Elem(), false
				}
			case *ssa.Send:
				take, elem, send = ins, i.Chan.Type().Underlying().(*types.Chan).Elem(), true
			case *ssa.Call:
				// Helper that takes the slot.
				for _, f := range p.Callees(i) {
					for _, fb := range f.Blocks {
						for _, fi := range fb.Instrs {
							if u, ok := fi.(*ssa.UnOp); ok && u.Op == token.ARROW {
								take, elem, send = ins, u.X.Type().Underlying().(*types.Chan).Elem(), false
							}
						}
					}
				}
			}
		}
	}

	if !need(r, "P04.slot", "slot taken before a goroutine is started", take != nil) {
		return
	}

	// The reader gives it to a goroutine on every path.
	name := "reader: " + FnName(c.reader)
	lost := false
	seen := map[*ssa.BasicBlock]bool{}

	var walk func(b *ssa.BasicBlock, from int)

	walk = func(b *ssa.BasicBlock, from int) {
		for _, ins := range b.Instrs[from:] {
			if ins == ssa.Instruction(c.spawn) || slotOp(ins, elem, !send) {
				return
			}

			if _, ok := ins.(*ssa.Return); ok {
				lost = true
			}
		}

		for _, n := range b.Succs {
			switch {
			case n == c.loop.Header || !c.loop.Blocks[n]:
				lost = true
			case !seen[n]:
				seen[n] = true
				walk(n, 0)
			}
		}
	}

	for k, ins := range take.Block().Instrs {
		if ins == take {
			walk(take.Block(), k+1)
		}
	}

	r.Check(!lost, "P04.slot", name, p.InstrPos(take), "slot that is taken is not given to a goroutine on some path, the reader would wait for it forever")

	// Goroutine gives it back however it ends.
	for _, g := range c.goTargets(c.spawn) {
		o := newOnce(r, "P04.slot", "worker: "+FnName(g), p.Pos(g.Pos()))
		ends := 0

		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool {
				return !nestedIn(f, g) && !p.reachesFn(f, func(h *ssa.Function) bool {
					for _, b := range h.Blocks {
						for _, ins := range b.Instrs {
							if slotOp(ins, elem, !send) {
								return true
							}
						}
					}

					return false
				})
			},
			MayPanic: func(ci ssa.CallInstruction) bool {
				n := CallName(ci.Common())
				if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "builtin:") {
					return false
				}

				if f := ci.Common().StaticCallee(); f != nil && p.InRepo(f) {
					if rec, _ := recovers(f); rec != nil {
						return false
					}
				}

				return true
			},
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				if slotOp(ins, elem, !send) {
					if st.Get("back") != "" {
						o.fail(st, "slot is given back twice")
					}

					st.Set("back", "1")

					return
				}

				if st.Get("back") == "" {
					return
				}

				// Memory of the worker is given back with it.
				if fa, ok := ins.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), elem) {
					o.fail(st, "worker is used after it was given back")
				}
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if st.Get("back") == "" {
					return nil
				}

				for _, a := range ci.Common().Args {
					if types.Identical(a.Type(), elem) {
						o.fail(st, "worker is used after it was given back")
					}
				}

				return nil
			},
			Exit: func(x *Explorer, st *State, kind string, results []AV) {
				ends++

				if st.Get("back") == "" {
					o.fail(st, "slot is not given back when the goroutine ends with "+kind)
				}
			},
		})

		x.Run(x.Initial(g))

		if ends == 0 {
			o.fail(nil, "end of the goroutine is not reached")
		}

		o.done(x)
	}
}

// lockState of a path.
type lockState struct {
	held     bool
	deferred int
}

// p04Unlock checks that locks are released on every path and not taken twice.
func p04Unlock(p *Prog, r *Report, c *Conc) {
	s := c.locks

	for _, fn := range p.Funcs {
		if !c.inLib(fn) {
			continue
		}

		mine := map[string]bool{}

		for _, ci := range callsOf(fn) {
			if l, _, ok := lockCall(p, ci.Common()); ok {
				mine[l] = true
			}
		}

		if fn.Parent() != nil && deferredClosure(p, fn) {
			continue
		}

		for _, l := range sortedKeys(mine) {
			r.Saw(FnName(fn))

			if ins, msg := s.balance(fn, l); msg != "" {
				r.Fail("P04.unlock", FnName(fn)+": "+l, p.InstrPos(ins), msg, nil)
			} else {
				r.OK("P04.unlock", FnName(fn)+": "+l, p.Pos(fn.Pos()))
			}

			// Callers of a function that releases the lock first hold it.
			if s.needs[fn][l] {
				ok := true

				for _, ci := range p.callers[fn] {
					at := s.at[ci]
					ok = ok && at != nil && at[l]
				}

				r.Check(ok && len(p.callers[fn]) > 0, "P04.unlock", FnName(fn)+": "+l+" of callers", p.Pos(fn.Pos()), "lock is released that a caller does not hold")
			}
		}
	}
}

// deferredClosure tells a closure that is only deferred: its effect belongs to the function that defers it.
func deferredClosure(p *Prog, fn *ssa.Function) bool {
	for _, mc := range p.closureOf[fn] {
		for _, ref := range *mc.Referrers() {
			if d, ok := ref.(*ssa.Defer); ok && d.Call.Value == ssa.Value(mc) {
				return true
			}
		}
	}

	return false
}

// balance of a lock in a function.
func (s *lockSets) balance(fn *ssa.Function, lock string) (ssa.Instruction, string) {
	entry := s.needs[fn][lock]
	type at struct {
		b  *ssa.BasicBlock
		st lockState
	}

	work := []at{{fn.Blocks[0], lockState{held: entry}}}
	seen := map[at]bool{}

	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]

		if seen[w] {
			continue
		}

		seen[w] = true
		st := w.st

		for _, ins := range w.b.Instrs {
			switch i := ins.(type) {
			case *ssa.Defer:
				for _, l := range unlocksOf(s.c.p, i) {
					if l == lock {
						st.deferred++
					}
				}
			case *ssa.RunDefers:
				for ; st.deferred > 0; st.deferred-- {
					if !st.held {
						return ins, "lock is released twice"
					}

					st.held = false
				}
			case *ssa.Return:
				if st.held != entry {
					if st.held {
						return ins, "lock is still held when the function returns"
					}

					return ins, "lock of the caller is not taken back"
				}
			case *ssa.Panic:
				if st.held && !entry && st.deferred == 0 {
					return ins, "lock is not released when it panics"
				}
			case *ssa.Call:
				if l, acq, ok := lockCall(s.c.p, &i.Call); ok {
					if l != lock && strings.TrimSuffix(l, " (read)") != strings.TrimSuffix(lock, " (read)") {
						continue
					}

					if acq && st.held {
						return ins, "lock is taken while it is held"
					}

					if l != lock {
						continue
					}

					if !acq && !st.held {
						return ins, "lock is released while it is not held"
					}

					st.held = acq

					continue
				}

				if !st.held {
					continue
				}

				for _, f := range s.c.p.Callees(i) {
					if s.takes(f, lock, map[*ssa.Function]bool{}) {
						return ins, "lock is taken again by " + FnName(f) + " while it is held"
					}
				}

				if !entry && st.deferred == 0 && s.c.mayPanic(i, map[*ssa.Function]bool{}) {
					return ins, "lock is not released when " + shortCall(&i.Call) + " panics"
				}
			}
		}

		for _, n := range w.b.Succs {
			work = append(work, at{n, st})
		}
	}

	return nil, ""
}

// takes tells that a function takes the lock when it is called with the lock held.
func (s *lockSets) takes(fn *ssa.Function, lock string, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}

	seen[fn] = true

	if s.needs[fn][lock] {
		return false
	}

	for _, ci := range callsOf(fn) {
		if _, isGo := ci.(*ssa.Go); isGo {
			continue
		}

		if l, acq, ok := lockCall(s.c.p, ci.Common()); ok && acq && strings.TrimSuffix(l, " (read)") == strings.TrimSuffix(lock, " (read)") {
			return true
		}

		for _, f := range s.c.p.Callees(ci) {
			if s.takes(f, lock, seen) {
				return true
			}
		}
	}

	return false
}

// mayPanic tells a call of code that is not known.
func (c *Conc) mayPanic(ci ssa.CallInstruction, seen map[*ssa.Function]bool) bool {
	fns := c.p.Callees(ci)
	if len(fns) == 0 {
		return ci.Common().StaticCallee() == nil && !ci.Common().IsInvoke() && !strings.HasPrefix(CallName(ci.Common()), "builtin:")
	}

	for _, f := range fns {
		if seen[f] {
			continue
		}

		seen[f] = true

		if rec, _ := recovers(f); rec != nil {
			continue
		}

		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if i, ok := ins.(ssa.CallInstruction); ok && c.mayPanic(i, seen) {
					return true
				}
			}
		}
	}

	return false
}

// mapStore tells a call that stores a struct into a shared container.
func mapStore(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	if !isContainer(cc) || !strings.HasSuffix(CallName(cc), ".Store") || len(cc.Args) < 3 {
		return false
	}

	_, ok := cc.Args[2].Type().Underlying().(*types.Struct)

	return ok
}

// p04Update checks that records shared by workers are read and written back in one critical section.
func p04Update(p *Prog, r *Report, c *Conc) {
	stores := func(fn *ssa.Function) bool {
		for _, ci := range callsOf(fn) {
			if mapStore(ci) {
				return true
			}
		}

		return false
	}
	locks := func(fn *ssa.Function) bool {
		for _, ci := range callsOf(fn) {
			if _, _, ok := lockCall(p, ci.Common()); ok {
				return true
			}
		}

		return false
	}

	for _, fn := range c.order {
		if !stores(fn) && !(locks(fn) && p.reachesFn(fn, stores)) || len(c.locks.entry[fn]) > 0 {
			continue
		}

		// Keys are prepared for writing after all workers have finished.
		o := newOnce(r, "P04.update", FnName(fn), p.Pos(fn.Pos()))
		n := 0

		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool { return !p.reachesFn(f, stores) && !p.reachesFn(f, locks) },
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				cc := ci.Common()

				if _, isDefer := ci.(*ssa.Defer); isDefer {
					return nil
				}

				if _, acq, ok := lockCall(p, cc); ok {
					for _, k := range []string{"cs", "ld", "hit", "src"} {
						st.Set(k, "")
					}

					if acq {
						st.Set("cs", "1")
					}

					return &CallRes{}
				}

				if !isContainer(cc) {
					return nil
				}

				name := CallName(cc)

				switch {
				case mapStore(ci):
					n++

					switch {
					case st.Get("cs") == "":
						o.fail(st, "record that other workers update is stored without a lock")
					case st.Get("ld") != cc.Args[0].Type().String()+args[1].Key() && st.Get("dropped") == "":
						o.fail(st, "record is stored without reading it in the same critical section, an update of another worker is lost")
					case st.Get("hit") != "" && !strings.HasPrefix(strings.TrimPrefix(args[2].ID, "@"), st.Get("src")):
						o.fail(st, "record that is stored is not the one read in the same critical section, an update of another worker is lost")
					case st.Get("hit") != "" && st.Get("src") == "":
						o.fail(st, "record that is stored is not the one read in the same critical section, an update of another worker is lost")
					}

					return &CallRes{}
				case strings.HasSuffix(name, ".Load") && st.Get("cs") != "":
					call, ok := ci.(*ssa.Call)
					if !ok {
						return nil
					}

					if _, isStruct := cc.Signature().Results().At(0).Type().Underlying().(*types.Struct); !isStruct {
						return nil
					}

					miss := st.fork()
					mv := x.resultSyms(miss, call, cc.Signature())
					mv.Bind[1] = boolAV(false)
					miss.Set("ld", cc.Args[0].Type().String()+args[1].Key())
					miss.Set("hit", "")
					miss.Top().Env[call] = mv
					miss.Top().Idx++
					x.enqueue(miss)

					v := x.resultSyms(st, call, cc.Signature())
					v.Bind[1] = boolAV(true)
					v.Bind[0].ID = "@record"
					st.Set("ld", cc.Args[0].Type().String()+args[1].Key())
					st.Set("hit", "1")
					st.Set("src", "record")

					return &CallRes{Val: v}
				case strings.HasSuffix(name, ".Store") && len(args) > 2:
					// Keys of a parent with too many children are dropped.
					if b, ok := cc.Args[2].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
						st.Set("dropped", "1")
					}
				}

				return nil
			},
			Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
				s, ok := ins.(*ssa.Store)
				if !ok {
					return
				}

				if _, isStruct := s.Val.Type().Underlying().(*types.Struct); !isStruct {
					return
				}

				a := x.Eval(st, s.Addr)

				switch v := x.Eval(st, s.Val); {
				case v.ID == "@record":
					st.Set("src", a.ID)
				case a.ID == st.Get("src"):
					st.Set("src", "overwritten")
				}
			},
		})

		x.Run(x.Initial(fn))

		if n == 0 {
			o.fail(nil, "store of the record was not reached")
		}

		o.done(x)
	}
}
