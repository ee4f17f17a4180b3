package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockOp is a change of state of a lock.
type lockOp struct {
	ins    ssa.Instruction
	lock   string
	acq    bool
	defer_ bool
}

// lockSets are locks held at instructions of functions.
type lockSets struct {
	c *Conc
	// ops of functions.
	ops map[*ssa.Function][]lockOp
	// entry is the set of locks that every concurrent caller holds, needs are locks a function releases first.
	entry map[*ssa.Function]map[string]bool
	needs map[*ssa.Function]map[string]bool
	at    map[ssa.Instruction]map[string]bool
	// mixed are instructions reached with and without a lock.
	mixed map[ssa.Instruction]string
	names map[string]bool
}

// lockID identifies a lock by its field or variable.
func lockID(p *Prog, v ssa.Value) string {
	if f := fieldVar(v); f != nil {
		return "field " + f.Name()
	}

	for {
		switch i := v.(type) {
		case *ssa.FreeVar:
			b := p.binding(i)
			if b == nil {
				return "captured " + i.Name()
			}

			v = b

			continue
		case *ssa.Alloc:
			return "variable " + i.Comment + " of " + FnName(i.Parent())
		case *ssa.Global:
			return "variable " + i.Name()
		case *ssa.UnOp:
			v = i.X

			if f := fieldVar(v); f != nil {
				return "field " + f.Name()
			}

			continue
		case *ssa.Parameter:
			args := p.argsOf(i)
			if len(args) == 0 {
				return "argument " + i.Name()
			}

			if f := fieldVar(args[0]); f != nil {
				return "field " + f.Name()
			}

			v = args[0]

			continue
		}

		return "lock"
	}
}

// lockCall tells a call that takes or releases a lock.
func lockCall(p *Prog, cc *ssa.CallCommon) (lock string, acq, ok bool) {
	n := CallName(cc)
	if !strings.HasPrefix(n, "(*sync.Mutex).") && !strings.HasPrefix(n, "(*sync.RWMutex).") && n != "(sync.Locker).Lock" && n != "(sync.Locker).Unlock" {
		return "", false, false
	}

	var recv ssa.Value
	if cc.IsInvoke() {
		recv = cc.Value
	} else {
		recv = cc.Args[0]
	}

	switch n[strings.LastIndex(n, ".")+1:] {
	case "Lock":
		return lockID(p, recv), true, true
	case "Unlock":
		return lockID(p, recv), false, true
	case "RLock":
		return lockID(p, recv) + " (read)", true, true
	case "RUnlock":
		return lockID(p, recv) + " (read)", false, true
	}

	return "", false, false
}

// unlocksOf are locks that a deferred function releases.
func unlocksOf(p *Prog, d *ssa.Defer) []string {
	if l, acq, ok := lockCall(p, &d.Call); ok {
		if acq {
			return nil
		}

		return []string{l}
	}

	var res []string

	for _, f := range p.FuncsOf(d.Call.Value) {
		for _, ci := range callsOf(f) {
			if _, isDefer := ci.(*ssa.Defer); isDefer {
				continue
			}

			if l, acq, ok := lockCall(p, ci.Common()); ok && !acq {
				res = append(res, l)
			}
		}
	}

	return res
}

func newLockSets(c *Conc) *lockSets {
	s := &lockSets{
		c: c, ops: map[*ssa.Function][]lockOp{}, entry: map[*ssa.Function]map[string]bool{}, needs: map[*ssa.Function]map[string]bool{},
		at: map[ssa.Instruction]map[string]bool{}, mixed: map[ssa.Instruction]string{}, names: map[string]bool{},
	}

	for _, fn := range c.p.Funcs {
		for _, ci := range callsOf(fn) {
			if l, _, ok := lockCall(c.p, ci.Common()); ok {
				s.names[l] = true
			}
		}
	}

	// Locks that are released before they are taken are held by callers.
	for _, fn := range c.p.Funcs {
		s.needs[fn] = s.needed(fn)
	}

	all := map[string]bool{}
	for n := range s.names {
		all[n] = true
	}

	for _, fn := range c.order {
		s.entry[fn] = all
	}

	for _, fn := range c.roots {
		s.entry[fn] = map[string]bool{}
	}

	for changed := true; changed; {
		changed = false
		s.at = map[ssa.Instruction]map[string]bool{}

		for _, fn := range c.order {
			s.flow(fn, s.entry[fn])
		}

		if !c.fns[c.reader] {
			s.flow(c.reader, map[string]bool{})
		}

		for _, fn := range c.order {
			if len(c.calls[fn]) == 0 {
				continue
			}

			n := map[string]bool{}

			for l := range s.entry[fn] {
				n[l] = true
			}

			for _, ci := range c.calls[fn] {
				for l := range n {
					if !s.at[ci][l] {
						delete(n, l)
					}
				}
			}

			if len(n) != len(s.entry[fn]) {
				s.entry[fn] = n
				changed = true
			}
		}
	}

	return s
}

// needed are locks of the caller.
func (s *lockSets) needed(fn *ssa.Function) map[string]bool {
	res := map[string]bool{}

	// Locks reached from the entry with a release first.
	for l := range s.names {
		seen := map[*ssa.BasicBlock]bool{}

		var walk func(b *ssa.BasicBlock) bool

		walk = func(b *ssa.BasicBlock) bool {
			if seen[b] {
				return false
			}

			seen[b] = true

			for _, ins := range b.Instrs {
				ci, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}

				if n, acq, ok := lockCall(s.c.p, &ci.Call); ok && n == l {
					return !acq
				}
			}

			for _, n := range b.Succs {
				if walk(n) {
					return true
				}
			}

			return false
		}

		if len(fn.Blocks) > 0 && walk(fn.Blocks[0]) {
			res[l] = true
		}
	}

	return res
}

// flow computes locks held at instructions, all paths agree on them.
func (s *lockSets) flow(fn *ssa.Function, entry map[string]bool) (atExit []map[string]bool) {
	if len(fn.Blocks) == 0 {
		return nil
	}

	in := map[*ssa.BasicBlock]map[string]bool{fn.Blocks[0]: entry}
	work := []*ssa.BasicBlock{fn.Blocks[0]}

	for len(work) > 0 {
		b := work[0]
		work = work[1:]

		cur := map[string]bool{}
		for l := range in[b] {
			cur[l] = true
		}

		s.block(b, cur, nil)

		for _, n := range b.Succs {
			old, ok := in[n]
			if !ok {
				c := map[string]bool{}
				for l := range cur {
					c[l] = true
				}

				in[n] = c
				work = append(work, n)

				continue
			}

			for l := range old {
				if !cur[l] {
					delete(old, l)

					work = append(work, n)
				}
			}
		}
	}

	for _, b := range fn.Blocks {
		cur := map[string]bool{}
		for l := range in[b] {
			cur[l] = true
		}

		s.block(b, cur, func(ins ssa.Instruction, held map[string]bool) {
			h := map[string]bool{}
			for l := range held {
				h[l] = true
			}

			s.at[ins] = h
		})

		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			atExit = append(atExit, cur)
		}
	}

	return atExit
}

func (s *lockSets) block(b *ssa.BasicBlock, cur map[string]bool, see func(ins ssa.Instruction, held map[string]bool)) {
	for _, ins := range b.Instrs {
		if see != nil {
			see(ins, cur)
		}

		switch i := ins.(type) {
		case *ssa.Call:
			if l, acq, ok := lockCall(s.c.p, &i.Call); ok {
				if acq {
					cur[l] = true
				} else {
					delete(cur, l)
				}

				continue
			}

			// Helper that takes or releases a lock for its caller.
			for _, f := range s.c.p.Callees(i) {
				for l, d := range s.effect(f) {
					if d > 0 {
						cur[l] = true
					} else {
						delete(cur, l)
					}
				}
			}
		}
	}
}

// effect of a function on locks: +1 takes and keeps, -1 releases.
func (s *lockSets) effect(fn *ssa.Function) map[string]int {
	res := map[string]int{}

	for _, ci := range callsOf(fn) {
		l, acq, ok := lockCall(s.c.p, ci.Common())
		if !ok {
			continue
		}

		if acq {
			res[l]++
		} else {
			res[l]--
		}
	}

	for l, n := range res {
		if n == 0 || n > 1 || n < -1 {
			delete(res, l)
		}
	}

	return res
}

// held are locks at an instruction.
func (s *lockSets) held(ins ssa.Instruction) []string {
	var res []string
	for l := range s.at[ins] {
		res = append(res, l)
	}

	sort.Strings(res)

	return res
}

// isLock tells a type of a lock.
func isLock(t types.Type) bool {
	n := deref(t).String()

	return n == "sync.Mutex" || n == "sync.RWMutex"
}
