package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conc is a model of the code that runs in several goroutines at once.
type Conc struct {
	p *Prog

	// spawn is the statement that starts a goroutine per line, in a loop of the reader.
	spawn  *ssa.Go
	reader *ssa.Function
	loop   *Loop

	// roots are functions that goroutines start with, and callbacks that other packages call.
	roots []*ssa.Function
	// fns can run concurrently, calls are places they are called from in such code.
	fns   map[*ssa.Function]bool
	calls map[*ssa.Function][]ssa.CallInstruction
	order []*ssa.Function

	// setup are functions called for every worker to prepare its own state.
	setup      map[*ssa.Function]bool
	setupCalls map[*ssa.Function][]ssa.CallInstruction
	makers     map[*ssa.BasicBlock]bool

	// serial are functions that run only between the claim of a row and the advance of the counter.
	serial map[*ssa.Function]bool
	claims []ssa.CallInstruction

	locks *lockSets
	memo  map[ssa.Value]string
	stack map[ssa.Value]bool

	// forAppend ignores slices without spare capacity.
	forAppend bool
	exactMemo map[*types.Var]bool

	counterVars map[*types.Var]bool
}

// newConc builds the model, nil when no goroutine is started in a loop.
func newConc(p *Prog) *Conc {
	c := &Conc{
		p: p, fns: map[*ssa.Function]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{},
		setup: map[*ssa.Function]bool{}, setupCalls: map[*ssa.Function][]ssa.CallInstruction{}, serial: map[*ssa.Function]bool{}, memo: map[ssa.Value]string{}, stack: map[ssa.Value]bool{},
	}

	for _, fn := range p.Funcs {
		if rootFn(fn).Pkg != p.Lib {
			continue
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}

				if l := innermost(fn, b); l != nil && c.spawn == nil {
					c.spawn, c.reader, c.loop = g, fn, l
				}

				for _, f := range c.goTargets(g) {
					c.roots = appendFn(c.roots, f)
				}
			}
		}
	}

	if c.spawn == nil {
		return nil
	}

	// Callbacks kept by other packages.
	for f, st := range p.fieldSt {
		if f.Pkg() == nil || f.Pkg() == p.Lib.Pkg || f.Pkg() == p.Eq.Pkg || f.Pkg() == p.Main.Pkg {
			continue
		}

		if _, ok := f.Type().Underlying().(*types.Signature); !ok {
			continue
		}

		for _, s := range st {
			if rootFn(s.Parent()).Pkg != p.Lib {
				continue
			}

			for _, g := range p.FuncsOf(s.Val) {
				if p.InRepo(g) && len(g.Blocks) > 0 {
					c.roots = appendFn(c.roots, g)
				}
			}
		}
	}

	sort.Slice(c.roots, func(i, j int) bool { return FnName(c.roots[i]) < FnName(c.roots[j]) })

	c.findMakers()

	work := append([]*ssa.Function{}, c.roots...)

	add := func(f *ssa.Function) {
		if f != nil && !c.fns[f] && len(f.Blocks) > 0 && c.inLib(f) {
			c.fns[f] = true
			work = append(work, f)
		}
	}

	for _, f := range c.roots {
		c.fns[f] = true
	}

	visit := func(ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return
		}

		callees := p.Callees(ci)
		for _, f := range callees {
			c.calls[f] = append(c.calls[f], ci)
			add(f)
		}

		// Callbacks of external functions.
		if len(callees) == 0 {
			for _, a := range ci.Common().Args {
				if _, ok := a.Type().Underlying().(*types.Signature); !ok {
					continue
				}

				for _, f := range p.FuncsOf(a) {
					c.calls[f] = append(c.calls[f], ci)
					add(f)
				}
			}
		}
	}

	// The loop that starts goroutines runs along with them.
	for b := range c.loop.Blocks {
		for _, ins := range b.Instrs {
			if ins != ssa.Instruction(c.spawn) {
				visit(ins)
			}
		}
	}

	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		c.order = append(c.order, f)

		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				visit(ins)
			}
		}
	}

	sort.Slice(c.order, func(i, j int) bool { return FnName(c.order[i]) < FnName(c.order[j]) })

	c.findSerial()
	c.locks = newLockSets(c)

	return c
}

// inLib tells a function of the library, bound methods included.
func (c *Conc) inLib(fn *ssa.Function) bool {
	f := rootFn(fn)
	if f.Pkg != nil {
		return f.Pkg == c.p.Lib
	}

	return f.Object() != nil && f.Object().Pkg() == c.p.Lib.Pkg
}

// goTargets are functions that a go statement starts.
func (c *Conc) goTargets(g *ssa.Go) []*ssa.Function {
	if f := g.Call.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}

	return c.p.FuncsOf(g.Call.Value)
}

// innermost loop with the block.
func innermost(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	var res *Loop

	for _, l := range Loops(fn) {
		if l.Blocks[b] && (res == nil || len(l.Blocks) < len(res.Blocks)) {
			res = l
		}
	}

	return res
}

// findMakers finds loops of the reader other than the one that starts goroutines, workers are made there, and what they call.
func (c *Conc) findMakers() {
	c.makers = map[*ssa.BasicBlock]bool{}

	for _, fn := range c.p.Funcs {
		if rootFn(fn).Pkg != c.p.Lib || fn != c.reader && !c.calledBy(fn, c.reader) {
			continue
		}

		for _, l := range Loops(fn) {
			if l == c.loop {
				continue
			}

			for b := range l.Blocks {
				if fn != c.reader || !c.loop.Blocks[b] {
					c.makers[b] = true
				}
			}
		}
	}

	var add func(ci ssa.CallInstruction)

	add = func(ci ssa.CallInstruction) {
		for _, f := range c.p.Callees(ci) {
			c.setupCalls[f] = append(c.setupCalls[f], ci)

			if c.setup[f] || !c.p.InRepo(f) {
				continue
			}

			c.setup[f] = true

			for _, ci := range callsOf(f) {
				add(ci)
			}
		}
	}

	for b := range c.makers {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				add(ci)
			}
		}
	}
}

func (c *Conc) calledBy(fn, by *ssa.Function) bool {
	for _, ci := range c.p.callers[fn] {
		if ci.Parent() == by && !c.loop.Blocks[ci.Block()] {
			return true
		}
	}

	return false
}

// claimCall finds the call that removed a value from a shared container: v, ok := m.LoadAndDelete(k).
func (c *Conc) claimCall(v ssa.Value) *ssa.Call {
	if !isRef(v.Type()) {
		return nil
	}

	for _, o := range c.p.Origins(v) {
		for {
			switch i := o.(type) {
			case *ssa.Extract:
				o = i.Tuple

				continue
			case *ssa.TypeAssert:
				o = i.X

				continue
			case *ssa.FieldAddr:
				o = i.X

				continue
			case *ssa.UnOp:
				if _, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL {
					o = i.X

					continue
				}
			case *ssa.Call:
				if strings.HasSuffix(CallName(&i.Call), ".LoadAndDelete") {
					return i
				}
			}

			break
		}
	}

	return nil
}

// findSerial finds functions that deliver rows: the ones given a claimed row outside of the function that claims,
// when the key of the claim is an atomic counter.
func (c *Conc) findSerial() {
	roots := map[*ssa.Function]bool{}

	for _, fn := range c.order {
		for _, ci := range callsOf(fn) {
			for _, a := range ci.Common().Args {
				cl := c.claimCall(a)
				if cl == nil || !c.counterKey(cl) || c.afterAdvance(ci) {
					continue
				}

				for _, f := range c.p.Callees(ci) {
					roots[f] = true
					c.claims = append(c.claims, ci)
				}
			}
		}
	}

	// Functions that are reached only through the roots.
	ser := map[*ssa.Function]bool{}
	for f := range c.fns {
		ser[f] = true
	}

	for _, f := range c.roots {
		ser[f] = false
	}

	isRoot := func(f *ssa.Function) bool {
		if !roots[f] {
			return false
		}

		for _, ci := range c.calls[f] {
			ok := false

			for _, k := range c.claims {
				ok = ok || k == ci
			}

			if !ok {
				return false
			}
		}

		return true
	}

	for changed := true; changed; {
		changed = false

		for f := range c.fns {
			if !ser[f] || isRoot(f) {
				continue
			}

			ok := len(c.calls[f]) > 0

			for _, ci := range c.calls[f] {
				if !ser[ci.Parent()] || c.inLoop(ci) || c.afterAdvance(ci) {
					ok = false
				}
			}

			// A closure of a function that runs serially, called by another package.
			if !ok {
				ser[f] = false
				changed = true
			}
		}
	}

	for f, ok := range ser {
		if ok {
			c.serial[f] = true
		}
	}
}

// inLoop tells an instruction of the loop that starts goroutines.
func (c *Conc) inLoop(ins ssa.Instruction) bool {
	return ins.Parent() == c.reader && c.loop.Blocks[ins.Block()]
}

// counterKey tells that the key of the claim is the value of an atomic counter.
func (c *Conc) counterKey(cl *ssa.Call) bool {
	args := cl.Call.Args
	if len(args) < 2 {
		return false
	}

	for _, o := range c.p.Origins(args[1]) {
		call, ok := o.(*ssa.Call)
		if !ok || !strings.HasPrefix(CallName(&call.Call), "sync/atomic.Load") && !strings.HasPrefix(CallName(&call.Call), "(*sync/atomic.") {
			return false
		}
	}

	return true
}

// counters are fields with the number of the expected row.
func (c *Conc) counters() map[*types.Var]bool {
	if c.counterVars != nil {
		return c.counterVars
	}

	c.counterVars = map[*types.Var]bool{}

	for _, fn := range c.order {
		for _, ci := range callsOf(fn) {
			cl, ok := ci.(*ssa.Call)
			if !ok || !strings.HasSuffix(CallName(&cl.Call), ".LoadAndDelete") || !c.counterKey(cl) {
				continue
			}

			for _, o := range c.p.Origins(cl.Call.Args[1]) {
				if call, ok := o.(*ssa.Call); ok {
					if f := fieldVar(call.Call.Args[0]); f != nil {
						c.counterVars[f] = true
					}
				}
			}
		}
	}

	return c.counterVars
}

// advances tells that an instruction lets the next row be claimed.
func (c *Conc) advances(ins ssa.Instruction) bool {
	ci, ok := ins.(*ssa.Call)
	if !ok || len(ci.Call.Args) == 0 {
		return false
	}

	n := CallName(&ci.Call)
	if !strings.HasPrefix(n, "sync/atomic.Add") && !strings.HasPrefix(n, "sync/atomic.Store") && !strings.HasPrefix(n, "(*sync/atomic.") || strings.HasSuffix(n, ".Load") {
		return false
	}

	return c.counters()[fieldVar(ci.Call.Args[0])]
}

// isClaim tells a call that claims a row.
func (c *Conc) isClaim(call *ssa.Call) bool {
	if strings.HasSuffix(CallName(&call.Call), ".LoadAndDelete") {
		return true
	}

	for _, f := range c.p.Callees(call) {
		for _, ci := range callsOf(f) {
			if strings.HasSuffix(CallName(ci.Common()), ".LoadAndDelete") {
				return true
			}
		}
	}

	return false
}

// afterAdvance tells that an instruction can run after the next row may be claimed.
func (c *Conc) afterAdvance(ins ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}

	var back func(b *ssa.BasicBlock, n int) bool

	back = func(b *ssa.BasicBlock, n int) bool {
		for i := n - 1; i >= 0; i-- {
			if c.advances(b.Instrs[i]) {
				return true
			}

			// The next row is claimed.
			if call, ok := b.Instrs[i].(*ssa.Call); ok && c.isClaim(call) {
				return false
			}
		}

		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true

				if back(p, len(p.Instrs)) {
					return true
				}
			}
		}

		return false
	}

	for i, x := range ins.Block().Instrs {
		if x == ins {
			return back(ins.Block(), i)
		}
	}

	return false
}

// isSerial tells an instruction that runs while the row is claimed.
func (c *Conc) isSerial(ins ssa.Instruction) bool {
	return c.serial[ins.Parent()] && !c.afterAdvance(ins)
}

// concurrent tells an instruction that can run along with other goroutines.
func (c *Conc) concurrent(ins ssa.Instruction) bool {
	return c.fns[ins.Parent()] || c.inLoop(ins)
}

// instrs calls f for every concurrent instruction.
func (c *Conc) instrs(f func(ins ssa.Instruction)) {
	for _, fn := range c.order {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				f(ins)
			}
		}
	}

	for _, b := range c.reader.Blocks {
		if !c.loop.Blocks[b] || c.fns[c.reader] {
			continue
		}

		for _, ins := range b.Instrs {
			f(ins)
		}
	}
}

// isRef tells a type with memory behind it that can be changed.
func isRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isRef(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isRef(u.Elem())
	case *types.Tuple:
		return true
	}

	return false
}

// appendsTo tells why spare capacity of a slice can be used by another goroutine at the same time.
func (c *Conc) appendsTo(v ssa.Value) string {
	memo := c.memo
	c.memo, c.forAppend = map[ssa.Value]string{}, true

	defer func() { c.memo, c.forAppend = memo, false }()

	return c.sharedBy(v)
}

// exact tells that slices kept in a field have no spare capacity.
func (c *Conc) exact(f *types.Var) bool {
	if _, ok := f.Type().Underlying().(*types.Slice); !ok {
		return false
	}

	if c.exactMemo == nil {
		c.exactMemo = map[*types.Var]bool{}
	}

	if ok, known := c.exactMemo[f]; known {
		return ok
	}

	c.exactMemo[f] = true
	ok := true

	for _, s := range c.p.fieldSt[f] {
		for _, o := range c.p.Origins(s.Val) {
			switch i := o.(type) {
			case *ssa.Const:
			case *ssa.MakeSlice:
				ok = ok && sameLen(i.Len, i.Cap)
			case *ssa.Slice:
				ok = ok && capped(i)
			case *ssa.Call:
				// Paths of keys are only extended while keys are scanned, not when a single key is read.
				n := CallName(&i.Call)
				ok = ok && (n == "strings.Split" || n == "slices.Clone" || n == "builtin:append") && isStrings(i.Type())
			default:
				g := loadedField(o)
				ok = ok && g != nil && c.exact(g)
			}
		}
	}

	c.exactMemo[f] = ok

	return ok
}

// sharedBy tells why memory behind the value can be reached by another goroutine at the same time, "" when it can not.
func (c *Conc) sharedBy(v ssa.Value) string {
	if v == nil || v.Type() == nil || !isRef(v.Type()) {
		return ""
	}

	if s, ok := c.memo[v]; ok {
		return s
	}

	if c.stack[v] {
		return ""
	}

	c.stack[v] = true
	s := c.classify(v)
	delete(c.stack, v)

	// Results in a cycle are incomplete.
	if s != "" || len(c.stack) == 0 {
		c.memo[v] = s
	}

	return s
}

func (c *Conc) any(l ...ssa.Value) string {
	for _, v := range l {
		if s := c.sharedBy(v); s != "" {
			return s
		}
	}

	return ""
}

// perWorker tells a function with memory of its own for every call in concurrent code or in preparation of a worker.
func (c *Conc) perWorker(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if c.fns[f] || c.setup[f] {
			return true
		}
	}

	return false
}

// fresh tells that an allocation belongs to one iteration of every loop around its use.
func fresh(v ssa.Instruction, use ssa.Instruction) bool {
	if v.Parent() != use.Parent() {
		return false
	}

	for _, l := range Loops(v.Parent()) {
		if l.Blocks[use.Block()] && !l.Blocks[v.Block()] {
			return false
		}
	}

	return true
}

func (c *Conc) classify(v ssa.Value) string {
	switch i := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.BinOp, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Alloc, *ssa.MakeClosure:
		return c.allocated(v)
	case *ssa.Convert:
		if isString(i.X.Type()) || isString(i.Type()) {
			return ""
		}

		return c.sharedBy(i.X)
	case *ssa.ChangeType:
		return c.sharedBy(i.X)
	case *ssa.ChangeInterface:
		return c.sharedBy(i.X)
	case *ssa.MakeInterface:
		return c.sharedBy(i.X)
	case *ssa.TypeAssert:
		return c.sharedBy(i.X)
	case *ssa.Slice:
		if !c.forAppend || i.High == nil {
			return c.sharedBy(i.X)
		}

		if capped(i) {
			return ""
		}

		// The rest of the slice is spare capacity.
		memo := c.memo
		c.memo, c.forAppend = map[ssa.Value]string{}, false

		defer func() { c.memo, c.forAppend = memo, true }()

		return c.sharedBy(i.X)
	case *ssa.SliceToArrayPointer:
		return c.sharedBy(i.X)
	case *ssa.Phi:
		return c.any(i.Edges...)
	case *ssa.FieldAddr:
		return c.sharedBy(i.X)
	case *ssa.IndexAddr:
		return c.sharedBy(i.X)
	case *ssa.Field:
		return c.sharedBy(i.X)
	case *ssa.Index:
		return c.sharedBy(i.X)
	case *ssa.Lookup:
		return c.sharedBy(i.X)
	case *ssa.Range:
		return c.sharedBy(i.X)
	case *ssa.Next:
		return c.sharedBy(i.Iter)
	case *ssa.Extract:
		if call, ok := i.Tuple.(*ssa.Call); ok {
			return c.result(call, i.Index)
		}

		return c.sharedBy(i.Tuple)
	case *ssa.Call:
		return c.result(i, 0)
	case *ssa.Global:
		return "package variable " + i.Name()
	case *ssa.Parameter:
		return c.param(i)
	case *ssa.FreeVar:
		return c.free(i)
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			// Worker is handed over by the channel.
			return ""
		}

		if i.Op == token.MUL {
			return c.loaded(i)
		}
	}

	return ""
}

// allocated memory is shared when it outlives the call that made it.
func (c *Conc) allocated(v ssa.Value) string {
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return ""
	}

	if mc, isClosure := v.(*ssa.MakeClosure); isClosure {
		_ = mc

		return ""
	}

	fn := ins.Parent()
	if c.perWorker(fn) {
		return ""
	}

	// Made for every line or for every worker.
	if fn == c.reader && c.loop.Blocks[ins.Block()] || c.makers[ins.Block()] {
		return ""
	}

	return "memory of " + FnName(fn) + " made at " + c.p.InstrPos(ins)
}

// result of a call.
func (c *Conc) result(call *ssa.Call, k int) string {
	if !isRef(resultType(call, k)) {
		return ""
	}

	cc := &call.Call
	n := CallName(cc)

	switch {
	case n == "builtin:append":
		if capped(cc.Args[0]) {
			return ""
		}

		return c.sharedBy(cc.Args[0])
	case n == "bytes.Clone", n == "slices.Clone" && (isBytes(call.Type()) || isStrings(call.Type())):
		return ""
	case strings.HasPrefix(n, "builtin:"):
		return ""
	case strings.HasSuffix(n, "Pool).Get"), strings.HasSuffix(n, "Pool.Get"):
		return ""
	case strings.HasSuffix(n, ".LoadAndDelete"):
		return ""
	case isContainer(cc):
		if len(cc.Args) > 1 && c.ownKey(cc.Args[1]) {
			return ""
		}

		return "shared container " + describe(cc.Args[0])
	}

	fns := c.p.Callees(call)
	if len(fns) > 0 {
		for _, f := range fns {
			if s := c.returned(f, k, call); s != "" {
				return s
			}
		}

		return ""
	}

	if safeRecv(cc) {
		return c.any(cc.Args[1:]...)
	}

	if cc.IsInvoke() {
		if s := c.sharedBy(cc.Value); s != "" {
			return s
		}
	}

	return c.any(cc.Args...)
}

func resultType(call *ssa.Call, k int) types.Type {
	r := call.Call.Signature().Results()
	if k < r.Len() {
		return r.At(k).Type()
	}

	return call.Type()
}

// returned is the class of a result of a repository function.
func (c *Conc) returned(f *ssa.Function, k int, call *ssa.Call) string {
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || k >= len(ret.Results) {
			continue
		}

		v := ret.Results[k]

		// The caller owns what the constructor allocates.
		if ins, isIns := v.(ssa.Instruction); isIns {
			switch v.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
				_ = ins

				continue
			}
		}

		if prm, isPrm := v.(*ssa.Parameter); isPrm {
			for n, q := range f.Params {
				if q != prm {
					continue
				}

				args := call.Call.Args
				if call.Call.IsInvoke() {
					args = append([]ssa.Value{call.Call.Value}, args...)
				}

				if n < len(args) {
					if s := c.sharedBy(args[n]); s != "" {
						return s
					}
				}
			}

			continue
		}

		if s := c.sharedBy(v); s != "" {
			return s
		}
	}

	return ""
}

// param of a function is what concurrent code passes to it.
func (c *Conc) param(prm *ssa.Parameter) string {
	fn := prm.Parent()
	k := -1

	for i, q := range fn.Params {
		if q == prm {
			k = i
		}
	}

	spawned := false

	for _, g := range c.goTargets(c.spawn) {
		if g == fn {
			spawned = true

			if k < len(c.spawn.Call.Args) {
				if s := c.sharedBy(c.spawn.Call.Args[k]); s != "" {
					return s
				}
			}
		}
	}

	calls := c.calls[fn]

	if len(calls) == 0 && !spawned {
		// Prepares a worker.
		calls = c.setupCalls[fn]

		if len(calls) == 0 {
			if c.fns[fn] && k >= 0 && fn.Signature.Recv() == nil {
				// Argument of a callback of another package.
				return ""
			}

			return "argument " + prm.Name() + " of " + FnName(fn)
		}
	}

	for _, ci := range calls {
		cc := ci.Common()
		args := cc.Args

		direct := false
		for _, f := range c.p.Callees(ci) {
			direct = direct || f == fn
		}

		if !direct {
			// Callback is given what the called object has.
			if safeRecv(cc) && len(args) > 0 {
				if isContainer(cc) {
					return "shared container " + describe(args[0])
				}

				continue
			}

			for _, a := range args {
				if _, isFn := a.Type().Underlying().(*types.Signature); isFn {
					continue
				}

				if s := c.sharedBy(a); s != "" {
					return s
				}
			}

			continue
		}

		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}

		if k < len(args) {
			if s := c.sharedBy(args[k]); s != "" {
				return s
			}
		}
	}

	return ""
}

// free is the class of memory behind a captured variable or the variable itself.
func (c *Conc) free(fv *ssa.FreeVar) string {
	b := c.p.binding(fv)
	if b == nil {
		return "captured " + fv.Name()
	}

	return c.sharedBy(b)
}

// loaded is the class of memory behind a value that was read.
func (c *Conc) loaded(u *ssa.UnOp) string {
	if f := fieldVar(u.X); f != nil {
		if c.forAppend && c.exact(f) {
			return ""
		}

		var base ssa.Value

		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			base = a.X
		default:
			return c.sharedBy(u.X)
		}

		if s := c.sharedBy(base); s != "" {
			return s
		}

		// Memory behind a field of a struct that was copied is not copied.
		if cell := c.cell(base); cell != nil {
			for _, s := range c.cellStores(cell) {
				if r := c.sharedBy(s.Val); r != "" {
					return r
				}
			}
		}

		return c.contents(f)
	}

	switch a := u.X.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		cell := c.cell(u.X)
		if cell == nil {
			return c.sharedBy(a)
		}

		if s := c.sharedBy(cell); s != "" {
			return s
		}

		n := 0

		for _, s := range c.cellStores(cell) {
			n++

			if r := c.sharedBy(s.Val); r != "" {
				return r
			}
		}

		// Struct that is filled field by field.
		if n == 0 {
			return c.sharedBy(cell)
		}

		return ""
	}

	return c.sharedBy(u.X)
}

// contents of a field of an object that belongs to one goroutine.
func (c *Conc) contents(f *types.Var) string {
	for _, s := range c.p.fieldSt[f] {
		if rootFn(s.Parent()).Pkg != c.p.Lib || !isRef(s.Val.Type()) {
			continue
		}

		if _, ok := s.Val.Type().Underlying().(*types.Interface); ok && IsError(s.Val.Type()) {
			continue
		}

		if r := c.stored(s); r != "" {
			return r
		}
	}

	return ""
}

// stored tells why a value kept in an object is not its own.
func (c *Conc) stored(s *ssa.Store) string {
	switch v := s.Val.(type) {
	case *ssa.Const, *ssa.Function, *ssa.MakeClosure:
		return ""
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		if fresh(v.(ssa.Instruction), s) {
			return ""
		}

		return "memory made at " + c.p.InstrPos(v.(ssa.Instruction)) + " for several objects"
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok && fresh(al, s) {
			return ""
		}
	case *ssa.Call:
		if fresh(v, s) && c.constructs(v) {
			return ""
		}
	}

	return c.sharedBy(s.Val)
}

// constructs tells that the result of a call was made by it.
func (c *Conc) constructs(call *ssa.Call) bool {
	for _, f := range c.p.Callees(call) {
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}

			for _, v := range ret.Results {
				if !isRef(v.Type()) {
					continue
				}

				switch v.(type) {
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const:
				default:
					return false
				}
			}
		}
	}

	if len(c.p.Callees(call)) > 0 {
		return true
	}

	// External constructor without arguments.
	for _, a := range call.Call.Args {
		if isRef(a.Type()) {
			return false
		}
	}

	return !call.Call.IsInvoke()
}

// cell of a variable.
func (c *Conc) cell(v ssa.Value) *ssa.Alloc {
	for {
		switch i := v.(type) {
		case *ssa.Alloc:
			return i
		case *ssa.FreeVar:
			v = c.p.binding(i)
		default:
			return nil
		}
	}
}

// cellStores are assignments of a variable, the ones in closures included.
func (c *Conc) cellStores(a *ssa.Alloc) []*ssa.Store {
	var res []*ssa.Store

	seen := map[ssa.Value]bool{}

	var rec func(v ssa.Value)

	rec = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}

		seen[v] = true

		for _, ref := range *v.Referrers() {
			switch i := ref.(type) {
			case *ssa.Store:
				if i.Addr == v {
					res = append(res, i)
				}
			case *ssa.MakeClosure:
				fn := i.Fn.(*ssa.Function)
				for k, b := range i.Bindings {
					if b == v {
						rec(fn.FreeVars[k])
					}
				}
			}
		}
	}

	rec(a)

	return res
}

// ownKey tells that a key of a shared container is the number of the line, so that the entry belongs to the line.
func (c *Conc) ownKey(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	found := false

	var rec func(v ssa.Value) bool

	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return true
		}

		seen[v] = true

		switch i := v.(type) {
		case *ssa.MakeInterface:
			return rec(i.X)
		case *ssa.Convert:
			return rec(i.X)
		case *ssa.Phi:
			for _, e := range i.Edges {
				if !rec(e) {
					return false
				}
			}

			return true
		case *ssa.UnOp:
			cell := c.cell(i.X)
			if i.Op != token.MUL || cell == nil {
				return false
			}

			st := c.cellStores(cell)
			for _, s := range st {
				if !rec(s.Val) {
					return false
				}
			}

			return len(st) > 0
		case *ssa.FreeVar:
			return rec(c.p.binding(i))
		case *ssa.Parameter:
			k := -1

			for n, q := range i.Parent().Params {
				if q == i {
					k = n
				}
			}

			n := 0

			for _, ci := range c.calls[i.Parent()] {
				args := ci.Common().Args
				if ci.Common().IsInvoke() {
					args = append([]ssa.Value{ci.Common().Value}, args...)
				}

				if k >= len(args) || !rec(args[k]) {
					return false
				}

				n++
			}

			for _, g := range c.goTargets(c.spawn) {
				if g == i.Parent() && k < len(c.spawn.Call.Args) {
					if !rec(c.spawn.Call.Args[k]) {
						return false
					}

					n++
				}
			}

			return n > 0
		case *ssa.Call:
			found = found || isSeqAdd(i)

			return isSeqAdd(i)
		}

		return false
	}

	return rec(v) && found
}

// capped tells a slice without spare capacity.
func capped(v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.Slice:
		return i.Max != nil && i.High != nil && sameLen(i.Max, i.High)
	case *ssa.Const:
		return i.Value == nil
	case *ssa.ChangeType:
		return capped(i.X)
	}

	return false
}

// sameLen compares values by structure.
func sameLen(a, b ssa.Value) bool {
	if a == b {
		return true
	}

	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)

	if ok1 && ok2 && CallName(&x.Call) == "builtin:len" && CallName(&y.Call) == "builtin:len" {
		return sameValue(x.Call.Args[0], y.Call.Args[0])
	}

	return sameConst(a, b)
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)

	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

// sameValue compares reads of the same place.
func sameValue(a, b ssa.Value) bool {
	if a == b || sameConst(a, b) {
		return true
	}

	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)

	if ok1 && ok2 && x.Op == y.Op {
		return sameValue(x.X, y.X)
	}

	f, ok1 := a.(*ssa.FieldAddr)
	g, ok2 := b.(*ssa.FieldAddr)

	return ok1 && ok2 && f.Field == g.Field && sameValue(f.X, g.X)
}

// isContainer tells a method of a map that can be used concurrently.
func isContainer(cc *ssa.CallCommon) bool {
	n := CallName(cc)

	return strings.HasPrefix(n, "(*sync.Map).") || strings.Contains(n, "xsync") && strings.HasPrefix(n, "(*")
}

// safeRecv tells a method that can be called concurrently.
func safeRecv(cc *ssa.CallCommon) bool {
	n := CallName(cc)
	if isContainer(cc) {
		return true
	}

	for _, s := range []string{"(*sync.", "(*sync/atomic.", "(*regexp.Regexp).", "(*time.Location).", "(*os.File).", "(*github.com/vearutop/fastjson.ParserPool)."} {
		if strings.HasPrefix(n, s) {
			return true
		}
	}

	return false
}

// describe names a place for a report.
func describe(v ssa.Value) string {
	if f := fieldVar(v); f != nil {
		return f.Name()
	}

	if f := loadedField(v); f != nil {
		return f.Name()
	}

	switch i := v.(type) {
	case *ssa.Global:
		return i.Name()
	case *ssa.FreeVar:
		return i.Name()
	case *ssa.Parameter:
		return i.Name()
	case *ssa.Alloc:
		return i.Comment
	case *ssa.UnOp:
		return describe(i.X)
	case *ssa.IndexAddr:
		return describe(i.X)
	case *ssa.Slice:
		return describe(i.X)
	case *ssa.Call:
		return shortCall(&i.Call)
	}

	return v.Name()
}
