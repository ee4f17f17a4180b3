package main

import (
	"crypto/sha1"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Kind of an abstract value.
type Kind uint8

// Kinds.
const (
	KTop Kind = iota
	KConst
	KNil
	KSym  // unknown value with identity, facts about it are kept in the state
	KAddr // address of a memory location
	KFunc // function or closure
	KTuple
	KCmp
	KNot
)

// AV is an abstract value.
type AV struct {
	K    Kind
	C    constant.Value
	ID   string
	T    types.Type
	Fn   *ssa.Function
	Bind []AV
	Op   token.Token
	X, Y *AV
}

// Key is a canonical text of a value.
func (a AV) Key() string {
	switch a.K {
	case KTop:
		return "?"
	case KConst:
		return "c" + a.C.ExactString()
	case KNil:
		return "nil"
	case KSym:
		return "s" + a.ID
	case KAddr:
		return "&" + a.ID
	case KFunc:
		s := "f" + a.Fn.String()
		for _, b := range a.Bind {
			s += "," + b.Key()
		}

		return s
	case KTuple:
		s := "("
		for _, b := range a.Bind {
			s += b.Key() + ";"
		}

		return s + ")"
	case KCmp:
		return "[" + a.X.Key() + a.Op.String() + a.Y.Key() + "]"
	case KNot:
		return "!" + a.X.Key()
	}

	return "?"
}

func (a AV) ids(f func(string)) {
	switch a.K {
	case KSym, KAddr:
		f(a.ID)
	}

	for _, b := range a.Bind {
		b.ids(f)
	}

	if a.X != nil {
		a.X.ids(f)
	}

	if a.Y != nil {
		a.Y.ids(f)
	}
}

func constAV(c constant.Value) AV { return AV{K: KConst, C: c} }
func boolAV(b bool) AV            { return constAV(constant.MakeBool(b)) }
func strAV(s string) AV           { return constAV(constant.MakeString(s)) }

// Nilness of a symbol.
const (
	nilUnknown = 0
	isNil      = 1
	notNil     = 2
)

// Fact is knowledge about a symbol.
type Fact struct {
	Nil int
	Eq  constant.Value
	Ne  []string
	Lab uint64
}

func (f Fact) empty() bool { return f.Nil == 0 && f.Eq == nil && len(f.Ne) == 0 && f.Lab == 0 }

func (f Fact) key() string {
	s := fmt.Sprintf("%d/%d", f.Nil, f.Lab)
	if f.Eq != nil {
		s += "=" + f.Eq.ExactString()
	}

	for _, n := range f.Ne {
		s += "!" + n
	}

	return s
}

type deferred struct {
	call *ssa.Defer
	fn   AV
	args []AV
}

// Frame is an inlined activation.
type Frame struct {
	Fn     *ssa.Function
	Env    map[ssa.Value]AV
	Block  *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	Idx    int
	Defers []deferred
	Ctx    string
	Call   ssa.CallInstruction // call in the parent frame
	Redo   bool                // parent re-executes the instruction (deferred and callback calls)

	Panicking bool
	Recovered bool
	InDefer   bool // this is a deferred call
	MayRecov  bool
}

// State is a point of exploration.
type State struct {
	Frames []*Frame
	Mem    map[string]AV
	Facts  map[string]Fact
	Auto   map[string]string
	Trace  *Trace
	Dead   bool
}

// Trace is a path to a state.
type Trace struct {
	Prev *Trace
	Pos  string
	Note string
}

// Top is the current frame.
func (s *State) Top() *Frame { return s.Frames[len(s.Frames)-1] }

// Get returns automaton variable.
func (s *State) Get(k string) string { return s.Auto[k] }

// Set sets automaton variable.
func (s *State) Set(k, v string) {
	if v == "" {
		delete(s.Auto, k)
	} else {
		s.Auto[k] = v
	}
}

// Note adds a note to the trace.
func (s *State) Note(pos, note string) { s.Trace = &Trace{Prev: s.Trace, Pos: pos, Note: note} }

// Path prints the trace.
func (s *State) Path() []string {
	var r []string
	for t := s.Trace; t != nil; t = t.Prev {
		r = append(r, t.Pos+" "+t.Note)
	}

	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}

	if len(r) > 40 {
		r = append(append([]string{}, r[:5]...), append([]string{"..."}, r[len(r)-34:]...)...)
	}

	return r
}

func (s *State) fork() *State {
	n := &State{Trace: s.Trace}

	n.Frames = make([]*Frame, len(s.Frames))
	for i, f := range s.Frames {
		c := *f
		c.Env = make(map[ssa.Value]AV, len(f.Env))

		for k, v := range f.Env {
			c.Env[k] = v
		}

		c.Defers = append([]deferred(nil), f.Defers...)
		n.Frames[i] = &c
	}

	n.Mem = make(map[string]AV, len(s.Mem))
	for k, v := range s.Mem {
		n.Mem[k] = v
	}

	n.Facts = make(map[string]Fact, len(s.Facts))
	for k, v := range s.Facts {
		n.Facts[k] = v
	}

	n.Auto = make(map[string]string, len(s.Auto))
	for k, v := range s.Auto {
		n.Auto[k] = v
	}

	return n
}

// Label returns label set of a value.
func (s *State) Label(a AV) uint64 {
	var l uint64

	switch a.K {
	case KSym, KAddr:
		l = s.Facts[a.ID].Lab
	case KTuple:
		for _, b := range a.Bind {
			l |= s.Label(b)
		}
	}

	return l
}

// AddLabel labels a symbol.
func (s *State) AddLabel(a AV, l uint64) {
	if l == 0 || a.ID == "" {
		return
	}

	f := s.Facts[a.ID]
	f.Lab |= l
	s.Facts[a.ID] = f
}

// NilOf tells nilness of a value.
func (s *State) NilOf(a AV) int {
	switch a.K {
	case KNil:
		return isNil
	case KConst, KFunc, KAddr:
		return notNil
	case KSym:
		if a.T != nil {
			if _, basic := a.T.Underlying().(*types.Basic); basic {
				return notNil
			}
		}

		return s.Facts[a.ID].Nil
	}

	return nilUnknown
}

// SetNil records nilness.
func (s *State) SetNil(a AV, n int) {
	if a.K != KSym {
		return
	}

	f := s.Facts[a.ID]
	f.Nil = n
	s.Facts[a.ID] = f
}

// CallRes overrides the effect of a call.
type CallRes struct {
	Val  AV // single value or KTuple
	Stop bool
}

// Client customizes exploration.
type Client struct {
	NoInline   func(fn *ssa.Function) bool
	InlineCall func(st *State, fn *ssa.Function, args []AV) bool // has priority over NoInline
	MaxStates  int
	Callbacks  bool // closures passed to external functions are invoked 0..n times
	ResolveDyn bool // calls of function fields and interfaces are expanded to all repository functions
	Call       func(x *Explorer, st *State, ci ssa.CallInstruction, fn *ssa.Function, args []AV) *CallRes
	Load       func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool)
	Instr      func(x *Explorer, st *State, ins ssa.Instruction)
	If         func(x *Explorer, st *State, ins *ssa.If, cond AV) (taken bool, decided bool)
	Edge       func(x *Explorer, st *State, ins *ssa.If, taken bool)
	Jump       func(x *Explorer, st *State, from, to *ssa.BasicBlock)
	Exit       func(x *Explorer, st *State, kind string, results []AV)
	Keep       func(id string, t types.Type) bool
	MayPanic   func(ci ssa.CallInstruction) bool
	Enter      func(x *Explorer, st *State, fn *ssa.Function, args []AV)
	Leave      func(x *Explorer, st *State, fn *ssa.Function, results []AV)
	Lookup     func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool)
	Text       func(x *Explorer, st *State, ins ssa.Instruction, v AV) // text expression is made
	Made       func(x *Explorer, st *State, ins ssa.Instruction, v AV) // make of map, channel, slice
	Value      func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool)
}

// Explorer runs path-sensitive dataflow over the inlined program.
type Explorer struct {
	P       *Prog
	C       *Client
	visited map[[20]byte]bool
	work    []*State
	States  int
	Blocks  map[*ssa.BasicBlock]bool
	Err     error
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
}

// NewExplorer creates Explorer.
func NewExplorer(p *Prog, c *Client) *Explorer {
	if c.MaxStates == 0 {
		c.MaxStates = 60000
	}

	return &Explorer{P: p, C: c, visited: map[[20]byte]bool{}, Blocks: map[*ssa.BasicBlock]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
}

// Initial makes the state at function entry.
func (x *Explorer) Initial(fn *ssa.Function) *State {
	st := &State{Mem: map[string]AV{}, Facts: map[string]Fact{}, Auto: map[string]string{}}
	fr := &Frame{Fn: fn, Env: map[ssa.Value]AV{}, Block: fn.Blocks[0], Ctx: ""}

	for _, p := range fn.Params {
		fr.Env[p] = AV{K: KSym, ID: "P:" + p.Name(), T: p.Type()}
	}

	for _, v := range fn.FreeVars {
		fr.Env[v] = AV{K: KAddr, ID: "FV:" + FnName(fn) + "." + v.Name(), T: v.Type()}
	}

	st.Frames = []*Frame{fr}

	return st
}

// maxID limits size of a symbol, larger ones (usually made in a loop) are replaced by unknown value.
const maxID = 1200

// Analysis always gives an answer in time.
const (
	maxRun   = 90 * time.Second
	maxTotal = 8 * time.Minute
)

var started = time.Now()

// Run explores from the state.
func (x *Explorer) Run(st *State) {
	x.enqueue(st)

	start := time.Now()

	for len(x.work) > 0 {
		if time.Since(start) > maxRun || time.Since(started) > maxTotal {
			x.Err = fmt.Errorf("time limit reached in %s", FnName(st.Frames[0].Fn))

			return
		}

		n := len(x.work) - 1
		s := x.work[n]
		x.work = x.work[:n]

		x.States++
		if x.States > x.C.MaxStates {
			x.Err = fmt.Errorf("state limit %d reached in %s", x.C.MaxStates, FnName(st.Frames[0].Fn))

			return
		}

		x.run(s)
	}
}

func (x *Explorer) enqueue(st *State) {
	if st.Dead {
		return
	}

	key := x.key(st)
	if len(key) > 1<<18 && x.Err == nil {
		x.Err = fmt.Errorf("state is too large in %s", FnName(st.Frames[0].Fn))
	}

	if x.Err != nil {
		return
	}

	k := sha1.Sum([]byte(key))
	if x.visited[k] {
		return
	}

	x.visited[k] = true
	x.work = append(x.work, st)
}

func (x *Explorer) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	fn := b.Parent()

	m := x.live[fn]
	if m == nil {
		m = liveness(fn)
		x.live[fn] = m
	}

	return m[b]
}

func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}

	for changed := true; changed; {
		changed = false

		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := liveOut(b, in)

			for j := len(b.Instrs) - 1; j >= 0; j-- {
				liveStep(b.Instrs[j], cur)
			}

			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}

	return in
}

func liveOut(b *ssa.BasicBlock, in map[*ssa.BasicBlock]map[ssa.Value]bool) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}

	for _, s := range b.Succs {
		for v := range in[s] {
			cur[v] = true
		}

		for _, ins := range s.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}

			delete(cur, phi)
		}
	}

	for _, s := range b.Succs {
		for _, ins := range s.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}

			for i, p := range s.Preds {
				if p == b {
					cur[phi.Edges[i]] = true
				}
			}
		}
	}

	if len(b.Succs) == 0 && b.Parent().Recover != nil {
		for v := range in[b.Parent().Recover] {
			cur[v] = true
		}
	}

	return cur
}

func liveStep(ins ssa.Instruction, cur map[ssa.Value]bool) {
	if v, ok := ins.(ssa.Value); ok {
		if _, isPhi := ins.(*ssa.Phi); isPhi {
			// Phi is defined on the edge: it is live-in of its block.
			cur[v] = true

			return
		}

		delete(cur, v)
	}

	if _, ok := ins.(*ssa.Phi); ok {
		return
	}

	var rands [12]*ssa.Value
	for _, op := range ins.Operands(rands[:0]) {
		if op != nil && *op != nil {
			switch (*op).(type) {
			case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			default:
				cur[*op] = true
			}
		}
	}
}

func (x *Explorer) key(st *State) string {
	var sb strings.Builder

	refs := map[string]bool{}
	add := func(id string) { refs[id] = true }

	for _, f := range st.Frames {
		fmt.Fprintf(&sb, "|%p:%d:%d:%v%v", f.Fn, f.Block.Index, f.Idx, f.Panicking, f.Recovered)

		live := map[ssa.Value]bool{}

		if f.Idx == 0 {
			for v := range x.liveIn(f.Block) {
				live[v] = true
			}
		} else {
			x.liveIn(f.Block)

			live = liveOut(f.Block, x.live[f.Fn])
			for j := len(f.Block.Instrs) - 1; j >= f.Idx; j-- {
				liveStep(f.Block.Instrs[j], live)
			}
			// Instruction under execution: its operands matter (redo), result is kept if defined.
		}

		var ks []string

		for v, av := range f.Env {
			if !live[v] {
				if _, isParam := v.(*ssa.Parameter); !isParam {
					delete(f.Env, v)

					continue
				}

				continue
			}

			av.ids(add)
			ks = append(ks, v.Name()+"="+av.Key())
		}

		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))

		for _, d := range f.Defers {
			fmt.Fprintf(&sb, "D%p", d.call)
		}
	}

	var ks []string

	for k, v := range st.Mem {
		v.ids(add)
		ks = append(ks, k+"="+v.Key())
	}

	sort.Strings(ks)
	sb.WriteString("#M")
	sb.WriteString(strings.Join(ks, ","))

	ks = ks[:0]

	for k, f := range st.Facts {
		if f.empty() {
			delete(st.Facts, k)

			continue
		}

		if !refs[k] && k[0] != '@' && k[0] != 'P' && k[0] != 'A' && k[0] != 'G' && !strings.HasPrefix(k, "len(sP:") && !strings.HasPrefix(k, "len(s@") {
			delete(st.Facts, k)

			continue
		}

		ks = append(ks, k+":"+f.key())
	}

	sort.Strings(ks)
	sb.WriteString("#F")
	sb.WriteString(strings.Join(ks, ","))

	ks = ks[:0]
	for k, v := range st.Auto {
		ks = append(ks, k+"="+v)
	}

	sort.Strings(ks)
	sb.WriteString("#A")
	sb.WriteString(strings.Join(ks, ","))

	return sb.String()
}

// Eval evaluates an operand.
func (x *Explorer) Eval(st *State, v ssa.Value) AV {
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return AV{K: KNil, T: v.Type()}
		}

		if v.Value == nil {
			return AV{K: KSym, ID: "zero:" + v.Type().String(), T: v.Type()}
		}

		return AV{K: KConst, C: v.Value, T: v.Type()}
	case *ssa.Function:
		return AV{K: KFunc, Fn: v}
	case *ssa.Global:
		return AV{K: KAddr, ID: "G:" + v.Name(), T: v.Type()}
	case *ssa.Builtin:
		return AV{}
	}

	if av, ok := st.Top().Env[v]; ok {
		return av
	}

	return AV{}
}

func (x *Explorer) id(fr *Frame, v ssa.Value) string {
	return "v" + fr.Ctx + "/" + fnKey(fr.Fn) + ":" + v.Name()
}

func fnKey(fn *ssa.Function) string { return fn.Name() }

// Fresh makes a new symbol for the value, knowledge about the previous one with the same identity moves to a summary.
func (x *Explorer) Fresh(st *State, v ssa.Value, suffix string) AV {
	id := x.id(st.Top(), v) + suffix
	old, known := st.Facts[id]

	if known && !old.empty() {
		x.rename(st, id, old)
	}

	delete(st.Facts, id)

	t := v.Type()

	return AV{K: KSym, ID: id, T: t}
}

func (x *Explorer) rename(st *State, id string, old Fact) {
	used := false
	nid := id + "~"

	var ren func(a AV) AV

	ren = func(a AV) AV {
		if a.ID == id {
			used = true
			a.ID = nid
		}

		if len(a.Bind) > 0 {
			b := make([]AV, len(a.Bind))
			for i := range a.Bind {
				b[i] = ren(a.Bind[i])
			}

			a.Bind = b
		}

		if a.X != nil {
			r := ren(*a.X)
			a.X = &r
		}

		if a.Y != nil {
			r := ren(*a.Y)
			a.Y = &r
		}

		return a
	}

	for k, v := range st.Mem {
		st.Mem[k] = ren(v)
	}

	for _, f := range st.Frames {
		for k, v := range f.Env {
			f.Env[k] = ren(v)
		}
	}

	if used {
		if ex, ok := st.Facts[nid]; ok {
			if ex.Nil != old.Nil {
				old.Nil = nilUnknown
			}

			old.Lab |= ex.Lab
			old.Eq = nil
		}

		st.Facts[nid] = old
	}
}

func tupleOf(avs []AV) AV {
	if len(avs) == 1 {
		return avs[0]
	}

	return AV{K: KTuple, Bind: avs}
}

func nillable(t types.Type) bool {
	if t == nil {
		return false
	}

	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Slice, *types.Chan:
		return true
	}

	return false
}

func zeroOf(t types.Type) AV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolAV(false)
		case u.Info()&types.IsString != 0:
			return strAV("")
		case u.Info()&types.IsInteger != 0:
			return constAV(constant.MakeInt64(0))
		case u.Info()&types.IsFloat != 0:
			return constAV(constant.MakeFloat64(0))
		}
	}

	if nillable(t) {
		return AV{K: KNil, T: t}
	}

	return AV{}
}

// load reads memory.
func (x *Explorer) load(st *State, addr AV, t types.Type, ins ssa.Value) AV {
	if addr.ID == "" {
		return x.Fresh(st, ins, "")
	}

	return x.loadID(st, addr.ID, t, ins)
}

func (x *Explorer) loadID(st *State, id string, t types.Type, ins ssa.Value) AV {
	if v, ok := st.Mem[id]; ok {
		if _, isStruct := t.Underlying().(*types.Struct); isStruct && v.ID != "@"+id && v.K != KTop {
			for k := range st.Mem {
				if strings.HasPrefix(k, id+".") {
					// Fields were changed after the whole was stored.
					return AV{K: KSym, ID: "@" + id, T: t}
				}
			}
		}

		return v
	}

	// Linked structures are not unfolded without a bound.
	if ins != nil && strings.HasPrefix(id, "@@@@") {
		v := x.Fresh(st, ins, "")
		st.AddLabel(v, st.Facts[id].Lab)

		return v
	}

	if strings.HasSuffix(id, "]") && !strings.Contains(id, "[*]") {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			for k := range st.Mem {
				if strings.HasPrefix(k, id+".") || strings.HasPrefix(k, id+"[") {
					return AV{K: KSym, ID: "@" + id, T: t}
				}
			}
		}

		v := x.Fresh(st, ins, "")
		st.AddLabel(v, st.Facts[id[:strings.LastIndex(id, "[")]].Lab)

		return v
	}

	if strings.Contains(id, "[*]") {
		v := x.Fresh(st, ins, "")
		if i := strings.Index(id, "[*]"); i > 0 {
			st.AddLabel(v, st.Facts[id[:i]].Lab)
		}

		return v
	}

	// Value of an enclosing struct that was stored as a whole.
	for i := len(id) - 1; i > 0; i-- {
		if id[i] != '.' {
			continue
		}

		if v, ok := st.Mem[id[:i]]; ok {
			if v.K == KSym || v.K == KAddr {
				return x.fieldOf(st, v, id[i+1:], t)
			}

			return x.Fresh(st, ins, "")
		}

		if _, ok := st.Mem["zero:"+id[:i]]; ok {
			z := zeroOf(t)
			if z.K == KTop {
				return AV{K: KSym, ID: "@" + id, T: t}
			}

			return z
		}
	}

	if _, ok := st.Mem["zero:"+id]; ok {
		z := zeroOf(t)
		if z.K != KTop {
			return z
		}
	}

	return AV{K: KSym, ID: "@" + id, T: t}
}

// fieldOf is a field of a struct value.
func (x *Explorer) fieldOf(st *State, v AV, path string, t types.Type) AV {
	id := v.ID
	if strings.HasPrefix(id, "@") {
		if m, ok := st.Mem[id[1:]+"."+path]; ok {
			return m
		}

		if m, ok := st.Mem[id[1:]]; ok && m.ID != id && m.K == KSym {
			return x.fieldOf(st, m, path, t)
		}
	}

	if m, ok := st.Mem[id+"."+path]; ok {
		return m
	}

	if strings.HasPrefix(id, "zero:") {
		if z := zeroOf(t); z.K != KTop {
			return z
		}
	}

	if !strings.HasPrefix(id, "@") {
		id = "@" + id
	}

	r := AV{K: KSym, ID: id + "." + path, T: t}
	st.AddLabel(r, st.Label(v))

	return r
}

func (x *Explorer) store(st *State, addr, val AV) {
	if addr.ID == "" {
		return
	}

	id := addr.ID
	if i := strings.Index(id, "[*]"); i >= 0 {
		// Weak update of an element: labels are collected on the container.
		st.AddLabel(AV{K: KAddr, ID: id[:i]}, st.Label(val))

		return
	}

	if strings.HasSuffix(id, "]") {
		st.AddLabel(AV{K: KAddr, ID: id[:strings.LastIndex(id, "[")]}, st.Label(val))
	}

	for k := range st.Mem {
		if strings.HasPrefix(k, id+".") || strings.HasPrefix(k, id+"[") {
			delete(st.Mem, k)
		}
	}

	for k := range st.Facts {
		if k == "@"+id || strings.HasPrefix(k, "@"+id+".") {
			delete(st.Facts, k)
		}
	}

	delete(st.Mem, "zero:"+id)

	if val.K == KSym && strings.HasPrefix(val.ID, "@") {
		src := val.ID[1:]
		for k, v := range st.Mem {
			if strings.HasPrefix(k, src+".") || strings.HasPrefix(k, src+"[") {
				st.Mem[id+k[len(src):]] = v
			}
		}

		if m, ok := st.Mem[src]; ok && m.K != KTop && src != id {
			val = m
		}

		// Fields of a literal that are not set.
		if _, ok := st.Mem["zero:"+src]; ok && src != id && val.T != nil {
			if _, isStruct := val.T.Underlying().(*types.Struct); isStruct {
				delete(st.Mem, id)
				st.Mem["zero:"+id] = boolAV(true)

				return
			}
		}
	}

	if val.K == KSym && strings.HasPrefix(val.ID, "zero:") {
		delete(st.Mem, id)
		st.Mem["zero:"+id] = boolAV(true)

		return
	}

	if val.K == KTop {
		// Unknown value must not be confused with the initial content.
		delete(st.Mem, id)
		st.Mem[id] = AV{}

		return
	}

	st.Mem[id] = val
}

// Havoc forgets content of a location.
func (x *Explorer) Havoc(st *State, id string) {
	if id == "" {
		return
	}

	for k := range st.Mem {
		if k == id || strings.HasPrefix(k, id+".") || k == "zero:"+id {
			delete(st.Mem, k)
		}
	}

	for k := range st.Facts {
		if k == "@"+id || strings.HasPrefix(k, "@"+id+".") {
			delete(st.Facts, k)
		}
	}
}

// Truth evaluates a condition.
func (x *Explorer) Truth(st *State, c AV) (val, known bool) {
	switch c.K {
	case KConst:
		if c.C.Kind() == constant.Bool {
			return constant.BoolVal(c.C), true
		}
	case KSym:
		if e := st.Facts[c.ID].Eq; e != nil && e.Kind() == constant.Bool {
			return constant.BoolVal(e), true
		}
	case KNot:
		v, ok := x.Truth(st, *c.X)

		return !v, ok
	case KCmp:
		return x.truthCmp(st, c)
	}

	return false, false
}

func (x *Explorer) constOf(st *State, a AV) constant.Value {
	switch a.K {
	case KConst:
		return a.C
	case KSym:
		return st.Facts[a.ID].Eq
	}

	return nil
}

func (x *Explorer) truthCmp(st *State, c AV) (bool, bool) {
	a, b := *c.X, *c.Y

	if c.Op == token.EQL || c.Op == token.NEQ {
		eq, known := false, false

		na, nb := st.NilOf(a), st.NilOf(b)

		switch {
		case a.K == KSym && b.K == KSym && a.ID == b.ID:
			eq, known = true, true
		case b.K == KNil && na != nilUnknown:
			eq, known = na == isNil, true
		case a.K == KNil && nb != nilUnknown:
			eq, known = nb == isNil, true
		default:
			ca, cb := x.constOf(st, a), x.constOf(st, b)
			if ca != nil && cb != nil && ca.Kind() == cb.Kind() {
				eq, known = constant.Compare(ca, token.EQL, cb), true
			} else if cb != nil && a.K == KSym {
				for _, n := range st.Facts[a.ID].Ne {
					if n == cb.ExactString() {
						eq, known = false, true
					}
				}
			} else if ca != nil && b.K == KSym {
				for _, n := range st.Facts[b.ID].Ne {
					if n == ca.ExactString() {
						eq, known = false, true
					}
				}
			}
		}

		if !known {
			return false, false
		}

		return eq == (c.Op == token.EQL), true
	}

	ca, cb := x.constOf(st, a), x.constOf(st, b)
	if ca != nil && cb != nil && ca.Kind() == cb.Kind() && ca.Kind() != constant.Bool {
		return constant.Compare(ca, c.Op, cb), true
	}

	return false, false
}

func (x *Explorer) keep(a AV) bool {
	if a.K != KSym {
		return false
	}

	if a.ID[0] == '@' || a.ID[0] == 'P' {
		if x.C.Keep != nil {
			return x.C.Keep(a.ID, a.T)
		}

		return nillable(a.T)
	}

	if x.C.Keep != nil && x.C.Keep(a.ID, a.T) {
		return true
	}

	if a.T == nil {
		return true
	}

	if b, ok := a.T.Underlying().(*types.Basic); ok {
		return b.Info()&(types.IsBoolean|types.IsString) != 0
	}

	return nillable(a.T)
}

// Assume refines state by a condition.
func (x *Explorer) Assume(st *State, c AV, taken bool) {
	switch c.K {
	case KSym:
		if !x.keep(c) {
			return
		}

		f := st.Facts[c.ID]
		f.Eq = constant.MakeBool(taken)
		st.Facts[c.ID] = f
	case KNot:
		x.Assume(st, *c.X, !taken)
	case KCmp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return
		}

		eq := (c.Op == token.EQL) == taken
		a, b := *c.X, *c.Y

		if a.K != KSym {
			a, b = b, a
		}

		if a.K != KSym || !x.keep(a) {
			return
		}

		f := st.Facts[a.ID]

		switch {
		case b.K == KNil:
			if eq {
				f.Nil = isNil
			} else {
				f.Nil = notNil
			}
		case x.constOf(st, b) != nil:
			cb := x.constOf(st, b)
			if eq {
				f.Eq = cb
			} else {
				s := cb.ExactString()
				ne := append([]string{}, f.Ne...)
				has := false

				for _, n := range ne {
					has = has || n == s
				}

				if !has {
					ne = append(ne, s)
					sort.Strings(ne)
				}

				f.Ne = ne
			}
		}

		st.Facts[a.ID] = f
	}
}

func (x *Explorer) run(st *State) {
	for !st.Dead {
		fr := st.Top()

		if fr.Panicking {
			if !x.unwind(st) {
				return
			}

			continue
		}

		if fr.Idx >= len(fr.Block.Instrs) {
			return
		}

		if fr.Idx == 0 {
			x.Blocks[fr.Block] = true
		}

		ins := fr.Block.Instrs[fr.Idx]

		if x.C.Instr != nil {
			x.C.Instr(x, st, ins)

			if st.Dead {
				return
			}
		}

		if !x.step(st, fr, ins) {
			return
		}
	}
}

// unwind continues a panic of the top frame.
func (x *Explorer) unwind(st *State) bool {
	fr := st.Top()

	if len(fr.Defers) > 0 {
		d := fr.Defers[len(fr.Defers)-1]
		fr.Defers = fr.Defers[:len(fr.Defers)-1]

		x.runDeferred(st, d)

		return !st.Dead
	}

	if fr.Recovered {
		fr.Panicking = false
		fr.Recovered = false

		if fr.Fn.Recover != nil {
			fr.Prev, fr.Block, fr.Idx = fr.Block, fr.Fn.Recover, 0
			x.enqueue(st)

			return false
		}

		var res []AV
		for i := range fr.Fn.Signature.Results().Len() {
			res = append(res, zeroOf(fr.Fn.Signature.Results().At(i).Type()))
		}

		return x.ret(st, res)
	}

	if len(st.Frames) == 1 {
		if x.C.Exit != nil {
			x.C.Exit(x, st, "panic", nil)
		}

		return false
	}

	// A panic of a deferred function replaces the panic of the function that defers.
	st.Frames = st.Frames[:len(st.Frames)-1]
	st.Top().Panicking = true

	return true
}

func (x *Explorer) runDeferred(st *State, d deferred) {
	fn := d.fn

	if fn.K == KFunc && len(fn.Fn.Blocks) > 0 && x.mayInline(st, fn.Fn, append(append([]AV{}, d.args...), fn.Bind...)) {
		if r := x.callHook(st, d.call, fn.Fn, d.args); r != nil {
			if r.Stop {
				st.Dead = true
			}

			return
		}

		x.push(st, d.call, fn, d.args, true, true)

		return
	}

	var callee *ssa.Function
	if fn.K == KFunc {
		callee = fn.Fn
	}

	if r := x.callHook(st, d.call, callee, d.args); r != nil {
		if r.Stop {
			st.Dead = true
		}

		return
	}

	if callee == nil && !d.call.Call.IsInvoke() {
		if b, ok := d.call.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
			st.Top().Recovered = st.Top().Panicking
		}
	}
}

func (x *Explorer) mayInline(st *State, fn *ssa.Function, args []AV) bool {
	if x.canInline(st, fn) {
		return true
	}

	if x.C.InlineCall == nil || x.C.NoInline == nil || !x.C.InlineCall(st, fn, args) {
		return false
	}

	ni := x.C.NoInline
	x.C.NoInline = nil

	ok := x.canInline(st, fn)
	x.C.NoInline = ni

	return ok
}

func (x *Explorer) canInline(st *State, fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !x.P.InRepo(fn) {
		return false
	}

	if len(st.Frames) > 12 {
		return false
	}

	for _, f := range st.Frames {
		if f.Fn == fn {
			return false
		}
	}

	return x.C.NoInline == nil || !x.C.NoInline(fn)
}

func (x *Explorer) push(st *State, ci ssa.CallInstruction, fn AV, args []AV, redo, inDefer bool) {
	parent := st.Top()
	f := fn.Fn
	nf := &Frame{Fn: f, Env: map[ssa.Value]AV{}, Block: f.Blocks[0], Call: ci, Redo: redo, InDefer: inDefer}
	nf.Ctx = parent.Ctx + ">" + fnKey(f) + "@" + fmt.Sprint(parent.Block.Index) + "." + fmt.Sprint(parent.Idx)

	for i, p := range f.Params {
		if i < len(args) {
			nf.Env[p] = args[i]
		} else {
			nf.Env[p] = AV{K: KSym, ID: "v" + nf.Ctx + "/arg:" + p.Name(), T: p.Type()}
		}
	}

	for i, v := range f.FreeVars {
		if i < len(fn.Bind) {
			nf.Env[v] = fn.Bind[i]
		} else {
			nf.Env[v] = AV{K: KAddr, ID: "FV:" + FnName(f) + "." + v.Name(), T: v.Type()}
		}
	}

	st.Frames = append(st.Frames, nf)

	if x.C.Enter != nil {
		x.C.Enter(x, st, f, args)
	}
}

// ret returns from the top frame, false when exploration of this state ends.
func (x *Explorer) ret(st *State, res []AV) bool {
	fr := st.Top()

	if x.C.Leave != nil {
		x.C.Leave(x, st, fr.Fn, res)

		if st.Dead {
			return false
		}
	}

	if len(st.Frames) == 1 {
		if x.C.Exit != nil {
			x.C.Exit(x, st, "return", res)
		}

		return false
	}

	st.Frames = st.Frames[:len(st.Frames)-1]
	parent := st.Top()

	if fr.InDefer && fr.MayRecov && parent.Panicking {
		parent.Recovered = true
	}

	if parent.Panicking {
		x.gcMem(st)

		return true
	}

	if !fr.Redo {
		if v, ok := fr.Call.(ssa.Value); ok {
			parent.Env[v] = tupleOf(res)
		}

		parent.Idx++
	}

	x.gcMem(st)
	x.enqueue(st)

	return false
}

// gcMem drops local memory which is not referenced any more.
func (x *Explorer) gcMem(st *State) {
	refs := map[string]bool{}
	add := func(id string) { refs[rootOf(id)] = true }

	for _, f := range st.Frames {
		for _, v := range f.Env {
			v.ids(add)
		}

		for _, d := range f.Defers {
			d.fn.ids(add)

			for _, a := range d.args {
				a.ids(add)
			}
		}
	}

	for changed := true; changed; {
		changed = false

		for k, v := range st.Mem {
			if r := rootOf(strings.TrimPrefix(k, "zero:")); !strings.HasPrefix(r, "A") || refs[r] {
				v.ids(func(id string) {
					if !refs[rootOf(id)] {
						refs[rootOf(id)] = true
						changed = true
					}
				})
			}
		}
	}

	for k := range st.Mem {
		if r := rootOf(strings.TrimPrefix(k, "zero:")); strings.HasPrefix(r, "A") && !refs[r] {
			delete(st.Mem, k)
		}
	}

	for k := range st.Facts {
		if r := rootOf(k); strings.HasPrefix(r, "A") && !refs[r] {
			delete(st.Facts, k)
		}
	}
}

func rootOf(id string) string {
	id = strings.TrimLeft(id, "@")
	if i := strings.IndexAny(id, ".[!"); i > 0 && strings.HasPrefix(id, "A") {
		// Alloc identities contain dots of the context only before '#'.
		j := strings.IndexByte(id, '#')
		if j >= 0 {
			k := strings.IndexAny(id[j:], ".[~!")
			if k >= 0 {
				return id[:j+k]
			}

			return id
		}

		return id[:i]
	}

	return id
}

func (x *Explorer) callHook(st *State, ci ssa.CallInstruction, fn *ssa.Function, args []AV) *CallRes {
	if x.C.Call == nil {
		return nil
	}

	return x.C.Call(x, st, ci, fn, args)
}

func (x *Explorer) evalArgs(st *State, cc *ssa.CallCommon) []AV {
	var args []AV
	if cc.IsInvoke() {
		args = append(args, x.Eval(st, cc.Value))
	}

	for _, a := range cc.Args {
		args = append(args, x.Eval(st, a))
	}

	return args
}

func (x *Explorer) goBlock(st *State, to *ssa.BasicBlock) {
	fr := st.Top()
	from := fr.Block

	if x.C.Jump != nil {
		x.C.Jump(x, st, from, to)

		if st.Dead {
			return
		}
	}

	if isLoopHeader(to) {
		x.widenText(st, fr, to)
	}

	pi := -1

	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}

	type upd struct {
		phi *ssa.Phi
		av  AV
	}

	var us []upd

	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}

		av := AV{}
		if pi >= 0 {
			av = x.Eval(st, phi.Edges[pi])
		}

		us = append(us, upd{phi, av})
	}

	for _, u := range us {
		av := u.av
		// Integer counters are not tracked through loops.
		if b, ok := u.phi.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && isLoopHeader(to) && !invariant(u.phi) && !(av.K == KConst && unrolled(u.phi)) {
			l := st.Label(u.av)
			av = AV{K: KSym, ID: x.id(fr, u.phi), T: u.phi.Type()}
			delete(st.Facts, av.ID)
			st.AddLabel(av, l)
		} else if ok && b.Info()&types.IsString != 0 && isLoopHeader(to) && av.K == KSym && av.Op != 0 {
			l := st.Label(u.av)
			av = AV{K: KSym, ID: x.id(fr, u.phi), T: u.phi.Type()}
			delete(st.Facts, av.ID)
			st.AddLabel(av, l)
		}

		if av.K == KTop {
			av = x.Fresh(st, u.phi, "")
		}

		fr.Env[u.phi] = av
	}

	fr.Prev, fr.Block, fr.Idx = from, to, 0
	for fr.Idx < len(to.Instrs) {
		if _, ok := to.Instrs[fr.Idx].(*ssa.Phi); !ok {
			break
		}

		fr.Idx++
	}

	x.Blocks[to] = true
	x.enqueue(st)
}

// constLookup reads a literal map with a known key.
func (x *Explorer) constLookup(st *State, i *ssa.Lookup) (AV, bool) {
	if c := x.constOf(st, x.Eval(st, i.Index)); c != nil {
		if m := constMap(i.X); m != nil {
			v, found := m[c.ExactString()]
			av := AV{}

			switch {
			case !found:
				t := i.Type()
				if i.CommaOk {
					t = t.(*types.Tuple).At(0).Type()
				}

				av = zeroOf(t)
			default:
				switch v := v.(type) {
				case *ssa.Const, *ssa.Function:
					av = x.Eval(st, v)
				default:
					av = AV{K: KSym, ID: "lit:" + x.id(st.Top(), i), T: v.Type()}
				}
			}

			if i.CommaOk {
				return tupleOf([]AV{av, boolAV(found)}), true
			}

			return av, true
		}
	}

	return AV{}, false
}

// smallArray is the length of a small local array.
func smallArray(v ssa.Value) int64 {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return 0
	}

	if t, ok := deref(a.Type()).Underlying().(*types.Array); ok && t.Len() <= 16 {
		return t.Len()
	}

	return 0
}

// literalArray is the length of a small local array behind a value that is indexed.
func literalArray(v ssa.Value) int64 {
	switch i := v.(type) {
	case *ssa.Slice:
		if i.Low == nil && i.High == nil {
			return smallArray(i.X)
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			return smallArray(i.X)
		}
	}

	return smallArray(v)
}

var unrolledPhi = map[*ssa.Phi]bool{}

// unrolled tells that the loop iterates over a small local array, its counter is tracked exactly.
func unrolled(phi *ssa.Phi) bool {
	if r, ok := unrolledPhi[phi]; ok {
		return r
	}

	r := false

	var uses func(v ssa.Value, depth int)

	uses = func(v ssa.Value, depth int) {
		for _, ref := range *v.Referrers() {
			switch u := ref.(type) {
			case *ssa.IndexAddr:
				r = r || (u.Index == v && literalArray(u.X) > 0)
			case *ssa.Index:
				r = r || (u.Index == v && literalArray(u.X) > 0)
			case *ssa.BinOp:
				if _, ok := u.Y.(*ssa.Const); ok && depth == 0 && (u.Op == token.ADD || u.Op == token.SUB) {
					uses(u, 1)
				}
			}
		}
	}

	uses(phi, 0)

	// The bound has to be constant as well, a counter that runs away is not unrolled.
	if r {
		r = false

		if l := InnermostLoop(phi.Block()); l != nil && l.Header == phi.Block() {
			if i, ok := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If); ok {
				if b, ok := i.Cond.(*ssa.BinOp); ok {
					for _, v := range []ssa.Value{b.X, b.Y} {
						switch c := v.(type) {
						case *ssa.Const:
							r = r || (c.Value != nil && c.Int64() <= 16)
						case *ssa.Call:
							r = r || (CallName(&c.Call) == "builtin:len" && literalArray(c.Call.Args[0]) > 0)
						}
					}
				}
			}
		}
	}

	unrolledPhi[phi] = r

	return r
}

// constElem is the location of an element of a local array with a known index.
func (x *Explorer) constElem(st *State, of ssa.Value, base, idx AV) (string, bool) {
	if !strings.HasPrefix(base.ID, "A") {
		return "", false
	}

	id := base.ID

	switch j := strings.LastIndexByte(id, '!'); {
	case j > 0:
		id = id[:j]
	case literalArray(of) == 0:
		return "", false
	}

	n, ok := constInt(idx)
	if !ok {
		return "", false
	}

	return fmt.Sprintf("%s[%d]", id, n), true
}

// invariant tells that the value is not changed by the loop.
func invariant(phi *ssa.Phi) bool {
	for i, p := range phi.Block().Preds {
		if phi.Block().Dominates(p) && phi.Edges[i] != phi {
			return false
		}
	}

	return true
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}

	return false
}

func (x *Explorer) step(st *State, fr *Frame, ins ssa.Instruction) bool {
	set := func(v ssa.Value, av AV) {
		if av.K == KTop || av.K == KSym && len(av.ID) > maxID {
			l := st.Label(av)
			av = x.Fresh(st, v, "")
			st.AddLabel(av, l)
		}

		fr.Env[v] = av
		fr.Idx++
	}

	if v, ok := ins.(ssa.Value); ok && x.C.Value != nil {
		if av, ok := x.C.Value(x, st, ins); ok {
			fr.Env[v] = av
			fr.Idx++

			return true
		}

		if st.Dead {
			return false
		}
	}

	switch i := ins.(type) {
	case *ssa.Phi:
		fr.Idx++
	case *ssa.DebugRef:
		fr.Idx++
	case *ssa.Alloc:
		id := "A" + fr.Ctx + "/" + fnKey(fr.Fn) + "#" + i.Name()
		x.Havoc(st, id)
		delete(st.Facts, id)
		st.Mem["zero:"+id] = boolAV(true)
		set(i, AV{K: KAddr, ID: id, T: i.Type()})
	case *ssa.FieldAddr:
		base := x.Eval(st, i.X)
		name := structOf(i.X.Type()).Field(i.Field).Name()

		if base.ID == "" {
			set(i, AV{K: KAddr, ID: x.id(fr, i), T: i.Type()})
		} else {
			set(i, AV{K: KAddr, ID: base.ID + "." + name, T: i.Type()})
		}
	case *ssa.Field:
		base := x.Eval(st, i.X)
		name := structOf(i.X.Type()).Field(i.Field).Name()

		if base.ID == "" {
			set(i, AV{})
		} else {
			av := x.fieldOf(st, base, name, i.Type())
			if x.C.Load != nil {
				if r, ok := x.C.Load(x, st, AV{K: KAddr, ID: base.ID + "." + name, T: i.Type()}, nil); ok {
					av = r
				}
			}

			set(i, av)
		}
	case *ssa.IndexAddr:
		base := x.Eval(st, i.X)
		if base.ID == "" {
			set(i, AV{K: KAddr, ID: x.id(fr, i) + "[*]", T: i.Type()})
		} else if el, ok := x.constElem(st, i.X, base, x.Eval(st, i.Index)); ok {
			set(i, AV{K: KAddr, ID: el, T: i.Type()})
		} else {
			set(i, AV{K: KAddr, ID: base.ID + "[*]", T: i.Type()})
		}
	case *ssa.Index:
		if base := x.Eval(st, i.X); strings.HasPrefix(base.ID, "@A") {
			if el, ok := x.constElem(st, i.X, AV{K: KAddr, ID: base.ID[1:]}, x.Eval(st, i.Index)); ok {
				if v, ok := st.Mem[el]; ok {
					set(i, v)

					return true
				}
			}
		}

		v := x.Fresh(st, i, "")
		st.AddLabel(v, st.Label(x.Eval(st, i.X)))
		set(i, v)
	case *ssa.Lookup:
		if x.C.Lookup != nil {
			if v, ok := x.C.Lookup(x, st, i); ok {
				set(i, v)

				return true
			}
		}

		if v, ok := x.constLookup(st, i); ok {
			set(i, v)

			return true
		}

		v := x.Fresh(st, i, "")
		l := st.Label(x.Eval(st, i.X))

		if i.CommaOk {
			a := AV{K: KSym, ID: v.ID + "#0", T: i.Type().(*types.Tuple).At(0).Type()}
			b := AV{K: KSym, ID: v.ID + "#1", T: types.Typ[types.Bool]}
			delete(st.Facts, a.ID)
			delete(st.Facts, b.ID)
			st.AddLabel(a, l)
			set(i, tupleOf([]AV{a, b}))
		} else {
			st.AddLabel(v, l)
			set(i, v)
		}
	case *ssa.UnOp:
		x.unop(st, fr, i, set)
	case *ssa.BinOp:
		set(i, x.binop(st, i))
	case *ssa.Convert:
		v := x.Eval(st, i.X)
		vl := st.Label(v)

		if v.K == KConst {
			_, fromStr := i.X.Type().Underlying().(*types.Basic)
			tb, toB := i.Type().Underlying().(*types.Basic)

			if fromStr && toB && tb.Info()&types.IsString != 0 && v.C.Kind() == constant.String {
				set(i, v)

				return true
			}
		}

		n := x.Fresh(st, i, "")
		st.AddLabel(n, vl)
		set(i, n)
	case *ssa.ChangeType:
		set(i, x.retype(x.Eval(st, i.X), i.Type()))
	case *ssa.ChangeInterface:
		set(i, x.retype(x.Eval(st, i.X), i.Type()))
	case *ssa.MakeInterface:
		v := x.Eval(st, i.X)
		if v.K == KConst || v.K == KFunc {
			set(i, v)

			return true
		}

		if _, basic := i.X.Type().Underlying().(*types.Basic); basic && v.K == KSym {
			set(i, v)

			return true
		}

		if (v.K == KSym && st.NilOf(v) == notNil) || v.K == KAddr {
			set(i, v)

			return true
		}

		n := x.Fresh(st, i, "")
		if v.K == KSym {
			// Identity of the wrapped value is kept.
			n = AV{K: KSym, ID: "i(" + v.ID + ")", T: i.Type()}
		}

		st.SetNil(n, notNil)
		st.AddLabel(n, st.Label(v))
		set(i, n)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		set(ins.(ssa.Value), AV{})
	case *ssa.MakeClosure:
		av := AV{K: KFunc, Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			av.Bind = append(av.Bind, x.Eval(st, b))
		}

		set(i, av)
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		v := x.Fresh(st, ins.(ssa.Value), "")
		st.SetNil(v, notNil)

		if x.C.Made != nil {
			x.C.Made(x, st, ins, v)
		}

		set(ins.(ssa.Value), v)
	case *ssa.Slice:
		base := x.Eval(st, i.X)
		l := st.Label(base)
		whole := x.wholeSlice(st, i)

		if n := smallArray(i.X); n > 0 && i.Low == nil && i.High == nil && base.K == KAddr && strings.HasPrefix(base.ID, "A") {
			// Slice of a local array, usually a literal.
			v := AV{K: KSym, ID: fmt.Sprintf("%s!%d", base.ID, n), T: i.Type()}
			delete(st.Facts, v.ID)
			st.SetNil(v, notNil)
			st.AddLabel(v, l)
			set(i, v)

			return true
		}

		v := x.Fresh(st, i, "")
		st.AddLabel(v, l)

		if !whole {
			st.AddLabel(v, l&LabLow<<LabPartial)
		}

		if st.NilOf(base) == notNil || base.K == KAddr {
			st.SetNil(v, notNil)
		}

		set(i, v)
	case *ssa.Extract:
		t := x.Eval(st, i.Tuple)
		if t.K == KTuple && i.Index < len(t.Bind) {
			set(i, t.Bind[i.Index])
		} else {
			set(i, AV{})
		}
	case *ssa.TypeAssert:
		v := x.Eval(st, i.X)
		n := x.Fresh(st, i, "")
		l := st.Label(v)

		if i.CommaOk {
			a := AV{K: KSym, ID: n.ID + "#0", T: i.AssertedType}
			b := AV{K: KSym, ID: n.ID + "#1", T: types.Typ[types.Bool]}
			delete(st.Facts, a.ID)
			delete(st.Facts, b.ID)
			st.AddLabel(a, l)
			set(i, tupleOf([]AV{a, b}))
		} else {
			if v.K == KSym {
				v.T = i.AssertedType
				set(i, v)
			} else if v.K == KAddr {
				set(i, v)
			} else {
				set(i, n)
			}
		}
	case *ssa.Range:
		v := x.Fresh(st, i, "")
		st.AddLabel(v, st.Label(x.Eval(st, i.X)))
		set(i, v)
	case *ssa.Next:
		n := x.Fresh(st, i, "")
		tt := i.Type().(*types.Tuple)

		var el []AV

		for k := range tt.Len() {
			e := AV{K: KSym, ID: fmt.Sprintf("%s#%d", n.ID, k), T: tt.At(k).Type()}
			if old, ok := st.Facts[e.ID]; ok && !old.empty() {
				x.rename(st, e.ID, old)
			}

			delete(st.Facts, e.ID)
			st.AddLabel(e, st.Label(x.Eval(st, i.Iter)))
			el = append(el, e)
		}

		set(i, tupleOf(el))
	case *ssa.Select:
		set(i, AV{})
	case *ssa.Send:
		fr.Idx++
	case *ssa.Store:
		x.store(st, x.Eval(st, i.Addr), x.Eval(st, i.Val))
		fr.Idx++
	case *ssa.MapUpdate:
		m := x.Eval(st, i.Map)
		if m.ID != "" {
			st.AddLabel(m, st.Label(x.Eval(st, i.Value)))
		}

		fr.Idx++
	case *ssa.Go:
		fr.Idx++
	case *ssa.Defer:
		fn := AV{}
		if !i.Call.IsInvoke() {
			fn = x.Eval(st, i.Call.Value)
		}

		fr.Defers = append(fr.Defers, deferred{call: i, fn: fn, args: x.evalArgs(st, &i.Call)})
		fr.Idx++
	case *ssa.RunDefers:
		if len(fr.Defers) == 0 {
			fr.Idx++

			return true
		}

		d := fr.Defers[len(fr.Defers)-1]
		fr.Defers = fr.Defers[:len(fr.Defers)-1]

		x.runDeferred(st, d)
	case *ssa.Call:
		return x.call(st, fr, i)
	case *ssa.Jump:
		x.goBlock(st, fr.Block.Succs[0])

		return false
	case *ssa.If:
		x.branch(st, fr, i)

		return false
	case *ssa.Return:
		var res []AV
		for _, r := range i.Results {
			res = append(res, x.Eval(st, r))
		}

		st.Note(x.P.InstrPos(i), "return")

		return x.ret(st, res)
	case *ssa.Panic:
		st.Note(x.P.InstrPos(i), "panic")
		fr.Panicking = true
	default:
		if v, ok := ins.(ssa.Value); ok {
			set(v, AV{})
		} else {
			fr.Idx++
		}
	}

	return true
}

// Labels of partial slices are shifted.
const (
	LabPartial = 32
	LabLow     = 1<<LabPartial - 1
)

func (x *Explorer) wholeSlice(st *State, i *ssa.Slice) bool {
	if i.Low != nil {
		if c := x.constOf(st, x.Eval(st, i.Low)); c == nil || c.ExactString() != "0" {
			return false
		}
	}

	if i.High != nil {
		if c, ok := i.High.(*ssa.Call); !ok || CallName(&c.Call) != "builtin:len" || c.Call.Args[0] != i.X {
			// make([]T, n) slices an array of constant size.
			if _, isArr := deref(i.X.Type()).Underlying().(*types.Array); isArr {
				return true
			}

			return false
		}
	}

	return true
}

func (x *Explorer) retype(a AV, t types.Type) AV {
	if a.K == KSym {
		a.T = t
	}

	return a
}

func (x *Explorer) unop(st *State, fr *Frame, i *ssa.UnOp, set func(ssa.Value, AV)) {
	switch i.Op {
	case token.MUL:
		addr := x.Eval(st, i.X)

		if x.C.Load != nil {
			if v, ok := x.C.Load(x, st, addr, i); ok {
				set(i, v)

				return
			}
		}

		set(i, x.load(st, addr, i.Type(), i))
	case token.NOT:
		v := x.Eval(st, i.X)
		if b, ok := x.Truth(st, v); ok {
			set(i, boolAV(!b))
		} else if v.K == KTop {
			set(i, AV{})
		} else {
			set(i, AV{K: KNot, X: &v})
		}
	case token.ARROW:
		v := x.Fresh(st, i, "")
		x.Havoc(st, v.ID) // content of the received object is not known

		if i.CommaOk {
			set(i, tupleOf([]AV{{K: KSym, ID: v.ID + "#0", T: i.Type().(*types.Tuple).At(0).Type()}, {K: KSym, ID: v.ID + "#1", T: types.Typ[types.Bool]}}))
		} else {
			set(i, v)
		}
	default:
		v := x.Eval(st, i.X)
		if c := x.constOf(st, v); c != nil && i.Op == token.SUB {
			set(i, constAV(constant.UnaryOp(token.SUB, c, 0)))
		} else {
			set(i, AV{})
		}
	}
}

// lenCmp makes comparison of a length with zero an equality, length is not negative.
func lenCmp(c AV) AV {
	if c.X.K == KConst && c.Y.K == KSym {
		if op, ok := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[c.Op]; ok {
			c.X, c.Y, c.Op = c.Y, c.X, op
		}
	}

	if c.X.K != KSym || !strings.HasPrefix(c.X.ID, "len(") {
		return c
	}

	n, ok := constInt(*c.Y)
	z := constAV(constant.MakeInt64(0))

	switch {
	case !ok:
	case n == 0 && c.Op == token.GTR, n == 1 && c.Op == token.GEQ:
		c.Op, c.Y = token.NEQ, &z
	case n == 0 && c.Op == token.LEQ, n == 1 && c.Op == token.LSS:
		c.Op, c.Y = token.EQL, &z
	}

	return c
}

func (x *Explorer) binop(st *State, i *ssa.BinOp) AV {
	a, b := x.Eval(st, i.X), x.Eval(st, i.Y)

	switch i.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.K == KTop || b.K == KTop {
			return AV{}
		}

		c := lenCmp(AV{K: KCmp, Op: i.Op, X: &a, Y: &b})
		if v, ok := x.Truth(st, c); ok {
			return boolAV(v)
		}

		return c
	}

	ca, cb := x.constOf(st, a), x.constOf(st, b)
	if ca != nil && cb != nil {
		switch i.Op {
		case token.ADD:
			if ca.Kind() == cb.Kind() {
				return constAV(constant.BinaryOp(ca, token.ADD, cb))
			}
		case token.SUB, token.MUL, token.AND, token.OR:
			if ca.Kind() == cb.Kind() && ca.Kind() != constant.String {
				return constAV(constant.BinaryOp(ca, i.Op, cb))
			}
		}
	}

	l := st.Label(a) | st.Label(b)

	if bt, ok := i.Type().Underlying().(*types.Basic); ok && (bt.Info()&types.IsInteger != 0 || bt.Info()&types.IsString != 0) && a.K != KTop && b.K != KTop && exprDepth(a)+exprDepth(b) < maxDepth(bt) {
		v := AV{K: KSym, ID: "e(" + a.Key() + i.Op.String() + b.Key() + ")", T: i.Type(), Op: i.Op, X: &a, Y: &b}
		st.AddLabel(v, l)

		if x.C.Text != nil && bt.Info()&types.IsString != 0 {
			x.C.Text(x, st, i, v)
		}

		return v
	}

	v := x.Fresh(st, i, "")
	st.AddLabel(v, l)

	return v
}

func exprDepth(a AV) int {
	if a.K == KSym && a.X != nil {
		return 1 + exprDepth(*a.X) + exprDepth(*a.Y)
	}

	return 0
}

func (x *Explorer) branch(st *State, fr *Frame, i *ssa.If) {
	c := x.Eval(st, i.Cond)

	if x.C.If != nil {
		if taken, ok := x.C.If(x, st, i, c); ok {
			x.take(st, i, c, taken, false)

			return
		}
	}

	if v, ok := x.Truth(st, c); ok {
		x.take(st, i, c, v, false)

		return
	}

	n := st.fork()
	x.take(st, i, c, true, true)
	x.take(n, i, c, false, true)
}

func (x *Explorer) take(st *State, i *ssa.If, c AV, taken, forked bool) {
	if forked {
		st.Note(x.P.InstrPos(i), fmt.Sprintf("branch %v", taken))
	}

	x.Assume(st, c, taken)

	if x.C.Edge != nil {
		x.C.Edge(x, st, i, taken)

		if st.Dead {
			return
		}
	}

	k := 1
	if taken {
		k = 0
	}

	x.goBlock(st, st.Top().Block.Succs[k])
}

func (x *Explorer) resultSyms(st *State, v ssa.Value, sig *types.Signature) AV {
	n := x.Fresh(st, v, "")
	r := sig.Results()

	switch r.Len() {
	case 0:
		return n
	case 1:
		n.T = r.At(0).Type()

		return n
	}

	var el []AV

	for k := range r.Len() {
		e := AV{K: KSym, ID: fmt.Sprintf("%s#%d", n.ID, k), T: r.At(k).Type()}
		if old, ok := st.Facts[e.ID]; ok && !old.empty() {
			x.rename(st, e.ID, old)
		}

		delete(st.Facts, e.ID)
		el = append(el, e)
	}

	return tupleOf(el)
}

func (x *Explorer) call(st *State, fr *Frame, i *ssa.Call) bool {
	cc := &i.Call
	args := x.evalArgs(st, cc)

	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(st, fr, i, b, args)
	}

	// Targets.
	var targets []AV

	if !cc.IsInvoke() {
		fv := x.Eval(st, cc.Value)
		if fv.K == KFunc {
			targets = []AV{fv}
		}
	}

	if len(targets) == 0 && x.C.ResolveDyn {
		for _, f := range x.P.Callees(i) {
			targets = append(targets, AV{K: KFunc, Fn: f})
		}
	}

	var callee *ssa.Function
	if len(targets) == 1 {
		callee = targets[0].Fn
	}

	if r := x.callHook(st, i, callee, args); r != nil {
		if r.Stop || st.Dead {
			st.Dead = true

			return false
		}

		v := r.Val
		if v.K == KTop {
			v = x.resultSyms(st, i, cc.Signature())
		}

		fr.Env[i] = v
		fr.Idx++

		return true
	}

	if st.Dead {
		return false
	}

	if x.C.MayPanic != nil && x.C.MayPanic(i) {
		n := st.fork()
		n.Note(x.P.InstrPos(i), "panics")
		n.Top().Panicking = true
		x.runPanicking(n)
	}

	var inl []AV

	for _, t := range targets {
		if x.mayInline(st, t.Fn, append(append([]AV{}, args...), t.Bind...)) {
			inl = append(inl, t)
		}
	}

	if len(inl) > 0 {
		for k, t := range inl {
			s := st
			if k < len(inl)-1 {
				s = st.fork()
			}

			a := args
			if cc.IsInvoke() && len(args) > 0 {
				a = append([]AV{}, args...)
			}

			x.push(s, i, t, a, false, false)
			x.enqueue(s)
		}

		return false
	}

	// Opaque call.
	if x.C.Callbacks {
		for _, a := range args {
			if a.K == KFunc && x.canInline(st, a.Fn) {
				n := st.fork()
				x.widenCaptured(n, a)
				x.push(n, i, a, nil, true, false)
				x.enqueue(n)
			}
		}
	}

	x.opaque(st, fr, i, args)

	return true
}

// widenCaptured forgets numbers in captured variables that a callback changes.
func (x *Explorer) widenCaptured(st *State, fn AV) {
	for i, fv := range fn.Fn.FreeVars {
		if i >= len(fn.Bind) || fn.Bind[i].ID == "" {
			continue
		}

		b, ok := deref(fv.Type()).Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			continue
		}

		for _, r := range *fv.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(fv) {
				id := fn.Bind[i].ID
				delete(st.Mem, "zero:"+id)
				st.Mem[id] = AV{K: KSym, ID: "cb:" + id, T: deref(fv.Type())}

				break
			}
		}
	}
}

func (x *Explorer) runPanicking(st *State) { x.run(st) }

func (x *Explorer) opaque(st *State, fr *Frame, i *ssa.Call, args []AV) {
	name := CallName(&i.Call)

	if x.textCall(st, fr, i, name, args) {
		return
	}

	var lab uint64
	for _, a := range args {
		lab |= st.Label(a)

		if a.K == KAddr && strings.HasPrefix(a.ID, "A") && !strings.Contains(a.ID, "[*]") {
			if _, isStruct := deref(a.T).Underlying().(*types.Struct); !isStruct || true {
				if !readOnlyCall(name) {
					l := st.Facts[a.ID].Lab
					x.Havoc(st, a.ID)
					if l != 0 {
						st.AddLabel(a, l)
					}
				}
			}
		}
	}

	if strings.HasPrefix(name, "sync/atomic.") && len(args) > 0 && args[0].ID != "" {
		switch {
		case strings.HasPrefix(name, "sync/atomic.Load"):
			fr.Env[i] = x.load(st, args[0], i.Type(), i)
			fr.Idx++

			return
		case strings.HasPrefix(name, "sync/atomic.Store"):
			x.store(st, args[0], args[1])

			fr.Env[i] = AV{}
			fr.Idx++

			return
		case strings.HasPrefix(name, "sync/atomic.Add"):
			old := x.load(st, args[0], i.Type(), i)
			if old.X != nil {
				old.X, old.Y = nil, nil
			}

			res := AV{K: KSym, ID: x.id(fr, i), T: i.Type(), Op: token.ADD, X: &old, Y: &args[1]}
			delete(st.Facts, res.ID)
			x.store(st, args[0], res)

			fr.Env[i] = res
			fr.Idx++

			return
		}
	}

	res := x.resultSyms(st, i, i.Call.Signature())

	switch name {
	case "errors.New", "fmt.Errorf":
		st.SetNil(res, notNil)
		st.AddLabel(res, lab)
	case "errors.Join":
		st.AddLabel(res, lab)

		if lab != 0 {
			st.SetNil(res, notNil)
		}

		if l, ok := elements(st, args[0]); ok {
			for _, e := range l {
				if e.K == KAddr || st.NilOf(e) == notNil {
					st.SetNil(res, notNil)
				}
			}
		}
	case "maps.Keys", "maps.Values", "slices.Sorted", "slices.Collect", "slices.Clone", "slices.Values", "slices.All", "maps.All":
		st.AddLabel(res, lab)
	case "(error).Error", "strings.Join", "fmt.Sprintf", "fmt.Sprint", "(github.com/bool64/ctxd.SentinelError).Error":
		st.AddLabel(res, lab)
	}

	fr.Env[i] = res
	fr.Idx++
}

func readOnlyCall(name string) bool {
	switch name {
	case "fmt.Sprintf", "fmt.Errorf", "errors.Join", "fmt.Fprintln", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return true
	}

	return false
}

func (x *Explorer) builtin(st *State, fr *Frame, i *ssa.Call, b *ssa.Builtin, args []AV) bool {
	if r := x.callHook(st, i, nil, args); r != nil {
		if r.Stop || st.Dead {
			st.Dead = true

			return false
		}
	}

	var labels []uint64
	for _, a := range args {
		labels = append(labels, st.Label(a))
	}

	v := x.Fresh(st, i, "")

	switch b.Name() {
	case "append":
		for _, l := range labels {
			st.AddLabel(v, l)
		}
	case "cap":
		st.AddLabel(v, labels[0])
	case "len":
		// Length of a labelled (hence non-empty) collection is positive.
		st.AddLabel(v, labels[0])

		if st.NilOf(args[0]) == isNil {
			v = constAV(constant.MakeInt64(0))
		}

		if j := strings.LastIndexByte(args[0].ID, '!'); j > 0 && b.Name() == "len" {
			if n, err := strconv.Atoi(args[0].ID[j+1:]); err == nil {
				v = constAV(constant.MakeInt64(int64(n)))
			}
		}

		if c := x.constOf(st, args[0]); c != nil && c.Kind() == constant.String {
			v = constAV(constant.MakeInt64(int64(len(constant.StringVal(c)))))
		}
	case "recover":
		fr.MayRecov = true
		// Value of recover is non-nil exactly when the parent is panicking.
		if fr.InDefer && len(st.Frames) > 1 {
			if st.Frames[len(st.Frames)-2].Panicking {
				st.SetNil(v, notNil)
			} else {
				v = AV{K: KNil}
			}
		}
	}

	fr.Env[i] = v
	fr.Idx++

	return true
}

func maxDepth(t *types.Basic) int {
	if t.Info()&types.IsString != 0 {
		return 16
	}

	return 6
}
