package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P03"] = p03 }

// Kinds of memory that is overwritten by other lines.
const (
	memToken  = 1 << iota // Text of the scanner, is overwritten by the next line.
	memBuffer             // Buffer of a worker or a parser, is overwritten by the next line of the same worker.
	memText               // String that shares memory with a buffer.
)

// Lines follows references to memory that is reused for other lines.
type Lines struct {
	p     *Prog
	c     *Conc
	fns   []*ssa.Function
	kind  map[ssa.Value]int
	cells map[*ssa.Alloc]map[string]int
	// reused are fields that hold buffers.
	reused map[*types.Var]bool
	// own are types of state of a worker.
	own     map[string]bool
	changed bool
}

func p03(p *Prog, r *Report) {
	r.Rule("P03.line", "text of the scanner is only copied by the reader, it is not used by the goroutine of the line or kept", 1)
	r.Rule("P03.keep", "references to reused buffers of a worker or a parser are not kept in recorded keys, rows or other memory that outlives the line", 4)
	r.Rule("P03.reset", "all slots of a reused row are cleared before the row is used for another line", 1)
	r.Rule("P03.put", "pooled object and values that belong to it are not used after it is returned to the pool", 3)
	r.Rule("P03.parser", "parser that is used while values of another text are being walked is not the one that holds them", 2)
	r.Rule("P03.own", "values are put to the row of their own line", 3)

	c := newConc(p)
	if !need(r, "P03.line", "goroutine of a line", c != nil) {
		return
	}

	l := &Lines{p: p, c: c, kind: map[ssa.Value]int{}, cells: map[*ssa.Alloc]map[string]int{}, reused: map[*types.Var]bool{}, own: map[string]bool{}}
	l.collect()
	l.solve()
	l.report(r)
	l.reset(r)
	l.put(r)
	l.parser(r)
	l.rows(r)
}

func (l *Lines) collect() {
	for _, fn := range l.p.Funcs {
		if rootFn(fn).Pkg == l.p.Lib {
			l.fns = append(l.fns, fn)
		}
	}

	for _, fn := range l.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Slice)
				if !ok || s.High == nil {
					continue
				}

				if k, ok := s.High.(*ssa.Const); ok && k.Int64() == 0 {
					if f := loadedField(s.X); f != nil {
						l.reused[f] = true
					}
				}
			}
		}
	}

	// State of a worker is given by a channel.
	for _, b := range l.c.reader.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Send)
			if !ok {
				continue
			}

			l.ownType(s.X.Type())
		}
	}
}

func (l *Lines) ownType(t types.Type) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}

	st, ok := pt.Elem().Underlying().(*types.Struct)
	n := typeName(pt.Elem())

	if !ok || l.own[n] || !l.libType(pt.Elem()) || n == "Processor" {
		return
	}

	l.own[n] = true

	for k := range st.NumFields() {
		l.ownType(st.Field(k).Type())
	}
}

func (l *Lines) libType(t types.Type) bool {
	n, ok := t.(*types.Named)

	return ok && n.Obj().Pkg() == l.p.Lib.Pkg
}

func (l *Lines) solve() {
	for l.changed = true; l.changed; {
		l.changed = false

		for _, fn := range l.fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					l.step(ins)
				}
			}
		}
	}
}

func (l *Lines) add(v ssa.Value, k int) {
	k = carries(v.Type(), k)
	if k&^l.kind[v] != 0 {
		l.kind[v] |= k
		l.changed = true
	}
}

func (l *Lines) addCell(a *ssa.Alloc, path string, k int) {
	if k == 0 {
		return
	}

	m := l.cells[a]
	if m == nil {
		m = map[string]int{}
		l.cells[a] = m
	}

	if k&^m[path] != 0 {
		m[path] |= k
		l.changed = true
	}
}

func (l *Lines) cell(a *ssa.Alloc, path string) int {
	res := 0

	for q, k := range l.cells[a] {
		if q == path || strings.HasPrefix(q, path+".") || strings.HasPrefix(path, q+".") || q == "" || path == "" {
			res |= k
		}
	}

	return res
}

// carries leaves kinds that values of the type can have.
func carries(t types.Type, k int) int {
	if k == 0 {
		return 0
	}

	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return k
		case u.Info()&types.IsString != 0:
			return k & memText
		}

		return 0
	case *types.Struct:
		res := 0
		for i := range u.NumFields() {
			res |= carries(u.Field(i).Type(), k)
		}

		return res
	case *types.Array:
		return carries(u.Elem(), k)
	case *types.Interface:
		if IsError(t) {
			return 0
		}
	case *types.Slice:
		// Contents of strings are never overwritten, the list of them can be.
		return k
	case *types.Signature:
		return 0
	}

	return k
}

// root of an address: local variable and path, or captured variable.
func (l *Lines) root(v ssa.Value) (*ssa.Alloc, string) {
	path := ""

	for {
		switch i := v.(type) {
		case *ssa.Alloc:
			return i, path
		case *ssa.FieldAddr:
			path = "." + fieldVar(i).Name() + path
			v = i.X
		case *ssa.IndexAddr:
			if _, isPtr := i.X.Type().Underlying().(*types.Pointer); !isPtr {
				return nil, ""
			}

			path = "[]" + path
			v = i.X
		case *ssa.FreeVar:
			if v = l.p.binding(i); v == nil {
				return nil, ""
			}
		case *ssa.UnOp:
			// Pointer to a local struct that is kept in a variable.
			if i.Op != token.MUL {
				return nil, ""
			}

			return nil, ""
		default:
			return nil, ""
		}
	}
}

func (l *Lines) step(ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.Store:
		if a, path := l.root(i.Addr); a != nil {
			l.addCell(a, path, l.kind[i.Val])
		}
	case *ssa.MapUpdate:
		if k := l.kind[i.Value] | l.kind[i.Key]; k != 0 {
			l.add(i.Map, k)
		}
	case *ssa.Return:
	case ssa.CallInstruction:
		l.call(i)
	case ssa.Value:
		l.value(i)
	}
}

func (l *Lines) value(v ssa.Value) {
	switch i := v.(type) {
	case *ssa.Phi:
		for _, e := range i.Edges {
			l.add(i, l.kind[e])
		}
	case *ssa.Slice:
		// Appending to a slice without capacity copies it, content is not overwritten while the line is processed.
		if a, path := l.root(i.X); a != nil {
			l.add(i, l.cell(a, path))

			return
		}

		l.add(i, l.kind[i.X])
	case *ssa.Convert:
		from, to := i.X.Type().Underlying(), i.Type().Underlying()
		_, fp := from.(*types.Pointer)
		_, tp := to.(*types.Pointer)

		if bt, ok := to.(*types.Basic); ok && bt.Kind() == types.UnsafePointer && fp {
			k := l.kind[i.X]
			if a, path := l.root(i.X); a != nil {
				k |= l.cell(a, path)
			}

			if k != 0 {
				k |= memText
			}

			l.add(i, k)

			return
		}

		if bf, ok := from.(*types.Basic); ok && bf.Kind() == types.UnsafePointer && tp {
			l.add(i, l.kind[i.X])

			return
		}
		// Bytes and strings are copied.
	case *ssa.ChangeType:
		l.add(i, l.kind[i.X])
	case *ssa.ChangeInterface:
		l.add(i, l.kind[i.X])
	case *ssa.MakeInterface:
		l.add(i, l.kind[i.X])
	case *ssa.TypeAssert:
		l.add(i, l.kind[i.X])
	case *ssa.SliceToArrayPointer:
		l.add(i, l.kind[i.X])
	case *ssa.Field:
		l.add(i, l.kind[i.X])
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			l.add(i, l.result(c, i.Index))

			return
		}

		l.add(i, l.tuple(i.Tuple))
	case *ssa.FieldAddr, *ssa.IndexAddr:
		var x ssa.Value
		if f, ok := i.(*ssa.FieldAddr); ok {
			x = f.X
		} else {
			x = i.(*ssa.IndexAddr).X
		}

		if a, _ := l.root(i); a == nil {
			l.add(i, l.kind[x])
		}
	case *ssa.Index:
		l.add(i, l.kind[i.X])
	case *ssa.Lookup:
		l.add(i, l.kind[i.X])
	case *ssa.FreeVar:
		if b := l.p.binding(i); b != nil {
			l.add(i, l.kind[b])
		}
	case *ssa.Alloc:
		for _, k := range l.cells[i] {
			l.add(i, k)
		}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return
		}

		if a, path := l.root(i.X); a != nil {
			l.add(i, l.cell(a, path))

			return
		}

		if f := fieldVar(i.X); f != nil && l.reused[f] {
			l.add(i, memBuffer)
		}

		if f := fieldVar(i.X); f != nil && l.ownField(i.X) {
			// What was stored to state of the worker.
			for _, s := range l.p.fieldSt[f] {
				l.add(i, l.kind[s.Val])
			}
		}

		l.add(i, l.kind[i.X])
	}
}

func (l *Lines) ownField(addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)

	return ok && l.own[typeName(deref(fa.X.Type()))]
}

func (l *Lines) tuple(v ssa.Value) int {
	switch i := v.(type) {
	case *ssa.Lookup:
		return l.kind[i.X]
	case *ssa.TypeAssert:
		return l.kind[i.X]
	case *ssa.Next:
		if rg, ok := i.Iter.(*ssa.Range); ok {
			return l.kind[rg.X]
		}
	}

	return 0
}

// copying tells functions that return new memory.
func copying(name string) bool {
	for _, s := range []string{
		"bytes.Clone", "slices.Clone", "bytes.Join", "bytes.Repeat", "bytes.ToUpper", "bytes.ToLower", "bytes.Map", "bytes.Replace", "strings.", "strconv.", "fmt.", "encoding/json.", "errors.",
		"slices.Concat", "slices.Insert", "maps.Clone", "encoding/hex.", "encoding/base64.",
	} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}

	return false
}

func fastjsonType(t types.Type) bool {
	return strings.Contains(types.TypeString(t, nil), "/fastjson")
}

func (l *Lines) call(ci ssa.CallInstruction) {
	cc := ci.Common()
	args := argsOf(cc)
	name := CallName(cc)

	for _, f := range l.p.Callees(ci) {
		for k, prm := range f.Params {
			if k < len(args) {
				l.add(prm, l.kind[args[k]])
			}
		}
	}

	// Parameters of callbacks of the parser.
	if strings.Contains(name, "/fastjson") {
		for _, a := range args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}

			for _, f := range l.p.FuncsOf(a) {
				for _, prm := range f.Params {
					l.add(prm, memBuffer)
				}
			}
		}
	}

	switch name {
	case "builtin:copy":
		// Elements that are references.
		if k := elemKind(cc.Args[0].Type(), l.kind[cc.Args[1]]); k != 0 {
			l.add(cc.Args[0], k)
		}
	}

	if v := ci.Value(); v != nil {
		if _, ok := v.Type().(*types.Tuple); !ok {
			l.add(v, l.result(v, 0))
		}
	}
}

// elemKind leaves kinds of elements of a list.
func elemKind(t types.Type, k int) int {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return carries(s.Elem(), k)
	}

	return 0
}

// result of a call.
func (l *Lines) result(call *ssa.Call, k int) int {
	cc := &call.Call
	name := CallName(cc)
	args := argsOf(cc)

	switch {
	case name == "(*bufio.Scanner).Bytes":
		return memToken
	case name == "builtin:append":
		res := elemKind(cc.Args[0].Type(), l.kind[cc.Args[1]])
		if !capped(cc.Args[0]) {
			res |= l.kind[cc.Args[0]]
		}

		return res
	case name == "builtin:String", name == "builtin:StringData", name == "builtin:SliceData", name == "builtin:Slice":
		res := 0
		for _, a := range args {
			res |= l.kind[a]
		}

		if res != 0 {
			res |= memText
		}

		return res
	case strings.HasPrefix(name, "builtin:"):
		return 0
	case strings.Contains(name, "/fastjson"):
		t := resultType(call, k)
		if isString(t) {
			return 0
		}

		if strings.Contains(name, "Pool") {
			return 0
		}

		if strings.HasSuffix(name, ".MarshalTo") {
			return l.kind[args[1]]
		}

		return carries(t, memBuffer)
	case copying(name):
		return 0
	case isContainer(cc), strings.HasPrefix(name, "(*sync.Pool)"):
		// What is stored is checked, stored values are not references to buffers.
		return 0
	}

	res := 0

	fns := l.p.Callees(call)
	if len(fns) > 0 {
		for _, f := range fns {
			if len(f.Blocks) == 0 {
				continue
			}

			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
					res |= l.kind[ret.Results[k]]
				}
			}
		}

		return res
	}

	for _, a := range args {
		res |= l.kind[a]
	}

	return res
}

// report checks where references are stored.
func (l *Lines) report(r *Report) {
	tokens, keeps := 0, 0

	kindName := func(k int) string {
		switch {
		case k&memText != 0:
			return "string that shares memory with a reused buffer"
		case k&memToken != 0:
			return "text of the scanner, that is overwritten by the next line,"
		}

		return "reference to a reused buffer"
	}

	for _, fn := range l.fns {
		bad := false
		n := 0

		check := func(ins ssa.Instruction, k int, what string) {
			if k == 0 {
				return
			}

			rule := "P03.keep"
			if k&memToken != 0 {
				rule = "P03.line"
			}

			bad = true
			r.Fail(rule, FnName(fn)+": "+what, l.p.InstrPos(ins), kindName(k)+" is kept in "+what, nil)
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					n++

					if a, _ := l.root(i.Addr); a != nil {
						continue
					}

					k := l.kind[i.Val]

					if f := fieldVar(i.Addr); f != nil && (l.reused[f] && isSelf(i, f) || l.ownField(i.Addr)) {
						k &= memToken
					}

					if ia, ok := i.Addr.(*ssa.IndexAddr); ok && k&memText == 0 && l.kind[ia.X]&memBuffer != 0 {
						// Content of the buffer itself.
						k = 0
					}

					check(i, k, describe(i.Addr))
				case *ssa.MapUpdate:
					if _, local := i.Map.(*ssa.MakeMap); !local {
						check(i, l.kind[i.Value]|l.kind[i.Key], describe(i.Map))
					}
				case *ssa.Send:
					check(i, l.kind[i.X], "a channel")
				case ssa.CallInstruction:
					cc := i.Common()
					if isContainer(cc) || strings.HasPrefix(CallName(cc), "sync/atomic.") || strings.HasPrefix(CallName(cc), "(*sync/atomic.") {
						n++

						for _, a := range argsOf(cc) {
							check(i, l.kind[a], shortCall(cc))
						}
					}

					if _, ok := i.(*ssa.Go); ok {
						for _, a := range cc.Args {
							check(i, l.kind[a]&memToken, "a goroutine")
						}
					}
				}
			}
		}

		// Text of the scanner in concurrent code.
		for _, fv := range fn.FreeVars {
			if !l.c.fns[fn] {
				continue
			}

			k := l.kind[fv]
			if a, path := l.root(fv); a != nil {
				k |= l.cell(a, path)
			}

			if k&memToken != 0 && carries(deref(fv.Type()), memToken) != 0 {
				check(fn.Blocks[0].Instrs[0], memToken, "variable "+fv.Name()+" of the goroutine")
			}
		}

		if l.c.fns[fn] && !bad && n > 0 {
			keeps++
			r.OK("P03.keep", FnName(fn), l.p.InstrPos(fn.Blocks[0].Instrs[0]))
		}

		if l.c.fns[fn] {
			r.Saw(FnName(fn))
		}

		for _, ci := range callsOf(fn) {
			if CallName(ci.Common()) == "(*bufio.Scanner).Bytes" {
				tokens++

				if !bad {
					r.OK("P03.line", FnName(fn), l.p.InstrPos(ci))
				}
			}
		}
	}

	// Text that is taken as a string is a copy.
	if tokens == 0 {
		for _, fn := range l.fns {
			for _, ci := range callsOf(fn) {
				if n := CallName(ci.Common()); n == "(*bufio.Scanner).Text" || strings.HasPrefix(n, "(*bufio.Reader).ReadBytes") || strings.HasPrefix(n, "(*bufio.Reader).ReadString") {
					r.OK("P03.line", FnName(fn), l.p.InstrPos(ci))
				}
			}
		}
	}
}

// isSelf tells a store of a buffer to the field it came from.
func isSelf(s *ssa.Store, f *types.Var) bool {
	seen := map[ssa.Value]bool{}

	var rec func(v ssa.Value) bool

	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}

		seen[v] = true

		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				if !rec(e) {
					return false
				}
			}

			return true
		case *ssa.Slice:
			return rec(i.X)
		case *ssa.Extract:
			return rec(i.Tuple)
		case *ssa.Call:
			for _, a := range argsOf(&i.Call) {
				if sameType(a.Type(), f.Type()) && rec(a) {
					return true
				}
			}

			return false
		case *ssa.MakeSlice:
			return true
		case *ssa.UnOp:
			return loadedField(v) == f
		}

		return false
	}

	return rec(s.Val)
}

func sameType(a, b types.Type) bool { return types.Identical(a, b) }

// pooled is a call that returns an object to a pool.
type pooled struct {
	ins ssa.CallInstruction
	obj ssa.Value
}

// puts finds returns to pools.
func (l *Lines) puts(fn *ssa.Function) []pooled {
	var res []pooled

	for _, ci := range callsOf(fn) {
		cc := ci.Common()
		if methodName(cc) != "Put" || len(argsOf(cc)) != 2 || !strings.Contains(recvType(cc), "Pool") {
			continue
		}

		v := argsOf(cc)[1]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}

		res = append(res, pooled{ins: ci, obj: v})
	}

	return res
}

// put checks uses after objects are returned to pools.
func (l *Lines) put(r *Report) {
	for _, fn := range l.fns {
		for _, pt := range l.puts(fn) {
			l.putOne(r, fn, pt, 0)
		}
	}
}

func (l *Lines) putOne(r *Report, fn *ssa.Function, pt pooled, depth int) {
	construct := FnName(fn) + ": " + describe(pt.obj)
	pos := l.p.InstrPos(pt.ins)
	derived := l.derived(fn, pt.obj)
	bad := ""

	_, deferred := pt.ins.(*ssa.Defer)

	if deferred {
		// Values must not outlive the function.
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, v := range ret.Results {
					if derived[v] && !IsError(v.Type()) {
						bad = "value that belongs to the returned object is returned at " + l.p.InstrPos(ret)
					}
				}
			}

			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && derived[s.Val] {
					if a, _ := l.root(s.Addr); a == nil && !derived[s.Addr] {
						bad = "value that belongs to the returned object is kept at " + l.p.InstrPos(s)
					}
				}
			}
		}

	} else {
		seen := map[*ssa.BasicBlock]bool{}

		var walk func(b *ssa.BasicBlock, from int)

		walk = func(b *ssa.BasicBlock, from int) {
			for _, ins := range b.Instrs[from:] {
				if v, ok := ins.(ssa.Value); ok && v == pt.obj {
					// Another object of the next iteration.
					return
				}

				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}

				for _, op := range ins.Operands(nil) {
					if *op != nil && derived[*op] && bad == "" {
						if phi, ok := ins.(*ssa.Phi); ok && !derived[phi] {
							continue
						}

						bad = "value that belongs to the returned object is used at " + l.p.InstrPos(ins)
					}
				}
			}

			for _, n := range b.Succs {
				if !seen[n] {
					seen[n] = true
					walk(n, 0)
				}
			}
		}

		for k, ins := range pt.ins.Block().Instrs {
			if ins == ssa.Instruction(pt.ins) {
				walk(pt.ins.Block(), k+1)
			}
		}
	}

	// Deferred return and an explicit one of the same object.
	for _, o := range l.puts(fn) {
		if o.ins != pt.ins && (o.obj == pt.obj || sameValue(o.obj, pt.obj)) && (reaches(pt.ins, o.ins) || reaches(o.ins, pt.ins)) && bad == "" {
			bad = "object is returned again at " + l.p.InstrPos(o.ins)
		}
	}

	if bad != "" {
		r.Fail("P03.put", construct, pos, bad+", after it was returned to the pool it is used for another line", nil)

		return
	}

	r.OK("P03.put", construct, pos)

	// Object belongs to the caller.
	if prm, ok := pt.obj.(*ssa.Parameter); ok && depth < 4 {
		k := paramIndex(prm)

		for _, c := range l.p.callers[fn] {
			if args := argsOf(c.Common()); k < len(args) && c.Parent().Synthetic == "" {
				l.putOne(r, c.Parent(), pooled{ins: c, obj: args[k]}, depth+1)
			}
		}
	}
}

func paramIndex(prm *ssa.Parameter) int {
	for k, q := range prm.Parent().Params {
		if q == prm {
			return k
		}
	}

	return -1
}

// reaches tells that an instruction can run after another one without a new iteration of a loop.
func reaches(from, to ssa.Instruction) bool {
	if from.Block() == to.Block() {
		for _, ins := range from.Block().Instrs {
			if ins == from {
				return true
			}

			if ins == to {
				return false
			}
		}
	}

	seen := map[*ssa.BasicBlock]bool{}

	var walk func(b *ssa.BasicBlock) bool

	walk = func(b *ssa.BasicBlock) bool {
		if b == to.Block() {
			return true
		}

		if seen[b] {
			return false
		}

		seen[b] = true

		for _, s := range b.Succs {
			if !s.Dominates(b) && walk(s) {
				return true
			}
		}

		return false
	}

	for _, s := range from.Block().Succs {
		if !s.Dominates(from.Block()) && walk(s) {
			return true
		}
	}

	return false
}

// derived finds values of a function that belong to an object.
func (l *Lines) derived(fn *ssa.Function, obj ssa.Value) map[ssa.Value]bool {
	res := map[ssa.Value]bool{obj: true}

	for changed := true; changed; {
		changed = false

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				// Variable of the object.
				if s, ok := ins.(*ssa.Store); ok && res[s.Val] {
					if a, ok := s.Addr.(*ssa.Alloc); ok && !res[a] && onlyStore(a, s) {
						res[a] = true
						changed = true
					}

					continue
				}

				v, ok := ins.(ssa.Value)
				if !ok || res[v] {
					continue
				}

				if carries(v.Type(), memBuffer) == 0 {
					if _, isTuple := v.Type().(*types.Tuple); !isTuple {
						continue
					}
				}

				if IsError(v.Type()) {
					continue
				}

				from := false

				switch i := v.(type) {
				case *ssa.Call:
					n := CallName(&i.Call)
					if copying(n) || isContainer(&i.Call) || n == "builtin:append" && !res[i.Call.Args[0]] {
						continue
					}

					for _, a := range argsOf(&i.Call) {
						from = from || res[a]
					}
				case *ssa.Convert, *ssa.MakeClosure, *ssa.BinOp:
				case *ssa.Phi:
					// Different objects.
					from = len(i.Edges) > 0
					for _, e := range i.Edges {
						from = from && (res[e] || e == ssa.Value(i))
					}
				default:
					for _, op := range ins.Operands(nil) {
						from = from || *op != nil && res[*op]
					}
				}

				if from {
					res[v] = true
					changed = true
				}
			}
		}
	}

	return res
}

func onlyStore(a *ssa.Alloc, s *ssa.Store) bool {
	for _, w := range cellWrites(a) {
		if w != s {
			return false
		}
	}

	return true
}

// reset checks that slots of pooled rows are cleared.
func (l *Lines) reset(r *Report) {
	val := l.p.Lib.Type("Value")
	if !need(r, "P03.reset", "type of a value", val != nil) {
		return
	}

	isRow := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)

		return ok && types.Identical(s.Elem(), val.Type())
	}

	n := 0

	for _, fn := range l.fns {
		for _, pt := range l.puts(fn) {
			st := structOf(deref(pt.obj.Type()))
			if st == nil {
				if isRow(deref(pt.obj.Type())) {
					n++
					l.cleared(r, fn, pt, nil)
				}

				continue
			}

			for k := range st.NumFields() {
				if f := st.Field(k); isRow(f.Type()) {
					n++
					l.cleared(r, fn, pt, f)
				}
			}
		}
	}

	if n > 0 {
		return
	}

	// Rows that are not reused are made for each line.
	for _, fn := range l.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MakeSlice); ok && isRow(m.Type()) && l.c.fns[fn] {
					n++
					r.OK("P03.reset", FnName(fn), l.p.InstrPos(m))
				}
			}
		}
	}

	need(r, "P03.reset", "place where a row is reused", n > 0)
}

func (l *Lines) cleared(r *Report, fn *ssa.Function, pt pooled, f *types.Var) {
	construct, pos := FnName(fn)+": "+describe(pt.obj), l.p.InstrPos(pt.ins)

	isRow := func(v ssa.Value) bool {
		if f == nil {
			return v == pt.obj || sameValue(v, pt.obj)
		}

		return loadedField(v) == f
	}

	if at := l.clears(fn, isRow, pt.ins, 0); at == nil {
		// Or when it is taken from the pool.
		if l.clearedOnGet(fn, f, pt) {
			r.OK("P03.reset", construct, pos)

			return
		}

		r.Fail("P03.reset", construct, pos, "row is returned to the pool while some of its slots can keep values of the line", nil)

		return
	} else if w := l.writtenAfter(fn, isRow, at, pt.ins); w != nil {
		r.Fail("P03.reset", construct, l.p.InstrPos(w), "slot is written after the row was cleared, before it is returned to the pool", nil)

		return
	}

	r.OK("P03.reset", construct, pos)
}

// clears finds clearing of all slots that is done on every path to the instruction.
func (l *Lines) clears(fn *ssa.Function, isRow func(ssa.Value) bool, before ssa.Instruction, depth int) ssa.Instruction {
	dominates := func(ins ssa.Instruction) bool {
		if before == nil {
			return everyReturn(fn, ins.Block())
		}

		if _, isDefer := before.(*ssa.Defer); isDefer {
			return everyReturn(fn, ins.Block())
		}

		if ins.Block() != before.Block() {
			return ins.Block().Dominates(before.Block())
		}

		for _, i := range ins.Block().Instrs {
			if i == ins {
				return true
			}

			if i == before {
				return false
			}
		}

		return false
	}

	for _, ci := range callsOf(fn) {
		cc := ci.Common()

		if !dominates(ci) {
			continue
		}

		if CallName(cc) == "builtin:clear" && isRow(cc.Args[0]) {
			return ci
		}

		if g := cc.StaticCallee(); g != nil && l.p.InRepo(g) && len(g.Blocks) > 0 && depth < 3 && ci != before {
			inner := func(v ssa.Value) bool {
				for k, prm := range g.Params {
					if v == ssa.Value(prm) {
						return k < len(cc.Args) && isRow(cc.Args[k])
					}
				}

				return loadedField(v) != nil && isRow(v)
			}

			if l.clears(g, inner, nil, depth+1) != nil {
				return ci
			}
		}
	}

	for _, lp := range Loops(fn) {
		if len(lp.Header.Instrs) == 0 || !dominates(lp.Header.Instrs[0]) {
			continue
		}

		if l.clearLoop(fn, lp, isRow) {
			return lp.Header.Instrs[0]
		}
	}

	// New slots.
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok || !dominates(s) {
				continue
			}

			if _, isMake := s.Val.(*ssa.MakeSlice); isMake && fieldVar(s.Addr) != nil && isRow(loadOf(fn, s.Addr)) {
				return s
			}
		}
	}

	return nil
}

// loadOf finds a load of the field of an address.
func loadOf(fn *ssa.Function, addr ssa.Value) ssa.Value {
	f := fieldVar(addr)

	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL && fieldVar(u.X) == f {
				return u
			}
		}
	}

	return nil
}

// clearLoop tells a loop that stores the zero value to every element.
func (l *Lines) clearLoop(fn *ssa.Function, lp *Loop, isRow func(ssa.Value) bool) bool {
	// All elements are visited: the loop only ends at its header.
	for b := range lp.Blocks {
		for _, s := range b.Succs {
			if !lp.Blocks[s] && b != lp.Header {
				return false
			}
		}
	}

	// Index runs to the length.
	bounded := false

	if ifi, ok := lp.Header.Instrs[len(lp.Header.Instrs)-1].(*ssa.If); ok {
		if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && cmp.Op == token.LSS {
			if c, ok := cmp.Y.(*ssa.Call); ok && CallName(&c.Call) == "builtin:len" && isRow(c.Call.Args[0]) && fromStart(lp, cmp.X) {
				bounded = true
			}
		}
	}

	if !bounded {
		return false
	}

	for b := range lp.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}

			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !isRow(ia.X) || !zeroValue(s.Val) || !stepIndex(lp, ia.Index) {
				continue
			}

			every := true

			for _, pr := range lp.Header.Preds {
				if lp.Blocks[pr] && !b.Dominates(pr) {
					every = false
				}
			}

			if every {
				return true
			}
		}
	}

	return false
}

// fromStart tells an index that takes all values from zero.
func fromStart(lp *Loop, v ssa.Value) bool { return stepIndex(lp, v) }

func stepIndex(lp *Loop, v ssa.Value) bool {
	plus := false

	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if k, ok := b.Y.(*ssa.Const); !ok || k.Int64() != 1 {
			return false
		}

		plus = true
		v = b.X
	}

	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != lp.Header {
		return false
	}

	for k, e := range phi.Edges {
		if lp.Blocks[lp.Header.Preds[k]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) {
				return false
			}

			if one, ok := b.Y.(*ssa.Const); !ok || one.Int64() != 1 {
				return false
			}

			continue
		}

		c, ok := e.(*ssa.Const)
		if !ok {
			return false
		}

		if start := c.Int64(); plus && start != -1 || !plus && start != 0 {
			return false
		}
	}

	return true
}

func zeroValue(v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.Const:
		return i.Value == nil
	case *ssa.UnOp:
		if al, ok := i.X.(*ssa.Alloc); ok && i.Op == token.MUL {
			for _, s := range cellWrites(al) {
				if !zeroConst(s.Val) && !zeroValue(s.Val) {
					return false
				}
			}

			return true
		}
	}

	return false
}

func zeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}

	if c.Value == nil {
		return true
	}

	switch c.Value.ExactString() {
	case "0", `""`, "false":
		return true
	}

	return false
}

// writtenAfter finds a write to the row between clearing and the return to the pool.
func (l *Lines) writtenAfter(fn *ssa.Function, isRow func(ssa.Value) bool, at, end ssa.Instruction) ssa.Instruction {
	if at.Parent() != fn {
		return nil
	}

	var res ssa.Instruction

	seen := map[*ssa.BasicBlock]bool{}

	var walk func(b *ssa.BasicBlock, from int)

	walk = func(b *ssa.BasicBlock, from int) {
		for _, ins := range b.Instrs[from:] {
			if ins == end {
				return
			}

			if s, ok := ins.(*ssa.Store); ok {
				a := s.Addr
				if fa, ok := a.(*ssa.FieldAddr); ok {
					a = fa.X
				}

				if ia, ok := a.(*ssa.IndexAddr); ok && isRow(ia.X) && !zeroValue(s.Val) {
					res = s
				}
			}

			if ci, ok := ins.(ssa.CallInstruction); ok && ins != at {
				for _, a := range argsOf(ci.Common()) {
					if isRow(a) && !strings.HasPrefix(CallName(ci.Common()), "builtin:") && l.writesRow(ci) {
						res = ins
					}
				}
			}
		}

		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				walk(n, 0)
			}
		}
	}

	for k, ins := range at.Block().Instrs {
		if ins == at {
			seen[at.Block()] = true
			walk(at.Block(), k+1)
		}
	}

	return res
}

func (l *Lines) writesRow(ci ssa.CallInstruction) bool {
	for _, f := range l.p.Callees(ci) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
						if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok && typeName(sl.Elem()) == "Value" && !zeroValue(s.Val) {
							return true
						}
					}
				}
			}
		}
	}

	return false
}

// clearedOnGet tells that every row taken from the pool is cleared before it is used.
func (l *Lines) clearedOnGet(_ *ssa.Function, f *types.Var, pt pooled) bool {
	if f == nil {
		return false
	}

	n := 0

	for _, fn := range l.fns {
		for _, ci := range callsOf(fn) {
			cc := ci.Common()
			if methodName(cc) != "Get" || !strings.Contains(recvType(cc), "Pool") || ci.Value() == nil {
				continue
			}

			same := false

			for _, ref := range *ci.Value().Referrers() {
				if ta, ok := ref.(*ssa.TypeAssert); ok && types.Identical(ta.AssertedType, pt.obj.Type()) {
					same = true
				}
			}

			if !same {
				continue
			}

			n++

			if l.clears(fn, func(v ssa.Value) bool { return loadedField(v) == f }, nil, 0) == nil {
				return false
			}
		}
	}

	return n > 0
}

// parser checks which parser is used for nested texts.
func (l *Lines) parser(r *Report) {
	for _, fn := range l.fns {
		for _, ci := range callsOf(fn) {
			cc := ci.Common()
			name := CallName(cc)

			if !strings.Contains(name, "/fastjson") || !strings.HasPrefix(methodName(cc), "Parse") || len(cc.Args) == 0 {
				continue
			}

			construct, pos := FnName(fn)+": "+describe(cc.Args[0]), l.p.InstrPos(ci)
			nested := l.nested(fn)

			ok := false

			os := l.p.Origins(cc.Args[0])
			for _, o := range os {
				ok = l.freshParser(o)

				// State of the worker is only used by the outermost text.
				if !ok && !nested && l.ownParser(o) {
					ok = true
				}

				if !ok {
					break
				}
			}

			if !ok {
				msg := "parser is shared by several texts, values of the previous one are overwritten"
				if nested {
					msg = "parser of a nested text is not taken for it, values of the outer text are overwritten while they are walked"
				}

				r.Fail("P03.parser", construct, pos, msg, nil)

				continue
			}

			r.OK("P03.parser", construct, pos)
		}
	}
}

func (l *Lines) freshParser(o ssa.Value) bool {
	switch i := o.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		return methodName(&i.Call) == "Get" && strings.Contains(recvType(&i.Call), "Pool")
	case *ssa.TypeAssert:
		return l.freshParser(i.X)
	case *ssa.Extract:
		return l.freshParser(i.Tuple)
	}

	return false
}

func (l *Lines) ownParser(o ssa.Value) bool {
	u, ok := o.(*ssa.UnOp)

	return ok && u.Op == token.MUL && l.ownField(u.X)
}

// nested tells a function that can run while values of an outer text are walked.
func (l *Lines) nested(fn *ssa.Function) bool {
	return l.p.reachesFn(fn, func(g *ssa.Function) bool { return g == fn }) && l.recursive(fn)
}

func (l *Lines) recursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}

	var rec func(f *ssa.Function) bool

	rec = func(f *ssa.Function) bool {
		for _, g := range l.calleesOf(f) {
			if g == fn {
				return true
			}

			if !seen[g] {
				seen[g] = true

				if rec(g) {
					return true
				}
			}
		}

		return false
	}

	if rec(fn) {
		return true
	}

	// Helper of a recursive function.
	for g := range l.c.fns {
		if g == fn {
			continue
		}

		rs := map[*ssa.Function]bool{}

		var self func(f *ssa.Function) bool

		self = func(f *ssa.Function) bool {
			for _, h := range l.calleesOf(f) {
				if h == g {
					return true
				}

				if !rs[h] {
					rs[h] = true

					if self(h) {
						return true
					}
				}
			}

			return false
		}

		calls := false
		for _, h := range l.calleesOf(g) {
			calls = calls || h == fn
		}

		if calls && self(g) {
			return true
		}
	}

	return false
}

func (l *Lines) calleesOf(f *ssa.Function) []*ssa.Function {
	var res []*ssa.Function

	for _, ci := range callsOf(f) {
		res = append(res, l.p.Callees(ci)...)

		for _, a := range ci.Common().Args {
			if _, ok := a.Type().Underlying().(*types.Signature); ok {
				res = append(res, l.p.FuncsOf(a)...)
			}
		}
	}

	return res
}

// rows checks that values are put to the row of their own line.
func (l *Lines) rows(r *Report) {
	val := l.p.Lib.Type("Value")
	if val == nil {
		return
	}

	type site struct{ construct, pos, msg string }

	var list []site

	l.c.instrs(func(ins ssa.Instruction) {
		s, ok := ins.(*ssa.Store)
		if !ok {
			return
		}

		a := s.Addr
		if fa, ok := a.(*ssa.FieldAddr); ok {
			a = fa.X
		}

		ia, ok := a.(*ssa.IndexAddr)
		if !ok {
			return
		}

		sl, ok := ia.X.Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), val.Type()) {
			return
		}

		why := ""
		if !l.c.isSerial(ins) {
			why = l.c.sharedBy(ia.X)
		}

		list = append(list, site{FnName(ins.Parent()) + ": " + describe(ia.X), l.p.InstrPos(ins), why})
	})

	// Rows that are found by the number of the line.
	l.c.instrs(func(ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok || !isContainer(ci.Common()) || len(ci.Common().Args) < 2 {
			return
		}

		b, ok := ci.Common().Args[1].Type().Underlying().(*types.Basic)
		if mi, isMI := ci.Common().Args[1].(*ssa.MakeInterface); isMI {
			b, ok = mi.X.Type().Underlying().(*types.Basic)
		}

		if !ok || b.Kind() != types.Int64 {
			return
		}

		why := ""
		if key := ci.Common().Args[1]; !l.c.ownKey(key) && !l.c.isSerial(ins) && !l.c.claimed(ci) {
			why = "the number of the line"
		}

		list = append(list, site{FnName(ins.Parent()) + ": " + shortCall(ci.Common()), l.p.InstrPos(ins), why})
	})

	sort.Slice(list, func(i, j int) bool { return list[i].pos < list[j].pos })

	for _, s := range list {
		if s.msg != "" {
			r.Fail("P03.own", s.construct, s.pos, "row can belong to another line, it is shared by "+s.msg, nil)
		} else {
			r.OK("P03.own", s.construct, s.pos)
		}
	}
}

// claimed tells a call that takes the row that is expected next.
func (c *Conc) claimed(ci ssa.CallInstruction) bool {
	call, ok := ci.(*ssa.Call)

	return ok && c.isClaim(call)
}
