package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bterm is a symbolic number: zero, an integer value, or a length, of a value or of a field that is reached from the value.
type bterm struct {
	root ssa.Value
	path string
	fld  *types.Var // last field of the path
	len  bool
}

type bfact struct {
	x, y bterm
	k    int64 // x - y <= k
}

// Bounds proves that numbers are within bounds at a place of a program, from conditions that dominate the place.
//
// It is demand driven: a-b <= c follows from a condition x-y <= k if the rest follows; values of phis are proved for each edge,
// assuming what is proved; parameters are proved for arguments of all calls, fields for all stored values.
type Bounds struct {
	p     *Prog
	facts map[*ssa.BasicBlock][]bfact
	loads map[loadPoint][]*ssa.UnOp
	busy  map[string]int64
	steps int
	valid map[*types.Var]int64
}

func newBounds(p *Prog) *Bounds {
	return &Bounds{p: p, facts: map[*ssa.BasicBlock][]bfact{}, loads: map[loadPoint][]*ssa.UnOp{}, busy: map[string]int64{}}
}

// num is term + offset of an integer value.
func (q *Bounds) num(v ssa.Value) (bterm, int64) {
	switch i := v.(type) {
	case nil:
		return bterm{}, 0
	case *ssa.Const:
		if i.Value != nil && i.Value.Kind() == constant.Int {
			return bterm{}, i.Int64()
		}

		return bterm{}, 0
	case *ssa.Convert:
		if isInteger(i.X.Type()) {
			return q.num(i.X)
		}
	case *ssa.ChangeType:
		return q.num(i.X)
	case *ssa.BinOp:
		x, kx := q.num(i.X)
		y, ky := q.num(i.Y)

		if i.Op == token.ADD && y == (bterm{}) {
			return x, kx + ky
		}

		if i.Op == token.ADD && x == (bterm{}) {
			return y, kx + ky
		}

		if i.Op == token.SUB && y == (bterm{}) {
			return x, kx - ky
		}
	case *ssa.Call:
		if CallName(&i.Call) == "builtin:len" {
			return q.length(i.Call.Args[0])
		}
	}

	return q.value(v), 0
}

// value is a term with the canonical place a value is read from.
func (q *Bounds) value(v ssa.Value) bterm {
	switch i := v.(type) {
	case *ssa.ChangeType:
		return q.value(i.X)
	case *ssa.Field:
		b := q.value(i.X)
		f := fieldOfValue(i)

		if f != nil {
			return bterm{root: b.root, path: b.path + "." + f.Name(), fld: f}
		}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			break
		}

		if t, ok := q.place(i.X, i.Parent()); ok {
			return t
		}

		return bterm{root: q.earlier(i)}
	}

	return bterm{root: v}
}

// earlier is the first of loads that certainly have the same value.
func (q *Bounds) earlier(l *ssa.UnOp) ssa.Value {
	res := l
	b := l.Block()
	k := len(b.Instrs)

	for i, ins := range b.Instrs {
		if ins == ssa.Instruction(l) {
			k = i
		}
	}

	for n := 0; n < 20; n++ {
		for k--; k >= 0; k-- {
			switch i := b.Instrs[k].(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.RunDefers, *ssa.Select:
				return q.same(res, b, k)
			case ssa.CallInstruction:
				c := i.Common().StaticCallee()
				if _, ok := i.Common().Value.(*ssa.Builtin); !ok && (c == nil || q.p.InRepo(c)) {
					return q.same(res, b, k)
				}
			case *ssa.UnOp:
				if i.Op == token.MUL && sameAddr(i.X, l.X) {
					res = i
				}
			}
		}

		switch {
		case len(b.Preds) == 1:
			b = b.Preds[0]
		case b.Idom() != nil && q.untouched(b):
			b = b.Idom()
		default:
			return q.same(res, b, 0)
		}

		k = len(b.Instrs)
	}

	return q.same(res, b, k)
}

// loadPoint is where a value of an address was last changed at the latest.
type loadPoint struct {
	b *ssa.BasicBlock
	k int
}

// same is one load of all that have the same value since a point.
func (q *Bounds) same(l *ssa.UnOp, b *ssa.BasicBlock, k int) ssa.Value {
	pt := loadPoint{b, k}

	for _, o := range q.loads[pt] {
		if sameAddr(o.X, l.X) {
			return o
		}
	}

	q.loads[pt] = append(q.loads[pt], l)

	return l
}

// untouched is true if nothing is written between the end of the dominator of a block and the block.
func (q *Bounds) untouched(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b.Idom(): true}
	work := append([]*ssa.BasicBlock(nil), b.Preds...)

	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]

		if seen[c] {
			continue
		}

		seen[c] = true

		for _, ins := range c.Instrs {
			switch i := ins.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.RunDefers, *ssa.Select:
				return false
			case ssa.CallInstruction:
				f := i.Common().StaticCallee()
				if _, ok := i.Common().Value.(*ssa.Builtin); !ok && (f == nil || q.p.InRepo(f)) {
					return false
				}
			}
		}

		work = append(work, c.Preds...)
	}

	return true
}

func sameAddr(x, y ssa.Value) bool {
	if x == y {
		return true
	}

	switch a := x.(type) {
	case *ssa.FieldAddr:
		b, ok := y.(*ssa.FieldAddr)

		return ok && a.Field == b.Field && sameAddr(a.X, b.X)
	case *ssa.UnOp:
		b, ok := y.(*ssa.UnOp)

		return ok && a.Op == token.MUL && b.Op == token.MUL && sameAddr(a.X, b.X)
	}

	return false
}

// place is a variable or a field that does not change in the function.
func (q *Bounds) place(addr ssa.Value, fn *ssa.Function) (bterm, bool) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		f := fieldVar(a)
		if f == nil {
			return bterm{}, false
		}

		b, ok := q.place(a.X, fn)
		if !ok {
			b = q.value(a.X)
			b.path += "*"
		}

		if q.changes(fn, f) {
			return bterm{}, false
		}

		return bterm{root: b.root, path: b.path + "." + f.Name(), fld: f}, true
	case *ssa.Alloc:
		n := 0

		for _, ref := range *a.Referrers() {
			switch i := ref.(type) {
			case *ssa.Store:
				if i.Addr == ssa.Value(a) {
					n++
				}
			case *ssa.MakeClosure:
				for k, b := range i.Bindings {
					if b == ssa.Value(a) && storesTo(i.Fn.(*ssa.Function), i.Fn.(*ssa.Function).FreeVars[k]) {
						n++
					}
				}
			}
		}

		return bterm{root: a, path: "&"}, n <= 1
	case *ssa.FreeVar:
		b := q.p.binding(a)
		if b == nil {
			return bterm{}, false
		}

		if _, ok := b.(*ssa.Alloc); ok {
			return q.place(b, fn)
		}
	}

	return bterm{}, false
}

func storesTo(fn *ssa.Function, v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == v {
			return true
		}

		if mc, ok := ref.(*ssa.MakeClosure); ok {
			for k, b := range mc.Bindings {
				if b == v && storesTo(mc.Fn.(*ssa.Function), mc.Fn.(*ssa.Function).FreeVars[k]) {
					return true
				}
			}
		}
	}

	return false
}

// changes tells that a field is assigned while the function runs, except for objects that are created there.
func (q *Bounds) changes(fn *ssa.Function, f *types.Var) bool {
	return q.p.reachesFn(fn, func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok || fieldVar(s.Addr) != f {
					continue
				}

				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if al, ok := fa.X.(*ssa.Alloc); ok && (al.Comment == "complit" || strings.HasPrefix(al.Comment, "new")) {
						continue
					}
				}

				return true
			}
		}

		return false
	})
}

// length is term + offset of a length.
func (q *Bounds) length(v ssa.Value) (bterm, int64) {
	switch i := v.(type) {
	case *ssa.Const:
		if s, ok := ssaText(i); ok {
			return bterm{}, int64(len(s))
		}

		return bterm{}, 0
	case *ssa.Convert:
		if !isInteger(i.X.Type()) {
			return q.length(i.X)
		}
	case *ssa.ChangeType:
		return q.length(i.X)
	case *ssa.MakeSlice:
		return q.num(i.Len)
	case *ssa.Slice:
		if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			if ar, ok := pt.Elem().Underlying().(*types.Array); ok && i.Low == nil && i.High == nil {
				return bterm{}, ar.Len()
			}
		}

		lt, lk := q.num(i.Low)
		if lt != (bterm{}) {
			break
		}

		if i.High != nil {
			t, k := q.num(i.High)

			return t, k - lk
		}

		t, k := q.length(i.X)

		return t, k - lk
	case *ssa.Call:
		if CallName(&i.Call) == "builtin:append" && len(i.Call.Args) == 2 {
			if t, k := q.length(i.Call.Args[1]); t == (bterm{}) {
				b, kb := q.length(i.Call.Args[0])

				return b, k + kb
			}
		}
	case *ssa.BinOp:
		if i.Op == token.ADD {
			if t, k := q.length(i.Y); t == (bterm{}) {
				b, kb := q.length(i.X)

				return b, k + kb
			}

			if t, k := q.length(i.X); t == (bterm{}) {
				b, kb := q.length(i.Y)

				return b, k + kb
			}
		}
	}

	t := q.value(v)
	t.len = true

	return t, 0
}

// conditions are facts about the branch.
func (q *Bounds) condition(c ssa.Value, val bool) []bfact {
	switch i := c.(type) {
	case *ssa.UnOp:
		if i.Op == token.NOT {
			return q.condition(i.X, !val)
		}
	case *ssa.Call:
		if !val {
			return nil
		}

		switch CallName(&i.Call) {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
			x, kx := q.length(i.Call.Args[0])
			y, ky := q.length(i.Call.Args[1])

			return []bfact{{y, x, kx - ky}}
		}
	case *ssa.Phi:
		// a && b, a || b.
		return q.boolPhi(i, val)
	case *ssa.BinOp:
		if isString(i.X.Type()) || isNilConst(i.Y) {
			return q.textCondition(i, val)
		}

		if !isInteger(i.X.Type()) {
			return nil
		}

		op := i.Op
		if !val {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}

		x, kx := q.num(i.X)
		y, ky := q.num(i.Y)
		d := ky - kx

		switch op {
		case token.LSS:
			return []bfact{{x, y, d - 1}}
		case token.LEQ:
			return []bfact{{x, y, d}}
		case token.GTR:
			return []bfact{{y, x, -d - 1}}
		case token.GEQ:
			return []bfact{{y, x, -d}}
		case token.EQL:
			return []bfact{{x, y, d}, {y, x, -d}}
		case token.NEQ:
			// Length is not the least possible.
			if y == (bterm{}) && x.len && d == 0 {
				return []bfact{{y, x, -1}}
			}

			if x == (bterm{}) && y.len && d == 0 {
				return []bfact{{x, y, -1}}
			}
		}
	}

	return nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)

	return ok && c.Value == nil
}

func (q *Bounds) boolPhi(i *ssa.Phi, val bool) []bfact {
	var res []bfact

	n := 0

	for _, pr := range i.Block().Preds {
		if i.Block().Dominates(pr) {
			return nil
		}
	}

	for k, e := range i.Edges {
		if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != val {
			continue
		}

		n++

		if _, ok := e.(*ssa.Const); !ok {
			res = append(res, q.condition(e, val)...)
		}

		res = append(res, q.at(i.Block().Preds[k])...)
	}

	if n != 1 {
		return nil
	}

	return res
}

func (q *Bounds) textCondition(i *ssa.BinOp, val bool) []bfact {
	eq := i.Op == token.EQL

	if i.Op != token.EQL && i.Op != token.NEQ {
		return nil
	}

	if isNilConst(i.Y) {
		// Matches of a regular expression include the whole match.
		if c, ok := i.X.(*ssa.Call); ok && eq != val && strings.HasPrefix(CallName(&c.Call), "(*regexp.Regexp).Find") && strings.Contains(CallName(&c.Call), "Submatch") {
			t, k := q.length(i.X)

			return []bfact{{bterm{}, t, k - 1}}
		}

		return nil
	}

	for _, o := range [][2]ssa.Value{{i.X, i.Y}, {i.Y, i.X}} {
		s, ok := ssaText(o[1])
		if !ok {
			continue
		}

		x, kx := q.length(o[0])

		if eq == val {
			n := int64(len(s))

			return []bfact{{x, bterm{}, n - kx}, {bterm{}, x, kx - n}}
		}

		if s == "" {
			return []bfact{{bterm{}, x, kx - 1}}
		}
	}

	return nil
}

// at are facts that hold when a block is executed.
func (q *Bounds) at(b *ssa.BasicBlock) []bfact {
	if f, ok := q.facts[b]; ok {
		return f
	}

	q.facts[b] = nil

	var res []bfact

	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}

		p := d.Preds[0]

		if c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			res = append(res, q.condition(c.Cond, p.Succs[0] == d)...)
		}
	}

	q.facts[b] = res

	return res
}

func (t bterm) key() string {
	if t.root == nil {
		return "0"
	}

	s := t.root.Name() + "@" + sprint(t.root.Pos()) + t.path
	if f := t.root.Parent(); f != nil {
		s = f.String() + "/" + s
	}

	if t.len {
		return "len " + s
	}

	return s
}

// le proves that a - b <= c in the block.
func (q *Bounds) le(a, b bterm, c int64, at *ssa.BasicBlock, depth int) bool {
	if a == b {
		return c >= 0
	}

	if a == (bterm{}) && b.len && c >= 0 {
		return true
	}

	q.steps++

	if depth > 12 || q.steps > 200000 {
		return false
	}

	key := a.key() + " " + b.key() + " " + sprint(at.Index, at.Parent().String())

	if old, ok := q.busy[key]; ok {
		// The same is being proved for the previous iteration of a loop.
		if isPhi(a) || isPhi(b) {
			return c >= old
		}

		return false
	}

	q.busy[key] = c
	defer delete(q.busy, key)

	for _, f := range q.at(at) {
		if f.x == a && (f.y == b && c >= f.k || f.y != a && q.le(f.y, b, c-f.k, at, depth+2)) {
			return true
		}

		if f.y == b && f.x != a && f.x != b && q.le(a, f.x, c-f.k, at, depth+2) {
			return true
		}
	}

	return q.expand(a, b, c, at, depth+1, true) || q.expand(b, a, c, at, depth+1, false)
}

func isPhi(t bterm) bool {
	_, ok := t.root.(*ssa.Phi)

	return ok && t.path == ""
}

func (q *Bounds) of(v ssa.Value, isLen bool) (bterm, int64) {
	if isLen {
		return q.length(v)
	}

	return q.num(v)
}

// expand proves the relation by definition of term a that is on the left or on the right.
func (q *Bounds) expand(a, b bterm, c int64, at *ssa.BasicBlock, depth int, left bool) bool {
	rel := func(x bterm, k int64, at *ssa.BasicBlock) bool {
		// x + k is what a is.
		if left {
			return q.le(x, b, c-k, at, depth)
		}

		return q.le(b, x, c+k, at, depth)
	}

	if a.path != "" {
		return q.expandPlace(a, b, c, at, depth, left)
	}

	switch i := a.root.(type) {
	case *ssa.Phi:
		for k, e := range i.Edges {
			t, off := q.of(e, a.len)
			if !rel(t, off, i.Block().Preds[k]) {
				return false
			}
		}

		return true
	case *ssa.Call:
		return q.expandCall(i, a, b, c, at, depth, left)
	case *ssa.BinOp:
		if a.len && i.Op == token.ADD && !left {
			// A text is not shorter than its parts.
			x, kx := q.length(i.X)
			y, ky := q.length(i.Y)

			return rel(x, kx, at) || rel(y, ky, at)
		}

		if !a.len && left && i.Op == token.SUB {
			// x - y <= x - min(y).
			y, ky := q.num(i.Y)
			if q.le(bterm{}, y, ky, at, depth) {
				x, kx := q.num(i.X)

				return rel(x, kx, at)
			}
		}

		if !a.len && !left && b == (bterm{}) && i.Op == token.SUB {
			x, kx := q.num(i.X)
			y, ky := q.num(i.Y)

			return q.le(y, x, c+kx-ky, at, depth)
		}

		if !a.len && i.Op == token.REM {
			y, ky := q.num(i.Y)

			if left {
				return rel(y, ky-1, at)
			}

			x, kx := q.num(i.X)

			return b == (bterm{}) && c >= 0 && q.le(bterm{}, x, kx, at, depth)
		}

		if !a.len && i.Op == token.MUL && !left && b == (bterm{}) && c >= 0 {
			x, kx := q.num(i.X)
			y, ky := q.num(i.Y)

			return q.le(bterm{}, x, kx, at, depth) && q.le(bterm{}, y, ky, at, depth)
		}
	case *ssa.Slice:
		if a.len && left {
			t, k := q.length(i.X)

			return rel(t, k, at)
		}
	case *ssa.Parameter:
		return q.expandParam(i, a, b, c, depth, left)
	case *ssa.FreeVar:
		if v := q.p.binding(i); v != nil && !a.len {
			t, k := q.num(v)

			return rel(t, k, at)
		}
	case *ssa.Extract:
		if call, ok := i.Tuple.(*ssa.Call); ok && a.len {
			switch CallName(&call.Call) {
			case "strings.Cut", "strings.CutPrefix", "strings.CutSuffix", "path.Split":
				if left {
					t, k := q.length(call.Call.Args[0])

					return rel(t, k, at)
				}
			}
		}
	}

	return false
}

func (q *Bounds) expandCall(i *ssa.Call, a, b bterm, c int64, at *ssa.BasicBlock, depth int, left bool) bool {
	args := i.Call.Args
	name := CallName(&i.Call)

	rel := func(x bterm, k int64) bool {
		if left {
			return q.le(x, b, c-k, at, depth)
		}

		return q.le(b, x, c+k, at, depth)
	}

	if !a.len {
		switch name {
		case "builtin:max", "builtin:min":
			all := (name == "builtin:max") == left

			for _, v := range args {
				t, k := q.num(v)
				if rel(t, k) != all {
					return !all
				}
			}

			return all
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny",
			"bytes.Index", "bytes.LastIndex", "bytes.IndexByte", "bytes.LastIndexByte", "bytes.IndexRune", "bytes.IndexAny":
			if left {
				t, k := q.length(args[0])

				return rel(t, k) // For an empty separator, the length is possible.
			}

			return b == (bterm{}) && c >= 1
		case "builtin:copy", "builtin:cap":
			return !left && b == (bterm{}) && c >= 0
		case "runtime.NumCPU", "runtime.GOMAXPROCS":
			return !left && b == (bterm{}) && c >= -1
		}

		return false
	}

	switch name {
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimPrefix",
		"bytes.TrimSpace", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimSuffix", "bytes.TrimPrefix", "path.Ext", "path.Base", "filepath.Ext", "path/filepath.Ext":
		if left {
			t, k := q.length(args[0])

			return rel(t, k)
		}
	case "strings.Split", "strings.SplitAfter", "bytes.Split":
		if s, ok := ssaText(args[1]); ok && s != "" && !left {
			return b == (bterm{}) && c >= -1
		}
	case "builtin:append":
		if !left {
			t, k := q.length(args[0])

			return rel(t, k)
		}
	}

	return false
}

// expandPlace proves the relation for all values that are stored into a variable or a field.
func (q *Bounds) expandPlace(a, b bterm, c int64, at *ssa.BasicBlock, depth int, left bool) bool {
	stores := func(v ssa.Value, at *ssa.BasicBlock) bool {
		t, k := q.of(v, a.len)

		if left {
			return q.le(t, b, c-k, at, depth)
		}

		return q.le(b, t, c+k, at, depth)
	}

	if al, ok := a.root.(*ssa.Alloc); ok && a.path == "&" {
		for _, ref := range *al.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
				return stores(s.Val, s.Block())
			}
		}

		return false
	}

	if b == (bterm{}) && a.fld != nil && a.fld.Pkg() == q.p.Lib.Pkg && !fieldOfOptions(q.p, a.fld) && !q.escapes(a.fld) {
		if c < 0 && !q.alwaysSet(a.fld) {
			return q.expandRoot(a, b, c, depth, left)
		}

		ok := len(q.p.fieldSt[a.fld]) > 0

		for _, s := range q.p.fieldSt[a.fld] {
			ok = ok && stores(s.Val, s.Block())
		}

		if ok {
			return true
		}
	}

	return q.expandRoot(a, b, c, depth, left)
}

func (q *Bounds) expandRoot(a, b bterm, c int64, depth int, left bool) bool {
	if a.fld != nil && !left && !a.len && b == (bterm{}) {
		if k, ok := q.validated(a.fld); ok && -k <= c {
			return true
		}
	}

	if p, ok := a.root.(*ssa.Parameter); ok {
		return q.expandParam(p, a, b, c, depth, left)
	}

	return false
}

// validated is the least value of an option that is not rejected: a comparison with a constant, for the other values of which an error is returned.
func (q *Bounds) validated(f *types.Var) (int64, bool) {
	if !fieldOfOptions(q.p, f) {
		return 0, false
	}

	if q.valid == nil {
		q.valid = map[*types.Var]int64{}
		q.findValidated()
	}

	k, ok := q.valid[f]

	return k, ok
}

func (q *Bounds) findValidated() {
	for _, fn := range q.p.Funcs {
		for _, b := range fn.Blocks {
			c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}

			cmp, ok := c.Cond.(*ssa.BinOp)
			if !ok || !isInteger(cmp.X.Type()) {
				continue
			}

			for n, s := range b.Succs {
				if !failing(s) {
					continue
				}

				for _, fact := range q.condition(cmp, n == 1) {
					// 0 - y <= k
					if fact.x != (bterm{}) {
						continue
					}

					for _, f := range q.optionsIn(cmp) {
						if old, ok := q.valid[f]; !ok || -fact.k > old {
							q.valid[f] = -fact.k
						}
					}
				}
			}
		}
	}
}

// optionsIn are options that are compared, directly or as elements of a table.
func (q *Bounds) optionsIn(cmp *ssa.BinOp) []*types.Var {
	var res []*types.Var

	for _, v := range []ssa.Value{cmp.X, cmp.Y} {
		seen := map[ssa.Value]bool{}

		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] || len(seen) > 200 {
				return
			}

			seen[v] = true

			if f := loadedField(v); f != nil {
				if fieldOfOptions(q.p, f) {
					res = append(res, f)

					return
				}

				for _, s := range q.p.fieldSt[f] {
					walk(s.Val)
				}

				return
			}

			switch i := v.(type) {
			case *ssa.Phi:
				for _, e := range i.Edges {
					walk(e)
				}
			case *ssa.Convert:
				walk(i.X)
			case *ssa.ChangeType:
				walk(i.X)
			case *ssa.Extract:
				if n, ok := i.Tuple.(*ssa.Next); ok {
					if r, ok := n.Iter.(*ssa.Range); ok {
						walkElements(r.X, walk)
					}
				}
			case *ssa.UnOp:
				if i.Op != token.MUL {
					return
				}

				switch a := i.X.(type) {
				case *ssa.IndexAddr:
					walkElements(a.X, walk)
				case *ssa.Alloc:
					for _, ref := range *a.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
							walk(s.Val)
						}
					}
				}
			case *ssa.Parameter:
				for _, a := range q.p.argsOf(i) {
					walk(a)
				}
			}
		}

		walk(v)
	}

	return res
}

// walkElements visits values that are stored into a list or a map.
func walkElements(list ssa.Value, walk func(ssa.Value)) {
	if s, ok := list.(*ssa.Slice); ok {
		list = s.X
	}

	if list.Referrers() == nil {
		return
	}

	for _, ref := range *list.Referrers() {
		switch i := ref.(type) {
		case *ssa.MapUpdate:
			walk(i.Value)
		case *ssa.IndexAddr:
			for _, r := range *i.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(i) {
					walk(s.Val)
				}
			}
		}
	}
}

// failing tells that the function returns an error from the block, without other branches.
func failing(b *ssa.BasicBlock) bool {
	for n := 0; n < 10; n++ {
		last := b.Instrs[len(b.Instrs)-1]

		if r, ok := last.(*ssa.Return); ok {
			if len(r.Results) == 0 {
				return false
			}

			e := r.Results[len(r.Results)-1]

			return IsError(e.Type()) && !isNilConst(e)
		}

		if len(b.Succs) != 1 {
			return false
		}

		b = b.Succs[0]
	}

	return false
}

// alwaysSet tells that a field is assigned for every object that is made.
func (q *Bounds) alwaysSet(f *types.Var) bool {
	n := 0

	for _, fn := range q.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				al, ok := ins.(*ssa.Alloc)
				if !ok {
					continue
				}

				s, ok := deref(al.Type()).Underlying().(*types.Struct)
				if !ok {
					continue
				}

				has := false
				for i := 0; i < s.NumFields(); i++ {
					has = has || s.Field(i) == f
				}

				if !has {
					continue
				}

				set := false

				for _, ref := range *al.Referrers() {
					switch i := ref.(type) {
					case *ssa.FieldAddr:
						if fieldVar(i) != f {
							continue
						}

						for _, r := range *i.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
								set = true
							}
						}
					case *ssa.Store:
						// Copy of an object.
						set = set || i.Addr == ssa.Value(al)
					}
				}

				if !set {
					return false
				}

				n++
			}
		}
	}

	return n > 0
}

// fieldOfOptions tells a field that is set from outside.
func fieldOfOptions(p *Prog, f *types.Var) bool {
	for _, n := range []string{"Flags", "Config"} {
		if tp := p.Lib.Type(n); tp != nil {
			if s, ok := tp.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i) == f {
						return true
					}
				}
			}
		}
	}

	return false
}

// escapes tells that address of a field is taken.
func (q *Bounds) escapes(f *types.Var) bool {
	for _, u := range fieldUses(q.p, f) {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok {
			continue
		}

		for _, ref := range *fa.Referrers() {
			switch i := ref.(type) {
			case *ssa.UnOp, *ssa.Store, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
			case ssa.CallInstruction:
				if n := CallName(i.Common()); !strings.HasPrefix(n, "sync/atomic.Load") {
					return true
				}
			default:
				return true
			}
		}
	}

	return false
}

// expandParam proves the relation at all calls.
func (q *Bounds) expandParam(prm *ssa.Parameter, a, b bterm, c int64, depth int, left bool) bool {
	fn := prm.Parent()
	calls := 0

	subst := func(t bterm, cc *ssa.CallCommon) (bterm, int64, bool) {
		p, ok := t.root.(*ssa.Parameter)
		if t.root == nil {
			return t, 0, true
		}

		if !ok || p.Parent() != fn {
			return t, 0, false
		}

		for k, x := range fn.Params {
			if x != p || k >= len(cc.Args) {
				continue
			}

			if t.path == "" {
				r, off := q.of(cc.Args[k], t.len)

				return r, off, true
			}

			r := q.value(cc.Args[k])

			if al, ok := r.root.(*ssa.Alloc); ok && r.path == "" {
				// Address of a local variable.
				return bterm{root: al, path: strings.Replace(t.path, "*", "&", 1), fld: t.fld, len: t.len}, 0, true
			}

			return bterm{root: r.root, path: r.path + t.path, fld: t.fld, len: t.len}, 0, true
		}

		return t, 0, false
	}

	if q.p.addrTaken[fn] {
		return false
	}

	for _, ci := range q.p.callers[fn] {
		if ci.Parent().Synthetic != "" {
			continue
		}

		calls++

		x, kx, ok1 := subst(a, ci.Common())
		y, ky, ok2 := subst(b, ci.Common())

		if !ok1 || !ok2 {
			return false
		}

		var ok bool

		if left {
			ok = q.le(x, y, c-kx+ky, ci.Block(), depth+1)
		} else {
			ok = q.le(y, x, c-ky+kx, ci.Block(), depth+1)
		}

		if !ok {
			return false
		}
	}

	return calls > 0
}

// nonNegative proves that a number is not negative.
func (q *Bounds) nonNegative(v ssa.Value, at *ssa.BasicBlock) bool {
	t, k := q.num(v)
	q.steps = 0

	return q.le(bterm{}, t, k, at, 0)
}

// below proves that x + d <= length.
func (q *Bounds) within(x ssa.Value, d int64, list ssa.Value, at *ssa.BasicBlock) bool {
	t, k := q.num(x)
	l, kl := q.length(list)
	q.steps = 0

	return q.le(t, l, kl-k-d, at, 0)
}

func (q *Bounds) notGreater(x, y ssa.Value, at *ssa.BasicBlock) bool {
	t, k := q.num(x)
	u, ku := q.num(y)
	q.steps = 0

	return q.le(t, u, ku-k, at, 0)
}
