package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P07"] = p07 }

// p07 decides where texts of SQL statements come from.
func p07(p *Prog, r *Report) {
	r.Rule("P07.exec", "text of SQL executed by the database is made only of constants, quoted identifiers and numbers", 2)
	r.Rule("P07.dump", "what is written to PostgreSQL dump is made only of constants, quoted identifiers, numbers and CSV encoded rows", 1)
	r.Rule("P07.copy", "rows of PostgreSQL dump are encoded with the CSV dialect that COPY statements declare", 2)

	t := &sqlText{p: p, memo: map[sqlKey]string{}}

	for _, fn := range p.Funcs {
		if fn.Synthetic != "" || fn.Pkg == nil && fn.Parent() == nil {
			continue
		}

		for _, ci := range callsOf(fn) {
			q := sqlQuery(ci.Common())
			if q == nil {
				continue
			}

			r.Saw(FnName(fn))

			why := t.bad(q, nil)
			r.Check(why == "", "P07.exec", FnName(fn)+" "+shortCall(ci.Common()), p.InstrPos(ci), "SQL text can include "+why)
		}
	}

	p07Dump(p, r, t)
}

// sqlQuery is the text of a statement that is passed to database/sql.
func sqlQuery(cc *ssa.CallCommon) ssa.Value {
	var (
		name string
		sig  *types.Signature
		pkg  *types.Package
		args = cc.Args
	)

	if cc.IsInvoke() {
		name, sig, pkg = cc.Method.Name(), cc.Method.Type().(*types.Signature), cc.Method.Pkg()
	} else if f := cc.StaticCallee(); f != nil && f.Object() != nil {
		name, sig, pkg = f.Name(), f.Signature, f.Object().Pkg()

		if sig.Recv() != nil && len(args) > 0 {
			args = args[1:]
		}
	} else {
		return nil
	}

	if pkg == nil || !(pkg.Path() == "database/sql" || pkg.Path() == "database/sql/driver") && !cc.IsInvoke() {
		return nil
	}

	ok := false

	for _, m := range []string{"Exec", "Query", "QueryRow", "Prepare"} {
		ok = ok || name == m || name == m+"Context"
	}

	if !ok {
		return nil
	}

	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		if isString(sig.Params().At(i).Type()) {
			return args[i]
		}
	}

	return nil
}

type sqlCtx struct {
	call  ssa.CallInstruction
	fn    *ssa.Function
	up    *sqlCtx
	depth int
}

type sqlKey struct {
	v   ssa.Value
	ctx *sqlCtx
}

// sqlText decides whether a text is made only of parts that are allowed in SQL.
type sqlText struct {
	p    *Prog
	memo map[sqlKey]string // Empty for values that are fine or being decided.
	ctxs map[sqlKey]*sqlCtx
}

func (t *sqlText) push(ctx *sqlCtx, ci ssa.CallInstruction, f *ssa.Function) *sqlCtx {
	depth := 1
	if ctx != nil {
		depth = ctx.depth + 1
	}

	for c := ctx; c != nil; c = c.up {
		if c.fn == f {
			return nil // Recursion, arguments of all calls are considered.
		}
	}

	if depth > 6 {
		return nil
	}

	if t.ctxs == nil {
		t.ctxs = map[sqlKey]*sqlCtx{}
	}

	k := sqlKey{v: ci.Value(), ctx: ctx}
	if c := t.ctxs[k]; c != nil && c.fn == f {
		return c
	}

	c := &sqlCtx{call: ci, fn: f, up: ctx, depth: depth}
	t.ctxs[k] = c

	return c
}

func (t *sqlText) describe(v ssa.Value) string {
	pos := v.Pos()
	if i, ok := v.(ssa.Instruction); ok && pos == token.NoPos {
		return describeValue(v) + " (" + t.p.InstrPos(i) + ")"
	}

	return describeValue(v) + " (" + t.p.Pos(pos) + ")"
}

func describeValue(v ssa.Value) string {
	switch i := v.(type) {
	case *ssa.UnOp:
		if f := fieldVar(i.X); f != nil {
			return "field " + f.Name()
		}
	case *ssa.Field:
		if f := fieldOfValue(i); f != nil {
			return "field " + f.Name()
		}
	case *ssa.Call:
		return "result of " + shortCall(&i.Call)
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			return "result of " + shortCall(&c.Call)
		}
	case *ssa.Parameter:
		return "parameter " + i.Name() + " of " + FnName(i.Parent())
	}

	return fmt.Sprintf("%s of %s", v.Name(), FnName(v.Parent()))
}

// bad is empty for texts that are fine.
func (t *sqlText) bad(v ssa.Value, ctx *sqlCtx) string {
	k := sqlKey{v, ctx}
	if r, ok := t.memo[k]; ok {
		return r
	}

	t.memo[k] = ""
	r := t.decide(v, ctx)
	t.memo[k] = r

	return r
}

func (t *sqlText) all(vs []ssa.Value, ctx *sqlCtx) string {
	for _, v := range vs {
		if why := t.bad(v, ctx); why != "" {
			return why
		}
	}

	return ""
}

func (t *sqlText) decide(v ssa.Value, ctx *sqlCtx) string {
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
		return ""
	}

	switch i := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.ChangeType:
		return t.bad(i.X, ctx)
	case *ssa.MakeInterface:
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 && hasMethods(i.X.Type()) {
			return t.describe(v)
		}

		return t.bad(i.X, ctx)
	case *ssa.ChangeInterface:
		return t.bad(i.X, ctx)
	case *ssa.TypeAssert:
		return t.bad(i.X, ctx)
	case *ssa.Convert:
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			return t.describe(v)
		}

		return t.bad(i.X, ctx)
	case *ssa.Phi:
		return t.all(i.Edges, ctx)
	case *ssa.BinOp:
		if i.Op != token.ADD {
			return t.describe(v)
		}

		return t.concat(i, ctx)
	case *ssa.Slice:
		return t.slice(i, ctx)
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return t.describe(v)
		}

		return t.load(i, i.X, ctx)
	case *ssa.Field:
		if f := fieldOfValue(i); f != nil {
			return t.field(i, f)
		}
	case *ssa.Parameter:
		return t.param(i, ctx)
	case *ssa.MakeSlice:
		return t.elements(i.Parent(), i.Type(), nil, ctx)
	case *ssa.Alloc:
		if p, ok := i.Type().Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Array); ok {
				return t.elements(i.Parent(), nil, i, ctx)
			}
		}
	case *ssa.FreeVar:
		if b := t.p.binding(i); b != nil {
			return t.bad(b, nil)
		}
	case *ssa.Lookup:
		return t.lookup(i, i)
	case *ssa.Extract:
		switch c := i.Tuple.(type) {
		case *ssa.Lookup:
			return t.lookup(i, c)
		case *ssa.Call:
			return t.call(i, c, i.Index, ctx)
		}
	case *ssa.Call:
		return t.call(i, i, 0, ctx)
	}

	return t.describe(v)
}

// elements are texts stored into a list: into that array, or into any list of the type in the function.
func (t *sqlText) elements(fn *ssa.Function, tp types.Type, arr ssa.Value, ctx *sqlCtx) string {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}

			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || arr != nil && ia.X != arr || arr == nil && !types.Identical(ia.X.Type(), tp) {
				continue
			}

			if why := t.bad(s.Val, ctx); why != "" {
				return why
			}
		}
	}

	return ""
}

func hasMethods(tp types.Type) bool {
	n, ok := tp.(*types.Named)

	return ok && n.NumMethods() > 0
}

// leaves of a concatenation.
func leaves(v ssa.Value) []ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return append(leaves(b.X), leaves(b.Y)...)
	}

	return []ssa.Value{v}
}

func ssaText(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}

	return constant.StringVal(c.Value), true
}

func (t *sqlText) concat(b *ssa.BinOp, ctx *sqlCtx) string {
	l := leaves(b)

	for k, v := range l {
		if doublesQuotes(v) {
			before, after := "", ""
			if k > 0 {
				before, _ = ssaText(l[k-1])
			}

			if k+1 < len(l) {
				after, _ = ssaText(l[k+1])
			}

			if strings.HasSuffix(before, `"`) && strings.HasPrefix(after, `"`) {
				continue
			}
		}

		if why := t.bad(v, ctx); why != "" {
			return why
		}
	}

	return ""
}

// doublesQuotes tells that quotes of an identifier are doubled.
func doublesQuotes(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}

	isQuotes := func(a, b ssa.Value) bool {
		x, ok1 := ssaText(a)
		y, ok2 := ssaText(b)

		return ok1 && ok2 && x == `"` && y == `""`
	}

	a := c.Call.Args

	switch CallName(&c.Call) {
	case "strings.ReplaceAll":
		return isQuotes(a[1], a[2])
	case "strings.Replace":
		n, ok := a[3].(*ssa.Const)

		return ok && n.Int64() < 0 && isQuotes(a[1], a[2])
	case "(*strings.Replacer).Replace":
		os := []ssa.Value{a[0]}

		if f := fieldOfValue(a[0]); f != nil {
			os = nil
			for _, s := range curProg.fieldSt[f] {
				os = append(os, s.Val)
			}
		}

		for _, o := range os {
			for _, v := range curProg.Origins(o) {
				n, ok := v.(*ssa.Call)
				if !ok || CallName(&n.Call) != "strings.NewReplacer" {
					return false
				}

				el := variadic(n.Call.Args[0])
				if len(el) != 2 || !isQuotes(el[0], el[1]) {
					return false
				}
			}
		}

		return len(os) > 0
	}

	return false
}

// variadic are arguments of a variadic call.
func variadic(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}

	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}

	m := map[int64]ssa.Value{}

	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}

		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}

		for _, ref := range *ia.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				m[k.Int64()] = st.Val
			}
		}
	}

	var res []ssa.Value
	for k := int64(0); k < int64(len(m)); k++ {
		res = append(res, m[k])
	}

	return res
}

// slice drops only constant text from the end.
func (t *sqlText) slice(s *ssa.Slice, ctx *sqlCtx) string {
	if why := t.bad(s.X, ctx); why != "" {
		return why
	}

	if _, ok := s.X.Type().Underlying().(*types.Pointer); ok {
		return ""
	}

	low := s.Low == nil
	if c, ok := s.Low.(*ssa.Const); ok && c.Int64() == 0 {
		low = true
	}

	if low && s.High == nil {
		return ""
	}

	if b, ok := s.High.(*ssa.BinOp); ok && low && b.Op == token.SUB {
		if k, ok := b.Y.(*ssa.Const); ok && isLenOf(b.X, s.X) && t.constTail(s.X, k.Int64(), map[ssa.Value]bool{}) {
			return ""
		}
	}

	if c, ok := s.High.(*ssa.Const); ok && low && c.Int64() == 0 {
		return ""
	}

	return "a part of text that is cut at " + t.p.InstrPos(s)
}

func isLenOf(v, x ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || CallName(&c.Call) != "builtin:len" {
		return false
	}

	if c.Call.Args[0] == x {
		return true
	}

	a, ok1 := c.Call.Args[0].(*ssa.UnOp)
	b, ok2 := x.(*ssa.UnOp)

	return ok1 && ok2 && a.X == b.X
}

// constTail tells that last k characters of text come from constants without quotes.
func (t *sqlText) constTail(v ssa.Value, k int64, seen map[ssa.Value]bool) bool {
	if k <= 0 || seen[v] {
		return true
	}

	switch i := v.(type) {
	case *ssa.Const:
		s, ok := ssaText(i)

		return ok && int64(len(s)) >= k && !strings.ContainsAny(s[int64(len(s))-k:], "\"'`")
	case *ssa.BinOp:
		if s, ok := ssaText(i.Y); ok {
			if int64(len(s)) >= k {
				return t.constTail(i.Y, k, seen)
			}

			return t.constTail(i.Y, int64(len(s)), seen) && t.constTail(i.X, k-int64(len(s)), seen)
		}

		return i.Op == token.ADD && t.constTail(i.Y, k, seen)
	case *ssa.Call:
		if CallName(&i.Call) == "fmt.Sprintf" {
			f, ok := ssaText(i.Call.Args[0])
			if n := strings.LastIndex(f, "%"); ok && n >= 0 {
				f = f[min(n+2, len(f)):] // Verbs without flags.
			}

			return ok && int64(len(f)) >= k && !strings.ContainsAny(f, "\"'`%")
		}

		ok := true
		seen[v] = true
		res := t.p.results(i, 0, func(e ssa.Value) { ok = ok && t.constTail(e, k, seen) })

		return res && ok
	case *ssa.Phi:
		seen[v] = true

		for _, e := range i.Edges {
			if !t.constTail(e, k, seen) {
				return false
			}
		}

		return true
	case *ssa.UnOp:
		if vs, ok := t.stored(i.X); ok && i.Op == token.MUL {
			seen[v] = true

			for _, e := range vs {
				if !t.constTail(e, k, seen) {
					return false
				}
			}

			return true
		}
	case *ssa.Parameter:
		vs := t.p.argsOf(i)
		if len(vs) == 0 {
			return false
		}

		seen[v] = true

		for _, e := range vs {
			if !t.constTail(e, k, seen) {
				return false
			}
		}

		return true
	}

	return false
}

// stored are values assigned to a variable or a field.
func (t *sqlText) stored(addr ssa.Value) ([]ssa.Value, bool) {
	var res []ssa.Value

	switch a := addr.(type) {
	case *ssa.Alloc:
		ok := true

		var uses func(v ssa.Value)
		uses = func(v ssa.Value) {
			for _, ref := range *v.Referrers() {
				switch i := ref.(type) {
				case *ssa.Store:
					if i.Addr == v {
						res = append(res, i.Val)
					} else {
						ok = false
					}
				case *ssa.MakeClosure:
					for k, b := range i.Bindings {
						if b == v {
							uses(i.Fn.(*ssa.Function).FreeVars[k])
						}
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr, *ssa.IndexAddr:
				case ssa.CallInstruction:
					// Assigned through a pointer parameter.
					f := i.Common().StaticCallee()
					if f == nil || !t.p.InRepo(f) || len(f.Blocks) == 0 {
						ok = false

						return
					}

					for k, arg := range i.Common().Args {
						if arg == v && k < len(f.Params) {
							uses(f.Params[k])
						}
					}
				default:
					ok = false
				}
			}
		}

		uses(a)

		return res, ok
	case *ssa.FreeVar:
		if b := t.p.binding(a); b != nil {
			return t.stored(b)
		}
	case *ssa.Global:
		for _, fn := range t.p.Funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						res = append(res, s.Val)
					}
				}
			}
		}

		return res, t.p.InRepoPkg(a.Pkg)
	case *ssa.FieldAddr:
		f := fieldVar(a)
		if f == nil || f.Pkg() == nil || f.Pkg() != t.p.Lib.Pkg {
			return nil, false
		}

		for _, s := range t.p.fieldSt[f] {
			res = append(res, s.Val)
		}

		return res, true
	case *ssa.Parameter:
		for _, arg := range t.p.argsOf(a) {
			vs, ok := t.stored(arg)
			if !ok {
				return nil, false
			}

			res = append(res, vs...)
		}

		return res, len(res) > 0
	}

	return nil, false
}

// InRepoPkg tells a package of the repository.
func (p *Prog) InRepoPkg(pkg *ssa.Package) bool { return pkg == p.Lib || pkg == p.Eq || pkg == p.Main }

func (t *sqlText) field(v ssa.Value, f *types.Var) string {
	if f.Pkg() != t.p.Lib.Pkg {
		return t.describe(v)
	}

	if len(t.p.fieldSt[f]) == 0 || f.Exported() && fieldOfConfig(t.p, f) {
		return t.describe(v)
	}

	for _, s := range t.p.fieldSt[f] {
		if why := t.bad(s.Val, nil); why != "" {
			return why
		}
	}

	return ""
}

// fieldOfConfig tells a field that is set by decoding or by a library caller.
func fieldOfConfig(p *Prog, f *types.Var) bool {
	for _, n := range []string{"Flags", "Config", "Processor", "Value"} {
		tp := p.Lib.Type(n)
		if tp == nil {
			continue
		}

		if s, ok := tp.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i) == f {
					return true
				}
			}
		}
	}

	return false
}

func (t *sqlText) load(v ssa.Value, addr ssa.Value, ctx *sqlCtx) string {
	if ia, ok := addr.(*ssa.IndexAddr); ok {
		return t.bad(ia.X, ctx)
	}

	if fa, ok := addr.(*ssa.FieldAddr); ok {
		if f := fieldVar(fa); f != nil {
			return t.field(v, f)
		}
	}

	vs, ok := t.stored(addr)
	if !ok {
		return t.describe(v)
	}

	_, local := addr.(*ssa.Alloc)

	for _, s := range vs {
		c := ctx
		if i, ok := s.(ssa.Instruction); !ok || !local || i.Parent() != v.Parent() {
			c = nil
		}

		if why := t.bad(s, c); why != "" {
			return why
		}
	}

	return ""
}

func (t *sqlText) param(prm *ssa.Parameter, ctx *sqlCtx) string {
	fn := prm.Parent()

	if ctx != nil && ctx.fn == fn {
		for k, q := range fn.Params {
			if q == prm && k < len(ctx.call.Common().Args) && !ctx.call.Common().IsInvoke() {
				return t.bad(ctx.call.Common().Args[k], ctx.up)
			}
		}
	}

	args := t.p.argsOf(prm)
	if len(args) == 0 {
		return t.describe(prm)
	}

	return t.all(args, nil)
}

func (t *sqlText) lookup(v ssa.Value, l *ssa.Lookup) string {
	m := constMap(l.X)
	if m == nil {
		return t.describe(v)
	}

	for _, e := range m {
		if why := t.bad(e, nil); why != "" {
			return why
		}
	}

	return ""
}

var sqlSafeCalls = map[string]bool{
	"github.com/bool64/sqluct.QuoteANSI": true,
	"strconv.Itoa":                       true,
	"strconv.FormatInt":                  true,
	"strconv.FormatUint":                 true,
	"strconv.FormatFloat":                true,
	"strconv.FormatBool":                 true,
}

func (t *sqlText) call(v ssa.Value, c *ssa.Call, k int, ctx *sqlCtx) string {
	a := c.Call.Args
	name := CallName(&c.Call)

	if sqlSafeCalls[name] {
		return ""
	}

	quotes := func(v ssa.Value) bool {
		s, ok := ssaText(v)

		return !ok || strings.ContainsAny(s, "\"'`")
	}

	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return t.all(a, ctx)
	case "fmt.Appendf", "fmt.Append":
		return t.all(a, ctx)
	case "strconv.AppendInt", "strconv.AppendUint", "strconv.AppendFloat", "strconv.AppendBool":
		return t.bad(a[0], ctx)
	case "strings.Join":
		return t.all(a, ctx)
	case "strings.Repeat", "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.Clone", "bytes.Clone":
		return t.bad(a[0], ctx)
	case "strings.TrimSuffix", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimLeft", "strings.Trim":
		if quotes(a[1]) {
			return t.describe(v)
		}

		return t.bad(a[0], ctx)
	case "builtin:append":
		return t.all(a, ctx)
	case "(*strings.Builder).String", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		return t.buffer(v, a[0])
	}

	f := c.Call.StaticCallee()
	if f == nil {
		fs := t.p.Callees(c)
		if len(fs) == 0 {
			return t.describe(v)
		}

		for _, f := range fs {
			if why := t.returned(v, f, k, nil); why != "" {
				return why
			}
		}

		return ""
	}

	return t.returned(v, f, k, t.push(ctx, c, f))
}

func (t *sqlText) returned(v ssa.Value, f *ssa.Function, k int, ctx *sqlCtx) string {
	if !t.p.InRepo(f) || len(f.Blocks) == 0 {
		return t.describe(v)
	}

	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
			if why := t.bad(ret.Results[k], ctx); why != "" {
				return why
			}
		}
	}

	return ""
}

// buffer decides what is written into a buffer.
func (t *sqlText) buffer(v, buf ssa.Value) string {
	k := sqlKey{v: buf}
	if r, ok := t.memo[k]; ok {
		return r
	}

	t.memo[k] = ""
	r := ""

	seen := map[ssa.Value]bool{}
	known := false

	var uses func(b ssa.Value)

	// All places where the buffer can be found.
	var places func(b ssa.Value)
	places = func(b ssa.Value) {
		if b == nil || seen[b] {
			return
		}

		seen[b] = true

		uses(b)

		switch i := b.(type) {
		case *ssa.Alloc, *ssa.Const:
			known = true
		case *ssa.Call:
			switch CallName(&i.Call) {
			case "bytes.NewBuffer", "bytes.NewBufferString":
				known = true

				if why := t.bad(i.Call.Args[0], nil); why != "" {
					r = why
				}
			case "builtin:new":
				known = true
			default:
				if !t.p.results(i, 0, places) {
					r = t.describe(b)
				}
			}
		case *ssa.Phi:
			for _, e := range i.Edges {
				places(e)
			}
		case *ssa.Parameter:
			for _, e := range t.p.argsOf(i) {
				places(e)
			}
		case *ssa.FreeVar:
			places(t.p.binding(i))
		case *ssa.FieldAddr:
			if f := fieldVar(i); f != nil {
				known = true

				for _, u := range fieldUses(t.p, f) {
					places(u)
				}
			}
		case *ssa.Field, *ssa.UnOp:
			if f := fieldOfValue(i); f != nil {
				for _, s := range t.p.fieldSt[f] {
					places(s.Val)
				}

				for _, u := range fieldUses(t.p, f) {
					places(u)
				}

				return
			}

			if u, ok := i.(*ssa.UnOp); ok {
				vs, ok := t.stored(u.X)
				if !ok {
					r = t.describe(b)
				}

				for _, v := range vs {
					places(v)
				}
			}
		default:
			r = t.describe(b)
		}
	}

	uses = func(b ssa.Value) {
		refs := b.Referrers()
		if refs == nil {
			return
		}

		for _, ref := range *refs {
			switch i := ref.(type) {
			case ssa.CallInstruction:
				if why := t.bufferCall(i, b, places); why != "" {
					r = why
				}
			case *ssa.MakeInterface:
				places2(i, places, uses, seen)
			case *ssa.ChangeType:
				places2(i, places, uses, seen)
			case *ssa.Phi:
				places(i)
			}
		}
	}

	places(buf)

	if r == "" && !known {
		r = t.describe(v)
	}

	t.memo[k] = r

	return r
}

func places2(v ssa.Value, _, uses func(b ssa.Value), seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}

	seen[v] = true
	uses(v)
}

// fieldUses are reads of a field and addresses of it.
func fieldUses(p *Prog, f *types.Var) []ssa.Value {
	var res []ssa.Value

	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Field:
					if fieldOfValue(i) == f {
						res = append(res, i)
					}
				case *ssa.UnOp:
					if i.Op == token.MUL && fieldVar(i.X) == f {
						res = append(res, i)
					}
				case *ssa.FieldAddr:
					if fieldVar(i) == f {
						res = append(res, i)
					}
				}
			}
		}
	}

	return res
}

// bufferCall decides a call that can write into a buffer.
func (t *sqlText) bufferCall(ci ssa.CallInstruction, buf ssa.Value, follow func(v ssa.Value)) string {
	cc := ci.Common()
	name := CallName(cc)

	if f := cc.StaticCallee(); f != nil && t.p.InRepo(f) && len(f.Blocks) > 0 {
		for k, a := range cc.Args {
			if a == buf && k < len(f.Params) {
				follow(f.Params[k])
			}
		}

		return ""
	}

	if name == "encoding/csv.NewWriter" {
		return ""
	}

	m := methodName(cc)

	if name == "fmt.Fprintf" || name == "fmt.Fprint" || name == "fmt.Fprintln" || name == "io.WriteString" {
		if cc.Args[0] != buf {
			return ""
		}

		return t.all(cc.Args[1:], nil)
	}

	if len(cc.Args) > 0 && cc.Args[0] == buf || cc.IsInvoke() && cc.Value == buf {
		args := cc.Args
		if !cc.IsInvoke() {
			args = args[1:]
		}

		switch m {
		case "WriteString", "Write", "WriteRune", "WriteByte":
			for _, a := range args {
				if _, ok := a.(*ssa.Const); ok {
					continue
				}

				if m == "WriteRune" || m == "WriteByte" {
					return t.describe(a)
				}

				if why := t.bad(a, nil); why != "" {
					return why
				}
			}

			return ""
		case "String", "Bytes", "Len", "Cap", "Grow", "Reset", "Truncate", "WriteTo", "Flush", "Close":
			return ""
		}
	}

	switch name {
	case "io.Copy":
		if cc.Args[1] == buf {
			return ""
		}
	case "builtin:len", "builtin:cap":
		return ""
	}

	return "what is written by " + shortCall(cc) + " (" + t.p.InstrPos(ci) + ")"
}

// p07Dump checks what is written to PostgreSQL dump.
func p07Dump(p *Prog, r *Report, t *sqlText) {
	wt := p.Lib.Type("PGDumpWriter")
	if !need(r, "P07.dump", "type PGDumpWriter", wt != nil) {
		return
	}

	s := structOf(wt.Type())

	var dst *types.Var

	for i := 0; i < s.NumFields(); i++ {
		if it, ok := s.Field(i).Type().Underlying().(*types.Interface); ok && hasWrite(it) {
			dst = s.Field(i)
		}
	}

	if !need(r, "P07.dump", "destination of PostgreSQL dump", dst != nil) {
		return
	}

	seen := map[ssa.Value]bool{}

	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}

		seen[v] = true

		for _, ref := range *v.Referrers() {
			switch i := ref.(type) {
			case ssa.CallInstruction:
				p07Write(p, r, t, i, v, follow)
			case *ssa.MakeInterface:
				follow(i)
			case *ssa.ChangeInterface:
				follow(i)
			case *ssa.TypeAssert:
				follow(i)
			case *ssa.Phi:
				follow(i)
			}
		}
	}

	for _, u := range fieldUses(p, dst) {
		if _, ok := u.(*ssa.FieldAddr); ok {
			continue
		}

		follow(u)
	}

	p07Copy(p, r, wt.Type())
}

func hasWrite(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Write" {
			return true
		}
	}

	return false
}

func p07Write(p *Prog, r *Report, t *sqlText, ci ssa.CallInstruction, dst ssa.Value, follow func(v ssa.Value)) {
	cc := ci.Common()
	name := CallName(cc)
	construct := FnName(ci.Parent()) + " " + shortCall(cc)

	r.Saw(FnName(ci.Parent()))

	if cc.IsInvoke() && cc.Value == dst {
		if cc.Method.Name() == "Write" || cc.Method.Name() == "WriteString" {
			why := t.bad(cc.Args[0], nil)
			r.Check(why == "", "P07.dump", construct, p.InstrPos(ci), "dump can include "+why)
		}

		return
	}

	if f := cc.StaticCallee(); f != nil && p.InRepo(f) && len(f.Blocks) > 0 {
		for k, a := range cc.Args {
			if a == dst && k < len(f.Params) {
				follow(f.Params[k])
			}
		}

		return
	}

	check := func(args []ssa.Value) {
		why := t.all(args, nil)
		r.Check(why == "", "P07.dump", construct, p.InstrPos(ci), "dump can include "+why)
	}

	switch name {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if cc.Args[0] == dst {
			check(cc.Args[1:])
		}

		return
	case "(*bytes.Buffer).WriteTo":
		why := t.buffer(cc.Args[0], cc.Args[0])
		r.Check(why == "", "P07.dump", construct, p.InstrPos(ci), "dump can include "+why)

		return
	case "io.Copy":
		src := cc.Args[1]
		if mi, ok := src.(*ssa.MakeInterface); ok {
			src = mi.X
		}

		if ts := src.Type().String(); ts == "*bytes.Buffer" {
			why := t.buffer(src, src)
			r.Check(why == "", "P07.dump", construct, p.InstrPos(ci), "dump can include "+why)

			return
		}
	case "encoding/csv.NewWriter":
		return
	case "bufio.NewWriter", "bufio.NewWriterSize":
		if v := ci.Value(); v != nil {
			follow(v)
		}

		return
	}

	if strings.HasPrefix(name, "(*bufio.Writer).") {
		switch methodName(cc) {
		case "Write", "WriteString":
			check(cc.Args[1:])
		case "WriteByte", "WriteRune":
			if _, ok := cc.Args[1].(*ssa.Const); !ok {
				r.Fail("P07.dump", construct, p.InstrPos(ci), "a character that is not constant is written to dump", nil)
			}
		}

		return
	}

	// Compressors wrap the file.
	if v := ci.Value(); v != nil {
		if strings.HasPrefix(methodNameOf(name), "New") {
			return
		}
	}

	if name == "errors.Join" || strings.HasPrefix(name, "builtin:") {
		return
	}

	r.Fail("P07.dump", construct, p.InstrPos(ci), "unknown write to dump", nil)
}

func methodNameOf(name string) string {
	return name[strings.LastIndex(name, ".")+1:]
}

// p07Copy checks dialect of rows.
func p07Copy(p *Prog, r *Report, wt types.Type) {
	methods := map[*ssa.Function]bool{}

	for _, m := range p.MethodsOf(wt) {
		methods[m] = true
	}

	for _, fn := range p.Funcs {
		mine := methods[rootFn(fn)]

		if !mine && !p.onlyFrom(fn, func(f *ssa.Function) bool { return methods[f] }) {
			continue
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					s, ok := ssaText(*op)
					if !ok || !strings.Contains(strings.ToUpper(s), "STDIN") {
						continue
					}

					u := strings.ToUpper(s)
					ok = strings.Contains(u, "FORMAT CSV") && !strings.Contains(u, "DELIMITER") && !strings.Contains(u, "QUOTE") && !strings.Contains(u, "ESCAPE") && !strings.Contains(u, "NULL")
					r.Check(ok, "P07.copy", FnName(fn)+" COPY", p.InstrPos(ins), "COPY does not expect CSV with default dialect")
				}

				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}

				if f := fieldVar(st.Addr); f != nil && f.Pkg() != nil && f.Pkg().Path() == "encoding/csv" {
					r.Fail("P07.copy", FnName(fn)+" "+f.Name(), p.InstrPos(ins), "dialect of CSV is changed", nil)
				}
			}
		}

		for _, ci := range callsOf(fn) {
			if CallName(ci.Common()) == "encoding/csv.NewWriter" {
				r.OK("P07.copy", FnName(fn)+" CSV writer", p.InstrPos(ci))
			}
		}
	}
}
