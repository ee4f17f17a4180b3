package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldOfCallee names the function field that is called, e.g. lineStarted for sess.lineStarted(seq).
func fieldOfCallee(cc *ssa.CallCommon) *types.Var {
	if cc.IsInvoke() {
		return nil
	}

	return loadedField(cc.Value)
}

// loadedField is the field a value was loaded from.
func loadedField(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return fieldVar(v.X)
		}
	case *ssa.Field:
		return fieldVar(v)
	case *ssa.ChangeType:
		return loadedField(v.X)
	}

	return nil
}

// reachesCall tells that fn or its static repository callees (closures included) have a call accepted by f.
func (p *Prog) reachesCall(fn *ssa.Function, f func(ci ssa.CallInstruction) bool) bool {
	seen := map[*ssa.Function]bool{}

	var rec func(fn *ssa.Function) bool

	rec = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] || !p.InRepo(fn) {
			return false
		}

		seen[fn] = true

		for _, c := range callsOf(fn) {
			if f(c) || rec(c.Common().StaticCallee()) {
				return true
			}

			for _, g := range p.FuncsOf(c.Common().Value) {
				if nestedIn(g, rootFn(fn)) && rec(g) {
					return true
				}
			}
		}

		for _, a := range fn.AnonFuncs {
			if rec(a) {
				return true
			}
		}

		return false
	}

	return rec(fn)
}

// reachesFn tells that fn or a repository function it calls statically (closures included) is accepted by f.
func (p *Prog) reachesFn(fn *ssa.Function, f func(fn *ssa.Function) bool) bool {
	return f(fn) || p.reachesCall(fn, func(ci ssa.CallInstruction) bool {
		if f(ci.Parent()) {
			return true
		}

		g := ci.Common().StaticCallee()

		return g != nil && p.InRepo(g) && f(g)
	})
}

func callsField(f *types.Var) func(ci ssa.CallInstruction) bool {
	return func(ci ssa.CallInstruction) bool { return f != nil && fieldOfCallee(ci.Common()) == f }
}

func callsStatic(g *ssa.Function) func(ci ssa.CallInstruction) bool {
	return func(ci ssa.CallInstruction) bool { return g != nil && ci.Common().StaticCallee() == g }
}

// constInt reads an integer constant.
func constInt(a AV) (int64, bool) {
	if a.K == KConst && a.C.Kind() == constant.Int {
		n, ok := constant.Int64Val(a.C)

		return n, ok
	}

	return 0, false
}

func constStr(a AV) (string, bool) {
	if a.K == KConst && a.C.Kind() == constant.String {
		return constant.StringVal(a.C), true
	}

	return "", false
}

// mentions tells that a condition refers to a memory location with the suffix.
func (a AV) mentions(suffix string) bool {
	if a.ID != "" && strings.Contains(a.ID, suffix) {
		return true
	}

	if a.X != nil && a.X.mentions(suffix) {
		return true
	}

	if a.Y != nil && a.Y.mentions(suffix) {
		return true
	}

	return false
}

// bug reports a violation once.
type once struct {
	r         *Report
	rule      string
	construct string
	pos       string
	bad       bool
	names     string
}

func (o *once) fail(st *State, msg string) {
	if !o.bad {
		var path []string
		if st != nil {
			path = st.Path()
		}

		o.r.Fail(o.rule, o.construct, o.pos, msg, path)
	}

	o.bad = true
}

func (o *once) done(x *Explorer) {
	if x != nil {
		for b := range x.Blocks {
			o.r.Saw(FnName(b.Parent()))
		}
	}

	if !o.bad {
		o.r.Check(x == nil || x.Err == nil, o.rule, o.construct, o.pos, func() string {
			if x != nil && x.Err != nil {
				return x.Err.Error()
			}

			return ""
		}())
	}
}

func newOnce(r *Report, rule, construct, pos string) *once {
	return &once{r: r, rule: rule, construct: construct, pos: pos}
}

// need reports unresolved anchors.
func need(r *Report, rule string, what string, ok bool) bool {
	if !ok {
		r.Fail(rule, what, "-", "the construct is not found in the code", nil)
	}

	return ok
}

// methodName of a call.
func methodName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}

	if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}

		return f.Name()
	}

	return ""
}

// recvType is the printed type of the receiver of a method call.
func recvType(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return types.TypeString(cc.Value.Type(), nil)
	}

	if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		return types.TypeString(f.Signature.Recv().Type(), nil)
	}

	return ""
}

func isMapType(t string) bool {
	return t == "*sync.Map" || strings.Contains(t, "xsync/v3.MapOf")
}

// returnsNil tells that the error result of a return is nil or can be nil.
func mayReturnNil(st *State, fn *ssa.Function, results []AV) bool {
	n := fn.Signature.Results().Len()
	if n == 0 || !IsError(fn.Signature.Results().At(n-1).Type()) || len(results) < n {
		return true
	}

	return st.NilOf(results[n-1]) != notNil
}

func sprint(a ...any) string { return fmt.Sprint(a...) }

// labelOf collects labels of all parts of a condition.
func labelOf(st *State, c AV) uint64 {
	l := st.Label(c)

	if c.X != nil {
		l |= labelOf(st, *c.X)
	}

	if c.Y != nil {
		l |= labelOf(st, *c.Y)
	}

	return l
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)

	return ok && b.Info()&types.IsString != 0
}

// labelDeep is a label of a value and of elements of a short slice.
func labelDeep(st *State, a AV) uint64 {
	l := st.Label(a)

	if j := strings.LastIndexByte(a.ID, '!'); j > 0 {
		n, _ := strconv.Atoi(a.ID[j+1:])
		for k := 0; k < n; k++ {
			l |= st.Label(st.Mem[a.ID[:j]+"["+strconv.Itoa(k)+"]"])
		}
	}

	return l
}

// recvIs tells that a function is a method of the type.
func recvIs(fn *ssa.Function, name string) bool {
	r := fn.Signature.Recv()

	return r != nil && typeName(deref(r.Type())) == name
}

// onlyFrom tells that a function is accepted by f or is only called by such functions.
func (p *Prog) onlyFrom(fn *ssa.Function, f func(fn *ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}

	var rec func(fn *ssa.Function) bool

	rec = func(fn *ssa.Function) bool {
		if f(fn) || seen[fn] {
			return true
		}

		seen[fn] = true

		if len(p.callers[fn]) == 0 {
			return false
		}

		for _, c := range p.callers[fn] {
			if c.Parent().Synthetic == "" && !rec(rootFn(c.Parent())) {
				return false
			}
		}

		return true
	}

	return rec(fn)
}

func structTag(tag, name string) string { return reflect.StructTag(tag).Get(name) }

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}

	sort.Strings(r)

	return r
}
