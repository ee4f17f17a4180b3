package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program of the repository.
type Prog struct {
	Dir  string
	Fset *token.FileSet
	Pkgs []*packages.Package
	SSA  *ssa.Program
	Lib  *ssa.Package // github.com/vearutop/flatjsonl/flatjsonl
	Eq   *ssa.Package // cmd/csvequals
	Main *ssa.Package

	Funcs     []*ssa.Function // all functions with bodies of the repository, closures included
	fieldFns  map[*types.Var][]*ssa.Function
	callers   map[*ssa.Function][]ssa.CallInstruction
	addrTaken map[*ssa.Function]bool
	fieldSt   map[*types.Var][]*ssa.Store
	closureOf map[*ssa.Function][]*ssa.MakeClosure
}

const libPath = "github.com/vearutop/flatjsonl/flatjsonl"

// Load loads, type-checks and builds SSA of the repository.
func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Tests: false, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")}

	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}

	if ov := knownNames(pkgs); ov != nil {
		cfg.Overlay = ov

		again, err := packages.Load(cfg, "./...")
		if err == nil && clean(again) {
			pkgs = again
		}
	}

	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Module != nil && p.Module.Main || strings.HasPrefix(p.PkgPath, "github.com/vearutop/flatjsonl") {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})

	if len(errs) > 0 {
		return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(errs, "; "))
	}

	p := &Prog{Dir: dir, Pkgs: pkgs, fieldFns: map[*types.Var][]*ssa.Function{}, callers: map[*ssa.Function][]ssa.CallInstruction{},
		addrTaken: map[*ssa.Function]bool{}, fieldSt: map[*types.Var][]*ssa.Store{}, closureOf: map[*ssa.Function][]*ssa.MakeClosure{}}

	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.NaiveForm)
	prog.Build()

	p.SSA = prog
	p.Fset = prog.Fset

	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}

		switch {
		case s.Pkg.Path() == libPath:
			p.Lib = s
		case strings.HasSuffix(s.Pkg.Path(), "cmd/csvequals"):
			p.Eq = s
		case s.Pkg.Name() == "main":
			p.Main = s
		}
	}

	if p.Lib == nil || p.Eq == nil || p.Main == nil {
		return nil, fmt.Errorf("expected packages are not found in %s", dir)
	}

	repo := map[*types.Package]bool{}
	for _, s := range sp {
		repo[s.Pkg] = true
	}

	all := ssautil.AllFunctions(prog)
	gone := inlineHelpers(p, all)

	for fn := range all {
		if len(fn.Blocks) == 0 {
			continue
		}

		ssa.Finish(fn)

		if p.InRepo(fn) && !gone[fn] {
			normalize(fn)
			p.Funcs = append(p.Funcs, fn)
		}
	}

	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}

		return a.String() < b.String()
	})

	p.index()

	return p, nil
}

func clean(pkgs []*packages.Package) bool {
	ok := true

	packages.Visit(pkgs, nil, func(p *packages.Package) {
		ok = ok && len(p.Errors) == 0
	})

	return ok
}

// InRepo is true for functions of the repository (closures, bound methods and wrappers included).
func (p *Prog) InRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/vearutop/flatjsonl")
		}

		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), "github.com/vearutop/flatjsonl")
		}
	}

	return false
}

func fieldVar(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return structOf(v.X.Type()).Field(v.Field)
	case *ssa.Field:
		return structOf(v.X.Type()).Field(v.Field)
	}

	return nil
}

func structOf(t types.Type) *types.Struct {
	t = deref(t)

	s, _ := t.Underlying().(*types.Struct)

	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}

	return t
}

func (p *Prog) index() {
	allFuncs, curProg = p.Funcs, p
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fv := fieldVar(st.Addr); fv != nil {
						p.fieldSt[fv] = append(p.fieldSt[fv], st)

						for _, f := range p.FuncsOf(st.Val) {
							p.fieldFns[fv] = appendFn(p.fieldFns[fv], f)
						}
					}
				}

				if mc, ok := ins.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					p.closureOf[f] = append(p.closureOf[f], mc)
				}

				var rands [12]*ssa.Value

				ci, isCall := ins.(ssa.CallInstruction)
				if isCall {
					if f := ci.Common().StaticCallee(); f != nil {
						p.callers[f] = append(p.callers[f], ci)
					}
				}

				for _, op := range ins.Operands(rands[:0]) {
					if op == nil || *op == nil {
						continue
					}

					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}

					if isCall && op == &ci.Common().Value {
						continue
					}

					p.addrTaken[f] = true
				}
			}
		}
	}
}

func appendFn(l []*ssa.Function, f *ssa.Function) []*ssa.Function {
	for _, e := range l {
		if e == f {
			return l
		}
	}

	return append(l, f)
}

// FuncsOf resolves function values flowing into v inside of one function (and via phi).
func (p *Prog) FuncsOf(v ssa.Value) []*ssa.Function {
	var (
		res  []*ssa.Function
		seen = map[ssa.Value]bool{}
		rec  func(v ssa.Value)
	)

	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}

		seen[v] = true

		switch v := v.(type) {
		case *ssa.Function:
			res = appendFn(res, v)
		case *ssa.MakeClosure:
			res = appendFn(res, v.Fn.(*ssa.Function))
		case *ssa.Phi:
			for _, e := range v.Edges {
				rec(e)
			}
		case *ssa.ChangeType:
			rec(v.X)
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if fv := fieldVar(v.X); fv != nil {
					for _, f := range p.fieldFns[fv] {
						res = appendFn(res, f)
					}
				} else if a, ok := v.X.(*ssa.Alloc); ok {
					for _, r := range *a.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == a {
							rec(st.Val)
						}
					}
				}
			}
		case *ssa.Parameter:
			idx := -1
			for i, pp := range v.Parent().Params {
				if pp == v {
					idx = i
				}
			}

			for _, c := range p.callers[v.Parent()] {
				if idx >= 0 && idx < len(c.Common().Args) {
					rec(c.Common().Args[idx])
				}
			}
		case *ssa.FreeVar:
			for i, fv := range v.Parent().FreeVars {
				if fv != v {
					continue
				}

				for _, mc := range p.closureOf[v.Parent()] {
					rec(mc.Bindings[i])
				}
			}
		}
	}

	rec(v)

	return res
}

// Implementers returns methods of repository types that implement the called interface method.
func (p *Prog) Implementers(cc *ssa.CallCommon) []*ssa.Function {
	if !cc.IsInvoke() {
		return nil
	}

	iface, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}

	var res []*ssa.Function

	for _, sp := range []*ssa.Package{p.Lib, p.Eq, p.Main} {
		for _, m := range sortedMembers(sp) {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}

			if types.IsInterface(t.Type()) {
				continue
			}

			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if !types.Implements(tt, iface) {
					continue
				}

				if sel := p.SSA.MethodSets.MethodSet(tt).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
					if f := p.SSA.MethodValue(sel); f != nil && len(f.Blocks) > 0 {
						res = appendFn(res, p.unwrap(f))
					}
				}

				break
			}
		}
	}

	return res
}

// unwrap replaces promotion wrappers by the wrapped function where it belongs to the repository.
func (p *Prog) unwrap(f *ssa.Function) *ssa.Function { return f }

func sortedMembers(sp *ssa.Package) []ssa.Member {
	names := make([]string, 0, len(sp.Members))
	for n := range sp.Members {
		names = append(names, n)
	}

	sort.Strings(names)

	res := make([]ssa.Member, 0, len(names))
	for _, n := range names {
		res = append(res, sp.Members[n])
	}

	return res
}

// Callees resolves possible repository callees of a call.
func (p *Prog) Callees(ci ssa.CallInstruction) []*ssa.Function {
	cc := ci.Common()
	if cc.IsInvoke() {
		return p.Implementers(cc)
	}

	if f := cc.StaticCallee(); f != nil {
		if len(f.Blocks) > 0 && p.InRepo(f) {
			return []*ssa.Function{f}
		}

		return nil
	}

	var res []*ssa.Function

	for _, f := range p.FuncsOf(cc.Value) {
		if len(f.Blocks) > 0 {
			res = appendFn(res, f)
		}
	}

	return res
}

// Method finds a method of a library type by name, nil if it does not exist.
func (p *Prog) Method(typ, name string) *ssa.Function {
	return p.methodIn(p.Lib, typ, name)
}

func (p *Prog) methodIn(pkg *ssa.Package, typ, name string) *ssa.Function {
	t := pkg.Type(typ)
	if t == nil {
		return nil
	}

	for _, tt := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := range ms.Len() {
			sel := ms.At(i)
			if sel.Obj().Name() == name && len(sel.Index()) == 1 {
				// The declared function rather than a pointer wrapper.
				if f := p.SSA.FuncValue(sel.Obj().(*types.Func)); f != nil {
					return f
				}
			}
		}
	}

	return nil
}

// MethodsOf returns declared methods of a type.
func (p *Prog) MethodsOf(t types.Type) []*ssa.Function {
	named, ok := t.(*types.Named)
	if !ok {
		return nil
	}

	var res []*ssa.Function

	for i := range named.NumMethods() {
		if f := p.SSA.FuncValue(named.Method(i)); f != nil {
			res = append(res, f)
		}
	}

	return res
}

// Func finds a package level function.
func (p *Prog) Func(name string) *ssa.Function { return p.Lib.Func(name) }

// Field finds a field of a library type, nil if it does not exist.
func (p *Prog) Field(typ, name string) *types.Var {
	t := p.Lib.Type(typ)
	if t == nil {
		return nil
	}

	s, ok := t.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}

	for i := range s.NumFields() {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}

	return nil
}

// Pos formats position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}

	ps := p.Fset.Position(pos)

	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}

	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// InstrPos finds the best position of an instruction.
func (p *Prog) InstrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}

	if v, ok := i.(ssa.Value); ok {
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					return p.Pos(r.Pos())
				}
			}
		}
	}

	var rands [8]*ssa.Value
	for _, op := range i.Operands(rands[:0]) {
		if op != nil && *op != nil && (*op).Pos().IsValid() {
			return p.Pos((*op).Pos())
		}
	}

	// Neighbours in the block.
	b := i.Block()
	if b != nil {
		for _, n := range b.Instrs {
			if n.Pos().IsValid() {
				return p.Pos(n.Pos())
			}
		}
	}

	return p.Pos(i.Parent().Pos())
}

// FnName is a short stable name of a function.
func FnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}

	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/vearutop/flatjsonl/", "")
	s = strings.ReplaceAll(s, "flatjsonl.", "")

	return s
}

// CallName names the callee: full name for static calls, (iface).Method for invocations, field:T.f for function fields.
func CallName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}

	if f := cc.StaticCallee(); f != nil {
		return FullName(f)
	}

	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}

	if u, ok := cc.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fv := fieldVar(u.X); fv != nil {
			return "field:" + fv.Name()
		}
	}

	return "dynamic"
}

// FullName is the full name of a function without type arguments.
func FullName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}

	if o, ok := f.Object().(*types.Func); ok {
		return o.FullName()
	}

	return f.String()
}

// ErrorType is the predeclared error type.
var ErrorType = types.Universe.Lookup("error").Type()

// IsError tells error type.
func IsError(t types.Type) bool { return types.Identical(t, ErrorType) }

// Syntax finds files of the library package.
func (p *Prog) Files(pkg *ssa.Package) []*ast.File {
	for _, pp := range p.Pkgs {
		if pp.Types == pkg.Pkg {
			return pp.Syntax
		}
	}

	return nil
}

// TypesInfo returns type information of a package.
func (p *Prog) TypesInfo(pkg *ssa.Package) *types.Info {
	for _, pp := range p.Pkgs {
		if pp.Types == pkg.Pkg {
			return pp.TypesInfo
		}
	}

	return nil
}
