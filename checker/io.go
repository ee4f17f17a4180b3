package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var ioPackages = map[string]bool{
	"os": true, "io": true, "bufio": true, "encoding/csv": true, "database/sql": true, "compress/gzip": true, "io/fs": true, "io/ioutil": true,
	"github.com/klauspost/pgzip": true, "github.com/klauspost/compress/zstd": true, "github.com/klauspost/compress/gzip": true,
	"github.com/bool64/progress": true,
}

// returnsError tells whether the last result of a call is an error.
func returnsError(sig *types.Signature) bool {
	n := sig.Results().Len()

	return n > 0 && IsError(sig.Results().At(n-1).Type())
}

func calleePkg(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		t := cc.Value.Type()
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}

		// Embedded interface in an anonymous one: package of the method.
		if cc.Method.Pkg() != nil {
			return cc.Method.Pkg().Path()
		}

		return ""
	}

	if f := cc.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}

		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}

	return ""
}

// IO is the analysis of functions that can fail because of input or output.
type IO struct {
	p   *Prog
	may map[*ssa.Function]bool
}

// NewIO computes functions that return an error of an I/O call.
func NewIO(p *Prog) *IO {
	io := &IO{p: p, may: map[*ssa.Function]bool{}}

	for changed := true; changed; {
		changed = false

		for _, fn := range p.Funcs {
			if io.may[fn] {
				continue
			}

			for _, c := range callsOf(fn) {
				if io.external(c.Common()) || io.repo(c) || io.closureIn(c) {
					io.may[fn] = true
					changed = true

					break
				}
			}
		}
	}

	return io
}

// closureIn is true when an I/O function is passed or started.
func (io *IO) closureIn(c ssa.CallInstruction) bool {
	for _, f := range io.p.Callees(c) {
		if io.may[f] {
			return true
		}
	}

	return false
}

func callsOf(fn *ssa.Function) []ssa.CallInstruction {
	var res []ssa.CallInstruction

	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				res = append(res, c)
			}
		}
	}

	return res
}

func (io *IO) external(cc *ssa.CallCommon) bool {
	if !returnsError(cc.Signature()) {
		return false
	}

	pkg := calleePkg(cc)
	if !ioPackages[pkg] {
		return false
	}

	return true
}

// repo is true for calls of repository functions which fail because of I/O.
func (io *IO) repo(c ssa.CallInstruction) bool {
	if !returnsError(c.Common().Signature()) {
		return false
	}

	for _, f := range io.p.Callees(c) {
		if io.may[f] {
			return true
		}
	}

	return false
}

// Source is true for calls that can return an I/O error.
func (io *IO) Source(c ssa.CallInstruction) bool {
	return io.external(c.Common()) || io.repo(c) || (errCell(c.Common()) >= 0 && io.closureIn(c))
}

// errCell finds an argument with address of an error variable.
func errCell(cc *ssa.CallCommon) int {
	for i, a := range cc.Args {
		if pt, ok := a.Type().Underlying().(*types.Pointer); ok && IsError(pt.Elem()) {
			return i
		}
	}

	return -1
}

func isFatal(name string) bool {
	switch name {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}

	return false
}

// decideNonEmpty decides comparison of the length of a collection known to be not empty with a constant.
func decideNonEmpty(x *Explorer, st *State, c AV, bit uint64) (val, ok bool) {
	if c.K == KNot {
		v, ok := decideNonEmpty(x, st, *c.X, bit)

		return !v, ok
	}

	if c.K != KCmp {
		return false, false
	}

	a, b, op := *c.X, *c.Y, c.Op
	if a.K == KConst {
		a, b, op = b, a, mirror(op)
	}

	if a.K != KSym || b.K != KConst || st.Label(a)&bit == 0 || b.C.Kind() != constant.Int {
		return false, false
	}

	n, _ := constant.Int64Val(b.C)

	switch {
	case op == token.GTR && n == 0, op == token.NEQ && n == 0, op == token.GEQ && n == 1:
		return true, true
	case op == token.EQL && n == 0, op == token.LEQ && n == 0, op == token.LSS && n == 1:
		return false, true
	}

	return false, false
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}

	return fn
}

func nestedIn(fn, root *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f == root {
			return true
		}
	}

	return false
}

// closureUse tells how a closure is used in its parent: called (also deferred), go, other.
func closureUse(p *Prog, fn *ssa.Function) string {
	use := "called"

	for _, mc := range p.closureOf[fn] {
		for _, r := range *mc.Referrers() {
			switch r := r.(type) {
			case *ssa.Call:
				if r.Call.Value != ssa.Value(mc) {
					return "other"
				}
			case *ssa.Defer:
				if r.Call.Value != ssa.Value(mc) {
					return "other"
				}
			case *ssa.Go:
				use = "go"
			case *ssa.DebugRef:
			case *ssa.Store:
				// Local function variable that is only called.
				a, ok := r.Addr.(*ssa.Alloc)
				if !ok || r.Val != ssa.Value(mc) || a.Heap {
					return "other"
				}
			default:
				return "other"
			}
		}
	}

	if len(p.closureOf[fn]) == 0 {
		// Closures without free variables are plain functions.
		for _, c := range callsOf(fn.Parent()) {
			for _, a := range c.Common().Args {
				if a == ssa.Value(fn) {
					return "other"
				}
			}

			if _, isGo := c.(*ssa.Go); isGo && c.Common().Value == ssa.Value(fn) {
				return "go"
			}
		}
	}

	return use
}

// analysisRoot is the function to explore to see how the result of a call in fn is used.
func analysisRoot(p *Prog, fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil && closureUse(p, fn) == "called" {
		fn = fn.Parent()
	}

	return fn
}

func shortCall(cc *ssa.CallCommon) string {
	s := CallName(cc)
	s = strings.ReplaceAll(s, "github.com/vearutop/flatjsonl/", "")
	s = strings.ReplaceAll(s, "flatjsonl.", "")

	return s
}
