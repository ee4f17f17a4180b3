package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Origins are values that a value can come from: through conversions, variables, parameters and results of repository functions.
func (p *Prog) Origins(v ssa.Value) []ssa.Value {
	var res []ssa.Value

	seen := map[ssa.Value]bool{}

	var add func(v ssa.Value)

	addStores := func(a ssa.Value) bool {
		refs := a.Referrers()
		if refs == nil {
			return false
		}

		n := 0

		for _, ref := range *refs {
			switch i := ref.(type) {
			case *ssa.Store:
				if i.Addr == a {
					n++
					add(i.Val)
				}
			case *ssa.MakeClosure:
				// Assignments in closures.
				fn := i.Fn.(*ssa.Function)
				for k, b := range i.Bindings {
					if b != a {
						continue
					}

					for _, r := range *fn.FreeVars[k].Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == fn.FreeVars[k] {
							n++
							add(s.Val)
						}
					}
				}
			}
		}

		return n > 0
	}

	add = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}

		seen[v] = true

		switch i := v.(type) {
		case *ssa.Convert:
			add(i.X)
		case *ssa.ChangeType:
			add(i.X)
		case *ssa.MakeInterface:
			add(i.X)
		case *ssa.ChangeInterface:
			add(i.X)
		case *ssa.Phi:
			for _, e := range i.Edges {
				add(e)
			}
		case *ssa.UnOp:
			switch a := i.X.(type) {
			case *ssa.Alloc:
				if addStores(a) {
					return
				}
			case *ssa.FreeVar:
				if b := p.binding(a); b != nil {
					if al, ok := b.(*ssa.Alloc); ok && addStores(al) {
						return
					}
				}
			}

			res = append(res, v)
		case *ssa.FreeVar:
			if b := p.binding(i); b != nil {
				add(b)

				return
			}

			res = append(res, v)
		case *ssa.Parameter:
			args := p.argsOf(i)
			if len(args) == 0 {
				res = append(res, v)
			}

			for _, a := range args {
				add(a)
			}
		case *ssa.Extract:
			c, ok := i.Tuple.(*ssa.Call)
			if !ok || !p.results(c, i.Index, add) {
				res = append(res, v)
			}
		case *ssa.Call:
			if !p.results(i, 0, add) {
				res = append(res, v)
			}
		default:
			res = append(res, v)
		}
	}

	add(v)

	return res
}

func (p *Prog) results(c *ssa.Call, k int, add func(ssa.Value)) bool {
	f := c.Call.StaticCallee()
	if f == nil || !p.InRepo(f) || len(f.Blocks) == 0 {
		return false
	}

	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(ret.Results) {
			add(ret.Results[k])
		}
	}

	return true
}

// binding of a captured variable.
func (p *Prog) binding(v *ssa.FreeVar) ssa.Value {
	fn := v.Parent()

	k := -1
	for i, f := range fn.FreeVars {
		if f == v {
			k = i
		}
	}

	if fn.Parent() == nil || k < 0 {
		return nil
	}

	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[k]
			}
		}
	}

	return nil
}

// argsOf are arguments for a parameter in all calls.
func (p *Prog) argsOf(prm *ssa.Parameter) []ssa.Value {
	fn := prm.Parent()
	k := -1

	for i, q := range fn.Params {
		if q == prm {
			k = i
		}
	}

	var res []ssa.Value

	for _, c := range p.callers[fn] {
		if c.Parent().Synthetic != "" {
			continue
		}

		cc := c.Common()

		switch {
		case cc.IsInvoke():
			if k == 0 {
				res = append(res, cc.Value)
			} else if k-1 < len(cc.Args) {
				res = append(res, cc.Args[k-1])
			}
		case k < len(cc.Args):
			res = append(res, cc.Args[k])
		}
	}

	return res
}

// originField tells that all origins are loads of the field.
func (p *Prog) originField(v ssa.Value, fields ...*types.Var) bool {
	o := p.Origins(v)

	for _, v := range o {
		f := loadedField(v)
		if f == nil {
			if fl, ok := v.(*ssa.Field); ok {
				f = structOf(fl.X.Type()).Field(fl.Field)
			}
		}

		ok := false
		for _, g := range fields {
			ok = ok || f == g
		}

		if !ok {
			return false
		}
	}

	return len(o) > 0
}

// originLen tells that all origins are lengths of the field.
func (p *Prog) originLen(v ssa.Value, f *types.Var) bool {
	o := p.Origins(v)

	for _, v := range o {
		c, ok := v.(*ssa.Call)
		if !ok || CallName(&c.Call) != "builtin:len" || !p.originField(c.Call.Args[0], f) {
			return false
		}
	}

	return len(o) > 0
}
