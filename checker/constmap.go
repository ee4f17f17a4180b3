package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// constMaps caches literal maps.
var constMaps = map[ssa.Value]map[string]ssa.Value{}

// constMap reads a map that is never changed after it was filled with constant keys (literal of a local or a package variable).
func constMap(v ssa.Value) map[string]ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		g, ok := u.X.(*ssa.Global)
		if !ok {
			return nil
		}

		return globalMap(g)
	}

	mm, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil
	}

	if r, ok := constMaps[mm]; ok {
		return r
	}

	r := literalMap(mm, nil)
	constMaps[mm] = r

	return r
}

func literalMap(mm *ssa.MakeMap, global *ssa.Global) map[string]ssa.Value {
	r := map[string]ssa.Value{}

	for _, ref := range *mm.Referrers() {
		switch i := ref.(type) {
		case *ssa.MapUpdate:
			c, ok := i.Key.(*ssa.Const)
			if !ok || c.Value == nil || i.Map != ssa.Value(mm) || InnermostLoop(i.Block()) != nil {
				return nil
			}

			r[c.Value.ExactString()] = i.Value
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Store:
			if global == nil || i.Addr != ssa.Value(global) {
				return nil
			}
		case *ssa.Call:
			if CallName(&i.Call) != "builtin:len" {
				return nil
			}
		default:
			return nil
		}
	}

	return r
}

func globalMap(g *ssa.Global) map[string]ssa.Value {
	if r, ok := constMaps[g]; ok {
		return r
	}

	constMaps[g] = nil

	// Globals have no referrers list.
	var mm *ssa.MakeMap

	for _, m := range sortedMembers(g.Pkg) {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					m, ok := s.Val.(*ssa.MakeMap)
					if !ok || mm != nil || fn.Name() != "init" {
						return nil
					}

					mm = m
				}
			}
		}
	}

	if mm == nil || writtenElsewhere(g) {
		return nil
	}

	r := literalMap(mm, g)
	constMaps[g] = r

	return r
}

// allFuncs is set when program is loaded.
var (
	allFuncs []*ssa.Function
	curProg  *Prog
)

// writtenElsewhere tells that content of a global map can be changed after initialization.
func writtenElsewhere(g *ssa.Global) bool {
	for _, fn := range allFuncs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok || u.X != ssa.Value(g) {
					if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(g) && fn.Name() != "init" {
						return true
					}

					continue
				}

				for _, ref := range *u.Referrers() {
					switch i := ref.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if CallName(&i.Call) != "builtin:len" {
							return true
						}
					default:
						return true
					}
				}
			}
		}
	}

	return false
}
