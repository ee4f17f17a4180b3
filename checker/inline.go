package main

import (
	_ "embed"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// known lists functions that the rules were written for, with signatures. Helpers that are added to them are inlined, so that
// a rule sees the same code whether a part of a function is written in place or moved to a helper.
//
//go:embed known.txt
var known string

// asHelpers lists functions to inline for a test.
var asHelpers string

func sigKey(fn *ssa.Function) string {
	return shapeOf(fn.Signature, func(p *types.Package) string { return p.Name() })
}

func recvKey(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		return typeName(r.Type())
	}

	return ""
}

// declared are functions of the repository that are declared at top level.
func declared(p *Prog, all map[*ssa.Function]bool) []*ssa.Function {
	var res []*ssa.Function

	for fn := range all {
		if len(fn.Blocks) > 0 && fn.Parent() == nil && fn.Synthetic == "" && fn.Object() != nil && fn.Origin() == nil && p.InRepo(fn) {
			res = append(res, fn)
		}
	}

	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })

	return res
}

func knownLine(fn *ssa.Function) string {
	return fn.Pkg.Pkg.Path() + "\t" + recvKey(fn) + "\t" + fn.Name() + "\t" + sigKey(fn)
}

// helpers are functions which are not known and do not replace a known one.
func helpers(fns []*ssa.Function) map[*ssa.Function]bool {
	names := map[string]bool{}   // package, receiver, name
	bare := map[string]bool{}    // package, name
	missing := map[string]bool{} // lines of functions that are not in the tree
	shape := map[string]string{} // line to package, receiver, signature
	present := map[string]bool{} // names in the tree
	unknown := []*ssa.Function{}

	for _, fn := range fns {
		f := strings.Split(knownLine(fn), "\t")
		present[strings.Join(f[:3], "\t")] = true
	}

	for _, l := range strings.Split(strings.TrimSpace(known), "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 4 || asHelpers != "" && slices.Contains(strings.Split(asHelpers, ","), strings.TrimPrefix(f[1]+"."+f[2], ".")) {
			continue
		}

		n := strings.Join(f[:3], "\t")
		names[n] = true

		if !present[n] {
			missing[l] = true
			bare[f[0]+"\t"+f[2]] = true
			shape[l] = f[0] + "\t" + f[1] + "\t" + f[3]
		}
	}

	for _, fn := range fns {
		f := strings.Split(knownLine(fn), "\t")

		if names[strings.Join(f[:3], "\t")] || bare[f[0]+"\t"+f[2]] || fn.Name() == "main" || strings.HasPrefix(fn.Name(), "init") {
			continue
		}

		renamed := false
		for l := range missing {
			renamed = renamed || shape[l] == f[0]+"\t"+f[1]+"\t"+f[3]
		}

		if !renamed {
			unknown = append(unknown, fn)
		}
	}

	res := map[*ssa.Function]bool{}

	for _, fn := range unknown {
		if ssa.Inlinable(fn) {
			res[fn] = true
		}
	}

	return res
}

func isWrapper(fn *ssa.Function) bool {
	for _, p := range []string{"wrapper", "thunk", "bound"} {
		if strings.HasPrefix(fn.Synthetic, p) {
			return true
		}
	}

	return false
}

// inlineHelpers replaces calls of helpers with their bodies and removes helpers that are not used otherwise.
func inlineHelpers(p *Prog, all map[*ssa.Function]bool) (gone map[*ssa.Function]bool) {
	gone = map[*ssa.Function]bool{}

	if known == "" {
		return gone
	}

	hs := helpers(declared(p, all))

	calls := map[*ssa.Function]int{}   // direct calls of a helper
	others := map[*ssa.Function]bool{} // other uses of it

	var scan func(fn *ssa.Function, f func(call *ssa.Call, h *ssa.Function))

	scan = func(fn *ssa.Function, f func(call *ssa.Call, h *ssa.Function)) {
		for _, b := range append([]*ssa.BasicBlock(nil), fn.Blocks...) {
			for _, in := range append([]ssa.Instruction(nil), b.Instrs...) {
				if c, ok := in.(*ssa.Call); ok {
					if h := c.Call.StaticCallee(); h != nil && hs[h] {
						f(c, h)
					}
				}
			}
		}
	}

	for fn := range all {
		if isWrapper(fn) {
			// A method value stands for the method itself.
			if strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk") {
				scan(fn, func(_ *ssa.Call, h *ssa.Function) { others[h] = true })
			}

			continue
		}

		scan(fn, func(_ *ssa.Call, h *ssa.Function) { calls[h]++ })

		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for k, op := range in.Operands(nil) {
					h, ok := (*op).(*ssa.Function)
					if !ok || !hs[h] {
						continue
					}

					if c, isCall := in.(*ssa.Call); isCall && k == 0 && c.Call.Value == ssa.Value(h) {
						continue
					}

					others[h] = true
				}
			}
		}
	}

	// A closure of a helper belongs to one function.
	for h := range hs {
		if len(h.AnonFuncs) > 0 && (calls[h] != 1 || others[h]) {
			delete(hs, h)
		}
	}

	// Helpers of helpers first, recursive ones are left alone.
	state := map[*ssa.Function]int{}

	var order []*ssa.Function

	var visit func(h *ssa.Function)

	var family func(fn *ssa.Function, f func(*ssa.Function))

	family = func(fn *ssa.Function, f func(*ssa.Function)) {
		f(fn)

		for _, a := range fn.AnonFuncs {
			family(a, f)
		}
	}

	visit = func(h *ssa.Function) {
		state[h] = 1

		family(h, func(fn *ssa.Function) {
			scan(fn, func(_ *ssa.Call, c *ssa.Function) {
				switch state[c] {
				case 0:
					visit(c)
				case 1:
					state[c] = 3
				}
			})
		})

		if state[h] == 3 {
			delete(hs, h)

			return
		}

		state[h] = 2
		order = append(order, h)
	}

	var sorted []*ssa.Function
	for h := range hs {
		sorted = append(sorted, h)
	}

	sort.Slice(sorted, func(i, j int) bool { return sorted[i].String() < sorted[j].String() })

	for _, h := range sorted {
		if state[h] == 0 {
			visit(h)
		}
	}

	expand := func(fn *ssa.Function) {
		for again := true; again; {
			again = false

			scan(fn, func(c *ssa.Call, _ *ssa.Function) {
				if again {
					return
				}

				ssa.InlineCall(c)

				again = true
			})
		}
	}

	for _, h := range order {
		family(h, expand)
	}

	var fns []*ssa.Function
	for fn := range all {
		if !hs[fn] && !isWrapper(fn) {
			fns = append(fns, fn)
		}
	}

	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })

	for _, fn := range fns {
		expand(fn)
	}

	for h := range hs {
		if !others[h] {
			gone[h] = true
		}
	}

	return gone
}
