package main

import "sort"

func init() { props["P12"] = p12 }

func p12(p *Prog, r *Report) {
	r.Rule("P12.kind", "each kind of JSON value is traversed completely and every scalar is reported exactly once with its own value", 14)
	r.Rule("P12.number", "malformed number is reported once with its literal", 2)

	fn := p.Method("FastWalker", "WalkFastJSON")
	if !need(r, "P12.kind", "FastWalker.WalkFastJSON", fn != nil) {
		return
	}

	kinds := jsonKinds(p)

	var names []string
	for k := range kinds {
		names = append(names, k)
	}

	sort.Strings(names)

	for _, k := range names {
		for _, m := range walkModes {
			o := newOnce(r, "P12.kind", k+" ("+m.name+")", p.Pos(fn.Pos()))
			n := discard()

			if k == "number" {
				n = newOnce(r, "P12.number", k+" ("+m.name+")", p.Pos(fn.Pos()))
			}

			x := walkKind(p, fn, k, kinds[k], m, o, discard(), n)
			o.done(x)
			n.done(nil)
		}
	}
}
