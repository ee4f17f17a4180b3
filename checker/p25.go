package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P25"] = p25 }

func p25(p *Prog, r *Report) {
	r.Rule("P25.format", "extraction format of configuration is a known constant with an extractor that reports itself under the same name", 2)
	r.Rule("P25.result", "extractor returns its own name when extraction does not fail", 2)
	r.Rule("P25.url", "each part of URL comes from the same part of the parsed URL and has its own name", 8)
	r.Rule("P25.encode", "decoded URL is what extractor encodes, failures are returned", 1)
	r.Rule("P25.fallback", "string is reported once, before it is extracted, and a failed extraction does not fail the line", 2)

	p25Formats(p, r)
	p25URL(p, r)

	fn := p.Method("FastWalker", "WalkFastJSON")
	if !need(r, "P25.fallback", "FastWalker.WalkFastJSON", fn != nil) {
		return
	}

	for _, m := range walkModes {
		o := newOnce(r, "P25.fallback", "string ("+m.name+")", p.Pos(fn.Pos()))
		o.done(walkKind(p, fn, "string", jsonKinds(p)["string"], m, o, discard(), discard()))
	}
}

// madeOf is the interface value with a known dynamic type.
func madeOf(i ssa.Value) (AV, bool) {
	mi, ok := i.(*ssa.MakeInterface)
	if !ok {
		return AV{}, false
	}

	return AV{K: KSym, ID: "made " + types.TypeString(mi.X.Type(), nil), T: mi.X.Type()}, true
}

func p25Formats(p *Prog, r *Report) {
	iface := p.Lib.Type("extractor")
	named := p.Lib.Type("extract")

	if !need(r, "P25.format", "types extract and extractor", iface != nil && named != nil) {
		return
	}

	var (
		factory *ssa.Function
		enum    *ssa.Function
	)

	for _, m := range p.MethodsOf(named.Type()) {
		res := m.Signature.Results()
		if res.Len() != 1 {
			continue
		}

		if types.Identical(res.At(0).Type(), iface.Type()) {
			factory = m
		}

		if _, ok := res.At(0).Type().Underlying().(*types.Slice); ok {
			enum = m
		}
	}

	if !need(r, "P25.format", "factory of extractors", factory != nil) || !need(r, "P25.format", "list of formats", enum != nil) {
		return
	}

	listed := map[string]bool{}
	eo := newOnce(r, "P25.format", FnName(enum), p.Pos(enum.Pos()))

	ex := NewExplorer(p, &Client{
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" {
				eo.fail(st, "list of formats is not returned")

				return
			}

			el, ok := elements(st, results[0])
			if !ok {
				eo.fail(st, "list of formats is not a list of constants")
			}

			for _, e := range el {
				if c, ok := constStr(e); ok {
					listed[c] = true
				} else {
					eo.fail(st, "format is not a constant")
				}
			}
		},
	})
	ex.Run(ex.Initial(enum))

	for _, m := range sortedMembers(p.Lib) {
		c, ok := m.(*ssa.NamedConst)
		if ok && types.Identical(c.Type(), named.Type()) && !listed[constant.StringVal(c.Value.Value)] {
			eo.fail(nil, "format "+c.Name()+" is not in the list of formats")
		}
	}

	eo.done(ex)

	var formats []string
	for f := range listed {
		formats = append(formats, f)
	}

	sort.Strings(formats)

	for _, f := range formats {
		o := newOnce(r, "P25.format", f, p.Pos(factory.Pos()))
		n := 0

		x := NewExplorer(p, &Client{
			Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
				if mi, ok := ins.(*ssa.MakeInterface); ok && types.Identical(mi.Type(), iface.Type()) {
					return madeOf(mi)
				}

				return textValue(x, st, ins)
			},
			Lookup: func(x *Explorer, st *State, ins *ssa.Lookup) (AV, bool) {
				m := constMap(ins.X)
				k := x.Eval(st, ins.Index)

				if m == nil || k.K != KConst {
					return AV{}, false
				}

				v, ok := m[k.C.ExactString()]
				av := AV{K: KNil}

				if ok {
					if av, ok = madeOf(v); !ok {
						return AV{}, false
					}
				}

				if ins.CommaOk {
					return tupleOf([]AV{av, boolAV(ok)}), true
				}

				return av, true
			},
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				n++

				if how != "return" || len(results) != 1 || !strings.HasPrefix(results[0].ID, "made ") {
					o.fail(st, "there is no extractor for format "+f)

					return
				}

				name, ok := p25Name(p, results[0].T)
				if !ok || name != f {
					o.fail(st, "extractor of format "+f+" reports another name: "+name)
				}
			},
		})
		st := x.Initial(factory)
		st.Frames[0].Env[factory.Params[0]] = strAV(f)
		x.Run(st)

		if n == 0 {
			o.fail(nil, "factory of extractors does not return")
		}

		o.done(x)
	}

	// Names in results.
	it, _ := iface.Type().Underlying().(*types.Interface)

	for _, m := range sortedMembers(p.Lib) {
		t, ok := m.(*ssa.Type)
		if !ok || types.IsInterface(t.Type()) || !types.Implements(t.Type(), it) && !types.Implements(types.NewPointer(t.Type()), it) {
			continue
		}

		name, ok := p25Name(p, t.Type())

		for _, fn := range p.MethodsOf(t.Type()) {
			res := fn.Signature.Results()
			if res.Len() != 3 || !IsError(res.At(2).Type()) {
				continue
			}

			o := newOnce(r, "P25.result", FnName(fn), p.Pos(fn.Pos()))
			if !ok {
				o.fail(nil, "name of extractor is not a constant")
			}

			n := 0

			x := NewExplorer(p, &Client{
				NoInline: func(f *ssa.Function) bool {
					res := f.Signature.Results()

					return res.Len() != 1 || typeName(res.At(0).Type()) != "extract"
				},
				Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
				Exit: func(x *Explorer, st *State, how string, results []AV) {
					if how != "return" {
						o.fail(st, "extraction does not return")

						return
					}

					if st.NilOf(results[2]) == notNil {
						return
					}

					n++

					if c, ok := constStr(results[1]); !ok || c != name {
						o.fail(st, "result of extraction has another name")
					}

					if results[0].K == KNil {
						o.fail(st, "nothing is extracted without an error")
					}
				},
			})
			x.Run(x.Initial(fn))

			if n == 0 {
				o.fail(nil, "extraction never succeeds")
			}

			o.done(x)
		}
	}
}

// p25Name is the name that extractor reports.
func p25Name(p *Prog, t types.Type) (name string, ok bool) {
	nt, isNamed := deref(t).(*types.Named)
	if !isNamed {
		return "", false
	}

	for _, m := range p.MethodsOf(nt) {
		res := m.Signature.Results()
		if res.Len() != 1 || typeName(res.At(0).Type()) != "extract" {
			continue
		}

		first := true

		x := NewExplorer(p, &Client{
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				c, isConst := constStr(results[0])
				if how != "return" || !isConst || !first && c != name {
					ok = false

					return
				}

				name, ok, first = c, first || ok, false
			},
		})
		x.Run(x.Initial(m))
	}

	return name, ok
}

// urlParts are sources of parts of URL by name.
var urlParts = map[string]string{
	"scheme":   "Scheme",
	"user":     "User>Username",
	"pass":     "User>Password",
	"host":     ">Hostname",
	"port":     ">Port",
	"query":    ">Query",
	"path":     "Path",
	"fragment": "Fragment",
}

func p25URL(p *Prog, r *Report) {
	// The function that parses URL.
	var (
		decode *ssa.Function
		st     *types.Struct
		idx    int
	)

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Parent() != nil {
			continue
		}

		for _, ci := range callsOf(fn) {
			if n := CallName(ci.Common()); n != "net/url.Parse" {
				continue
			}

			for i := range fn.Signature.Results().Len() {
				if s, ok := deref(fn.Signature.Results().At(i).Type()).Underlying().(*types.Struct); ok {
					decode, st, idx = fn, s, i
				}
			}
		}
	}

	if !need(r, "P25.url", "function that decodes URL", decode != nil) {
		return
	}

	obl := map[string]*once{}

	var tags []string

	field := map[string]*types.Var{}

	for i := range st.NumFields() {
		tag := jsonName(st, i)
		field[tag] = st.Field(i)
		tags = append(tags, tag)
	}

	for _, tag := range sortedKeys(urlParts) {
		obl[tag] = newOnce(r, "P25.url", tag, p.Pos(decode.Pos()))

		if field[tag] == nil {
			obl[tag].fail(nil, "there is no part of URL with the name "+tag)
		}
	}

	for _, tag := range tags {
		if urlParts[tag] == "" {
			r.Fail("P25.url", "name "+tag, p.Pos(decode.Pos()), "part of URL has an unknown name", nil)
		}
	}

	n := 0

	x := NewExplorer(p, &Client{
		Keep: func(id string, _ types.Type) bool { return id == "P:urlerr" },
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if i := strings.Index(addr.ID, "parsedURL"); i >= 0 && ins != nil {
				f := lastField(addr.ID)
				v := AV{K: KSym, ID: "part " + f, T: ins.Type()}

				return v, true
			}

			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()

			switch pkg := calleePkg(cc); {
			case pkg == "net/url" && methodName(cc) == "":
				if len(args) == 0 || textKeyOf(asText(x, st, args[0])) != "sP:"+decode.Params[0].Name()+"+" {
					return nil
				}

				u := AV{K: KSym, ID: "parsedURL", T: cc.Signature().Results().At(0).Type()}
				st.SetNil(u, notNil)

				e := AV{K: KSym, ID: "P:urlerr", T: ErrorType}
				delete(st.Facts, e.ID)

				return &CallRes{Val: tupleOf([]AV{u, e})}
			case pkg == "net/url":
				base, ok := strings.CutPrefix(args[0].ID, "part ")
				if !ok {
					if args[0].ID != "parsedURL" {
						return nil
					}

					base = ""
				}

				s := cc.Signature().Results()

				var l []AV
				for i := range s.Len() {
					id := "part " + base + ">" + methodName(cc)
					if i > 0 {
						id += "#" + sprint(i)
					}

					v := AV{K: KSym, ID: id, T: s.At(i).Type()}
					delete(st.Facts, v.ID)
					l = append(l, v)
				}

				return &CallRes{Val: tupleOf(l)}
			case pkg == "strings" && cc.Signature().Results().Len() == 1:
				// Processing of a part.
				for _, a := range args {
					if strings.HasPrefix(a.ID, "part ") {
						return &CallRes{Val: AV{K: KSym, ID: a.ID, T: cc.Signature().Results().At(0).Type()}}
					}
				}
			}

			return nil
		},
		Exit: func(x *Explorer, s *State, how string, results []AV) {
			if how != "return" {
				for _, o := range obl {
					o.fail(s, "decoding of URL does not return")
				}

				return
			}

			if s.NilOf(results[len(results)-1]) == notNil || s.NilOf(AV{K: KSym, ID: "P:urlerr"}) == notNil {
				if s.NilOf(results[len(results)-1]) != notNil {
					for _, o := range obl {
						o.fail(s, "failure of parsing is not returned")
					}
				}

				return
			}

			n++

			for tag, o := range obl {
				if field[tag] == nil {
					continue
				}

				v := x.fieldOf(s, results[idx], field[tag].Name(), field[tag].Type())
				if results[idx].K == KAddr {
					v = x.loadID(s, results[idx].ID+"."+field[tag].Name(), field[tag].Type(), nil)
				}

				if v.ID != "part "+urlParts[tag] {
					o.fail(s, tag+" is not taken from the same part of the parsed URL: "+v.Key())
				}
			}
		},
	})
	x.Run(x.Initial(decode))

	for _, tag := range sortedKeys(urlParts) {
		if n == 0 {
			obl[tag].fail(nil, "URL is never decoded")
		}

		obl[tag].done(x)
	}

	// Encoding.
	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || fn.Signature.Results().Len() != 3 || !p.reachesCall(fn, func(ci ssa.CallInstruction) bool { return ci.Common().StaticCallee() == decode }) {
			continue
		}

		if res := fn.Signature.Results(); !isBytes(res.At(0).Type()) || !IsError(res.At(2).Type()) {
			continue
		}

		o := newOnce(r, "P25.encode", FnName(fn), p.Pos(fn.Pos()))
		n := 0

		x := NewExplorer(p, &Client{
			NoInline: func(f *ssa.Function) bool { return f == decode },
			Keep:     func(id string, _ types.Type) bool { return id == "P:decodeerr" || id == "P:jsonerr" },
			Value:    func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) { return textValue(x, st, ins) },
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
				if callee == decode {
					if textKeyOf(asText(x, st, args[0])) != "sP:"+fn.Params[len(fn.Params)-1].Name()+"+" {
						o.fail(st, "another text is decoded")
					}

					l := []AV{{}, {}}
					l[idx] = AV{K: KSym, ID: "decoded", T: decode.Signature.Results().At(idx).Type()}
					e := AV{K: KSym, ID: "P:decodeerr", T: ErrorType}
					delete(st.Facts, e.ID)
					l[1-idx] = e

					return &CallRes{Val: tupleOf(l)}
				}

				if n := CallName(ci.Common()); strings.HasPrefix(n, "encoding/json.Marshal") {
					v := AV{K: KSym, ID: "json of something", T: ci.Common().Signature().Results().At(0).Type()}
					if strings.Contains(args[0].ID, "decoded") {
						v.ID = "json of decoded"
					}

					e := AV{K: KSym, ID: "P:jsonerr", T: ErrorType}
					delete(st.Facts, e.ID)

					return &CallRes{Val: tupleOf([]AV{v, e})}
				}

				return nil
			},
			Exit: func(x *Explorer, st *State, how string, results []AV) {
				if how != "return" {
					o.fail(st, "extraction does not return")

					return
				}

				n++

				res := results[2]

				switch {
				case st.NilOf(AV{K: KSym, ID: "P:decodeerr"}) == notNil:
					if st.NilOf(res) != notNil {
						o.fail(st, "failure of decoding is not returned")
					}
				case st.NilOf(res) == notNil:
				case res.ID != "P:jsonerr" && st.NilOf(AV{K: KSym, ID: "P:jsonerr"}) != isNil:
					o.fail(st, "failure of encoding is not returned")
				case results[0].ID != "json of decoded":
					o.fail(st, "result is not JSON of the decoded URL")
				}
			},
		})
		x.Run(x.Initial(fn))

		if n == 0 {
			o.fail(nil, "extraction does not return")
		}

		o.done(x)
	}
}

// jsonName is the name of a field in JSON.
func jsonName(s *types.Struct, i int) string {
	tag := structTag(s.Tag(i), "json")
	if n, _, _ := strings.Cut(tag, ","); n != "" {
		return n
	}

	return s.Field(i).Name()
}
