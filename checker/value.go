package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}

	b, ok := s.Elem().Underlying().(*types.Basic)

	return ok && b.Kind() == types.Byte
}

func isText(t types.Type) bool { return isString(t) || isBytes(t) }

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)

	return ok && b.Info()&types.IsInteger != 0
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)

	return ok && isString(s.Elem())
}

// elements of a short slice literal.
func elements(st *State, a AV) ([]AV, bool) {
	j := strings.LastIndexByte(a.ID, '!')
	if j <= 0 {
		return nil, false
	}

	n, err := strconv.Atoi(a.ID[j+1:])
	if err != nil {
		return nil, false
	}

	var r []AV

	for k := range n {
		v, ok := st.Mem[a.ID[:j]+"["+strconv.Itoa(k)+"]"]
		if !ok {
			v = AV{K: KSym, ID: "unset"}
		}

		r = append(r, v)
	}

	return r, true
}

// asText is the text of a string or byte slice.
func asText(x *Explorer, st *State, a AV) AV {
	if a.K == KNil {
		return strAV("")
	}

	if el, ok := elements(st, a); ok {
		r := strAV("")

		for _, e := range el {
			if n, ok := constInt(e); ok {
				e = strAV(string([]byte{byte(n)}))
			} else {
				e = AV{K: KSym, ID: "byte(" + e.Key() + ")"}
			}

			r = x.concat(st, r, e, e)
		}

		return r
	}

	return a
}

func textSym(st *State, id string, l uint64) AV {
	a := AV{K: KSym, ID: id, T: types.Typ[types.String]}
	delete(st.Facts, id)
	st.AddLabel(a, l)

	return a
}

func itoa(st *State, a AV) AV {
	if n, ok := constInt(a); ok {
		return strAV(strconv.FormatInt(n, 10))
	}

	return textSym(st, "itoa("+a.Key()+")", st.Label(a))
}

// textValue evaluates conversions and operations on texts so that identity of their content is kept.
func textValue(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
	switch i := ins.(type) {
	case *ssa.Convert:
		v := x.Eval(st, i.X)
		if v.K == KTop {
			return AV{}, false
		}

		switch {
		case isText(i.X.Type()) && isText(i.Type()):
			return asText(x, st, v), true
		case isInteger(i.X.Type()) && isInteger(i.Type()):
			return v, true
		case isInteger(i.X.Type()) && !isText(i.Type()):
			return textSym(st, "float("+v.Key()+")", st.Label(v)), true
		}
	case *ssa.Slice:
		if a, ok := deref(i.X.Type()).Underlying().(*types.Array); ok && a.Len() == 0 && isStrings(i.Type()) {
			return AV{K: KSym, ID: x.id(st.Top(), i) + "!0", T: i.Type()}, true
		}

		if !isText(i.Type()) && !isStrings(i.Type()) || !isText(i.X.Type()) && !isStrings(i.X.Type()) {
			return AV{}, false
		}

		v := x.Eval(st, i.X)
		if v.K == KTop {
			return AV{}, false
		}

		if isText(i.Type()) {
			v = asText(x, st, v)
		}

		lo, hi := AV{}, AV{}

		if i.Low != nil {
			lo = x.Eval(st, i.Low)
			if n, ok := constInt(lo); ok && n == 0 {
				lo = AV{}
			}
		}

		if i.High != nil {
			hi = x.Eval(st, i.High)
			if n, ok := constInt(hi); ok && n == 0 && isText(i.Type()) {
				return strAV(""), true
			}

			if hi.ID == lenOf(v).ID && hi.ID != "" {
				hi = AV{}
			} else if hi.K == KTop {
				hi = AV{K: KSym, ID: x.id(st.Top(), i)}
			}
		}

		if i.Low != nil && x.Eval(st, i.Low).K == KTop {
			lo = AV{K: KSym, ID: x.id(st.Top(), i)}
		}

		if lo.K == KTop && hi.K == KTop {
			return v, true
		}

		return sliceOf(st, v, lo, hi, i.Type()), true
	case *ssa.MakeSlice:
		if isStrings(i.Type()) {
			return AV{K: KSym, ID: x.id(st.Top(), i) + "~m", T: i.Type()}, true
		}
	case *ssa.Call:
		return textBuiltin(x, st, i)
	}

	return AV{}, false
}

func sliceOf(st *State, v, lo, hi AV, t types.Type) AV {
	r := AV{K: KSym, ID: "sl(" + v.Key() + ";" + lo.Key() + ";" + hi.Key() + ")", T: t, Bind: []AV{v, lo, hi}}
	delete(st.Facts, r.ID)
	st.AddLabel(r, st.Label(v)|st.Label(v)&LabLow<<LabPartial)

	return r
}

func lenOf(v AV) AV {
	if v.K == KConst && v.C.Kind() == constant.String {
		return constAV(constant.MakeInt64(int64(len(constant.StringVal(v.C)))))
	}

	return AV{K: KSym, ID: "len(" + v.Key() + ")", T: types.Typ[types.Int], Bind: []AV{v}}
}

func textBuiltin(x *Explorer, st *State, i *ssa.Call) (AV, bool) {
	name := CallName(&i.Call)

	arg := func(k int) AV { return x.Eval(st, i.Call.Args[k]) }

	switch name {
	case "builtin:append":
		if len(i.Call.Args) != 2 {
			return AV{}, false
		}

		a, b := arg(0), arg(1)
		if a.K == KTop || b.K == KTop {
			return AV{}, false
		}

		switch {
		case isBytes(i.Type()):
			return x.concat(st, asText(x, st, a), asText(x, st, b), AV{K: KSym, ID: x.id(st.Top(), i) + "~c"}), true
		case isStrings(i.Type()):
			el, ok := elements(st, b)

			switch {
			case !ok && emptyList(i.Call.Args[0]):
				// Copy of a list.
				return b, true
			case ok:
				l := AV{K: KSym, ID: "l(" + a.Key(), T: i.Type(), Bind: append([]AV{a}, el...)}
				for _, e := range el {
					l.ID += "," + e.Key()
				}

				l.ID += ")"

				return l, true
			case a.K == KNil || strings.HasSuffix(a.ID, "!0"):
				return b, true
			}

			if el, ok := elements(st, a); ok && len(el) == 0 {
				return b, true
			}
		}
	case "builtin:len":
		if a := arg(0); (isText(i.Call.Args[0].Type()) || isStrings(i.Call.Args[0].Type()) && a.K == KSym) && a.K != KTop {
			v := a
			if isText(i.Call.Args[0].Type()) {
				v = asText(x, st, a)
			}

			// Length of a beginning of a text.
			if len(v.Bind) == 3 && isText(i.Call.Args[0].Type()) && v.Bind[2].K == KSym && len(v.Bind[2].Bind) == 1 {
				if n, ok := constInt(v.Bind[1]); v.Bind[1].K == KTop || ok && n == 0 {
					v = v.Bind[2].Bind[0]
				}
			}

			filled := false
			for _, e := range flatText(v) {
				if c, ok := constStr(e); ok && c != "" {
					filled = true
				}
			}

			if _, ok := constStr(v); ok {
				filled = false
			}

			v = lenOf(v)

			if f := st.Facts[v.ID]; filled && len(f.Ne) == 0 && v.K == KSym {
				f.Ne = []string{"0"}
				st.Facts[v.ID] = f
			}

			st.AddLabel(v, st.Label(a))

			return v, true
		}
	case "strconv.Itoa":
		if a := arg(0); a.K != KTop {
			return itoa(st, a), true
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		if a := arg(0); a.K != KTop {
			if n, ok := constInt(arg(1)); ok && n == 10 {
				return itoa(st, a), true
			}
		}
	case "strconv.AppendInt", "strconv.AppendUint":
		if a, b := arg(0), arg(1); a.K != KTop && b.K != KTop {
			if n, ok := constInt(arg(2)); ok && n == 10 {
				return x.concat(st, asText(x, st, a), itoa(st, b), AV{K: KSym, ID: x.id(st.Top(), i) + "~c"}), true
			}
		}
	case "builtin:copy":
		if a, b := arg(0), arg(1); a.K == KSym && strings.HasSuffix(a.ID, "~m") && b.K == KSym {
			// Length of the copy is part of its identity only when it is made for the source.
			if m, ok := i.Call.Args[0].(*ssa.MakeSlice); ok && x.Eval(st, m.Len).ID == lenOf(b).ID {
				st.Set("cp:"+a.ID, "1")
				st.Mem["cp:"+a.ID] = b
			}

			return AV{K: KSym, ID: x.id(st.Top(), i)}, true
		}
	case "bytes.Clone", "strings.Clone", "slices.Clone":
		if a := arg(0); a.K != KTop {
			return a, true
		}
	case "strings.Join":
		el, ok := elements(st, arg(0))

		sep, isC := constStr(arg(1))
		if !ok || !isC {
			if a := copied(st, arg(0)); a.K != KTop && isC {
				return textSym(st, "join("+a.Key()+","+sep+")", st.Label(a)), true
			}

			return AV{}, false
		}

		r := strAV("")

		for k, e := range el {
			if k > 0 {
				r = x.concat(st, r, strAV(sep), e)
			}

			r = x.concat(st, r, e, e)
		}

		return r, true
	}

	return AV{}, false
}

// flatText is the list of parts of a text with constants joined.
func flatText(a AV) []AV {
	var r []AV

	for _, p := range textParts(a) {
		c, ok := constStr(p)
		if ok && c == "" {
			continue
		}

		if ok && len(r) > 0 {
			if l, ok := constStr(r[len(r)-1]); ok {
				r[len(r)-1] = strAV(l + c)

				continue
			}
		}

		r = append(r, p)
	}

	return r
}

func textKeyOf(a AV) string {
	s := ""
	for _, p := range flatText(a) {
		s += p.Key() + "+"
	}

	return s
}

// addText joins texts.
func addText(x *Explorer, st *State, l ...AV) AV {
	r := strAV("")
	for _, a := range l {
		r = x.concat(st, r, a, AV{K: KSym, ID: "deep"})
	}

	return r
}

var _ = token.ADD

// copied is the source of a copied list.
func copied(st *State, a AV) AV {
	if b, ok := st.Mem["cp:"+a.ID]; ok && st.Get("cp:"+a.ID) != "" {
		return b
	}

	return a
}

// emptyList tells a value that is an empty list.
func emptyList(v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.Const:
		return i.Value == nil
	case *ssa.MakeSlice:
		c, ok := i.Len.(*ssa.Const)

		return ok && c.Int64() == 0
	case *ssa.Slice:
		if c, ok := i.High.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 && i.Low == nil {
			_, made := i.X.(*ssa.Alloc)

			return made
		}
	}

	return false
}
