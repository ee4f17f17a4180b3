package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const textKey = ".$text"

// concat is a text expression.
func (x *Explorer) concat(st *State, a, b AV, fresh AV) AV {
	ca, cb := x.constOf(st, a), x.constOf(st, b)

	switch {
	case ca != nil && cb != nil && ca.Kind() == constant.String && cb.Kind() == constant.String:
		return strAV(constant.StringVal(ca) + constant.StringVal(cb))
	case ca != nil && ca.Kind() == constant.String && constant.StringVal(ca) == "" && b.K != KTop:
		return b
	case cb != nil && cb.Kind() == constant.String && constant.StringVal(cb) == "" && a.K != KTop:
		return a
	}

	l := st.Label(a) | st.Label(b)

	if a.K == KTop || b.K == KTop || exprDepth(a)+exprDepth(b) >= 16 {
		st.AddLabel(fresh, l)

		return fresh
	}

	v := AV{K: KSym, ID: "e(" + a.Key() + "+" + b.Key() + ")", T: types.Typ[types.String], Op: token.ADD, X: &a, Y: &b}
	st.AddLabel(v, l)

	return v
}

// textCall models formatting and string builders.
func (x *Explorer) textCall(st *State, fr *Frame, i *ssa.Call, name string, args []AV) bool {
	app := func(id string, v AV) {
		old, ok := st.Mem[id+textKey]
		if !ok {
			old = strAV("")
		}

		r := x.concat(st, old, v, AV{K: KSym, ID: x.id(fr, i) + "~t", T: types.Typ[types.String]})
		st.Mem[id+textKey] = r

		if x.C.Text != nil {
			x.C.Text(x, st, i, r)
		}
	}

	done := func(v AV) bool {
		fr.Env[i] = v
		fr.Idx++

		return true
	}

	isBuf := func(a AV) bool { return a.K == KAddr && a.ID != "" }

	switch name {
	case "fmt.Sprintf":
		v, ok := x.format(st, args, AV{K: KSym, ID: x.id(fr, i), T: i.Type()})
		if !ok {
			return false
		}

		if x.C.Text != nil {
			x.C.Text(x, st, i, v)
		}

		return done(v)
	case "strings.Join":
		v, ok := x.joinText(st, args, AV{K: KSym, ID: x.id(fr, i), T: i.Type()})
		if !ok {
			return false
		}

		if x.C.Text != nil {
			x.C.Text(x, st, i, v)
		}

		return done(v)
	case "fmt.Fprintf":
		if !isBuf(args[0]) {
			return false
		}

		v, ok := x.format(st, args[1:], AV{K: KSym, ID: x.id(fr, i), T: types.Typ[types.String]})
		if !ok {
			return false
		}

		app(args[0].ID, v)
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		if !isBuf(args[0]) {
			return false
		}

		app(args[0].ID, args[1])
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		if !isBuf(args[0]) {
			return false
		}

		v := args[1]
		if c := x.constOf(st, v); c != nil && c.Kind() == constant.Int {
			n, _ := constant.Int64Val(c)
			v = strAV(string(rune(n)))
		}

		app(args[0].ID, v)
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if v, ok := st.Mem[args[0].ID+textKey]; ok && isBuf(args[0]) {
			return done(v)
		}

		return false
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		if !isBuf(args[0]) {
			return false
		}

		st.Mem[args[0].ID+textKey] = strAV("")

		return done(AV{})
	default:
		return false
	}

	res := x.resultSyms(st, i, i.Call.Signature())
	fr.Env[i] = res
	fr.Idx++

	return true
}

// joinText is an expression of joined elements of a literal.
func (x *Explorer) joinText(st *State, args []AV, fresh AV) (AV, bool) {
	base, num, ok := strings.Cut(args[0].ID, "!")

	n, err := strconv.Atoi(num)
	if !ok || err != nil || args[1].K == KTop {
		return AV{}, false
	}

	res := strAV("")

	for k := range n {
		v, ok := st.Mem[base+"["+strconv.Itoa(k)+"]"]
		if !ok {
			return AV{}, false
		}

		if k > 0 {
			res = x.concat(st, res, args[1], fresh)
		}

		res = x.concat(st, res, v, fresh)
	}

	return res, true
}

// format is an expression of a formatted text.
func (x *Explorer) format(st *State, args []AV, fresh AV) (AV, bool) {
	f, ok := constStr(args[0])
	if !ok || len(args) != 2 {
		return AV{}, false
	}

	n := 0
	base := args[1].ID

	if j := strings.LastIndexByte(base, '!'); j > 0 {
		n, _ = strconv.Atoi(base[j+1:])
		base = base[:j]
	} else if args[1].K != KNil {
		return AV{}, false
	}

	res := strAV("")
	k := 0

	for f != "" {
		j := strings.IndexByte(f, '%')
		if j < 0 || j+1 >= len(f) {
			break
		}

		res = x.concat(st, res, strAV(f[:j]), fresh)

		verb := f[j+1]
		f = f[j+2:]

		switch verb {
		case '%':
			res = x.concat(st, res, strAV("%"), fresh)
		case 's', 'v', 'd', 'q', 't':
			if k >= n {
				return AV{}, false
			}

			v, ok := st.Mem[base+"["+strconv.Itoa(k)+"]"]
			if !ok {
				return AV{}, false
			}

			k++

			switch {
			case verb == 'q':
				q := AV{K: KSym, ID: "q(" + v.Key() + ")", T: types.Typ[types.String]}
				st.AddLabel(q, st.Label(v))
				v = q
			case v.K == KConst && v.C.Kind() != constant.String:
				v = strAV(v.C.ExactString())
			}

			res = x.concat(st, res, v, fresh)
		default:
			return AV{}, false
		}
	}

	return x.concat(st, res, strAV(f), fresh), true
}

// widenText forgets contents of builders at a loop header.
func (x *Explorer) widenText(st *State, fr *Frame, b *ssa.BasicBlock) {
	var keys []string

	for k, v := range st.Mem {
		if strings.HasSuffix(k, textKey) && v.K == KSym && v.Op != 0 {
			keys = append(keys, k)
		}
	}

	sort.Strings(keys)

	for _, k := range keys {
		l := st.Label(st.Mem[k])
		v := AV{K: KSym, ID: "w" + k + fr.Ctx + strconv.Itoa(b.Index), T: types.Typ[types.String]}
		delete(st.Facts, v.ID)
		st.AddLabel(v, l)
		st.Mem[k] = v
	}
}

// textParts are parts of a text expression.
func textParts(a AV) []AV {
	if a.K == KSym && a.Op == token.ADD && a.X != nil {
		return append(textParts(*a.X), textParts(*a.Y)...)
	}

	return []AV{a}
}
