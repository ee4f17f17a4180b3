package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const hashPath = "github.com/cespare/xxhash/v2"

// Hashes models hashing of texts: a hash is identified by the text.
type Hashes struct {
	flat, pl AV
	texts    map[string]AV
}

func (h *Hashes) put(a AV) string {
	k := textKeyOf(a)
	if h.texts == nil {
		h.texts = map[string]AV{}
	}

	h.texts[k] = a

	return k
}

func (h *Hashes) of(a AV) AV {
	return AV{K: KSym, ID: "h<" + h.put(a) + ">", T: types.Typ[types.Uint64]}
}

// text of a hash.
func (h *Hashes) text(v AV) (AV, bool) {
	if n, ok := constInt(v); ok && n == 0 {
		return strAV(""), true
	}

	if v.K != KSym || !strings.HasPrefix(v.ID, "h<") {
		return AV{}, false
	}

	t, ok := h.texts[strings.TrimSuffix(strings.TrimPrefix(v.ID, "h<"), ">")]

	return t, ok
}

// call models the hash function.
func (h *Hashes) call(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
	cc := ci.Common()
	if calleePkg(cc) != hashPath {
		return nil
	}

	name := CallName(cc)
	name = name[strings.LastIndexByte(name, '.')+1:]

	// Content of a digest.
	key := ""
	if len(args) > 0 {
		key = "dg:" + args[0].Key()
	}

	method := methodName(cc) != ""

	switch {
	case !method && (name == "Sum64" || name == "Sum64String"):
		return &CallRes{Val: h.of(asText(x, st, args[0]))}
	case !method && strings.HasPrefix(name, "New"):
		st.Set("dg:s"+x.id(st.Top(), ci.(ssa.Value)), "="+h.put(strAV("")))

		return &CallRes{Val: AV{K: KSym, ID: x.id(st.Top(), ci.(ssa.Value)), T: cc.Signature().Results().At(0).Type()}}
	case method && name == "Reset":
		st.Set(key, "="+h.put(strAV("")))

		return &CallRes{Val: AV{K: KNil}}
	case method && (name == "Write" || name == "WriteString"):
		v := AV{K: KSym, ID: "dirty"}

		if old := st.Get(key); old != "" {
			v = addText(x, st, h.texts[old[1:]], asText(x, st, args[1]))
		}

		st.Set(key, "="+h.put(v))

		return &CallRes{Val: tupleOf([]AV{{K: KSym, ID: "n", T: types.Typ[types.Int]}, {K: KNil}})}
	case method && name == "Sum64":
		old := st.Get(key)
		if old == "" {
			return &CallRes{Val: AV{K: KSym, ID: "dirty"}}
		}

		return &CallRes{Val: h.of(h.texts[old[1:]])}
	}

	return nil
}

// edge remembers empty texts.
func (h *Hashes) edge(x *Explorer, st *State, ins *ssa.If, taken bool) {
	for k, f := range st.Facts {
		if f.Eq != nil && f.Eq.ExactString() == "0" && (strings.HasPrefix(k, "len(") || k == h.pl.ID) {
			st.Set("z:"+k, "1")
		}
	}
}

// canon is a text with parts of the flat path divided at the end of the parent.
func (h *Hashes) canon(st *State, a AV) string {
	type part struct{ base, lo, hi AV }

	zero := func(v AV) bool {
		n, ok := constInt(v)

		return v.K == KTop || ok && n == 0 || v.ID != "" && st.Get("z:"+v.ID) != ""
	}

	var parts []part

	add := func(n part) {
		if n.hi.K != KTop && (zero(n.hi) || n.hi.Key() == n.lo.Key()) {
			return
		}

		if zero(n.lo) {
			n.lo = AV{}
		}

		if n.lo.K != KTop || n.hi.K != KTop {
			if st.Get("z:len("+sliceOf(st, n.base, n.lo, n.hi, nil).Key()+")") != "" {
				return
			}
		} else if st.Get("z:"+lenOf(n.base).ID) != "" {
			return
		}

		// The rest is known to be empty.
		if n.hi.K != KTop && st.Get("z:len("+sliceOf(st, n.base, n.hi, AV{}, nil).Key()+")") != "" {
			n.hi = AV{}
		}

		if k := len(parts) - 1; k >= 0 && parts[k].base.Key() == n.base.Key() && parts[k].hi.K != KTop && parts[k].hi.Key() == n.lo.Key() {
			parts[k].hi = n.hi

			return
		}

		parts = append(parts, n)
	}

	for _, e := range flatText(a) {
		n := part{base: e}
		if len(e.Bind) == 3 {
			n = part{e.Bind[0], e.Bind[1], e.Bind[2]}
		}

		if n.base.Key() == h.flat.Key() && n.lo.K == KTop && n.hi.K == KTop && h.pl.K != KTop && st.Get("z:"+lenOf(n.base).ID) == "" && !zero(h.pl) {
			add(part{n.base, AV{}, h.pl})
			add(part{n.base, h.pl, AV{}})

			continue
		}

		add(n)
	}

	s := ""
	for _, n := range parts {
		if n.lo.K == KTop && n.hi.K == KTop {
			s += textKeyOf(n.base)
		} else {
			s += n.base.Key() + "{" + n.lo.Key() + ":" + n.hi.Key() + "}+"
		}
	}

	return s
}
