package main

import (
	"go/constant"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Linear keeps linear conditions on integers that hold on a path.
type Linear struct {
	// Class names a term, conditions with other terms are not kept.
	Class func(id string) string
}

// lin is a linear form: terms and constant.
type lin struct {
	c map[string]int64
	k int64
}

func (l lin) key() string {
	var t []string

	for a, c := range l.c {
		if c != 0 {
			t = append(t, strconv.FormatInt(c, 10)+"*"+a)
		}
	}

	sort.Strings(t)

	return strings.Join(t, "+")
}

func (l *Linear) form(a AV, sign int64, r *lin) bool {
	if a.K == KConst && a.C.Kind() == constant.Int {
		n, ok := constant.Int64Val(a.C)
		r.k += sign * n

		return ok
	}

	if a.K == KSym && a.X != nil && a.Y != nil && (a.Op == token.ADD || a.Op == token.SUB) {
		s := sign
		if a.Op == token.SUB {
			s = -sign
		}

		return l.form(*a.X, sign, r) && l.form(*a.Y, s, r)
	}

	if a.K != KSym {
		return false
	}

	n := l.Class(a.ID)
	if n == "" {
		return false
	}

	r.c[n] += sign

	return true
}

// Edge is to be called on every branch.
func (l *Linear) Edge(x *Explorer, st *State, ins *ssa.If, taken bool) {
	if l.Class == nil {
		return
	}

	l.assume(st, x.Eval(st, ins.Cond), taken)
}

func (l *Linear) assume(st *State, c AV, taken bool) {
	for c.K == KNot {
		c = *c.X
		taken = !taken
	}

	if c.K != KCmp {
		return
	}

	f := lin{c: map[string]int64{}}
	if !l.form(*c.X, 1, &f) || !l.form(*c.Y, -1, &f) {
		return
	}

	op := c.Op
	if !taken {
		op = negate(op)
	}

	neg := lin{c: map[string]int64{}, k: -f.k}
	for a, n := range f.c {
		neg.c[a] = -n
	}

	switch op {
	case token.LEQ:
		l.add(st, f, 0)
	case token.LSS:
		l.add(st, f, 1)
	case token.GEQ:
		l.add(st, neg, 0)
	case token.GTR:
		l.add(st, neg, 1)
	case token.EQL:
		l.add(st, f, 0)
		l.add(st, neg, 0)
	case token.NEQ:
		st.Set("lin!"+f.key()+"|"+strconv.FormatInt(f.k, 10), "1")
	}
}

// add keeps the strongest f + d <= 0.
func (l *Linear) add(st *State, f lin, d int64) {
	k := "lin:" + f.key()

	if old := st.Get(k); old != "" {
		if n, _ := strconv.ParseInt(old, 10, 64); n >= f.k+d {
			return
		}
	}

	st.Set(k, strconv.FormatInt(f.k+d, 10))

	// Opposite condition.
	neg := lin{c: map[string]int64{}}
	for a, n := range f.c {
		neg.c[a] = -n
	}

	if old := st.Get("lin:" + neg.key()); old != "" {
		if n, _ := strconv.ParseInt(old, 10, 64); n+f.k+d > 0 {
			st.Dead = true
		}
	}
}

// Clear forgets conditions that mention the term.
func (l *Linear) Clear(st *State, term string) {
	for k := range st.Auto {
		if strings.HasPrefix(k, "lin") && strings.Contains(k, "*"+term) {
			delete(st.Auto, k)
		}
	}
}

// Holds tells that the sum of terms with k is not above 0: terms are like "n", "-off".
func (l *Linear) Holds(st *State, k int64, terms ...string) bool {
	old := st.Get("lin:" + sum(terms).key())
	if old == "" {
		return false
	}

	n, _ := strconv.ParseInt(old, 10, 64)

	return n >= k
}

// Not tells that the sum of terms with k is not 0.
func (l *Linear) Not(st *State, k int64, terms ...string) bool {
	f := sum(terms)

	neg := lin{c: map[string]int64{}}
	for a, n := range f.c {
		neg.c[a] = -n
	}

	if l.Neq(st, k, terms...) {
		return true
	}

	var inv []string
	for a, n := range neg.c {
		if n < 0 {
			a = "-" + a
		}

		inv = append(inv, a)
	}

	return l.Holds(st, k+1, terms...) || l.Holds(st, -k+1, inv...)
}

// Neq tells that the sum of terms with k was compared with 0 and is different.
func (l *Linear) Neq(st *State, k int64, terms ...string) bool {
	f := sum(terms)

	neg := lin{c: map[string]int64{}}
	for a, n := range f.c {
		neg.c[a] = -n
	}

	return st.Get("lin!"+f.key()+"|"+strconv.FormatInt(k, 10)) != "" || st.Get("lin!"+neg.key()+"|"+strconv.FormatInt(-k, 10)) != ""
}

func sum(terms []string) lin {
	f := lin{c: map[string]int64{}}

	for _, t := range terms {
		if n, ok := strings.CutPrefix(t, "-"); ok {
			f.c[n]--
		} else {
			f.c[t]++
		}
	}

	return f
}
