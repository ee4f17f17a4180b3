package main

import (
	"go/constant"
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P21"] = p21 }

// Labels of records and of maps of their values, for each of readers.
const (
	labRec = labTr << 16
	labMap = labTr << 18
)

// csvEq follows comparison of a pair of records.
type csvEq struct {
	p       *Prog
	compare *once
	end     *once
	failure *once
	files   *once
	// What was seen.
	pairs, ends, reads int
	opened             map[string]string
	reuse              bool
}

func p21(p *Prog, r *Report) {
	r.Rule("P21.compare", "next records are read only when all values of the previous records were compared by their column names and are the same", 1)
	r.Rule("P21.end", "equality is reported only when both files have no more records", 1)
	r.Rule("P21.failure", "failure to read ends in a failure", 1)
	r.Rule("P21.files", "records are read from files that are named by different arguments", 1)
	r.Rule("P21.config", "settings of readers do not hide differences", 1)

	if !need(r, "P21.compare", "csvequals", p.Eq != nil) {
		return
	}

	main := p.Eq.Func("main")
	if !need(r, "P21.compare", "csvequals main", main != nil) {
		return
	}

	q := &csvEq{p: p, opened: map[string]string{}}
	pos := p.Pos(main.Pos())
	q.compare = newOnce(r, "P21.compare", "main", pos)
	q.end = newOnce(r, "P21.end", "main", pos)
	q.failure = newOnce(r, "P21.failure", "main", pos)
	q.files = newOnce(r, "P21.files", "main", pos)

	q.config(r, main)

	x := q.explore(main)

	need(r, "P21.compare", "comparison of records", q.pairs > 0 || q.compare.bad)
	need(r, "P21.end", "end of files", q.ends > 0 || q.end.bad || q.compare.bad)
	need(r, "P21.failure", "reads", q.reads > 0)
	need(r, "P21.files", "two readers", len(q.opened) == 2)

	for _, o := range []*once{q.compare, q.end, q.failure, q.files} {
		o.done(x)
	}
}

// config checks settings of readers.
func (q *csvEq) config(r *Report, main *ssa.Function) {
	n := 0

	for _, fn := range q.p.Funcs {
		if rootFn(fn).Pkg != q.p.Eq {
			continue
		}

		r.Saw(FnName(fn))

		for _, ci := range callsOf(fn) {
			if CallName(ci.Common()) == "encoding/csv.NewReader" {
				n++

				r.OK("P21.config", FnName(fn)+": reader", q.p.InstrPos(ci))
			}
		}

		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}

				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(deref(fa.X.Type()).String(), "encoding/csv.Reader") {
					continue
				}

				name := fieldVar(fa).Name()
				c, isConst := s.Val.(*ssa.Const)

				switch {
				case name == "ReuseRecord":
					q.reuse = q.reuse || !isConst || constant.BoolVal(c.Value)

					continue
				case isConst && (c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) || c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0):
					continue
				case name == "FieldsPerRecord" && (isConst && constant.Sign(c.Value) > 0 || isLenCall(s.Val)):
					continue
				case name == "Comma" && isConst && c.Int64() == ',':
					continue
				}

				r.Fail("P21.config", FnName(fn)+": "+name, q.p.InstrPos(s), "setting "+name+" of the reader makes different lines look the same", nil)
			}
		}
	}

	need(r, "P21.config", "readers", n > 0)
}

func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)

	return ok && CallName(&c.Call) == "builtin:len"
}

func (q *csvEq) other(x string) string {
	if x == "0" {
		return "1"
	}

	return "0"
}

func readerOf(id string) string {
	if s, ok := strings.CutPrefix(id, "@csv:"); ok {
		return s[:1]
	}

	return ""
}

// verified tells what is wrong with the previous pair of records.
func (q *csvEq) verified(st *State) string {
	switch {
	case st.Get("differ") != "":
		return "records that are not the same are taken as equal"
	case st.Get("spoil") != "":
		return "values that are compared are not values of the record: " + st.Get("spoil")
	case st.Get("dir:0") != "" && st.Get("dir:1") != "":
		return ""
	case st.Get("lens") != "" && (st.Get("dir:0") != "" || st.Get("dir:1") != ""):
		return ""
	case st.Get("dir:0") == "" && st.Get("dir:1") == "":
		return "records are not compared"
	}

	return "records are compared only in one direction, extra columns are not found"
}

// settle is called when the previous records are not needed anymore.
func (q *csvEq) settle(st *State) {
	a, b := st.Get("out:0"), st.Get("out:1")

	switch {
	case a == "fail" || b == "fail":
		q.failure.fail(st, "failure to read is ignored")
	case a == "eof" && b == "eof":
		q.end.fail(st, "files are read after the end")
	case a == "eof" || b == "eof":
		q.end.fail(st, "one of the files has more records than another")
	case a != b:
		q.compare.fail(st, "record is skipped without comparison")
	default:
		q.pairs++

		if msg := q.verified(st); msg != "" {
			q.compare.fail(st, msg)
		}
	}

	for k := range st.Auto {
		for _, pfx := range []string{"out:", "fill:", "dir:", "differ", "spoil", "lens", "in:", "into:", "miss:", "eq", "cur", "done:"} {
			if strings.HasPrefix(k, pfx) {
				delete(st.Auto, k)
			}
		}
	}
}

// finish is called when equality is reported.
func (q *csvEq) finish(st *State) {
	a, b := st.Get("out:0"), st.Get("out:1")

	switch {
	case st.Get("opened") == "":
		if st.Get("usage") == "" {
			q.end.fail(st, "equality is reported without reading when two files are named")
		}
	case a == "eof" && b == "eof":
		q.ends++
	case a == "fail" || b == "fail":
		q.failure.fail(st, "failure to read is reported as equality")
	case a == "eof" || b == "eof":
		q.end.fail(st, "equality is reported when one of the files has more records than another")
	default:
		q.end.fail(st, "equality is reported before the end of files")
	}
}

var eofAV = AV{K: KSym, ID: "@eof"}

func (q *csvEq) explore(main *ssa.Function) *Explorer {
	w := &Rows{P: q.p}

	bit := func(base uint64, rd string) uint64 {
		n, _ := strconv.Atoi(rd)

		return base << n
	}

	for _, rd := range []string{"0", "1"} {
		nop := func(*State, ssa.Instruction, string) {}
		w.Each = append(w.Each, &ForEach{Name: "record " + rd, Bit: bit(labRec, rd), Bad: nop}, &ForEach{Name: "map " + rd, Bit: bit(labMap, rd), Bad: nop})
	}

	reader := func(b uint64) (rd string, isMap bool) {
		for _, rd := range []string{"0", "1"} {
			switch b {
			case bit(labRec, rd):
				return rd, false
			case bit(labMap, rd):
				return rd, true
			}
		}

		return "", false
	}

	// Result of comparison of elements of a map.
	settleElem := func(st *State, rd string) {
		if st.Get("cur") != rd {
			return
		}

		has := st.Get("eqhas") != ""
		if has && (st.Get("eq") != "" || st.Get("dir:"+q.other(rd)) != "") {
			st.Set("cur", "")

			return
		}

		st.Set("differ", "1")
		st.Set("cur", "")
	}

	iterMap := func(x *Explorer, st *State, ins *ssa.If) (key, m string) {
		c := x.Eval(st, ins.Cond)
		for c.K == KNot {
			c = *c.X
		}

		if e, ok := ins.Cond.(*ssa.Extract); ok {
			if n, ok := e.Tuple.(*ssa.Next); ok {
				return strings.TrimSuffix(c.ID, "#0") + "#1", x.Eval(st, n.Iter).ID
			}
		}

		return "", ""
	}

	w.Iter = func(x *Explorer, st *State, ins *ssa.If, b uint64) {
		rd, isMap := reader(b)

		if !isMap {
			if st.Get("in:"+rd) == "p" || !fullLoop(ins) || x.partial(st, ins, b) {
				st.Set("miss:"+rd, "1")
			}

			st.Set("in:"+rd, "p")

			return
		}

		settleElem(st, rd)

		key, m := iterMap(x, st, ins)
		st.Set("eq", "")
		st.Set("eqhas", "")
		st.Set("cur", rd)
		st.Set("curkey", key)
		st.Set("curmap", m)

		if st.Get("fill:"+m) != rd {
			st.Set("differ", "1")
		}
	}
	w.Done = func(x *Explorer, st *State, ins *ssa.If, b uint64) {
		rd, isMap := reader(b)

		if !isMap {
			in := st.Get("in:" + rd)
			if in == "" {
				// Records always have fields.
				st.Dead = true

				return
			}

			if m := st.Get("into:" + rd); m != "" && in == "k" && st.Get("miss:"+rd) == "" {
				st.Set("fill:"+m, rd)
				st.AddLabel(AV{K: KSym, ID: m}, bit(labMap, rd))
			}

			st.Set("in:"+rd, "")
			st.Set("into:"+rd, "")
			st.Set("miss:"+rd, "")

			return
		}

		settleElem(st, rd)

		_, m := iterMap(x, st, ins)
		if st.Get("fill:"+m) == rd {
			st.Set("dir:"+rd, "1")
		}
	}
	w.Update = func(_ *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		for _, rd := range []string{"0", "1"} {
			idx, ok := recElem(val.ID, rd)
			if !ok {
				continue
			}

			// Name of the column of the same file.
			for k, v := range st.Auto {
				list, isKeys := strings.CutPrefix(k, "keys:")
				if isKeys && v == rd && listIndex(key.ID, list) == idx {
					if st.Get("in:"+rd) == "p" {
						st.Set("in:"+rd, "k")
					}

					st.Set("into:"+rd, m.ID)

					return
				}
			}

			if kid, ok := recElem(key.ID, rd); ok && kid == idx && st.Get("nread:"+rd) == "1" {
				if st.Get("in:"+rd) == "p" {
					st.Set("in:"+rd, "k")
				}

				st.Set("into:"+rd, m.ID)

				return
			}
		}

		if m.T != nil && strings.HasPrefix(m.T.Underlying().String(), "map[string]string") {
			st.Set("spoil", "value is kept under a wrong name at "+q.p.InstrPos(ins))
			st.Set("fill:"+m.ID, "")
		}
	}
	w.Concat = func(*Explorer, *State, *ssa.Call, AV, AV) {}
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		if len(el) == 0 {
			return
		}

		st.Set("filled:"+x.id(st.Top(), ins)+"~a", "1")
	}

	c := &Client{Callbacks: false, MaxStates: 200000}
	c.Value = func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
		switch i := ins.(type) {
		case *ssa.UnOp:
			if g, ok := i.X.(*ssa.Global); ok && i.Op == token.MUL && g.Pkg.Pkg.Path() == "os" && g.Name() == "Args" {
				return AV{K: KSym, ID: "@os.Args", T: i.Type()}, true
			}

			if g, ok := i.X.(*ssa.Global); ok && i.Op == token.MUL && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
				st.SetNil(eofAV, notNil)

				return eofAV, true
			}
		case *ssa.BinOp:
			a, b := x.Eval(st, i.X), x.Eval(st, i.Y)
			if (i.Op == token.EQL || i.Op == token.NEQ) && (a.ID == "@eof" && strings.HasPrefix(b.ID, "@err:") || b.ID == "@eof" && strings.HasPrefix(a.ID, "@err:")) {
				return boolAV(i.Op == token.NEQ), true
			}

			if (i.Op == token.ADD || i.Op == token.SUB) && isInteger(i.Type()) {
				if phi, ok := i.X.(*ssa.Phi); !ok || !indexes(phi, i) {
					return AV{K: KSym, ID: "n:" + x.id(st.Top(), i), T: i.Type()}, true
				}
			}
		case *ssa.Call:
			if isLenCall(i) {
				if v := x.Eval(st, i.Call.Args[0]); v.ID != "" && st.Get("filled:"+v.ID) != "" {
					st.Facts["len(s@filled)"] = Fact{Ne: []string{"0"}}

					return AV{K: KSym, ID: "len(s@filled)", T: i.Type()}, true
				}
			}

			if CallName(&i.Call) == "builtin:append" && len(i.Call.Args) == 2 {
				base := x.Eval(st, i.Call.Args[0])

				if el, empty := elements(st, base); base.K == KNil || empty && len(el) == 0 || st.NilOf(base) == isNil || strings.HasSuffix(base.ID, "~m") && len(base.Bind) == 1 && base.Bind[0].Key() == "c0" {
					if v, ok := q.copied(st, x.Eval(st, i.Call.Args[1])); ok {
						return v, true
					}
				}
			}

			if CallName(&i.Call) == "slices.Clone" {
				if v, ok := q.copied(st, x.Eval(st, i.Call.Args[0])); ok {
					return v, true
				}
			}

			if CallName(&i.Call) == "builtin:copy" {
				dst, src := x.Eval(st, i.Call.Args[0]), x.Eval(st, i.Call.Args[1])
				if len(dst.Bind) == 1 && dst.Bind[0].ID == "len(s"+src.ID+")" {
					if v, ok := q.copied(st, src); ok {
						st.Set("keys:"+dst.ID, st.Get("keys:"+v.ID))
						st.AddLabel(dst, st.Label(v))
					}
				}
			}

			if CallName(&i.Call) == "builtin:delete" {
				q.deleted(st, x.Eval(st, i.Call.Args[0]), x.Eval(st, i.Call.Args[1]), i)
			}
		}

		return AV{}, false
	}
	c.Call = q.call
	c.Edge = func(x *Explorer, st *State, ins *ssa.If, taken bool) {
		q.edge(x, st, ins, taken)
	}
	c.Exit = func(_ *Explorer, st *State, kind string, _ []AV) {
		if kind == "return" {
			q.finish(st)
		}
	}

	x := NewExplorer(q.p, w.Client(c))
	x.Run(x.Initial(main))

	return x
}

// indexes tells that a counter is an index of a loop.
func indexes(phi *ssa.Phi, next ssa.Value) bool {
	for _, v := range []ssa.Value{phi, next} {
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.IndexAddr:
				return true
			case *ssa.BinOp:
				if isLenCall(i.Y) || isLenCall(i.X) {
					return true
				}
			}
		}
	}

	return false
}

// listIndex is an index of an element of a list.
func listIndex(id, list string) string {
	for _, s := range []string{id, strings.TrimPrefix(id, "@")} {
		if idx, ok := strings.CutPrefix(s, list+"«"); ok {
			return strings.TrimSuffix(idx, "»")
		}
	}

	return ""
}

// recElem is an index of an element of a record.
func recElem(id, rd string) (string, bool) {
	s, ok := strings.CutPrefix(strings.TrimPrefix(id, "@"), "rec:"+rd+":")
	if !ok {
		if s, ok = strings.CutPrefix(strings.TrimPrefix(id, "@@"), "rec:"+rd+":"); !ok {
			return "", false
		}
	}

	_, idx, ok := strings.Cut(s, "«")
	if !ok {
		return "", false
	}

	return strings.CutSuffix(idx, "»")
}

// copied makes a copy of the first record.
func (q *csvEq) copied(st *State, src AV) (AV, bool) {
	for k, rd := range []string{"0", "1"} {
		if src.ID == "@rec:"+rd+":1" {
			v := AV{K: KSym, ID: "@keys:" + rd, T: src.T}
			st.Set("keys:"+v.ID, rd)
			st.SetNil(v, notNil)
			st.AddLabel(v, uint64(labRec)<<k)
			st.Facts["len(s"+v.ID+")"] = Fact{Ne: []string{"0"}}

			return v, true
		}
	}

	return AV{}, false
}

// deleted element does not take part in comparison.
func (q *csvEq) deleted(st *State, m, k AV, ins ssa.Instruction) {
	if st.Get("fill:"+m.ID) == "" || k.ID != "" && k.ID == st.Get("curkey") && st.Get("cur") != "" {
		return
	}

	st.Set("spoil", "value is deleted at "+q.p.InstrPos(ins))
}

func (q *csvEq) edge(x *Explorer, st *State, ins *ssa.If, taken bool) {
	c := x.Eval(st, ins.Cond)
	for c.K == KNot {
		c = *c.X
		taken = !taken
	}

	if notTwo(c, taken) {
		st.Set("usage", "1")
	}

	key := st.Get("curkey")
	if c.K == KSym && taken && key != "" {
		if m, ok := strings.CutPrefix(c.ID, "@has "); ok {
			m, k, _ := strings.Cut(m, "«")
			if k == "s"+key+"»" && st.Get("fill:"+m) == q.other(st.Get("cur")) {
				st.Set("eqhas", "1")
			}
		}
	}

	if c.K != KCmp || c.Op != token.EQL && c.Op != token.NEQ || (c.Op == token.EQL) != taken {
		return
	}

	a, b := c.X.ID, c.Y.ID

	// Values of the same column.
	am, ak, aok := strings.Cut(strings.TrimPrefix(a, "@"), "«")
	bm, bk, bok := strings.Cut(strings.TrimPrefix(b, "@"), "«")

	if aok && bok && ak == bk && ak == "s"+key+"»" {
		fa, fb := st.Get("fill:"+am), st.Get("fill:"+bm)
		if fa != "" && fb != "" && fa != fb {
			st.Set("eq", "1")
		}
	}

	// Number of columns.
	am, aok = strings.CutPrefix(a, "len(s")
	bm, bok = strings.CutPrefix(b, "len(s")

	if aok && bok {
		side := func(s string) string {
			s = strings.TrimSuffix(s, ")")
			for _, rd := range []string{"0", "1"} {
				if strings.HasPrefix(s, "@rec:"+rd) {
					return rd
				}
			}

			return st.Get("fill:" + s)
		}

		if sa, sb := side(am), side(bm); sa != "" && sb != "" && sa != sb {
			st.Set("lens", "1")
		}
	}
}

// notTwo tells that two files can not be named when a condition holds.
func notTwo(c AV, taken bool) bool {
	if c.K != KCmp {
		return false
	}

	a, b, op := *c.X, *c.Y, c.Op
	if a.K == KConst {
		a, b = b, a

		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}

	if (a.ID == "@arg:c0" || a.ID == "@arg:c1") && b.Key() == `c""` && (op == token.EQL) == taken && (op == token.EQL || op == token.NEQ) {
		return true
	}

	n, isInt := constInt(b)
	if !isInt {
		return false
	}

	// Name of the program is the first of arguments.
	two := int64(2)

	switch a.ID {
	case "@narg", "len(s@args)":
	case "len(s@os.Args)":
		two = 3
	default:
		return false
	}

	return constant.Compare(constant.MakeInt64(two), op, constant.MakeInt64(n)) != taken
}

func (q *csvEq) call(x *Explorer, st *State, ci ssa.CallInstruction, _ *ssa.Function, args []AV) *CallRes {
	call, _ := ci.(*ssa.Call)
	name := CallName(ci.Common())

	switch name {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "runtime.Goexit":
		return &CallRes{Stop: true}
	case "os.Exit":
		if n, ok := constInt(args[0]); !ok || n == 0 {
			q.finish(st)
		}

		return &CallRes{Stop: true}
	case "flag.NArg":
		return &CallRes{Val: AV{K: KSym, ID: "@narg", T: call.Type()}}
	case "flag.Args":
		v := AV{K: KSym, ID: "@args", T: call.Type()}
		st.SetNil(v, notNil)

		return &CallRes{Val: v}
	case "flag.Arg":
		return &CallRes{Val: AV{K: KSym, ID: "@arg:" + args[0].Key(), T: call.Type()}}
	case "os.Open", "os.OpenFile":
		st.Set("opened", "1")

		f := AV{K: KSym, ID: "@file:" + args[0].Key(), T: call.Type()}
		st.SetNil(f, notNil)

		n := st.fork()
		e := AV{K: KSym, ID: "@operr"}
		n.SetNil(e, notNil)
		n.Top().Env[call] = tupleOf([]AV{f, e})
		n.Top().Idx++
		x.enqueue(n)

		return &CallRes{Val: tupleOf([]AV{f, {K: KNil}})}
	case "encoding/csv.NewReader":
		return q.newReader(st, call, args[0])
	case "errors.Is":
		if len(args) == 2 && args[1].ID == "@eof" {
			switch {
			case args[0].ID == "@eof":
				return &CallRes{Val: boolAV(true)}
			case strings.HasPrefix(args[0].ID, "@err:"), args[0].K == KNil:
				return &CallRes{Val: boolAV(false)}
			}
		}
	case "(*encoding/csv.Reader).Read":
		return q.read(x, st, call, args[0])
	case "(*encoding/csv.Reader).ReadAll":
		q.compare.fail(st, "all records are read at once, comparison is not followed")

		return &CallRes{Stop: true}
	}

	if call != nil && len(args) > 0 && (strings.HasSuffix(name, "/progress.NewCountingReader") || name == "bufio.NewReader" || name == "bufio.NewReaderSize") && strings.HasPrefix(args[0].ID, "@file:") {
		v := args[0]
		v.ID = "@file:" + strings.TrimPrefix(v.ID, "@file:")
		v.T = call.Type()

		return &CallRes{Val: v}
	}

	return nil
}

func (q *csvEq) newReader(st *State, call *ssa.Call, src AV) *CallRes {
	n := st.Get("readers")

	num := "0"
	if n != "" {
		num = "1"
	}

	st.Set("readers", n+"r")

	if len(n) > 1 {
		q.files.fail(st, "there are more than two readers")

		return &CallRes{Stop: true}
	}

	if !strings.HasPrefix(src.ID, "@file:") {
		q.files.fail(st, "source of the reader is not a whole file at "+q.p.InstrPos(call))
	}

	q.opened[num] = src.ID
	st.Set("src:"+num, src.ID)

	if num == "1" && st.Get("src:0") == src.ID {
		q.files.fail(st, "both readers read the same file at "+q.p.InstrPos(call))
	}

	v := AV{K: KSym, ID: "@csv:" + num, T: call.Type()}
	st.SetNil(v, notNil)

	return &CallRes{Val: v}
}

func (q *csvEq) read(x *Explorer, st *State, call *ssa.Call, rcv AV) *CallRes {
	rd := readerOf(rcv.ID)
	if rd == "" {
		q.compare.fail(st, "reader of a record is not known at "+q.p.InstrPos(call))

		return &CallRes{Stop: true}
	}

	q.reads++

	if st.Get("out:"+rd) != "" {
		q.settle(st)
	}

	n := "n"
	if st.Get("nread:"+rd) == "" {
		n = "1"
	}

	st.Set("nread:"+rd, n)

	rec := AV{K: KSym, ID: "@rec:" + rd + ":" + n, T: resultType(call, 0)}

	if n == "n" {
		// Elements of the previous record.
		for _, m := range []string{"rec:" + rd + ":n«"} {
			for k := range st.Mem {
				if strings.Contains(k, m) {
					delete(st.Mem, k)
				}
			}

			for k := range st.Facts {
				if strings.Contains(k, m) {
					delete(st.Facts, k)
				}
			}
		}

		// The same memory has another record now.
		if !q.reuse {
			st.Set("keys:@rec:"+rd+":1", rd)
			st.Set("keys:rec:"+rd+":1", rd)
		} else {
			st.Set("keys:@rec:"+rd+":1", "")
			st.Set("keys:rec:"+rd+":1", "")
		}
	}

	bit := uint64(labRec)
	if rd == "1" {
		bit <<= 1
	}

	outcome := func(s *State, out string, a, b AV) {
		s.Set("out:"+rd, out)
		s.Note(q.p.InstrPos(call), "read of file "+rd+": "+out)
		s.Top().Env[call] = tupleOf([]AV{a, b})
		s.Top().Idx++
		x.enqueue(s)
	}

	// End.
	s := st.fork()
	s.SetNil(eofAV, notNil)
	outcome(s, "eof", AV{K: KNil}, eofAV)

	// Failure, record with wrong number of fields is returned with a failure.
	for _, v := range []AV{{K: KNil}, {K: KSym, ID: "@rec:" + rd + ":f", T: rec.T}} {
		s = st.fork()
		e := AV{K: KSym, ID: "@err:" + rd}
		s.SetNil(e, notNil)

		if v.ID != "" {
			s.SetNil(v, notNil)
		}

		outcome(s, "fail", v, e)
	}

	st.SetNil(rec, notNil)
	st.AddLabel(rec, bit)
	st.Facts["len(s"+rec.ID+")"] = Fact{Ne: []string{"0"}}
	st.Set("out:"+rd, "ok")

	return &CallRes{Val: tupleOf([]AV{rec, {K: KNil}})}
}
