package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P09"] = p09 }

// Labels of containers.
const (
	labIdx  = 1 << iota // indexes of keys of a projection
	labKeys             // keys
	labRow              // the result
	labTrim             // trimmed keys
	labTr               // transposed writers
	labRows             // transposed rows
	labSort             // sorted names of transposed tables
)

// Proj is the projection of keys to columns of a table.
type Proj struct {
	P *Prog

	idx, row, keys, filtered, transposed, trimmed, mapping, isTr, ext *types.Var
	kOrig, kName, kDst, kTrim, kKey, kType                            *types.Var

	setup, text, values, trValues, initCols, names *ssa.Function
}

func newProj(p *Prog, r *Report, rule string) *Proj {
	j := &Proj{
		P:   p,
		idx: p.Field("baseWriter", "keyIndexes"), row: p.Field("baseWriter", "row"), keys: p.Field("baseWriter", "keys"),
		filtered: p.Field("baseWriter", "filteredKeys"), transposed: p.Field("baseWriter", "transposed"),
		trimmed: p.Field("baseWriter", "trimmedKeys"), mapping: p.Field("baseWriter", "transposedMapping"),
		isTr: p.Field("baseWriter", "isTransposed"), ext: p.Field("baseWriter", "extName"),
		kOrig: p.Field("flKey", "original"), kName: p.Field("flKey", "replaced"), kDst: p.Field("flKey", "transposeDst"),
		kTrim: p.Field("flKey", "transposeTrimmed"), kKey: p.Field("flKey", "transposeKey"), kType: p.Field("flKey", "t"),
	}

	ok := true
	for name, f := range map[string]*types.Var{
		"baseWriter.keyIndexes": j.idx, "baseWriter.row": j.row, "baseWriter.keys": j.keys, "baseWriter.filteredKeys": j.filtered,
		"baseWriter.transposed": j.transposed, "baseWriter.trimmedKeys": j.trimmed, "baseWriter.transposedMapping": j.mapping,
		"baseWriter.isTransposed": j.isTr, "flKey.replaced": j.kName, "flKey.transposeDst": j.kDst, "flKey.transposeTrimmed": j.kTrim, "flKey.transposeKey": j.kKey,
	} {
		ok = need(r, rule, name, f != nil) && ok
	}

	if !ok {
		return nil
	}

	// Methods by what they take and give.
	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || !recvIs(fn, "baseWriter") || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}

		s := fn.Signature
		res := ""

		if s.Results().Len() == 1 {
			res = shortType(s.Results().At(0).Type())
		}

		switch {
		case takes(s, "[]Value") && res == "[][]string":
			j.text = fn
		case takes(s, "[]Value") && res == "[][]Value":
			j.trValues = fn
		case takes(s, "[]Value") && res == "[]Value":
			j.values = fn
		case takes(s, "[]flKey") && s.Results().Len() == 0:
			// The outermost one.
			if j.setup == nil || p.reachesFn(fn, func(f *ssa.Function) bool { return f == j.setup }) {
				j.setup = fn
			}
		}
	}

	ok = need(r, rule, "method that makes text rows", j.text != nil) &&
		need(r, rule, "method that makes rows of values", j.values != nil) &&
		need(r, rule, "method that makes transposed rows of values", j.trValues != nil) &&
		need(r, rule, "method that distributes keys", j.setup != nil)

	if !ok {
		return nil
	}

	return j
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func takes(s *types.Signature, t string) bool {
	for i := range s.Params().Len() {
		if shortType(s.Params().At(i).Type()) == t {
			return true
		}
	}

	return false
}

// param is the parameter of a type.
func paramOf(fn *ssa.Function, t string) *ssa.Parameter {
	for i, prm := range fn.Params {
		if (i > 0 || fn.Signature.Recv() == nil) && shortType(prm.Type()) == t {
			return prm
		}
	}

	return nil
}

func (j *Proj) labels() map[*types.Var]uint64 {
	return map[*types.Var]uint64{j.idx: labIdx, j.keys: labKeys, j.trimmed: labTrim, j.transposed: labTr}
}

// mode presets whether the writer is transposed.
func (j *Proj) mode(transposed bool, next func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool)) func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
	return func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
		if ins != nil && fieldVar(ins.X) == j.isTr {
			if _, stored := st.Mem[addr.ID]; !stored {
				return boolAV(transposed), true
			}
		}

		if next != nil {
			return next(x, st, addr, ins)
		}

		return AV{}, false
	}
}

// p is the identity of the projection an element of which is read, e.g. P:b.
func ownerOf(id string) string {
	id = bareID(id)

	if i := strings.IndexAny(id, "«"); i > 0 {
		id = id[:i]
	}

	if i := strings.LastIndexByte(id, '.'); i > 0 {
		return id[:i]
	}

	return id
}

func p09(p *Prog, r *Report) {
	r.Rule("P09.text", "row of texts has one field for each key of the projection, in their order, empty for absent and null", 1)
	r.Rule("P09.values", "row of values has the value of each key of the projection, in their order", 1)
	r.Rule("P09.columns", "list of columns has each key of the projection, in their order", 2)
	r.Rule("P09.head", "CSV header has the name of each column, in their order", 2)
	r.Rule("P09.partition", "each key is in exactly one projection, under its own index", 1)
	r.Rule("P09.write", "the row of the line is written to the main table exactly once", 4)
	r.Rule("P09.fields", "every field of a row is written once, in their order", 1)
	r.Rule("P09.slots", "row has a slot for each key, columns of keys and indexes of values are the same", 3)

	j := newProj(p, r, "P09.text")
	if j == nil {
		return
	}

	p09Text(p, r, j)
	p09Values(p, r, j)
	p09Columns(p, r, j)
	p09Head(p, r, j)
	p09Partition(p, r, j)

	for _, t := range j.writers() {
		j.receive(t, "P09.write", r)
	}

	p09Fields(p, r, j)
	p09Slots(p, r, j)
}

// slot of the row is the value of the current key: values[keyIndexes[i]].
func currentValue(values AV, idx string) string { return "@" + values.ID + "«" + idx + "»" }

// textOf checks the text of a value: empty exactly for null and absent.
func textOfValue(st *State, f AV, val string) string {
	kind := typeIs(st, val+".Type", "null", "")

	if c, ok := constStr(f); ok && c == "" {
		if kind != 1 {
			return "field is empty for a value that is present"
		}

		return ""
	}

	if f.ID != "fmt(s"+val+")" {
		return "field is not the text of the value of its key: " + f.Key()
	}

	if kind != 2 {
		return "field of an absent or null value is not empty"
	}

	return ""
}

// keyIdx is the current index of a key that is taken from the list.
func keyIdx(id string) bool {
	return strings.HasPrefix(id, "s@") && strings.Contains(id, ".keyIndexes«")
}

// elemOf splits identity of an element to the list and the index.
func elemOf(id string) (list, idx string, ok bool) {
	i := strings.Index(id, "«")
	if i < 0 || !strings.HasSuffix(id, "»") {
		return "", "", false
	}

	return id[:i], strings.TrimSuffix(id[i+len("«"):], "»"), true
}

// listCheck decides that a list is made with exactly one element for each element of a container.
type listCheck struct {
	o          *once
	fn         *ssa.Function
	transposed bool
	filtered   bool // the list of columns can be used instead of indexes
	bit        uint64

	// item tells whether a value is the element for the current index (or entry of a map), msg tells what is wrong with it.
	item func(x *Explorer, st *State, v AV) (idx string, ok bool, msg string)
	// result is the list that is used at the end.
	result func(x *Explorer, st *State, results []AV) AV
	// sink is a call that uses the list.
	sink func(ci ssa.CallInstruction) bool
}

func isEmptyList(a AV) bool {
	return a.K == KNil || strings.HasSuffix(a.ID, "~m") && len(a.Bind) == 1 && a.Bind[0].Key() == mkInt(0).Key()
}

func (j *Proj) list(l listCheck) {
	p, o := j.P, l.o
	fe := &ForEach{Name: "keys", Bit: l.bit, Bad: func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }}
	n, used := 0, 0

	hit := func(st *State) {
		n++

		if fe.Status(st) != "p" {
			o.fail(st, "more than one element for a key")
		}

		fe.Hit(st)
	}

	check := func(x *Explorer, st *State, v AV) {
		used++

		if fe.Status(st) != "x" {
			o.fail(st, "not every key has its element")
		}

		switch {
		case v.ID != "" && (st.Get("list:"+v.ID) != "" || v.ID == st.Get("last")):
		case st.Get("last") == "" && (v.K == KNil || len(v.Bind) == 1):
			// There are no keys.
		default:
			o.fail(st, "another list is used: "+v.Key())
		}
	}

	w := &Rows{P: p, Fields: j.labels(), Each: []*ForEach{fe}}
	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		if len(el) != 1 || fe.Status(st) == "" || fe.Status(st) == "x" {
			return
		}

		_, ok, msg := l.item(x, st, el[0])
		mine := base.ID != "" && base.ID == st.Get("last")

		switch {
		case !ok && mine:
			o.fail(st, "element is not of its key: "+el[0].Key())

			return
		case !ok:
			return
		case !mine && !isEmptyList(base):
			o.fail(st, "element is added to another list: "+base.Key())

			return
		case !mine && st.Get("last") != "":
			o.fail(st, "elements of the list are dropped")
		}

		if msg != "" {
			o.fail(st, msg)
		}

		hit(st)
		st.Set("last", x.id(st.Top(), ins)+"~a")
	}
	w.Store = func(x *Explorer, st *State, ins *ssa.Store, base, at AV, v AV) {
		if fe.Status(st) == "" || !strings.HasSuffix(base.ID, "~m") {
			return
		}

		idx, ok, msg := l.item(x, st, v)

		switch {
		case !ok && fe.Status(st) != "x":
			o.fail(st, "element is not of its key: "+v.Key())

			return
		case !ok:
			if f := x.loadID(st, base.ID+"«"+at.Key()+"».replaced", j.kName.Type(), nil); bareID(x.fieldOf(st, v, "replaced", j.kName.Type()).ID) != bareID(f.ID) {
				o.fail(st, "column gets another name")
			}

			return
		case msg != "":
			o.fail(st, msg)
		}

		// Position: either the index in the list of indexes, or the index that the element itself has.
		if strings.Contains(v.ID, ".filteredKeys«") {
			if idx != at.Key() {
				o.fail(st, "element is at a wrong position")
			}
		} else if l.bit == labIdx {
			if _, pos, _ := elemOf(strings.TrimLeft(idx, "s@")); pos != at.Key() {
				o.fail(st, "element is at a wrong position")
			}
		} else if bareID(at.ID) != bareID(idx)+".idx" {
			o.fail(st, "element is at a wrong position")
		}

		// The list has a place for every element.
		if l0 := base.Bind[0]; st.Label(l0)&l.bit == 0 || len(l0.Bind) != 1 {
			o.fail(st, "list has another number of elements")
		}

		st.Set("list:"+base.ID, "1")
		hit(st)
	}

	if l.filtered {
		w.Fields[j.filtered] = l.bit
	}

	c := w.Client(&Client{
		Load: j.mode(l.transposed, nil),
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			// Types of columns are not decided here.
			if callee != nil && (recvIs(callee, "flKey") || recvIs(callee, "Type")) {
				return &CallRes{}
			}

			if l.sink != nil && l.sink(ci) {
				if st.Get("sunk") != "" {
					o.fail(st, "list is used more than once")
				}

				st.Set("sunk", "1")
				check(x, st, args[len(args)-1])
			}

			return nil
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" {
				return
			}

			if l.sink != nil {
				if st.Get("sunk") == "" {
					o.fail(st, "list is not used")
				}

				return
			}

			check(x, st, l.result(x, st, results))
		},
	})

	x := NewExplorer(p, c)
	x.Run(x.Initial(l.fn))

	if n == 0 || used == 0 {
		o.fail(nil, "the list is not made")
	}

	o.done(x)
}

func p09Text(p *Prog, r *Report, j *Proj) {
	fn := j.text
	values := paramOf(fn, "[]Value").Name()

	j.list(listCheck{
		o: newOnce(r, "P09.text", FnName(fn), p.Pos(fn.Pos())), fn: fn, bit: labIdx,
		item: func(x *Explorer, st *State, v AV) (string, bool, string) {
			val := strings.TrimSuffix(strings.TrimPrefix(v.ID, "fmt(s"), ")")

			if c, ok := constStr(v); ok && c == "" {
				// The value that is known to be absent.
				for id := range st.Facts {
					if b, ok := strings.CutSuffix(id, ".Type"); ok && strings.HasPrefix(b, "@P:"+values+"«") && typeIs(st, id, "null", "") == 1 {
						val = b
					}
				}

				if val == "" {
					return "", true, "field is empty for a value that is present"
				}
			}

			list, idx, ok := elemOf(strings.TrimPrefix(val, "@"))
			if !ok || list != "P:"+values || !keyIdx(idx) {
				return "", false, ""
			}

			return idx, true, textOfValue(st, v, val)
		},
		result: func(x *Explorer, st *State, _ []AV) AV {
			return x.loadID(st, "P:"+fn.Params[0].Name()+"."+j.row.Name(), j.row.Type(), nil)
		},
	})
}

func p09Values(p *Prog, r *Report, j *Proj) {
	fn := j.values
	values := paramOf(fn, "[]Value")

	j.list(listCheck{
		o: newOnce(r, "P09.values", FnName(fn), p.Pos(fn.Pos())), fn: fn, bit: labIdx,
		item: func(x *Explorer, st *State, v AV) (string, bool, string) {
			list, idx, ok := elemOf(strings.TrimPrefix(v.ID, "@"))

			return idx, ok && list == "P:"+values.Name() && keyIdx(idx), ""
		},
		result: func(x *Explorer, st *State, results []AV) AV { return results[0] },
	})
}

// keyItem is a key, or a field of a key, that belongs to the projection.
func keyItem(transposed bool, suffix string) func(x *Explorer, st *State, v AV) (string, bool, string) {
	return func(x *Explorer, st *State, v AV) (string, bool, string) {
		if base, ok := strings.CutSuffix(v.ID, suffix); ok && suffix != "" {
			if list, idx, isEl := elemOf(strings.TrimLeft(base, "@")); isEl && strings.HasSuffix(list, ".filteredKeys") {
				return idx, true, ""
			}
		}

		if transposed {
			base, ok := strings.CutSuffix(v.ID, ".k"+suffix)
			list, _, isEl := elemOf(strings.TrimLeft(base, "@"))

			return base, ok && isEl && strings.HasSuffix(list, ".trimmedKeys"), ""
		}

		base, ok := strings.CutSuffix(v.ID, suffix)
		list, idx, isEl := elemOf(strings.TrimLeft(base, "@"))

		return idx, ok && isEl && strings.HasSuffix(list, ".keys") && keyIdx(idx), ""
	}
}

// p09Columns checks the list of columns.
func p09Columns(p *Prog, r *Report, j *Proj) {
	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || !recvIs(fn, "baseWriter") || fn.Parent() != nil || !p.reachesFn(fn, func(f *ssa.Function) bool { return storesField(f, j.filtered) }) || p.reachesFn(fn, func(f *ssa.Function) bool { return f == j.setup }) {
			continue
		}

		// The outermost function.
		inner := false

		for _, c := range p.callers[fn] {
			inner = inner || rootFn(c.Parent()) != j.setup
		}

		if inner {
			continue
		}

		n++

		for _, tr := range []bool{false, true} {
			name, bit := FnName(fn)+" (main)", uint64(labIdx)
			if tr {
				name, bit = FnName(fn)+" (transposed)", labTrim
			}

			j.list(listCheck{
				o: newOnce(r, "P09.columns", name, p.Pos(fn.Pos())), fn: fn, transposed: tr, bit: bit, item: keyItem(tr, ""),
				result: func(x *Explorer, st *State, _ []AV) AV {
					return x.loadID(st, "P:"+fn.Params[0].Name()+"."+j.filtered.Name(), j.filtered.Type(), nil)
				},
			})
		}
	}

	need(r, "P09.columns", "function that makes the list of columns", n > 0)
}

// p09Head checks the header of CSV.
func p09Head(p *Prog, r *Report, j *Proj) {
	n := 0

	for _, fn := range p.Funcs {
		if fn.Pkg != p.Lib || !recvIs(fn, "CSVWriter") || fn.Parent() != nil || takes(fn.Signature, "[]flKey") ||
			!p.reachesFn(fn, func(f *ssa.Function) bool { return p09ReadsName(f, j) }) || !p.reachesCall(fn, p09CSVWrite) {
			continue
		}

		n++

		for _, tr := range []bool{false, true} {
			name, bit := FnName(fn)+" (main)", uint64(labIdx)
			if tr {
				name, bit = FnName(fn)+" (transposed)", labTrim
			}

			j.list(listCheck{
				o: newOnce(r, "P09.head", name, p.Pos(fn.Pos())), fn: fn, transposed: tr, bit: bit, item: keyItem(tr, "."+j.kName.Name()), sink: p09CSVWrite, filtered: true,
			})
		}
	}

	need(r, "P09.head", "function that writes CSV header", n > 0)
}

func p09CSVWrite(ci ssa.CallInstruction) bool {
	return CallName(ci.Common()) == "(*encoding/csv.Writer).Write"
}

func p09ReadsName(fn *ssa.Function, j *Proj) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok && fieldVar(v) == j.kName {
				return true
			}
		}
	}

	return false
}

// p09Partition checks distribution of keys.
func p09Partition(p *Prog, r *Report, j *Proj) {
	fn := j.setup
	o := newOnce(r, "P09.partition", FnName(fn), p.Pos(fn.Pos()))
	bad := func(st *State, _ ssa.Instruction, msg string) { o.fail(st, msg) }
	keys := "P:" + paramOf(fn, "[]flKey").Name()
	recv := "P:" + fn.Params[0].Name()
	fe := &ForEach{Name: "keys", Bit: labKeys, Bad: bad}
	fm := &ForEach{Name: "columns of keys", Bit: labKeys, Bad: bad}
	ft := &ForEach{Name: "transposed projections", Bit: labTr, Bad: bad}

	// Functions that make lists of columns.
	cols := map[*ssa.Function]bool{}

	for _, f := range p.Funcs {
		if recvIs(f, "baseWriter") && storesField(f, j.filtered) && f != fn {
			cols[f] = true
		}
	}

	isKey := func(idx string) bool { return strings.HasPrefix(idx, "s") && !strings.Contains(idx, "«") }

	// dstOf tells which projection the key belongs to: "" when it is the main one.
	dstOf := func(st *State, idx string) (id string, main, known bool) {
		id = "@" + keys + "«" + idx + "»." + j.kDst.Name()
		f := st.Facts[id]

		if f.Eq != nil {
			return id, f.Eq.ExactString() == `""`, f.Eq.ExactString() == `""`
		}

		for _, n := range f.Ne {
			if n == `""` {
				return id, false, true
			}
		}

		return id, false, false
	}

	// owner checks that a projection is the one of the key.
	owner := func(x *Explorer, st *State, proj, idx string) string {
		dst, main, known := dstOf(st, idx)
		m := x.loadID(st, recv+"."+j.transposed.Name(), j.transposed.Type(), nil)

		switch {
		case !known:
			return "key is added without regard to its transposition"
		case main && proj != recv:
			return "key of the main table is added to another projection"
		case main:
			return ""
		}

		el := m.ID + "«s" + dst + "»"

		if v, ok := st.Mem[el]; ok {
			if v.ID == proj {
				return ""
			}
		} else if proj == "@"+el {
			return ""
		}

		return "transposed key is added to the projection of another destination"
	}

	w := &Rows{P: p, Fields: map[*types.Var]uint64{j.keys: labKeys, j.transposed: labTr}, Each: []*ForEach{fe, fm, ft}}
	n := 0

	w.Append = func(x *Explorer, st *State, ins *ssa.Call, base AV, el []AV) {
		if shortType(ins.Type()) != "[]int" || len(el) != 1 || fe.Status(st) == "" || fe.Status(st) == "x" {
			return
		}

		st.Set("app", x.id(st.Top(), ins)+"~a|"+base.ID+"|"+el[0].Key())
	}
	w.Field = func(x *Explorer, st *State, ins *ssa.Store, f *types.Var, base, val AV) {
		if f != j.idx {
			return
		}

		l := strings.Split(st.Get("app"), "|")
		if len(l) != 3 || l[0] != val.ID {
			if val.K != KNil {
				o.fail(st, "indexes of keys are replaced")
			}

			return
		}

		cur := x.loadID(st, base.ID+"."+j.idx.Name(), j.idx.Type(), nil)
		if cur.ID != l[1] && !(cur.K == KNil && l[1] == "") {
			o.fail(st, "indexes of keys of another projection are used")
		}

		if !isKey(l[2]) {
			o.fail(st, "key is added under another index: "+l[2])

			return
		}

		if msg := owner(x, st, base.ID, l[2]); msg != "" {
			o.fail(st, msg)
		}

		n++

		if fe.Status(st) != "p" {
			o.fail(st, "key is added more than once")
		}

		fe.Hit(st)

		if _, main, _ := dstOf(st, l[2]); main {
			fm.Hit(st)
		}
	}
	w.Update = func(x *Explorer, st *State, ins *ssa.MapUpdate, m, key, val AV) {
		switch shortType(ins.Map.Type()) {
		case "map[int]int":
			proj := ""

			if f := loadedField(ins.Map); f == j.mapping {
				proj = x.Eval(st, ins.Map.(*ssa.UnOp).X).ID
				proj = strings.TrimSuffix(proj, "."+j.mapping.Name())
			}

			if proj == "" || !isKey(key.Key()) {
				o.fail(st, "column of a key is recorded under another index")

				return
			}

			if msg := owner(x, st, proj, key.Key()); msg != "" {
				o.fail(st, msg)
			}

			// Column of the trimmed key.
			tm := x.loadID(st, proj+"."+j.trimmed.Name(), j.trimmed.Type(), nil)
			el := tm.ID + "«s@" + keys + "«" + key.Key() + "»." + j.kTrim.Name() + "»"

			known := false
			if f := st.Facts["@has "+el]; f.Eq != nil && f.Eq.ExactString() == "true" {
				known = true
			}

			for k := range st.Mem {
				known = known || k == el || strings.HasPrefix(k, el+".")
			}

			if !known {
				o.fail(st, "column of a transposed key is not registered")
			}

			if c := x.loadID(st, el+".idx", types.Typ[types.Int], nil); c.Key() != val.Key() {
				o.fail(st, "column of a transposed key is not the one of its trimmed name")
			}

			if fm.Status(st) != "p" {
				o.fail(st, "column of a key is recorded more than once")
			}

			fm.Hit(st)
		default:
			if f := loadedField(ins.Map); f != j.trimmed {
				return
			}

			if fe.Status(st) == "" {
				return // Literal.
			}

			if !strings.HasPrefix(key.ID, "@"+keys+"«") || !strings.HasSuffix(key.ID, "»."+j.kTrim.Name()) {
				o.fail(st, "column of a transposed key is registered under another name")
			}

			if c := x.fieldOf(st, val, "idx", types.Typ[types.Int]); c.Key() != lenOf(m).Key() {
				o.fail(st, "column of a transposed key is not added after the other columns")
			}

			if c := x.fieldOf(st, val, "k."+j.kName.Name(), j.kName.Type()); c.ID != "name("+key.Key()+")" {
				o.fail(st, "name of a transposed column is not made of the trimmed key: "+c.Key())
			}
		}
	}

	c := w.Client(&Client{
		Keep: func(id string, t types.Type) bool { return t == nil || isString(t) || isBool(t) || nillable(t) },
		Value: func(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
			// Projections are compared by identity.
			return AV{}, false
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, callee *ssa.Function, args []AV) *CallRes {
			if callee == nil {
				return nil
			}

			if recvIs(callee, "Processor") && shortType(callee.Signature.Params()) == "("+callee.Signature.Params().At(0).Name()+" string)" && callee.Signature.Results().Len() == 1 && isString(callee.Signature.Results().At(0).Type()) {
				return &CallRes{Val: textSym(st, "name("+args[1].Key()+")", 0)}
			}

			if cols[callee] {
				if args[0].ID == recv {
					st.Set("cols", "1")
				} else {
					ft.Hit(st)
				}

				if fe.Status(st) != "x" {
					o.fail(st, "list of columns is made before keys are distributed")
				}

				return &CallRes{}
			}

			return nil
		},
		Exit: func(x *Explorer, st *State, how string, results []AV) {
			if how != "return" {
				return
			}

			if fe.Status(st) != "x" || ft.Status(st) != "x" || st.Get("cols") == "" {
				o.fail(st, "not every key is distributed or not every list of columns is made")
			}

			if v := x.loadID(st, recv+"."+j.keys.Name(), j.keys.Type(), nil); v.ID != keys {
				o.fail(st, "keys are not kept")
			}
		},
	})

	x := NewExplorer(p, c)
	st := x.Initial(fn)
	st.AddLabel(AV{K: KSym, ID: keys}, labKeys)
	x.Run(st)

	if n == 0 {
		o.fail(nil, "no key is added to a projection")
	}

	o.done(x)

	// New projections.
	for _, f := range p.Funcs {
		if f.Pkg != p.Lib || f.Parent() != nil || !storesField(f, j.isTr) {
			continue
		}

		o := newOnce(r, "P09.partition", FnName(f)+" (new)", p.Pos(f.Pos()))

		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok || fieldVar(s.Addr) != j.isTr {
					continue
				}

				base := s.Addr.(*ssa.FieldAddr).X

				for _, need := range []*types.Var{j.keys, j.trimmed, j.mapping} {
					if !storedOn(f, base, need) {
						o.fail(nil, "transposed projection has no "+need.Name())
					}
				}
			}
		}

		o.done(nil)
	}
}
