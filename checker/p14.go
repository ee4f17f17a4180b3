package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { props["P14"] = p14 }

func p14(p *Prog, r *Report) {
	r.Rule("P14.flag", "a documented command line flag is registered once with that name, kind of value and default", 35)
	r.Rule("P14.setting", "a flag is bound to the setting of its name and no other flag is bound to it", 35)
	r.Rule("P14.tag", "a documented configuration key is accepted with that name in JSON and YAML and sets the field of its name", 15)
	r.Rule("P14.used", "a setting takes part in processing: its value reaches something other than checks that only fail", 40)
	r.Rule("P14.sink", "what is controlled by a setting gets the value of that setting", 10)
	r.Rule("P14.enabled", "an output is made and added when its name is set", 4)
	r.Rule("P14.load", "configuration is decoded into the structure that is used, a value that can not be decoded fails", 1)
	r.Rule("P14.output", "an output with a known extension is assigned to its format unchanged", 7)
	r.Assum = append(r.Assum, "README.md lists flags in the format of the flag package", "flag, encoding/json, json5 and yaml follow their documentation")

	doc, err := readReadme(p)
	if err != nil {
		r.Fail("P14.flag", "README.md", "-", err.Error(), nil)

		return
	}

	flagsType := p.Lib.Type("Flags")
	cfgType := p.Lib.Type("Config")

	if flagsType == nil || cfgType == nil {
		r.Fail("P14.flag", "Flags and Config", "-", "types are not found", nil)

		return
	}

	p14Flags(p, r, doc, flagsType.Type())
	p14Tags(p, r, doc, cfgType.Type())

	for _, t := range []types.Type{flagsType.Type(), cfgType.Type()} {
		s := structOf(t)
		for i := range s.NumFields() {
			f := s.Field(i)
			if !f.Exported() {
				continue
			}

			name := typeName(t) + "." + f.Name()
			u := &p14Use{p: p, flag: isBool(f.Type()), seen: map[ssa.Value]bool{}, fields: map[*types.Var]bool{}}

			r.Check(u.field(f), "P14.used", name, p.Pos(f.Pos()), "value of the setting does not reach anything but failing checks")
		}
	}

	p14Sinks(p, r)
	p14Load(p, r)
	p14Output(p, r)
}

// documented options.
type readme struct {
	flags map[string]docFlag
	keys  []string
}

type docFlag struct {
	kind, def string
}

func readReadme(p *Prog) (*readme, error) {
	b, err := os.ReadFile(filepath.Join(p.Dir, "README.md"))
	if err != nil {
		return nil, err
	}

	d := &readme{flags: map[string]docFlag{}}
	lines := strings.Split(string(b), "\n")
	head := regexp.MustCompile(`^  -([a-z][a-z0-9-]*)( (string|int|duration|float|uint|value))?\s*$`)
	def := regexp.MustCompile(`\(default (.*)\)\s*$`)

	for i, l := range lines {
		m := head.FindStringSubmatch(l)
		if m == nil {
			continue
		}

		f := docFlag{kind: m[3]}
		if f.kind == "" {
			f.kind = "bool"
		}

		if i+1 < len(lines) {
			if dm := def.FindStringSubmatch(lines[i+1]); dm != nil && !strings.HasPrefix(dm[1], "<") {
				f.def = dm[1]
			}
		}

		d.flags[m[1]] = f
	}

	keys := map[string]bool{}
	fence := ""

	for _, l := range lines {
		if strings.HasPrefix(l, "```") {
			if fence == "" {
				fence = strings.TrimPrefix(l, "```") + " "
			} else {
				fence = ""
			}

			continue
		}

		switch strings.TrimSpace(fence) {
		case "yaml":
			if m := regexp.MustCompile(`^([a-z][A-Za-z]*):`).FindStringSubmatch(l); m != nil {
				keys[m[1]] = true
			}
		case "json":
			if m := regexp.MustCompile(`^  "([a-z][A-Za-z]*)":`).FindStringSubmatch(l); m != nil {
				keys[m[1]] = true
			}
		}

		if fence == "" {
			for _, m := range regexp.MustCompile("`([a-z]+[A-Z][A-Za-z]*)` (?:configuration|config)").FindAllStringSubmatch(l, -1) {
				keys[m[1]] = true
			}

			for _, m := range regexp.MustCompile("with `([a-z]+)` (?:configuration|config)").FindAllStringSubmatch(l, -1) {
				keys[m[1]] = true
			}
		}
	}

	d.keys = sortedKeys(keys)

	if len(d.flags) < 10 || len(d.keys) < 5 {
		return nil, fmt.Errorf("documented options are not recognised: %d flags, %d configuration keys", len(d.flags), len(d.keys))
	}

	return d, nil
}

type registered struct {
	name, kind string
	def        AV
	ptr        string
	at         string
	n          int
}

// p14Registers tells kind of value and positions of arguments of a registration of a flag.
func p14Registers(cc *ssa.CallCommon) (kind string, ptr, name int, ok bool) {
	n := CallName(cc)

	method := strings.HasPrefix(n, "(*flag.FlagSet).")
	if !method && !strings.HasPrefix(n, "flag.") {
		return "", 0, 0, false
	}

	n = n[strings.LastIndex(n, ".")+1:]
	off := 0

	if method {
		off = 1
	}

	for _, k := range []string{"Bool", "Int", "Int64", "Uint", "Uint64", "String", "Float64", "Duration"} {
		if n == k+"Var" {
			return strings.ToLower(k), off, off + 1, true
		}

		if n == k && cc.Signature().Params().Len() == 3 {
			return strings.ToLower(k), -1, off, true
		}
	}

	return "", 0, 0, false
}

func p14Flags(p *Prog, r *Report, doc *readme, ft types.Type) {
	main := p.Func("Main")
	if !need(r, "P14.flag", "Main", main != nil) {
		return
	}

	regs := func(ci ssa.CallInstruction) bool {
		_, _, _, ok := p14Registers(ci.Common())

		return ok
	}

	byName := map[string]*registered{}
	sites := map[string]map[string]bool{}
	missing := newOnce(r, "P14.flag", "registration", p.Pos(main.Pos()))

	x := NewExplorer(p, &Client{
		NoInline: func(fn *ssa.Function) bool { return !p.reachesCall(fn, regs) },
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, fn *ssa.Function, args []AV) *CallRes {
			kind, ptr, name, ok := p14Registers(ci.Common())
			if !ok {
				if n := CallName(ci.Common()); n == "flag.Parse" || n == "(*flag.FlagSet).Parse" {
					st.Set("parsed", "1")
				}

				return nil
			}

			if st.Get("parsed") != "" {
				missing.fail(st, "flag is registered after parsing at "+p.InstrPos(ci))
			}

			n, ok := constStr(args[name])
			if !ok {
				missing.fail(st, "name of the flag is not known at "+p.InstrPos(ci))

				return nil
			}

			f := &registered{name: n, kind: kind, def: args[name+1], at: p.InstrPos(ci)}
			if ptr >= 0 {
				f.ptr = args[ptr].ID
			} else if v, ok := ci.(ssa.Value); ok {
				f.ptr = x.Fresh(st, v, "").ID
			}

			if old := byName[n]; old != nil && (old.at != f.at || old.ptr != f.ptr) {
				missing.fail(st, "flag "+n+" is registered more than once at "+f.at)
			}

			byName[n] = f

			if sites[f.ptr] == nil {
				sites[f.ptr] = map[string]bool{}
			}

			sites[f.ptr][n] = true

			return nil
		},
		Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
			// Parsing ends registration.
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && p.InRepo(f) && !p.reachesCall(f, regs) && p.reachesCall(f, func(ci ssa.CallInstruction) bool { return CallName(ci.Common()) == "flag.Parse" }) {
					st.Set("parsed", "1")
				}
			}
		},
	})

	st := x.Initial(main)
	x.Run(st)
	missing.done(x)
	r.Saw(FnName(main))

	s := structOf(ft)
	fields := map[string]string{}

	for i := range s.NumFields() {
		fields[strings.ToLower(s.Field(i).Name())] = s.Field(i).Name()
	}

	for _, name := range sortedKeys(doc.flags) {
		d := doc.flags[name]
		f := byName[name]

		if f == nil {
			r.Fail("P14.flag", "-"+name, p.Pos(main.Pos()), "documented flag is not registered", nil)

			continue
		}

		msg := ""

		switch {
		case f.kind != d.kind && f.kind != d.kind+"64" && !(d.kind == "float" && f.kind == "float64"):
			msg = "value is " + f.kind + ", " + d.kind + " is documented"
		default:
			if got, known := defaultText(f); known && got != zeroText(d) {
				msg = fmt.Sprintf("default is %s, %s is documented", got, zeroText(d))
			}
		}

		r.Check(msg == "", "P14.flag", "-"+name, f.at, msg)
	}

	for _, name := range sortedKeys(byName) {
		f := byName[name]
		msg := ""

		if len(sites[f.ptr]) > 1 {
			msg = "several flags are bound to the same setting: " + strings.Join(sortedKeys(sites[f.ptr]), ", ")
		}

		if want := fields[strings.ReplaceAll(name, "-", "")]; want != "" {
			if i := strings.LastIndex(f.ptr, "."); i < 0 || f.ptr[i+1:] != want {
				msg = fmt.Sprintf("flag is bound to %s instead of %s", f.ptr[strings.LastIndex(f.ptr, "/")+1:], want)
			}
		} else if i := strings.LastIndex(f.ptr, "."); i >= 0 && fields[strings.ToLower(f.ptr[i+1:])] != "" && byName[dashed(f.ptr[i+1:])] != nil {
			msg = "flag is bound to setting of another flag " + f.ptr[i+1:]
		}

		r.Check(msg == "", "P14.setting", "-"+name, f.at, msg)
	}
}

func dashed(field string) string {
	var b strings.Builder

	for i, c := range field {
		if c >= 'A' && c <= 'Z' {
			if i > 0 {
				b.WriteByte('-')
			}

			c += 'a' - 'A'
		}

		b.WriteRune(c)
	}

	return b.String()
}

func defaultText(f *registered) (string, bool) {
	if f.def.K != KConst {
		return "", false
	}

	if s, ok := constStr(f.def); ok {
		return s, true
	}

	if n, ok := constInt(f.def); ok {
		if f.kind == "duration" {
			return time.Duration(n).String(), true
		}

		return fmt.Sprint(n), true
	}

	return f.def.C.ExactString(), true
}

func zeroText(d docFlag) string {
	if d.def != "" {
		return strings.Trim(d.def, `"`)
	}

	switch d.kind {
	case "bool":
		return "false"
	case "string":
		return ""
	case "duration":
		return "0s"
	}

	return "0"
}

func p14Tags(p *Prog, r *Report, doc *readme, ct types.Type) {
	s := structOf(ct)
	byTag := map[string][]string{}
	exact := map[string]string{}
	at := map[string]string{}

	for i := range s.NumFields() {
		exact[strings.ToLower(s.Field(i).Name())] = s.Field(i).Name()
	}

	for i := range s.NumFields() {
		f := s.Field(i)
		j, _, _ := strings.Cut(structTag(s.Tag(i), "json"), ",")
		y, _, _ := strings.Cut(structTag(s.Tag(i), "yaml"), ",")
		msg := ""

		if !f.Exported() {
			continue
		}

		switch {
		case j == "" && strings.HasPrefix(structTag(s.Tag(i), "json"), "-") || j == "-" || y == "-":
			msg = "setting is not decoded"
		case j != y:
			msg = fmt.Sprintf("key is %q in JSON and %q in YAML", j, y)
		case exact[strings.ToLower(j)] != "" && exact[strings.ToLower(j)] != f.Name():
			msg = fmt.Sprintf("key %s sets %s instead of %s", j, f.Name(), exact[strings.ToLower(j)])
		case !subsequence(strings.ToLower(j), strings.ToLower(f.Name())):
			msg = fmt.Sprintf("key %s sets %s", j, f.Name())
		}

		byTag[j] = append(byTag[j], f.Name())
		at[j] = p.Pos(f.Pos())

		r.Check(msg == "", "P14.tag", f.Name(), p.Pos(f.Pos()), msg)
	}

	for _, k := range doc.keys {
		switch l := byTag[k]; {
		case len(l) == 0:
			r.Fail("P14.tag", "key "+k, "-", "documented configuration key is not accepted", nil)
		case len(l) > 1:
			r.Fail("P14.tag", "key "+k, at[k], "key is used by several settings: "+strings.Join(l, ", "), nil)
		default:
			r.OK("P14.tag", "key "+k, at[k])
		}
	}
}

func subsequence(a, b string) bool {
	for _, c := range a {
		i := strings.IndexRune(b, c)
		if i < 0 {
			return false
		}

		b = b[i+1:]
	}

	return true
}

// p14Use follows a value to its effect.
type p14Use struct {
	p      *Prog
	flag   bool // value of the setting is true or false
	seen   map[ssa.Value]bool
	fields map[*types.Var]bool
}

// field tells whether some load of the field has an effect.
func (u *p14Use) field(f *types.Var) bool {
	if u.fields[f] {
		return false
	}

	u.fields[f] = true

	for _, v := range fieldUses(u.p, f) {
		if u.value(v) {
			return true
		}
	}

	return false
}

func (u *p14Use) value(v ssa.Value) bool {
	if v == nil || u.seen[v] || v.Referrers() == nil {
		return false
	}

	u.seen[v] = true

	for _, ref := range *v.Referrers() {
		if u.use(v, ref) {
			return true
		}
	}

	return false
}

func (u *p14Use) use(v ssa.Value, ref ssa.Instruction) bool {
	switch i := ref.(type) {
	case *ssa.Store:
		if i.Addr == v {
			return false
		}

		if f := fieldVar(i.Addr); f != nil {
			return f.Pkg() != u.p.Lib.Pkg || u.field(f)
		}

		switch a := i.Addr.(type) {
		case *ssa.Alloc:
			return u.value(a)
		case *ssa.FreeVar:
			return u.value(u.p.binding(a))
		case *ssa.IndexAddr:
			return u.value(a.X)
		}

		return true
	case *ssa.FieldAddr:
		// A part of the setting.
		return u.value(i)
	case *ssa.If:
		return !failingGuard(i)
	case *ssa.Range, *ssa.MapUpdate, *ssa.Send, *ssa.Panic:
		return true
	case *ssa.Return:
		fn := i.Parent()
		for k, res := range i.Results {
			if res != v {
				continue
			}

			for _, c := range u.p.callers[fn] {
				cv, ok := c.(ssa.Value)
				if !ok {
					continue
				}

				if len(i.Results) == 1 {
					if u.value(cv) {
						return true
					}

					continue
				}

				for _, r := range *cv.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == k && u.value(e) {
						return true
					}
				}
			}
		}

		return false
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		for k, b := range i.Bindings {
			if b == v && u.value(fn.FreeVars[k]) {
				return true
			}
		}

		return false
	case ssa.CallInstruction:
		return u.call(v, i)
	case *ssa.BinOp:
		// Being set is not the value.
		if !u.flag && isBool(i.Type()) {
			for _, o := range []ssa.Value{i.X, i.Y} {
				if c, ok := o.(*ssa.Const); ok && (c.Value == nil || c.Value.ExactString() == `""` || c.Value.ExactString() == "0") {
					return false
				}
			}
		}

		return u.value(i)
	case ssa.Value:
		return u.value(i)
	}

	return false
}

func (u *p14Use) call(v ssa.Value, ci ssa.CallInstruction) bool {
	cc := ci.Common()

	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println":
			return false
		}

		r, ok := ci.(ssa.Value)

		return ok && u.value(r)
	}

	switch n := CallName(cc); {
	case strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "flag."):
		return false
	case n == "(time.Duration).String":
		return false
	}

	targets := u.p.Callees(ci)
	if f := cc.StaticCallee(); f != nil {
		targets = []*ssa.Function{f}
	}

	external := len(targets) == 0

	for _, f := range targets {
		if !u.p.InRepo(f) || f.Blocks == nil {
			external = true

			continue
		}

		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}

		for k, a := range args {
			if a == v && k < len(f.Params) && u.value(f.Params[k]) {
				return true
			}
		}
	}

	return external
}

// failingGuard tells a check that does nothing but fail.
func failingGuard(i *ssa.If) bool {
	for _, s := range i.Block().Succs {
		if endsInFailure(s, map[*ssa.BasicBlock]bool{}) {
			return true
		}
	}

	return false
}

func endsInFailure(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] || len(seen) > 4 {
		return false
	}

	seen[b] = true

	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Return:
			if len(i.Results) == 0 {
				return false
			}

			last := i.Results[len(i.Results)-1]
			if !IsError(last.Type()) {
				return false
			}

			c, ok := last.(*ssa.Const)

			return !ok || !c.IsNil()
		case *ssa.Jump:
			return endsInFailure(b.Succs[0], seen)
		case *ssa.Store:
			if _, ok := i.Addr.(*ssa.IndexAddr); !ok {
				return false
			}
		case *ssa.Call:
			if n := CallName(&i.Call); !strings.HasPrefix(n, "fmt.") && !strings.HasPrefix(n, "errors.") {
				return false
			}
		case *ssa.If, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
			return false
		}
	}

	return false
}

// p14Sinks checks sources of values that are given to what a setting controls.
func p14Sinks(p *Prog, r *Report) {
	arg := func(fn string, k int, field string) {
		f := p.Func(fn)
		v := p.Field("Flags", field)
		name := fmt.Sprintf("%s argument %d is %s", fn, k+1, field)

		if f == nil || v == nil {
			r.Fail("P14.sink", name, "-", "function or setting is not found", nil)

			return
		}

		n := 0

		for _, c := range p.callers[f] {
			fn := rootFn(c.Parent())
			if fn.Signature.Recv() != nil && isOutput(p, deref(fn.Signature.Recv().Type())) || k >= len(c.Common().Args) {
				continue
			}

			n++

			if !p.originField(c.Common().Args[k], v) {
				r.Fail("P14.sink", name, p.InstrPos(c), "another value is given", nil)
			}
		}

		if n == 0 {
			r.Fail("P14.sink", name, p.Pos(f.Pos()), "the function is not called", nil)
		}

		r.OK("P14.sink", name, p.Pos(f.Pos()))
	}

	arg("NewCSVWriter", 0, "CSV")
	arg("NewSQLiteWriter", 0, "SQLite")
	arg("NewSQLiteWriter", 1, "SQLTable")
	arg("NewPGDumpWriter", 0, "PGDump")
	arg("NewPGDumpWriter", 1, "SQLTable")
	arg("NewRawWriter", 0, "Raw")
	arg("NewRawWriter", 1, "RawDelim")

	// Fields that get a setting.
	store := func(typ, field string, is func(v ssa.Value) bool, what string) {
		f := p.Field(typ, field)
		name := typ + "." + field + " is " + what

		if f == nil {
			r.Fail("P14.sink", name, "-", "field is not found", nil)

			return
		}

		n := 0

		for _, u := range fieldUses(p, f) {
			fa, ok := u.(*ssa.FieldAddr)
			if !ok {
				continue
			}

			for _, ref := range *fa.Referrers() {
				s, ok := ref.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(fa) {
					continue
				}

				n++

				if !is(s.Val) {
					r.Fail("P14.sink", name, p.InstrPos(s), "another value is set", nil)
				}
			}
		}

		if n == 0 {
			r.Fail("P14.sink", name, p.Pos(f.Pos()), "the field is not set", nil)
		}

		r.OK("P14.sink", name, p.Pos(f.Pos()))
	}

	setting := func(names ...string) func(v ssa.Value) bool {
		return func(v ssa.Value) bool {
			var fs []*types.Var

			for _, n := range names {
				if f := p.Field("Flags", n); f != nil {
					fs = append(fs, f)
				}
			}

			return p.originField(v, fs...)
		}
	}

	store("Reader", "Concurrency", setting("Concurrency"), "Concurrency")
	store("Reader", "AddSequence", setting("AddSequence"), "AddSequence")
	store("Reader", "Buf", func(v ssa.Value) bool {
		for _, o := range p.Origins(v) {
			m, ok := o.(*ssa.MakeSlice)
			if !ok || !setting("BufSize")(m.Len) {
				return false
			}
		}

		return true
	}, "made of BufSize")
	store("FastWalker", "ExtractStrings", setting("ExtractStrings"), "ExtractStrings")

	p14Interval(p, r)
	p14Prefix(p, r)
	p14Enabled(p, r)

	// Inputs and configuration.
	if load, cfg := p.Func("New"), p.Field("Flags", "Config"); load != nil && cfg != nil {
		n := 0

		for _, fn := range p.Funcs {
			for _, ci := range callsOf(fn) {
				if CallName(ci.Common()) == "os.ReadFile" && len(ci.Common().Args) == 1 && p.decodes(fn) {
					n++

					r.Check(p.originField(ci.Common().Args[0], cfg), "P14.sink", "configuration file is Config", p.InstrPos(ci), "another file is read")
				}
			}
		}

		if n == 0 {
			r.Fail("P14.sink", "configuration file is Config", "-", "no file with configuration is read", nil)
		}
	}
}

// decodes tells a function that decodes configuration.
func (p *Prog) decodes(fn *ssa.Function) bool {
	return p.reachesCall(rootFn(fn), func(ci ssa.CallInstruction) bool {
		return decoder(ci.Common()) != ""
	})
}

// decoder names the format a call decodes.
func decoder(cc *ssa.CallCommon) string {
	f := cc.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil || f.Name() != "Unmarshal" {
		return ""
	}

	switch path := f.Object().Pkg().Path(); {
	case strings.Contains(path, "yaml"):
		return "yaml"
	case strings.Contains(path, "json5"):
		return "json5"
	case path == "encoding/json":
		return "json"
	}

	return ""
}

// p14Interval checks settings of the progress.
func p14Interval(p *Prog, r *Report) {
	v := p.Field("Flags", "ProgressInterval")
	n := 0

	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}

				f := fieldVar(s.Addr)
				if f == nil || f.Name() != "Interval" || f.Pkg() == nil || !strings.HasSuffix(f.Pkg().Path(), "/progress") {
					continue
				}

				n++

				r.Check(p.originField(s.Val, v), "P14.sink", "progress interval is ProgressInterval", p.InstrPos(s), "another value is set")
			}
		}
	}

	if n == 0 {
		r.Fail("P14.sink", "progress interval is ProgressInterval", "-", "interval is not set", nil)
	}
}

// p14Prefix checks that both the flag and the configuration key give the prefix expression, and the flag has priority.
func p14Prefix(p *Prog, r *Report) {
	dst := p.Field("Reader", "MatchPrefix")
	fl := p.Field("Flags", "MatchLinePrefix")
	cf := p.Field("Config", "MatchLinePrefix")
	name := "Reader.MatchPrefix is MatchLinePrefix"

	if dst == nil || fl == nil || cf == nil {
		r.Fail("P14.sink", name, "-", "field is not found", nil)

		return
	}

	stores := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && fieldVar(s.Addr) == dst {
					return true
				}
			}
		}

		return false
	}

	compiles := func(fn *ssa.Function) bool {
		return callsName(fn, "regexp.Compile") || callsName(fn, "regexp.MustCompile")
	}

	n := 0

	for _, fn := range p.Funcs {
		if !stores(fn) {
			continue
		}

		root := rootFn(fn)
		for len(p.callers[root]) == 1 && root.Name() != "NewProcessor" && !root.Object().Exported() {
			root = rootFn(p.callers[root][0].Parent())
		}

		n++

		for _, sc := range []struct {
			name, flag, cfg, want string
		}{
			{"flag", "set", "", "flag"}, {"flag over configuration", "set", "set", "flag"}, {"configuration", "", "set", "cfg"},
		} {
			o := newOnce(r, "P14.sink", name+": "+sc.name, p.Pos(fn.Pos()))
			done := 0

			x := NewExplorer(p, &Client{
				NoInline: func(f *ssa.Function) bool {
					return !p.reachesFn(f, stores) && !p14Reads(p, f, fl, cf) && !p.reachesFn(f, compiles)
				},
				Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
					// Settings keep what was stored into them.
					var f *types.Var
					if ins != nil {
						f = fieldVar(ins.X)
					}

					if ins == nil && strings.HasSuffix(addr.ID, ".MatchLinePrefix") {
						f = fl
						if strings.Contains(addr.ID, "cfg") || strings.Contains(addr.ID, "Config") {
							f = cf
						}
					}

					if f != fl && f != cf {
						return AV{}, false
					}

					if v, ok := st.Mem[addr.ID]; ok && (v.ID == "@FLAG" || v.ID == "@CFG") {
						return v, true
					}

					val, id := sc.flag, "@FLAG"
					if f == cf {
						val, id = sc.cfg, "@CFG"
					}

					if val == "" {
						return strAV(""), true
					}

					return AV{K: KSym, ID: id, T: types.Typ[types.String]}, true
				},
				Value: lenText,
				If: func(x *Explorer, st *State, ins *ssa.If, cond AV) (bool, bool) {
					return nonEmptyCmp(cond, func(a AV) bool { return a.ID == "@FLAG" || a.ID == "@CFG" })
				},
				Call: func(x *Explorer, st *State, ci ssa.CallInstruction, fn *ssa.Function, args []AV) *CallRes {
					if n := CallName(ci.Common()); n == "regexp.Compile" || n == "regexp.MustCompile" {
						if v, ok := ci.(ssa.Value); ok {
							res := x.resultSyms(st, v, ci.Common().Signature())
							if id := "@re " + args[0].ID; res.K == KTuple {
								res.Bind[0].ID = id
							} else {
								res.ID = id
							}

							return &CallRes{Val: res}
						}
					}

					return nil
				},
				Instr: func(x *Explorer, st *State, ins ssa.Instruction) {
					if s, ok := ins.(*ssa.Store); ok && fieldVar(s.Addr) == dst {
						st.Set("prefix", strings.TrimPrefix(x.Eval(st, s.Val).ID, "@re "))
					}
				},
				Exit: func(x *Explorer, st *State, kind string, results []AV) {
					if kind == "panic" || len(results) > 0 && IsError(results[len(results)-1].T) && st.NilOf(results[len(results)-1]) == notNil {
						return
					}

					if len(results) > 0 && st.NilOf(results[len(results)-1]) == notNil {
						return
					}

					done++

					want := map[string]string{"flag": "@FLAG", "cfg": "@CFG"}[sc.want]
					if st.Get("prefix") != want {
						o.fail(st, "expression of the line prefix is not the one that is set")
					}
				},
			})

			x.Run(x.Initial(root))

			if done == 0 && !o.bad {
				o.fail(&State{}, "no successful end was found")
			}

			o.done(x)
		}
	}

	if n == 0 {
		r.Fail("P14.sink", name, "-", "the field is not set", nil)
	}
}

func p14Reads(p *Prog, fn *ssa.Function, fs ...*types.Var) bool {
	return p.reachesFn(fn, func(g *ssa.Function) bool {
		for _, f := range fs {
			if readsVar(g, f) {
				return true
			}
		}

		return false
	})
}

// nonEmptyCmp decides comparison of a text that is not empty with the empty one.
func nonEmptyCmp(cond AV, is func(a AV) bool) (bool, bool) {
	c, neg := cond, false
	for c.K == KNot {
		c, neg = *c.X, !neg
	}

	if c.K != KCmp {
		return false, false
	}

	a, b, op := *c.X, *c.Y, c.Op
	if a.K == KConst {
		a, b = b, a

		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}

	val := false

	if lit, ok := constStr(b); ok && lit == "" && is(a) {
		val = op == token.NEQ
	} else if n, ok := constInt(b); ok && n == 0 && strings.HasPrefix(a.ID, "len(") && is(AV{K: KSym, ID: strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(a.ID, "len("), "s"), ")")}) {
		val = op == token.NEQ || op == token.GTR
	} else {
		return false, false
	}

	return val != neg, true
}

// lenText keeps what the length of a text is the length of.
func lenText(x *Explorer, st *State, ins ssa.Instruction) (AV, bool) {
	c, ok := ins.(*ssa.Call)
	if !ok || CallName(&c.Call) != "builtin:len" || !isString(c.Call.Args[0].Type()) {
		return AV{}, false
	}

	return lenOf(x.Eval(st, c.Call.Args[0])), true
}

// p14Enabled checks that an output is made when its name is set.
func p14Enabled(p *Prog, r *Report) {
	add := p.Method("Writer", "Add")
	if !need(r, "P14.enabled", "Writer.Add", add != nil) {
		return
	}

	for _, o := range []struct{ field, ctor string }{{"CSV", "NewCSVWriter"}, {"SQLite", "NewSQLiteWriter"}, {"PGDump", "NewPGDumpWriter"}, {"Raw", "NewRawWriter"}} {
		v, ctor := p.Field("Flags", o.field), p.Func(o.ctor)
		if v == nil || ctor == nil {
			r.Fail("P14.enabled", o.field, "-", "setting or constructor is not found", nil)

			continue
		}

		var root *ssa.Function

		for _, c := range p.callers[ctor] {
			fn := rootFn(c.Parent())
			if fn.Signature.Recv() == nil || !isOutput(p, deref(fn.Signature.Recv().Type())) {
				root = fn
			}
		}

		// Helpers get what they need from the function that reads the setting.
		for root != nil && !readsVar(root, v) && len(p.callers[root]) == 1 {
			root = rootFn(p.callers[root][0].Parent())
		}

		if root == nil {
			r.Fail("P14.enabled", o.field, p.Pos(ctor.Pos()), "output is never made", nil)

			continue
		}

		r.Saw(FnName(root))

		one := newOnce(r, "P14.enabled", o.field, p.Pos(root.Pos()))
		done := 0

		x := NewExplorer(p, &Client{
			ResolveDyn: true,
			NoInline: func(f *ssa.Function) bool {
				return f == add || !p.reachesCall(f, callsStatic(add)) && !p.reachesCall(f, callsStatic(ctor))
			},
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				if ins != nil && fieldVar(ins.X) == v || ins == nil && strings.HasSuffix(addr.ID, ".f."+v.Name()) {
					return AV{K: KSym, ID: "@SETTING", T: v.Type()}, true
				}

				return AV{}, false
			},
			Value: lenText,
			If: func(x *Explorer, st *State, ins *ssa.If, cond AV) (bool, bool) {
				return nonEmptyCmp(cond, func(a AV) bool { return a.ID == "@SETTING" })
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, fn *ssa.Function, args []AV) *CallRes {
				cc := ci.Common()
				if cc.StaticCallee() == ctor {
					if cv, ok := ci.(ssa.Value); ok {
						res := x.resultSyms(st, cv, cc.Signature())
						if args[0].ID == "@SETTING" {
							st.Set("made", streamID(res.Bind[0]))
						}

						return &CallRes{Val: res}
					}
				}

				if cc.StaticCallee() == add && len(args) == 2 {
					if m := st.Get("made"); m != "" && streamID(args[1]) == m {
						st.Set("added", "1")
					}

					return &CallRes{}
				}

				return nil
			},
			Exit: func(x *Explorer, st *State, kind string, results []AV) {
				if kind == "panic" || len(results) > 0 && st.NilOf(results[len(results)-1]) == notNil {
					return
				}

				done++

				if st.Get("added") == "" {
					one.fail(st, FnName(root)+" can end without adding the output")
				}
			},
		})

		x.Run(x.Initial(root))

		if done == 0 && !one.bad {
			one.fail(&State{}, "no successful end was found")
		}

		one.done(x)
	}
}

// p14Load checks decoding of configuration.
func p14Load(p *Prog, r *Report) {
	ctor := p.Func("New")
	if !need(r, "P14.load", "New", ctor != nil) {
		return
	}

	cf := p.Field("Flags", "Config")
	np := p.Func("NewProcessor")
	decodes := func(fn *ssa.Function) bool {
		return p.reachesCall(fn, func(ci ssa.CallInstruction) bool { return decoder(ci.Common()) != "" })
	}

	o := newOnce(r, "P14.load", FnName(ctor), p.Pos(ctor.Pos()))
	done := 0

	r.Saw(FnName(ctor))

	x := NewExplorer(p, &Client{
		NoInline: func(f *ssa.Function) bool { return f == np || !decodes(f) },
		Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
			if ins != nil && fieldVar(ins.X) == cf || ins == nil && strings.HasSuffix(addr.ID, "."+cf.Name()) {
				return AV{K: KSym, ID: "@SETTING", T: cf.Type()}, true
			}

			return AV{}, false
		},
		Value: lenText,
		If: func(x *Explorer, st *State, ins *ssa.If, cond AV) (bool, bool) {
			return nonEmptyCmp(cond, func(a AV) bool { return a.ID == "@SETTING" })
		},
		Call: func(x *Explorer, st *State, ci ssa.CallInstruction, fn *ssa.Function, args []AV) *CallRes {
			cc := ci.Common()

			if d := decoder(cc); d != "" && len(args) == 2 {
				if cv, ok := ci.(ssa.Value); ok {
					res := x.resultSyms(st, cv, cc.Signature())
					to := streamID(args[1])

					// Content of the target is not known anymore.
					if args[1].K == KAddr {
						x.Havoc(st, args[1].ID)
						st.Mem[args[1].ID] = AV{K: KSym, ID: "@decoded " + to, T: deref(args[1].T)}
					}

					for k := range st.Auto {
						if strings.HasPrefix(k, "tried:") {
							st.Set("again", "1")
						}
					}

					st.Set("err:"+res.ID, d+" "+to)
					st.Set("tried:"+d, "1")

					return &CallRes{Val: res}
				}
			}

			if fn == np {
				done++

				ok := false
				to := ""

				for k, v := range st.Auto {
					if strings.HasPrefix(k, "ok:") {
						ok = true
						_, to, _ = strings.Cut(v, " ")
					}
				}

				switch {
				case !ok:
					o.fail(st, "processing starts with configuration that was not decoded")
				case args[1].ID != "@decoded "+to && args[1].ID != "@"+to:
					o.fail(st, "processing starts with other configuration than the one that was decoded")
				}

				st.Dead = true

				return &CallRes{Stop: true}
			}

			return nil
		},
		Edge: func(x *Explorer, st *State, ins *ssa.If, taken bool) {
			for k, v := range st.Auto {
				if !strings.HasPrefix(k, "err:") {
					continue
				}

				switch st.NilOf(AV{K: KSym, ID: k[4:]}) {
				case isNil:
					st.Set("ok:"+k[4:], v)
				case notNil:
					st.Set("ok:"+k[4:], "")
				}
			}
		},
	})

	x.Run(x.Initial(ctor))

	if done == 0 && !o.bad {
		o.fail(&State{}, "processor is not made")
	}

	o.done(x)
}

// p14Output checks assignment of outputs by extension.
func p14Output(p *Prog, r *Report) {
	fn := p.Method("Flags", "PrepareOutput")
	out := p.Field("Flags", "Output")

	if !need(r, "P14.output", "Flags.PrepareOutput", fn != nil && out != nil) {
		return
	}

	r.Saw(FnName(fn))

	known := map[string]string{
		".csv": "CSV", ".csv.gz": "CSV", ".csv.zst": "CSV",
		".raw": "Raw", ".raw.gz": "Raw", ".raw.zst": "Raw",
		".sqlite": "SQLite",
	}

	exts := sortedKeys(known)
	sort.Strings(exts)

	formats := map[string]bool{"CSV": true, "Raw": true, "SQLite": true, "PGDump": true}

	for _, class := range exts {
		o := newOnce(r, "P14.output", class, p.Pos(fn.Pos()))
		done := 0
		recv := "P:" + fn.Params[0].Name() + "."

		isName := func(a AV) bool { return a.ID == "@OUT" || a.ID == "@LOW" }

		has := func(lit string) (val, known bool) {
			switch {
			case strings.HasSuffix(class, lit):
				return true, true
			case !strings.HasSuffix(lit, class):
				return false, true
			}

			return false, false
		}

		x := NewExplorer(p, &Client{
			Load: func(x *Explorer, st *State, addr AV, ins *ssa.UnOp) (AV, bool) {
				if ins == nil {
					return AV{}, false
				}

				if fieldVar(ins.X) == out || addr.ID == recv+out.Name() {
					return AV{K: KSym, ID: "@SETTING", T: out.Type()}, true
				}

				if f, ok := strings.CutPrefix(addr.ID, recv); ok && formats[f] {
					if _, ok := st.Mem[addr.ID]; !ok {
						return strAV(""), true
					}
				}

				// Element of the list of outputs.
				if ia, ok := ins.X.(*ssa.IndexAddr); ok && st.Label(x.Eval(st, ia.X))&labEnd != 0 && isString(ins.Type()) {
					st.Set("element", "1")

					return AV{K: KSym, ID: "@OUT", T: ins.Type()}, true
				}

				return AV{}, false
			},
			Value: lenText,
			If: func(x *Explorer, st *State, ins *ssa.If, cond AV) (bool, bool) {
				return nonEmptyCmp(cond, func(a AV) bool { return isName(a) || a.ID == "@SETTING" })
			},
			Call: func(x *Explorer, st *State, ci ssa.CallInstruction, f *ssa.Function, args []AV) *CallRes {
				name := CallName(ci.Common())

				switch name {
				case "strings.Split", "strings.SplitN", "strings.FieldsFunc":
					if args[0].ID == "@SETTING" {
						v := x.Fresh(st, ci.(ssa.Value), "")
						st.AddLabel(v, labEnd)

						return &CallRes{Val: v}
					}
				case "strings.ToLower":
					if isName(args[0]) {
						return &CallRes{Val: AV{K: KSym, ID: "@LOW", T: types.Typ[types.String]}}
					}
				case "strings.HasSuffix":
					if isName(args[0]) {
						if lit, ok := constStr(args[1]); ok && args[0].ID == "@LOW" {
							if val, known := has(lit); known {
								return &CallRes{Val: boolAV(val)}
							}
						}
					}
				case "path.Ext", "path/filepath.Ext":
					if args[0].ID == "@LOW" {
						return &CallRes{Val: strAV(class[strings.LastIndex(class, "."):])}
					}
				case "strings.TrimSuffix":
					if args[0].ID == "@LOW" {
						if lit, ok := constStr(args[1]); ok && !strings.HasSuffix(class, lit) {
							return &CallRes{Val: args[0]}
						}
					}
				}

				return nil
			},
			Exit: func(x *Explorer, st *State, kind string, results []AV) {
				if kind == "panic" || st.Get("element") == "" {
					return
				}

				done++

				for f := range formats {
					v := st.Mem[recv+f]
					want := known[class] == f

					if want && v.ID != "@OUT" {
						o.fail(st, "output is not assigned to "+f)
					}

					if !want && v.ID == "@OUT" {
						o.fail(st, "output is assigned to "+f)
					}
				}
			},
		})

		x.Run(x.Initial(fn))

		if done == 0 && !o.bad {
			o.fail(&State{}, "outputs are not split")
		}

		o.done(x)
	}
}
