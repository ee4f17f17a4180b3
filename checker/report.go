package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Obligation is a decided instance of a rule.
type Obligation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	OK        bool     `json:"ok"`
	Msg       string   `json:"msg,omitempty"`
	Path      []string `json:"path,omitempty"`
	Known     bool     `json:"known,omitempty"`
}

// Key identifies a finding independently of line numbers.
func (o Obligation) Key() string { return o.Rule + "|" + o.Construct }

// Report collects obligations of a property.
type Report struct {
	Prop  string
	Title string
	Obl   []*Obligation
	index map[string]*Obligation
	mins  map[string]int
	rules map[string]string
	order []string
	Stats map[string]int
	Assum []string
	funcs map[string]bool
}

// NewReport creates Report.
func NewReport(prop string) *Report {
	return &Report{Prop: prop, index: map[string]*Obligation{}, mins: map[string]int{}, rules: map[string]string{}, Stats: map[string]int{}, funcs: map[string]bool{}}
}

// Rule declares a rule with the least number of instances confirmed by reading.
func (r *Report) Rule(id, text string, min int) {
	if _, ok := r.rules[id]; !ok {
		r.order = append(r.order, id)
	}

	r.rules[id] = text
	r.mins[id] = min
}

// Saw records an analysed function.
func (r *Report) Saw(fn string) { r.funcs[fn] = true }

// OK records a discharged obligation.
func (r *Report) OK(rule, construct, pos string) { r.add(rule, construct, pos, true, "", nil) }

// Fail records a violated obligation.
func (r *Report) Fail(rule, construct, pos, msg string, path []string) {
	r.add(rule, construct, pos, false, msg, path)
}

// Check records an obligation.
func (r *Report) Check(ok bool, rule, construct, pos, msg string) {
	if ok {
		r.OK(rule, construct, pos)
	} else {
		r.Fail(rule, construct, pos, msg, nil)
	}
}

func (r *Report) add(rule, construct, pos string, ok bool, msg string, path []string) {
	if _, known := r.rules[rule]; !known {
		r.Rule(rule, rule, 0)
	}

	k := rule + "|" + construct
	if o := r.index[k]; o != nil {
		if !ok && o.OK {
			o.OK, o.Msg, o.Path, o.Pos = false, msg, path, pos
		}

		return
	}

	o := &Obligation{Rule: rule, Construct: construct, Pos: pos, OK: ok, Msg: msg, Path: path}
	r.index[k] = o
	r.Obl = append(r.Obl, o)
}

// Finish writes evidence and prints the verdict, it returns exit code.
func (r *Report) Finish(out, tier string, seed int, start time.Time) int {
	// Instance counts.
	cnt := map[string]int{}
	for _, o := range r.Obl {
		cnt[o.Rule]++
	}

	for _, rule := range r.order {
		if cnt[rule] < r.mins[rule] {
			r.add(rule, "instances", "-", false, fmt.Sprintf("rule matched %d instances, at least %d are expected: the code it is about was not recognised or is gone", cnt[rule], r.mins[rule]), nil)
		}
	}

	known := loadKnown(filepath.Join(out, "known-findings.txt"), r.Prop)

	var bad, knownHit []*Obligation

	ok := 0

	for _, o := range r.Obl {
		switch {
		case o.OK:
			ok++
		case known[o.Key()] != "":
			o.Known = true
			knownHit = append(knownHit, o)
		default:
			bad = append(bad, o)
		}
	}

	var rules []string
	for _, rule := range r.order {
		rules = append(rules, fmt.Sprintf("%s (%d instances): %s", rule, cnt[rule], r.rules[rule]))
	}

	fns := make([]string, 0, len(r.funcs))
	for f := range r.funcs {
		fns = append(fns, f)
	}

	sort.Strings(fns)

	samples := []any{}
	perRule := map[string]int{}

	for _, o := range r.Obl {
		if perRule[o.Rule] < 6 {
			perRule[o.Rule]++

			samples = append(samples, map[string]any{"rule": o.Rule, "construct": o.Construct, "pos": o.Pos, "ok": o.OK})
		}
	}

	ev := map[string]any{
		"property": r.Prop,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation":        "Static analysis of the current source of /repo (type-checked program and SSA form, nothing is executed). Every listed obligation is an instance of a rule found in the code on this run.",
			"rules":              rules,
			"obligations":        len(r.Obl),
			"discharged":         ok,
			"known":              len(knownHit),
			"functions_analysed": fns,
			"stats":              r.Stats,
			"samples":            samples,
		},
		"assumptions": r.Assum,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(bad),
	}

	dir := filepath.Join(out, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fmt.Println("VIOLATION property="+r.Prop+" replay=-", err)

		return 1
	}

	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)

		return 1
	}

	for _, o := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", r.Prop, o.Key(), o.Pos, o.Msg)
	}

	if len(bad) == 0 {
		fmt.Printf("%s: %d obligations discharged, %d rules, %d functions\n", r.Prop, ok, len(r.order), len(fns))

		return 0
	}

	replay := filepath.Join(dir, r.Prop+".violations.json")
	b, _ = json.MarshalIndent(bad, "", " ")
	_ = os.WriteFile(replay, append(b, '\n'), 0o644)

	for _, o := range bad {
		fmt.Printf("%s: %s [%s] %s: %s\n", o.Pos, r.Prop, o.Rule, o.Construct, o.Msg)

		for _, p := range o.Path {
			fmt.Println("    ", p)
		}
	}

	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)

	return 1
}

// loadKnown reads recorded findings: lines "finding: property=ID key=RULE|CONSTRUCT text".
func loadKnown(fn, prop string) map[string]string {
	res := map[string]string{}

	f, err := os.Open(fn)
	if err != nil {
		return res
	}

	defer f.Close()

	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		pre := "finding: property=" + prop + " key="

		if !strings.HasPrefix(l, pre) {
			continue
		}

		rest := strings.TrimPrefix(l, pre)
		if i := strings.Index(rest, " :: "); i > 0 {
			res[rest[:i]] = rest[i+4:]
		}
	}

	return res
}
