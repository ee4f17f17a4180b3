// Command checker decides semantic properties of flatjsonl by static analysis of its source.
package main

import (
	"flag"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

var props = map[string]func(p *Prog, r *Report){}

func main() {
	prop := flag.String("prop", "", "property id, or all")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "/verif", "directory for evidence")
	decls := flag.Bool("names", false, "print declarations of the repository, for names.txt")
	list := flag.Bool("known", false, "print functions of the repository, for known.txt")
	flag.StringVar(&asHelpers, "forget", "", "names of functions to treat as added helpers, to test rules on code with them inlined")
	flag.Parse()

	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	ids := []string{*prop}
	if *prop == "all" {
		ids = ids[:0]
		for id := range props {
			ids = append(ids, id)
		}

		sort.Strings(ids)
	}

	code := 0
	start := time.Now()

	p, lerr := Load(*repo)
	if *decls && lerr == nil {
		printNames(p)

		return
	}

	if *list && lerr == nil {
		all := map[*ssa.Function]bool{}
		for _, fn := range p.Funcs {
			all[fn] = true
		}

		for _, fn := range declared(p, all) {
			fmt.Println(knownLine(fn))
		}

		return
	}

	for _, id := range ids {
		f := props[id]
		if f == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}

		if *prop == "all" {
			start = time.Now()
		}

		r := NewReport(id)

		if lerr != nil {
			r.Fail("load", "repository", "-", lerr.Error(), nil)
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.Fail("internal", "checker", "-", fmt.Sprintf("analysis failed: %v\n%s", e, debug.Stack()), nil)
					}
				}()

				f(p, r)
			}()
		}

		if c := r.Finish(*out, tier, seed, start); c != 0 {
			code = c
		}
	}

	os.Exit(code)
}
