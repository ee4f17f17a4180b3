package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// names lists unexported names of the pinned code with their types. Declarations that have got another name since are read
// under the known one, rules do not depend on a choice of a name.
//
//go:embed names.txt
var names string

// decl is a declaration: kind, package, owner (receiver or struct), name, type.
type decl struct {
	kind, pkg, owner, name, typ string
	obj                         types.Object
}

func (d decl) line() string {
	return strings.Join([]string{d.kind, d.pkg, d.owner, d.name, d.typ}, "\t")
}

func (d decl) key() string { return d.kind + "\t" + d.pkg + "\t" + d.owner + "\t" + d.name }

// declsOf lists declarations of a package in their order in the source.
func declsOf(p *packages.Package) []decl {
	q := func(o *types.Package) string { return o.Name() }
	sc := p.Types.Scope()

	var objs []types.Object
	for _, n := range sc.Names() {
		objs = append(objs, sc.Lookup(n))
	}

	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })

	var res []decl

	add := func(kind, owner string, o types.Object, typ string) {
		res = append(res, decl{kind, p.PkgPath, owner, o.Name(), typ, o})
	}

	for _, o := range objs {
		switch o := o.(type) {
		case *types.Func:
			add("F", "", o, shapeOf(o.Signature(), q))
		case *types.Var:
			add("V", "", o, types.TypeString(o.Type(), q))
		case *types.Const:
			add("C", "", o, types.TypeString(o.Type(), q)+" "+o.Val().ExactString())
		case *types.TypeName:
			st, ok := o.Type().Underlying().(*types.Struct)
			if !ok {
				add("T", "", o, types.TypeString(o.Type().Underlying(), q))
			} else {
				var ff []string
				for f := range st.Fields() {
					ff = append(ff, f.Name())
				}

				add("T", "", o, "struct "+strings.Join(ff, " "))

				for f := range st.Fields() {
					if !f.Embedded() {
						add("S", o.Name(), f, types.TypeString(f.Type(), q))
					}
				}
			}

			if n, ok := o.Type().(*types.Named); ok {
				var ms []*types.Func
				for m := range n.Methods() {
					ms = append(ms, m)
				}

				sort.Slice(ms, func(i, j int) bool { return ms[i].Pos() < ms[j].Pos() })

				for _, m := range ms {
					add("M", o.Name(), m, shapeOf(m.Signature(), q))
				}
			}
		}
	}

	return res
}

// shapeOf is a signature without names.
func shapeOf(s *types.Signature, q types.Qualifier) string {
	list := func(t *types.Tuple) string {
		var res []string
		for v := range t.Variables() {
			res = append(res, types.TypeString(v.Type(), q))
		}

		return "(" + strings.Join(res, ", ") + ")"
	}

	v := ""
	if s.Variadic() {
		v = "..."
	}

	return list(s.Params()) + v + list(s.Results())
}

func allDecls(pkgs []*packages.Package) []decl {
	var res []decl

	for _, p := range pkgs {
		if p.Types != nil && strings.HasPrefix(p.PkgPath, "github.com/vearutop/flatjsonl") {
			res = append(res, declsOf(p)...)
		}
	}

	return res
}

// renamed matches declarations with an unknown name to known ones that are gone.
func renamed(pkgs []*packages.Package) map[types.Object]string {
	res := map[types.Object]string{}
	back := map[string]string{} // names of types, new to known

	var old []decl

	for _, l := range strings.Split(strings.TrimSpace(names), "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 5 {
			old = append(old, decl{f[0], f[1], f[2], f[3], f[4], nil})
		}
	}

	// Types are matched first, other declarations mention them.
	for _, kinds := range []string{"T", "SFVCM"} {
		cur := allDecls(pkgs)
		has, knew := map[string]bool{}, map[string]bool{}

		for i, d := range cur {
			if b, ok := back[d.owner]; ok {
				cur[i].owner = b
			}

			cur[i].typ = mapNames(d.typ, back)

			n := d.name
			if b, ok := back[n]; ok && d.kind == "T" {
				n = b
			}

			cur[i].name = n
			has[cur[i].key()] = true
		}

		for _, d := range old {
			knew[d.key()] = true
		}

		taken := map[types.Object]bool{}

		group := func(d decl) string {
			if d.kind == "T" && strings.HasPrefix(d.typ, "struct ") {
				return d.kind + d.pkg + "struct"
			}

			return d.kind + d.pkg + "\t" + d.owner + "\t" + d.typ
		}

		// A struct is recognized by most of its fields.
		alike := func(a, b decl) bool {
			if !strings.HasPrefix(a.typ, "struct ") || a.kind != "T" {
				return true
			}

			x, y := strings.Fields(a.typ), strings.Fields(b.typ)
			n := 0

			for _, f := range x {
				for _, g := range y {
					if f == g {
						n++
					}
				}
			}

			return 2*n >= len(x) && 2*n >= len(y)
		}

		for _, d := range old {
			if !strings.Contains(kinds, d.kind) || has[d.key()] || ast.IsExported(d.name) {
				continue
			}

			for _, c := range cur {
				if c.kind == d.kind && !knew[c.key()] && !taken[c.obj] && group(c) == group(d) && alike(c, d) && !ast.IsExported(c.name) {
					taken[c.obj] = true
					res[c.obj] = d.name

					if d.kind == "T" {
						back[c.obj.Name()] = d.name
					}

					break
				}
			}
		}
	}

	return res
}

func mapNames(typ string, back map[string]string) string {
	for n, b := range back {
		typ = strings.ReplaceAll(typ, "flatjsonl."+n, "flatjsonl."+b)
	}

	return typ
}

// knownNames is the source with known names, nil if no declaration was renamed.
func knownNames(pkgs []*packages.Package) map[string][]byte {
	ren := renamed(pkgs)
	if len(ren) == 0 {
		return nil
	}

	type edit struct {
		pos, end int
		name     string
	}

	edits := map[string][]edit{}

	for _, p := range pkgs {
		// Objects of another package of the repository are only visible if exported.
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}

				o := p.TypesInfo.Defs[id]
				if o == nil {
					o = p.TypesInfo.Uses[id]
				}

				switch v := o.(type) {
				case *types.Var:
					o = v.Origin()
				case *types.Func:
					o = v.Origin()
				}

				name, ok := ren[o]
				if !ok || o == nil || id.Name != o.Name() {
					return true
				}

				pos := p.Fset.Position(id.Pos())
				edits[pos.Filename] = append(edits[pos.Filename], edit{pos.Offset, pos.Offset + len(id.Name), name})

				return true
			})
		}
	}

	res := map[string][]byte{}

	for fn, ee := range edits {
		b, err := os.ReadFile(fn)
		if err != nil {
			return nil
		}

		sort.Slice(ee, func(i, j int) bool { return ee[i].pos > ee[j].pos })

		for _, e := range ee {
			b = append(b[:e.pos:e.pos], append([]byte(e.name), b[e.end:]...)...)
		}

		res[fn] = b
	}

	return res
}

func printNames(p *Prog) {
	for _, d := range allDecls(p.Pkgs) {
		fmt.Println(d.line())
	}
}
