// Command refac applies behaviour-preserving edits to a copy of the repository, to test that the checker judges what
// the code does and not how it is written.
//
// usage: refac -repo DIR [-kinds a,b] [-sites 3,7,9 | -seed N -rate F] [-list]
// Sites are numbered on the unchanged tree; each edit is type checked alone before it is offered.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int // byte offsets in the file
	text     string
}

type site struct {
	kind, file, fn string
	line           int
	edits          []edit
}

type gen struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	name  string
	src   []byte
	fn    *ast.FuncDecl
	sites []site
	par   map[ast.Node]ast.Node
	n     int
}

func (g *gen) off(p token.Pos) int { return g.fset.Position(p).Offset }
func (g *gen) txt(n ast.Node) string {
	return string(g.src[g.off(n.Pos()):g.off(n.End())])
}
func (g *gen) fresh(s string) string { g.n++; return fmt.Sprintf("%s%d", s, g.n) }
func (g *gen) add(kind string, at ast.Node, ee ...edit) {
	fn := ""
	if g.fn != nil {
		fn = g.fn.Name.Name
	}
	g.sites = append(g.sites, site{kind, g.name, fn, g.fset.Position(at.Pos()).Line, ee})
}
func (g *gen) rep(n ast.Node, s string) edit { return edit{g.off(n.Pos()), g.off(n.End()), s} }
func (g *gen) ins(p token.Pos, s string) edit {
	return edit{g.off(p), g.off(p), s}
}

func (g *gen) body(b *ast.BlockStmt) string { // text between the braces
	return string(g.src[g.off(b.Lbrace)+1 : g.off(b.Rbrace)])
}

// list returns the statement list that holds s and its index.
func (g *gen) list(s ast.Stmt) ([]ast.Stmt, int) {
	var l []ast.Stmt
	switch p := g.par[s].(type) {
	case *ast.BlockStmt:
		l = p.List
	case *ast.CaseClause:
		l = p.Body
	case *ast.CommClause:
		l = p.Body
	}
	for i, x := range l {
		if x == s {
			return l, i
		}
	}
	return nil, -1
}

// escapes reports control flow that leaves the nodes other than by falling out; ret: returns count.
func escapes(ret bool, nn ...ast.Stmt) bool {
	bad := false
	for _, n := range nn {
		loop, sw := 0, 0
		var walk func(n ast.Node)
		walk = func(n ast.Node) {
			ast.Inspect(n, func(c ast.Node) bool {
				if c == n {
					return true
				}
				switch x := c.(type) {
				case *ast.FuncLit:
					return false
				case *ast.ForStmt, *ast.RangeStmt:
					loop++
					walk(c)
					loop--
					return false
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					sw++
					walk(c)
					sw--
					return false
				case *ast.ReturnStmt:
					if ret {
						bad = true
					}
				case *ast.LabeledStmt, *ast.DeferStmt:
					bad = true
				case *ast.BranchStmt:
					if x.Label != nil || x.Tok == token.GOTO || x.Tok == token.FALLTHROUGH && sw == 0 {
						bad = true
					}
					if x.Tok == token.BREAK && loop+sw == 0 || x.Tok == token.CONTINUE && loop == 0 {
						bad = true
					}
				}
				return true
			})
		}
		switch x := n.(type) {
		case *ast.ReturnStmt:
			if ret {
				bad = true
			}
		case *ast.BranchStmt, *ast.LabeledStmt, *ast.DeferStmt:
			bad = true
		case *ast.ForStmt, *ast.RangeStmt:
			loop++
			walk(x)
			loop--
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			sw++
			walk(x)
			sw--
		default:
			walk(n)
		}
	}
	return bad
}

func hasBreak(n ast.Node) bool {
	bad := false
	ast.Inspect(n, func(c ast.Node) bool {
		switch x := c.(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
			return c == n
		case *ast.BranchStmt:
			if x.Tok == token.BREAK || x.Tok == token.FALLTHROUGH {
				bad = true
			}
		}
		return true
	})
	return bad
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, is := x.Fun.(*ast.Ident); !is || id.Name != "len" {
				ok = false
			}
		case *ast.FuncLit, *ast.IndexExpr, *ast.SliceExpr, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (g *gen) typ(e ast.Expr) types.Type { return g.info.TypeOf(e) }

func (g *gen) constant(e ast.Expr) bool {
	tv := g.info.Types[e]
	return tv.Value != nil || tv.IsNil()
}

func (g *gen) qual(p *types.Package) string {
	if p == g.pkg {
		return ""
	}
	for _, im := range g.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == p.Path() {
			if im.Name != nil {
				return im.Name.Name
			}
			return p.Name()
		}
	}
	return "MISSING_" + p.Name()
}

func terminating(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE || x.Tok == token.BREAK || x.Tok == token.GOTO
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func (g *gen) visit(n ast.Node) {
	switch x := n.(type) {
	case *ast.IfStmt:
		_, inList := g.list(x)
		if eb, ok := x.Else.(*ast.BlockStmt); ok {
			in := ""
			if x.Init != nil {
				in = g.txt(x.Init) + "; "
			}
			g.add("invert", x, g.rep(x, "if "+in+"!("+g.txt(x.Cond)+") "+g.txt(eb)+" else "+g.txt(x.Body)))
		}
		if inList >= 0 && x.Init == nil {
			v := g.fresh("cond")
			g.add("condvar", x, g.ins(x.Pos(), v+" := "+g.txt(x.Cond)+"\n"), g.rep(x.Cond, v))
		}
		if inList >= 0 && x.Init != nil {
			g.add("splitinit", x, g.ins(x.Pos(), "{\n"+g.txt(x.Init)+"\n"), edit{g.off(x.Init.Pos()), g.off(x.Cond.Pos()), ""}, g.ins(x.End(), "\n}"))
		}
		if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && x.Else == nil {
			g.add("nest", x, g.rep(x.Cond, g.txt(b.X)), edit{g.off(x.Body.Lbrace), g.off(x.Body.Lbrace) + 1, "{\nif " + g.txt(b.Y) + " {"}, g.ins(x.End(), "\n}"))
		}
		if x.Else == nil && x.Init == nil && len(x.Body.List) == 1 {
			if in, ok := x.Body.List[0].(*ast.IfStmt); ok && in.Else == nil && in.Init == nil {
				g.add("merge", x, g.rep(x, "if ("+g.txt(x.Cond)+") && ("+g.txt(in.Cond)+") "+g.txt(in.Body)))
			}
		}
		if l, i := g.list(x); i >= 0 && x.Else == nil && i < len(l)-1 && len(x.Body.List) > 0 && terminating(x.Body.List[len(x.Body.List)-1]) {
			last := l[len(l)-1]
			g.add("elserest", x, g.ins(x.End(), " else {\n"), edit{g.off(last.End()), g.off(last.End()), "\n}"})
		}
		if l, i := g.list(x); i >= 0 && i == len(l)-1 && x.Else == nil && x.Init == nil {
			out := ""
			if b, ok := g.par[x].(*ast.BlockStmt); ok {
				switch p := g.par[b].(type) {
				case *ast.ForStmt, *ast.RangeStmt:
					out = "continue"
				case *ast.FuncDecl:
					if p.Type.Results == nil {
						out = "return"
					}
				case *ast.FuncLit:
					if p.Type.Results == nil {
						out = "return"
					}
				}
			}
			if out != "" {
				g.add("guard", x, g.rep(x, "if !("+g.txt(x.Cond)+") {\n"+out+"\n}\n"+g.body(x.Body)))
			}
		}
		if _, ok := g.par[x].(*ast.IfStmt); !ok && x.Init == nil && x.Else != nil && !hasBreak(x) {
			var sb strings.Builder
			sb.WriteString("switch {\n")
			ok := true
			var cur ast.Stmt = x
			for cur != nil {
				switch c := cur.(type) {
				case *ast.IfStmt:
					if c.Init != nil {
						ok = false
					}
					sb.WriteString("case " + g.txt(c.Cond) + ":\n" + g.body(c.Body) + "\n")
					cur = c.Else
				case *ast.BlockStmt:
					sb.WriteString("default:\n" + g.body(c) + "\n")
					cur = nil
				}
			}
			if ok {
				g.add("toswitch", x, g.rep(x, sb.String()+"}"))
			}
		}
	case *ast.SwitchStmt:
		if x.Init == nil && !hasBreak(x) {
			tag := ""
			if x.Tag != nil {
				if !pure(x.Tag) {
					return
				}
				tag = g.txt(x.Tag)
			}
			var sb strings.Builder
			def := ""
			for i, c := range x.Body.List {
				cc := c.(*ast.CaseClause)
				var bt string
				if len(cc.Body) > 0 {
					bt = string(g.src[g.off(cc.Colon)+1 : g.off(cc.End())])
				}
				if cc.List == nil {
					if i != len(x.Body.List)-1 {
						return
					}
					def = bt
					if i == 0 {
						return
					}
					sb.WriteString(" else {\n" + def + "\n}")
					continue
				}
				var cs []string
				for _, e := range cc.List {
					if tag != "" {
						cs = append(cs, tag+" == "+g.txt(e))
					} else {
						cs = append(cs, g.txt(e))
					}
				}
				if i > 0 {
					sb.WriteString(" else ")
				}
				sb.WriteString("if " + strings.Join(cs, " || ") + " {\n" + bt + "\n}")
			}
			g.add("toif", x, g.rep(x, sb.String()))
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 1 {
			if c, ok := x.Results[0].(*ast.CallExpr); ok {
				if _, i := g.list(x); i >= 0 {
					k := 1
					if tu, ok := g.typ(c).(*types.Tuple); ok {
						k = tu.Len()
					}
					var vs []string
					for j := 0; j < k; j++ {
						vs = append(vs, g.fresh("res"))
					}
					s := strings.Join(vs, ", ")
					g.add("rettemp", x, g.rep(x, s+" := "+g.txt(c)+"\nreturn "+s))
				}
			}
		}
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			g.args(x, c)
			g.recv(x, c)
		}
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 {
			if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
				if _, i := g.list(x); i >= 0 {
					simple := true
					for _, l := range x.Lhs {
						if _, ok := l.(*ast.Ident); !ok {
							if se, ok := l.(*ast.SelectorExpr); !ok || !pure(se) {
								simple = false
							}
						}
					}
					if simple {
						g.args(x, c)
						g.recv(x, c)
					}
					if len(x.Lhs) == 1 && simple && x.Tok == token.ASSIGN {
						v := g.fresh("val")
						g.add("asstemp", x, g.rep(x, v+" := "+g.txt(c)+"\n"+g.txt(x.Lhs[0])+" = "+v))
					}
				}
			}
		}
		if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			if _, i := g.list(x); i >= 0 {
				g.add("vardecl", x, g.rep(x, "var "+g.txt(x.Lhs[0])+" = "+g.txt(x.Rhs[0])))
			}
		}
		if _, i := g.list(x); i >= 0 {
			for op, s := range map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-"} {
				if x.Tok == op && pure(x.Lhs[0]) {
					g.add("opassign", x, g.rep(x, g.txt(x.Lhs[0])+" = "+g.txt(x.Lhs[0])+" "+s+" "+g.txt(x.Rhs[0])))
				}
			}
		}
		if l, i := g.list(x); i >= 0 && i+1 < len(l) {
			if y, ok := l[i+1].(*ast.AssignStmt); ok && g.indep(x, y) && g.indep(y, x) {
				g.add("swap", x, g.rep(x, g.txt(y)), g.rep(y, g.txt(x)))
			}
		}
	case *ast.IncDecStmt:
		if pure(x.X) {
			op := "+= 1"
			if x.Tok == token.DEC {
				op = "-= 1"
			}
			g.add("incdec", x, g.rep(x, g.txt(x.X)+" "+op))
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			if pure(x.X) && pure(x.Y) {
				op := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}[x.Op]
				g.add("flip", x, g.rep(x, g.txt(x.Y)+" "+op+" "+g.txt(x.X)))
				neg := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<"}[x.Op]
				if b, ok := g.typ(x.X).Underlying().(*types.Basic); !ok || b.Info()&types.IsFloat == 0 {
					g.add("neg", x, g.rep(x, "!("+g.txt(x.X)+" "+neg+" "+g.txt(x.Y)+")"))
				}
			}
			if b, ok := g.typ(x.X).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && g.txt(x.Y) == `""` {
				if x.Op == token.EQL {
					g.add("lenstr", x, g.rep(x, "len("+g.txt(x.X)+") == 0"))
				} else if x.Op == token.NEQ {
					g.add("lenstr", x, g.rep(x, "len("+g.txt(x.X)+") > 0"))
				}
			}
		case token.LAND, token.LOR:
			op := "||"
			if x.Op == token.LOR {
				op = "&&"
			}
			g.add("demorgan", x, g.rep(x, "!(!("+g.txt(x.X)+") "+op+" !("+g.txt(x.Y)+"))"))
		}
	case *ast.RangeStmt:
		_, sl := g.typ(x.X).Underlying().(*types.Slice)
		if x.Tok == token.DEFINE && sl && pure(x.X) && !assigned(g, x.Body, g.txt(x.X)) {
			i := "_"
			if x.Key != nil {
				i = g.txt(x.Key)
			}
			if i == "_" {
				i = g.fresh("idx")
			}
			v := ""
			if x.Value != nil && g.txt(x.Value) != "_" {
				v = g.txt(x.Value) + " := " + g.txt(x.X) + "[" + i + "]\n"
			}
			g.add("index", x, edit{g.off(x.Pos()), g.off(x.Body.Lbrace) + 1, "for " + i + " := 0; " + i + " < len(" + g.txt(x.X) + "); " + i + "++ {\n" + v})
		}
		if _, i := g.list(x); i >= 0 {
			v := g.fresh("coll")
			g.add("rangevar", x, g.ins(x.Pos(), v+" := "+g.txt(x.X)+"\n"), g.rep(x.X, v))
		}
	case *ast.ForStmt:
		if x.Cond != nil && x.Post == nil && x.Init == nil {
			g.add("forcond", x, g.rep(x.Cond, ""), g.ins(x.Body.Lbrace+1, "\nif !("+g.txt(x.Cond)+") {\nbreak\n}\n"))
		}
	case *ast.DeferStmt:
		if len(x.Call.Args) == 0 {
			if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
				g.add("defer", x, g.rep(x.Call, "func() { "+g.txt(x.Call)+" }()"))
			}
		}
	case *ast.FuncLit:
		// a literal that is an argument or a field of a statement: give it a name
		var s ast.Node = x
		ok := true
		for s != nil {
			if st, is := s.(ast.Stmt); is {
				if _, i := g.list(st); i >= 0 {
					break
				}
				ok = false
				break
			}
			if s != x {
				if _, is := s.(*ast.FuncLit); is {
					ok = false
					break
				}
			}
			s = g.par[s]
		}
		if s == nil || !ok {
			return
		}
		switch s.(type) {
		case *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.GoStmt:
			if a, is := s.(*ast.AssignStmt); is && len(a.Rhs) == 1 && a.Rhs[0] == x && a.Tok == token.DEFINE {
				return
			}
			v := g.fresh("fn")
			g.add("namefn", x, g.ins(s.Pos(), v+" := "+g.txt(x)+"\n"), g.rep(x, v))
		}
	}
	g.mutate(n)

	if l := stmts(n); len(l) > 0 && g.fn != nil {
		g.extract(n, l)
	}
}

// mutate adds edits that change behaviour, of kinds that begin with "mut-"; they are only made on request.
func (g *gen) mutate(n ast.Node) {
	switch x := n.(type) {
	case *ast.IfStmt:
		g.add("mut-not", x, g.rep(x.Cond, "!("+g.txt(x.Cond)+")"))
		g.add("mut-true", x, g.rep(x.Cond, "("+g.txt(x.Cond)+") || true"))
		g.add("mut-false", x, g.rep(x.Cond, "("+g.txt(x.Cond)+") && false"))
	case *ast.BinaryExpr:
		if op, ok := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.SUB: "+"}[x.Op]; ok {
			g.add("mut-op", x, g.rep(x, g.txt(x.X)+" "+op+" "+g.txt(x.Y)))
		}
	case *ast.BasicLit:
		if x.Kind == token.INT {
			g.add("mut-const", x, g.rep(x, "("+x.Value+" + 1)"))
		}
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		if _, i := g.list(n.(ast.Stmt)); i >= 0 {
			g.add("mut-del", n, g.rep(n, ""))
		}
	case *ast.AssignStmt:
		if _, i := g.list(x); i >= 0 && x.Tok != token.DEFINE {
			g.add("mut-del", x, g.rep(x, ""))
		}
	case *ast.BranchStmt:
		if x.Label == nil && x.Tok == token.CONTINUE {
			g.add("mut-branch", x, g.rep(x, "break"))
		}
		if x.Label == nil && x.Tok == token.BREAK {
			g.add("mut-branch", x, g.rep(x, "continue"))
		}
	case *ast.ReturnStmt:
		if k := len(x.Results); k > 0 {
			last := x.Results[k-1]
			if t := g.typ(last); t != nil && types.TypeString(t, nil) == "error" && !g.constant(last) {
				g.add("mut-nilerr", x, g.rep(last, "nil"))
			}
			if id, ok := last.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
				g.add("mut-bool", x, g.rep(last, map[string]string{"true": "false", "false": "true"}[id.Name]))
			}
		}
	case *ast.CallExpr:
		// Two arguments of one type.
		for i := 0; i+1 < len(x.Args); i++ {
			if a, b := g.typ(x.Args[i]), g.typ(x.Args[i+1]); a != nil && b != nil && types.Identical(a, b) {
				g.add("mut-swap", x, g.rep(x.Args[i], g.txt(x.Args[i+1])), g.rep(x.Args[i+1], g.txt(x.Args[i])))
			}
		}
	}
}

func stmts(n ast.Node) []ast.Stmt {
	switch x := n.(type) {
	case *ast.BlockStmt:
		return x.List
	case *ast.CaseClause:
		return x.Body
	}
	return nil
}

func assigned(g *gen, n ast.Node, s string) bool {
	bad := false
	ast.Inspect(n, func(c ast.Node) bool {
		switch x := c.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if g.txt(l) == s {
					bad = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND && g.txt(x.X) == s {
				bad = true
			}
		}
		return true
	})
	return bad
}

// indep: x does not write what y reads or writes (idents and fields by name, no calls).
func (g *gen) indep(x, y *ast.AssignStmt) bool {
	for _, e := range append(append([]ast.Expr{}, x.Rhs...), y.Rhs...) {
		if !pure(e) {
			return false
		}
	}
	w := map[string]bool{}
	for _, l := range x.Lhs {
		switch t := l.(type) {
		case *ast.Ident:
			w[t.Name] = true
		case *ast.SelectorExpr:
			w[t.Sel.Name] = true
		default:
			return false
		}
	}
	ok := true
	ast.Inspect(y, func(n ast.Node) bool {
		if id, is := n.(*ast.Ident); is && w[id.Name] {
			ok = false
		}
		return true
	})
	return ok
}

func (g *gen) args(s ast.Stmt, c *ast.CallExpr) {
	if _, i := g.list(s); i < 0 {
		return
	}
	if tv := g.info.Types[c.Fun]; tv.IsType() || tv.IsBuiltin() {
		return
	}
	if a, ok := s.(*ast.AssignStmt); ok && a.Tok != token.DEFINE && a.Tok != token.ASSIGN {
		return
	}
	sel, _ := c.Fun.(*ast.SelectorExpr)
	if sel != nil && !pure(sel.X) {
		return
	}
	var sb strings.Builder
	var ee []edit
	for _, a := range c.Args {
		if g.constant(a) {
			continue
		}
		if _, ok := a.(*ast.Ident); ok {
			continue
		}
		if _, ok := g.typ(a).(*types.Tuple); ok {
			return
		}
		v := g.fresh("arg")
		sb.WriteString(v + " := " + g.txt(a) + "\n")
		ee = append(ee, g.rep(a, v))
	}
	if len(ee) > 0 {
		g.add("argtemp", s, append(ee, g.ins(s.Pos(), sb.String()))...)
	}
}

func (g *gen) recv(s ast.Stmt, c *ast.CallExpr) {
	if _, i := g.list(s); i < 0 {
		return
	}
	sel, _ := c.Fun.(*ast.SelectorExpr)
	if sel == nil || !pure(sel.X) {
		return
	}
	if _, ok := sel.X.(*ast.Ident); ok {
		return
	}
	t := g.typ(sel.X)
	if t == nil {
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		v := g.fresh("recv")
		g.add("recvtemp", s, g.ins(s.Pos(), v+" := "+g.txt(sel.X)+"\n"), g.rep(sel.X, v))
	}
}

// extract moves runs of statements into a new function.
func (g *gen) extract(parent ast.Node, l []ast.Stmt) {
	for i := 0; i < len(l); i++ {
		for j := i + 1; j <= len(l) && j-i <= 6; j++ {
			if i == 0 && j == len(l) && g.fn.Body == parent {
				continue
			}
			g.extractRun(l[i:j], l[j:], parent)
		}
	}
}

func (g *gen) extractRun(run, rest []ast.Stmt, parent ast.Node) {
	// size: at least two statements or one compound
	if len(run) == 1 {
		switch run[0].(type) {
		case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
		default:
			return
		}
	}
	if g.fn.Type.TypeParams != nil {
		return
	}
	tail := false // a run which ends the function: returns are kept
	if escapes(true, run...) {
		if len(rest) > 0 || g.fn.Body != parent || escapes(false, run...) {
			return
		}
		if g.fn.Type.Results == nil || !isRet(run[len(run)-1]) {
			return
		}
		for _, f := range g.fn.Type.Results.List {
			if len(f.Names) > 0 {
				return
			}
		}
		tail = true
	}
	lo, hi := run[0].Pos(), run[len(run)-1].End()
	in := func(p token.Pos) bool { return p >= lo && p < hi }
	var enclosing ast.Node = g.fn
	used, set := map[*types.Var]bool{}, map[*types.Var]bool{}
	var order []*types.Var
	var results []*types.Var
	bad := false
	obj := func(id *ast.Ident) *types.Var {
		o := g.info.Uses[id]
		if o == nil {
			o = g.info.Defs[id]
		}
		v, _ := o.(*types.Var)
		if v == nil || v.IsField() || v.Parent() == g.pkg.Scope() || v.Pkg() != g.pkg {
			return nil
		}
		return v
	}
	captured, addressed := map[*types.Var]bool{}, map[*types.Var]bool{}
	ast.Inspect(enclosing, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			if x.Pos() <= lo && hi <= x.End() {
				return true
			}
			ast.Inspect(x, func(c ast.Node) bool {
				if id, ok := c.(*ast.Ident); ok {
					if v := obj(id); v != nil && !(x.Pos() <= v.Pos() && v.Pos() < x.End()) {
						captured[v] = true
					}
				}
				return true
			})
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if id, ok := x.X.(*ast.Ident); ok {
					if v := obj(id); v != nil {
						captured[v] = true
						if in(x.Pos()) {
							addressed[v] = true
						}
					}
				}
			}
		}
		return true
	})
	lhs := map[*ast.Ident]bool{}
	for _, s := range run {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, e := range x.Lhs {
					if id, ok := e.(*ast.Ident); ok {
						lhs[id] = true
					} else if se, ok := e.(*ast.SelectorExpr); ok { // a field of a local struct
						for {
							if in, ok := se.X.(*ast.SelectorExpr); ok {
								se = in
								continue
							}
							break
						}
						if id, ok := se.X.(*ast.Ident); ok {
							if t := g.typ(id); t != nil {
								if _, ok := t.Underlying().(*types.Struct); ok {
									lhs[id] = true
								}
							}
						}
					}
				}
			case *ast.IncDecStmt:
				if id, ok := x.X.(*ast.Ident); ok {
					lhs[id] = true
				}
			case *ast.CallExpr:
				// A method of a struct variable can change it.
				if se, ok := x.Fun.(*ast.SelectorExpr); ok {
					if id, ok := se.X.(*ast.Ident); ok {
						if t := g.typ(id); t != nil {
							if _, ok := t.Underlying().(*types.Struct); ok {
								lhs[id] = true
							}
						}
					}
				}
			case *ast.Ident:
				v := obj(x)
				if v == nil || in(v.Pos()) {
					return true
				}
				if !used[v] {
					used[v] = true
					order = append(order, v)
				}
				if lhs[x] {
					set[v] = true
				}
			}
			return true
		})
	}
	// variables live after the run
	live := map[*types.Var]bool{}
	ast.Inspect(enclosing, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && !in(id.Pos()) {
			if v := obj(id); v != nil {
				live[v] = true
			}
		}
		return true
	})
	for _, s := range run {
		ast.Inspect(s, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := g.info.Defs[id].(*types.Var); ok && v != nil && live[v] {
					results = append(results, v)
				}
			}
			return true
		})
	}
	params := order
	decl := results
	for v := range set {
		if captured[v] {
			bad = true
		}
	}
	for v := range used {
		if addressed[v] {
			bad = true
		}
		if captured[v] && !set[v] {
			// the address or a closure of the variable may change it: only safe if it is not changed at all
			if strings.Contains(g.txt(g.fn), v.Name()+" = ") {
				bad = true
			}
		}
	}
	var outs []*types.Var
	if !tail {
		for _, v := range order {
			if set[v] {
				outs = append(outs, v)
			}
		}
	}
	if bad || len(decl) > 0 && len(outs) > 0 || len(outs) > 3 || len(decl) > 3 || len(params) > 7 {
		return
	}
	if tail && len(decl) > 0 {
		return
	}
	name := g.fresh("extracted")
	ts := func(v *types.Var) string { return types.TypeString(v.Type(), g.qual) }
	var ps, as, rs, rn []string
	recv := ""
	var rv *types.Var
	if g.fn.Recv != nil && len(g.fn.Recv.List[0].Names) > 0 {
		rv = obj(g.fn.Recv.List[0].Names[0])
	}
	call := ""
	for _, v := range params {
		if v == rv && !set[v] {
			recv = "(" + v.Name() + " " + ts(v) + ") "
			call = v.Name() + "."
			continue
		}
		ps = append(ps, v.Name()+" "+ts(v))
		as = append(as, v.Name())
	}
	op := " = "
	if len(decl) > 0 {
		outs, op = decl, " := "
	}
	for _, v := range outs {
		rs = append(rs, ts(v))
		rn = append(rn, v.Name())
	}
	body := string(g.src[g.off(lo):g.off(hi)])
	res := strings.Join(rs, ", ")
	if len(rs) > 1 {
		res = "(" + res + ")"
	}
	code := call + name + "(" + strings.Join(as, ", ") + ")"
	if tail {
		res = g.txt(g.fn.Type.Results)
		code = "return " + code
	} else if len(outs) > 0 {
		code = strings.Join(rn, ", ") + op + code
		body += "\nreturn " + strings.Join(rn, ", ")
	}
	decls := "\n\nfunc " + recv + name + "(" + strings.Join(ps, ", ") + ") " + res + " {\n" + body + "\n}\n"
	if strings.Contains(decls, "MISSING_") {
		return
	}
	k := "extract"
	if tail {
		k = "exttail"
	}
	end := g.off(g.fn.End())
	g.add(k, run[0], edit{g.off(lo), g.off(hi), code}, edit{end, end, decls})
	// the same as a plain function
	if recv != "" {
		name2 := g.fresh("extracted")
		d := "\n\nfunc " + name2 + "(" + strings.Join(append([]string{rv.Name() + " " + ts(rv)}, ps...), ", ") + ") " + res + " {\n" + body + "\n}\n"
		c := strings.Replace(code, call+name+"(", name2+"("+rv.Name()+map[bool]string{true: ", "}[len(as) > 0], 1)
		g.add(k+"fn", run[0], edit{g.off(lo), g.off(hi), c}, edit{end, end, d})
	}
}

func isRet(s ast.Stmt) bool { _, ok := s.(*ast.ReturnStmt); return ok }

// renames of unexported objects of the package and of locals.
func (g *gen) renames(files []*ast.File, names []string, srcs [][]byte) []site {
	var out []site
	type occ struct {
		f  int
		id *ast.Ident
	}
	uses := map[types.Object][]occ{}
	for fi, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				o := g.info.Defs[id]
				if o == nil {
					o = g.info.Uses[id]
				}
				if o != nil && o.Pkg() == g.pkg {
					uses[o] = append(uses[o], occ{fi, id})
				}
			}
			return true
		})
	}
	var objs []types.Object
	for o := range uses {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		if o.Exported() || o.Name() == "_" || o.Name() == "main" || o.Name() == "init" {
			continue
		}
		kind := ""
		switch v := o.(type) {
		case *types.Var:
			if v.IsField() {
				kind = "renfield"
				if v.Embedded() {
					continue
				}
			} else {
				kind = "renvar"
			}
		case *types.Func:
			kind = "renfunc"
		case *types.TypeName:
			kind = "rentype"
		case *types.Const:
			kind = "renconst"
		default:
			continue
		}
		s := site{kind: kind, fn: o.Name(), line: g.fset.Position(o.Pos()).Line}
		s.file = g.fset.Position(o.Pos()).Filename
		nn := o.Name() + "Renamed"
		for _, u := range uses[o] {
			s.edits = append(s.edits, edit{u.f<<32 | g.off(u.id.Pos()), u.f<<32 | g.off(u.id.End()), nn})
		}
		out = append(out, s)
	}
	return out
}

var (
	repo  = flag.String("repo", "/repo", "")
	kinds = flag.String("kinds", "", "")
	only  = flag.String("sites", "", "")
	funcs = flag.String("funcs", "", "")
	seed  = flag.Int64("seed", 0, "")
	rate  = flag.Float64("rate", 0, "")
	list  = flag.Bool("list", false, "")
	nochk = flag.Bool("nocheck", false, "")
)

func main() {
	flag.Parse()
	want := map[string]bool{}
	for _, k := range strings.Split(*kinds, ",") {
		if k != "" {
			want[k] = true
		}
	}
	fwant := map[string]bool{}
	for _, k := range strings.Split(*funcs, ",") {
		if k != "" {
			fwant[k] = true
		}
	}
	var all []site
	type pkgData struct {
		names []string
		srcs  [][]byte
		fset  *token.FileSet
		imp   types.Importer
		path  string
	}
	var pkgs []*pkgData
	var owner []int // package of a site
	for _, dir := range []string{"flatjsonl", "cmd/csvequals", "cmd/jsonplay", "."} {
		m, _ := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		p := &pkgData{fset: token.NewFileSet(), path: dir}
		var files []*ast.File
		for _, fn := range m {
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			b, err := os.ReadFile(fn)
			die(err)
			f, err := parser.ParseFile(p.fset, fn, b, parser.ParseComments)
			die(err)
			p.names, p.srcs, files = append(p.names, fn), append(p.srcs, b), append(files, f)
		}
		if len(files) == 0 {
			continue
		}
		p.imp = importer.ForCompiler(p.fset, "gc", exportData)
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
		die(os.Chdir(*repo))
		tp, err := (&types.Config{Importer: p.imp}).Check(dir, p.fset, files, info)
		die(err)
		pkgs = append(pkgs, p)
		g0 := &gen{fset: p.fset, info: info, pkg: tp}
		for i, f := range files {
			g := &gen{fset: p.fset, info: info, pkg: tp, file: f, name: p.names[i], src: p.srcs[i], par: map[ast.Node]ast.Node{}, n: i * 10000}
			var stack []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					stack = stack[:len(stack)-1]
					return true
				}
				if len(stack) > 0 {
					g.par[n] = stack[len(stack)-1]
				}
				stack = append(stack, n)
				return true
			})
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				g.fn = fd
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					if n != nil {
						g.visit(n)
					}
					return true
				})
			}
			for _, s := range g.sites {
				for k := range s.edits {
					s.edits[k].pos |= i << 32
					s.edits[k].end |= i << 32
				}
				all = append(all, s)
				owner = append(owner, len(pkgs)-1)
			}
		}
		for _, s := range g0.renames(files, p.names, p.srcs) {
			all = append(all, s)
			owner = append(owner, len(pkgs)-1)
		}
	}
	apply := func(p *pkgData, ee []edit) ([][]byte, bool) {
		sort.SliceStable(ee, func(i, j int) bool { return ee[i].pos < ee[j].pos })
		out := make([][]byte, len(p.srcs))
		for i := range p.srcs {
			var b bytes.Buffer
			at := 0
			for _, e := range ee {
				if e.pos>>32 != i {
					continue
				}
				lo, hi := e.pos&0xffffffff, e.end&0xffffffff
				if lo < at {
					return nil, false
				}
				b.Write(p.srcs[i][at:lo])
				b.WriteString(e.text)
				at = hi
			}
			b.Write(p.srcs[i][at:])
			out[i] = b.Bytes()
		}
		return out, true
	}
	check := func(p *pkgData, srcs [][]byte) error {
		fs := token.NewFileSet()
		var files []*ast.File
		for i, s := range srcs {
			f, err := parser.ParseFile(fs, p.names[i], s, 0)
			if err != nil {
				return err
			}
			files = append(files, f)
		}
		_, err := (&types.Config{Importer: p.imp}).Check(p.path, fs, files, nil)
		return err
	}
	pick := map[int]bool{}
	if *only != "" {
		for _, s := range strings.Split(*only, ",") {
			n, err := strconv.Atoi(s)
			die(err)
			pick[n] = true
		}
	}
	rnd := rand.New(rand.NewSource(*seed))
	perm := rnd.Perm(len(all))
	chosen := map[int][]edit{}
	if *only != "" {
		perm = perm[:0]
		for i := range all {
			if pick[i] {
				perm = append(perm, i)
			}
		}
	} else if *list {
		for i := range perm {
			perm[i] = i
		}
	}
	for _, i := range perm {
		s := all[i]
		if len(want) == 0 && *only == "" && strings.HasPrefix(s.kind, "mut-") {
			continue
		}
		if len(want) > 0 && !want[s.kind] || len(fwant) > 0 && !fwant[s.fn] {
			continue
		}
		if *only == "" && !*list && rnd.Float64() >= *rate {
			continue
		}
		p := pkgs[owner[i]]
		if *list {
			if !*nochk {
				o, ok := apply(p, append([]edit{}, s.edits...))
				if !ok || check(p, o) != nil {
					continue
				}
			}
			fmt.Printf("%d %s %s:%d %s\n", i, s.kind, filepath.Base(s.file), s.line, s.fn)
			continue
		}
		clash := false
		for _, a := range chosen[owner[i]] {
			for _, b := range s.edits {
				if a.pos < b.end && b.pos < a.end || a.pos == b.pos && a.pos != a.end && b.pos != b.end || a.pos == b.pos || a.pos == b.end && a.pos == a.end && b.pos != b.end || b.pos == a.end && b.pos == b.end && a.pos != a.end {
					clash = true
				}
			}
			// spans
		}
		if clash {
			continue
		}
		// whole spans of two edits must not interleave
		lo, hi := span(s.edits)
		for j := range pick {
			if !pick[j] || j == i || owner[j] != owner[i] || *only != "" {
				continue
			}
			l2, h2 := span(all[j].edits)
			if lo < h2 && l2 < hi && !strings.HasPrefix(s.kind, "ren") && !strings.HasPrefix(all[j].kind, "ren") {
				clash = true
			}
		}
		if clash {
			continue
		}
		ee := append(append([]edit{}, chosen[owner[i]]...), s.edits...)
		o, ok := apply(p, ee)
		if !ok {
			continue
		}
		if err := check(p, o); err != nil {
			continue
		}
		chosen[owner[i]] = ee
		pick[i] = true
		fmt.Printf("%d %s %s:%d %s\n", i, s.kind, filepath.Base(s.file), s.line, s.fn)
	}
	if *list {
		return
	}
	for pi, ee := range chosen {
		p := pkgs[pi]
		o, _ := apply(p, ee)
		for i, b := range o {
			if f, err := format.Source(b); err == nil {
				b = f
			}
			die(os.WriteFile(p.names[i], b, 0o644))
		}
	}
}

var exports map[string]string

// exportData finds the compiled form of an imported package.
func exportData(path string) (io.ReadCloser, error) {
	if exports == nil {
		exports = map[string]string{}
		c := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}", "./...")
		c.Dir = *repo
		o, err := c.Output()
		die(err)
		for _, l := range strings.Split(string(o), "\n") {
			if a, b, ok := strings.Cut(l, " "); ok {
				exports[a] = b
			}
		}
	}
	return os.Open(exports[path])
}

func span(ee []edit) (int, int) {
	lo, hi := ee[0].pos, ee[0].end
	for _, e := range ee {
		if e.text != "" && strings.HasPrefix(e.text, "\n\nfunc ") {
			continue
		}
		lo, hi = min(lo, e.pos), max(hi, e.end)
	}
	return lo, hi
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
