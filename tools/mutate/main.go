// mutate lists small changes to the non-test sources of a repository, one JSON
// object per line: {"id","file","off","end","new","what"}. They are used to
// look for changes that pass the repository's tests and stay undetected.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type mut struct {
	ID   string `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
}

var (
	fset = token.NewFileSet()
	out  []mut
	seen = map[string]bool{}
)

func main() {
	root := os.Args[1]
	os.Chdir(root)
	build.Default.Dir = root
	imp := importer.ForCompiler(fset, "source", nil)
	for _, dir := range os.Args[2:] {
		pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool {
			return !strings.HasSuffix(fi.Name(), "_test.go")
		}, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, p := range pkgs {
			var files []*ast.File
			var names []string
			for n := range p.Files {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				files = append(files, p.Files[n])
			}
			info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
			conf := types.Config{Importer: imp, Error: func(error) {}}
			pk, _ := conf.Check(dir, fset, files, info)
			for i, f := range files {
				src, _ := os.ReadFile(names[i])
				mutateFile(names[i], src, f, info, pk)
			}
		}
	}
	enc := json.NewEncoder(os.Stdout)
	for _, m := range out {
		enc.Encode(m)
	}
}

func mutateFile(name string, src []byte, f *ast.File, info *types.Info, pk *types.Package) {
	name = filepath.Clean(name)
	pos := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
	emit := func(a, b token.Pos, new, what string) {
		o, e := pos(a), pos(b)
		if string(src[o:e]) == new {
			return
		}
		k := fmt.Sprint(name, o, e, new)
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, mut{fmt.Sprintf("m%04d", len(out)), name, fset.Position(a).Line, o, e, new, what})
	}
	swapOp := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	}
	var fn *ast.FuncDecl
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.FuncDecl:
			fn = x
		case *ast.BinaryExpr:
			for _, o := range swapOp[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x.Pos(), x.End(), text(x.X), "drop right operand")
				emit(x.Pos(), x.End(), text(x.Y), "drop left operand")
			}
			if x.Op == token.ADD || x.Op == token.SUB {
				emit(x.Pos(), x.End(), text(x.X), "drop right operand")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				var v int
				fmt.Sscan(x.Value, &v)
				emit(x.Pos(), x.End(), fmt.Sprint(v+1), "literal +1")
				if v > 0 {
					emit(x.Pos(), x.End(), fmt.Sprint(v-1), "literal -1")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.SUB || x.Op == token.NOT {
				emit(x.Pos(), x.End(), text(x.X), "drop "+x.Op.String())
			}
		case *ast.IfStmt:
			if x.Init == nil {
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "condition false")
				emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "condition true")
			} else {
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "condition false")
			}
			if x.Else != nil {
				emit(x.Else.Pos(), x.Else.End(), "{}", "drop else")
			}
		case *ast.ExprStmt:
			emit(x.Pos(), x.End(), "", "drop statement")
		case *ast.DeferStmt:
			emit(x.Pos(), x.End(), "", "drop defer")
			emit(x.Pos(), x.End(), text(x.Call), "undefer")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
				var ids []string
				for _, r := range x.Rhs {
					ast.Inspect(r, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok {
							if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != nil && v.Parent() != pk.Scope() {
								ids = append(ids, id.Name)
							}
						}
						return true
					})
				}
				t := ""
				for _, s := range ids {
					t += "_ = " + s + ";"
				}
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name != "_" {
						t += "_ = " + id.Name + ";"
					}
				}
				emit(x.Pos(), x.End(), strings.TrimSuffix(t, ";"), "drop assignment")
			}
		case *ast.IncDecStmt:
			emit(x.Pos(), x.End(), "", "drop inc/dec")
		case *ast.BranchStmt:
			if x.Label == nil {
				switch x.Tok {
				case token.BREAK:
					emit(x.Pos(), x.End(), "continue", "break -> continue")
				case token.CONTINUE:
					emit(x.Pos(), x.End(), "break", "continue -> break")
					emit(x.Pos(), x.End(), "", "drop continue")
				}
				if x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "", "drop break")
				}
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "empty loop")
			}
			emit(x.Body.Rbrace, x.Body.Rbrace, "\nbreak\n", "one iteration")
		case *ast.RangeStmt:
			emit(x.Body.Lbrace+1, x.Body.Lbrace+1, "\nif true { break }\n", "empty loop")
			emit(x.Body.Rbrace, x.Body.Rbrace, "\nbreak\n", "one iteration")
			if t, ok := info.Types[x.X]; ok {
				if _, ok := t.Type.Underlying().(*types.Slice); ok {
					emit(x.X.Pos(), x.X.End(), text(x.X)+"[min(1,len("+text(x.X)+")):]", "skip the first")
					emit(x.X.Pos(), x.X.End(), text(x.X)+"[:max(0,len("+text(x.X)+")-1)]", "skip the last")
				}
			}
		case *ast.ReturnStmt:
			if len(x.Results) > 0 && fn != nil {
				last := x.Results[len(x.Results)-1]
				if t, ok := info.Types[last]; ok && t.Type != nil && t.Type.String() == "error" {
					emit(last.Pos(), last.End(), "nil", "return no error")
				}
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "true" {
						emit(r.Pos(), r.End(), "false", "true -> false")
					} else if ok && id.Name == "false" {
						emit(r.Pos(), r.End(), "true", "false -> true")
					}
				}
			}
		case *ast.CompositeLit:
			for i, e := range x.Elts {
				if _, ok := e.(*ast.KeyValueExpr); ok {
					a, b := e.Pos(), e.End()
					if i+1 < len(x.Elts) {
						b = x.Elts[i+1].Pos()
					}
					emit(a, b, "", "drop field")
					continue
				}
				a, b := e.Pos(), e.End()
				if i+1 < len(x.Elts) {
					b = x.Elts[i+1].Pos()
				}
				emit(a, b, "", "drop element")
			}
		case *ast.CallExpr:
			id, _ := x.Fun.(*ast.Ident)
			if id != nil && id.Name == "append" && len(x.Args) > 1 {
				emit(x.Pos(), x.End(), text(x.Args[0]), "append nothing")
				for i := 1; i < len(x.Args); i++ {
					a, b := x.Args[i].Pos(), x.Args[i].End()
					if i+1 < len(x.Args) {
						b = x.Args[i+1].Pos()
						emit(a, b, "", "append less")
					}
				}
			}
			ft, _ := info.Types[x.Fun]
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := info.Types[x.Args[i]].Type, info.Types[x.Args[i+1]].Type
				if a == nil || b == nil {
					continue
				}
				if types.Identical(types.Default(a), types.Default(b)) || sameParam(ft.Type, i) {
					emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swap arguments")
				}
			}
			if len(x.Args) >= 1 {
				a, r := info.Types[x.Args[0]].Type, info.Types[ast.Expr(x)].Type
				if a != nil && r != nil && types.Identical(a, r) && len(x.Args) == 1 {
					emit(x.Pos(), x.End(), text(x.Args[0]), "drop call around argument")
				}
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				a, r := info.Types[s.X].Type, info.Types[ast.Expr(x)].Type
				if a != nil && r != nil && types.Identical(a, r) {
					emit(x.Pos(), x.End(), text(s.X), "drop method call")
				}
			}
		case *ast.Ident:
			o := info.Uses[x]
			if o == nil || fn == nil {
				return true
			}
			switch v := o.(type) {
			case *types.Const:
				if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					for _, nm := range v.Pkg().Scope().Names() {
						c, ok := v.Pkg().Scope().Lookup(nm).(*types.Const)
						if ok && c != v && types.Identical(c.Type(), v.Type()) && (c.Exported() || c.Pkg() == pk) {
							emit(x.Pos(), x.End(), nm, "constant "+x.Name+" -> "+nm)
						}
					}
				}
			case *types.Var:
				if v.IsField() || v.Parent() == nil || v.Parent() == pk.Scope() {
					// sibling fields
					return true
				}
				sc := pk.Scope().Innermost(x.Pos())
				for s := sc; s != nil && s != pk.Scope(); s = s.Parent() {
					for _, nm := range s.Names() {
						w, ok := s.Lookup(nm).(*types.Var)
						if ok && w != v && nm != "_" && w.Pos() < x.Pos() && types.Identical(w.Type(), v.Type()) {
							emit(x.Pos(), x.End(), nm, "variable "+x.Name+" -> "+nm)
						}
					}
				}
			}
		case *ast.SelectorExpr:
			o, _ := info.Uses[x.Sel].(*types.Var)
			if o != nil && o.IsField() {
				bt := info.Types[x.X].Type
				if p, ok := bt.Underlying().(*types.Pointer); ok {
					bt = p.Elem()
				}
				if st, ok := bt.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						w := st.Field(i)
						if w != o && types.Identical(w.Type(), o.Type()) && (w.Exported() || w.Pkg() == pk) {
							emit(x.Sel.Pos(), x.Sel.End(), w.Name(), "field "+o.Name()+" -> "+w.Name())
						}
					}
				}
			}
		}
		return true
	})
}

func sameParam(t types.Type, i int) bool {
	s, ok := t.(*types.Signature)
	if !ok || i+1 >= s.Params().Len() {
		return false
	}
	return types.Identical(s.Params().At(i).Type(), s.Params().At(i+1).Type())
}
