package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Pkg is one type-checked package of the analysed module.
type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

// Program is the resolved source of the module under analysis.
type Program struct {
	Repo       string
	Module     string
	Fset       *token.FileSet
	Pkgs       map[string]*Pkg
	Order      []*Pkg
	Funcs      map[*types.Func]*FuncDecl
	loading    map[string]bool
	std        types.Importer
	dirs       map[string]string
	prelude    map[string]*FuncDecl
	preludePkg *Pkg
	written    map[types.Object]bool // variables that storage is written through
}

// FuncDecl is a declared function with its package.
type FuncDecl struct {
	Decl *ast.FuncDecl
	Pkg  *Pkg
	Obj  *types.Func
}

func (p *Program) Import(path string) (*types.Package, error) {
	if dir, ok := p.dirs[path]; ok {
		pk, err := p.load(path, dir)
		if err != nil {
			return nil, err
		}
		return pk.Types, nil
	}
	return p.std.Import(path)
}

func buildTagged(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") && strings.Contains(c.Text, "ignore") {
				return true
			}
		}
	}
	return false
}

func (p *Program) load(path, dir string) (*Pkg, error) {
	if pk, ok := p.Pkgs[path]; ok {
		return pk, nil
	}
	if p.loading[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	p.loading[path] = true
	defer delete(p.loading, path)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	pk := &Pkg{Path: path, Dir: dir}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(p.Fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		if buildTagged(f) {
			continue
		}
		pk.Files = append(pk.Files, f)
	}
	pk.Info = newInfo()
	conf := types.Config{Importer: p, Error: func(error) {}}
	tp, err := conf.Check(path, p.Fset, pk.Files, pk.Info)
	if err != nil {
		return nil, fmt.Errorf("type-check %s: %v", path, err)
	}
	pk.Types = tp
	p.Pkgs[path] = pk
	p.Order = append(p.Order, pk)
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if obj, ok := pk.Info.Defs[fd.Name].(*types.Func); ok {
					p.Funcs[obj] = &FuncDecl{fd, pk, obj}
				}
			}
		}
	}
	return pk, nil
}

func newInfo() *types.Info {
	return &types.Info{
		Types:        map[ast.Expr]types.TypeAndValue{},
		Defs:         map[*ast.Ident]types.Object{},
		Uses:         map[*ast.Ident]types.Object{},
		Implicits:    map[ast.Node]types.Object{},
		Selections:   map[*ast.SelectorExpr]*types.Selection{},
		Instances:    map[*ast.Ident]types.Instance{},
		Scopes:       map[ast.Node]*types.Scope{},
		FileVersions: map[*ast.File]string{},
	}
}

// LoadProgram parses and type-checks every non-test package of the module.
func LoadProgram(repo string) (*Program, error) {
	p := &Program{
		Repo: repo, Fset: token.NewFileSet(),
		Pkgs: map[string]*Pkg{}, Funcs: map[*types.Func]*FuncDecl{},
		loading: map[string]bool{}, dirs: map[string]string{},
	}
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			p.Module = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	if p.Module == "" {
		return nil, fmt.Errorf("no module line in go.mod")
	}
	p.std = importer.ForCompiler(p.Fset, "source", nil)
	err = filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			n := d.Name()
			if path != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			dir := filepath.Dir(path)
			rel, _ := filepath.Rel(repo, dir)
			ip := p.Module
			if rel != "." {
				ip += "/" + filepath.ToSlash(rel)
			}
			p.dirs[ip] = dir
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	var paths []string
	for ip := range p.dirs {
		paths = append(paths, ip)
	}
	sort.Strings(paths)
	for _, ip := range paths {
		if _, err := p.load(ip, p.dirs[ip]); err != nil {
			return nil, err
		}
	}
	if err := p.loadPrelude(); err != nil {
		return nil, err
	}
	p.findWritten()
	return p, nil
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// Lookup finds a package-level object, e.g. ("query/logop","And").
func (p *Program) Lookup(rel, name string) types.Object {
	pk := p.Pkgs[p.Module+"/"+rel]
	if pk == nil {
		return nil
	}
	return pk.Types.Scope().Lookup(name)
}

// Method finds a method declared on (a pointer to) the named type.
func (p *Program) Method(rel, typ, name string) *types.Func {
	o := p.Lookup(rel, typ)
	if o == nil {
		return nil
	}
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, o.Pkg(), name)
	f, _ := obj.(*types.Func)
	return f
}

// Func finds a package-level function.
func (p *Program) Func(rel, name string) *types.Func {
	f, _ := p.Lookup(rel, name).(*types.Func)
	return f
}
