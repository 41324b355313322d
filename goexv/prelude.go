package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"strings"
)

// The standard library functions below are analysed from their definition in
// prelude.txt.
//
//go:embed prelude.txt
var preludeText string

func (p *Program) loadPrelude() error {
	f, err := parser.ParseFile(p.Fset, "prelude.go", preludeText, 0)
	if err != nil {
		return err
	}
	pk := &Pkg{Path: "prelude", Files: []*ast.File{f}}
	pk.Info = newInfo()
	conf := types.Config{Importer: p, Error: func(error) {}}
	if pk.Types, err = conf.Check("prelude", p.Fset, pk.Files, pk.Info); err != nil {
		return fmt.Errorf("prelude: %v", err)
	}
	p.preludePkg = pk
	p.prelude = map[string]*FuncDecl{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		obj, ok := pk.Info.Defs[fd.Name].(*types.Func)
		if !ok {
			continue
		}
		p.prelude[strings.Replace(fd.Name.Name, "_", ".", 1)] = &FuncDecl{fd, pk, obj}
	}
	return nil
}
