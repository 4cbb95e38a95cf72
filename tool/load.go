package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Package loading: the packages of /repo are parsed and type-checked from their current
// source on every run; the standard library is type-checked from GOROOT source.

const modPath = "github.com/infobloxopen/go-trees"

type pkgInfo struct {
	path  string
	dir   string
	files []*ast.File
	info  *types.Info
	pkg   *types.Package
	funcs map[string]*ast.FuncDecl // "Recv.name" or "name"
}

type loader struct {
	fset *token.FileSet
	repo string
	std  types.Importer
	pkgs map[string]*pkgInfo
	inf  *types.Info
}

func (l *loader) info() *types.Info { return l.inf }

func newLoader(repo string) *loader {
	fset := token.NewFileSet()
	return &loader{fset: fset, repo: repo, std: importer.ForCompiler(fset, "source", nil), pkgs: map[string]*pkgInfo{}, inf: &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Scopes:     map[ast.Node]*types.Scope{},
	}}
}

func (l *loader) Import(path string) (*types.Package, error) {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		p, err := l.load(strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/"))
		if err != nil {
			return nil, err
		}
		return p.pkg, nil
	}
	return l.std.Import(path)
}

// load type-checks the package in directory rel of the repository.
func (l *loader) load(rel string) (*pkgInfo, error) {
	if p, ok := l.pkgs[rel]; ok {
		return p, nil
	}
	dir := filepath.Join(l.repo, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, e := range ents {
		n := e.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	p := &pkgInfo{path: modPath + "/" + rel, dir: dir, funcs: map[string]*ast.FuncDecl{}}
	for _, n := range names {
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		if !fileIncluded(f) {
			continue
		}
		p.files = append(p.files, f)
	}
	if len(p.files) == 0 {
		return nil, fmt.Errorf("no Go files in %s", dir)
	}
	p.info = l.inf
	conf := types.Config{Importer: l, Sizes: types.SizesFor("gc", "amd64")}
	pk, err := conf.Check(p.path, l.fset, p.files, p.info)
	if err != nil {
		return nil, err
	}
	p.pkg = pk
	for _, f := range p.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				p.funcs[declName(fd)] = fd
			}
		}
	}
	l.pkgs[rel] = p
	return p, nil
}

func fileIncluded(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") && strings.Contains(c.Text, "verif") {
				return false
			}
		}
	}
	return true
}

func declName(fd *ast.FuncDecl) string {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return fd.Name.Name
	}
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name + "." + fd.Name.Name
	}
	return "?." + fd.Name.Name
}

// objName is the contract name of a function object.
func objName(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if sig.Recv() == nil {
		return f.Name()
	}
	t := sig.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name() + "." + f.Name()
	}
	return "?." + f.Name()
}

func pkgRel(p *types.Package) string {
	if p == nil {
		return ""
	}
	if strings.HasPrefix(p.Path(), modPath+"/") {
		return strings.TrimPrefix(p.Path(), modPath+"/")
	}
	return ""
}
