package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Pkg is one package loaded from source.
type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	// import-name -> path, merged over the files (for the contract language)
	Imports map[string]*types.Package
}

// FuncInfo is a function with a body.
type FuncInfo struct {
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
	Key  string // pkgpath + "." + name, name = f | (*T).m | (T).m
}

// Loader loads packages from source. roots maps an import path prefix to a directory.
type Loader struct {
	fset    *token.FileSet
	roots   map[string]string
	pkgs    map[string]*Pkg
	std     types.Importer
	funcs   map[*types.Func]*FuncInfo
	byKey   map[string]*FuncInfo
	impls   map[string][]types.Type
	overlay map[string]string
}

func isDir(p string) bool {
	st, err := os.Stat(p)
	return err == nil && st.IsDir()
}

func NewLoader(roots map[string]string) *Loader {
	fset := token.NewFileSet()
	build.Default.CgoEnabled = false
	if build.Default.GOROOT == "" || !isDir(filepath.Join(build.Default.GOROOT, "src")) {
		// built with -trimpath: ask the toolchain
		if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
			build.Default.GOROOT = strings.TrimSpace(string(out))
		}
	}
	return &Loader{
		fset:  fset,
		roots: roots,
		pkgs:  map[string]*Pkg{},
		std:   importer.ForCompiler(fset, "source", nil),
		funcs: map[*types.Func]*FuncInfo{},
		byKey: map[string]*FuncInfo{},
		impls: map[string][]types.Type{},
	}
}

func (l *Loader) dirFor(path string) (string, bool) {
	best, bestDir := "", ""
	for p, d := range l.roots {
		if path == p || strings.HasPrefix(path, p+"/") {
			if len(p) > len(best) {
				best, bestDir = p, filepath.Join(d, strings.TrimPrefix(path, p))
			}
		}
	}
	return bestDir, best != ""
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if _, ok := l.dirFor(path); ok {
		p, err := l.Load(path)
		if err != nil {
			return nil, err
		}
		return p.Types, nil
	}
	return l.std.Import(path)
}

func (l *Loader) Load(path string) (*Pkg, error) {
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	dir, ok := l.dirFor(path)
	if !ok {
		return nil, fmt.Errorf("no source root for %s", path)
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	p := &Pkg{Path: path, Dir: dir, Imports: map[string]*types.Package{}}
	names := []string{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, _ := build.Default.MatchFile(dir, n); !ok {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var src interface{}
		if t, ok := l.overlay[filepath.Join(dir, n)]; ok {
			src = t
		}
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.Files = append(p.Files, f)
	}
	if len(p.Files) == 0 {
		return nil, fmt.Errorf("no Go files in %s", dir)
	}
	p.Info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Implicits:  map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
	var terrs []string
	conf := types.Config{Importer: l, Error: func(err error) {
		if te, ok := err.(types.Error); ok && te.Soft {
			return
		}
		terrs = append(terrs, err.Error())
	}}
	tp, err := conf.Check(path, l.fset, p.Files, p.Info)
	if len(terrs) > 0 {
		return nil, fmt.Errorf("type errors in %s: %s", path, strings.Join(terrs, "; "))
	}
	p.Types = tp
	l.pkgs[path] = p
	for _, imp := range tp.Imports() {
		p.Imports[imp.Name()] = imp
	}
	for _, f := range p.Files {
		for _, is := range f.Imports {
			if is.Name != nil {
				for _, imp := range tp.Imports() {
					if `"`+imp.Path()+`"` == is.Path.Value {
						p.Imports[is.Name.Name] = imp
					}
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			obj, _ := p.Info.Defs[fd.Name].(*types.Func)
			if obj == nil {
				continue
			}
			fi := &FuncInfo{Pkg: p, Decl: fd, Obj: obj, Key: funcKey(obj)}
			l.funcs[obj] = fi
			l.byKey[fi.Key] = fi
		}
	}
	return p, nil
}

// funcKey names a function: path.f, path.(*T).m or path.(T).m
func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pkg := ""
	if f.Pkg() != nil {
		pkg = f.Pkg().Path() + "."
	}
	if sig.Recv() == nil {
		return pkg + f.Name()
	}
	rt := sig.Recv().Type()
	if pt, ok := rt.(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok {
			return pkg + "(*" + n.Obj().Name() + ")." + f.Name()
		}
	}
	if n, ok := rt.(*types.Named); ok {
		return pkg + "(" + n.Obj().Name() + ")." + f.Name()
	}
	return pkg + "(?)." + f.Name()
}
