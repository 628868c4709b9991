package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Facts about the package variables that a contract lists under "initial": what the
// variable's initializer in the source gives it. The facts hold as long as nothing writes
// the variable, which varIsConstant checks over the loaded source.

// findVar resolves NAME or pkg.NAME.
func (x *Exec) findVar(name string, pkg *Pkg) (*types.Var, *Pkg) {
	p := pkg
	if i := strings.Index(name, "."); i >= 0 {
		imp := x.importOf(name[:i], pkg)
		if imp == nil {
			serr("no package %s", name[:i])
		}
		q, err := x.L.Load(imp.Path())
		if err != nil {
			serr("%v", err)
		}
		p, name = q, name[i+1:]
	}
	v, ok := p.Types.Scope().Lookup(name).(*types.Var)
	if !ok {
		serr("no package variable %s in %s", name, p.Path)
	}
	return v, p
}

func initializer(v *types.Var, p *Pkg) ast.Expr {
	for _, f := range p.Files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if p.Info.Defs[n] == v && len(vs.Values) == len(vs.Names) {
						return vs.Values[i]
					}
				}
			}
		}
	}
	return nil
}

// assumeInitial adds the facts of the variables to the state.
func (x *Exec) assumeInitial(st *State, names []string, pkg *Pkg) {
	for _, n := range names {
		v, p := x.findVar(n, pkg)
		e := initializer(v, p)
		if e == nil {
			serr("%s has no initializer", n)
		}
		f := &initFacts{x: x, st: st, p: p, structs: map[string]bool{}}
		f.fact(v.Name(), e, v.Type())
		if why := x.varIsConstant(v, f.structs); why != "" {
			x.unsupp(e, "package variable %s is written: %s", n, why)
		}
		x.assumps["package variable "+p.Path+"."+v.Name()+" keeps the value of its initializer (no loaded code assigns to it; writes through other names are not looked for)"] = true
	}
}

type initFacts struct {
	x       *Exec
	st      *State
	p       *Pkg
	structs map[string]bool
}

func (f *initFacts) add(text string) {
	n, err := ParseSpec(text)
	if err != nil {
		serr("initial fact %s: %v", text, err)
	}
	f.st.assume(f.x.specBool(n, &Env{x: f.x, st: f.st, old: f.st, names: map[string]binding{}, pkg: f.p}))
}

// name gives the text of a constant expression, "" when it is none.
func (f *initFacts) name(e ast.Expr) string {
	tv := f.p.Info.Types[e]
	if tv.Value == nil {
		return ""
	}
	switch tv.Value.Kind() {
	case constant.Bool, constant.Int:
		return tv.Value.ExactString()
	case constant.String:
		return fmt.Sprintf("%q", constant.StringVal(tv.Value))
	}
	return ""
}

// typeName is a type as the contract language writes it, "" when it cannot.
func (f *initFacts) typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil || n.Obj().Pkg() == f.p.Types {
			return n.Obj().Name()
		}
		for k, imp := range f.p.Imports {
			if imp == n.Obj().Pkg() {
				return k + "." + n.Obj().Name()
			}
		}
		return ""
	}
	if b, ok := t.(*types.Basic); ok {
		return b.Name()
	}
	return ""
}

// value gives the text of an expression that denotes a plain value (a constant or a struct of such).
func (f *initFacts) value(e ast.Expr, t types.Type) string {
	if s := f.name(e); s != "" {
		return s
	}
	if cl, ok := e.(*ast.CompositeLit); ok {
		u, ok := t.Underlying().(*types.Struct)
		tn := f.typeName(t)
		if !ok || tn == "" || len(cl.Elts) != u.NumFields() {
			return ""
		}
		var vs []string
		for i, el := range cl.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if kv.Key.(*ast.Ident).Name != u.Field(i).Name() {
					return ""
				}
				el = kv.Value
			}
			v := f.value(el, u.Field(i).Type())
			if v == "" {
				return ""
			}
			vs = append(vs, v)
		}
		return "mk(" + tn + ", " + strings.Join(vs, ", ") + ")"
	}
	return ""
}

// fact states what the place path holds when it is initialized with e.
func (f *initFacts) fact(path string, e ast.Expr, t types.Type) {
	if p, ok := e.(*ast.ParenExpr); ok {
		e = p.X
	}
	if i, ok := t.Underlying().(*types.Interface); ok && i != nil {
		et := f.p.Info.TypeOf(e)
		tn := f.typeName(et)
		if v := f.value(e, et); v != "" && tn != "" {
			f.add("typeis(" + path + ", " + tn + ") && as(" + path + ", " + tn + ") == " + v)
		}
		return
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		if cl, ok := u.X.(*ast.CompositeLit); ok {
			f.structOf(path, cl, deref(t), true)
		}
		return
	}
	cl, isLit := e.(*ast.CompositeLit)
	if !isLit {
		if v := f.value(e, t); v != "" {
			f.add(path + " == " + v)
		} else if _, ok := e.(*ast.FuncLit); ok {
			f.add(path + " != nil")
			f.literal(path, e.(*ast.FuncLit))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer: // an element &T{...} written {...}
		f.structOf(path, cl, u.Elem(), true)
	case *types.Struct:
		f.structOf(path, cl, t, false)
	case *types.Slice:
		f.add(path + " != nil")
		if f.indexed(cl) {
			f.add(fmt.Sprintf("len(%s) == %d", path, len(cl.Elts)))
			f.rows(path, cl, u.Elem())
		}
	case *types.Array:
		if f.indexed(cl) && int64(len(cl.Elts)) == u.Len() {
			f.rows(path, cl, u.Elem())
		}
	case *types.Map:
		f.add(path + " != nil")
		var keys []string
		for _, el := range cl.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := f.value(kv.Key, u.Key())
			if k == "" {
				return
			}
			keys = append(keys, k)
			f.add(k + " in " + path)
			f.fact(path+"["+k+"]", kv.Value, u.Elem())
		}
		if tn := f.typeName(u.Key()); tn != "" {
			c := "false"
			for _, k := range keys {
				c += " || k == " + k
			}
			f.add("forall k " + tn + " :: {k in " + path + "} k in " + path + " ==> " + c)
		}
	}
}

// indexed says that the elements are written in order, without keys.
func (f *initFacts) indexed(cl *ast.CompositeLit) bool {
	for _, el := range cl.Elts {
		if _, ok := el.(*ast.KeyValueExpr); ok {
			return false
		}
	}
	return true
}

// rows states the elements of an array or slice, and, where they are structs with maps, that
// an index in range is one of those listed.
func (f *initFacts) rows(path string, cl *ast.CompositeLit, elem types.Type) {
	for i, el := range cl.Elts {
		f.fact(fmt.Sprintf("%s[%d]", path, i), el, elem)
	}
	su, ok := elem.Underlying().(*types.Struct)
	if !ok || len(cl.Elts) == 0 {
		return
	}
	for j := 0; j < su.NumFields(); j++ {
		if _, ok := su.Field(j).Type().Underlying().(*types.Map); ok {
			c := "false"
			for i := range cl.Elts {
				c += fmt.Sprintf(" || r == %d", i)
			}
			f.add(fmt.Sprintf("forall r int :: {%s[r].%s} 0 <= r && r < %d ==> %s", path, su.Field(j).Name(), len(cl.Elts), c))
		}
	}
}

func (f *initFacts) structOf(path string, cl *ast.CompositeLit, t types.Type, ptr bool) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	if ptr {
		f.add(path + " != nil")
	}
	f.structs[t.String()] = true
	for i, el := range cl.Elts {
		fv := (*types.Var)(nil)
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			for j := 0; j < u.NumFields(); j++ {
				if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
					fv = u.Field(j)
				}
			}
			el = kv.Value
		} else {
			fv = u.Field(i)
		}
		f.fact(path+"."+fv.Name(), el, fv.Type())
	}
}

// literal states which constants a function literal of one integer argument can return.
func (f *initFacts) literal(path string, e *ast.FuncLit) {
	sig, ok := f.p.Info.TypeOf(e).(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
		return
	}
	tn := f.typeName(sig.Params().At(0).Type())
	if b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || tn == "" {
		return
	}
	vals, all := map[string]bool{}, true
	ast.Inspect(e.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncLit:
			all = false
		case *ast.ReturnStmt:
			if len(s.Results) != 1 || f.name(s.Results[0]) == "" {
				all = false
			} else {
				vals[f.name(s.Results[0])] = true
			}
		}
		return all
	})
	if !all || len(vals) == 0 {
		return
	}
	var ks []string
	for k := range vals {
		ks = append(ks, "apply("+path+", r) == "+k)
	}
	sort.Strings(ks)
	f.add("forall r " + tn + " :: {apply(" + path + ", r)} " + strings.Join(ks, " || "))
}

// varIsConstant looks for writes to v, or to fields of the struct types, in the loaded source.
func (x *Exec) varIsConstant(v *types.Var, structs map[string]bool) string {
	why := ""
	for _, p := range x.L.pkgs {
		root := func(e ast.Expr) bool {
			for {
				switch t := e.(type) {
				case *ast.Ident:
					return p.Info.Uses[t] == v
				case *ast.SelectorExpr:
					if p.Info.Uses[t.Sel] == v {
						return true
					}
					if tt := p.Info.TypeOf(t.X); tt != nil && structs[deref(tt).String()] {
						return true
					}
					e = t.X
				case *ast.IndexExpr:
					e = t.X
				case *ast.StarExpr:
					e = t.X
				case *ast.ParenExpr:
					e = t.X
				case *ast.SliceExpr:
					e = t.X
				default:
					return false
				}
			}
		}
		bad := func(e ast.Expr) {
			if why == "" && root(e) {
				why = x.L.fset.Position(e.Pos()).String()
			}
		}
		for _, file := range p.Files {
			ast.Inspect(file, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.AssignStmt:
					for _, l := range s.Lhs {
						if id, ok := l.(*ast.Ident); ok && s.Tok == token.DEFINE && p.Info.Defs[id] != nil {
							continue
						}
						bad(l)
					}
				case *ast.IncDecStmt:
					bad(s.X)
				case *ast.RangeStmt:
					if s.Tok == token.ASSIGN {
						if s.Key != nil {
							bad(s.Key)
						}
						if s.Value != nil {
							bad(s.Value)
						}
					}
				case *ast.UnaryExpr:
					if s.Op == token.AND {
						bad(s.X)
					}
				case *ast.CallExpr:
					if id, ok := s.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "copy") && len(s.Args) > 0 {
						bad(s.Args[0])
					}
				}
				return true
			})
		}
	}
	return why
}

// tablesFunc is an empty function for a contract about initial values.
func (v *Verifier) tablesFunc(con *Contract) (*FuncInfo, error) {
	if err := v.loadFor(con.Pkg); err != nil {
		return nil, err
	}
	p := v.L.pkgs[con.Pkg]
	if p == nil {
		return nil, fmt.Errorf("no package %s", con.Pkg)
	}
	f, err := parser.ParseFile(v.L.fset, "tables.go", "package p\nfunc tables() {}\n", 0)
	if err != nil {
		return nil, err
	}
	d := f.Decls[0].(*ast.FuncDecl)
	obj := types.NewFunc(d.Pos(), p.Types, con.Name, types.NewSignatureType(nil, nil, nil, types.NewTuple(), types.NewTuple(), false))
	return &FuncInfo{Pkg: p, Decl: d, Obj: obj, Key: con.Key}, nil
}
