package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Footprints computes which heap components a function may write, transitively.
type Footprints struct {
	L      *Loader
	Sp     *Specs
	direct map[*types.Func]*fpNode
	memo   map[*types.Func]map[string]bool
	vals   map[string]types.Type
	regs   map[string]func(x *Exec)
	x      *Exec
}

type fpNode struct {
	comps   map[string]bool
	callees map[*types.Func]bool
}

func NewFootprints(l *Loader, sp *Specs) *Footprints {
	return &Footprints{L: l, Sp: sp, direct: map[*types.Func]*fpNode{}, memo: map[*types.Func]map[string]bool{}, regs: map[string]func(x *Exec){}}
}

func (fp *Footprints) reg(name string, f func(x *Exec)) string {
	fp.regs[name] = f
	return name
}

// registerComp lets an Exec learn a component it has not met.
func (x *Exec) registerComp(name string) {
	if f, ok := x.fp.regs[name]; ok {
		f(x)
		return
	}
	panic(unsupported{"unknown component " + name})
}

func (fp *Footprints) F(st types.Type, f *types.Var) string {
	return fp.reg(cF(st, f.Name()), func(x *Exec) { x.compF(st, f) })
}
func (fp *Footprints) E(el types.Type) string { return fp.reg(cE(el), func(x *Exec) { x.compE(el) }) }
func (fp *Footprints) MD(m *types.Map) string { return fp.reg(cMD(m), func(x *Exec) { x.compMD(m) }) }
func (fp *Footprints) MV(m *types.Map) string { return fp.reg(cMV(m), func(x *Exec) { x.compMV(m) }) }
func (fp *Footprints) P(el types.Type) string { return fp.reg(cP(el), func(x *Exec) { x.compP(el) }) }
func (fp *Footprints) G(o types.Object) string {
	return fp.reg(cG(o), func(x *Exec) { x.compG(o) })
}

func (fp *Footprints) buf() string {
	return fp.reg(bufComp, func(x *Exec) { x.compBuf() })
}

// of gives the transitive footprint of f.
func (fp *Footprints) of(f *types.Func) map[string]bool {
	if m, ok := fp.memo[f]; ok {
		return m
	}
	out := map[string]bool{}
	seen := map[*types.Func]bool{}
	var walk func(g *types.Func)
	walk = func(g *types.Func) {
		if seen[g] {
			return
		}
		seen[g] = true
		n := fp.directOf(g)
		for c := range n.comps {
			out[c] = true
		}
		for c := range n.callees {
			walk(c)
		}
	}
	walk(f)
	fp.memo[f] = out
	return out
}

func (fp *Footprints) directOf(f *types.Func) *fpNode {
	if n, ok := fp.direct[f]; ok {
		return n
	}
	n := &fpNode{map[string]bool{}, map[*types.Func]bool{}}
	fp.direct[f] = n
	con := fp.Sp.Contracts[funcKey(f)]
	fi := fp.L.funcs[f]
	if con != nil && con.Pure {
		return n
	}
	if fi == nil || fi.Decl.Body == nil {
		if con != nil {
			for c := range fp.contract(con) {
				n.comps[c] = true
			}
		}
		return n
	}
	fp.scan(fi.Pkg.Info, fi.Decl.Body, n)
	return n
}

// node adds the transitive footprint of an AST node.
func (fp *Footprints) node(info *types.Info, nd ast.Node, into map[string]bool) {
	n := &fpNode{map[string]bool{}, map[*types.Func]bool{}}
	fp.scan(info, nd, n)
	for c := range n.comps {
		into[c] = true
	}
	for f := range n.callees {
		for c := range fp.of(f) {
			into[c] = true
		}
	}
}

// contract: footprint of a trusted external from its modifies clause
func (fp *Footprints) contract(con *Contract) map[string]bool {
	out := map[string]bool{}
	if con.ModAny {
		panic(unsupported{"trusted contract with modifies any: " + con.Key})
	}
	return out
}

func (fp *Footprints) allocOf(t types.Type, n *fpNode) {
	n.comps["alloc"] = true
	if isBuf(t) {
		n.comps[fp.buf()] = true
		return
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			n.comps[fp.F(t, u.Field(i))] = true
		}
		return
	}
	n.comps[fp.P(t)] = true
}

func (fp *Footprints) mapW(m *types.Map, n *fpNode, val bool) {
	n.comps[fp.MD(m)] = true
	if s, ok := m.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return
	}
	if val {
		n.comps[fp.MV(m)] = true
	}
}

func (fp *Footprints) lval(info *types.Info, e ast.Expr, n *fpNode) {
	e = unparen(e)
	switch l := e.(type) {
	case *ast.Ident:
		o := info.Uses[l]
		if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			n.comps[fp.G(v)] = true
		}
	case *ast.SelectorExpr:
		sel := info.Selections[l]
		if sel == nil {
			if v, ok := info.Uses[l.Sel].(*types.Var); ok {
				n.comps[fp.G(v)] = true
			}
			return
		}
		t := info.TypeOf(l.X)
		var last string
		for _, i := range sel.Index() {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				f := pt.Elem().Underlying().(*types.Struct).Field(i)
				last = fp.F(pt.Elem(), f)
				t = f.Type()
			} else {
				t = t.Underlying().(*types.Struct).Field(i).Type()
			}
		}
		if last != "" {
			n.comps[last] = true
		} else {
			fp.lval(info, l.X, n)
		}
	case *ast.IndexExpr:
		switch u := info.TypeOf(l.X).Underlying().(type) {
		case *types.Slice:
			n.comps[fp.E(u.Elem())] = true
		case *types.Map:
			fp.mapW(u, n, true)
		case *types.Array:
			fp.lval(info, l.X, n)
		case *types.Pointer:
			n.comps[fp.P(u.Elem())] = true
		}
	case *ast.StarExpr:
		el := deref(info.TypeOf(l.X))
		if u, ok := el.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				n.comps[fp.F(el, u.Field(i))] = true
			}
		} else {
			n.comps[fp.P(el)] = true
		}
	}
}

func (fp *Footprints) scan(info *types.Info, nd ast.Node, n *fpNode) {
	if nd == nil {
		return
	}
	ast.Inspect(nd, func(m ast.Node) bool {
		switch s := m.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				fp.lval(info, l, n)
			}
		case *ast.IncDecStmt:
			fp.lval(info, s.X, n)
		case *ast.RangeStmt:
			if s.Key != nil {
				fp.lval(info, s.Key, n)
			}
			if s.Value != nil {
				fp.lval(info, s.Value, n)
			}
		case *ast.UnaryExpr:
			if cl, ok := unparen(s.X).(*ast.CompositeLit); ok && s.Op == token.AND {
				fp.allocOf(info.TypeOf(cl), n)
			}
		case *ast.CompositeLit:
			switch u := info.TypeOf(s).Underlying().(type) {
			case *types.Slice:
				n.comps[fp.E(u.Elem())] = true
				n.comps["alloc"] = true
				if p, ok := u.Elem().Underlying().(*types.Pointer); ok {
					fp.allocOf(p.Elem(), n)
				}
			case *types.Map:
				n.comps["alloc"] = true
				n.comps[fp.MD(u)] = true
				n.comps[fp.MV(u)] = true
				if p, ok := u.Elem().Underlying().(*types.Pointer); ok {
					fp.allocOf(p.Elem(), n)
				}
			}
		case *ast.CallExpr:
			fp.call(info, s, n)
		}
		return true
	})
}

func (fp *Footprints) call(info *types.Info, s *ast.CallExpr, n *fpNode) {
	if tv, ok := info.Types[s.Fun]; ok && tv.IsType() {
		if sl, ok := tv.Type.Underlying().(*types.Slice); ok && isString(info.TypeOf(s.Args[0])) {
			n.comps[fp.E(sl.Elem())] = true
			n.comps["alloc"] = true
		}
		return
	}
	if id, ok := unparen(s.Fun).(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "append":
				if sl, ok := info.TypeOf(s).Underlying().(*types.Slice); ok {
					n.comps[fp.E(sl.Elem())] = true
					n.comps["alloc"] = true
				}
			case "copy":
				if sl, ok := info.TypeOf(s.Args[0]).Underlying().(*types.Slice); ok {
					n.comps[fp.E(sl.Elem())] = true
				}
			case "delete", "clear":
				if u, ok := info.TypeOf(s.Args[0]).Underlying().(*types.Map); ok {
					n.comps[fp.MD(u)] = true
				}
			case "new":
				fp.allocOf(info.TypeOf(s.Args[0]), n)
			case "make":
				n.comps["alloc"] = true
				switch u := info.TypeOf(s.Args[0]).Underlying().(type) {
				case *types.Slice:
					n.comps[fp.E(u.Elem())] = true
				case *types.Map:
					n.comps[fp.MD(u)] = true
					n.comps[fp.MV(u)] = true
				}
			}
			return
		}
	}
	f, ok := calleeOf(info, s).(*types.Func)
	if !ok {
		return
	}
	sig := f.Type().(*types.Signature)
	if sig.Variadic() && !s.Ellipsis.IsValid() && fp.L.funcs[f] != nil && len(s.Args) >= sig.Params().Len() {
		et := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem()
		n.comps[fp.E(et)] = true
		n.comps["alloc"] = true
	}
	if sig.Recv() != nil {
		// pointer receiver on an addressable value: copy in, copy out
		if sel, ok := unparen(s.Fun).(*ast.SelectorExpr); ok {
			if selection := info.Selections[sel]; selection != nil {
				rt := selection.Recv()
				if _, isP := sig.Recv().Type().Underlying().(*types.Pointer); isP {
					if _, haveP := rt.Underlying().(*types.Pointer); !haveP {
						if _, isI := rt.Underlying().(*types.Interface); !isI {
							fp.lval(info, sel.X, n)
							fp.allocOf(deref(sig.Recv().Type()), n)
						}
					}
				}
				if u, isI := rt.Underlying().(*types.Interface); isI {
					x := &Exec{L: fp.L}
					for _, im := range x.implementers(u, rt) {
						o, _, _ := types.LookupFieldOrMethod(im, true, f.Pkg(), f.Name())
						if g, ok := o.(*types.Func); ok {
							n.callees[g] = true
						}
					}
					return
				}
			}
		}
	}
	if fp.L.funcs[f] == nil {
		key := funcKey(f)
		if strings.HasPrefix(key, "bytes.(*Buffer).") || strings.HasPrefix(key, "strings.(*Builder).") || strings.HasPrefix(key, "fmt.Fprint") && len(s.Args) > 0 && isBuf(info.TypeOf(s.Args[0])) {
			n.comps[fp.buf()] = true
		}
		if strings.HasPrefix(key, "fmt.") {
			x := &Exec{L: fp.L}
			for _, a := range s.Args {
				t := info.TypeOf(a)
				if t == nil {
					continue
				}
				m := x.stringer(t)
				if m == nil {
					continue
				}
				if u, isI := t.Underlying().(*types.Interface); isI {
					for _, im := range x.implementers(u, t) {
						o, _, _ := types.LookupFieldOrMethod(im, true, f.Pkg(), m.Name())
						if g, ok := o.(*types.Func); ok {
							n.callees[g] = true
						}
					}
				} else {
					n.callees[m] = true
				}
			}
		}
		if strings.HasPrefix(key, "sort.") && len(s.Args) > 0 {
			if sl, ok := info.TypeOf(s.Args[0]).Underlying().(*types.Slice); ok {
				n.comps[fp.E(sl.Elem())] = true
			}
		}
	}
	n.callees[f] = true
}
