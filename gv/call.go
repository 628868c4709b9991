package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

const maxInline = 14

// callee resolves the static callee of a call, if any.
func calleeOf(info *types.Info, c *ast.CallExpr) types.Object {
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		return info.Uses[f]
	case *ast.SelectorExpr:
		return info.Uses[f.Sel]
	}
	return nil
}

func (x *Exec) evalCall(st *State, e *ast.CallExpr) []Res {
	// conversion
	if tv, ok := x.fr.info.Types[e.Fun]; ok && tv.IsType() {
		return x.evalConversion(st, e, tv.Type)
	}
	if id, ok := unparen(e.Fun).(*ast.Ident); ok {
		if b, ok := x.fr.info.Uses[id].(*types.Builtin); ok {
			return x.evalBuiltin(st, e, b.Name())
		}
	}
	if lit, ok := unparen(e.Fun).(*ast.FuncLit); ok {
		return x.evalArgs(st, e, x.typeOf(lit).(*types.Signature), func(st *State, args []string) []Res {
			return x.inlineLit(st, &Closure{lit, x.fr}, args, e)
		})
	}
	obj := calleeOf(x.fr.info, e)
	if f, ok := obj.(*types.Func); ok {
		sig := f.Type().(*types.Signature)
		if sig.Recv() == nil {
			return x.evalArgs(st, e, sig, func(st *State, args []string) []Res {
				return x.callFunc(st, f, args, e)
			})
		}
		sel := unparen(e.Fun).(*ast.SelectorExpr)
		selection := x.fr.info.Selections[sel]
		if selection == nil || selection.Kind() == types.MethodExpr {
			x.unsupp(e, "method expression call")
		}
		var out []Res
		for _, r := range x.eval(st, sel.X) {
			recv, rt := r.v[0], x.typeOf(sel.X)
			path := selection.Index()
			recv, rt = x.walkPath(r.st, recv, rt, path[:len(path)-1], e)
			want := sig.Recv().Type()
			_, wantP := want.Underlying().(*types.Pointer)
			_, haveP := rt.Underlying().(*types.Pointer)
			if _, isI := rt.Underlying().(*types.Interface); isI {
				out = append(out, x.evalArgs(r.st, e, sig, func(st *State, args []string) []Res {
					return x.callIface(st, f, recv, rt, args, e)
				})...)
				continue
			}
			if wantP && !haveP {
				// address of an addressable value: copy in, copy out
				tmp := x.allocValue(r.st, recv, rt)
				for _, rr := range x.evalArgs(r.st, e, sig, func(st *State, args []string) []Res {
					return x.callFunc(st, f, append([]string{tmp}, args...), e)
				}) {
					nv := x.loadPtr(rr.st, tmp, types.NewPointer(rt), e)
					for _, z := range x.assign(rr.st, sel.X, nv, e) {
						out = append(out, Res{z, rr.v})
					}
				}
				continue
			}
			if !wantP && haveP {
				recv = x.loadPtr(r.st, recv, rt, e)
			}
			recv = x.name(r.st, "recv", recv, want)
			out = append(out, x.evalArgs(r.st, e, sig, func(st *State, args []string) []Res {
				return x.callFunc(st, f, append([]string{recv}, args...), e)
			})...)
		}
		return out
	}
	// function value
	var out []Res
	sig := x.typeOf(e.Fun).Underlying().(*types.Signature)
	for _, r := range x.eval(st, e.Fun) {
		fv := r.v[0]
		out = append(out, x.evalArgs(r.st, e, sig, func(st *State, args []string) []Res {
			return x.callValue(st, fv, sig, args, e)
		})...)
	}
	return out
}

func (x *Exec) callValue(st *State, fv string, sig *types.Signature, args []string, e *ast.CallExpr) []Res {
	if c, ok := x.closures[fv]; ok {
		return x.inlineLit(st, c, args, e)
	}
	if f, ok := x.fnrefs[fv]; ok {
		return x.callFunc(st, f, args, e)
	}
	x.oblige(st, "nil", "", "(not (= "+fv+" 0))", e, "call of nil function")
	// a field of a struct type may have a contract of its own: func value:TYPE.FIELD(fn, params...)
	if sel, ok := unparen(e.Fun).(*ast.SelectorExpr); ok {
		if s := x.fr.info.Selections[sel]; s != nil && s.Kind() == types.FieldVal {
			rt := s.Recv()
			if p, ok := rt.Underlying().(*types.Pointer); ok {
				rt = p.Elem()
			}
			if n, ok := rt.(*types.Named); ok && n.Obj().Pkg() != nil {
				if con := x.Sp.Contracts[n.Obj().Pkg().Path()+".value:"+n.Obj().Name()+"."+s.Obj().Name()]; con != nil {
					recv := types.NewVar(0, n.Obj().Pkg(), "fn", s.Obj().Type())
					f := types.NewFunc(0, n.Obj().Pkg(), s.Obj().Name(), types.NewSignatureType(recv, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
					return x.callContract(st, f, con, append([]string{fv}, args...), e)
				}
			}
		}
	}
	// opaque function value: pure uninterpreted application; recorded as an assumption, checked for tables by `gv`
	src := types.ExprString(e.Fun)
	for i := 0; i < sig.Params().Len(); i++ {
		switch sig.Params().At(i).Type().Underlying().(type) {
		case *types.Basic, *types.Struct:
		default:
			x.unsupp(e, "call of a function value with parameters that are references, without a contract: %s", src)
		}
	}
	x.assumps["call of function value "+src+" in "+x.fr.fi.Key+" modelled as a pure total function"] = true
	var as []string
	var sorts []string
	for i, a := range args {
		as = append(as, a)
		sorts = append(sorts, x.so.sort(sig.Params().At(i).Type()))
	}
	var vs []string
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		n := q(fmt.Sprintf("apply%d!%s", i, tname(sig)))
		x.so.declFun(n, "(declare-fun "+n+" (Int "+strings.Join(sorts, " ")+") "+x.so.sort(rt)+")")
		v := x.nameAlways(st, "app", "("+n+" "+fv+" "+strings.Join(as, " ")+")", rt)
		x.wf(st, v, rt)
		vs = append(vs, v)
	}
	return []Res{{st, vs}}
}

// evalArgs evaluates arguments converted to parameter types, packing variadics.
func (x *Exec) evalArgs(st *State, e *ast.CallExpr, sig *types.Signature, f func(st *State, args []string) []Res) []Res {
	np := sig.Params().Len()
	// f(g()) with multiple results
	if len(e.Args) == 1 && np > 1 {
		if tup, ok := x.typeOf(e.Args[0]).(*types.Tuple); ok {
			var out []Res
			for _, r := range x.eval(st, e.Args[0]) {
				args := make([]string, len(r.v))
				for i := range r.v {
					args[i] = x.convert(r.v[i], tup.At(i).Type(), sig.Params().At(i).Type())
				}
				out = append(out, f(r.st, args)...)
			}
			return out
		}
	}
	var rec func(st *State, i int, acc []string) []Res
	rec = func(st *State, i int, acc []string) []Res {
		if sig.Variadic() && i == np-1 && !e.Ellipsis.IsValid() {
			et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
			if obj := calleeOf(x.fr.info, e); obj != nil {
				if ff, ok := obj.(*types.Func); ok && x.isExtern(ff) {
					// evaluate for effects and obligations only
					return x.evalRaw(st, e.Args[i:], func(st *State, vs []string) []Res {
						return f(st, append(append([]string{}, acc...), vs...))
					})
				}
			}
			if len(e.Args) == i {
				return f(st, append(append([]string{}, acc...), "nil-slice"))
			}
			return x.evalElts(st, e.Args[i:], et, func(st *State, vs []string) []Res {
				return f(st, append(append([]string{}, acc...), x.makeSlice(st, vs, et)))
			})
		}
		if i == len(e.Args) {
			return f(st, acc)
		}
		var out []Res
		for _, r := range x.evalTo(st, e.Args[i], sig.Params().At(i).Type()) {
			v := x.name(r.st, "arg", r.v[0], sig.Params().At(i).Type())
			out = append(out, rec(r.st, i+1, append(append([]string{}, acc...), v))...)
		}
		return out
	}
	return rec(st, 0, nil)
}

func (x *Exec) evalRaw(st *State, es []ast.Expr, f func(st *State, vs []string) []Res) []Res {
	return x.evalMany(st, es, f)
}

func (x *Exec) isExtern(f *types.Func) bool {
	_, ok := x.L.funcs[f]
	if ok {
		return false
	}
	if sig := f.Type().(*types.Signature); sig.Recv() != nil {
		if _, isI := sig.Recv().Type().Underlying().(*types.Interface); isI {
			return f.Pkg() == nil || !x.inProgram(f.Pkg())
		}
	}
	return true
}

func (x *Exec) inProgram(p *types.Package) bool {
	_, ok := x.L.pkgs[p.Path()]
	return ok
}

func (x *Exec) callFunc(st *State, f *types.Func, args []string, e *ast.CallExpr) []Res {
	key := funcKey(f)
	con := x.Sp.Contracts[key]
	if con != nil && !con.Inline {
		return x.callContract(st, f, con, args, e)
	}
	fi := x.L.funcs[f]
	if fi != nil && fi.Decl.Body != nil {
		for fr := x.fr; fr != nil; fr = fr.parent {
			if fr.fi == fi {
				x.unsupp(e, "recursive call of %s without a contract", key)
			}
		}
		if x.fr.depth >= maxInline {
			x.unsupp(e, "inlining too deep at %s", key)
		}
		return x.inlineFunc(st, fi, con, args, e)
	}
	return x.callExtern(st, f, key, args, e)
}

// ---------- inlining ----------

func loopOrdinals(body ast.Node) map[ast.Node]int {
	m := map[ast.Node]int{}
	n := 0
	ast.Inspect(body, func(y ast.Node) bool {
		switch y.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			n++
			m[y] = n
		}
		return true
	})
	return m
}

func (x *Exec) newFrame(fi *FuncInfo, con *Contract, ft *ast.FuncType, body *ast.BlockStmt, sig *types.Signature) *Frame {
	fr := &Frame{fi: fi, pkg: fi.Pkg, info: fi.Pkg.Info, con: con, body: body, ftype: ft, parent: x.fr, sig: sig}
	fr.loops = loopOrdinals(fi.Decl.Body)
	if x.fr != nil {
		fr.depth = x.fr.depth + 1
	}
	return fr
}

func (x *Exec) bindFields(st *State, info *types.Info, fl *ast.FieldList, args []string, objs *[]types.Object) []string {
	if fl == nil {
		return args
	}
	for _, f := range fl.List {
		if len(f.Names) == 0 {
			if len(args) > 0 {
				args = args[1:]
			}
			if objs != nil {
				*objs = append(*objs, nil)
			}
			continue
		}
		for _, n := range f.Names {
			o := info.Defs[n]
			if o != nil {
				st.vars[o] = args[0]
			}
			if objs != nil {
				*objs = append(*objs, o)
			}
			args = args[1:]
		}
	}
	return args
}

func (x *Exec) bindResults(st *State, fr *Frame) {
	if fr.ftype.Results == nil {
		return
	}
	for _, f := range fr.ftype.Results.List {
		for _, n := range f.Names {
			o := fr.info.Defs[n]
			if o != nil {
				st.vars[o] = x.zero(o.Type())
				fr.results = append(fr.results, o)
			} else {
				// blank result: keep a placeholder
				v := types.NewVar(n.Pos(), fr.pkg.Types, "_", fr.sig.Results().At(len(fr.results)).Type())
				st.vars[v] = x.zero(v.Type())
				fr.results = append(fr.results, v)
			}
		}
	}
}

func (x *Exec) inlineFunc(st *State, fi *FuncInfo, con *Contract, args []string, e *ast.CallExpr) []Res {
	sig := fi.Obj.Type().(*types.Signature)
	fr := x.newFrame(fi, con, fi.Decl.Type, fi.Decl.Body, sig)
	if e != nil {
		fr.callPos = e.Pos()
	}
	st = st.clone()
	rest := args
	if fi.Decl.Recv != nil {
		rest = x.bindFields(st, fr.info, fi.Decl.Recv, args[:1], nil)
		rest = args[1:]
	}
	x.bindFields(st, fr.info, fi.Decl.Type.Params, rest, nil)
	x.bindResults(st, fr)
	return x.runFrame(st, fr)
}

func (x *Exec) inlineLit(st *State, c *Closure, args []string, e *ast.CallExpr) []Res {
	if x.fr.depth >= maxInline {
		x.unsupp(e, "inlining too deep at function literal")
	}
	for fr := x.fr; fr != nil; fr = fr.parent {
		if fr.body == c.lit.Body {
			x.unsupp(e, "recursive function literal")
		}
	}
	sig := c.fr.info.TypeOf(c.lit).(*types.Signature)
	fr := &Frame{fi: c.fr.fi, pkg: c.fr.pkg, info: c.fr.info, con: c.fr.con, body: c.lit.Body, ftype: c.lit.Type, parent: x.fr, sig: sig, loops: c.fr.loops, depth: x.fr.depth + 1}
	if e != nil {
		fr.callPos = e.Pos()
	}
	st = st.clone()
	x.bindFields(st, fr.info, c.lit.Type.Params, args, nil)
	x.bindResults(st, fr)
	return x.runFrame(st, fr)
}

func (x *Exec) runFrame(st *State, fr *Frame) []Res {
	save := x.fr
	x.fr = fr
	outs := x.execBlock(st, fr.body.List)
	outs = x.runDefers(outs, fr)
	x.fr = save
	var res []Res
	for _, o := range outs {
		switch o.kind {
		case oReturn:
			res = append(res, Res{o.st, o.ret})
		case oNormal:
			var vs []string
			for _, r := range fr.results {
				vs = append(vs, o.st.vars[r])
			}
			res = append(res, Res{o.st, vs})
		}
	}
	return x.joinRes(res, fr.sig)
}

func (x *Exec) runDefers(outs []Out, fr *Frame) []Out {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		var nx []Out
		for _, o := range outs {
			for _, r := range x.evalCall(o.st, fr.defers[i]) {
				o2 := o
				o2.st = r.st
				nx = append(nx, o2)
			}
		}
		outs = nx
	}
	return outs
}

// joinRes merges result states with equal heaps.
func (x *Exec) joinRes(rs []Res, sig *types.Signature) []Res {
	if len(rs) <= 1 {
		return rs
	}
	var out []Res
	used := make([]bool, len(rs))
	for i := range rs {
		if used[i] {
			continue
		}
		idx := []int{i}
		used[i] = true
		for j := i + 1; j < len(rs); j++ {
			if !used[j] && sameHeap(rs[i].st, rs[j].st) {
				idx = append(idx, j)
				used[j] = true
			}
		}
		if len(idx) == 1 {
			out = append(out, rs[i])
			continue
		}
		out = append(out, x.mergeRes(rs, idx, sig))
	}
	if len(out) > 6 {
		idx := make([]int, len(out))
		for i := range idx {
			idx[i] = i
		}
		return []Res{x.mergeRes(out, idx, sig)}
	}
	return out
}

func (x *Exec) mergeRes(rs []Res, idx []int, sig *types.Signature) Res {
	// route results through pseudo variables so that merge handles them
	var objs []types.Object
	for k := 0; k < sig.Results().Len(); k++ {
		objs = append(objs, types.NewVar(token.NoPos, nil, fmt.Sprintf("res%d", k), sig.Results().At(k).Type()))
	}
	var sts []*State
	for _, i := range idx {
		s := rs[i].st.clone()
		for k, o := range objs {
			s.vars[o] = rs[i].v[k]
		}
		sts = append(sts, s)
	}
	m := x.merge(sts)
	var vs []string
	for _, o := range objs {
		vs = append(vs, m.vars[o])
		delete(m.vars, o)
	}
	return Res{m, vs}
}

// ---------- contracts at call sites ----------

// paramNames gives the contract names for receiver+params and results.
func (x *Exec) paramNames(f *types.Func, con *Contract) (ps []string, pts []types.Type, rs []string, rts []types.Type) {
	sig := f.Type().(*types.Signature)
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv().Name())
		pts = append(pts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i).Name())
		pts = append(pts, sig.Params().At(i).Type())
	}
	for i := 0; i < len(con.Params) && i < len(ps); i++ {
		ps[i] = con.Params[i]
	}
	for i := 0; i < sig.Results().Len(); i++ {
		n := sig.Results().At(i).Name()
		if i < len(con.Results) {
			n = con.Results[i]
		}
		if n == "" || n == "_" {
			n = fmt.Sprintf("r%d", i)
			if sig.Results().Len() == 1 {
				n = "r"
			}
		}
		rs = append(rs, n)
		rts = append(rts, sig.Results().At(i).Type())
	}
	return
}

func (x *Exec) callContract(st *State, f *types.Func, con *Contract, args []string, e *ast.CallExpr) []Res {
	x.deps[con.Key] = true
	if con.Trusted {
		x.assumps["assumed contract: "+con.Key] = true
	}
	ps, pts, rs, rts := x.paramNames(f, con)
	env := &Env{x: x, st: st, old: st, names: map[string]binding{}, pkg: x.pkgByPath(con.Pkg)}
	for i := range ps {
		if i < len(args) {
			env.names[ps[i]] = binding{args[i], pts[i]}
		}
	}
	var node ast.Node
	if e != nil {
		node = e
	}
	for i, c := range con.Requires {
		x.oblige(st, "pre", f.Name()+"."+x.clauseLabel(c, i), x.specBool(c.Expr, env), node, c.Src+" (precondition of "+con.Key+")")
	}
	// aborting path
	for _, c := range con.Aborts {
		ab := st.clone()
		ab.branch(x.specBool(c.Expr, env))
		x.abort(ab, node, "call of "+con.Key+" may abort: "+c.Src)
	}
	if con.AbortsAny {
		x.abort(st.clone(), node, "call of "+con.Key+" may abort")
	}
	pre := st.clone()
	post := st
	comps := x.calleeComps(f, con)
	ms := x.modSet(con.Modifies, env, pre, "modifies of "+con.Key)
	if con.ModAny {
		ms.any = true
	}
	if len(comps) > 0 {
		na := x.fresh("alloc", "Int")
		post.def("(>= " + na + " " + pre.alloc + ")")
		post.alloc = na
		for _, c := range sortedKeys(comps) {
			if _, ok := x.compSort[c]; !ok {
				x.registerComp(c)
			}
			old := x.h(pre, c)
			ent := ms.ent[c]
			whole := ms.any || ent != nil && ent.all
			if x.compKind[c] == "G" {
				if whole {
					x.checkWholeWrite(post, c, node, con)
					post.heap[c] = x.declHeap(c, na)
				}
				continue
			}
			// the caller must be allowed to make these writes
			if whole {
				x.checkWholeWrite(post, c, node, con)
			} else if ent != nil {
				for _, r := range ent.refs {
					x.checkWrite(post, c, r, node)
				}
			}
			nh := x.declHeap(c, na)
			post.heap[c] = nh
			if whole {
				continue
			}
			ex := []string{"(> r " + pre.alloc + ")"}
			if ent != nil {
				for _, r := range ent.refs {
					ex = append(ex, "(= r "+r+")")
				}
			}
			post.def(fmt.Sprintf("(forall ((r Int)) (! (or %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", strings.Join(ex, " "), nh, old, nh))
		}
	}
	if len(comps) > 0 {
		post.setAnchor()
	}
	var vs []string
	env2 := &Env{x: x, st: post, old: pre, names: map[string]binding{}, pkg: env.pkg}
	for k, v := range env.names {
		env2.names[k] = v
	}
	for i := range rs {
		v := x.freshT("r:"+f.Name(), rts[i])
		x.wf(post, v, rts[i])
		vs = append(vs, v)
		env2.names[rs[i]] = binding{v, rts[i]}
	}
	for _, c := range con.Ensures {
		t := x.specBool(c.Expr, env2)
		if t == "false" {
			return nil // the call does not return
		}
		post.assume(t)
	}
	return []Res{{post, vs}}
}

func (x *Exec) checkWholeWrite(st *State, c string, n ast.Node, con *Contract) {
	for _, m := range x.mods {
		if m.any {
			continue
		}
		if e := m.ent[c]; e != nil && e.all {
			continue
		}
		x.oblige(st, "frame", c, "false", n, "call of "+con.Key+" may write all of "+c+", outside the "+m.what)
	}
}

func (x *Exec) pkgByPath(p string) *Pkg { return x.L.pkgs[p] }

// calleeComps: components a contracted callee may write
func (x *Exec) calleeComps(f *types.Func, con *Contract) map[string]bool {
	if con.Pure {
		return nil
	}
	out := map[string]bool{}
	if fi := x.L.funcs[f]; fi != nil && fi.Decl.Body != nil {
		for c := range x.fp.of(f) {
			out[c] = true
		}
	} else {
		for c := range x.fp.contract(con) {
			out[c] = true
		}
	}
	delete(out, "alloc")
	return out
}

// abort: control leaves through panic / os.Exit.
func (x *Exec) abort(st *State, n ast.Node, what string) {
	if x.con != nil && x.con.AbortsAny {
		return
	}
	x.oblige(st, "abort", "", x.abortCond(), n, what)
}

// abortCond is the condition under which the contract allows a panic.
func (x *Exec) abortCond() string {
	goal := "false"
	if x.con != nil {
		var gs []string
		for _, c := range x.con.Aborts {
			gs = append(gs, x.specBool(c.Expr, x.entryEnv()))
		}
		goal = or(gs...)
	}
	return goal
}

// ---------- interface dispatch ----------

func (x *Exec) callIface(st *State, f *types.Func, recv string, rt types.Type, args []string, e *ast.CallExpr) []Res {
	u := rt.Underlying().(*types.Interface)
	if n, ok := rt.(*types.Named); ok && n.Obj().Pkg() != nil {
		key := n.Obj().Pkg().Path() + ".(" + n.Obj().Name() + ")." + f.Name()
		if con := x.Sp.Contracts[key]; con != nil && !con.Inline {
			x.oblige(st, "nil", "", "(not ((_ is I-nil) "+recv+"))", e, "method call on nil interface")
			return x.callContract(st, f, con, append([]string{recv}, args...), e)
		}
	}
	if con := x.Sp.Contracts["error.Error"]; con != nil && isErr(rt) {
		x.oblige(st, "nil", "", "(not ((_ is I-nil) "+recv+"))", e, "method call on nil interface")
		return x.callContract(st, f, con, append([]string{recv}, args...), e)
	}
	impls := x.implementers(u, rt)
	if len(impls) == 0 {
		return x.callExtern(st, f, funcKey(f), append([]string{recv}, args...), e)
	}
	x.oblige(st, "nil", "", "(not ((_ is I-nil) "+recv+"))", e, "method call on nil interface")
	x.assumps["closed world: "+tname(rt)+" is implemented only by the types of the loaded packages"] = true
	var res []Res
	for _, im := range impls {
		is, v := x.assertType(recv, im)
		s := st.clone()
		s.branch(is)
		v = x.nameAlways(s, "dyn", v, im)
		x.wf(s, v, im)
		o, idx, _ := types.LookupFieldOrMethod(im, true, f.Pkg(), f.Name())
		m, ok := o.(*types.Func)
		if !ok {
			continue
		}
		r, t := x.walkPath(s, v, im, idx[:len(idx)-1], e)
		_, wantP := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
		_, haveP := t.Underlying().(*types.Pointer)
		if haveP && !wantP {
			r = x.loadPtr(s, r, t, e)
		}
		if m.Type().(*types.Signature).Recv() != nil {
			if it, isI := t.Underlying().(*types.Interface); isI && it != nil {
				res = append(res, x.callIface(s, m, r, t, args, e)...)
				continue
			}
		}
		res = append(res, x.callFunc(s, m, append([]string{r}, args...), e)...)
	}
	return x.joinRes(res, f.Type().(*types.Signature))
}

// ---------- conversions and builtins ----------

func (x *Exec) evalConversion(st *State, e *ast.CallExpr, to types.Type) []Res {
	from := x.typeOf(e.Args[0])
	return each(x.eval(st, e.Args[0]), func(st *State, v string) []Res {
		if isNilT(from) {
			return one(st, x.zero(to))
		}
		if _, ok := to.Underlying().(*types.Interface); ok {
			return one(st, x.convert(v, from, to))
		}
		ts, fs := isString(to), isString(from)
		switch {
		case ts && fs:
			return one(st, v)
		case ts && isInt(from):
			x.so.declFun("str_of_rune", "(declare-fun str_of_rune (Int) Str)")
			return one(st, "(str_of_rune "+v+")")
		case ts:
			if sl, ok := from.Underlying().(*types.Slice); ok {
				row := "(select " + x.h(st, x.compE(sl.Elem())) + " (s-arr " + v + "))"
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return one(st, x.nameAlways(st, "str", "(str_of_bytes "+row+" (s-off "+v+") (s-len "+v+"))", to))
				}
				return one(st, x.nameAlways(st, "str", "(str_of_runes "+row+" (s-off "+v+") (s-len "+v+"))", to))
			}
		case fs:
			if sl, ok := to.Underlying().(*types.Slice); ok {
				r := x.newRef(st)
				fn, ln := "rat", "rlen"
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					fn, ln = "bat", "blen"
				}
				row := x.fresh("row", "(Array Int Int)")
				at := x.so.atFn("Int")
				s := x.newSlice(st, r, "0", "("+ln+" "+v+")", "("+ln+" "+v+")")
				st.def(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (%s %s))) (= (%s %s (s-off %s) i) (%s %s i))) :pattern ((%s %s (s-off %s) i)) :pattern ((%s %s i))))", ln, v, at, row, s, fn, v, at, row, s, fn, v))
				if fn == "rat" {
					st.def("(= (str_of_runes " + row + " (s-off " + s + ") (s-len " + s + ")) " + v + ")")
				}
				x.storeRef(st, x.compE(sl.Elem()), r, row, nil, true)
				return one(st, s)
			}
		case isInt(to) && isInt(from):
			tb, fb := to.Underlying().(*types.Basic), from.Underlying().(*types.Basic)
			if intBits(tb) < intBits(fb) || (tb.Info()&types.IsUnsigned) != (fb.Info()&types.IsUnsigned) {
				x.assumps["machine integers treated as mathematical (conversions do not truncate)"] = true
			}
			return one(st, v)
		}
		if x.so.sort(from) == x.so.sort(to) {
			return one(st, v)
		}
		x.unsupp(e, "conversion %s to %s", from, to)
		return nil
	})
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (x *Exec) evalBuiltin(st *State, e *ast.CallExpr, name string) []Res {
	switch name {
	case "len", "cap":
		t := x.typeOf(e.Args[0])
		return each(x.eval(st, e.Args[0]), func(st *State, v string) []Res {
			return one(st, x.lenOf(st, v, t, name))
		})
	case "panic":
		for _, r := range x.eval(st, e.Args[0]) {
			x.abort(r.st, e, "panic reachable")
		}
		return nil
	case "print", "println":
		return x.evalMany(st, e.Args, func(st *State, vs []string) []Res { return []Res{{st, nil}} })
	case "new":
		t := x.typeOf(e.Args[0])
		return one(st, x.allocValue(st, x.zero(t), t))
	case "make":
		t := x.typeOf(e.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Map:
			return one(st, x.newMap(st, u))
		case *types.Slice:
			return x.evalMany(st, e.Args[1:], func(st *State, vs []string) []Res {
				cp := vs[0]
				if len(vs) > 1 {
					cp = vs[1]
				}
				x.oblige(st, "make", "", "(and (<= 0 "+vs[0]+") (<= "+vs[0]+" "+cp+"))", e, "make: length out of range")
				r := x.newRef(st)
				row := x.fresh("row", "(Array Int "+x.so.sort(u.Elem())+")")
				st.def("(= " + row + " ((as const (Array Int " + x.so.sort(u.Elem()) + ")) " + x.zero(u.Elem()) + "))")
				x.storeRef(st, x.compE(u.Elem()), r, row, nil, true)
				return one(st, x.newSlice(st, r, "0", vs[0], cp))
			})
		}
	case "delete":
		u := x.typeOf(e.Args[0]).Underlying().(*types.Map)
		return x.evalMany(st, e.Args, func(st *State, vs []string) []Res {
			md := x.compMD(u)
			k := x.convert(vs[1], x.typeOf(e.Args[1]), u.Key())
			// deleting from a nil map is a no-op: the store keeps its empty domain
			x.storeRef(st, md, vs[0], "(store (select "+x.h(st, md)+" "+vs[0]+") "+k+" false)", e, false)
			return []Res{{st, nil}}
		})
	case "append":
		return x.evalAppend(st, e)
	case "copy":
		dt := x.typeOf(e.Args[0]).Underlying().(*types.Slice)
		stt := x.typeOf(e.Args[1])
		return x.evalMany(st, e.Args, func(st *State, vs []string) []Res {
			d, s := vs[0], vs[1]
			if isString(stt) {
				x.unsupp(e, "copy from string")
			}
			es := x.so.sort(dt.Elem())
			at := x.so.atFn(es)
			ce := x.compE(dt.Elem())
			n := x.fresh("n", "Int")
			st.def("(= " + n + " (ite (< (s-len " + d + ") (s-len " + s + ")) (s-len " + d + ") (s-len " + s + ")))")
			old := x.fresh("row", "(Array Int "+es+")")
			src := x.fresh("row", "(Array Int "+es+")")
			nr := x.fresh("row", "(Array Int "+es+")")
			st.def("(= " + old + " (select " + x.h(st, ce) + " (s-arr " + d + ")))")
			st.def("(= " + src + " (select " + x.h(st, ce) + " (s-arr " + s + ")))")
			st.def(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (%s %s (s-off %s) i) (%s %s (s-off %s) i))) :pattern ((%s %s (s-off %s) i)) :pattern ((%s %s (s-off %s) i))))", n, at, nr, d, at, src, s, at, nr, d, at, src, s))
			st.def(fmt.Sprintf("(forall ((j Int)) (! (=> (or (< j (s-off %s)) (>= j (+ (s-off %s) %s))) (= (select %s j) (select %s j))) :pattern ((select %s j))))", d, d, n, nr, old, nr))
			x.storeRef(st, ce, "(s-arr "+d+")", nr, e, false)
			return one(st, n)
		})
	case "min", "max":
		return x.evalMany(st, e.Args, func(st *State, vs []string) []Res {
			op := "<"
			if name == "max" {
				op = ">"
			}
			t := vs[0]
			for _, v := range vs[1:] {
				t = "(ite (" + op + " " + v + " " + t + ") " + v + " " + t + ")"
			}
			return one(st, t)
		})
	case "clear":
		if u, ok := x.typeOf(e.Args[0]).Underlying().(*types.Map); ok {
			return each(x.eval(st, e.Args[0]), func(st *State, v string) []Res {
				x.storeRef(st, x.compMD(u), v, "((as const (Array "+x.so.sort(u.Key())+" Bool)) false)", e, false)
				return []Res{{st, nil}}
			})
		}
	}
	x.unsupp(e, "builtin %s", name)
	return nil
}

func (x *Exec) lenOf(st *State, v string, t types.Type, name string) string {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if name == "cap" {
			return "(s-cap " + v + ")"
		}
		return "(s-len " + v + ")"
	case *types.Array:
		return fmt.Sprint(u.Len())
	case *types.Pointer:
		return fmt.Sprint(u.Elem().Underlying().(*types.Array).Len())
	case *types.Map:
		cf := x.so.cardFn(x.so.sort(u.Key()))
		return "(" + cf + " (select " + x.h(st, x.compMD(u)) + " " + v + "))"
	case *types.Basic:
		return "(blen " + v + ")"
	}
	panic(unsupported{"len of " + t.String()})
}

// evalAppend models append faithfully: in place when the capacity suffices, else in a fresh array.
func (x *Exec) evalAppend(st *State, e *ast.CallExpr) []Res {
	t := x.typeOf(e)
	sl := t.Underlying().(*types.Slice)
	elem := sl.Elem()
	es := x.so.sort(elem)
	at := x.so.atFn(es)
	ce := x.compE(elem)
	app := func(st *State, s string, n string, fill func(nr, ns string), writeSrc ast.Node) string {
		old := x.fresh("row", "(Array Int "+es+")")
		st.def("(= " + old + " (select " + x.h(st, ce) + " (s-arr " + s + ")))")
		nr := x.fresh("row", "(Array Int "+es+")")
		ns := x.fresh("sl", "Slice")
		nref := x.fresh("new", "Int")
		st.def("(= " + nref + " (+ " + st.alloc + " 1))")
		st.alloc = nref
		grow := x.fresh("grow", "Bool")
		st.def("(= " + grow + " (< (s-cap " + s + ") (+ (s-len " + s + ") " + n + ")))")
		st.def("(and (= (s-arr " + ns + ") (ite " + grow + " " + nref + " (s-arr " + s + "))) (= (s-len " + ns + ") (+ (s-len " + s + ") " + n + ")) (=> (not " + grow + ") (and (= (s-off " + ns + ") (s-off " + s + ")) (= (s-cap " + ns + ") (s-cap " + s + ")))) (=> " + grow + " (= (s-off " + ns + ") 0)))")
		st.def(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (s-len %s))) (= (%s %s (s-off %s) i) (%s %s (s-off %s) i))) :pattern ((%s %s (s-off %s) i)) :pattern ((%s %s (s-off %s) i))))", s, at, nr, ns, at, old, s, at, nr, ns, at, old, s))
		st.def(fmt.Sprintf("(=> (not %s) (forall ((j Int)) (! (=> (or (< j (+ (s-off %s) (s-len %s))) (>= j (+ (s-off %s) (s-len %s)))) (= (select %s j) (select %s j))) :pattern ((select %s j)))))", grow, s, s, ns, ns, nr, old, nr))
		fill(nr, ns)
		// frame: an in-place append writes the array of s
		if len(x.mods) > 0 {
			chk := st.clone()
			chk.assume(not(grow))
			x.checkWrite(chk, ce, "(s-arr "+s+")", e)
		}
		x.storeRef(st, ce, "(s-arr "+ns+")", nr, nil, true)
		return ns
	}
	if e.Ellipsis.IsValid() {
		at2 := x.typeOf(e.Args[1])
		return x.evalMany(st, e.Args, func(st *State, vs []string) []Res {
			s, b := vs[0], vs[1]
			if isNilT(x.typeOf(e.Args[0])) {
				s = "nil-slice"
			}
			if isString(at2) {
				ns := app(st, s, "(blen "+b+")", func(nr, ns string) {
					st.def(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (blen %s))) (= (%s %s (s-off %s) (+ (s-len %s) i)) (bat %s i))) :pattern ((bat %s i))))", b, at, nr, ns, s, b, b))
				}, e)
				return one(st, ns)
			}
			src := x.fresh("row", "(Array Int "+es+")")
			st.def("(= " + src + " (select " + x.h(st, ce) + " (s-arr " + b + ")))")
			// appending nothing leaves the slice as it is
			ns := app(st, s, "(s-len "+b+")", func(nr, ns string) {
				st.def(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= (s-len %s) i) (< i (s-len %s))) (= (%s %s (s-off %s) i) (%s %s (s-off %s) (- i (s-len %s))))) :pattern ((%s %s (s-off %s) i))))", s, ns, at, nr, ns, at, src, b, s, at, nr, ns))
				if bt, ok := elem.Underlying().(*types.Basic); ok && bt.Kind() == types.Int32 {
					// the strings of these runes
					str := func(row, o string) string {
						return "(str_of_runes " + row + " (s-off " + o + ") (s-len " + o + "))"
					}
					st.def("(= " + str(nr, ns) + " (str_cat " + str("(select "+x.h(st, ce)+" (s-arr "+s+"))", s) + " " + str(src, b) + "))")
				}
				st.def(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (s-len %s))) (= (%s %s (s-off %s) (+ i (s-len %s))) (%s %s (s-off %s) i))) :pattern ((%s %s (s-off %s) i))))", b, at, nr, ns, s, at, src, b, at, src, b))
			}, e)
			return one(st, ns)
		})
	}
	return each(x.eval(st, e.Args[0]), func(st *State, s string) []Res {
		if isNilT(x.typeOf(e.Args[0])) {
			s = "nil-slice"
		}
		return x.evalElts(st, e.Args[1:], elem, func(st *State, vs []string) []Res {
			if len(vs) == 0 {
				return one(st, s)
			}
			ns := app(st, s, fmt.Sprint(len(vs)), func(nr, ns string) {
				for i, v := range vs {
					st.def(fmt.Sprintf("(= (%s %s (s-off %s) (+ (s-len %s) %d)) %s)", at, nr, ns, s, i, v))
				}
			}, e)
			return one(st, ns)
		})
	})
}

// ---------- external functions ----------

func basicOnly(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0
}

func (x *Exec) callExtern(st *State, f *types.Func, key string, args []string, e *ast.CallExpr) []Res {
	sig := f.Type().(*types.Signature)
	switch key {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf":
		x.abort(st, e, key+" reachable")
		return nil
	case "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable":
		return x.callSort(st, key, args, e)
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return x.callSprintf(st, key, args, e)
	}
	if rs, ok := x.callBuf(st, f, key, args, e); ok {
		return rs
	}
	x.assumps["external function without effect on program state: "+key] = true
	// pure function over basic values?
	pure := sig.Recv() == nil && !sig.Variadic()
	for i := 0; i < sig.Params().Len(); i++ {
		if !basicOnly(sig.Params().At(i).Type()) {
			pure = false
		}
	}
	var vs []string
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if pure && (basicOnly(rt) || isErr(rt)) {
			n := q(fmt.Sprintf("ext!%s!%d", key, i))
			var ss []string
			for j := 0; j < sig.Params().Len(); j++ {
				ss = append(ss, x.so.sort(sig.Params().At(j).Type()))
			}
			x.so.declFun(n, "(declare-fun "+n+" ("+strings.Join(ss, " ")+") "+x.so.sort(rt)+")")
			if len(args) == 0 {
				vs = append(vs, n)
			} else {
				vs = append(vs, x.nameAlways(st, "ext", "("+n+" "+strings.Join(args, " ")+")", rt))
			}
		} else {
			v := x.freshT("ext:"+f.Name(), rt)
			x.wf(st, v, rt)
			if _, isP := rt.Underlying().(*types.Pointer); isP {
				st.assume("(not (= " + v + " 0))")
			}
			vs = append(vs, v)
		}
		x.wf(st, vs[len(vs)-1], rt)
	}
	return []Res{{st, vs}}
}

func isErr(t types.Type) bool { return tname(t) == "error" }

// ---- formatting and byte buffers ----

const bufComp = "F!bytes.Buffer!$s"

func isBuf(t types.Type) bool {
	t = deref(t)
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (tname(n) == "bytes.Buffer" || tname(n) == "strings.Builder")
}

// compBuf: the text held by a buffer
func (x *Exec) compBuf() string {
	return x.comp(bufComp, "F", "(Array Int Str)", types.Typ[types.String])
}

func (x *Exec) bufAdd(st *State, b, text string, n ast.Node) {
	c := x.compBuf()
	x.storeRef(st, c, b, x.nameAlways(st, "buf", "(str_cat (select "+x.h(st, c)+" "+b+") "+text+")", types.Typ[types.String]), n, false)
}

// callBuf models bytes.Buffer and strings.Builder, and fmt.Fprint* on them.
func (x *Exec) callBuf(st *State, f *types.Func, key string, args []string, e *ast.CallExpr) ([]Res, bool) {
	pref := strings.HasPrefix(key, "bytes.(*Buffer).") || strings.HasPrefix(key, "strings.(*Builder).")
	if pref {
		switch f.Name() {
		case "String":
			return one(st, x.nameAlways(st, "str", "(select "+x.h(st, x.compBuf())+" "+args[0]+")", types.Typ[types.String])), true
		case "WriteString":
			x.bufAdd(st, args[0], args[1], e)
			return []Res{{st, []string{"(blen " + args[1] + ")", "I-nil"}}}, true
		case "WriteRune":
			x.so.declFun("str_of_rune", "(declare-fun str_of_rune (Int) Str)")
			x.bufAdd(st, args[0], "(str_of_rune "+args[1]+")", e)
			return []Res{{st, []string{x.freshT("n", types.Typ[types.Int]), "I-nil"}}}, true
		}
		x.unsupp(e, "method %s of a buffer", f.Name())
	}
	if strings.HasPrefix(key, "fmt.Fprint") {
		if len(e.Args) == 0 || !isBuf(x.typeOf(e.Args[0])) {
			return nil, false
		}
		// args[0] is the writer as an interface: take the buffer itself
		return each(x.eval(st, e.Args[0]), func(st *State, b string) []Res {
			return x.format(st, "fmt.S"+key[len("fmt.F"):], e, 1, args[1:], func(st *State, text string) []Res {
				x.bufAdd(st, b, text, e)
				return []Res{{st, []string{x.freshT("n", types.Typ[types.Int]), "I-nil"}}}
			})
		}), true
	}
	return nil, false
}

// verbs of a format: one letter per argument; false when the format is out of reach.
func verbs(f string) ([]byte, bool) {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == '*' || f[i] == '[' {
			return nil, false
		}
		out = append(out, f[i])
	}
	return out, true
}

// stringer: the String method of a value of type t, as package fmt finds it.
func (x *Exec) stringer(t types.Type) *types.Func {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m, ok := ms.At(i).Obj().(*types.Func)
		if !ok || (m.Name() != "String" && m.Name() != "Error") {
			continue
		}
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) && len(ms.At(i).Index()) == 1 {
			return m
		}
	}
	return nil
}

// format is fmt.Sprintf/Sprint/Sprintln of the call's arguments from skip on: a deterministic
// function of the format and the arguments, where an argument with a String method is the text
// that method returns.
func (x *Exec) format(st *State, key string, e *ast.CallExpr, skip int, args []string, k func(st *State, text string) []Res) []Res {
	x.assumps[key+" is a deterministic function of its arguments (basic types, or the text of their String methods)"] = true
	exprs := e.Args[skip:]
	name, format := key, ""
	var vb []byte
	ok := !e.Ellipsis.IsValid()
	if key == "fmt.Sprintf" {
		if tv, isC := x.fr.info.Types[exprs[0]]; isC && tv.Value != nil {
			name += "!" + fmt.Sprintf("%x", tv.Value.ExactString())
			f := constant.StringVal(tv.Value)
			format = f
			v, good := verbs(f)
			vb = v
			if len(exprs) == 1 && good && len(v) == 0 && !strings.Contains(f, "%") {
				return k(st, x.so.strlit(f))
			}
			ok = ok && good && len(v) == len(exprs)-1
			if f == "%s" {
				name = ""
			}
		} else {
			ok = false
		}
		exprs, args = exprs[1:], args[1:]
	} else if key == "fmt.Sprint" && len(exprs) == 1 {
		name = ""
	}
	if !ok {
		return k(st, x.fresh("sprintf", "Str"))
	}
	var sorts, as []string
	nm := name
	var rec func(st *State, i int, nm string, sorts, as []string) []Res
	rec = func(st *State, i int, nm string, sorts, as []string) []Res {
		if i == len(exprs) {
			if name == "" && len(as) == 1 && sorts[0] == "Str" {
				return k(st, as[0])
			}
			if name == "" {
				nm = key + "!"
			}
			n := q(nm + "!" + strings.Join(sorts, "!"))
			x.so.declSprintf(n, format, sorts)
			if len(as) == 0 {
				return k(st, n)
			}
			return k(st, x.nameAlways(st, "str", "("+n+" "+strings.Join(as, " ")+")", types.Typ[types.String]))
		}
		t := x.typeOf(exprs[i])
		if b, isB := t.(*types.Basic); isB {
			t = types.Default(b)
		}
		text := vb == nil || vb[i] == 's' || vb[i] == 'v' || vb[i] == 'q'
		if text {
			if m := x.stringer(t); m != nil {
				push := func(r Res) []Res {
					return rec(r.st, i+1, nm, append(append([]string{}, sorts...), "Str"), append(append([]string{}, as...), r.v[0]))
				}
				_, isI := t.Underlying().(*types.Interface)
				if isI || x.L.funcs[m] != nil {
					var rs []Res
					if isI {
						rs = x.callIface(st, m, args[i], t, nil, e)
					} else {
						recv := args[i]
						_, haveP := t.Underlying().(*types.Pointer)
						_, wantP := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
						if haveP && !wantP {
							recv = x.loadPtr(st, recv, t, e)
						}
						rs = x.callFunc(st, m, []string{recv}, e)
					}
					var out []Res
					for _, r := range rs {
						out = append(out, push(r)...)
					}
					return out
				}
			}
		}
		if !basicOnly(t) {
			return k(st, x.fresh("sprintf", "Str"))
		}
		return rec(st, i+1, nm, append(append([]string{}, sorts...), x.so.sort(t)), append(append([]string{}, as...), args[i]))
	}
	return rec(st, 0, nm, sorts, as)
}

func (x *Exec) callSprintf(st *State, key string, args []string, e *ast.CallExpr) []Res {
	return x.format(st, key, e, 0, args, func(st *State, text string) []Res { return one(st, text) })
}

// callSort: the slice becomes a permutation of itself; sort.Strings and sort.Ints also order it.
func (x *Exec) callSort(st *State, key string, args []string, e *ast.CallExpr) []Res {
	x.assumps[key+" permutes its argument (assumed)"] = true
	if key == "sort.Sort" || key == "sort.Stable" {
		if _, ok := x.typeOf(e.Args[0]).Underlying().(*types.Slice); !ok {
			x.unsupp(e, "%s", key)
		}
		x.assumps[key+" calls Swap(i, j), which exchanges the elements i and j (assumed)"] = true
	}
	var elem types.Type
	s := args[0]
	switch key {
	case "sort.Strings":
		elem = types.Typ[types.String]
	case "sort.Ints":
		elem = types.Typ[types.Int]
	default:
		t := x.typeOf(e.Args[0])
		elem = t.Underlying().(*types.Slice).Elem()
		_, u := x.so.ctor(t)
		_ = u
		// args[0] was converted to interface{}
		c, _ := x.so.ctor(t)
		if strings.HasPrefix(s, "("+c+" ") {
			s = s[len(c)+2 : len(s)-1]
		} else {
			s = "(" + u + " " + s + ")"
		}
		s = x.nameAlways(st, "srt", s, t)
	}
	es := x.so.sort(elem)
	at := x.so.atFn(es)
	ce := x.compE(elem)
	old := x.fresh("row", "(Array Int "+es+")")
	nr := x.fresh("row", "(Array Int "+es+")")
	st.def("(= " + old + " (select " + x.h(st, ce) + " (s-arr " + s + ")))")
	x.cnt++
	pf, pi := fmt.Sprintf("perm!%d", x.cnt), fmt.Sprintf("permi!%d", x.cnt)
	x.so.declFun(pf, "(declare-fun "+pf+" (Int) Int)")
	x.so.declFun(pi, "(declare-fun "+pi+" (Int) Int)")
	n := "(s-len " + s + ")"
	// a bijection on the integers, the identity outside the slice
	st.def(fmt.Sprintf("(forall ((i Int)) (! (and (= (%s (%s i)) i) (= (and (<= 0 i) (< i %s)) (and (<= 0 (%s i)) (< (%s i) %s)))) :pattern ((%s i))))", pi, pf, n, pf, pf, n, pf))
	st.def(fmt.Sprintf("(forall ((i Int)) (! (and (= (%s (%s i)) i) (= (and (<= 0 i) (< i %s)) (and (<= 0 (%s i)) (< (%s i) %s)))) :pattern ((%s i))))", pf, pi, n, pi, pi, n, pi))
	st.def(fmt.Sprintf("(forall ((i Int)) (! (= (%s %s (s-off %s) i) (%s %s (s-off %s) (%s i))) :pattern ((%s %s (s-off %s) i))))", at, nr, s, at, old, s, pf, at, nr, s))
	st.def(fmt.Sprintf("(forall ((i Int)) (! (= (%s %s (s-off %s) i) (%s %s (s-off %s) (%s i))) :pattern ((%s %s (s-off %s) i))))", at, old, s, at, nr, s, pi, at, old, s))
	st.def(fmt.Sprintf("(forall ((i Int)) (! (=> (or (< i 0) (>= i %s)) (= (%s i) i)) :pattern ((%s i))))", n, pf, pf))
	if len(x.mods) > 0 {
		chk := st.clone()
		chk.assume("(> " + n + " 1)")
		x.checkWrite(chk, ce, "(s-arr "+s+")", e)
	}
	x.storeRef(st, ce, "(s-arr "+s+")", nr, e, true)
	switch key {
	case "sort.Strings":
		st.assume(fmt.Sprintf("(forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j %s)) (not (str_lt (%s %s (s-off %s) j) (%s %s (s-off %s) i)))) :pattern ((%s %s (s-off %s) i) (%s %s (s-off %s) j))))", n, at, nr, s, at, nr, s, at, nr, s, at, nr, s))
	case "sort.Ints":
		st.assume(fmt.Sprintf("(forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j %s)) (<= (%s %s (s-off %s) i) (%s %s (s-off %s) j))) :pattern ((%s %s (s-off %s) i) (%s %s (s-off %s) j))))", n, at, nr, s, at, nr, s, at, nr, s, at, nr, s))
	case "sort.Slice", "sort.SliceStable":
		if c, ok := x.closures[args[1]]; ok {
			if g := x.lessSpec(st, c, s, at, nr); g != "" {
				st.assume(g)
			}
		}
	}
	return []Res{{st, nil}}
}

// lessSpec turns "func(i, j int) bool { return EXPR }" into sortedness: i<j ==> !less(j,i).
func (x *Exec) lessSpec(st *State, c *Closure, s, at, nr string) string {
	if len(c.lit.Body.List) != 1 {
		return ""
	}
	ret, ok := c.lit.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(ret.Results) != 1 {
		return ""
	}
	x.assumps["sort.Slice sorts by a strict weak order (the comparator is assumed to be one)"] = true
	q := st.clone()
	i, j := x.fresh("i", "Int"), x.fresh("j", "Int")
	n := len(x.obls)
	kc := map[string]int{}
	for k, v := range x.kindCount {
		kc[k] = v
	}
	mark := q.pc
	rs := x.inlineLit(q, c, []string{j, i}, nil)
	x.obls = x.obls[:n]
	x.kindCount = kc
	if len(rs) != 1 {
		return ""
	}
	// inline the definitions
	body := rs[0].v[0]
	defs := map[string]string{}
	for p := rs[0].st.pc; p != mark; p = p.parent {
		if p.kind == 2 && strings.HasPrefix(p.text, "(= |") || p.kind == 0 && strings.HasPrefix(p.text, "(= |r:") {
			rest := p.text[3:]
			if k := strings.Index(rest[1:], "|"); k >= 0 {
				defs[rest[:k+2]] = rest[k+3 : len(rest)-1]
			}
		} else if p.kind == 2 {
			return ""
		}
	}
	for k := 0; k < 10; k++ {
		for nm, d := range defs {
			body = strings.ReplaceAll(body, nm, d)
		}
	}
	body = strings.ReplaceAll(strings.ReplaceAll(body, i, "i"), j, "j")
	if os.Getenv("GV_DEBUG") != "" {
		for p := rs[0].st.pc; p != mark; p = p.parent {
			fmt.Println("less", p.kind, p.text)
		}
		fmt.Println("body", body)
	}
	return fmt.Sprintf("(forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j (s-len %s))) (not %s)) :pattern ((%s %s (s-off %s) i) (%s %s (s-off %s) j))))", s, body, at, nr, s, at, nr, s)
}

var _ = sort.Strings
