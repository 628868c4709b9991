package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

type Res struct {
	st *State
	v  []string
}

func one(st *State, v string) []Res { return []Res{{st, []string{v}}} }

func (r Res) x() string { return r.v[0] }

func (x *Exec) typeOf(e ast.Expr) types.Type {
	if t := x.fr.info.TypeOf(e); t != nil {
		return t
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := x.obj(id); o != nil {
			return o.Type()
		}
	}
	panic(unsupported{"no type for expression"})
}

func (x *Exec) obj(id *ast.Ident) types.Object {
	if o := x.fr.info.Uses[id]; o != nil {
		return o
	}
	return x.fr.info.Defs[id]
}

func (x *Exec) constTerm(v constant.Value, t types.Type) (string, bool) {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return "true", true
		}
		return "false", true
	case constant.String:
		return x.so.strlit(constant.StringVal(v)), true
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return "", false
		}
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(- " + s[1:] + ")", true
		}
		return s, true
	}
	return "", false
}

// each maps f over results.
func each(rs []Res, f func(st *State, v string) []Res) []Res {
	var out []Res
	for _, r := range rs {
		out = append(out, f(r.st, r.v[0])...)
	}
	return out
}

func (x *Exec) evalMany(st *State, es []ast.Expr, f func(st *State, vs []string) []Res) []Res {
	var rec func(st *State, i int, acc []string) []Res
	rec = func(st *State, i int, acc []string) []Res {
		if i == len(es) {
			return f(st, append([]string{}, acc...))
		}
		var out []Res
		for _, r := range x.eval(st, es[i]) {
			out = append(out, rec(r.st, i+1, append(append([]string{}, acc...), r.v[0]))...)
		}
		return out
	}
	return rec(st, 0, nil)
}

// convert wraps a value of static type from into interface type to when needed.
func (x *Exec) convert(v string, from, to types.Type) string {
	if to == nil || from == nil {
		return v
	}
	_, toI := to.Underlying().(*types.Interface)
	if toI {
		if _, fromI := from.Underlying().(*types.Interface); fromI {
			return v
		}
		if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return "I-nil"
		}
		if b, ok := from.(*types.Basic); ok {
			from = types.Default(b)
		}
		c, _ := x.so.ctor(from)
		return "(" + c + " " + v + ")"
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return x.zero(to)
	}
	return v
}

func (x *Exec) evalTo(st *State, e ast.Expr, to types.Type) []Res {
	rs := x.eval(st, e)
	from := x.typeOf(e)
	if to == nil {
		return rs
	}
	for i := range rs {
		if len(rs[i].v) == 1 {
			rs[i].v = []string{x.convert(rs[i].v[0], from, to)}
		}
	}
	return rs
}

func (x *Exec) eval(st *State, e ast.Expr) []Res {
	if tv, ok := x.fr.info.Types[e]; ok && tv.Value != nil {
		if t, ok := x.constTerm(tv.Value, tv.Type); ok {
			return one(st, t)
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.eval(st, e.X)
	case *ast.Ident:
		return x.evalIdent(st, e)
	case *ast.BasicLit:
		x.unsupp(e, "literal %s", e.Value)
	case *ast.SelectorExpr:
		return x.evalSelector(st, e)
	case *ast.IndexExpr:
		return x.evalIndex(st, e)
	case *ast.SliceExpr:
		return x.evalSliceExpr(st, e)
	case *ast.StarExpr:
		return each(x.eval(st, e.X), func(st *State, v string) []Res {
			return one(st, x.loadPtr(st, v, x.typeOf(e.X), e))
		})
	case *ast.UnaryExpr:
		return x.evalUnary(st, e)
	case *ast.BinaryExpr:
		return x.evalBinary(st, e)
	case *ast.CallExpr:
		return x.evalCall(st, e)
	case *ast.CompositeLit:
		return x.evalComposite(st, e, x.typeOf(e))
	case *ast.FuncLit:
		c := fmt.Sprintf("fnlit!%d", e.Pos())
		if _, ok := x.closures[c]; !ok {
			x.closures[c] = &Closure{e, x.fr}
			if _, ok := x.decl[c]; !ok {
				x.decl[c] = "Int"
				x.dax = append(x.dax, natAxiom{[]string{c}, "(assert (> " + c + " 0))"})
			}
		}
		return one(st, c)
	case *ast.TypeAssertExpr:
		return each(x.eval(st, e.X), func(st *State, v string) []Res {
			t := x.typeOf(e)
			if tup, ok := t.(*types.Tuple); ok {
				t = tup.At(0).Type()
			}
			is, val := x.assertType(v, t)
			if _, isTuple := x.typeOf(e).(*types.Tuple); isTuple {
				return []Res{{st, []string{"(ite " + is + " " + val + " " + x.zero(t) + ")", is}}}
			}
			x.oblige(st, "typeassert", "", is, e, "type assertion may fail")
			return one(st, x.name(st, "ta", val, t))
		})
	case *ast.KeyValueExpr:
		return x.eval(st, e.Value)
	}
	x.unsupp(e, "expression %T", e)
	return nil
}

// assertType: test and value of interface value v as type t
func (x *Exec) assertType(v string, t types.Type) (string, string) {
	if u, ok := t.Underlying().(*types.Interface); ok {
		if u.NumMethods() == 0 {
			return "(not ((_ is I-nil) " + v + "))", v
		}
		var cs []string
		for _, im := range x.implementers(u, t) {
			c, _ := x.so.ctor(im)
			cs = append(cs, "((_ is "+c+") "+v+")")
		}
		if len(cs) == 0 {
			n := q("implements:" + tname(t))
			x.so.declFun(n, "(declare-fun "+n+" (Iface) Bool)")
			return "(" + n + " " + v + ")", v
		}
		return or(cs...), v
	}
	c, u := x.so.ctor(t)
	return "((_ is " + c + ") " + v + ")", "(" + u + " " + v + ")"
}

func (x *Exec) evalIdent(st *State, e *ast.Ident) []Res {
	switch o := x.obj(e).(type) {
	case *types.Nil:
		t := x.typeOf(e)
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return one(st, "0")
		}
		return one(st, x.zero(t))
	case *types.Var:
		if v, ok := st.vars[o]; ok {
			return one(st, v)
		}
		if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			v := x.h(st, x.compG(o))
			x.wf(st, v, o.Type())
			return one(st, v)
		}
		x.unsupp(e, "unknown variable %s", e.Name)
	case *types.Func:
		return one(st, x.fnref(o))
	case *types.Const:
		if t, ok := x.constTerm(o.Val(), o.Type()); ok {
			return one(st, t)
		}
	}
	x.unsupp(e, "identifier %s", e.Name)
	return nil
}

func (x *Exec) fnref(o *types.Func) string {
	n := q("fn:" + funcKey(o))
	if _, ok := x.fnrefs[n]; !ok {
		x.fnrefs[n] = o
		x.decl[n] = "Int"
		x.dax = append(x.dax, natAxiom{[]string{n}, "(assert (> " + n + " 0))"})
	}
	return n
}

// loadPtr loads *p
func (x *Exec) loadPtr(st *State, p string, pt types.Type, n ast.Node) string {
	x.nonNil(st, p, n)
	el := deref(pt)
	if u, ok := el.Underlying().(*types.Struct); ok {
		s := x.so.sort(el)
		if u.NumFields() == 0 {
			return mkName(s)
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, "(select "+x.h(st, x.compF(el, u.Field(i)))+" "+p+")")
		}
		v := x.name(st, "ld", "("+mkName(s)+" "+strings.Join(fs, " ")+")", el)
		x.wf(st, v, el)
		return v
	}
	v := "(select " + x.h(st, x.compP(el)) + " " + p + ")"
	v = x.nameAlways(st, "ld", v, el)
	x.wf(st, v, el)
	return v
}

func (x *Exec) nameAlways(st *State, hint, term string, t types.Type) string {
	if !strings.HasPrefix(term, "(") {
		return term
	}
	c := x.freshT(hint, t)
	st.def("(= " + c + " " + term + ")")
	return c
}

func (x *Exec) nonNil(st *State, p string, n ast.Node) {
	if strings.HasPrefix(p, "|new!") {
		return
	}
	g := "(not (= " + p + " 0))"
	if p == "0" {
		g = "false"
	}
	key := "nn:" + p
	if x.pcHas(st, g) {
		return
	}
	_ = key
	x.oblige(st, "nil", "", g, n, "nil dereference")
}

// pcHas says whether the exact fact is already on the (recent) path condition.
func (x *Exec) pcHas(st *State, g string) bool {
	for p, i := st.pc, 0; p != nil && i < 400; p, i = p.parent, i+1 {
		if p.text == g {
			return true
		}
	}
	return false
}

func (x *Exec) loadField(st *State, p string, structT types.Type, f *types.Var, n ast.Node) string {
	x.nonNil(st, p, n)
	v := "(select " + x.h(st, x.compF(structT, f)) + " " + p + ")"
	return v
}

// walkPath follows a field path from value v of type t.
func (x *Exec) walkPath(st *State, v string, t types.Type, path []int, n ast.Node) (string, types.Type) {
	for _, i := range path {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			el := pt.Elem()
			f := el.Underlying().(*types.Struct).Field(i)
			v = x.loadField(st, v, el, f, n)
			t = f.Type()
			v = x.name(st, f.Name(), v, t)
			x.wf(st, v, t)
			continue
		}
		f := t.Underlying().(*types.Struct).Field(i)
		v = "(" + selName(x.so.sort(t), f.Name()) + " " + v + ")"
		t = f.Type()
	}
	return v, t
}

func (x *Exec) evalSelector(st *State, e *ast.SelectorExpr) []Res {
	sel := x.fr.info.Selections[e]
	if sel == nil { // qualified identifier
		return x.evalIdent(st, e.Sel)
	}
	switch sel.Kind() {
	case types.FieldVal:
		return each(x.eval(st, e.X), func(st *State, v string) []Res {
			r, t := x.walkPath(st, v, x.typeOf(e.X), sel.Index(), e)
			return one(st, x.name(st, e.Sel.Name, r, t))
		})
	case types.MethodVal:
		return each(x.eval(st, e.X), func(st *State, v string) []Res {
			// method value: opaque
			c := x.fresh("mval", "Int")
			return one(st, c)
		})
	case types.MethodExpr:
		return one(st, x.fnref(sel.Obj().(*types.Func)))
	}
	x.unsupp(e, "selector")
	return nil
}

func (x *Exec) sliceAt(st *State, s, i string, elem types.Type) string {
	at := x.so.atFn(x.so.sort(elem))
	return "(" + at + " (select " + x.h(st, x.compE(elem)) + " (s-arr " + s + ")) (s-off " + s + ") " + i + ")"
}

func (x *Exec) inRange(st *State, i, n string, node ast.Node, what string) {
	x.oblige(st, "index", "", "(and (<= 0 "+i+") (< "+i+" "+n+"))", node, what)
}

func (x *Exec) evalIndex(st *State, e *ast.IndexExpr) []Res {
	bt := x.typeOf(e.X)
	if _, ok := bt.(*types.Signature); ok {
		x.unsupp(e, "generic function")
	}
	return x.evalMany(st, []ast.Expr{e.X, e.Index}, func(st *State, vs []string) []Res {
		b, i := vs[0], vs[1]
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			x.inRange(st, i, "(s-len "+b+")", e, "slice index out of range")
			v := x.nameAlways(st, "el", x.sliceAt(st, b, i, u.Elem()), u.Elem())
			x.wf(st, v, u.Elem())
			return one(st, v)
		case *types.Array:
			x.inRange(st, i, fmt.Sprint(u.Len()), e, "array index out of range")
			return one(st, "(select "+b+" "+i+")")
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			x.inRange(st, i, fmt.Sprint(arr.Len()), e, "array index out of range")
			return one(st, "(select "+x.loadPtr(st, b, bt, e)+" "+i+")")
		case *types.Map:
			k := x.convert(i, x.typeOf(e.Index), u.Key())
			in, v := x.mapGet(st, b, k, u)
			if _, isT := x.typeOf(e).(*types.Tuple); isT {
				return []Res{{st, []string{v, in}}}
			}
			return one(st, v)
		case *types.Basic:
			x.inRange(st, i, "(blen "+b+")", e, "string index out of range")
			return one(st, "(bat "+b+" "+i+")")
		}
		x.unsupp(e, "index of %s", bt)
		return nil
	})
}

// mapGet returns presence and value-or-zero
func (x *Exec) mapGet(st *State, m, k string, u *types.Map) (string, string) {
	in := "(select (select " + x.h(st, x.compMD(u)) + " " + m + ") " + k + ")"
	in = x.nameAlways(st, "in", in, types.Typ[types.Bool])
	var v string
	if s, ok := u.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		v = x.zero(u.Elem())
	} else {
		v = "(ite " + in + " (select (select " + x.h(st, x.compMV(u)) + " " + m + ") " + k + ") " + x.zero(u.Elem()) + ")"
		v = x.nameAlways(st, "mv", v, u.Elem())
		x.wf(st, v, u.Elem())
	}
	return in, v
}

func (x *Exec) newSlice(st *State, arr, off, ln, cp string) string {
	s := x.fresh("sl", "Slice")
	st.def("(and (= (s-arr " + s + ") " + arr + ") (= (s-off " + s + ") " + off + ") (= (s-len " + s + ") " + ln + ") (= (s-cap " + s + ") " + cp + "))")
	return s
}

func (x *Exec) evalSliceExpr(st *State, e *ast.SliceExpr) []Res {
	bt := x.typeOf(e.X)
	es := []ast.Expr{e.X}
	for _, y := range []ast.Expr{e.Low, e.High, e.Max} {
		if y != nil {
			es = append(es, y)
		}
	}
	return x.evalMany(st, es, func(st *State, vs []string) []Res {
		b := vs[0]
		k := 1
		get := func(y ast.Expr) string {
			if y == nil {
				return ""
			}
			k++
			return vs[k-1]
		}
		lo, hi, mx := get(e.Low), get(e.High), get(e.Max)
		if lo == "" {
			lo = "0"
		}
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			if hi == "" {
				hi = "(s-len " + b + ")"
			}
			if lo == "0" && mx == "" && e.High == nil {
				return one(st, b)
			}
			cp := "(s-cap " + b + ")"
			if mx == "" {
				mx = cp
			}
			x.oblige(st, "slice", "", "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" "+mx+") (<= "+mx+" "+cp+"))", e, "slice bounds out of range")
			s := x.newSlice(st, "(s-arr "+b+")", "(+ (s-off "+b+") "+lo+")", "(- "+hi+" "+lo+")", "(- "+mx+" "+lo+")")
			// element view of the sub-slice, so facts about b reach it and back
			at := x.so.atFn(x.so.sort(u.Elem()))
			row := "(select " + x.h(st, x.compE(u.Elem())) + " (s-arr " + b + "))"
			rc := x.fresh("row", "(Array Int "+x.so.sort(u.Elem())+")")
			st.def("(= " + rc + " " + row + ")")
			st.def(fmt.Sprintf("(forall ((i Int)) (! (= (%s %s (s-off %s) i) (%s %s (s-off %s) (+ i %s))) :pattern ((%s %s (s-off %s) i))))", at, rc, s, at, rc, b, lo, at, rc, s))
			if lo != "0" {
				st.def(fmt.Sprintf("(forall ((i Int)) (! (= (%s %s (s-off %s) i) (%s %s (s-off %s) (- i %s))) :pattern ((%s %s (s-off %s) i))))", at, rc, b, at, rc, s, lo, at, rc, b))
			}
			return one(st, s)
		case *types.Basic:
			if hi == "" {
				hi = "(blen " + b + ")"
			}
			x.oblige(st, "slice", "", "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" (blen "+b+")))", e, "string slice bounds out of range")
			c := "(str_sub " + b + " " + lo + " " + hi + ")"
			return one(st, x.name(st, "sub", c, bt))
		}
		x.unsupp(e, "slice of %s", bt)
		return nil
	})
}

func (x *Exec) evalUnary(st *State, e *ast.UnaryExpr) []Res {
	switch e.Op {
	case token.AND:
		switch y := unparen(e.X).(type) {
		case *ast.CompositeLit:
			t := x.typeOf(y)
			return each(x.evalComposite(st, y, t), func(st *State, v string) []Res {
				return one(st, x.allocValue(st, v, t))
			})
		}
		x.unsupp(e, "address of %T", e.X)
	case token.NOT:
		return each(x.eval(st, e.X), func(st *State, v string) []Res { return one(st, not(v)) })
	case token.SUB:
		return each(x.eval(st, e.X), func(st *State, v string) []Res { return one(st, "(- "+v+")") })
	case token.ADD:
		return x.eval(st, e.X)
	case token.XOR:
		return each(x.eval(st, e.X), func(st *State, v string) []Res { return one(st, "(- (- "+v+") 1)") })
	}
	x.unsupp(e, "unary %s", e.Op)
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// allocValue allocates an object holding v.
func (x *Exec) allocValue(st *State, v string, t types.Type) string {
	r := x.newRef(st)
	if isBuf(t) {
		x.storeRef(st, x.compBuf(), r, x.so.strlit(""), nil, true)
		return r
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		s := x.so.sort(t)
		args := splitMk(v, mkName(s))
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fv := "(" + selName(s, f.Name()) + " " + v + ")"
			if args != nil {
				fv = args[i]
			}
			x.storeRef(st, x.compF(t, f), r, fv, nil, true)
		}
		return r
	}
	x.storeRef(st, x.compP(t), r, v, nil, true)
	return r
}

// splitMk splits "(mk a b c)" into its arguments.
func splitMk(v, mk string) []string {
	if !strings.HasPrefix(v, "("+mk+" ") {
		return nil
	}
	body := v[len(mk)+2 : len(v)-1]
	var out []string
	d, start, bar := 0, 0, false
	for i := 0; i < len(body); i++ {
		c := body[i]
		switch {
		case c == '|':
			bar = !bar
		case bar:
		case c == '(':
			d++
		case c == ')':
			d--
		case c == ' ' && d == 0:
			if i > start {
				out = append(out, body[start:i])
			}
			start = i + 1
		}
	}
	if start < len(body) {
		out = append(out, body[start:])
	}
	return out
}

func (x *Exec) evalComposite(st *State, e *ast.CompositeLit, t types.Type) []Res {
	switch u := t.Underlying().(type) {
	case *types.Pointer: // elided &T in a composite
		return each(x.evalComposite(st, e, u.Elem()), func(st *State, v string) []Res {
			return one(st, x.allocValue(st, v, u.Elem()))
		})
	case *types.Struct:
		s := x.so.sort(t)
		vals := make([]ast.Expr, u.NumFields())
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				nm := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == nm {
						vals[j] = kv.Value
					}
				}
			} else {
				vals[i] = el
			}
		}
		// evaluate in source order
		var order []int
		for _, el := range e.Elts {
			y := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				y = kv.Value
			}
			for j := range vals {
				if vals[j] == y {
					order = append(order, j)
				}
			}
		}
		var rec func(st *State, k int, acc map[int]string) []Res
		rec = func(st *State, k int, acc map[int]string) []Res {
			if k == len(order) {
				if u.NumFields() == 0 {
					return one(st, mkName(s))
				}
				var fs []string
				for j := 0; j < u.NumFields(); j++ {
					if v, ok := acc[j]; ok {
						fs = append(fs, v)
					} else {
						fs = append(fs, x.zero(u.Field(j).Type()))
					}
				}
				return one(st, "("+mkName(s)+" "+strings.Join(fs, " ")+")")
			}
			j := order[k]
			var out []Res
			for _, r := range x.evalElt(st, vals[j], u.Field(j).Type()) {
				a2 := map[int]string{}
				for a, b := range acc {
					a2[a] = b
				}
				a2[j] = x.name(r.st, u.Field(j).Name(), r.v[0], u.Field(j).Type())
				out = append(out, rec(r.st, k+1, a2)...)
			}
			return out
		}
		return rec(st, 0, map[int]string{})
	case *types.Slice:
		var es []ast.Expr
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				x.unsupp(e, "keyed slice literal")
			}
			es = append(es, el)
		}
		return x.evalElts(st, es, u.Elem(), func(st *State, vs []string) []Res {
			return one(st, x.makeSlice(st, vs, u.Elem()))
		})
	case *types.Array:
		var es []ast.Expr
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				x.unsupp(e, "keyed array literal")
			}
			es = append(es, el)
		}
		return x.evalElts(st, es, u.Elem(), func(st *State, vs []string) []Res {
			a := x.zero(t)
			for i, v := range vs {
				a = fmt.Sprintf("(store %s %d %s)", a, i, v)
			}
			return one(st, a)
		})
	case *types.Map:
		r := x.newMap(st, u)
		sts := []*State{st}
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			var nx []*State
			for _, s := range sts {
				for _, k := range x.evalElt(s, kv.Key, u.Key()) {
					for _, v := range x.evalElt(k.st, kv.Value, u.Elem()) {
						x.mapSet(v.st, r, k.v[0], v.v[0], u, e, true)
						nx = append(nx, v.st)
					}
				}
			}
			sts = nx
		}
		var out []Res
		for _, s := range sts {
			out = append(out, Res{s, []string{r}})
		}
		return out
	}
	x.unsupp(e, "composite literal of %s", t)
	return nil
}

func (x *Exec) evalElt(st *State, e ast.Expr, t types.Type) []Res {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		return x.evalComposite(st, cl, t)
	}
	return x.evalTo(st, e, t)
}

func (x *Exec) evalElts(st *State, es []ast.Expr, t types.Type, f func(st *State, vs []string) []Res) []Res {
	var rec func(st *State, i int, acc []string) []Res
	rec = func(st *State, i int, acc []string) []Res {
		if i == len(es) {
			return f(st, acc)
		}
		var out []Res
		for _, r := range x.evalElt(st, es[i], t) {
			out = append(out, rec(r.st, i+1, append(append([]string{}, acc...), r.v[0]))...)
		}
		return out
	}
	return rec(st, 0, nil)
}

func (x *Exec) makeSlice(st *State, vs []string, elem types.Type) string {
	r := x.newRef(st)
	es := x.so.sort(elem)
	row := "((as const (Array Int " + es + ")) " + x.zero(elem) + ")"
	for i, v := range vs {
		row = fmt.Sprintf("(store %s %d %s)", row, i, v)
	}
	x.storeRef(st, x.compE(elem), r, row, nil, true)
	n := fmt.Sprint(len(vs))
	s := x.newSlice(st, r, "0", n, n)
	at := x.so.atFn(es)
	for i, v := range vs {
		st.def(fmt.Sprintf("(= (%s (select %s %s) (s-off %s) %d) %s)", at, x.h(st, x.compE(elem)), r, s, i, v))
	}
	return s
}

func (x *Exec) newMap(st *State, u *types.Map) string {
	r := x.newRef(st)
	ks := x.so.sort(u.Key())
	x.storeRef(st, x.compMD(u), r, "((as const (Array "+ks+" Bool)) false)", nil, true)
	x.compMV(u)
	return r
}

func (x *Exec) mapSet(st *State, m, k, v string, u *types.Map, n ast.Node, freshRef bool) {
	if !freshRef {
		if !strings.HasPrefix(m, "|new!") {
			x.oblige(st, "nilmap", "", "(not (= "+m+" 0))", n, "assignment to entry in nil map")
		}
	}
	md := x.compMD(u)
	x.storeRef(st, md, m, "(store (select "+x.h(st, md)+" "+m+") "+k+" true)", n, freshRef)
	if s, ok := u.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return
	}
	mv := x.compMV(u)
	x.storeRef(st, mv, m, "(store (select "+x.h(st, mv)+" "+m+") "+k+" "+v+")", n, freshRef)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) evalBinary(st *State, e *ast.BinaryExpr) []Res {
	if e.Op == token.LAND || e.Op == token.LOR {
		var out []Res
		for _, l := range x.eval(st, e.X) {
			a := x.name(l.st, "c", l.v[0], types.Typ[types.Bool])
			if a == "true" && e.Op == token.LOR || a == "false" && e.Op == token.LAND {
				out = append(out, Res{l.st, []string{a}})
				continue
			}
			cond := a
			if e.Op == token.LOR {
				cond = not(a)
			}
			// evaluate the right side under cond
			rst := l.st.clone()
			rst.branch(cond)
			mark := rst.pc
			rs := x.eval(rst, e.Y)
			if len(rs) == 1 && sameHeap(rs[0].st, l.st) {
				// fold back: guard the facts learned on the right
				var es []*PC
				for p := rs[0].st.pc; p != mark; p = p.parent {
					es = append(es, p)
				}
				for i := len(es) - 1; i >= 0; i-- {
					if es[i].kind == 2 {
						l.st.def(es[i].text)
					} else {
						l.st.assume(implies(cond, es[i].text))
					}
				}
				b := rs[0].v[0]
				if e.Op == token.LAND {
					out = append(out, Res{l.st, []string{and(a, b)}})
				} else {
					out = append(out, Res{l.st, []string{or(a, b)}})
				}
				continue
			}
			short := l.st.clone()
			short.branch(not(cond))
			if e.Op == token.LAND {
				out = append(out, Res{short, []string{"false"}})
			} else {
				out = append(out, Res{short, []string{"true"}})
			}
			out = append(out, rs...)
		}
		return out
	}
	lt, rt := x.typeOf(e.X), x.typeOf(e.Y)
	return x.evalMany(st, []ast.Expr{e.X, e.Y}, func(st *State, vs []string) []Res {
		a, b := vs[0], vs[1]
		ot := lt
		if e.Op == token.EQL || e.Op == token.NEQ {
			_, li := lt.Underlying().(*types.Interface)
			_, ri := rt.Underlying().(*types.Interface)
			lnil, rnil := isNilT(lt), isNilT(rt)
			var t string
			switch {
			case rnil || lnil:
				y, ty := a, lt
				if lnil {
					y, ty = b, rt
				}
				switch ty.Underlying().(type) {
				case *types.Slice:
					t = "(= (s-arr " + y + ") 0)"
				case *types.Interface:
					t = "((_ is I-nil) " + y + ")"
				default:
					t = "(= " + y + " 0)"
				}
			case li && !ri:
				t = "(= " + a + " " + x.convert(b, rt, lt) + ")"
			case ri && !li:
				t = "(= " + x.convert(a, lt, rt) + " " + b + ")"
			default:
				if a == b {
					t = "true"
				} else {
					t = "(= " + a + " " + b + ")"
				}
			}
			if e.Op == token.NEQ {
				t = not(t)
			}
			return one(st, t)
		}
		return one(st, x.name(st, "b", x.arith(st, e.Op, a, b, ot, e), x.typeOf(e)))
	})
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (x *Exec) arith(st *State, op token.Token, a, b string, t types.Type, n ast.Node) string {
	if isString(t) {
		switch op {
		case token.ADD:
			return "(str_cat " + a + " " + b + ")"
		case token.LSS:
			return "(str_lt " + a + " " + b + ")"
		case token.GTR:
			return "(str_lt " + b + " " + a + ")"
		case token.LEQ:
			return "(not (str_lt " + b + " " + a + "))"
		case token.GEQ:
			return "(not (str_lt " + a + " " + b + "))"
		}
	}
	if isInt(t) && len(a) < 9 && len(b) < 9 {
		na, ea := strconv.Atoi(a)
		nb, eb := strconv.Atoi(b)
		if ea == nil && eb == nil {
			bs := func(v bool) string {
				if v {
					return "true"
				}
				return "false"
			}
			switch op {
			case token.ADD:
				return strconv.Itoa(na + nb)
			case token.LSS:
				return bs(na < nb)
			case token.LEQ:
				return bs(na <= nb)
			case token.GTR:
				return bs(na > nb)
			case token.GEQ:
				return bs(na >= nb)
			}
		}
	}
	switch op {
	case token.ADD:
		return "(+ " + a + " " + b + ")"
	case token.SUB:
		return "(- " + a + " " + b + ")"
	case token.MUL:
		return "(* " + a + " " + b + ")"
	case token.QUO:
		x.oblige(st, "div", "", "(not (= "+b+" 0))", n, "division by zero")
		return "(godiv " + a + " " + b + ")"
	case token.REM:
		x.oblige(st, "div", "", "(not (= "+b+" 0))", n, "division by zero")
		return "(gomod " + a + " " + b + ")"
	case token.LSS:
		return "(< " + a + " " + b + ")"
	case token.GTR:
		return "(> " + a + " " + b + ")"
	case token.LEQ:
		return "(<= " + a + " " + b + ")"
	case token.GEQ:
		return "(>= " + a + " " + b + ")"
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		nm := map[token.Token]string{token.AND: "bv_and", token.OR: "bv_or", token.XOR: "bv_xor", token.SHL: "bv_shl", token.SHR: "bv_shr", token.AND_NOT: "bv_andnot"}[op]
		x.so.declFun(nm, "(declare-fun "+nm+" (Int Int) Int)")
		return "(" + nm + " " + a + " " + b + ")"
	}
	x.unsupp(n, "operator %s", op)
	return ""
}

// ---------- assignment ----------

// assign stores v into lhs; returns resulting states (evaluating lhs may branch).
func (x *Exec) assign(st *State, lhs ast.Expr, v string, n ast.Node) []*State {
	switch l := unparen(lhs).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return []*State{st}
		}
		o := x.obj(l)
		x.setVar(st, o, v, n)
		return []*State{st}
	case *ast.SelectorExpr:
		sel := x.fr.info.Selections[l]
		if sel == nil {
			x.setVar(st, x.obj(l.Sel), v, n)
			return []*State{st}
		}
		return x.assignPath(st, l.X, x.typeOf(l.X), sel.Index(), v, n)
	case *ast.IndexExpr:
		bt := x.typeOf(l.X)
		var out []*State
		for _, r := range x.evalMany(st, []ast.Expr{l.X, l.Index}, func(st *State, vs []string) []Res { return []Res{{st, vs}} }) {
			b, i := r.v[0], r.v[1]
			switch u := bt.Underlying().(type) {
			case *types.Slice:
				x.inRange(r.st, i, "(s-len "+b+")", l, "slice index out of range")
				x.setElem(r.st, b, i, v, u.Elem(), l)
				out = append(out, r.st)
			case *types.Map:
				k := x.convert(i, x.typeOf(l.Index), u.Key())
				x.mapSet(r.st, b, k, v, u, l, false)
				out = append(out, r.st)
			case *types.Array:
				x.inRange(r.st, i, fmt.Sprint(u.Len()), l, "array index out of range")
				out = append(out, x.assign(r.st, l.X, x.name(r.st, "arr", "(store "+b+" "+i+" "+v+")", bt), n)...)
			default:
				x.unsupp(l, "assignment to index of %s", bt)
			}
		}
		return out
	case *ast.StarExpr:
		var out []*State
		for _, r := range x.eval(st, l.X) {
			x.storePtr(r.st, r.v[0], x.typeOf(l.X), v, l)
			out = append(out, r.st)
		}
		return out
	}
	x.unsupp(lhs, "assignment to %T", lhs)
	return nil
}

func (x *Exec) setElem(st *State, s, i, v string, elem types.Type, n ast.Node) {
	ce := x.compE(elem)
	row := "(select " + x.h(st, ce) + " (s-arr " + s + "))"
	nr := x.fresh("row", "(Array Int "+x.so.sort(elem)+")")
	or := x.fresh("row", "(Array Int "+x.so.sort(elem)+")")
	st.def("(= " + or + " " + row + ")")
	st.def("(= " + nr + " (store " + or + " (+ (s-off " + s + ") " + i + ") " + v + "))")
	// element view
	at := x.so.atFn(x.so.sort(elem))
	st.def(fmt.Sprintf("(forall ((o Int) (i Int)) (! (= (%s %s o i) (ite (= (+ o i) (+ (s-off %s) %s)) %s (%s %s o i))) :pattern ((%s %s o i)) :pattern ((%s %s o i))))", at, nr, s, i, v, at, or, at, nr, at, or))
	st.def(fmt.Sprintf("(= (%s %s (s-off %s) %s) %s)", at, nr, s, i, v))
	x.storeRef(st, ce, "(s-arr "+s+")", nr, n, false)
}

func (x *Exec) storePtr(st *State, p string, pt types.Type, v string, n ast.Node) {
	x.nonNil(st, p, n)
	el := deref(pt)
	if u, ok := el.Underlying().(*types.Struct); ok {
		s := x.so.sort(el)
		args := splitMk(v, mkName(s))
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fv := "(" + selName(s, f.Name()) + " " + v + ")"
			if args != nil {
				fv = args[i]
			}
			x.storeRef(st, x.compF(el, f), p, fv, n, false)
		}
		return
	}
	x.storeRef(st, x.compP(el), p, v, n, false)
}

func (x *Exec) setVar(st *State, o types.Object, v string, n ast.Node) {
	if o == nil {
		return
	}
	if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		x.writeGlobal(st, x.compG(o), v, n)
		return
	}
	st.vars[o] = x.name(st, o.Name(), v, o.Type())
}

// assignPath assigns base.path = v
func (x *Exec) assignPath(st *State, base ast.Expr, bt types.Type, path []int, v string, n ast.Node) []*State {
	var out []*State
	for _, r := range x.eval(st, base) {
		b := r.v[0]
		// find the last pointer hop
		t := bt
		cur := b
		lastPtr := -1
		var ptrVal string
		var ptrT types.Type
		for k := 0; k < len(path); k++ {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				lastPtr, ptrVal, ptrT = k, cur, t
			}
			cur2, t2 := x.walkPath(r.st, cur, t, path[k:k+1], n)
			cur, t = cur2, t2
		}
		if lastPtr < 0 {
			nv := x.updPath(r.st, b, bt, path, v)
			out = append(out, x.assign(r.st, base, nv, n)...)
			continue
		}
		el := deref(ptrT)
		f := el.Underlying().(*types.Struct).Field(path[lastPtr])
		comp := x.compF(el, f)
		if lastPtr == len(path)-1 {
			x.storeRef(r.st, comp, ptrVal, v, n, false)
		} else {
			old := "(select " + x.h(r.st, comp) + " " + ptrVal + ")"
			x.storeRef(r.st, comp, ptrVal, x.updPath(r.st, old, f.Type(), path[lastPtr+1:], v), n, false)
		}
		out = append(out, r.st)
	}
	return out
}

func (x *Exec) updPath(st *State, b string, bt types.Type, path []int, v string) string {
	if len(path) == 0 {
		return v
	}
	u := bt.Underlying().(*types.Struct)
	s := x.so.sort(bt)
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		fv := "(" + selName(s, u.Field(i).Name()) + " " + b + ")"
		if i == path[0] {
			fv = x.updPath(st, fv, u.Field(i).Type(), path[1:], v)
		}
		fs = append(fs, fv)
	}
	return "(" + mkName(s) + " " + strings.Join(fs, " ") + ")"
}
