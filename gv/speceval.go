package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Env is the environment of a contract expression.
type Env struct {
	x      *Exec
	st     *State
	old    *State
	before *State
	names  map[string]binding
	pkg    *Pkg
	li     *loopInfo
	fr     *Frame
	qual   int
	gst    *State // inside old(): the state of the loop ghosts
	top    bool   // top of an axiom: its quantifier also binds the heap components read
}

func (e *Env) with(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) bind(name string, b binding) *Env {
	n := *e
	n.names = map[string]binding{}
	for k, v := range e.names {
		n.names[k] = v
	}
	n.names[name] = b
	return &n
}

type specError struct{ msg string }

func serr(f string, a ...interface{}) { panic(specError{fmt.Sprintf(f, a...)}) }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tNil = types.Typ[types.UntypedNil]

func (x *Exec) specBool(n *SNode, env *Env) string {
	t, ty := x.spec(n, env)
	if b, ok := ty.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		serr("not a boolean: %s", n.Src)
	}
	return t
}

// parseType resolves a type expression in a package.
func (x *Exec) parseType(s string, pkg *Pkg) types.Type {
	if strings.HasPrefix(s, "set[") {
		return &ghostType{kind: "set", elem: x.parseType(s[4:len(s)-1], pkg)}
	}
	if strings.HasPrefix(s, "arr[") {
		return &ghostType{kind: "arr", elem: x.parseType(s[4:len(s)-1], pkg)}
	}
	if strings.HasPrefix(s, "fn[") {
		d := 0
		for i := 2; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
			}
			if d == 0 {
				return &ghostType{kind: "fn", key: x.parseType(s[3:i], pkg), elem: x.parseType(s[i+1:], pkg)}
			}
		}
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		serr("bad type %q: %v", s, err)
	}
	return x.resolveType(e, pkg)
}

func (x *Exec) resolveType(e ast.Expr, pkg *Pkg) types.Type {
	switch t := e.(type) {
	case *ast.ParenExpr:
		return x.resolveType(t.X, pkg)
	case *ast.Ident:
		if pkg != nil {
			if o := pkg.Types.Scope().Lookup(t.Name); o != nil {
				return o.Type()
			}
		}
		if o := types.Universe.Lookup(t.Name); o != nil {
			return o.Type()
		}
	case *ast.SelectorExpr:
		p := x.importOf(t.X.(*ast.Ident).Name, pkg)
		if p != nil {
			if o := p.Scope().Lookup(t.Sel.Name); o != nil {
				return o.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(x.resolveType(t.X, pkg))
	case *ast.ArrayType:
		return types.NewSlice(x.resolveType(t.Elt, pkg))
	case *ast.MapType:
		return types.NewMap(x.resolveType(t.Key, pkg), x.resolveType(t.Value, pkg))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.StructType:
		return types.NewStruct(nil, nil)
	case *ast.FuncType:
		tup := func(fl *ast.FieldList) *types.Tuple {
			var vs []*types.Var
			if fl != nil {
				for _, f := range fl.List {
					vs = append(vs, types.NewVar(0, nil, "", x.resolveType(f.Type, pkg)))
				}
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(t.Params), tup(t.Results), false)
	}
	serr("unknown type %s", types.ExprString(e))
	return nil
}

func (x *Exec) importOf(name string, pkg *Pkg) *types.Package {
	if pkg != nil {
		if p, ok := pkg.Imports[name]; ok {
			return p
		}
	}
	var cands []string
	for p, k := range x.L.pkgs {
		if k.Types.Name() == name {
			cands = append(cands, p)
		}
	}
	sort.Strings(cands)
	if len(cands) == 1 {
		return x.L.pkgs[cands[0]].Types
	}
	return nil
}

func (x *Exec) coerce(t string, from, to types.Type) string {
	if from == nil || to == nil {
		return t
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		if _, g := to.(*ghostType); g {
			return x.zero(to)
		}
		return x.zero(to)
	}
	if _, ok := to.(*ghostType); ok {
		return t
	}
	if _, ok := from.(*ghostType); ok {
		return t
	}
	return x.convert(t, from, to)
}

func (x *Exec) spec(n *SNode, env *Env) (string, types.Type) {
	switch n.Op {
	case "bool":
		return n.Val, tBool
	case "int":
		v := constant.MakeFromLiteral(n.Val, token.INT, 0)
		t, _ := x.constTerm(v, tInt)
		return t, tInt
	case "str":
		return x.so.strlit(n.Val), tString
	case "nil":
		return "0", tNil
	case "id":
		return x.specIdent(n, env)
	case "un":
		t, ty := x.spec(n.Args[0], env)
		if n.Val == "!" {
			return not(t), tBool
		}
		return "(- " + t + ")", ty
	case "bin":
		return x.specBin(n, env)
	case "forall", "exists":
		return x.specQuant(n, env)
	case "sel":
		return x.specSel(n, env)
	case "idx":
		b, bt := x.spec(n.Args[0], env)
		i, it := x.spec(n.Args[1], env)
		return x.specIndex(b, bt, i, it, env)
	case "call":
		return x.specCall(n, env)
	case "typeis":
		v, _ := x.spec(n.Args[0], env)
		is, _ := x.assertType(v, x.parseType(n.Val, env.pkg))
		return is, tBool
	case "as":
		v, _ := x.spec(n.Args[0], env)
		t := x.parseType(n.Val, env.pkg)
		_, u := x.assertType(v, t)
		return u, t
	case "zero":
		t := x.parseType(n.Val, env.pkg)
		return x.zero(t), t
	case "emptyset":
		t := &ghostType{kind: "set", elem: x.parseType(n.Val, env.pkg)}
		return x.zero(t), t
	}
	serr("contract operator %s", n.Op)
	return "", nil
}

func (x *Exec) specIdent(n *SNode, env *Env) (string, types.Type) {
	if b, ok := env.names[n.Val]; ok {
		return b.term, b.typ
	}
	if env.li != nil {
		if b, ok := env.li.ghosts[n.Val]; ok {
			if env.gst != nil {
				e2 := *env
				e2.st, e2.gst = env.gst, nil
				return x.specIdent(n, &e2)
			}
			if strings.HasPrefix(b.term, "@") { // the counter variable
				for o, v := range env.st.vars {
					if o.Name() == b.term[1:] && o.Parent() != nil && (o.Parent().Contains(env.li.node.Pos()) || o.Pos() >= env.li.node.Pos() && o.Pos() <= env.li.node.End()) {
						return v, b.typ
					}
				}
				serr("no value for loop counter %s", b.term)
			}
			if strings.HasPrefix(b.term, "$$") { // ghost in state
				return env.st.ghost[b.term[1:]], b.typ
			}
			return b.term, b.typ
		}
	}
	if strings.HasPrefix(n.Val, "$") && len(n.Val) > 2 {
		// ghost of an enclosing loop: $i@k is written $i_k
		if i := strings.LastIndex(n.Val, "_"); i > 0 && env.fr != nil {
			for k := len(x.loopStates) - 1; k >= 0; k-- {
				_ = k
			}
			ord := 0
			fmt.Sscanf(n.Val[i+1:], "%d", &ord)
			for nd, o := range env.fr.loops {
				if o == ord {
					base := n.Val[:i]
					key := fmt.Sprintf("%s%d", base, nd.Pos())
					if v, ok := env.st.ghost[key]; ok {
						return v, env.st.gtype[key]
					}
					if fs, ok := nd.(*ast.ForStmt); ok && base == "$i" {
						save := x.fr
						x.fr = env.fr
						c := x.counter(fs)
						x.fr = save
						if c != nil {
							if v, ok := env.st.vars[c]; ok {
								return v, c.Type()
							}
						}
					}
				}
			}
		}
	}
	if env.fr != nil {
		// a local variable in scope
		pos := token.NoPos
		if env.li != nil {
			pos = env.li.node.Pos()
		}
		var best types.Object
		for o := range env.st.vars {
			if o.Name() != n.Val || o.Parent() == nil {
				continue
			}
			if pos.IsValid() && !o.Parent().Contains(pos) && !(o.Pos() >= env.li.node.Pos() && o.Pos() < env.li.node.End()) {
				continue
			}
			if best == nil || o.Pos() > best.Pos() {
				best = o
			}
		}
		if best != nil {
			return env.st.vars[best], best.Type()
		}
		if env.fr.con != nil {
			if ty, ok := env.fr.con.Alias[n.Val]; ok {
				want := x.parseType(ty, env.pkg)
				var cands []types.Object
				for o := range env.st.vars {
					if o.Parent() != nil && types.Identical(o.Type(), want) && (!pos.IsValid() || o.Parent().Contains(pos)) {
						isParam := false
						for _, b := range x.paramObjs(env.fr) {
							if b == o {
								isParam = true
							}
						}
						if !isParam {
							cands = append(cands, o)
						}
					}
				}
				sort.Slice(cands, func(i, j int) bool { return cands[i].Pos() < cands[j].Pos() })
				if len(cands) >= 1 {
					k := x.aliasPick[n.Val]
					if len(cands) > x.aliasSeen[n.Val] {
						x.aliasSeen[n.Val] = len(cands)
					}
					if k >= len(cands) {
						k = 0
					}
					return env.st.vars[cands[k]], cands[k].Type()
				}
			}
		}
	}
	if env.pkg != nil {
		if o := env.pkg.Types.Scope().Lookup(n.Val); o != nil {
			return x.specObj(o, env)
		}
	}
	if sf, ok := x.Sp.Funcs[n.Val]; ok && len(sf.Params) == 0 {
		return x.specApply(sf, nil, env)
	}
	serr("unknown name %q in %s", n.Val, n.Src)
	return "", nil
}

func (x *Exec) paramObjs(fr *Frame) []types.Object {
	var out []types.Object
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			if len(f.Names) == 0 {
				out = append(out, nil)
			}
			for _, n := range f.Names {
				out = append(out, fr.info.Defs[n])
			}
		}
	}
	add(fr.fi.Decl.Recv)
	add(fr.fi.Decl.Type.Params)
	return out
}

func (x *Exec) specObj(o types.Object, env *Env) (string, types.Type) {
	switch o := o.(type) {
	case *types.Const:
		if t, ok := x.constTerm(o.Val(), o.Type()); ok {
			return t, o.Type()
		}
	case *types.Var:
		if env.st == nil {
			serr("global %s used in a heap-free contract function", o.Name())
		}
		return x.h(env.st, x.compG(o)), o.Type()
	case *types.Func:
		return x.fnref(o), o.Type()
	}
	serr("contract object %s", o.Name())
	return "", nil
}

func (x *Exec) specBin(n *SNode, env *Env) (string, types.Type) {
	a, at := x.spec(n.Args[0], env)
	switch n.Val {
	case "&&":
		b, _ := x.spec(n.Args[1], env)
		return and(a, b), tBool
	case "||":
		b, _ := x.spec(n.Args[1], env)
		return or(a, b), tBool
	case "==>":
		b, _ := x.spec(n.Args[1], env)
		return implies(a, b), tBool
	case "<==>":
		b, _ := x.spec(n.Args[1], env)
		switch {
		case a == "true":
			return b, tBool
		case b == "true":
			return a, tBool
		case a == "false":
			return not(b), tBool
		case b == "false":
			return not(a), tBool
		}
		if strings.Contains(a+b, "(exists (") || strings.Contains(a+b, "(forall (") {
			return and(implies(a, b), implies(b, a)), tBool
		}
		return "(= " + a + " " + b + ")", tBool
	}
	b, bt := x.spec(n.Args[1], env)
	switch n.Val {
	case "==", "!=":
		var t string
		nilA, nilB := isNilT(at), isNilT(bt)
		switch {
		case nilB || nilA:
			y, ty := a, at
			if nilA {
				y, ty = b, bt
			}
			switch ty.Underlying().(type) {
			case *types.Slice:
				t = "(= (s-arr " + y + ") 0)"
			case *types.Interface:
				t = "((_ is I-nil) " + y + ")"
			default:
				t = "(= " + y + " 0)"
			}
		default:
			_, ai := at.Underlying().(*types.Interface)
			_, bi := bt.Underlying().(*types.Interface)
			if ai && !bi {
				b = x.coerce(b, bt, at)
			} else if bi && !ai {
				a = x.coerce(a, at, bt)
			}
			if x.so.sort(at) != x.so.sort(bt) && !ai && !bi {
				serr("comparing %s with %s in %s", at, bt, n.Src)
			}
			t = "(= " + a + " " + b + ")"
		}
		if n.Val == "!=" {
			t = not(t)
		}
		return t, tBool
	case "in":
		switch u := bt.Underlying().(type) {
		case *types.Map:
			a = x.coerce(a, at, u.Key())
			return "(select (select " + x.h(env.st, x.compMD(u)) + " " + b + ") " + a + ")", tBool
		case *ghostType:
			a = x.coerce(a, at, u.elem)
			return "(select " + b + " " + a + ")", tBool
		}
		serr("'in' of %s", bt)
	case "+", "-", "*", "/", "%":
		if isString(at) {
			return "(str_cat " + a + " " + b + ")", at
		}
		op := map[string]string{"+": "+", "-": "-", "*": "*", "/": "div", "%": "mod"}[n.Val]
		return "(" + op + " " + a + " " + b + ")", tInt
	case "<", "<=", ">", ">=":
		if isString(at) {
			switch n.Val {
			case "<":
				return "(str_lt " + a + " " + b + ")", tBool
			case ">":
				return "(str_lt " + b + " " + a + ")", tBool
			case "<=":
				return "(not (str_lt " + b + " " + a + "))", tBool
			default:
				return "(not (str_lt " + a + " " + b + "))", tBool
			}
		}
		return "(" + n.Val + " " + a + " " + b + ")", tBool
	}
	serr("operator %s", n.Val)
	return "", nil
}

func (x *Exec) specQuant(n *SNode, env *Env) (string, types.Type) {
	e2 := env
	if env.top {
		e2 = env.with(env.st)
		e2.top = false
	}
	var decls []string
	var guards []string
	var opaqueVars []string
	for _, v := range n.Vars {
		ty := x.parseType(v.Type, env.pkg)
		x.cnt++
		nm := fmt.Sprintf("|%s_%d|", v.Name, x.cnt)
		if top := x.recTop(); top != "" && x.Sp.Framed[top] {
			switch u := ty.Underlying().(type) {
			case *types.Basic:
			case *types.Struct:
				if !plainStruct(u) {
					opaqueVars = append(opaqueVars, nm)
				}
			default:
				serr("%s is framed and quantifies over %s", top, v.Type)
			}
		}
		e2 = e2.bind(v.Name, binding{nm, ty})
		decls = append(decls, "("+nm+" "+x.so.sort(ty)+")")
		if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			guards = append(guards, "(<= 0 "+nm+")")
		}
	}
	body, _ := x.spec(n.Args[0], e2)
	for _, v := range opaqueVars {
		x.noPeek(body, v)
	}
	if len(guards) > 0 {
		if n.Op == "forall" {
			body = implies(and(guards...), body)
		} else {
			body = and(append(guards, body)...)
		}
	}
	if len(n.Trigs) > 0 {
		var ps []string
		for _, tr := range n.Trigs {
			var ts []string
			for _, t := range tr {
				tt, _ := x.spec(t, e2)
				ts = append(ts, stripIte(tt))
			}
			ps = append(ps, ":pattern ("+strings.Join(ts, " ")+")")
		}
		body = "(! " + body + " " + strings.Join(ps, " ") + ")"
	}
	if env.top && env.st != nil && env.st.hp != nil {
		for _, c := range env.st.hp.order {
			decls = append(decls, "("+env.st.hp.names[c]+" "+x.compSort[c]+")")
		}
	}
	return "(" + n.Op + " (" + strings.Join(decls, " ") + ") " + body + ")", tBool
}

// stripIte replaces (ite c a b) by a: a pattern may not hold a conditional, and a map lookup is one.
func stripIte(t string) string {
	for {
		i := strings.Index(t, "(ite ")
		if i < 0 {
			return t
		}
		var parts [][2]int
		d, start, bar := 0, i+1, false
		j := i
	scan:
		for ; j < len(t); j++ {
			switch c := t[j]; {
			case c == '|':
				bar = !bar
			case bar:
			case c == '(':
				d++
			case c == ')':
				d--
				if d == 0 {
					parts = append(parts, [2]int{start, j})
					break scan
				}
			case c == ' ' && d == 1:
				parts = append(parts, [2]int{start, j})
				start = j + 1
			}
		}
		if len(parts) < 3 {
			return t
		}
		t = t[:i] + t[parts[2][0]:parts[2][1]] + t[j+1:]
	}
}

func (x *Exec) fieldOf(t types.Type, name string) (*types.Var, []int) {
	base := deref(t)
	u, ok := base.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return u.Field(i), []int{i}
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			if f, p := x.fieldOf(u.Field(i).Type(), name); f != nil {
				return f, append([]int{i}, p...)
			}
		}
	}
	return nil, nil
}

func (x *Exec) specSel(n *SNode, env *Env) (string, types.Type) {
	if n.Args[0].Op == "id" {
		nm := n.Args[0].Val
		_, bound := env.names[nm]
		if !bound {
			if p := x.importOf(nm, env.pkg); p != nil && !x.isLocal(nm, env) {
				if o := p.Scope().Lookup(n.Val); o != nil {
					return x.specObj(o, env)
				}
			}
		}
	}
	b, bt := x.spec(n.Args[0], env)
	return x.specField(b, bt, n.Val, env, n)
}

func (x *Exec) isLocal(nm string, env *Env) bool {
	if env.fr == nil {
		return false
	}
	for o := range env.st.vars {
		if o.Name() == nm && o.Parent() != nil {
			return true
		}
	}
	return false
}

func (x *Exec) specField(b string, bt types.Type, name string, env *Env, n *SNode) (string, types.Type) {
	f, path := x.fieldOf(bt, name)
	if f == nil {
		serr("no field %s in %s (%s)", name, bt, n.Src)
	}
	t := bt
	for _, i := range path {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			fv := pt.Elem().Underlying().(*types.Struct).Field(i)
			if env.st == nil {
				serr("heap access in a heap-free contract function: .%s", name)
			}
			b = "(select " + x.h(env.st, x.compF(pt.Elem(), fv)) + " " + b + ")"
			t = fv.Type()
		} else {
			fv := t.Underlying().(*types.Struct).Field(i)
			b = "(" + selName(x.so.sort(t), fv.Name()) + " " + b + ")"
			t = fv.Type()
		}
	}
	return b, t
}

func (x *Exec) specIndex(b string, bt types.Type, i string, it types.Type, env *Env) (string, types.Type) {
	switch u := bt.Underlying().(type) {
	case *types.Slice:
		return x.sliceAt(env.st, b, i, u.Elem()), u.Elem()
	case *types.Array:
		return "(select " + b + " " + i + ")", u.Elem()
	case *types.Map:
		i = x.coerce(i, it, u.Key())
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			return x.zero(u.Elem()), u.Elem()
		}
		in := "(select (select " + x.h(env.st, x.compMD(u)) + " " + b + ") " + i + ")"
		return "(ite " + in + " (select (select " + x.h(env.st, x.compMV(u)) + " " + b + ") " + i + ") " + x.zero(u.Elem()) + ")", u.Elem()
	case *ghostType:
		if u.kind == "set" {
			return "(select " + b + " " + x.coerce(i, it, u.elem) + ")", tBool
		}
		if u.kind == "fn" {
			return "(select " + b + " " + x.coerce(i, it, u.key) + ")", u.elem
		}
		return "(select " + b + " " + i + ")", u.elem
	case *types.Basic:
		return "(bat " + b + " " + i + ")", tInt
	}
	serr("index of %s", bt)
	return "", nil
}

func (x *Exec) specCall(n *SNode, env *Env) (string, types.Type) {
	fn := n.Args[0]
	args := n.Args[1:]
	if fn.Op != "id" {
		// pkg.specfunc is not supported; methods are not callable in contracts
		serr("call of %s in contract", fn.Op)
	}
	ev := func(i int) (string, types.Type) { return x.spec(args[i], env) }
	switch fn.Val {
	case "buf": // the text of a bytes.Buffer
		v, _ := x.spec(args[0], env)
		return "(select " + x.h(env.st, x.compBuf()) + " " + v + ")", tString
	case "len":
		v, t := ev(0)
		if g, ok := t.(*ghostType); ok {
			return "(" + x.so.cardFn(x.so.sort(g.elem)) + " " + v + ")", tInt
		}
		return x.lenOf(env.st, v, t, "len"), tInt
	case "cap":
		v, _ := ev(0)
		return "(s-cap " + v + ")", tInt
	case "old":
		if env.old == nil {
			serr("old() without entry state")
		}
		e2 := env.with(env.old)
		if e2.gst == nil {
			e2.gst = env.st
		}
		if env.li != nil {
			// inside a loop, parameters inside old() are the entry values
			for k, b := range x.entryNames(env) {
				e2 = e2.bind(k, b)
			}
		}
		return x.spec(args[0], e2)
	case "same": // the named parts of the heap are those of the entry
		if env.old == nil {
			serr("same() without entry state")
		}
		m := x.modSet(args, env, env.st, "same")
		var cs []string
		for c := range m.ent {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		var eq []string
		for _, c := range cs {
			if !m.ent[c].all {
				serr("same() takes anyfield, anyelems and anymap")
			}
			eq = append(eq, "(= "+x.h(env.st, c)+" "+x.h(env.old, c)+")")
		}
		return and(eq...), tBool
	case "before":
		if env.before == nil {
			serr("before() outside a loop")
		}
		return x.spec(args[0], x.rebind(env, env.before))
	case "start": // the state at the start of the iteration (end clauses)
		if env.li == nil || env.li.head == nil {
			serr("start() outside an end clause")
		}
		return x.spec(args[0], x.rebind(env, env.li.head))
	case "ite":
		c, _ := ev(0)
		a, at := ev(1)
		b, bt := ev(2)
		if isNilT(at) {
			a, at = x.coerce(a, at, bt), bt
		} else if isNilT(bt) {
			b = x.coerce(b, bt, at)
		}
		return "(ite " + c + " " + a + " " + b + ")", at
	case "dom":
		v, t := ev(0)
		u, ok := t.Underlying().(*types.Map)
		if !ok {
			serr("dom of %s", t)
		}
		return "(select " + x.h(env.st, x.compMD(u)) + " " + v + ")", &ghostType{kind: "set", elem: u.Key()}
	case "val": // the struct a pointer points to
		v, t := ev(0)
		el := deref(t)
		u, ok := el.Underlying().(*types.Struct)
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr && !ok {
			return "(select " + x.h(env.st, x.compP(el)) + " " + v + ")", el
		}
		if !ok || u.NumFields() == 0 {
			serr("val of %s", t)
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, "(select "+x.h(env.st, x.compF(el, u.Field(i)))+" "+v+")")
		}
		return "(" + mkName(x.so.sort(el)) + " " + strings.Join(fs, " ") + ")", el
	case "mk": // mk(T, fields...): a struct value
		tn := args[0].Val
		if args[0].Op != "id" {
			tn = args[0].Args[0].Val + "." + tn
		}
		t := x.parseType(tn, env.pkg)
		u, ok := t.Underlying().(*types.Struct)
		if !ok || u.NumFields() != len(args)-1 {
			serr("mk of %s", t)
		}
		var fs []string
		for i := 1; i < len(args); i++ {
			v, vt := ev(i)
			fs = append(fs, x.coerce(v, vt, u.Field(i-1).Type()))
		}
		return "(" + mkName(x.so.sort(t)) + " " + strings.Join(fs, " ") + ")", t
	case "card":
		v, t := ev(0)
		g := t.(*ghostType)
		return "(" + x.so.cardFn(x.so.sort(g.elem)) + " " + v + ")", tInt
	case "fresh":
		v, t := ev(0)
		r := v
		if _, ok := t.Underlying().(*types.Slice); ok {
			r = "(s-arr " + v + ")"
		}
		return "(and (> " + r + " " + env.old.alloc + ") (<= " + r + " " + env.st.alloc + "))", tBool
	case "newer": // allocated since the loop was entered
		if env.before == nil {
			serr("newer() outside a loop")
		}
		v, t := ev(0)
		r := v
		if _, ok := t.Underlying().(*types.Slice); ok {
			r = "(s-arr " + v + ")"
		}
		return "(and (> " + r + " " + env.before.alloc + ") (<= " + r + " " + env.st.alloc + "))", tBool
	case "isalloc":
		v, t := ev(0)
		r := v
		if _, ok := t.Underlying().(*types.Slice); ok {
			r = "(s-arr " + v + ")"
		}
		return "(and (< 0 " + r + ") (<= " + r + " " + env.st.alloc + "))", tBool
	case "arr":
		v, _ := ev(0)
		return "(s-arr " + v + ")", tInt
	case "ref":
		v, _ := ev(0)
		return v, tInt
	case "off":
		v, _ := ev(0)
		return "(s-off " + v + ")", tInt
	case "row":
		v, t := ev(0)
		el := t.Underlying().(*types.Slice).Elem()
		return "(select " + x.h(env.st, x.compE(el)) + " (s-arr " + v + "))", &ghostType{kind: "arr", elem: el}
	case "at":
		r, rt := ev(0)
		o, _ := ev(1)
		i, _ := ev(2)
		el := rt.(*ghostType).elem
		return "(" + x.so.atFn(x.so.sort(el)) + " " + r + " " + o + " " + i + ")", el
	case "add":
		s, t := ev(0)
		v, vt := ev(1)
		g := t.(*ghostType)
		return "(store " + s + " " + x.coerce(v, vt, g.elem) + " true)", t
	case "remove":
		s, t := ev(0)
		v, vt := ev(1)
		g := t.(*ghostType)
		return "(store " + s + " " + x.coerce(v, vt, g.elem) + " false)", t
	case "upd":
		s, t := ev(0)
		i, _ := ev(1)
		v, vt := ev(2)
		g := t.(*ghostType)
		return "(store " + s + " " + i + " " + x.coerce(v, vt, g.elem) + ")", t
	case "subset":
		a, t := ev(0)
		b, _ := ev(1)
		g := t.(*ghostType)
		x.cnt++
		k := fmt.Sprintf("|k_%d|", x.cnt)
		return fmt.Sprintf("(forall ((%s %s)) (! (=> (select %s %s) (select %s %s)) :pattern ((select %s %s))))", k, x.so.sort(g.elem), a, k, b, k, a, k), tBool
	case "rlen":
		v, _ := ev(0)
		return "(rlen " + v + ")", tInt
	case "rat":
		v, _ := ev(0)
		i, _ := ev(1)
		return "(rat " + v + " " + i + ")", tInt
	case "str_of_runes":
		r, _ := ev(0)
		o, _ := ev(1)
		l, _ := ev(2)
		return "(str_of_runes " + r + " " + o + " " + l + ")", tString
	case "runestr": // string(s) for s []rune
		v, t := ev(0)
		el := t.Underlying().(*types.Slice).Elem()
		return "(str_of_runes (select " + x.h(env.st, x.compE(el)) + " (s-arr " + v + ")) (s-off " + v + ") (s-len " + v + "))", tString
	case "strofrune":
		x.so.declFun("str_of_rune", "(declare-fun str_of_rune (Int) Str)")
		v, _ := ev(0)
		return "(str_of_rune " + v + ")", tString
	case "sub":
		v, _ := ev(0)
		a, _ := ev(1)
		b, _ := ev(2)
		return "(str_sub " + v + " " + a + " " + b + ")", tString
	case "ext": // ext("pkg.f", args...): the pure function used for an external call
		key := args[0].Val
		var as, ss []string
		for _, a := range args[1:] {
			v, t := x.spec(a, env)
			as = append(as, v)
			ss = append(ss, x.so.sort(t))
		}
		rt := x.externResult(key)
		nm := q(fmt.Sprintf("ext!%s!0", key))
		x.so.declFun(nm, "(declare-fun "+nm+" ("+strings.Join(ss, " ")+") "+x.so.sort(rt)+")")
		if len(as) == 0 {
			return nm, rt
		}
		return "(" + nm + " " + strings.Join(as, " ") + ")", rt
	case "apply": // apply(f, args...): the pure function used for an opaque function value
		f, ft := ev(0)
		sig := ft.Underlying().(*types.Signature)
		var as, ss []string
		for i := 1; i < len(args); i++ {
			v, _ := ev(i)
			as = append(as, v)
			ss = append(ss, x.so.sort(sig.Params().At(i-1).Type()))
		}
		rt := sig.Results().At(0).Type()
		nm := q(fmt.Sprintf("apply0!%s", tname(sig)))
		x.so.declFun(nm, "(declare-fun "+nm+" (Int "+strings.Join(ss, " ")+") "+x.so.sort(rt)+")")
		return "(" + nm + " " + f + " " + strings.Join(as, " ") + ")", rt
	case "sprintf": // sprintf("format", args...)
		name := "fmt.Sprintf!" + fmt.Sprintf("%x", constant.MakeString(args[0].Val).ExactString())
		var as, ss []string
		for _, a := range args[1:] {
			v, t := x.spec(a, env)
			as = append(as, v)
			ss = append(ss, x.so.sort(t))
		}
		nm := q(name + "!" + strings.Join(ss, "!"))
		x.so.declSprintf(nm, args[0].Val, ss)
		if len(as) == 0 {
			return nm, tString
		}
		return "(" + nm + " " + strings.Join(as, " ") + ")", tString
	}
	if sf, ok := x.Sp.Funcs[fn.Val]; ok {
		return x.specApply(sf, args, env)
	}
	serr("unknown contract function %s", fn.Val)
	return "", nil
}

func (x *Exec) externResult(key string) types.Type {
	i := strings.LastIndex(key, ".")
	p, err := x.L.std.Import(key[:i])
	if err != nil {
		serr("ext: %v", err)
	}
	o := p.Scope().Lookup(key[i+1:])
	return o.Type().(*types.Signature).Results().At(0).Type()
}

func (x *Exec) specApply(sf *SpecFunc, args []*SNode, env *Env) (string, types.Type) {
	if len(args) != len(sf.Params) {
		serr("%s: wrong number of arguments", sf.Name)
	}
	pkg := x.L.pkgs[sf.Pkg]
	if pkg == nil {
		pkg = env.pkg
	}
	if sf.Macro {
		x.specDepth++
		if x.specDepth > 40 {
			serr("recursive define %s", sf.Name)
		}
		defer func() { x.specDepth-- }()
		e2 := &Env{x: x, st: env.st, old: env.old, before: env.before, names: map[string]binding{}, pkg: pkg}
		for i, a := range args {
			t, ty := x.spec(a, env)
			pt := x.parseType(sf.Params[i].Type, pkg)
			t = x.coerce(t, ty, pt)
			e2.names[sf.Params[i].Name] = binding{t, pt}
		}
		t, ty := x.spec(sf.Body, e2)
		rt := x.parseType(sf.Result, pkg)
		if isNilT(ty) {
			t = x.coerce(t, ty, rt)
		}
		return t, rt
	}
	nm := x.declSpec(sf, pkg)
	if top := x.recTop(); top != "" && x.Sp.Framed[top] && !x.Sp.Framed[sf.Name] && len(x.recComps[sf.Name]) > 0 {
		serr("%s is framed and uses %s, which is not", top, sf.Name)
	}
	var as []string
	for i, a := range args {
		t, ty := x.spec(a, env)
		as = append(as, x.coerce(t, ty, x.parseType(sf.Params[i].Type, pkg)))
	}
	rt := x.parseType(sf.Result, pkg)
	for _, c := range x.recComps[sf.Name] {
		as = append(as, x.h(env.st, c))
	}
	if x.Sp.Framed[sf.Name] && !x.recBusy[sf.Name] {
		x.frameFact(sf, nm, env.st)
	}
	if len(as) == 0 {
		return nm, rt
	}
	return "(" + nm + " " + strings.Join(as, " ") + ")", rt
}

func (x *Exec) recTop() string {
	if len(x.recStack) == 0 {
		return ""
	}
	return x.recStack[len(x.recStack)-1]
}

const recFuel = 2

// declSpec declares an uninterpreted or recursive contract function with its definition axioms.
func (x *Exec) declSpec(sf *SpecFunc, pkg *Pkg) string {
	nm := q("spec:" + sf.Name)
	if x.recUsed[sf.Name] {
		if x.recBusy[sf.Name] && x.recTop() != sf.Name {
			serr("mutually recursive contract functions: %s", sf.Name)
		}
		return nm
	}
	x.recStack = append(x.recStack, sf.Name)
	defer func() { x.recStack = x.recStack[:len(x.recStack)-1] }()
	x.recUsed[sf.Name] = true
	x.recBusy[sf.Name] = true
	var ss, ds, vs []string
	env := &Env{x: x, names: map[string]binding{}, pkg: pkg}
	for _, p := range sf.Params {
		t := x.parseType(p.Type, pkg)
		ss = append(ss, x.so.sort(t))
		v := "|a_" + p.Name + "|"
		ds = append(ds, "("+v+" "+x.so.sort(t)+")")
		vs = append(vs, v)
		env.names[p.Name] = binding{v, t}
	}
	rt := x.parseType(sf.Result, pkg)
	if sf.Body == nil {
		// an uninterpreted function reads the heap it says it reads
		ps := x.pseudoState(func(c string) string { return "|h_" + c + "|" })
		env.st = ps
		for _, r := range sf.Reads {
			x.spec(r, env)
		}
		x.recComps[sf.Name] = ps.hp.order
		for _, c := range ps.hp.order {
			ss = append(ss, x.compSort[c])
		}
		x.so.declFun(nm, "(declare-fun "+nm+" ("+strings.Join(ss, " ")+") "+x.so.sort(rt)+")")
		delete(x.recBusy, sf.Name)
		return nm
	}
	// the heap components read are further parameters: evaluated until their set is stable
	var body string
	for {
		n := len(x.recComps[sf.Name])
		ps := x.pseudoState(func(c string) string { return "|h_" + c + "|" })
		for _, c := range x.recComps[sf.Name] {
			x.h(ps, c)
		}
		env.st = ps
		b, bt := x.spec(sf.Body, env)
		body = x.coerce(b, bt, rt)
		x.recComps[sf.Name] = ps.hp.order
		if len(ps.hp.order) == n {
			break
		}
	}
	for _, c := range x.recComps[sf.Name] {
		ss = append(ss, x.compSort[c])
		ds = append(ds, "(|h_"+c+"| "+x.compSort[c]+")")
		vs = append(vs, "|h_"+c+"|")
	}
	delete(x.recBusy, sf.Name)
	decl := "(" + strings.Join(ss, " ") + ") " + x.so.sort(rt) + ")"
	x.so.declFun(nm, "(declare-fun "+nm+" "+decl)
	if sf.Opaque {
		if x.reveal[sf.Name] {
			ap := "(" + nm + " " + strings.Join(vs, " ") + ")"
			if len(vs) == 0 {
				ap = nm
			}
			ax := fmt.Sprintf("(assert (= %s %s))", ap, body)
			if len(vs) > 0 {
				ax = fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(ds, " "), ap, body, ap)
			}
			x.so.axioms = append(x.so.axioms, natAxiom{[]string{nm}, ax})
		}
		return nm
	}
	// unfolded at most recFuel times from a term of the query
	cur := nm
	for k := 1; k <= recFuel; k++ {
		lim := q(fmt.Sprintf("lim%d:%s", k, sf.Name))
		x.so.declFun(lim, "(declare-fun "+lim+" "+decl)
		b := strings.ReplaceAll(body, nm, lim)
		ap := "(" + cur + " " + strings.Join(vs, " ") + ")"
		x.so.axioms = append(x.so.axioms,
			natAxiom{[]string{cur}, fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(ds, " "), ap, b, ap)},
			natAxiom{[]string{cur}, fmt.Sprintf("(assert (forall (%s) (! (= %s (%s %s)) :pattern (%s))))", strings.Join(ds, " "), ap, lim, strings.Join(vs, " "), ap)})
		cur = lim
	}
	return nm
}

// ---------- environments ----------

func (x *Exec) entryEnv() *Env {
	return &Env{x: x, st: x.entry, old: x.entry, names: x.paramEnv, pkg: x.pkgByPath(x.con.Pkg)}
}

func (x *Exec) entryNames(env *Env) map[string]binding {
	if env.fr != nil && env.fr.depth == 0 {
		return x.paramEnv
	}
	return nil
}

// loopEnv: names visible in a loop invariant.
func (x *Exec) loopEnv(st *State, li *loopInfo) *Env {
	env := &Env{x: x, st: st, old: x.entry, before: li.before, names: map[string]binding{}, pkg: x.fr.pkg, li: li, fr: x.fr}
	if x.fr.con != nil && len(x.fr.con.Params) > 0 {
		for i, o := range x.paramObjs(x.fr) {
			if o == nil || i >= len(x.fr.con.Params) {
				continue
			}
			if v, ok := st.vars[o]; ok {
				env.names[x.fr.con.Params[i]] = binding{v, o.Type()}
			}
		}
	}
	if x.fr.con != nil {
		for i, o := range x.fr.results {
			if i < len(x.fr.con.Results) {
				if v, ok := st.vars[o]; ok {
					env.names[x.fr.con.Results[i]] = binding{v, o.Type()}
				}
			}
		}
	}
	return env
}

// rebind evaluates the parameters and results of the function in another state of it.
func (x *Exec) rebind(env *Env, st *State) *Env {
	n := env.with(st)
	fr := env.fr
	if fr == nil || fr.con == nil {
		return n
	}
	set := func(names []string, objs []types.Object) {
		for i, o := range objs {
			if o == nil || i >= len(names) {
				continue
			}
			cur, ok := env.st.vars[o]
			if b, has := n.names[names[i]]; !ok || !has || b.term != cur {
				continue
			}
			if v, ok := st.vars[o]; ok && v != cur {
				n = n.bind(names[i], binding{v, o.Type()})
			}
		}
	}
	set(fr.con.Params, x.paramObjs(fr))
	set(fr.con.Results, fr.results)
	return n
}

func (m *ModSet) heapAt(x *Exec, c string) string { return x.h(m.st, c) }

// modSet evaluates a modifies list.
func (x *Exec) modSet(ns []*SNode, env *Env, st *State, what string) *ModSet {
	m := &ModSet{ent: map[string]*modEntry{}, base: st.alloc, what: what, st: st}
	ref := func(c, r string) {
		e := m.ent[c]
		if e == nil {
			e = &modEntry{}
			m.ent[c] = e
		}
		if r == "*" {
			e.all = true
		} else {
			e.refs = append(e.refs, r)
		}
	}
	e := env.with(st)
	for _, n := range ns {
		switch {
		case n.Op == "sel":
			b, bt := x.spec(n.Args[0], e)
			if n.Val == "*" {
				el := deref(bt)
				u := el.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					ref(x.compF(el, u.Field(i)), b)
				}
				continue
			}
			f, path := x.fieldOf(bt, n.Val)
			if f == nil {
				serr("modifies: no field %s in %s", n.Val, bt)
			}
			t := bt
			for k, i := range path {
				el := deref(t)
				fv := el.Underlying().(*types.Struct).Field(i)
				if _, ok := t.Underlying().(*types.Pointer); !ok {
					serr("modifies: field of a value %s", n.Val)
				}
				c := x.compF(el, fv)
				if k == len(path)-1 {
					ref(c, b)
				} else {
					b = "(select " + x.h(st, c) + " " + b + ")"
				}
				t = fv.Type()
			}
		case n.Op == "call" && n.Args[0].Op == "id":
			switch n.Args[0].Val {
			case "elems":
				s, t := x.spec(n.Args[1], e)
				ref(x.compE(t.Underlying().(*types.Slice).Elem()), "(s-arr "+s+")")
			case "mapof":
				s, t := x.spec(n.Args[1], e)
				u := t.Underlying().(*types.Map)
				ref(x.compMD(u), s)
				ref(x.compMV(u), s)
			case "deref":
				s, t := x.spec(n.Args[1], e)
				ref(x.compP(deref(t)), s)
			case "anyfield":
				ty := n.Args[1].Val
				if i := strings.LastIndex(ty, "."); i >= 0 && n.Args[1].Op == "str" {
					fld := ty[i+1:]
					t := x.parseType(ty[:i], env.pkg)
					u := t.Underlying().(*types.Struct)
					for k := 0; k < u.NumFields(); k++ {
						if fld == "*" || u.Field(k).Name() == fld {
							ref(x.compF(t, u.Field(k)), "*")
						}
					}
				}
			case "anyelems":
				ref(x.compE(x.parseType(n.Args[1].Val, env.pkg)), "*")
			case "anymap":
				u := x.parseType(n.Args[1].Val, env.pkg).Underlying().(*types.Map)
				ref(x.compMD(u), "*")
				ref(x.compMV(u), "*")
			default:
				serr("modifies item %s", n.Args[0].Val)
			}
		case n.Op == "id":
			var o types.Object
			if env.pkg != nil {
				o = env.pkg.Types.Scope().Lookup(n.Val)
			}
			if o == nil {
				serr("modifies: unknown global %s", n.Val)
			}
			ref(x.compG(o), "*")
		default:
			serr("modifies item")
		}
	}
	return m
}

// plainStruct says that the fields of u are numbers, strings and truth values.
func plainStruct(u *types.Struct) bool {
	for i := 0; i < u.NumFields(); i++ {
		switch f := u.Field(i).Type().Underlying().(type) {
		case *types.Basic:
		case *types.Struct:
			if !plainStruct(f) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// noPeek refuses a body of a framed function that looks into the parts of a quantified
// structure that may lead into the heap: they may not be allocated yet.
func (x *Exec) noPeek(t, v string) {
	if !strings.HasPrefix(t, "(") || !strings.Contains(t, v) {
		return
	}
	es := sexprs(t)
	if len(es) == 2 && es[1] == v {
		for _, si := range x.so.structs {
			for i, f := range si.fields {
				if es[0] != selName(si.name, f) {
					continue
				}
				if _, ok := si.ftypes[i].Underlying().(*types.Basic); !ok {
					serr("%s is framed and looks into a structure it quantifies over", x.recTop())
				}
			}
		}
		return
	}
	for f, cs := range x.recComps {
		if len(cs) > 0 && len(es) > 0 && es[0] == q("spec:"+f) {
			for _, e := range es[1:] {
				if e == v || strings.HasPrefix(e, "(|mk:") && strings.Contains(e, v) {
					serr("%s is framed and hands a structure it quantifies over to %s", x.recTop(), f)
				}
			}
		}
	}
	for _, e := range es {
		x.noPeek(e, v)
	}
}
