package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

const (
	oNormal = iota
	oBreak
	oContinue
	oReturn
	oFall
)

type Out struct {
	st    *State
	kind  int
	label string
	ret   []string
}

func normal(st *State) []Out { return []Out{{st: st}} }

func (x *Exec) execBlock(st *State, list []ast.Stmt) []Out {
	cur := []*State{st}
	var done []Out
	for _, s := range list {
		var nx []*State
		for _, c := range cur {
			for _, o := range x.exec(c, s, "") {
				if o.kind == oNormal {
					nx = append(nx, o.st)
				} else {
					done = append(done, o)
				}
			}
		}
		if len(nx) > 1 {
			nx = x.join(nx)
		}
		cur = nx
		if len(cur) == 0 {
			break
		}
	}
	for _, c := range cur {
		done = append(done, Out{st: c})
	}
	return done
}

func (x *Exec) exec(st *State, s ast.Stmt, label string) []Out {
	x.steps++
	if x.steps > 60000 {
		x.unsupp(s, "too many symbolic paths")
	}
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return normal(st)
	case *ast.BlockStmt:
		return x.execBlock(st, s.List)
	case *ast.LabeledStmt:
		return x.exec(st, s.Stmt, s.Label.Name)
	case *ast.ExprStmt:
		var out []Out
		for _, r := range x.eval(st, s.X) {
			out = append(out, Out{st: r.st})
		}
		return out
	case *ast.DeclStmt:
		return x.execDecl(st, s.Decl.(*ast.GenDecl))
	case *ast.AssignStmt:
		return x.execAssign(st, s)
	case *ast.IncDecStmt:
		var out []Out
		for _, r := range x.eval(st, s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			for _, z := range x.assign(r.st, s.X, x.arith(r.st, op, r.v[0], "1", x.typeOf(s.X), s), s) {
				out = append(out, Out{st: z})
			}
		}
		return out
	case *ast.ReturnStmt:
		return x.execReturn(st, s)
	case *ast.IfStmt:
		return x.execIf(st, s)
	case *ast.ForStmt:
		return x.execFor(st, s, label)
	case *ast.RangeStmt:
		return x.execRange(st, s, label)
	case *ast.SwitchStmt:
		return x.execSwitch(st, s, label)
	case *ast.TypeSwitchStmt:
		return x.execTypeSwitch(st, s, label)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return []Out{{st: st, kind: oBreak, label: l}}
		case token.CONTINUE:
			return []Out{{st: st, kind: oContinue, label: l}}
		case token.FALLTHROUGH:
			return []Out{{st: st, kind: oFall}}
		}
	case *ast.DeferStmt:
		x.fr.defers = append(x.fr.defers, s.Call)
		return normal(st)
	}
	x.unsupp(s, "statement %T", s)
	return nil
}

func (x *Exec) execDecl(st *State, d *ast.GenDecl) []Out {
	if d.Tok != token.VAR {
		return normal(st)
	}
	cur := []*State{st}
	for _, sp := range d.Specs {
		vs := sp.(*ast.ValueSpec)
		var nx []*State
		for _, c := range cur {
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					o := x.fr.info.Defs[n]
					if o != nil {
						c.vars[o] = x.zero(o.Type())
					}
				}
				nx = append(nx, c)
				continue
			}
			var lhs []ast.Expr
			for _, n := range vs.Names {
				lhs = append(lhs, n)
			}
			for _, o := range x.assignAll(c, lhs, vs.Values, d) {
				nx = append(nx, o.st)
			}
		}
		cur = nx
	}
	var out []Out
	for _, c := range cur {
		out = append(out, Out{st: c})
	}
	return out
}

func (x *Exec) lhsType(e ast.Expr) types.Type {
	if id, ok := e.(*ast.Ident); ok {
		if id.Name == "_" {
			return nil
		}
		if o := x.obj(id); o != nil {
			return o.Type()
		}
	}
	return x.typeOf(e)
}

func (x *Exec) assignAll(st *State, lhs, rhs []ast.Expr, n ast.Node) []Out {
	var out []Out
	if len(rhs) == 1 && len(lhs) > 1 {
		for _, r := range x.eval(st, rhs[0]) {
			cur := []*State{r.st}
			tup, _ := x.typeOf(rhs[0]).(*types.Tuple)
			for i, l := range lhs {
				v := r.v[i]
				if tup != nil {
					if lt := x.lhsType(l); lt != nil {
						v = x.convert(v, tup.At(i).Type(), lt)
					}
				}
				var nx []*State
				for _, c := range cur {
					nx = append(nx, x.assign(c, l, v, n)...)
				}
				cur = nx
			}
			for _, c := range cur {
				out = append(out, Out{st: c})
			}
		}
		return out
	}
	var rec func(st *State, i int, acc []string) []Res
	rec = func(st *State, i int, acc []string) []Res {
		if i == len(rhs) {
			return []Res{{st, append([]string{}, acc...)}}
		}
		var o []Res
		for _, r := range x.evalTo(st, rhs[i], x.lhsType(lhs[i])) {
			v := r.v[0]
			o = append(o, rec(r.st, i+1, append(append([]string{}, acc...), v))...)
		}
		return o
	}
	for _, r := range rec(st, 0, nil) {
		cur := []*State{r.st}
		for i, l := range lhs {
			var nx []*State
			for _, c := range cur {
				nx = append(nx, x.assign(c, l, r.v[i], n)...)
			}
			cur = nx
		}
		for _, c := range cur {
			out = append(out, Out{st: c})
		}
	}
	return out
}

var opAssign = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}

func (x *Exec) execAssign(st *State, s *ast.AssignStmt) []Out {
	if s.Tok == token.ASSIGN || s.Tok == token.DEFINE {
		return x.assignAll(st, s.Lhs, s.Rhs, s)
	}
	op, ok := opAssign[s.Tok]
	if !ok {
		x.unsupp(s, "assignment %s", s.Tok)
	}
	var out []Out
	for _, r := range x.evalMany(st, []ast.Expr{s.Lhs[0], s.Rhs[0]}, func(st *State, vs []string) []Res { return []Res{{st, vs}} }) {
		v := x.arith(r.st, op, r.v[0], r.v[1], x.typeOf(s.Lhs[0]), s)
		for _, z := range x.assign(r.st, s.Lhs[0], v, s) {
			out = append(out, Out{st: z})
		}
	}
	return out
}

func (x *Exec) execReturn(st *State, s *ast.ReturnStmt) []Out {
	sig := x.fr.sig
	if len(s.Results) == 0 {
		var vs []string
		for _, o := range x.fr.results {
			vs = append(vs, st.vars[o])
		}
		return []Out{{st: st, kind: oReturn, ret: vs}}
	}
	var out []Out
	if len(s.Results) == 1 && sig.Results().Len() > 1 {
		tup := x.typeOf(s.Results[0]).(*types.Tuple)
		for _, r := range x.eval(st, s.Results[0]) {
			vs := make([]string, len(r.v))
			for i := range r.v {
				vs[i] = x.convert(r.v[i], tup.At(i).Type(), sig.Results().At(i).Type())
			}
			out = append(out, Out{st: r.st, kind: oReturn, ret: vs})
		}
		return out
	}
	var rec func(st *State, i int, acc []string)
	rec = func(st *State, i int, acc []string) {
		if i == len(s.Results) {
			out = append(out, Out{st: st, kind: oReturn, ret: append([]string{}, acc...)})
			return
		}
		for _, r := range x.evalTo(st, s.Results[i], sig.Results().At(i).Type()) {
			v := x.name(r.st, "ret", r.v[0], sig.Results().At(i).Type())
			rec(r.st, i+1, append(append([]string{}, acc...), v))
		}
	}
	rec(st, 0, nil)
	return out
}

func (x *Exec) feasible(c string) bool { return c != "false" }

func (x *Exec) execIf(st *State, s *ast.IfStmt) []Out {
	pre := []*State{st}
	var out []Out
	if s.Init != nil {
		pre = nil
		for _, o := range x.exec(st, s.Init, "") {
			pre = append(pre, o.st)
		}
	}
	for _, p := range pre {
		for _, r := range x.eval(p, s.Cond) {
			c := x.name(r.st, "c", r.v[0], types.Typ[types.Bool])
			if x.feasible(c) {
				t := r.st.clone()
				t.branch(c)
				out = append(out, x.execBlock(t, s.Body.List)...)
			}
			if x.feasible(not(c)) {
				f := r.st.clone()
				f.branch(not(c))
				if s.Else != nil {
					out = append(out, x.exec(f, s.Else, "")...)
				} else {
					out = append(out, Out{st: f})
				}
			}
		}
	}
	return out
}

func (x *Exec) execSwitch(st *State, s *ast.SwitchStmt, label string) []Out {
	pre := []*State{st}
	if s.Init != nil {
		pre = nil
		for _, o := range x.exec(st, s.Init, "") {
			pre = append(pre, o.st)
		}
	}
	var out []Out
	for _, p := range pre {
		tags := []Res{{p, []string{"true"}}}
		if s.Tag != nil {
			tags = x.eval(p, s.Tag)
		}
		for _, tg := range tags {
			out = append(out, x.switchClauses(tg.st, s, tg.v[0], label)...)
		}
	}
	return out
}

func (x *Exec) switchClauses(st *State, s *ast.SwitchStmt, tag string, label string) []Out {
	var out []Out
	clauses := s.Body.List
	var deflt = -1
	rest := []*State{st}
	run := func(st *State, i int) {
		cur := []*State{st}
		for i < len(clauses) && len(cur) > 0 {
			var nx []*State
			for _, c := range cur {
				for _, o := range x.execBlock(c, clauses[i].(*ast.CaseClause).Body) {
					switch {
					case o.kind == oFall:
						nx = append(nx, o.st)
					case o.kind == oBreak && (o.label == "" || o.label == label):
						out = append(out, Out{st: o.st})
					default:
						out = append(out, o)
					}
				}
			}
			cur = nx
			i++
		}
	}
	for i, cl := range clauses {
		cc := cl.(*ast.CaseClause)
		if cc.List == nil {
			deflt = i
			continue
		}
		var nextRest []*State
		for _, r := range rest {
			cur := []*State{r}
			var conds []string
			// evaluate the alternatives; they are side-effect free in practice
			st2 := r
			ok := true
			for _, ce := range cc.List {
				rs := x.eval(st2, ce)
				if len(rs) != 1 {
					ok = false
					break
				}
				st2 = rs[0].st
				v := rs[0].v[0]
				if s.Tag != nil {
					tt, ct := x.typeOf(s.Tag), x.typeOf(ce)
					if _, isI := tt.Underlying().(*types.Interface); isI {
						v = x.convert(v, ct, tt)
					}
					if isNilT(ct) {
						v = x.zero(tt)
					}
					if _, isS := tt.Underlying().(*types.Slice); isS {
						v = "(= (s-arr " + tag + ") 0)"
					} else {
						v = "(= " + tag + " " + v + ")"
					}
				}
				conds = append(conds, v)
			}
			_ = cur
			if !ok {
				x.unsupp(cc, "branching case expression")
			}
			c := x.name(st2, "case", or(conds...), types.Typ[types.Bool])
			t := st2.clone()
			t.branch(c)
			if x.feasible(c) {
				run(t, i)
			}
			f := st2.clone()
			f.branch(not(c))
			if x.feasible(not(c)) {
				nextRest = append(nextRest, f)
			}
		}
		rest = nextRest
	}
	for _, r := range rest {
		if deflt >= 0 {
			run(r, deflt)
		} else {
			out = append(out, Out{st: r})
		}
	}
	return out
}

func (x *Exec) execTypeSwitch(st *State, s *ast.TypeSwitchStmt, label string) []Out {
	pre := []*State{st}
	if s.Init != nil {
		pre = nil
		for _, o := range x.exec(st, s.Init, "") {
			pre = append(pre, o.st)
		}
	}
	var ex ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		ex = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		ex = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	var out []Out
	emit := func(os []Out) {
		for _, o := range os {
			if o.kind == oBreak && (o.label == "" || o.label == label) {
				out = append(out, Out{st: o.st})
			} else {
				out = append(out, o)
			}
		}
	}
	for _, p := range pre {
		for _, r := range x.eval(p, ex) {
			v := r.v[0]
			rest := r.st
			var deflt *ast.CaseClause
			for _, cl := range s.Body.List {
				cc := cl.(*ast.CaseClause)
				if cc.List == nil {
					deflt = cc
					continue
				}
				var conds []string
				val := v
				for _, te := range cc.List {
					if id, ok := te.(*ast.Ident); ok && id.Name == "nil" {
						conds = append(conds, "((_ is I-nil) "+v+")")
						continue
					}
					is, vv := x.assertType(v, x.typeOf(te))
					conds = append(conds, is)
					if len(cc.List) == 1 {
						val = vv
					}
				}
				c := or(conds...)
				t := rest.clone()
				t.branch(c)
				if o := x.fr.info.Implicits[cc]; o != nil {
					t.vars[o] = x.nameAlways(t, o.Name(), val, o.Type())
					x.wf(t, t.vars[o], o.Type())
				}
				emit(x.execBlock(t, cc.Body))
				rest = rest.clone()
				rest.branch(not(c))
			}
			if deflt != nil {
				if o := x.fr.info.Implicits[deflt]; o != nil {
					rest.vars[o] = v
				}
				emit(x.execBlock(rest, deflt.Body))
			} else {
				out = append(out, Out{st: rest})
			}
		}
	}
	return out
}

// ---------- loops ----------

// assignedVars collects the local variables a node assigns.
func (x *Exec) assignedVars(n ast.Node, into map[types.Object]bool) {
	mark := func(e ast.Expr) {
		e = unparen(e)
		for {
			switch y := e.(type) {
			case *ast.Ident:
				if o := x.obj(y); o != nil {
					into[o] = true
				}
				return
			case *ast.SelectorExpr:
				if x.fr.info.Selections[y] == nil {
					return
				}
				if _, isP := x.typeOf(y.X).Underlying().(*types.Pointer); isP {
					return
				}
				e = unparen(y.X)
			case *ast.IndexExpr:
				if _, isA := x.typeOf(y.X).Underlying().(*types.Array); !isA {
					return
				}
				e = unparen(y.X)
			default:
				return
			}
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch s := m.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(s.X)
		case *ast.RangeStmt:
			if s.Key != nil {
				mark(s.Key)
			}
			if s.Value != nil {
				mark(s.Value)
			}
		case *ast.ValueSpec:
			for _, nm := range s.Names {
				mark(nm)
			}
		case *ast.CallExpr:
			// a local closure may assign captured variables
			if id, ok := unparen(s.Fun).(*ast.Ident); ok {
				if o, ok := x.obj(id).(*types.Var); ok {
					for _, c := range x.closures {
						if types.Identical(x.fr.info.TypeOf(c.lit), o.Type()) {
							if !x.specBusy(c.lit) {
								x.assignedVars2(c, into)
							}
						}
					}
				}
			}
		}
		return true
	})
}

var busyLits = map[*ast.FuncLit]bool{}

func (x *Exec) specBusy(l *ast.FuncLit) bool { return busyLits[l] }
func (x *Exec) assignedVars2(c *Closure, into map[types.Object]bool) {
	busyLits[c.lit] = true
	defer delete(busyLits, c.lit)
	save := x.fr
	x.fr = c.fr
	x.assignedVars(c.lit.Body, into)
	x.fr = save
}

type loopInfo struct {
	node   ast.Node
	spec   *LoopSpec
	ord    int
	before *State
	head   *State // start of the iteration
	label  string
	ghosts map[string]binding
	assign map[types.Object]bool
	comps  []string
	hasFP  map[string]bool
}

func (x *Exec) loopSpec(n ast.Node) (*LoopSpec, int) {
	ord := x.fr.loops[n]
	if x.fr.con != nil {
		if ls, ok := x.fr.con.Loops[ord]; ok {
			return ls, ord
		}
	}
	return nil, ord
}

func (x *Exec) clauseLabel(c *Clause, i int) string {
	if c.Label != "" {
		return c.Label
	}
	return fmt.Sprint(i + 1)
}

// checkInv asserts the loop invariants in st.
func (x *Exec) checkInv(st *State, li *loopInfo, phase string, cands []*candInv) {
	if li.spec != nil {
		for i, c := range li.spec.Inv {
			s2 := st
			g := x.specAt(s2, li, c.Expr)
			x.oblige(st, "inv-"+phase, fmt.Sprintf("loop%d.%s", li.ord, x.clauseLabel(c, i)), g, li.node, c.Src)
		}
	}
	for _, c := range cands {
		if c.c.dropped {
			continue
		}
		g := c.f(st)
		if g == "true" {
			continue
		}
		o := x.oblige(st, "cand-"+phase, fmt.Sprintf("loop%d.%s", li.ord, c.key), g, li.node, c.key)
		if o != nil {
			o.Cand = c.c
		}
	}
}

// checkEnd asserts the end clauses; a clause whose locals are out of scope on
// this path (a continue before they are declared) is skipped.
func (x *Exec) checkEnd(st *State, li *loopInfo) {
	if li.spec == nil {
		return
	}
	for i, c := range li.spec.End {
		g, ok := x.endAt(st, li, c.Expr)
		if ok {
			x.oblige(st, "end", fmt.Sprintf("loop%d.%s", li.ord, x.clauseLabel(c, i)), g, li.node, c.Src)
		}
	}
}

func (x *Exec) endAt(st *State, li *loopInfo, e *SNode) (g string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			g, ok = "", false
		}
	}()
	x.loopStates = append(x.loopStates, loopCtx{li.before, x.fr, li.node.Pos()})
	defer func() { x.loopStates = x.loopStates[:len(x.loopStates)-1] }()
	env := x.loopEnv(st, li)
	return x.specBool(e, env), true
}

func (x *Exec) assumeInv(st *State, li *loopInfo, cands []*candInv) {
	for _, c := range cands {
		if !c.c.dropped {
			st.assume(c.f(st))
		}
	}
	if li.spec != nil {
		for _, c := range li.spec.Inv {
			st.assume(x.specAt(st, li, c.Expr))
		}
	}
}

func (x *Exec) specAt(st *State, li *loopInfo, e *SNode) string {
	x.loopStates = append(x.loopStates, loopCtx{li.before, x.fr, li.node.Pos()})
	defer func() { x.loopStates = x.loopStates[:len(x.loopStates)-1] }()
	env := x.loopEnv(st, li)
	return x.specBool(e, env)
}

type candInv struct {
	key string
	c   *candidate
	f   func(st *State) string
}

func (x *Exec) cand(key string) *candidate {
	if c, ok := x.cands[key]; ok {
		return c
	}
	c := &candidate{key: key}
	x.cands[key] = c
	return c
}

// havocLoop makes the loop-head state.
func (x *Exec) havocLoop(st *State, li *loopInfo) *State {
	h := st.clone()
	var objs []types.Object
	for o := range li.assign {
		if _, ok := h.vars[o]; ok {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	comps := li.hasFP
	if len(comps) > 0 {
		na := x.fresh("alloc", "Int")
		h.def("(>= " + na + " " + h.alloc + ")")
		h.alloc = na
		for _, c := range sortedKeys(comps) {
			if _, ok := x.compSort[c]; !ok {
				x.registerComp(c)
			}
			old := x.h(st, c)
			h.heap[c] = x.declHeap(c, na)
			x.frameAssume(h, c, h.heap[c], old)
		}
		h.setAnchor()
	}
	for _, o := range objs {
		v := x.freshT(o.Name(), o.Type())
		h.vars[o] = v
		x.wf(h, v, o.Type())
	}
	return h
}

// frameAssume: the per-write checks of every active frame justify these.
func (x *Exec) frameAssume(h *State, c, nw, old string) {
	for _, m := range x.mods {
		if m.any {
			continue
		}
		e := m.ent[c]
		if e != nil && e.all {
			continue
		}
		base := m.heapAt(x, c)
		if x.compKind[c] == "G" {
			h.assume("(= " + nw + " " + base + ")")
			continue
		}
		ex := []string{"(> r " + m.base + ")"}
		if e != nil {
			for _, r := range e.refs {
				ex = append(ex, "(= r "+r+")")
			}
		}
		h.assume(fmt.Sprintf("(forall ((r Int)) (! (or %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", strings.Join(ex, " "), nw, base, nw))
	}
	_ = old
}

func (x *Exec) loopCands(st *State, li *loopInfo) []*candInv {
	var out []*candInv
	pre := fmt.Sprintf("%s.loop%d.%d.", x.fr.fi.Key, li.ord, li.node.Pos())
	if x.fr.depth > 0 {
		pre += fmt.Sprintf("@%d.", x.fr.callPos)
	}
	var objs []types.Object
	for o := range li.assign {
		if _, ok := st.vars[o]; ok {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		o := o
		init := st.vars[o]
		switch o.Type().Underlying().(type) {
		case *types.Slice:
			out = append(out, &candInv{pre + "freshslice." + o.Name(), x.cand(pre + "freshslice." + o.Name()), func(s *State) string {
				a := "(s-arr " + s.vars[o] + ")"
				return "(or (= " + a + " 0) (> " + a + " alloc!0))"
			}})
			_ = init
		}
	}
	return out
}

func (x *Exec) startLoop(st *State, n ast.Node, parts []ast.Node, label string) *loopInfo {
	ls, ord := x.loopSpec(n)
	li := &loopInfo{node: n, spec: ls, ord: ord, before: st.clone(), label: label, ghosts: map[string]binding{}, assign: map[types.Object]bool{}, hasFP: map[string]bool{}}
	for _, p := range parts {
		if p == nil {
			continue
		}
		x.assignedVars(p, li.assign)
		x.fp.node(x.fr.info, p, li.hasFP)
	}
	// closures called from the loop
	for _, c := range x.closures {
		for _, p := range parts {
			if p != nil && callsValueOf(x.fr.info, p, c.lit, c.fr.info) {
				x.fp.node(c.fr.info, c.lit.Body, li.hasFP)
			}
		}
	}
	delete(li.hasFP, "alloc")
	return li
}

func callsValueOf(info *types.Info, n ast.Node, lit *ast.FuncLit, litInfo *types.Info) bool {
	found := false
	lt := litInfo.TypeOf(lit)
	ast.Inspect(n, func(m ast.Node) bool {
		if c, ok := m.(*ast.CallExpr); ok {
			if id, ok := unparen(c.Fun).(*ast.Ident); ok {
				if v, ok := info.Uses[id].(*types.Var); ok && types.Identical(v.Type(), lt) {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func (x *Exec) pushLoopMods(st *State, li *loopInfo) func() {
	if li.spec == nil || !li.spec.HasMod {
		return func() {}
	}
	env := x.loopEnv(st, li)
	ms := x.modSet(li.spec.Modifies, env, st, "loop modifies")
	x.mods = append(x.mods, ms)
	return func() { x.mods = x.mods[:len(x.mods)-1] }
}

// decreases measure
func (x *Exec) measure(st *State, li *loopInfo) string {
	if li.spec == nil || li.spec.Decreases == nil {
		return ""
	}
	x.loopStates = append(x.loopStates, loopCtx{li.before, x.fr, li.node.Pos()})
	defer func() { x.loopStates = x.loopStates[:len(x.loopStates)-1] }()
	t, _ := x.spec(li.spec.Decreases.Expr, x.loopEnv(st, li))
	return x.nameAlways(st, "measure", t, types.Typ[types.Int])
}

// body runs the loop body from head state and closes the iteration.
func (x *Exec) runBody(head *State, li *loopInfo, body []ast.Stmt, post func(*State) []*State, cands []*candInv, autoMeasure func(*State) string) []Out {
	var out []Out
	li.head = head.clone()
	m0 := x.measure(head, li)
	if m0 != "" {
		x.oblige(head, "decreases", fmt.Sprintf("loop%d.bounded", li.ord), "(>= "+m0+" 0)", li.node, "loop measure is bounded below")
	}
	var a0 string
	if m0 == "" && autoMeasure != nil {
		a0 = autoMeasure(head)
	}
	if m0 == "" && a0 == "" && !x.quiet {
		p := x.L.fset.Position(li.node.Pos())
		x.noterm = append(x.noterm, fmt.Sprintf("%s loop %d (%s:%d)", x.fr.fi.Key, li.ord, shortFile(p.Filename), p.Line))
	}
	var ends []*State
	for _, o := range x.execBlock(head, body) {
		switch {
		case o.kind == oNormal, o.kind == oContinue && (o.label == "" || o.label == li.label):
			ends = append(ends, o.st)
		case o.kind == oBreak && (o.label == "" || o.label == li.label):
			out = append(out, Out{st: o.st})
		default:
			out = append(out, o)
		}
	}
	ends = x.join(ends)
	if len(ends) > 0 && !x.quiet {
		cs := make([]*State, len(ends))
		for i, e := range ends {
			cs[i] = e.clone()
		}
		x.obls = append(x.obls, &Obl{Name: fmt.Sprintf("%s#cover-loop[%d.%d]", x.fn.Key, li.ord, len(x.obls)), Kind: "cover", Func: x.fn.Key, PC: x.merge(cs).pc, Goal: "false", Cover: true, Pos: x.L.fset.Position(li.node.Pos()), Src: "the end of the loop body is reachable"})
	}
	for _, e := range ends {
		x.checkEnd(e, li)
		nx := []*State{e}
		if post != nil {
			nx = post(e)
		}
		for _, z := range nx {
			x.checkInv(z, li, "keep", cands)
			if m0 != "" {
				m1 := x.measure(z, li)
				x.oblige(z, "decreases", fmt.Sprintf("loop%d", li.ord), "(< "+m1+" "+m0+")", li.node, "loop measure decreases")
			}
		}
	}
	return out
}

func shortFile(f string) string {
	parts := strings.Split(f, "/")
	if len(parts) > 3 {
		parts = parts[len(parts)-3:]
	}
	return strings.Join(parts, "/")
}

func (x *Exec) execFor(st *State, s *ast.ForStmt, label string) []Out {
	pre := []*State{st}
	if s.Init != nil {
		pre = nil
		for _, o := range x.exec(st, s.Init, "") {
			pre = append(pre, o.st)
		}
	}
	var out []Out
	for _, p := range pre {
		out = append(out, x.forLoop(p, s, label)...)
	}
	return out
}

// counter recognises i in "for i := a; i < b; i++".
func (x *Exec) counter(s *ast.ForStmt) types.Object {
	if inc, ok := s.Post.(*ast.IncDecStmt); ok && inc.Tok == token.INC {
		if id, ok := inc.X.(*ast.Ident); ok {
			return x.obj(id)
		}
	}
	return nil
}

func (x *Exec) forLoop(st *State, s *ast.ForStmt, label string) []Out {
	ls, _ := x.loopSpec(s)
	if ls != nil && ls.Unroll > 0 {
		return x.unroll(st, s, label, ls.Unroll)
	}
	var parts []ast.Node
	if s.Cond != nil {
		parts = append(parts, s.Cond)
	}
	if s.Post != nil {
		parts = append(parts, s.Post)
	}
	parts = append(parts, s.Body)
	li := x.startLoop(st, s, parts, label)
	cnt := x.counter(s)
	if cnt != nil {
		li.ghosts["$i"] = binding{"@" + cnt.Name(), cnt.Type()}
	}
	pop := x.pushLoopMods(st, li)
	defer pop()
	cands := x.loopCands(st, li)
	// counter bounds
	pre := fmt.Sprintf("%s.loop%d.%d.", x.fr.fi.Key, li.ord, li.node.Pos())
	if cnt != nil {
		if init, ok := st.vars[cnt]; ok {
			cands = append(cands, &candInv{pre + "lo", x.cand(pre + "lo"), func(z *State) string {
				if v, ok := z.vars[cnt]; ok {
					return "(<= " + init + " " + v + ")"
				}
				return "true"
			}})
		}
		if be, ok := unparen(s.Cond).(*ast.BinaryExpr); ok && s.Cond != nil && be.Op == token.LSS {
			if id, ok := unparen(be.X).(*ast.Ident); ok && x.obj(id) == cnt && x.pureBound(be.Y) {
				init := st.vars[cnt]
				cands = append(cands, &candInv{pre + "hi", x.cand(pre + "hi"), func(z *State) string {
					q := z.clone()
					rs := x.quietEval(q, be.Y)
					if rs == "" {
						return "true"
					}
					return "(or (<= " + z.vars[cnt] + " " + rs + ") (= " + z.vars[cnt] + " " + init + "))"
				}})
			}
		}
	}
	x.checkInv(st, li, "init", cands)
	head := x.havocLoop(st, li)
	x.assumeInv(head, li, cands)
	var out []Out
	conds := []Res{{head, []string{"true"}}}
	if s.Cond != nil {
		conds = x.eval(head, s.Cond)
	}
	var auto func(*State) string
	if cnt != nil {
		auto = func(*State) string { return "counter" }
	}
	for _, r := range conds {
		c := x.name(r.st, "c", r.v[0], types.Typ[types.Bool])
		if x.feasible(c) {
			t := r.st.clone()
			t.branch(c)
			post := func(z *State) []*State {
				if s.Post == nil {
					return []*State{z}
				}
				var zs []*State
				for _, o := range x.exec(z, s.Post, "") {
					zs = append(zs, o.st)
				}
				return zs
			}
			out = append(out, x.runBody(t, li, s.Body.List, post, cands, auto)...)
		}
		if x.feasible(not(c)) {
			f := r.st.clone()
			f.branch(not(c))
			out = append(out, Out{st: f})
		}
	}
	return out
}

// pureBound: a loop bound that can be re-evaluated
func (x *Exec) pureBound(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if c, isC := n.(*ast.CallExpr); isC {
			if id, isId := c.Fun.(*ast.Ident); !isId || id.Name != "len" {
				ok = false
			}
		}
		return true
	})
	return ok
}

// quietEval evaluates without generating obligations.
func (x *Exec) quietEval(st *State, e ast.Expr) string {
	n := len(x.obls)
	kc := map[string]int{}
	for k, v := range x.kindCount {
		kc[k] = v
	}
	rs := x.eval(st, e)
	x.obls = x.obls[:n]
	x.kindCount = kc
	if len(rs) != 1 {
		return ""
	}
	// expand definitions made during evaluation is not needed: re-assert them
	var es []*PC
	for p := rs[0].st.pc; p != nil && p.kind == 2; p = p.parent {
		es = append(es, p)
	}
	t := rs[0].v[0]
	if strings.Contains(t, "!") {
		// definitions live on the clone; return a let-free form only when stable
		defs := map[string]string{}
		for _, p := range es {
			if strings.HasPrefix(p.text, "(= |") {
				rest := p.text[3:]
				if i := strings.Index(rest[1:], "|"); i >= 0 {
					nm := rest[:i+2]
					defs[nm] = rest[i+3 : len(rest)-1]
				}
			}
		}
		for k := 0; k < 8; k++ {
			ch := false
			for nm, d := range defs {
				if strings.Contains(t, nm) {
					t = strings.ReplaceAll(t, nm, d)
					ch = true
				}
			}
			if !ch {
				break
			}
		}
	}
	return t
}

func (x *Exec) unroll(st *State, s *ast.ForStmt, label string, max int) []Out {
	var out []Out
	cur := []*State{st}
	for k := 0; k <= max && len(cur) > 0; k++ {
		var nx []*State
		for _, c := range cur {
			conds := []Res{{c, []string{"true"}}}
			if s.Cond != nil {
				conds = x.eval(c, s.Cond)
			}
			for _, r := range conds {
				f := r.st.clone()
				f.branch(not(r.v[0]))
				if x.feasible(not(r.v[0])) {
					out = append(out, Out{st: f})
				}
				if !x.feasible(r.v[0]) {
					continue
				}
				t := r.st.clone()
				t.branch(r.v[0])
				if k == max {
					x.oblige(t, "unwind", "", "false", s, "loop unwinding bound")
					continue
				}
				for _, o := range x.execBlock(t, s.Body.List) {
					switch {
					case o.kind == oNormal, o.kind == oContinue && (o.label == "" || o.label == label):
						if s.Post == nil {
							nx = append(nx, o.st)
						} else {
							for _, z := range x.exec(o.st, s.Post, "") {
								nx = append(nx, z.st)
							}
						}
					case o.kind == oBreak && (o.label == "" || o.label == label):
						out = append(out, Out{st: o.st})
					default:
						out = append(out, o)
					}
				}
			}
		}
		cur = x.join(nx)
	}
	return out
}

func (x *Exec) execRange(st *State, s *ast.RangeStmt, label string) []Out {
	var out []Out
	for _, r := range x.eval(st, s.X) {
		out = append(out, x.rangeLoop(r.st, s, r.v[0], label)...)
	}
	return out
}

func (x *Exec) rangeLoop(st *State, s *ast.RangeStmt, coll, label string) []Out {
	ct := x.typeOf(s.X)
	li := x.startLoop(st, s, []ast.Node{s.Body}, label)
	// key/value variables of the range itself
	for _, e := range []ast.Expr{s.Key, s.Value} {
		if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
			if o := x.obj(id); o != nil {
				li.assign[o] = true
			}
		}
	}
	Int := types.Typ[types.Int]
	if st.gtype == nil {
		st.gtype = map[string]types.Type{}
	}
	gI := fmt.Sprintf("$i%d", s.Pos())
	gS := fmt.Sprintf("$seen%d", s.Pos())
	setKV := func(z *State, k, v string, kt, vt types.Type) []*State {
		cur := []*State{z}
		if s.Key != nil {
			var nx []*State
			for _, c := range cur {
				nx = append(nx, x.assign(c, s.Key, k, s)...)
			}
			cur = nx
		}
		if s.Value != nil && v != "" {
			var nx []*State
			for _, c := range cur {
				nx = append(nx, x.assign(c, s.Value, v, s)...)
			}
			cur = nx
		}
		return cur
	}
	pop := x.pushLoopMods(st, li)
	defer pop()
	var out []Out
	auto := func(*State) string { return "range" }
	switch u := ct.Underlying().(type) {
	case *types.Slice, *types.Array, *types.Basic, *types.Pointer:
		var n string
		var elem types.Type
		isStr := false
		switch u := u.(type) {
		case *types.Slice:
			n, elem = "(s-len "+coll+")", u.Elem()
		case *types.Array:
			n, elem = fmt.Sprint(u.Len()), u.Elem()
		case *types.Pointer:
			ar := u.Elem().Underlying().(*types.Array)
			n, elem = fmt.Sprint(ar.Len()), ar.Elem()
			coll = x.loadPtr(st, coll, ct, s)
			ct = u.Elem()
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				isStr = true
				n, elem = "(rlen "+coll+")", types.Typ[types.Rune]
			} else {
				n = coll
				elem = nil
			}
		}
		st.gtype[gI] = Int
		li.before.gtype = st.gtype
		st.ghost[gI] = "0"
		li.ghosts["$i"] = binding{"$" + gI, Int}
		li.ghosts["$n"] = binding{n, Int}
		li.ghosts["$coll"] = binding{coll, ct}
		cands := x.loopCands(st, li)
		x.checkInv(st, li, "init", cands)
		head := x.havocLoop(st, li)
		i := x.fresh("$i", "Int")
		head.ghost[gI] = i
		head.assume("(and (<= 0 " + i + ") (<= " + i + " (ite (< " + n + " 0) 0 " + n + ")))")
		x.assumeInv(head, li, cands)
		t := head.clone()
		t.branch("(< " + i + " " + n + ")")
		k := i
		v := ""
		if isStr {
			k = "(boff " + coll + " " + i + ")"
			v = "(rat " + coll + " " + i + ")"
			x.so.declFun("boff", "(declare-fun boff (Str Int) Int)")
			t.assume("(>= " + k + " 0)")
		} else if elem != nil {
			if _, isA := ct.Underlying().(*types.Array); isA {
				v = "(select " + coll + " " + i + ")"
			} else {
				v = x.sliceAt(t, coll, i, elem)
			}
			if s.Value != nil {
				v = x.nameAlways(t, "el", v, elem)
				x.wf(t, v, elem)
			}
		}
		post := func(z *State) []*State {
			z.ghost[gI] = "(+ " + i + " 1)"
			return []*State{z}
		}
		for _, b := range setKV(t, k, v, Int, elem) {
			out = append(out, x.runBody(b, li, s.Body.List, post, cands, auto)...)
		}
		f := head.clone()
		f.branch("(>= " + i + " " + n + ")")
		out = append(out, Out{st: f})
		return out
	case *types.Map:
		ks := x.so.sort(u.Key())
		set := &ghostType{kind: "set", elem: u.Key()}
		st.gtype[gS] = set
		st.ghost[gS] = "((as const (Array " + ks + " Bool)) false)"
		li.ghosts["$seen"] = binding{"$" + gS, set}
		li.ghosts["$coll"] = binding{coll, ct}
		md := x.compMD(u)
		dom0 := x.name(st, "dom0", "(select "+x.h(st, md)+" "+coll+")", set)
		cands := x.loopCands(st, li)
		if li.hasFP[md] {
			pre := fmt.Sprintf("%s.loop%d.%d.", x.fr.fi.Key, li.ord, li.node.Pos())
			cands = append(cands, &candInv{pre + "dom", x.cand(pre + "dom"), func(z *State) string {
				return "(= (select " + x.h(z, md) + " " + coll + ") " + dom0 + ")"
			}}, &candInv{pre + "seen", x.cand(pre + "seen"), func(z *State) string {
				sn := z.ghost[gS]
				return fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k))))", ks, sn, dom0, sn)
			}})
		}
		x.checkInv(st, li, "init", cands)
		head := x.havocLoop(st, li)
		seen := x.fresh("$seen", "(Array "+ks+" Bool)")
		head.ghost[gS] = seen
		modified := li.hasFP[md]
		x.assumeInv(head, li, cands)
		if !modified {
			head.assume(fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k))))", ks, seen, dom0, seen))
		}
		t := head.clone()
		k := x.freshT("key", u.Key())
		dom := "(select " + x.h(t, md) + " " + coll + ")"
		t.branch("(and (select " + dom + " " + k + ") (not (select " + seen + " " + k + ")))")
		x.wf(t, k, u.Key())
		v := ""
		if s.Value != nil {
			v = x.nameAlways(t, "val", "(select (select "+x.h(t, x.compMV(u))+" "+coll+") "+k+")", u.Elem())
			if su, ok := u.Elem().Underlying().(*types.Struct); ok && su.NumFields() == 0 {
				v = x.zero(u.Elem())
			}
			x.wf(t, v, u.Elem())
		}
		post := func(z *State) []*State {
			z.ghost[gS] = "(store " + seen + " " + k + " true)"
			return []*State{z}
		}
		for _, b := range setKV(t, k, v, u.Key(), u.Elem()) {
			out = append(out, x.runBody(b, li, s.Body.List, post, cands, auto)...)
		}
		f := head.clone()
		fd := "(select " + x.h(f, md) + " " + coll + ")"
		f.branch(fmt.Sprintf("(forall ((k %s)) (! (=> (and (select %s k) (select %s k)) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, dom0, fd, seen, dom0, fd, seen))
		if !modified || !x.cand(fmt.Sprintf("%s.loop%d.%d.", x.fr.fi.Key, li.ord, li.node.Pos())+"dom").dropped && !x.cand(fmt.Sprintf("%s.loop%d.%d.", x.fr.fi.Key, li.ord, li.node.Pos())+"seen").dropped {
			f.assume("(= " + seen + " " + dom0 + ")")
		}
		out = append(out, Out{st: f})
		return out
	}
	x.unsupp(s, "range over %s", ct)
	return nil
}
