package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// PC is a path condition: a persistent list of assertions.
type PC struct {
	parent *PC
	text   string
	kind   int // 0 assumed fact, 1 branch condition, 2 definition of a fresh constant
	n      int
}

type Closure struct {
	lit *ast.FuncLit
	fr  *Frame
}

// State is a symbolic state.
type State struct {
	pc    *PC
	vars  map[types.Object]string
	heap  map[string]string
	alloc string
	ghost map[string]string
	gtype map[string]types.Type
	facts map[string]bool
	anc   *anchor
	hp    *heapParams // state of a contract function or lemma: heap components are parameters
}

// anchor is the heap of a state from which many heap components changed at once (a call, a loop).
type anchor struct {
	heap   map[string]string
	alloc  string
	parent *anchor
	n      int
}

func (s *State) setAnchor() {
	n := 1
	if s.anc != nil {
		n = s.anc.n + 1
	}
	a := &anchor{heap: make(map[string]string, len(s.heap)), alloc: s.alloc, parent: s.anc, n: n}
	for k, v := range s.heap {
		a.heap[k] = v
	}
	s.anc = a
}

func commonAnchor(a, b *anchor) *anchor {
	for a != b {
		na, nb := 0, 0
		if a != nil {
			na = a.n
		}
		if b != nil {
			nb = b.n
		}
		if na >= nb {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	return a
}

// frameFact relates a framed contract function in state st to its values in the earlier states:
// where everything allocated then is unchanged, so is the function on what was allocated then.
func (x *Exec) frameFact(sf *SpecFunc, nm string, st *State) {
	comps := x.recComps[sf.Name]
	if st == nil || st.hp != nil || len(comps) == 0 {
		return
	}
	var cur []string
	for _, c := range comps {
		cur = append(cur, x.h(st, c))
	}
	key := nm + " " + strings.Join(cur, " ")
	if x.frameDone == nil {
		x.frameDone = map[string]bool{}
	}
	if x.frameDone[key] {
		return
	}
	x.frameDone[key] = true
	entry := &anchor{heap: map[string]string{}, alloc: "alloc!0"}
	seen := map[string]bool{}
	for a, k := st.anc, 0; ; k++ {
		last := a == nil
		if last {
			a = entry
		}
		if k < 8 || last {
			var pre, agree []string
			for i, c := range comps {
				t, ok := a.heap[c]
				if !ok {
					t = x.h(&State{}, c)
				}
				pre = append(pre, t)
				if t == cur[i] {
					continue
				}
				if x.compKind[c] == "G" {
					agree = append(agree, "(= "+t+" "+cur[i]+")")
				} else {
					agree = append(agree, "(forall ((r Int)) (! (=> (<= r "+a.alloc+") (= (select "+cur[i]+" r) (select "+t+" r))) :pattern ((select "+cur[i]+" r))))")
				}
			}
			pk := strings.Join(pre, " ")
			if len(agree) > 0 && (last || !seen[pk]) {
				seen[pk] = true
				pkg := x.L.pkgs[sf.Pkg]
				var ds, vs, cl []string
				for _, p := range sf.Params {
					t := x.parseType(p.Type, pkg)
					v := "|a_" + p.Name + "|"
					ds = append(ds, "("+v+" "+x.so.sort(t)+")")
					vs = append(vs, v)
					if c := x.closed(v, t, a.alloc); c != "true" {
						cl = append(cl, c)
					}
				}
				as := strings.Join(vs, " ")
				now := "(" + nm + " " + as + " " + strings.Join(cur, " ") + ")"
				then := "(" + nm + " " + as + " " + pk + ")"
				b := "(= " + now + " " + then + ")"
				if len(cl) > 0 {
					b = implies(and(cl...), b)
				}
				if len(ds) > 0 {
					b = "(forall (" + strings.Join(ds, " ") + ") (! " + b + " :pattern (" + now + ") :pattern (" + then + ")))"
				}
				needs := []string{nm}
				for i := range comps {
					if cur[i] != pre[i] {
						for s := range symSet(cur[i] + " " + pre[i]) {
							if _, ok := x.decl[s]; ok {
								needs = append(needs, s)
							}
						}
					}
				}
				x.dax = append(x.dax, natAxiom{needs, "(assert " + implies(and(agree...), b) + ")"})
			}
		}
		if last {
			return
		}
		a = a.parent
	}
}

// heapParams collects the heap components a contract function or lemma reads.
type heapParams struct {
	order []string
	names map[string]string
	mk    func(comp string) string
}

func (x *Exec) pseudoState(mk func(comp string) string) *State {
	return &State{vars: map[types.Object]string{}, heap: map[string]string{}, ghost: map[string]string{}, alloc: "0", hp: &heapParams{names: map[string]string{}, mk: mk}}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, vars: make(map[types.Object]string, len(s.vars)+2), heap: make(map[string]string, len(s.heap)+2), ghost: make(map[string]string, len(s.ghost)), gtype: s.gtype, facts: s.facts, anc: s.anc}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (s *State) add(kind int, text string) {
	if text == "true" {
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{s.pc, text, kind, n}
}

func (s *State) assume(text string) { s.add(0, text) }
func (s *State) branch(text string) { s.add(1, text) }
func (s *State) def(text string)    { s.add(2, text) }

func (p *PC) list() []string {
	var out []string
	for ; p != nil; p = p.parent {
		out = append(out, p.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Obl is one proof obligation.
type Obl struct {
	Name  string
	Kind  string
	Func  string
	Pos   token.Position
	PC    *PC
	Goal  string
	Src   string
	Cand  *candidate
	Cover bool // reachability check: must NOT be unsat
	Props []string
	Extra []string
	Res   SolveResult
	Query string
	Part  string // the part of the goal that failed
}

type candidate struct {
	key     string
	dropped bool
}

// Frame is one (possibly inlined) function activation.
type Frame struct {
	fi      *FuncInfo
	pkg     *Pkg
	info    *types.Info
	con     *Contract
	body    *ast.BlockStmt
	ftype   *ast.FuncType
	parent  *Frame
	loops   map[ast.Node]int
	results []types.Object
	sig     *types.Signature
	defers  []*ast.CallExpr
	depth   int
	callPos token.Pos
}

type modEntry struct {
	all  bool
	refs []string
}

// ModSet says which heap locations may be written; base is the allocation bound above which writes are free.
type ModSet struct {
	any  bool
	ent  map[string]*modEntry
	base string
	what string
	st   *State
}

type Exec struct {
	L    *Loader
	Sp   *Specs
	so   *Sorts
	fp   *Footprints
	fn   *FuncInfo
	con  *Contract
	fr   *Frame
	decl map[string]string
	dOrd []string
	// which local variable a contract alias stands for, and how many would fit
	aliasPick map[string]int
	aliasSeen map[string]int
	// axioms about declared constants
	dax        []natAxiom
	obls       []*Obl
	cnt        int
	entry      *State
	entryHeap  map[string]string
	compSort   map[string]string
	compVal    map[string]types.Type // value type held by a component (for closedness)
	compKind   map[string]string
	mods       []*ModSet
	deps       map[string]bool
	assumps    map[string]bool
	closures   map[string]*Closure
	fnrefs     map[string]*types.Func
	cands      map[string]*candidate
	kindCount  map[string]int
	paramEnv   map[string]binding
	retEnv     map[string]binding
	specDepth  int
	loopStates []loopCtx
	recUsed    map[string]bool
	reveal     map[string]bool // opaque definitions unfolded here
	recOrd     []string
	recComps   map[string][]string
	recBusy    map[string]bool
	recStack   []string
	unsup      []string
	quiet      bool
	noterm     []string
	steps      int
	lfacts     map[string]bool
	frameDone  map[string]bool
}

type loopCtx struct {
	before *State
	fr     *Frame
	pos    token.Pos
}

type binding struct {
	term string
	typ  types.Type
}

func NewExec(l *Loader, sp *Specs, fp *Footprints) *Exec {
	return &Exec{L: l, Sp: sp, so: NewSorts(), fp: fp, decl: map[string]string{}, entryHeap: map[string]string{}, compSort: map[string]string{}, compVal: map[string]types.Type{}, compKind: map[string]string{}, deps: map[string]bool{}, assumps: map[string]bool{}, closures: map[string]*Closure{}, fnrefs: map[string]*types.Func{}, cands: map[string]*candidate{}, kindCount: map[string]int{}, recUsed: map[string]bool{}, reveal: map[string]bool{}, recComps: map[string][]string{}, recBusy: map[string]bool{}, lfacts: map[string]bool{}}
}

func (x *Exec) fresh(hint, sort string) string {
	x.cnt++
	n := "|" + sane(hint) + "!" + fmt.Sprint(x.cnt) + "|"
	x.decl[n] = sort
	x.dOrd = append(x.dOrd, n)
	return n
}

func (x *Exec) freshT(hint string, t types.Type) string { return x.fresh(hint, x.so.sort(t)) }

// name gives term a name when it is large.
func (x *Exec) name(st *State, hint, term string, t types.Type) string {
	if len(term) <= 60 || !strings.HasPrefix(term, "(") {
		return term
	}
	c := x.freshT(hint, t)
	st.def("(= " + c + " " + term + ")")
	return c
}

type unsupported struct{ msg string }

func (x *Exec) unsupp(n ast.Node, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if n != nil {
		p := x.L.fset.Position(n.Pos())
		msg = fmt.Sprintf("%s:%d: %s", p.Filename, p.Line, msg)
	}
	panic(unsupported{msg})
}

// ---------- heap components ----------

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func cF(structT types.Type, field string) string { return "F!" + sane(tname(structT)) + "!" + field }
func cE(elem types.Type) string                  { return "E!" + sane(tname(elem)) }
func cMD(m *types.Map) string                    { return "MD!" + sane(tname(m)) }
func cMV(m *types.Map) string                    { return "MV!" + sane(tname(m)) }
func cP(elem types.Type) string                  { return "P!" + sane(tname(elem)) }
func cG(v types.Object) string {
	return "G!" + sane(v.Pkg().Path()) + "." + v.Name()
}

// comp registers a component and returns its name.
func (x *Exec) comp(name, kind, sort string, val types.Type) string {
	if _, ok := x.compSort[name]; !ok {
		x.compSort[name] = sort
		x.compKind[name] = kind
		x.compVal[name] = val
	}
	return name
}
func (x *Exec) compF(structT types.Type, f *types.Var) string {
	return x.comp(cF(structT, f.Name()), "F", "(Array Int "+x.so.sort(f.Type())+")", f.Type())
}
func (x *Exec) compE(elem types.Type) string {
	return x.comp(cE(elem), "E", "(Array Int (Array Int "+x.so.sort(elem)+"))", elem)
}
func (x *Exec) compMD(m *types.Map) string {
	return x.comp(cMD(m), "MD", "(Array Int (Array "+x.so.sort(m.Key())+" Bool))", m.Key())
}
func (x *Exec) compMV(m *types.Map) string {
	return x.comp(cMV(m), "MV", "(Array Int (Array "+x.so.sort(m.Key())+" "+x.so.sort(m.Elem())+"))", m.Elem())
}
func (x *Exec) compP(elem types.Type) string {
	return x.comp(cP(elem), "P", "(Array Int "+x.so.sort(elem)+")", elem)
}
func (x *Exec) compG(v types.Object) string {
	return x.comp(cG(v), "G", x.so.sort(v.Type()), v.Type())
}

func (x *Exec) h(st *State, comp string) string {
	if st == nil {
		serr("heap access in a heap-free formula: %s", comp)
	}
	if st.hp != nil {
		if t, ok := st.hp.names[comp]; ok {
			return t
		}
		t := st.hp.mk(comp)
		st.hp.names[comp] = t
		st.hp.order = append(st.hp.order, comp)
		return t
	}
	if t, ok := st.heap[comp]; ok {
		return t
	}
	if t, ok := x.entryHeap[comp]; ok {
		return t
	}
	t := x.declHeap(comp, "alloc!0")
	x.entryHeap[comp] = t
	return t
}

// declHeap declares a fresh heap component constant, closed under reachability up to alloc.
func (x *Exec) declHeap(comp, alloc string) string {
	sort, ok := x.compSort[comp]
	if !ok {
		panic("unknown component " + comp)
	}
	c := x.fresh("H:"+comp, sort)
	val := x.compVal[comp]
	ax := func(s string) { x.dax = append(x.dax, natAxiom{[]string{c}, "(assert " + s + ")"}) }
	switch x.compKind[comp] {
	case "F", "P":
		if w := x.closed("(select "+c+" r)", val, alloc); w != "true" {
			ax("(forall ((r Int)) (! " + w + " :pattern ((select " + c + " r))))")
		}
	case "E":
		at := x.so.atFn(x.so.sort(val))
		tm := "(" + at + " (select " + c + " r) o i)"
		if w := x.closed(tm, val, alloc); w != "true" {
			ax("(forall ((r Int) (o Int) (i Int)) (! " + w + " :pattern (" + tm + ")))")
		}
	case "MV":
		ks := strings.TrimPrefix(sort, "(Array Int (Array ")
		ks = firstSort(ks)
		tm := "(select (select " + c + " r) k)"
		if w := x.closed(tm, val, alloc); w != "true" {
			ax("(forall ((r Int) (k " + ks + ")) (! " + w + " :pattern (" + tm + ")))")
		}
	case "MD":
		ks := x.so.sort(val)
		ax("(= (select " + c + " 0) ((as const (Array " + ks + " Bool)) false))")
	case "G":
		if w := x.closed(c, val, alloc); w != "true" {
			ax(w)
		}
	}
	return c
}

func firstSort(s string) string {
	d := 0
	inbar := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '|':
			inbar = !inbar
		case inbar:
		case s[i] == '(':
			d++
		case s[i] == ')':
			d--
		case s[i] == ' ' && d == 0:
			return s[:i]
		}
	}
	return s
}

// closed: every reference inside a value is allocated.
func (x *Exec) closed(t string, ty types.Type, alloc string) string {
	switch u := ty.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return "(and (<= 0 " + t + ") (<= " + t + " " + alloc + "))"
	case *types.Slice:
		return "(<= (s-arr " + t + ") " + alloc + ")"
	case *types.Struct:
		var cs []string
		sn := x.so.sort(ty)
		for i := 0; i < u.NumFields(); i++ {
			if c := x.closed("("+selName(sn, u.Field(i).Name())+" "+t+")", u.Field(i).Type(), alloc); c != "true" {
				cs = append(cs, c)
			}
		}
		return and(cs...)
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			if u.Kind() == types.Uint8 {
				return "(<= 0 " + t + " 255)"
			}
			return "(<= 0 " + t + ")"
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			if impls := x.implementers(u, ty); len(impls) > 0 {
				cs := []string{"((_ is I-nil) " + t + ")"}
				for _, im := range impls {
					ct, us := x.so.ctor(im)
					if _, isp := im.Underlying().(*types.Pointer); isp {
						cs = append(cs, "(and ((_ is "+ct+") "+t+") (<= 0 ("+us+" "+t+")) (<= ("+us+" "+t+") "+alloc+"))")
					} else {
						cs = append(cs, "((_ is "+ct+") "+t+")")
					}
				}
				return "(or " + strings.Join(cs, " ") + ")"
			}
		}
	}
	return "true"
}

// implementers lists the concrete types of the loaded program that implement iface (closed world), nil for open interfaces.
func (x *Exec) implementers(u *types.Interface, ty types.Type) []types.Type {
	if n, ok := ty.(*types.Named); ok {
		if n.Obj().Pkg() == nil { // error
			return nil
		}
		if _, in := x.L.dirFor(n.Obj().Pkg().Path()); !in {
			return nil
		}
	} else {
		return nil
	}
	key := tname(ty)
	if r, ok := x.L.impls[key]; ok {
		return r
	}
	var out []types.Type
	var paths []string
	for p := range x.L.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sc := x.L.pkgs[p].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, u) {
				out = append(out, t)
			}
			if pt := types.NewPointer(t); types.Implements(pt, u) && !types.Implements(t, u) {
				out = append(out, pt)
			} else if types.Implements(pt, u) && types.Implements(t, u) && hasPtrUse(t) {
				out = append(out, pt)
			}
		}
	}
	x.L.impls[key] = out
	return out
}

func hasPtrUse(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// ---------- modifications ----------

// setHeap writes comp at reference ref.
func (x *Exec) storeRef(st *State, comp, ref, val string, n ast.Node, freshRef bool) {
	old := x.h(st, comp)
	if !freshRef {
		x.checkWrite(st, comp, ref, n)
	}
	c := x.fresh("H:"+comp, x.compSort[comp])
	st.def("(= " + c + " (store " + old + " " + ref + " " + val + "))")
	st.heap[comp] = c
}

func (x *Exec) checkWrite(st *State, comp, ref string, n ast.Node) {
	for _, m := range x.mods {
		if m.any {
			continue
		}
		e := m.ent[comp]
		if e != nil && e.all {
			continue
		}
		goals := []string{"(> " + ref + " " + m.base + ")"}
		if strings.HasPrefix(comp, "E!") {
			goals = append(goals, "(= "+ref+" 0)") // the array of nil has no elements
		}
		hit := false
		if e != nil {
			for _, r := range e.refs {
				if r == ref {
					hit = true
				}
				goals = append(goals, "(= "+ref+" "+r+")")
			}
		}
		if hit || strings.HasPrefix(ref, "|new!") && m.base == "alloc!0" {
			continue
		}
		x.oblige(st, "frame", comp, or(goals...), n, "write to "+comp+" outside the "+m.what)
	}
}

func (x *Exec) writeGlobal(st *State, comp, val string, n ast.Node) {
	for _, m := range x.mods {
		if m.any {
			continue
		}
		if e := m.ent[comp]; e != nil && e.all {
			continue
		}
		x.oblige(st, "frame", comp, "false", n, "write to global "+comp+" outside the "+m.what)
	}
	c := x.fresh("H:"+comp, x.compSort[comp])
	st.def("(= " + c + " " + val + ")")
	st.heap[comp] = c
}

// newRef allocates a reference.
func (x *Exec) newRef(st *State) string {
	r := x.fresh("new", "Int")
	st.def("(= " + r + " (+ " + st.alloc + " 1))")
	st.alloc = r
	return r
}

func (x *Exec) oblige(st *State, kind, label, goal string, n ast.Node, src string) *Obl {
	if goal == "true" {
		return nil
	}
	key := kind + ":" + label
	x.kindCount[key]++
	nm := x.fn.Key + "#" + kind
	if label != "" {
		nm += "[" + label + "]"
	}
	nm += fmt.Sprintf("/%d", x.kindCount[key])
	o := &Obl{Name: nm, Kind: kind, Func: x.fn.Key, PC: st.pc, Goal: goal, Src: src}
	if n != nil {
		o.Pos = x.L.fset.Position(n.Pos())
	}
	switch kind {
	case "index", "slice", "nil", "nilmap", "div", "make", "typeassert":
		// the contract may allow the panic
		if x.con != nil && len(x.con.Aborts) > 0 {
			o.Goal = or(goal, x.abortCond())
		}
	}
	x.obls = append(x.obls, o)
	st.assume(goal)
	return o
}

// ---------- small term helpers ----------

func and(cs ...string) string {
	var out []string
	for _, c := range cs {
		if c == "true" || c == "" {
			continue
		}
		if c == "false" {
			return "false"
		}
		out = append(out, c)
	}
	switch len(out) {
	case 0:
		return "true"
	case 1:
		return out[0]
	}
	return "(and " + strings.Join(out, " ") + ")"
}
func or(cs ...string) string {
	var out []string
	for _, c := range cs {
		if c == "false" || c == "" {
			continue
		}
		if c == "true" {
			return "true"
		}
		out = append(out, c)
	}
	switch len(out) {
	case 0:
		return "false"
	case 1:
		return out[0]
	}
	return "(or " + strings.Join(out, " ") + ")"
}
func not(c string) string {
	switch c {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(c, "(not ") {
		return c[5 : len(c)-1]
	}
	return "(not " + c + ")"
}
func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

// wf gives the well-formedness facts of a value of type t in a state.
func (x *Exec) wf(st *State, t string, ty types.Type) {
	if strings.HasPrefix(t, "(") == false && (t == "0" || t == "nil-slice" || t == "I-nil") {
		return
	}
	w := x.closed(t, ty, st.alloc)
	if w == "true" {
		return
	}
	key := t + "@" + st.alloc
	if x.lfacts[key] {
		// may have been assumed on another path only: assume again, cheap
	}
	x.lfacts[key] = true
	st.assume(w)
}

// zero value
func (x *Exec) zero(t types.Type) string {
	if g, ok := t.(*ghostType); ok {
		if g.kind == "set" {
			return "((as const " + x.so.sort(g) + ") false)"
		}
		return "((as const " + x.so.sort(g) + ") " + x.zero(g.elem) + ")"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsString != 0:
			return x.so.strlit("")
		case u.Info()&types.IsFloat != 0:
			return "0.0"
		}
		return "0"
	case *types.Slice:
		return "nil-slice"
	case *types.Interface:
		return "I-nil"
	case *types.Array:
		return "((as const " + x.so.sort(t) + ") " + x.zero(u.Elem()) + ")"
	case *types.Struct:
		s := x.so.sort(t)
		if u.NumFields() == 0 {
			return mkName(s)
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.zero(u.Field(i).Type()))
		}
		return "(" + mkName(s) + " " + strings.Join(fs, " ") + ")"
	}
	return "0"
}

// merge joins states that share a prefix.
func (x *Exec) merge(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	// common prefix
	pre := sts[0].pc
	for _, s := range sts[1:] {
		a, b := pre, s.pc
		for a != b {
			na, nb := 0, 0
			if a != nil {
				na = a.n
			}
			if b != nil {
				nb = b.n
			}
			if na >= nb {
				a = a.parent
			} else {
				b = b.parent
			}
		}
		pre = a
	}
	out := sts[0].clone()
	out.pc = pre
	var guards []string
	var gsets []map[string]bool
	for _, s := range sts {
		set := map[string]bool{}
		for p := s.pc; p != pre; p = p.parent {
			if p.kind == 1 {
				set[p.text] = true
			}
		}
		gsets = append(gsets, set)
	}
	// Branch conditions that are not syntactically exclusive get a chooser, so that no
	// state of the join is dropped.
	pick := ""
	for i := range gsets {
		for j := i + 1; j < len(gsets); j++ {
			excl := false
			for a := range gsets[i] {
				if gsets[j][not(a)] {
					excl = true
					break
				}
			}
			if !excl && pick == "" {
				pick = x.fresh("pick", "Int")
			}
		}
	}
	for si, s := range sts {
		var es []*PC
		for p := s.pc; p != pre; p = p.parent {
			es = append(es, p)
		}
		var g []string
		for i := len(es) - 1; i >= 0; i-- {
			if es[i].kind == 1 {
				g = append(g, es[i].text)
			}
		}
		if pick != "" {
			g = append(g, fmt.Sprintf("(= %s %d)", pick, si))
		}
		gt := and(g...)
		if len(gt) > 40 {
			c := x.fresh("g", "Bool")
			out.def("(= " + c + " " + gt + ")")
			gt = c
		}
		guards = append(guards, gt)
		var acc []string
		for i := len(es) - 1; i >= 0; i-- {
			e := es[i]
			switch e.kind {
			case 2:
				out.def(e.text)
			case 0:
				acc = append(acc, e.text)
			}
		}
		for _, a := range acc {
			out.assume(implies(gt, a))
		}
	}
	all := or(guards...)
	if len(guards) == 2 && guards[0] == not(guards[1]) {
		all = "true"
	}
	out.branch(all) // a later merge must keep it as this state's guard
	ite := func(hint, sort string, vals []string) string {
		same := true
		for _, v := range vals {
			if v != vals[0] {
				same = false
			}
		}
		if same {
			return vals[0]
		}
		t := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			t = "(ite " + guards[i] + " " + vals[i] + " " + t + ")"
		}
		c := x.fresh(hint, sort)
		out.def("(= " + c + " " + t + ")")
		return c
	}
	for o := range out.vars {
		var vals []string
		ok := true
		for _, s := range sts {
			v, has := s.vars[o]
			if !has {
				ok = false
			}
			vals = append(vals, v)
		}
		if !ok {
			delete(out.vars, o)
		}
		_ = vals
	}
	var objs []types.Object
	for o := range out.vars {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool {
		if objs[i].Pos() != objs[j].Pos() {
			return objs[i].Pos() < objs[j].Pos()
		}
		return objs[i].Name() < objs[j].Name()
	})
	for _, o := range objs {
		var vals []string
		for _, s := range sts {
			vals = append(vals, s.vars[o])
		}
		out.vars[o] = ite(o.Name(), x.so.sort(o.Type()), vals)
	}
	comps := map[string]bool{}
	for _, s := range sts {
		for c := range s.heap {
			comps[c] = true
		}
	}
	for _, c := range sortedKeys(comps) {
		var vals []string
		for _, s := range sts {
			vals = append(vals, x.h(s, c))
		}
		out.heap[c] = ite("H:"+c, x.compSort[c], vals)
	}
	var al []string
	for _, s := range sts {
		out.anc = commonAnchor(out.anc, s.anc)
		al = append(al, s.alloc)
	}
	out.alloc = ite("alloc", "Int", al)
	for g := range out.ghost {
		var vals []string
		ok := true
		for _, s := range sts {
			v, has := s.ghost[g]
			if !has {
				ok = false
			}
			vals = append(vals, v)
		}
		if !ok {
			delete(out.ghost, g)
			continue
		}
		out.ghost[g] = ite(g, x.so.sort(out.gtype[g]), vals)
	}
	return out
}

func sameHeap(a, b *State) bool {
	if a.alloc != b.alloc || len(a.heap) != len(b.heap) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	return true
}

// join merges where that keeps formulas simple.
func (x *Exec) join(sts []*State) []*State {
	if len(sts) <= 1 {
		return sts
	}
	var out []*State
	used := make([]bool, len(sts))
	for i := range sts {
		if used[i] {
			continue
		}
		grp := []*State{sts[i]}
		used[i] = true
		for j := i + 1; j < len(sts); j++ {
			if !used[j] && sameHeap(sts[i], sts[j]) {
				grp = append(grp, sts[j])
				used[j] = true
			}
		}
		out = append(out, x.merge(grp))
	}
	if len(out) > 6 {
		return []*State{x.merge(out)}
	}
	return out
}
