package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type FuncReport struct {
	Key         string
	Obls        []*Obl
	Error       string // unsupported construct or contract error
	Assumptions []string
	Deps        []string
	NoTerm      []string
	Loops       int
	Secs        float64
}

type Verifier struct {
	L     *Loader
	Sp    *Specs
	FP    *Footprints
	Quick time.Duration
	Long  time.Duration
	// Deadline: no more solving after this time; what is open then counts as not discharged
	Deadline time.Time
	DumpDir  string
	Fast     bool
	Workers  int
	sem      chan struct{}
	Verbose  bool
}

func (v *Verifier) run(key string, cands map[string]*candidate, pick map[string]int) (x *Exec, err error) {
	con := v.Sp.Contracts[key]
	fi := v.L.byKey[key]
	if strings.HasPrefix(con.Name, "tables:") {
		if fi, err = v.tablesFunc(con); err != nil {
			return nil, err
		}
	}
	if fi == nil {
		return nil, fmt.Errorf("function under contract not found in the source: %s", key)
	}
	if fi.Decl.Body == nil {
		return nil, fmt.Errorf("function without body: %s", key)
	}
	x = NewExec(v.L, v.Sp, v.FP)
	x.fn, x.con, x.cands = fi, con, cands
	x.aliasPick, x.aliasSeen = pick, map[string]int{}
	for _, n := range con.Reveal {
		x.reveal[n] = true
	}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				err = fmt.Errorf("outside the verifier's subset: %s", e.msg)
			case specError:
				err = fmt.Errorf("contract of %s does not fit the code: %s", key, e.msg)
			default:
				panic(r)
			}
		}
	}()
	x.decl["alloc!0"] = "Int"
	x.dax = append(x.dax, natAxiom{[]string{"alloc!0"}, "(assert (>= alloc!0 0))"})
	st := &State{vars: map[types.Object]string{}, heap: map[string]string{}, ghost: map[string]string{}, gtype: map[string]types.Type{}, alloc: "alloc!0"}
	sig := fi.Obj.Type().(*types.Signature)
	fr := x.newFrame(fi, con, fi.Decl.Type, fi.Decl.Body, sig)
	x.fr = fr
	ps, pts, rs, rts := x.paramNames(fi.Obj, con)
	x.paramEnv = map[string]binding{}
	var args []string
	for i := range ps {
		hint := ps[i]
		if hint == "" {
			hint = "p"
		}
		c := x.freshT(hint, pts[i])
		x.wf(st, c, pts[i])
		args = append(args, c)
		if ps[i] != "" && ps[i] != "_" {
			x.paramEnv[ps[i]] = binding{c, pts[i]}
		}
	}
	rest := args
	if fi.Decl.Recv != nil {
		x.bindFields(st, fr.info, fi.Decl.Recv, args[:1], nil)
		rest = args[1:]
	}
	x.bindFields(st, fr.info, fi.Decl.Type.Params, rest, nil)
	x.bindResults(st, fr)
	x.assumeInitial(st, con.Initial, fi.Pkg)
	x.entry = st.clone()
	for _, c := range con.Requires {
		st.assume(x.specBool(c.Expr, &Env{x: x, st: st, old: st, names: x.paramEnv, pkg: fi.Pkg}))
	}
	for _, u := range con.Uses { // terms that the proof needs
		t, ty := x.spec(u, &Env{x: x, st: st, old: st, names: x.paramEnv, pkg: fi.Pkg})
		st.def("(= " + x.freshT("use", ty) + " " + t + ")")
	}
	x.entry = st.clone()
	ms := x.modSet(con.Modifies, x.entryEnv(), x.entry, "modifies of "+key)
	ms.any = con.ModAny
	x.mods = []*ModSet{ms}
	x.obls = append(x.obls, &Obl{Name: key + "#cover-pre", Kind: "cover", Func: key, PC: st.pc, Goal: "false", Cover: true, Pos: v.L.fset.Position(fi.Decl.Pos()), Src: "precondition is satisfiable"})
	outs := x.execBlock(st.clone(), fr.body.List)
	outs = x.runDefers(outs, fr)
	var coverRet []*State
	for _, o := range outs {
		var vs []string
		switch o.kind {
		case oReturn:
			vs = o.ret
		case oNormal:
			for _, r := range fr.results {
				vs = append(vs, o.st.vars[r])
			}
		default:
			continue
		}
		env := &Env{x: x, st: o.st, old: x.entry, names: map[string]binding{}, pkg: fi.Pkg}
		for k, b := range x.paramEnv {
			env.names[k] = b
		}
		for i := range rs {
			env.names[rs[i]] = binding{vs[i], rts[i]}
		}
		coverRet = append(coverRet, o.st.clone())
		eenv := *env
		eenv.fr = fr
		for i, c := range con.Exit {
			for k, part := range splitAnd(c.Expr) {
				l := x.clauseLabel(c, i)
				if k > 0 {
					l += fmt.Sprintf(".%d", k)
				}
				g := x.specBool(part, &eenv)
				s2 := o.st.clone()
				x.oblige(s2, "exit", l, g, fi.Decl.Name, c.Src)
				o.st.assume(g)
			}
		}
		for i, c := range con.Ensures {
			for k, part := range splitAnd(c.Expr) {
				l := x.clauseLabel(c, i)
				if k > 0 {
					l += fmt.Sprintf(".%d", k)
				}
				x.oblige(o.st, "post", l, x.specBool(part, env), fi.Decl.Name, c.Src)
			}
		}
	}
	if len(coverRet) > 0 {
		s := x.merge(coverRet)
		x.obls = append(x.obls, &Obl{Name: key + "#cover-return", Kind: "cover", Func: key, PC: s.pc, Goal: "false", Cover: true, Pos: v.L.fset.Position(fi.Decl.Pos()), Src: "a return is reachable"})
	} else if !con.AbortsAny && len(con.Aborts) == 0 {
		return x, fmt.Errorf("no path of %s returns", key)
	}
	return x, nil
}

func splitAnd(n *SNode) []*SNode {
	if n.Op == "bin" && n.Val == "&&" {
		out := append(splitAnd(n.Args[0]), splitAnd(n.Args[1])...)
		for _, o := range out {
			if o.Src == "" {
				o.Src = n.Src
			}
		}
		return out
	}
	return []*SNode{n}
}

// axiomTexts translates the contract axioms visible to x (excluding the lemma being proved and later ones).
func (v *Verifier) axioms(x *Exec, upto int) []natAxiom {
	var out []natAxiom
	for i, a := range v.Sp.Axioms {
		if upto >= 0 && i >= upto {
			break
		}
		pkg := v.L.pkgs[a.Pkg]
		if pkg == nil {
			continue
		}
		env := &Env{x: x, names: map[string]binding{}, pkg: pkg, top: true, st: x.pseudoState(func(c string) string { return "|h_" + c + "|" })}
		var t string
		func() {
			defer func() {
				if r := recover(); r != nil {
					if se, ok := r.(specError); ok {
						panic(specError{"axiom " + a.Name + ": " + se.msg})
					}
					panic(r)
				}
			}()
			t = x.specBool(a.Expr, env)
		}()
		needs := map[string]bool{}
		src := t
		if k := strings.LastIndex(t, ":pattern"); k >= 0 {
			src = t[k:]
		}
		for s := range symSet(src) {
			if strings.HasPrefix(s, "|spec:") {
				needs[s] = true
			}
		}
		out = append(out, natAxiom{sortedKeys(needs), "(assert " + t + ")"})
	}
	return out
}

func symSet(t string) map[string]bool {
	m := map[string]bool{}
	syms(t, m)
	return m
}

var preFuncs = [][2]string{
	{"blen", "(declare-fun blen (Str) Int)"},
	{"bat", "(declare-fun bat (Str Int) Int)"},
	{"rlen", "(declare-fun rlen (Str) Int)"},
	{"rat", "(declare-fun rat (Str Int) Int)"},
	{"str_cat", "(declare-fun str_cat (Str Str) Str)"},
	{"str_sub", "(declare-fun str_sub (Str Int Int) Str)"},
	{"str_lt", "(declare-fun str_lt (Str Str) Bool)"},
	{"str_of_bytes", "(declare-fun str_of_bytes ((Array Int Int) Int Int) Str)"},
	{"str_of_runes", "(declare-fun str_of_runes ((Array Int Int) Int Int) Str)"},
	{"str_of_rune", "(declare-fun str_of_rune (Int) Str)"},
	{"rdiff", "(declare-fun rdiff (Str Str) Int)"},
	{"godiv", "(define-fun godiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))"},
	{"gomod", "(define-fun gomod ((a Int) (b Int)) Int (ite (>= a 0) (mod a b) (- (mod (- a) b))))"},
}

func (x *Exec) stringAxioms() []natAxiom {
	empty := x.so.strlit("")
	at := x.so.atFn("Int")
	return []natAxiom{
		{[]string{"blen"}, "(assert (forall ((s Str)) (! (and (>= (blen s) 0) (= (= (blen s) 0) (= s " + empty + "))) :pattern ((blen s)))))"},
		{[]string{"rlen"}, "(assert (forall ((s Str)) (! (and (>= (rlen s) 0) (= (= (rlen s) 0) (= s " + empty + "))) :pattern ((rlen s)))))"},
		{[]string{"rlen", "blen"}, "(assert (forall ((s Str)) (! (<= (rlen s) (blen s)) :pattern ((rlen s)))))"},
		{[]string{"bat"}, "(assert (forall ((s Str) (i Int)) (! (and (<= 0 (bat s i)) (<= (bat s i) 255)) :pattern ((bat s i)))))"},
		{[]string{"str_lt"}, "(assert (forall ((a Str) (b Str)) (! (not (and (str_lt a b) (str_lt b a))) :pattern ((str_lt a b)))))"},
		{[]string{"str_lt"}, "(assert (forall ((a Str) (b Str)) (! (or (str_lt a b) (str_lt b a) (= a b)) :pattern ((str_lt a b)))))"},
		{[]string{"str_lt"}, "(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (str_lt a b) (str_lt b c)) (str_lt a c)) :pattern ((str_lt a b) (str_lt b c)))))"},
		{[]string{"str_lt"}, "(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (not (str_lt b a)) (not (str_lt c b))) (not (str_lt c a))) :pattern ((str_lt b a) (str_lt c b)))))"},
		{[]string{"str_of_runes"}, "(assert (forall ((r (Array Int Int)) (o Int) (l Int)) (! (=> (>= l 0) (= (rlen (str_of_runes r o l)) l)) :pattern ((str_of_runes r o l)))))"},
		{[]string{"str_of_runes"}, "(assert (forall ((r (Array Int Int)) (o Int) (l Int) (i Int)) (! (=> (and (<= 0 i) (< i l)) (= (rat (str_of_runes r o l) i) (" + at + " r o i))) :pattern ((rat (str_of_runes r o l) i)))))"},
		{[]string{"str_of_runes", at}, "(assert (forall ((r (Array Int Int)) (o Int) (l Int) (i Int)) (! (=> (and (<= 0 i) (< i l)) (= (rat (str_of_runes r o l) i) (" + at + " r o i))) :pattern ((str_of_runes r o l) (" + at + " r o i)))))"},
		{[]string{"rlen", "rat"}, "(assert (forall ((s Str) (t Str)) (! (or (= s t) (not (= (rlen s) (rlen t))) (and (<= 0 (rdiff s t)) (< (rdiff s t) (rlen s)) (not (= (rat s (rdiff s t)) (rat t (rdiff s t)))))) :pattern ((rlen s) (rlen t)))))"},
		{[]string{"str_of_rune", "rlen"}, "(assert (forall ((r Int)) (! (and (= (rlen (str_of_rune r)) 1) (= (rat (str_of_rune r) 0) r)) :pattern ((str_of_rune r)))))"},
		{[]string{"str_cat"}, "(assert (forall ((b Str)) (! (= (str_cat " + empty + " b) b) :pattern ((str_cat " + empty + " b)))))"},
		{[]string{"str_cat"}, "(assert (forall ((b Str)) (! (= (str_cat b " + empty + ") b) :pattern ((str_cat b " + empty + ")))))"},
		{[]string{"str_cat", "rlen"}, "(assert (forall ((a Str) (b Str)) (! (= (rlen (str_cat a b)) (+ (rlen a) (rlen b))) :pattern ((str_cat a b)))))"},
		{[]string{"str_cat", "rat"}, "(assert (forall ((a Str) (b Str) (i Int)) (! (= (rat (str_cat a b) i) (ite (< i (rlen a)) (rat a i) (rat b (- i (rlen a))))) :pattern ((rat (str_cat a b) i)))))"},
		{[]string{"str_cat", "blen"}, "(assert (forall ((a Str) (b Str)) (! (= (blen (str_cat a b)) (+ (blen a) (blen b))) :pattern ((str_cat a b)))))"},
		{[]string{"str_sub", "blen"}, "(assert (forall ((a Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (blen a))) (= (blen (str_sub a l h)) (- h l))) :pattern ((str_sub a l h)))))"},
		{[]string{"str_sub", "bat"}, "(assert (forall ((a Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 i) (< i (- h l))) (= (bat (str_sub a l h) i) (bat a (+ l i)))) :pattern ((bat (str_sub a l h) i)))))"},
		{[]string{"str_sub"}, "(assert (forall ((a Str) (h Int)) (! (=> (= h (blen a)) (= (str_sub a 0 h) a)) :pattern ((str_sub a 0 h)))))"},
	}
}

// query builds the SMT query for an obligation.
func (v *Verifier) query(x *Exec, pc []string, goal string, axs []natAxiom) string {
	used := map[string]bool{}
	var body strings.Builder
	for _, p := range pc {
		body.WriteString("(assert " + p + ")\n")
	}
	if goal != "" {
		body.WriteString("(assert (not " + goal + "))\n")
	}
	syms(body.String(), used)
	all := append(append(append([]natAxiom{}, x.dax...), x.so.axioms...), x.stringAxioms()...)
	all = append(all, axs...)
	inc := make([]bool, len(all))
	var axText strings.Builder
	for ch := true; ch; {
		ch = false
		for i, a := range all {
			if inc[i] {
				continue
			}
			ok := true
			for _, s := range a.needs {
				if !used[s] {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			inc[i] = true
			ch = true
			axText.WriteString(a.text + "\n")
			syms(a.text, used)
		}
	}
	var b strings.Builder
	b.WriteString("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n")
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(preludeA)
	b.WriteString(x.so.datatypes())
	// string literals
	var lits []string
	for _, s := range x.so.strOrder {
		n := x.so.strlits[s]
		if used[n] {
			b.WriteString("(declare-const " + n + " Str) ; " + strings.ReplaceAll(fmt.Sprintf("%q", s), "\n", " ") + "\n")
			lits = append(lits, n)
		}
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
	}
	for _, pf := range preFuncs {
		if used[pf[0]] || used["rlen"] || pf[0] == "rlen" || pf[0] == "rat" {
			b.WriteString(pf[1] + "\n")
		}
	}
	for _, n := range x.so.fOrder {
		if used[n] && n != "str_of_rune" {
			b.WriteString(x.so.usedFuncs[n] + "\n")
		} else if used[n] && !used["rlen"] {
			// declared among preFuncs
			_ = n
		}
	}
	for _, s := range x.so.strOrder {
		n := x.so.strlits[s]
		if !used[n] {
			continue
		}
		rs := []rune(s)
		if used["blen"] {
			fmt.Fprintf(&b, "(assert (= (blen %s) %d))\n", n, len(s))
		}
		if used["rlen"] {
			fmt.Fprintf(&b, "(assert (= (rlen %s) %d))\n", n, len(rs))
		}
		if len(rs) <= 12 && used["rat"] {
			for i, r := range rs {
				fmt.Fprintf(&b, "(assert (= (rat %s %d) %d))\n", n, i, r)
			}
		}
		if len(s) <= 12 && used["bat"] {
			for i := 0; i < len(s); i++ {
				fmt.Fprintf(&b, "(assert (= (bat %s %d) %d))\n", n, i, s[i])
			}
		}
	}
	for n, s := range x.decl {
		_ = s
		_ = n
	}
	var names []string
	for n := range x.decl {
		if used[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		b.WriteString("(declare-const " + n + " " + x.decl[n] + ")\n")
	}
	b.WriteString(axText.String())
	b.WriteString(body.String())
	b.WriteString("(check-sat)\n")
	return b.String()
}

// lemma obligations
func (v *Verifier) lemma(i int) *FuncReport {
	a := v.Sp.Axioms[i]
	rep := &FuncReport{Key: "lemma " + a.Name}
	t0 := time.Now()
	defer func() { rep.Secs = time.Since(t0).Seconds() }()
	pkg := v.L.pkgs[a.Pkg]
	x := NewExec(v.L, v.Sp, v.FP)
	for _, n := range a.Reveal {
		x.reveal[n] = true
	}
	var pc []string
	var goal string
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(specError); ok {
					err = fmt.Errorf("%s", e.msg)
					return
				}
				panic(r)
			}
		}()
		env := &Env{x: x, names: map[string]binding{}, pkg: pkg, st: x.pseudoState(func(c string) string { return x.fresh("LH:"+c, x.compSort[c]) })}
		n := a.Expr
		if a.Induct != "" {
			if n.Op != "forall" {
				serr("induction on a formula that is not universally quantified")
			}
			e2 := env
			var iv string
			for _, q := range n.Vars {
				ty := x.parseType(q.Type, pkg)
				c := x.freshT(q.Name, ty)
				e2 = e2.bind(q.Name, binding{c, ty})
				if q.Name == a.Induct {
					iv = c
				}
			}
			if iv == "" {
				serr("no induction variable %s", a.Induct)
			}
			goal = x.specBool(n.Args[0], e2)
			// hypothesis: forall vars: 0 <= k < iv ==> P
			ih := &SNode{Op: "forall", Vars: n.Vars, Trigs: n.Trigs, Args: []*SNode{{Op: "bin", Val: "==>", Args: []*SNode{{Op: "bin", Val: "&&", Args: []*SNode{{Op: "bin", Val: "<=", Args: []*SNode{{Op: "int", Val: "0"}, {Op: "id", Val: a.Induct}}}, {Op: "bin", Val: "<", Args: []*SNode{{Op: "id", Val: a.Induct}, {Op: "id", Val: "$iv"}}}}}, n.Args[0]}}}}
			e3 := env.bind("$iv", binding{iv, tInt})
			h := x.specBool(ih, e3)
			pc = append(pc, h)
			// the same over the unfolded copies of the recursive functions
			lim := h
			for nm := range x.recUsed {
				if sf := v.Sp.Funcs[nm]; sf != nil && sf.Rec {
					lim = strings.ReplaceAll(lim, q("spec:"+nm), q("lim1:"+nm))
				}
			}
			if lim != h {
				pc = append(pc, lim)
			}
		} else {
			goal = x.specBool(n, env)
		}
		return nil
	}()
	if err != nil {
		rep.Error = err.Error()
		return rep
	}
	var axs []natAxiom
	err = func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(specError); ok {
					err = fmt.Errorf("%s", e.msg)
					return
				}
				panic(r)
			}
		}()
		axs = v.axioms(x, i)
		return nil
	}()
	if err != nil {
		rep.Error = err.Error()
		return rep
	}
	o := &Obl{Name: "lemma " + a.Name, Kind: "lemma", Func: rep.Key, Goal: goal, Src: a.Src}
	o.Query = v.query(x, pc, goal, axs)
	rep.Obls = []*Obl{o}
	v.solveAll(rep.Obls)
	return rep
}

func (v *Verifier) solveAll(obls []*Obl) {
	var wg sync.WaitGroup
	for _, o := range obls {
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			v.sem <- struct{}{}
			defer func() { <-v.sem }()
			if o.Cover {
				o.Res = runSolver("z3-new", 600*time.Millisecond, o.Query)
				return
			}
			o.Res = v.solveObl(o)
			if o.Res.Status == "error" {
				fmt.Fprintln(os.Stderr, "solver error:", o.Name, o.Res.Output)
				dumpQuery("/tmp/gverr", o.Name, o.Query)
			}
		}()
	}
	wg.Wait()
	// the end of a loop body has to be reachable on one path
	reach := map[string]bool{}
	for _, o := range obls {
		if o.Cover && o.Res.Status != "unsat" {
			reach[coverGroup(o.Name)] = true
		}
	}
	for _, o := range obls {
		if o.Cover && o.Res.Status == "unsat" && strings.Contains(o.Name, "#cover-loop[") && reach[coverGroup(o.Name)] {
			o.Res.Status = "infeasible"
		}
	}
}

func coverGroup(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[:i]
	}
	return n
}

func (o *Obl) ok() bool {
	if o.Cover {
		return o.Res.Status != "unsat" && o.Res.Status != "error"
	}
	return o.Res.Status == "unsat"
}

// Func verifies one function against its contract. Names of local variables in loop
// invariants declared as aliases stand for any local of that type: other choices are
// tried when the first does not verify.
func (v *Verifier) Func(key string) *FuncReport {
	rep, seen := v.funcOnce(key, nil)
	if rep.OK() || len(seen) == 0 {
		return rep
	}
	names := []string{}
	total := 1
	for n, k := range seen {
		if k > 1 {
			names = append(names, n)
			total *= k
		}
	}
	sort.Strings(names)
	if total > 40 {
		total = 40
	}
	q, l := v.Quick, v.Long
	defer func() { v.Quick, v.Long = q, l }()
	for t := 1; t < total; t++ {
		pick := map[string]int{}
		r := t
		dup := false
		used := map[string]bool{}
		for _, n := range names {
			pick[n] = r % seen[n]
			r /= seen[n]
			k := v.Sp.Contracts[key].Alias[n] + fmt.Sprint(pick[n])
			dup = dup || used[k]
			used[k] = true
		}
		if dup {
			continue
		}
		if rep2, _ := v.funcOnce(key, pick); rep2.OK() {
			return rep2
		}
	}
	return rep
}

// OK: every obligation of the function is discharged.
func (r *FuncReport) OK() bool {
	if r.Error != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Cand == nil && !o.ok() {
			return false
		}
	}
	return true
}

func (v *Verifier) funcOnce(key string, pick map[string]int) (*FuncReport, map[string]int) {
	rep := &FuncReport{Key: key}
	t0 := time.Now()
	defer func() { rep.Secs = time.Since(t0).Seconds() }()
	cands := map[string]*candidate{}
	var x *Exec
	for round := 0; round < 6; round++ {
		var err error
		x, err = v.run(key, cands, pick)
		if err != nil {
			rep.Error = err.Error()
			if x != nil {
				rep.Deps = sortedKeys(x.deps)
				return rep, x.aliasSeen
			}
			return rep, nil
		}
		axs, err := func() (a []natAxiom, err error) {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(specError); ok {
						err = fmt.Errorf("%s", e.msg)
						return
					}
					panic(r)
				}
			}()
			return v.axioms(x, -1), nil
		}()
		if err != nil {
			rep.Error = err.Error()
			return rep, x.aliasSeen
		}
		var cobls []*Obl
		for _, o := range x.obls {
			o.Query = v.query(x, o.PC.list(), o.Goal, axs)
			if o.Cand != nil {
				cobls = append(cobls, o)
			}
		}
		if len(cobls) > 0 {
			var wg sync.WaitGroup
			for _, o := range cobls {
				o := o
				wg.Add(1)
				go func() {
					defer wg.Done()
					v.sem <- struct{}{}
					defer func() { <-v.sem }()
					o.Res = runSolver("z3-new", 2*time.Second, o.Query)
				}()
			}
			wg.Wait()
			drop := false
			for _, o := range cobls {
				if o.Res.Status != "unsat" && !o.Cand.dropped {
					o.Cand.dropped = true
					drop = true
				}
			}
			if drop {
				continue
			}
		}
		break
	}
	rep.Deps = sortedKeys(x.deps)
	rep.Assumptions = sortedKeys(x.assumps)
	rep.NoTerm = x.noterm
	var rest []*Obl
	for _, o := range x.obls {
		if o.Cand == nil {
			rest = append(rest, o)
		}
	}
	v.solveAll(rest)
	rep.Obls = x.obls
	return rep, x.aliasSeen
}
