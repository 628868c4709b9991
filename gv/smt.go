package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// ghost types of the contract language
type ghostType struct {
	kind string // set, arr, fn
	elem types.Type
	key  types.Type // of fn
}

func (g *ghostType) Underlying() types.Type { return g }
func (g *ghostType) String() string {
	if g.kind == "fn" {
		return "fn[" + g.key.String() + "]" + g.elem.String()
	}
	return g.kind + "[" + g.elem.String() + "]"
}

type structInfo struct {
	name   string
	fields []string
	ftypes []types.Type
}

// Sorts maps Go types to SMT sorts.
type Sorts struct {
	structs   map[string]*structInfo // by sort name
	order     []string
	ifcs      map[string]types.Type // ctor suffix -> type
	ifcOrder  []string
	tags      map[string]int
	usedFuncs map[string]string // name -> declaration
	fOrder    []string
	strlits   map[string]string // literal -> const name
	strOrder  []string
	axioms    []natAxiom
}

type natAxiom struct {
	needs []string // include if all of these symbols occur
	text  string
}

func NewSorts() *Sorts {
	return &Sorts{structs: map[string]*structInfo{}, ifcs: map[string]types.Type{}, tags: map[string]int{}, usedFuncs: map[string]string{}, strlits: map[string]string{}}
}

func tname(t types.Type) string {
	return types.TypeString(anon(t), func(p *types.Package) string { return p.Path() })
}

// anon drops parameter names from function types, so that identical types have one name.
func anon(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Signature:
		tup := func(v *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < v.Len(); i++ {
				vs = append(vs, types.NewVar(0, nil, "", anon(v.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
	case *types.Slice:
		return types.NewSlice(anon(u.Elem()))
	case *types.Pointer:
		return types.NewPointer(anon(u.Elem()))
	case *types.Map:
		return types.NewMap(anon(u.Key()), anon(u.Elem()))
	}
	return t
}

func sane(s string) string {
	r := strings.NewReplacer("github.com/goccmack/gogll/v3", "gogll", "github.com/goccmack/", "", "|", "_", "\\", "_", " ", "_", "\"", "_", ";", "_")
	return r.Replace(s)
}

func q(s string) string { return "|" + sane(s) + "|" }

func (so *Sorts) sort(t types.Type) string {
	switch t := t.(type) {
	case *ghostType:
		if t.kind == "set" {
			return "(Array " + so.sort(t.elem) + " Bool)"
		}
		if t.kind == "fn" {
			return "(Array " + so.sort(t.key) + " " + so.sort(t.elem) + ")"
		}
		return "(Array Int " + so.sort(t.elem) + ")"
	case *types.Alias:
		return so.sort(types.Unalias(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		}
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return "(Array Int " + so.sort(u.Elem()) + ")"
	case *types.Struct:
		return so.structSort(t, u)
	}
	return "Int"
}

func (so *Sorts) structSort(t types.Type, u *types.Struct) string {
	name := q("S!" + tname(t))
	if _, ok := so.structs[name]; !ok {
		si := &structInfo{name: name}
		so.structs[name] = si
		for i := 0; i < u.NumFields(); i++ {
			si.fields = append(si.fields, u.Field(i).Name())
			si.ftypes = append(si.ftypes, u.Field(i).Type())
			so.sort(u.Field(i).Type())
		}
		so.order = append(so.order, name)
	}
	return name
}

func selName(structSort, field string) string {
	return "|" + strings.Trim(structSort, "|") + "." + field + "|"
}
func mkName(structSort string) string { return "|mk:" + strings.Trim(structSort, "|") + "|" }

// ctor returns the Iface constructor and selector for concrete type t.
func (so *Sorts) ctor(t types.Type) (string, string) {
	n := sane(tname(t))
	if _, ok := so.ifcs[n]; !ok {
		so.ifcs[n] = t
		so.ifcOrder = append(so.ifcOrder, n)
		so.sort(t)
	}
	return ctorName(n), "|u:" + n + "|"
}

var simpleSym = regexp.MustCompile(`^[A-Za-z0-9~!@$%^&*_+=<>.?/-]+$`)

// ctorName: cvc5 takes no quoted symbol after (_ is
func ctorName(n string) string {
	if simpleSym.MatchString(n) {
		return "I_" + n
	}
	return "|I:" + n + "|"
}

func (so *Sorts) tag(t types.Type) int {
	n := tname(t)
	if _, ok := so.tags[n]; !ok {
		so.tags[n] = len(so.tags) + 1
	}
	return so.tags[n]
}

func (so *Sorts) declFun(name, decl string) {
	if _, ok := so.usedFuncs[name]; !ok {
		so.usedFuncs[name] = decl
		so.fOrder = append(so.fOrder, name)
	}
}

// declSprintf declares the text of a format. A format of decimal integers whose separators do not
// begin with a digit is read back uniquely: the arguments are functions of the text.
func (so *Sorts) declSprintf(n, format string, sorts []string) {
	if _, ok := so.usedFuncs[n]; ok {
		return
	}
	so.declFun(n, "(declare-fun "+n+" ("+strings.Join(sorts, " ")+") Str)")
	parts := strings.Split(format, "%d")
	if len(sorts) == 0 || len(parts) != len(sorts)+1 {
		return
	}
	for i, p := range parts {
		if strings.Contains(p, "%") || i > 0 && i < len(sorts) && p == "" || i > 0 && p != "" && p[0] >= '0' && p[0] <= '9' {
			return
		}
	}
	var ds, vs []string
	for i, s := range sorts {
		if s != "Int" {
			return
		}
		ds = append(ds, fmt.Sprintf("(v%d Int)", i))
		vs = append(vs, fmt.Sprintf("v%d", i))
	}
	ap := "(" + n + " " + strings.Join(vs, " ") + ")"
	for i := range sorts {
		inv := q(strings.Trim(n, "|") + fmt.Sprintf("!arg%d", i))
		so.declFun(inv, "(declare-fun "+inv+" (Str) Int)")
		so.axioms = append(so.axioms, natAxiom{[]string{n}, fmt.Sprintf("(assert (forall (%s) (! (= (%s %s) v%d) :pattern (%s))))", strings.Join(ds, " "), inv, ap, i, ap)})
	}
}

func (so *Sorts) strlit(s string) string {
	if n, ok := so.strlits[s]; ok {
		return n
	}
	n := fmt.Sprintf("strlit!%d", len(so.strlits))
	so.strlits[s] = n
	so.strOrder = append(so.strOrder, s)
	return n
}

// atFn returns the element accessor for an element sort.
func (so *Sorts) atFn(sort string) string {
	name := "|at!" + strings.ReplaceAll(strings.Trim(sort, "|"), "|", "") + "|"
	if _, ok := so.usedFuncs[name]; !ok {
		so.declFun(name, fmt.Sprintf("(declare-fun %s ((Array Int %s) Int Int) %s)", name, sort, sort))
		so.axioms = append(so.axioms, natAxiom{[]string{name}, fmt.Sprintf(
			"(assert (forall ((r (Array Int %s)) (o Int) (i Int)) (! (= (%s r o i) (select r (+ o i))) :pattern ((%s r o i)))))", sort, name, name)})
		so.axioms = append(so.axioms, natAxiom{[]string{name, "store"}, fmt.Sprintf(
			"(assert (forall ((r (Array Int %s)) (o Int) (i Int) (p Int) (v %s)) (! (= (%s (store r p v) o i) (ite (= p (+ o i)) v (%s r o i))) :pattern ((%s (store r p v) o i)))))", sort, sort, name, name, name)})
	}
	return name
}

// card function of a set sort
func (so *Sorts) cardFn(k string) string {
	kk := strings.ReplaceAll(k, "|", "")
	name := "|card!" + kk + "|"
	if _, ok := so.usedFuncs[name]; !ok {
		set := "(Array " + k + " Bool)"
		so.declFun(name, fmt.Sprintf("(declare-fun %s (%s) Int)", name, set))
		w := "|cardw!" + kk + "|"
		so.declFun(w, fmt.Sprintf("(declare-fun %s (%s %s) %s)", w, set, set, k))
		e := "|carde!" + kk + "|"
		so.declFun(e, fmt.Sprintf("(declare-fun %s (%s) %s)", e, set, k))
		ax := []string{
			fmt.Sprintf("(assert (forall ((s %s)) (! (>= (%s s) 0) :pattern ((%s s)))))", set, name, name),
			fmt.Sprintf("(assert (= (%s ((as const %s) false)) 0))", name, set),
			// an inhabited set has positive size; a set of positive size is inhabited (witness e)
			fmt.Sprintf("(assert (forall ((s %s)) (! (=> (> (%s s) 0) (select s (%s s))) :pattern ((%s s)))))", set, name, e, name),
			fmt.Sprintf("(assert (forall ((s %s) (x %s)) (! (=> (select s x) (> (%s s) 0)) :pattern ((%s s) (select s x)))))", set, k, name, name),
			fmt.Sprintf("(assert (forall ((s %s) (x %s)) (! (= (%s (store s x true)) (+ (%s s) (ite (select s x) 0 1))) :pattern ((%s (store s x true))))))", set, k, name, name, name),
			fmt.Sprintf("(assert (forall ((s %s) (x %s)) (! (= (%s (store s x false)) (- (%s s) (ite (select s x) 1 0))) :pattern ((%s (store s x false))))))", set, k, name, name, name),
			// A subset of B (no witness w in A\B): |A|<=|B|, and equal sizes give equal sets
			fmt.Sprintf("(assert (forall ((a %s) (b %s)) (! (or (and (select a (%s a b)) (not (select b (%s a b)))) (and (<= (%s a) (%s b)) (=> (= (%s a) (%s b)) (= a b)))) :pattern ((%s a) (%s b)))))", set, set, w, w, name, name, name, name, name, name),
		}
		for _, a := range ax {
			so.axioms = append(so.axioms, natAxiom{[]string{name}, a})
		}
	}
	return name
}

var symRe = regexp.MustCompile(`\|[^|]*\||[A-Za-z_~!@$%^&*+=<>.?/\-][A-Za-z0-9_~!@$%^&*+=<>.?/\-]*`)

func syms(text string, into map[string]bool) {
	for _, s := range symRe.FindAllString(text, -1) {
		into[s] = true
	}
}

const preludeA = `(declare-sort Str 0)
(declare-sort Slice 0)
(declare-fun s-arr (Slice) Int)
(declare-fun s-off (Slice) Int)
(declare-fun s-len (Slice) Int)
(declare-fun s-cap (Slice) Int)
(declare-const nil-slice Slice)
(assert (= (s-arr nil-slice) 0))
(assert (forall ((s Slice)) (! (and (<= 0 (s-len s)) (<= (s-len s) (s-cap s))) :pattern ((s-len s)))))
(assert (forall ((s Slice)) (! (<= 0 (s-off s)) :pattern ((s-off s)))))
(assert (forall ((s Slice)) (! (and (<= 0 (s-arr s)) (=> (= (s-arr s) 0) (and (= (s-len s) 0) (= (s-cap s) 0)))) :pattern ((s-arr s)))))
(assert (forall ((s Slice)) (! (and (<= 0 (s-len s)) (<= (s-len s) (s-cap s))) :pattern ((s-cap s)))))
`

// datatypes emits every struct sort and the interface sort.
func (so *Sorts) datatypes() string {
	var b strings.Builder
	// closing over: sorting structs may register more
	for i := 0; i < len(so.ifcOrder); i++ {
		so.sort(so.ifcs[so.ifcOrder[i]])
	}
	b.WriteString("(declare-datatypes (")
	for _, n := range so.order {
		fmt.Fprintf(&b, "(%s 0) ", n)
	}
	b.WriteString("(Iface 0)) (")
	for _, n := range so.order {
		si := so.structs[n]
		fmt.Fprintf(&b, "((%s", mkName(n))
		for i, f := range si.fields {
			fmt.Fprintf(&b, " (%s %s)", selName(n, f), so.sort(si.ftypes[i]))
		}
		b.WriteString("))\n ")
	}
	b.WriteString("((I-nil) (I-other (I-otag Int) (I-oval Int))")
	for _, n := range so.ifcOrder {
		fmt.Fprintf(&b, " (%s (|u:%s| %s))", ctorName(n), n, so.sort(so.ifcs[n]))
	}
	b.WriteString(")))\n")
	return b.String()
}

// ---------- solver ----------

type SolveResult struct {
	Status string // unsat sat unknown timeout error
	Solver string
	Secs   float64
	Output string
	Core   []string
}

var solverMu sync.Mutex
var solverTime = map[string]float64{}
var solverCount = map[string]int{}

func runSolver(name string, timeout time.Duration, query string) SolveResult {
	ms := int(timeout / time.Millisecond)
	var cmd *exec.Cmd
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	switch name {
	case "z3":
		cmd = exec.CommandContext(ctx, "z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-new", "z3-auto", "z3-rel0":
		if name == "z3-rel0" {
			query = "(set-option :smt.solve_eqs false)\n(set-option :smt.relevancy 0)\n" + query
		} else if name == "z3-new" {
			query = "(set-option :smt.solve_eqs false)\n" + query
		} else {
			query = strings.Replace(query, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", "", 1)
		}
		cmd = exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "cvc5":
		query = strings.Replace(query, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", "", 1)
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), "-")
	}
	cmd.Stdin = strings.NewReader(query)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	err := cmd.Run()
	d := time.Since(t0).Seconds()
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	res := SolveResult{Solver: name, Secs: d, Output: s}
	switch first {
	case "unsat", "sat", "unknown":
		res.Status = first
	default:
		if ctx.Err() != nil || strings.Contains(s, "timeout") || strings.Contains(s, "interrupted") {
			res.Status = "timeout"
		} else {
			res.Status = "error"
			if err != nil {
				res.Output += " [" + err.Error() + "]"
			}
		}
	}
	solverMu.Lock()
	solverTime[name] += d
	solverCount[name]++
	solverMu.Unlock()
	return res
}

// solveRest tries the back ends after the first in turn until one gives unsat.
func solveRest(query string, r SolveResult, quick, long time.Duration) SolveResult {
	if r.Status == "error" || r.Status == "sat" {
		return r
	}
	best := r
	for _, a := range []struct {
		s string
		t time.Duration
	}{{"z3-rel0", quick}, {"z3-auto", quick}, {"cvc5", quick}, {"z3", quick}, {"z3-new", long}, {"cvc5", long}} {
		r2 := runSolver(a.s, a.t, query)
		if r2.Status == "unsat" {
			return r2
		}
		if r2.Status == "sat" {
			best = r2
		}
	}
	return best
}

func dumpQuery(dir, name, query string) string {
	if dir == "" {
		return ""
	}
	os.MkdirAll(dir, 0o755)
	f := dir + "/" + regexp.MustCompile(`[^A-Za-z0-9_.\-]+`).ReplaceAllString(name, "_") + ".smt2"
	os.WriteFile(f, []byte(query), 0o644)
	return f
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
