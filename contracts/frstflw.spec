package github.com/goccmack/gogll/v3/frstflw

// the sets held, as a function of the symbol
define F(ff *FF, s string, t string) bool = s in ff.firstSets && t in ff.firstSets[s].set
spec V(ff *FF) fn[string]set[string]
  reads F(ff, "", "")
axiom Vdef: forall ff *FF, s, t string :: {t in V(ff)[s]} t in V(ff)[s] <==> F(ff, s, t)
define firstOK(ff *FF) bool = ff != nil && (forall s string :: {s in ff.firstSets} s in ff.firstSets ==> ff.firstSets[s] != nil && ff.firstSets[s].set != nil)

// FIRST of a sequence of symbols by the sets v
opaque strFirst(v fn[string]set[string], R arr[string], o, n int, t string) bool = ite(t == "ϵ", forall i int :: {at(R, o, i)} 0 <= i < n ==> "ϵ" in v[at(R, o, i)], exists i int :: {at(R, o, i)} 0 <= i < n && t in v[at(R, o, i)] && (forall j int :: {at(R, o, j)} 0 <= j < i ==> "ϵ" in v[at(R, o, j)]))
define nullTo(v fn[string]set[string], a *ast.SyntaxAlternate, n int) bool = forall j int :: {a.Symbols[j]} 0 <= j < n ==> "ϵ" in v[symID(a.Symbols[j])]
opaque altFirst(v fn[string]set[string], a *ast.SyntaxAlternate, t string) bool = ite(t == "ϵ", nullTo(v, a, len(a.Symbols)), exists i int :: {a.Symbols[i]} 0 <= i < len(a.Symbols) && t in v[symID(a.Symbols[i])] && nullTo(v, a, i))
define ntFirst(v fn[string]set[string], g *ast.GoGLL, s string, t string) bool = exists i, k int :: {g.SyntaxRules[i].Alternates[k]} 0 <= i < len(g.SyntaxRules) && headID(g.SyntaxRules[i]) == s && 0 <= k < len(g.SyntaxRules[i].Alternates) && altFirst(v, g.SyntaxRules[i].Alternates[k], t)
// the FIRST set of s by one application of the rules to the sets v; T are the terminals
framed altFirst firstStep
opaque firstStep(v fn[string]set[string], g *ast.GoGLL, T set[string], s string, t string) bool = ite(s in T, t == s, ntFirst(v, g, s, t))
define gOK(g *ast.GoGLL) bool = rulesOK(g) && uniqueRules(g) && termsOK(g)
define hasRule(g *ast.GoGLL, s string) bool = exists i int :: {g.SyntaxRules[i]} 0 <= i < len(g.SyntaxRules) && headID(g.SyntaxRules[i]) == s
define allRules(g *ast.GoGLL) bool = forall s string :: {s in g.NonTerminals.set} s in g.NonTerminals.set ==> hasRule(g, s)

func (*FF).FirstOfSymbol(ff, s) (res)
  requires firstOK(ff)
  ensures res != nil && res.set != nil
  ensures dom(res.set) == V(ff)[s]
  ensures s in ff.firstSets ==> res == ff.firstSets[s]
  ensures !(s in ff.firstSets) ==> fresh(res)
  ensures V(ff) == old(V(ff))

func (*FF).FirstOfString(ff, str) (res)
  reveal strFirst
  requires firstOK(ff)
  ensures fresh(res) && fresh(ref(res.set))
  ensures V(ff) == old(V(ff))
  ensures forall t string :: {t in res.set} {strFirst(V(ff), row(str), off(str), len(str), t)} t in res.set <==> strFirst(V(ff), row(str), off(str), len(str), t)
  loop 1
    invariant fresh(first) && fresh(ref(first.set))
    invariant V(ff) == old(V(ff))
    invariant forall j int :: {str[j]} 0 <= j < $i ==> "ϵ" in V(ff)[str[j]]
    invariant forall t string :: {t in first.set} t in first.set <==> ite(t == "ϵ", $i > 0, exists j int :: {str[j]} 0 <= j < $i && t in V(ff)[str[j]])

func (*FF).getFirstOfAlternate(ff, a) (res)
  reveal altFirst, strFirst
  requires firstOK(ff) && altOK(a)
  ensures fresh(res) && fresh(ref(res.set))
  ensures V(ff) == old(V(ff))
  ensures forall t string :: {t in res.set} {altFirst(V(ff), a, t)} t in res.set <==> altFirst(V(ff), a, t)

func (*FF).getFirstOfNonTerminal(ff, s) (res)
  requires firstOK(ff) && gOK(ff.g) && hasRule(ff.g, s)
  ensures fresh(res) && fresh(ref(res.set))
  ensures V(ff) == old(V(ff))
  ensures forall t string :: {t in res.set} t in res.set <==> ntFirst(V(ff), ff.g, s, t)
  loop 1
    invariant fresh(first) && fresh(ref(first.set))
    invariant V(ff) == old(V(ff))
    invariant forall i int :: {ff.g.SyntaxRules[i]} 0 <= i < len(ff.g.SyntaxRules) && headID(ff.g.SyntaxRules[i]) == s ==> ff.g.SyntaxRules[i].Alternates == $coll
    invariant forall t string :: {t in first.set} t in first.set <==> (exists k int :: {$coll[k]} 0 <= k < $i && altFirst(V(ff), $coll[k], t))

func (*FF).getFirstOfSymbol(ff, s) (res)
  reveal firstStep
  requires firstOK(ff) && gOK(ff.g) && (s in ff.g.Terminals.set || hasRule(ff.g, s))
  ensures fresh(res) && fresh(ref(res.set))
  ensures V(ff) == old(V(ff))
  ensures forall t string :: {t in res.set} {firstStep(V(ff), ff.g, dom(ff.g.Terminals.set), s, t)} t in res.set <==> firstStep(V(ff), ff.g, dom(ff.g.Terminals.set), s, t)

// ---- the fixed point of FIRST ----
define isSym(g *ast.GoGLL, s string) bool = s in g.Terminals.set || s in g.NonTerminals.set
define subV(v fn[string]set[string], w fn[string]set[string]) bool = forall s, t string :: {t in v[s]} t in v[s] ==> t in w[s]
// an arbitrary solution of the equations: the computed sets are below every solution
spec anyFirst() fn[string]set[string]
opaque closedFirst(w fn[string]set[string], g *ast.GoGLL, T set[string]) bool = forall s, t string :: {t in w[s]} firstStep(w, g, T, s, t) ==> t in w[s]
framed closedFirst
lemma altMono: forall v, w fn[string]set[string], a *ast.SyntaxAlternate, t string :: {altFirst(v, a, t), altFirst(w, a, t)} subV(v, w) && altFirst(v, a, t) ==> altFirst(w, a, t)
  reveal altFirst
lemma firstMono: forall v, w fn[string]set[string], g *ast.GoGLL, T set[string], s, t string :: {firstStep(v, g, T, s, t), firstStep(w, g, T, s, t)} subV(v, w) && firstStep(v, g, T, s, t) ==> firstStep(w, g, T, s, t)
  reveal firstStep
lemma firstLeast: forall v, w fn[string]set[string], g *ast.GoGLL, T set[string], s, t string :: {closedFirst(w, g, T), firstStep(v, g, T, s, t)} closedFirst(w, g, T) && subV(v, w) && firstStep(v, g, T, s, t) ==> t in w[s]
  reveal closedFirst

func (*FF).initFirstSets(ff)
  requires ff != nil && termsOK(ff.g)
  modifies ff.firstSets
  ensures firstOK(ff) && fresh(ref(ff.firstSets))
  ensures forall s string :: {s in ff.firstSets} s in ff.firstSets <==> isSym(ff.g, s)
  ensures forall s, t string :: {t in V(ff)[s]} !(t in V(ff)[s])
  loop 1
    invariant firstOK(ff) && fresh(ref(ff.firstSets))
    invariant forall s string :: {s in ff.firstSets} s in ff.firstSets <==> (exists i int :: {$coll[i]} 0 <= i < $i && $coll[i] == s)
    invariant forall s, t string :: {t in V(ff)[s]} !(t in V(ff)[s])

func (*FF).genFirstSets(ff)
  noterm
  requires ff != nil && gOK(ff.g) && allRules(ff.g)
  modifies ff.firstSets
  ensures firstOK(ff) && fresh(ref(ff.firstSets))
  ensures forall s string :: {s in ff.firstSets} s in ff.firstSets <==> isSym(ff.g, s)
  ensures fixpoint: forall s, t string :: {t in V(ff)[s]} isSym(ff.g, s) ==> (t in V(ff)[s] <==> firstStep(V(ff), ff.g, dom(ff.g.Terminals.set), s, t))
  ensures least: closedFirst(anyFirst(), ff.g, dom(ff.g.Terminals.set)) ==> subV(V(ff), anyFirst())
  loop 1
    invariant firstOK(ff) && fresh(ref(ff.firstSets))
    invariant forall s string :: {s in ff.firstSets} s in ff.firstSets <==> isSym(ff.g, s)
    invariant !again ==> (forall s, t string :: {t in V(ff)[s]} isSym(ff.g, s) ==> (t in V(ff)[s] <==> firstStep(V(ff), ff.g, dom(ff.g.Terminals.set), s, t)))
    invariant closedFirst(anyFirst(), ff.g, dom(ff.g.Terminals.set)) ==> subV(V(ff), anyFirst())
  loop 2
    invariant firstOK(ff) && fresh(ref(ff.firstSets))
    invariant forall s string :: {s in ff.firstSets} s in ff.firstSets <==> isSym(ff.g, s)
    invariant forall i int :: {$coll[i]} 0 <= i < len($coll) ==> isSym(ff.g, $coll[i])
    invariant forall s string :: {s in ff.firstSets} {s in ff.g.Terminals.set} {s in ff.g.NonTerminals.set} isSym(ff.g, s) ==> (exists i int :: {$coll[i]} 0 <= i < len($coll) && $coll[i] == s)
    invariant !again ==> (forall k int, t string :: {t in V(ff)[$coll[k]]} 0 <= k < $i ==> (t in V(ff)[$coll[k]] <==> firstStep(V(ff), ff.g, dom(ff.g.Terminals.set), $coll[k], t)))
    invariant closedFirst(anyFirst(), ff.g, dom(ff.g.Terminals.set)) ==> subV(V(ff), anyFirst())

// ---- FOLLOW ----
define FO(ff *FF, s string, t string) bool = s in ff.followSets && t in ff.followSets[s].set
spec W(ff *FF) fn[string]set[string]
  reads FO(ff, "", "")
axiom Wdef: forall ff *FF, s, t string :: {t in W(ff)[s]} t in W(ff)[s] <==> FO(ff, s, t)
define followOK(ff *FF) bool = ff != nil && (forall s string :: {s in ff.followSets} s in ff.followSets ==> ff.followSets[s] != nil && ff.followSets[s].set != nil)
// the symbols of a from p on can begin with t (t == ϵ: can be empty)
opaque tailFirst(v fn[string]set[string], a *ast.SyntaxAlternate, p int, t string) bool = ite(t == "ϵ", forall j int :: {a.Symbols[j]} p <= j < len(a.Symbols) ==> "ϵ" in v[symID(a.Symbols[j])], exists i int :: {a.Symbols[i]} p <= i < len(a.Symbols) && t in v[symID(a.Symbols[i])] && (forall j int :: {a.Symbols[j]} p <= j < i ==> "ϵ" in v[symID(a.Symbols[j])]))
// n strings from o on are the symbols of a from p on
opaque symsAre(R arr[string], o, n int, a *ast.SyntaxAlternate, p int) bool = n == len(a.Symbols) - p && (forall i int :: {at(R, o, i)} 0 <= i < n ==> at(R, o, i) == symID(a.Symbols[p + i])) && (forall j int :: {a.Symbols[j]} p <= j < len(a.Symbols) ==> at(R, o, j - p) == symID(a.Symbols[j]))
framed symsAre
lemma tailStr: forall v fn[string]set[string], R arr[string], o, n int, a *ast.SyntaxAlternate, p int, t string :: {strFirst(v, R, o, n, t), tailFirst(v, a, p, t)} p >= 0 && symsAre(R, o, n, a, p) ==> (strFirst(v, R, o, n, t) <==> tailFirst(v, a, p, t))
  reveal strFirst, tailFirst, symsAre
// what one occurrence of nt, at position p of an alternate of the rule of h, adds to its FOLLOW set
opaque occFollow(v, w fn[string]set[string], h string, a *ast.SyntaxAlternate, p int, t string) bool = t != "ϵ" && (tailFirst(v, a, p + 1, t) || tailFirst(v, a, p + 1, "ϵ") && t in w[h])
opaque altFollow(v, w fn[string]set[string], h string, a *ast.SyntaxAlternate, nt string, t string) bool = exists p int :: {a.Symbols[p]} 0 <= p < len(a.Symbols) && symID(a.Symbols[p]) == nt && occFollow(v, w, h, a, p, t)
opaque ruleFollow(v, w fn[string]set[string], r *ast.SyntaxRule, nt string, t string) bool = exists k int :: {r.Alternates[k]} 0 <= k < len(r.Alternates) && altFollow(v, w, headID(r), r.Alternates[k], nt, t)
opaque followStep(v, w fn[string]set[string], g *ast.GoGLL, nt string, t string) bool = exists i int :: {g.SyntaxRules[i]} 0 <= i < len(g.SyntaxRules) && ruleFollow(v, w, g.SyntaxRules[i], nt, t)
framed tailFirst occFollow altFollow ruleFollow followStep

func (*FF).Follow(ff, nt) (res)
  requires followOK(ff)
  ensures res != nil && res.set != nil
  ensures dom(res.set) == W(ff)[nt]
  ensures W(ff) == old(W(ff))

func (*FF).genFollowOf(ff, nt) (res)
  reveal symsAre, occFollow, altFollow, ruleFollow, followStep
  requires firstOK(ff) && followOK(ff) && gOK(ff.g) && nt in ff.followSets
  requires forall s string :: {"ϵ" in W(ff)[s]} !("ϵ" in W(ff)[s])
  ensures fresh(res) && fresh(ref(res.set))
  ensures V(ff) == old(V(ff)) && W(ff) == old(W(ff))
  ensures forall t string :: {t in res.set} {followStep(V(ff), W(ff), ff.g, nt, t)} t in res.set <==> (followStep(V(ff), W(ff), ff.g, nt, t) || t in W(ff)[nt])
  loop 1
    invariant fresh(follow) && fresh(ref(follow.set))
    invariant V(ff) == old(V(ff)) && W(ff) == old(W(ff))
    invariant forall t string :: {t in follow.set} t in follow.set && t != "ϵ" <==> (exists i int :: {$coll[i]} {ruleFollow(V(ff), W(ff), $coll[i], nt, t)} 0 <= i < $i && ruleFollow(V(ff), W(ff), $coll[i], nt, t))
    end rule: forall t string :: {t in follow.set} {ruleFollow(V(ff), W(ff), r, nt, t)} t in follow.set && t != "ϵ" ==> (exists i int :: {$coll[i]} {ruleFollow(V(ff), W(ff), $coll[i], nt, t)} 0 <= i < $i && ruleFollow(V(ff), W(ff), $coll[i], nt, t)) || ruleFollow(V(ff), W(ff), r, nt, t)
  loop 2
    invariant fresh(follow) && fresh(ref(follow.set))
    invariant V(ff) == old(V(ff)) && W(ff) == old(W(ff))
    invariant forall t string :: {t in follow.set} t in follow.set && t != "ϵ" <==> (before(t in follow.set && t != "ϵ") || (exists k int :: {$coll[k]} {altFollow(V(ff), W(ff), headID(r), $coll[k], nt, t)} 0 <= k < $i && altFollow(V(ff), W(ff), headID(r), $coll[k], nt, t)))
  loop 3
    invariant fresh(follow) && fresh(ref(follow.set))
    invariant V(ff) == old(V(ff)) && W(ff) == old(W(ff))
    invariant forall i int :: {bs[i]} {a.Symbols[i]} 0 <= i < len(bs) ==> bs[i] == symID(a.Symbols[i])
    invariant len(bs) == len(a.Symbols)
    end symsAre(row(bs), off(bs) + idx + 1, len(bs) - idx - 1, a, idx + 1)
    end first: forall t string :: {t in first.set} {tailFirst(V(ff), a, idx + 1, t)} t in first.set <==> tailFirst(V(ff), a, idx + 1, t)
    end occ: forall t string :: {t in follow.set} {occFollow(V(ff), W(ff), headID(r), a, idx, t)} t in follow.set && t != "ϵ" ==> before(t in follow.set && t != "ϵ") || (exists k int :: {$coll[k]} 0 <= k < $i && occFollow(V(ff), W(ff), headID(r), a, $coll[k], t)) || occFollow(V(ff), W(ff), headID(r), a, idx, t)
    invariant forall t string :: {t in follow.set} t in follow.set && t != "ϵ" <==> (before(t in follow.set && t != "ϵ") || (exists k int :: {$coll[k]} {occFollow(V(ff), W(ff), headID(r), a, $coll[k], t)} 0 <= k < $i && occFollow(V(ff), W(ff), headID(r), a, $coll[k], t)))

// ---- the fixed point of FOLLOW ----
opaque followEq(v, w fn[string]set[string], g *ast.GoGLL, s string, t string) bool = followStep(v, w, g, s, t) || s == headID(g.SyntaxRules[0]) && t == "$"
// an arbitrary solution of the equations: the computed sets are below every solution
spec anyFollow() fn[string]set[string]
opaque closedFollow(v, w fn[string]set[string], g *ast.GoGLL) bool = forall s, t string :: {t in w[s]} followEq(v, w, g, s, t) ==> t in w[s]
framed followEq closedFollow
lemma occMono: forall v, w, u fn[string]set[string], h string, a *ast.SyntaxAlternate, p int, t string :: {occFollow(v, w, h, a, p, t), occFollow(v, u, h, a, p, t)} subV(w, u) && occFollow(v, w, h, a, p, t) ==> occFollow(v, u, h, a, p, t)
  reveal occFollow
lemma altFMono: forall v, w, u fn[string]set[string], h string, a *ast.SyntaxAlternate, nt string, t string :: {altFollow(v, w, h, a, nt, t), altFollow(v, u, h, a, nt, t)} subV(w, u) && altFollow(v, w, h, a, nt, t) ==> altFollow(v, u, h, a, nt, t)
  reveal altFollow
lemma ruleFMono: forall v, w, u fn[string]set[string], r *ast.SyntaxRule, nt string, t string :: {ruleFollow(v, w, r, nt, t), ruleFollow(v, u, r, nt, t)} subV(w, u) && ruleFollow(v, w, r, nt, t) ==> ruleFollow(v, u, r, nt, t)
  reveal ruleFollow
lemma stepFMono: forall v, w, u fn[string]set[string], g *ast.GoGLL, nt string, t string :: {followStep(v, w, g, nt, t), followStep(v, u, g, nt, t)} subV(w, u) && followStep(v, w, g, nt, t) ==> followStep(v, u, g, nt, t)
  reveal followStep
lemma eqFMono: forall v, w, u fn[string]set[string], g *ast.GoGLL, nt string, t string :: {followEq(v, w, g, nt, t), followEq(v, u, g, nt, t)} subV(w, u) && followEq(v, w, g, nt, t) ==> followEq(v, u, g, nt, t)
  reveal followEq
lemma followLeast: forall v, w, u fn[string]set[string], g *ast.GoGLL, s, t string :: {closedFollow(v, u, g), followEq(v, w, g, s, t)} closedFollow(v, u, g) && subV(w, u) && followEq(v, w, g, s, t) ==> t in u[s]
  reveal closedFollow
lemma startLeast: forall v, u fn[string]set[string], g *ast.GoGLL :: {closedFollow(v, u, g)} closedFollow(v, u, g) ==> "$" in u[headID(g.SyntaxRules[0])]
  reveal closedFollow, followEq
lemma stepLeast: forall v, w, u fn[string]set[string], g *ast.GoGLL, s, t string :: {closedFollow(v, u, g), followStep(v, w, g, s, t)} closedFollow(v, u, g) && subV(w, u) && followStep(v, w, g, s, t) ==> t in u[s]
  reveal closedFollow, followEq
lemma followNoEmpty: forall v, w fn[string]set[string], g *ast.GoGLL, s string :: {followStep(v, w, g, s, "ϵ")} !followStep(v, w, g, s, "ϵ")
  reveal followStep, ruleFollow, altFollow, occFollow

func (*FF).initFollowSets(ff)
  requires ff != nil && gOK(ff.g) && len(ff.g.SyntaxRules) > 0
  modifies ff.followSets
  ensures followOK(ff) && fresh(ref(ff.followSets))
  ensures V(ff) == old(V(ff))
  ensures forall s string :: {s in ff.followSets} s in ff.followSets <==> s in ff.g.NonTerminals.set
  ensures forall s, t string :: {t in W(ff)[s]} t in W(ff)[s] <==> s in ff.g.NonTerminals.set && s == headID(ff.g.SyntaxRules[0]) && t == "$"
  loop 1
    invariant followOK(ff) && fresh(ref(ff.followSets))
    invariant V(ff) == old(V(ff))
    invariant forall i int :: {$coll[i]} 0 <= i < len($coll) ==> $coll[i] in ff.g.NonTerminals.set
    invariant forall s string :: {s in ff.g.NonTerminals.set} {s in ff.followSets} s in ff.g.NonTerminals.set ==> (exists i int :: {$coll[i]} 0 <= i < len($coll) && $coll[i] == s)
    invariant forall s string :: {s in ff.followSets} s in ff.followSets <==> (exists i int :: {$coll[i]} 0 <= i < $i && $coll[i] == s)
    invariant forall s, t string :: {t in W(ff)[s]} t in W(ff)[s] <==> s in ff.followSets && s == headID(ff.g.SyntaxRules[0]) && t == "$"
    end forall s, t string :: {t in W(ff)[s]} s != nt ==> (t in W(ff)[s] <==> t in start(W(ff))[s])
    end forall t string :: {t in W(ff)[nt]} t in W(ff)[nt] <==> nt == headID(ff.g.SyntaxRules[0]) && t == "$"

define followDone(ff *FF, s string, t string) bool = t in W(ff)[s] <==> followEq(V(ff), W(ff), ff.g, s, t)
func (*FF).genFollow(ff)
  noterm
  reveal followEq
  requires firstOK(ff) && gOK(ff.g) && len(ff.g.SyntaxRules) > 0
  modifies ff.followSets
  ensures followOK(ff) && fresh(ref(ff.followSets))
  ensures V(ff) == old(V(ff))
  ensures forall s string :: {s in ff.followSets} s in ff.followSets <==> s in ff.g.NonTerminals.set
  ensures fixpoint: forall s, t string :: {t in W(ff)[s]} s in ff.g.NonTerminals.set ==> followDone(ff, s, t)
  ensures least: closedFollow(V(ff), anyFollow(), ff.g) ==> subV(W(ff), anyFollow())
  loop 1
    invariant followOK(ff) && fresh(ref(ff.followSets))
    invariant V(ff) == old(V(ff))
    invariant forall s string :: {s in ff.followSets} s in ff.followSets <==> s in ff.g.NonTerminals.set
    invariant forall s string :: {"ϵ" in W(ff)[s]} !("ϵ" in W(ff)[s])
    invariant forall s, t string :: {t in W(ff)[s]} s in ff.g.NonTerminals.set && s == headID(ff.g.SyntaxRules[0]) && t == "$" ==> t in W(ff)[s]
    invariant below: forall s, t string :: {t in W(ff)[s]} t in W(ff)[s] ==> followEq(V(ff), W(ff), ff.g, s, t)
    invariant !again ==> (forall s, t string :: {t in W(ff)[s]} s in ff.g.NonTerminals.set ==> followDone(ff, s, t))
    invariant closedFollow(V(ff), anyFollow(), ff.g) ==> subV(W(ff), anyFollow())
  loop 2
    invariant followOK(ff) && fresh(ref(ff.followSets))
    invariant V(ff) == old(V(ff))
    invariant len(ff.followSets) == numSets
    invariant forall s string :: {s in ff.followSets} s in ff.followSets <==> s in ff.g.NonTerminals.set
    invariant forall i int :: {$coll[i]} 0 <= i < len($coll) ==> $coll[i] in ff.g.NonTerminals.set
    invariant forall s string :: {s in ff.g.NonTerminals.set} s in ff.g.NonTerminals.set ==> (exists i int :: {$coll[i]} 0 <= i < len($coll) && $coll[i] == s)
    invariant forall s string :: {"ϵ" in W(ff)[s]} !("ϵ" in W(ff)[s])
    invariant forall s, t string :: {t in W(ff)[s]} s in ff.g.NonTerminals.set && s == headID(ff.g.SyntaxRules[0]) && t == "$" ==> t in W(ff)[s]
    invariant below: forall s, t string :: {t in W(ff)[s]} t in W(ff)[s] ==> followEq(V(ff), W(ff), ff.g, s, t)
    invariant !again ==> (forall k int, t string :: {t in W(ff)[$coll[k]]} 0 <= k < $i ==> followDone(ff, $coll[k], t))
    invariant closedFollow(V(ff), anyFollow(), ff.g) ==> subV(W(ff), anyFollow())
    end grow: subV(start(W(ff)), W(ff))
    end new: forall t string :: {t in f.set} t in f.set ==> followEq(start(V(ff)), start(W(ff)), ff.g, nt, t)
    end shape: forall s, t string :: {t in W(ff)[s]} t in W(ff)[s] ==> t in start(W(ff))[s] || s == nt && t in f.set
    end same: !again ==> dom(f.set) == W(ff)[nt]
    end done: !again ==> (forall t string :: {t in W(ff)[nt]} {followStep(V(ff), W(ff), ff.g, nt, t)} {followEq(V(ff), W(ff), ff.g, nt, t)} followDone(ff, nt, t))

func New(g) (res)
  noterm
  requires gOK(g) && allRules(g) && len(g.SyntaxRules) > 0
  ensures fresh(res) && res.g == g && firstOK(res) && followOK(res)
  ensures forall s string :: {s in res.firstSets} s in res.firstSets <==> isSym(g, s)
  ensures forall s string :: {s in res.followSets} s in res.followSets <==> s in g.NonTerminals.set
  ensures first: forall s, t string :: {t in V(res)[s]} isSym(g, s) ==> (t in V(res)[s] <==> firstStep(V(res), g, dom(g.Terminals.set), s, t))
  ensures firstLeast: closedFirst(anyFirst(), g, dom(g.Terminals.set)) ==> subV(V(res), anyFirst())
  ensures follow: forall s, t string :: {t in W(res)[s]} s in g.NonTerminals.set ==> (t in W(res)[s] <==> followEq(V(res), W(res), g, s, t))
  ensures followLeast: closedFollow(V(res), anyFollow(), g) ==> subV(W(res), anyFollow())
