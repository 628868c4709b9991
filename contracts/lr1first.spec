package github.com/goccmack/gogll/v3/lr1/first

define fsIn(f FirstSet, t string) bool = inStr(row(f), off(f), len(f), t)

func (FirstSet).Contain(this, sym) (res)
  reveal inStr
  ensures res <==> fsIn(this, sym)
  loop 1
    invariant !inStr(row(this), off(this), $i, sym)

// appends behind the elements of this
func (FirstSet).Add(this, sym) (fs, new)
  reveal inStr
  requires len(sym) > 0 && cap(this) > 0 ==> arr(sym) != arr(this)
  modifies elems(this)
  ensures forall t string :: {fsIn(fs, t)} fsIn(fs, t) <==> old(fsIn(this, t)) || old(fsIn(sym, t))
  ensures new <==> (exists i int :: {sym[i]} 0 <= i < len(sym) && !old(fsIn(this, sym[i])))
  ensures !new ==> fs == this
  ensures cap(fs) > 0 ==> fresh(arr(fs)) || cap(this) > 0 && arr(fs) == arr(this)
  ensures arr(fs) == arr(this) && off(fs) == off(this) && cap(fs) == cap(this) || fresh(arr(fs)) && cap(fs) > 0
  ensures !new ==> (forall t string :: {fsIn(sym, t)} old(fsIn(sym, t)) ==> old(fsIn(this, t)))
  ensures forall i int :: {this[i]} 0 <= i < len(this) ==> this[i] == old(this[i])
  loop 1
    invariant cap(fs) > 0 ==> fresh(arr(fs)) || cap(this) > 0 && arr(fs) == arr(this)
    invariant arr(fs) == arr(this) && off(fs) == off(this) && cap(fs) == cap(this) || fresh(arr(fs)) && cap(fs) > 0
    invariant forall i int :: {this[i]} 0 <= i < len(this) ==> this[i] == old(this[i])
    invariant forall i int :: {sym[i]} 0 <= i < len(sym) ==> sym[i] == old(sym[i])
    invariant len(fs) >= len(this) && (!new ==> fs == this)
    invariant arr(fs) == arr(this) ==> off(fs) == off(this)
    invariant forall t string :: {fsIn(fs, t)} fsIn(fs, t) <==> old(fsIn(this, t)) || inStr(old(row(sym)), off(sym), $i, t)
    invariant new <==> (exists i int :: {sym[i]} 0 <= i < $i && !old(fsIn(this, sym[i])))

func (FirstSet).Min(this, sym) (res)
  reveal inStr
  ensures forall t string :: {fsIn(res, t)} fsIn(res, t) <==> t != sym && fsIn(this, t)
  ensures fresh(arr(res)) || cap(res) == 0
  loop 1
    invariant fresh(arr(min)) || cap(min) == 0
    invariant forall t string :: {fsIn(min, t)} fsIn(min, t) <==> t != sym && inStr(old(row(this)), off(this), $i, t)

// the sets held, as a function of the symbol
define LF(this *First, s string, t string) bool = fsIn(this.symbol[s], t)
spec LV(this *First) fn[string]set[string]
  reads LF(this, "", "")
axiom LVdef: forall this *First, s, t string :: {t in LV(this)[s]} t in LV(this)[s] <==> LF(this, s, t)
// FIRST of the symbol by the sets v
define symF(v fn[string]set[string], s ast.SyntaxSymbol, t string) bool = ite(typeis(s, *ast.NT), t in v[symID(s)] && t != "ℇ", t == symID(s))
define symE(v fn[string]set[string], s ast.SyntaxSymbol) bool = typeis(s, *ast.NT) && "ℇ" in v[symID(s)]
opaque bodyF(v fn[string]set[string], a *ast.SyntaxAlternate, t string) bool = t == "ℇ" && (forall j int :: {a.Symbols[j]} 0 <= j < len(a.Symbols) ==> symE(v, a.Symbols[j])) || (exists i int :: {a.Symbols[i]} 0 <= i < len(a.Symbols) && symF(v, a.Symbols[i], t) && (forall j int :: {a.Symbols[j]} 0 <= j < i ==> symE(v, a.Symbols[j])))
framed bodyF
// different symbols have different lists
define apartF(this *First) bool = forall s, u string :: {this.symbol[s], this.symbol[u]} s != u && cap(this.symbol[s]) > 0 && cap(this.symbol[u]) > 0 ==> arr(this.symbol[s]) != arr(this.symbol[u])
define frOK(this *First) bool = this != nil && this.symbol != nil && apartF(this)

func (*First).FirstSymbol(this, sym) (res)
  requires this != nil
  ensures res == this.symbol[sym]

// some of the first n symbols can begin with t, the ones before it being empty
opaque pfxF(v fn[string]set[string], a *ast.SyntaxAlternate, n int, t string) bool = exists i int :: {a.Symbols[i]} 0 <= i < n && symF(v, a.Symbols[i], t)
framed pfxF
lemma pfxFStep: forall v fn[string]set[string], a *ast.SyntaxAlternate, n int, t string :: {pfxF(v, a, n, t), a.Symbols[n]} 0 <= n ==> (pfxF(v, a, n + 1, t) <==> pfxF(v, a, n, t) || symF(v, a.Symbols[n], t))
  reveal pfxF
lemma pfxFNone: forall v fn[string]set[string], a *ast.SyntaxAlternate, t string :: {pfxF(v, a, 0, t)} !pfxF(v, a, 0, t)
  reveal pfxF
opaque allE(v fn[string]set[string], a *ast.SyntaxAlternate, n int) bool = forall j int :: {a.Symbols[j]} 0 <= j < n ==> symE(v, a.Symbols[j])
framed allE
lemma allEStep: forall v fn[string]set[string], a *ast.SyntaxAlternate, n int :: {allE(v, a, n), a.Symbols[n]} 0 <= n ==> (allE(v, a, n + 1) <==> allE(v, a, n) && symE(v, a.Symbols[n]))
  reveal allE
lemma allENone: forall v fn[string]set[string], a *ast.SyntaxAlternate :: {allE(v, a, 0)} allE(v, a, 0)
  reveal allE
lemma bodyAll: forall v fn[string]set[string], a *ast.SyntaxAlternate, t string :: {bodyF(v, a, t), allE(v, a, len(a.Symbols))} allE(v, a, len(a.Symbols)) ==> (bodyF(v, a, t) <==> t == "ℇ" || pfxF(v, a, len(a.Symbols), t))
  reveal bodyF, allE, pfxF
lemma bodyUpTo: forall v fn[string]set[string], a *ast.SyntaxAlternate, n int, t string :: {bodyF(v, a, t), allE(v, a, n)} 0 <= n < len(a.Symbols) && allE(v, a, n) && !allE(v, a, n + 1) ==> (bodyF(v, a, t) <==> pfxF(v, a, n + 1, t))
  reveal bodyF, allE, pfxF
func (*First).firstTerms(this, alt) (first)
  reveal symID
  requires frOK(this) && altOK(alt)
  ensures LV(this) == old(LV(this))
  ensures fresh(arr(first)) || cap(first) == 0
  ensures forall t string :: {fsIn(first, t)} {bodyF(LV(this), alt, t)} fsIn(first, t) <==> bodyF(LV(this), alt, t)
  loop 1
    invariant LV(this) == old(LV(this))
    invariant fresh(arr(first)) || cap(first) == 0
    invariant allE(LV(this), alt, $i)
    invariant forall t string :: {fsIn(first, t)} {pfxF(LV(this), alt, $i, t)} fsIn(first, t) <==> pfxF(LV(this), alt, $i, t)
  loop 2
    invariant LV(this) == old(LV(this))
    invariant fresh(arr(first)) || cap(first) == 0
    invariant forall t string :: {fsIn(first, t)} {pfxF(LV(this), alt, $i_1, t)} fsIn(first, t) <==> pfxF(LV(this), alt, $i_1, t) || t != "ℇ" && inStr(row(f), off(f), $i, t)

// ---- FIRST of a string of symbols followed by a context ----
opaque pfxS(v fn[string]set[string], R arr[string], o, n int, t string) bool = exists i int :: {at(R, o, i)} 0 <= i < n && t != "ℇ" && t in v[at(R, o, i)]
lemma pfxSStep: forall v fn[string]set[string], R arr[string], o, n int, t string :: {pfxS(v, R, o, n, t), at(R, o, n)} 0 <= n ==> (pfxS(v, R, o, n + 1, t) <==> pfxS(v, R, o, n, t) || t != "ℇ" && t in v[at(R, o, n)])
  reveal pfxS
lemma pfxSNone: forall v fn[string]set[string], R arr[string], o int, t string :: {pfxS(v, R, o, 0, t)} !pfxS(v, R, o, 0, t)
  reveal pfxS
opaque allS(v fn[string]set[string], R arr[string], o, n int) bool = forall j int :: {at(R, o, j)} 0 <= j < n ==> "ℇ" in v[at(R, o, j)]
lemma allSStep: forall v fn[string]set[string], R arr[string], o, n int :: {allS(v, R, o, n), at(R, o, n)} 0 <= n ==> (allS(v, R, o, n + 1) <==> allS(v, R, o, n) && "ℇ" in v[at(R, o, n)])
  reveal allS
lemma allSNone: forall v fn[string]set[string], R arr[string], o int :: {allS(v, R, o, 0)} allS(v, R, o, 0)
  reveal allS
// t can begin the n symbols
opaque strF(v fn[string]set[string], R arr[string], o, n int, t string) bool = exists i int :: {at(R, o, i)} 0 <= i < n && t != "ℇ" && t in v[at(R, o, i)] && allS(v, R, o, i)
lemma strAll: forall v fn[string]set[string], R arr[string], o, n int, t string :: {strF(v, R, o, n, t), allS(v, R, o, n)} allS(v, R, o, n) ==> (strF(v, R, o, n, t) <==> pfxS(v, R, o, n, t))
  reveal strF, allS, pfxS
lemma strUpTo: forall v fn[string]set[string], R arr[string], o, m, n int, t string :: {strF(v, R, o, m, t), allS(v, R, o, n)} 0 <= n < m && allS(v, R, o, n) && !allS(v, R, o, n + 1) ==> (strF(v, R, o, m, t) <==> pfxS(v, R, o, n + 1, t)) && !allS(v, R, o, m)
  reveal strF, allS, pfxS
func (*First).FirstString(this, s, context) (fs)
  requires frOK(this)
  ensures LV(this) == old(LV(this))
  ensures fresh(arr(fs)) || cap(fs) == 0
  ensures forall t string :: {fsIn(fs, t)} fsIn(fs, t) <==> strF(LV(this), row(s), off(s), len(s), t) || allS(LV(this), row(s), off(s), len(s)) && inStr(row(context), off(context), len(context), t)
  alias i int
  alias deriveEmpty bool
  loop 1
    invariant LV(this) == old(LV(this))
    invariant fresh(arr(fs)) || arr(fs) == 0
    invariant 0 <= i <= len(s) && (i == 0 ==> deriveEmpty)
    invariant i == 0 || allS(LV(this), row(s), off(s), i - 1)
    invariant deriveEmpty <==> allS(LV(this), row(s), off(s), i)
    end e0: forall t string :: {fsIn(frst, t)} fsIn(frst, t) <==> t in LV(this)[s[i]]
    end e1: forall t string :: {fsIn(fs, t)} fsIn(fs, t) <==> start(fsIn(fs, t)) || t != "ℇ" && t in LV(this)[s[i]]
    invariant forall t string :: {fsIn(fs, t)} {pfxS(LV(this), row(s), off(s), i, t)} fsIn(fs, t) <==> pfxS(LV(this), row(s), off(s), i, t)
    decreases len(s) - i

// ---- the fixed point ----
define subLV(v, w fn[string]set[string]) bool = forall s, t string :: {t in v[s]} t in v[s] ==> t in w[s]
lemma bodyMono: forall v, w fn[string]set[string], a *ast.SyntaxAlternate, t string :: {bodyF(v, a, t), bodyF(w, a, t)} subLV(v, w) && bodyF(v, a, t) ==> bodyF(w, a, t)
  reveal bodyF
// w holds the terminals and is closed under the first n rules
opaque closedLR(w fn[string]set[string], P arr[*basicprod.Production], o, n int, T arr[string], p, m int) bool = (forall t string :: {inStr(T, p, m, t)} inStr(T, p, m, t) ==> t in w[t]) && (forall i int, t string :: {bodyF(w, at(P, o, i).Body, t)} 0 <= i < n && bodyF(w, at(P, o, i).Body, t) ==> t in w[at(P, o, i).Head])
framed closedLR
lemma leastLR: forall v, w fn[string]set[string], P arr[*basicprod.Production], o, n, i int, T arr[string], p, m int, t string :: {closedLR(w, P, o, n, T, p, m), bodyF(v, at(P, o, i).Body, t)} closedLR(w, P, o, n, T, p, m) && subLV(v, w) && 0 <= i < n && bodyF(v, at(P, o, i).Body, t) ==> t in w[at(P, o, i).Head]
  reveal closedLR, bodyF
// an arbitrary solution: the computed sets are below every one
spec anyLR() fn[string]set[string]
define ownF(this *First) bool = forall s string :: {this.symbol[s]} arr(this.symbol[s]) == 0 || fresh(arr(this.symbol[s])) && cap(this.symbol[s]) > 0
func (*First).AddTerminals(this)
  reveal inStr, distinctStr
  requires frOK(this) && (forall s string :: {s in this.symbol} !(s in this.symbol)) && distinctStr(row(this.tList), off(this.tList), len(this.tList))
  modifies mapof(this.symbol)
  ensures frOK(this) && ownF(this)
  ensures forall s, t string :: {t in LV(this)[s]} t in LV(this)[s] <==> t == s && inStr(row(this.tList), off(this.tList), len(this.tList), s)
  loop 1
    invariant frOK(this) && ownF(this)
    invariant forall s string :: {s in this.symbol} s in this.symbol <==> inStr(row(this.tList), off(this.tList), $i, s)
    invariant forall s string :: {this.symbol[s]} s in this.symbol ==> len(this.symbol[s]) == 1 && this.symbol[s][0] == s

func (*First).AddNonTerminals(this, prods)
  inline
  alias changed bool
  loop 1
    invariant frOK(this) && ownF(this)
    invariant closedLR(anyLR(), row(prods), off(prods), len(prods), row(this.tList), off(this.tList), len(this.tList)) ==> subLV(LV(this), anyLR())
    invariant forall t string :: {inStr(row(this.tList), off(this.tList), len(this.tList), t)} inStr(row(this.tList), off(this.tList), len(this.tList), t) ==> t in LV(this)[t]
    invariant !again ==> (forall i int, t string :: {bodyF(LV(this), prods[i].Body, t)} 0 <= i < len(prods) && bodyF(LV(this), prods[i].Body, t) ==> t in LV(this)[prods[i].Head])
  loop 2
    invariant frOK(this) && ownF(this)
    invariant closedLR(anyLR(), row(prods), off(prods), len(prods), row(this.tList), off(this.tList), len(this.tList)) ==> subLV(LV(this), anyLR())
    invariant forall t string :: {inStr(row(this.tList), off(this.tList), len(this.tList), t)} inStr(row(this.tList), off(this.tList), len(this.tList), t) ==> t in LV(this)[t]
    end same: !again ==> LV(this) == start(LV(this))
    end here: !again ==> (forall t string :: {bodyF(LV(this), prods[$i].Body, t)} bodyF(LV(this), prods[$i].Body, t) ==> t in LV(this)[prods[$i].Head])
    invariant !again ==> (forall i int, t string :: {bodyF(LV(this), prods[i].Body, t)} 0 <= i < $i && bodyF(LV(this), prods[i].Body, t) ==> t in LV(this)[prods[i].Head])

func New(prods) (res)
  noterm
  reveal closedLR
  requires prodsOK(prods) && distinctStr(row(symbols.tToLiteral), off(symbols.tToLiteral), len(symbols.tToLiteral))
  ensures frOK(res) && fresh(res)
  ensures closed: closedLR(LV(res), row(prods), off(prods), len(prods), row(symbols.tToLiteral), off(symbols.tToLiteral), len(symbols.tToLiteral))
  ensures least: closedLR(anyLR(), row(prods), off(prods), len(prods), row(symbols.tToLiteral), off(symbols.tToLiteral), len(symbols.tToLiteral)) ==> subLV(LV(res), anyLR())
