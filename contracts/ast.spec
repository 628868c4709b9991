package github.com/goccmack/gogll/v3/ast

define idOK(t *TokID) bool = t != nil && token_ok(t.tok)
define token_ok(t *token.Token) bool = t != nil && 0 <= t.lext && t.lext <= t.rext && t.rext <= len(t.input)
define ruleOK(r *LexRule) bool = r != nil && idOK(r.TokID)
define ruleID(r *LexRule) string = stripped(r.TokID.tok)

func (*TokID).ID(t) (res)
  requires idOK(t)
  ensures res == stripped(t.tok)

func (*LexRule).ID(l) (res)
  requires ruleOK(l)
  ensures res == ruleID(l)

// ---- syntax rules ----
// the text between the quotes of a string
spec inner(s string) string
axiom innerLen: forall s string :: {inner(s)} rlen(s) >= 2 ==> rlen(inner(s)) == rlen(s) - 2
axiom innerAt: forall s string, k int :: {rat(inner(s), k)} rlen(s) >= 2 && 0 <= k < rlen(s) - 2 ==> rat(inner(s), k) == rat(s, k + 1)

define litOf(t *token.Token) string = str_of_runes(row(t.input), off(t.input) + t.lext, t.rext - t.lext)
define ntOK(n *NT) bool = n != nil && token_ok(n.tok)
define slOK(s *StringLit) bool = s != nil && token_ok(s.tok) && rlen(stripped(s.tok)) >= 2
define symOK(s SyntaxSymbol) bool = s != nil && (typeis(s, *NT) ==> ntOK(as(s, *NT))) && (typeis(s, *TokID) ==> idOK(as(s, *TokID))) && (typeis(s, *StringLit) ==> slOK(as(s, *StringLit)))
// the identifier of a symbol
framed symID
opaque symID(s SyntaxSymbol) string = ite(typeis(s, *NT), litOf(as(s, *NT).tok), ite(typeis(s, *TokID), stripped(as(s, *TokID).tok), inner(stripped(as(s, *StringLit).tok))))
define altOK(a *SyntaxAlternate) bool = a != nil && (forall i int :: {a.Symbols[i]} 0 <= i < len(a.Symbols) ==> symOK(a.Symbols[i]))
define synOK(r *SyntaxRule) bool = r != nil && ntOK(r.Head) && (forall i int :: {r.Alternates[i]} 0 <= i < len(r.Alternates) ==> altOK(r.Alternates[i]))
define headID(r *SyntaxRule) string = litOf(r.Head.tok)
define rulesOK(g *GoGLL) bool = g != nil && (forall i int :: {g.SyntaxRules[i]} 0 <= i < len(g.SyntaxRules) ==> synOK(g.SyntaxRules[i]))
// a rule of the grammar
define isRule(g *GoGLL, r *SyntaxRule) bool = exists i int :: {g.SyntaxRules[i]} 0 <= i < len(g.SyntaxRules) && g.SyntaxRules[i] == r

func (*NT).ID(n) (res)
  requires ntOK(n)
  ensures res == litOf(n.tok)

func (*NT).String(n) (res)
  requires ntOK(n)
  ensures res == litOf(n.tok)

func (*StringLit).Value(sl) (res)
  requires slOK(sl)
  ensures runestr(res) == inner(stripped(sl.tok))
  ensures fresh(arr(res))

func (*StringLit).ID(sl) (res)
  requires slOK(sl)
  ensures res == inner(stripped(sl.tok))

func (*SyntaxAlternate).GetSymbols(a) (res)
  reveal symID
  requires altOK(a)
  ensures fresh(arr(res)) && len(res) == len(a.Symbols)
  ensures forall i int :: {res[i]} {a.Symbols[i]} 0 <= i < len(res) ==> res[i] == symID(a.Symbols[i])
  loop 1
    invariant fresh(arr(symbols)) && len(symbols) == len(a.Symbols)
    invariant forall i int :: {symbols[i]} 0 <= i < $i ==> symbols[i] == symID(a.Symbols[i])

func (*SyntaxAlternate).Empty(a) (res)
  requires a != nil
  ensures res <==> len(a.Symbols) == 0

func (*SyntaxRule).ID(r) (res)
  requires synOK(r)
  ensures res == headID(r)

func (*GoGLL).GetSyntaxRule(g, nt) (res)
  requires rulesOK(g)
  ensures res != nil ==> isRule(g, res) && headID(res) == nt
  ensures res == nil ==> forall i int :: {g.SyntaxRules[i]} 0 <= i < len(g.SyntaxRules) ==> headID(g.SyntaxRules[i]) != nt
  loop 1
    invariant forall i int :: {g.SyntaxRules[i]} 0 <= i < $i ==> headID(g.SyntaxRules[i]) != nt

func (*GoGLL).StartSymbol(g) (res)
  requires rulesOK(g) && len(g.SyntaxRules) > 0
  ensures res == headID(g.SyntaxRules[0])

func (*GoGLL).GetLexRule(g, id) (res)
  requires g != nil && (forall i int :: {g.LexRules[i]} 0 <= i < len(g.LexRules) ==> ruleOK(g.LexRules[i]))
  ensures res != nil ==> exists i int :: {g.LexRules[i]} 0 <= i < len(g.LexRules) && g.LexRules[i] == res && ruleID(res) == id
  ensures res == nil ==> forall i int :: {g.LexRules[i]} 0 <= i < len(g.LexRules) ==> ruleID(g.LexRules[i]) != id
  loop 1
    invariant forall i int :: {g.LexRules[i]} 0 <= i < $i ==> ruleID(g.LexRules[i]) != id

define uniqueRules(g *GoGLL) bool = forall i, j int :: {g.SyntaxRules[i], g.SyntaxRules[j]} 0 <= i < j < len(g.SyntaxRules) ==> headID(g.SyntaxRules[i]) != headID(g.SyntaxRules[j])
define termsOK(g *GoGLL) bool = g != nil && g.Terminals != nil && g.NonTerminals != nil && g.Terminals.set != nil && g.NonTerminals.set != nil

// every symbol once in each of the two parts, terminals first, each part in the order of the symbols
func (*GoGLL).GetSymbols(g) (res)
  requires termsOK(g)
  ensures len(res) == len(g.Terminals.set) + len(g.NonTerminals.set)
  ensures sound1: forall i int :: {res[i]} 0 <= i < len(g.Terminals.set) ==> res[i] in g.Terminals.set
  ensures sound2: forall i int :: {res[i]} len(g.Terminals.set) <= i < len(res) ==> res[i] in g.NonTerminals.set
  ensures complete1: forall s string :: {s in g.Terminals.set} s in g.Terminals.set ==> exists i int :: {res[i]} 0 <= i < len(g.Terminals.set) && res[i] == s
  ensures complete2: forall s string :: {s in g.NonTerminals.set} s in g.NonTerminals.set ==> exists i int :: {res[i]} len(g.Terminals.set) <= i < len(res) && res[i] == s
  ensures sorted1: forall i, j int :: {res[i], res[j]} 0 <= i < j < len(g.Terminals.set) ==> res[i] < res[j]
  ensures sorted2: forall i, j int :: {res[i], res[j]} len(g.Terminals.set) <= i < j < len(res) ==> res[i] < res[j]
  ensures fresh(arr(res))
