package github.com/goccmack/gogll/v3/lr1/basicprod

define ruleNo(R arr[*ast.SyntaxRule], o, r int) *ast.SyntaxRule = at(R, o, r)
// number of alternates of the first n rules
rec altsUp(R arr[*ast.SyntaxRule], o, n int) int = ite(n <= 0, 0, altsUp(R, o, n-1) + len(at(R, o, n-1).Alternates))
lemma altsMono: forall R arr[*ast.SyntaxRule], o, m, n int :: {altsUp(R, o, m), altsUp(R, o, n)} 0 <= m <= n ==> 0 <= altsUp(R, o, m) && altsUp(R, o, m) <= altsUp(R, o, n)
  induction n
lemma altsIn: forall R arr[*ast.SyntaxRule], o, m, n int :: {altsUp(R, o, m), altsUp(R, o, n)} 0 <= m < n ==> altsUp(R, o, m) + len(at(R, o, m).Alternates) <= altsUp(R, o, n)
  induction n

// production 0 derives the first rule; then follow the alternates of the rules, in order
define prodIs(p *Production, r *ast.SyntaxRule, i int) bool = p.Head == headID(r) && p.Alternate == i && p.Body == r.Alternates[i]
define prodsOK(P []*Production) bool = forall i int :: {P[i]} 0 <= i < len(P) ==> P[i] != nil && altOK(P[i].Body)
opaque prodsAre(P arr[*Production], o, n int, R arr[*ast.SyntaxRule], p, k int) bool = forall r, i int :: {at(R, p, r).Alternates[i]} 0 <= r < k && 0 <= i < len(at(R, p, r).Alternates) ==> 1 + altsUp(R, p, r) + i < n && prodIs(at(P, o, 1 + altsUp(R, p, r) + i), at(R, p, r), i)
func Get(rules) (prods)
  reveal prodsAre
  requires len(rules) > 0 && (forall i int :: {rules[i]} 0 <= i < len(rules) ==> synOK(rules[i]))
  ensures len(prods) == 1 + altsUp(row(rules), off(rules), len(rules))
  ensures prodsOK(prods)
  ensures prods[0].Head == "G0" && prods[0].Alternate == 0 && len(prods[0].Body.Symbols) == 1 && prods[0].Body.Symbols[0] == rules[0].Head
  ensures prodsAre(row(prods), off(prods), len(prods), row(rules), off(rules), len(rules))
  loop 1
    invariant fresh(arr(prods)) && len(prods) == 1 + altsUp(row(rules), off(rules), $i)
    invariant prodsOK(prods) && (forall i int :: {prods[i]} 0 <= i < len(prods) ==> fresh(prods[i]))
    invariant prods[0].Head == "G0" && prods[0].Alternate == 0 && fresh(prods[0].Body) && len(prods[0].Body.Symbols) == 1 && prods[0].Body.Symbols[0] == rules[0].Head
    invariant prodsAre(row(prods), off(prods), len(prods), row(rules), off(rules), $i)
  loop 2
    invariant fresh(arr(prods)) && len(prods) == 1 + altsUp(row(rules), off(rules), $i_1) + $i
    invariant prodsOK(prods) && (forall i int :: {prods[i]} 0 <= i < len(prods) ==> fresh(prods[i]))
    invariant prods[0].Head == "G0" && prods[0].Alternate == 0 && fresh(prods[0].Body) && len(prods[0].Body.Symbols) == 1 && prods[0].Body.Symbols[0] == rules[0].Head
    invariant prodsAre(row(prods), off(prods), len(prods), row(rules), off(rules), $i_1)
    invariant forall j int :: {prods[j]} 1 + altsUp(row(rules), off(rules), $i_1) <= j < len(prods) ==> prodIs(prods[j], r, j - 1 - altsUp(row(rules), off(rules), $i_1))

func (*Production).String(p) (res)
  trusted
