package $GEN/parser/symbols

define ntIs(n NT) bool = 0 <= n < len(ntToString)
define ntStr(n NT) string = ntToString[n]
define symIs(s Symbol) bool = s != nil && (typeis(s, NT) ==> ntIs(as(s, NT))) && (typeis(s, T) ==> 0 <= as(s, T) < len(tToString))
// the name of a symbol
define symStr(s Symbol) string = ite(typeis(s, NT), ntToString[as(s, NT)], tToString[as(s, T)])
define symsIs(ss Symbols) bool = forall i int :: {ss[i]} 0 <= i < len(ss) ==> symIs(ss[i])
// the names of n symbols, separated by blanks
rec symsStr(R arr[Symbol], o, n int) string = ite(n <= 0, "", ite(n == 1, "", symsStr(R, o, n-1) + " ") + symStr(at(R, o, n-1)))

opaque sameNames(Q arr[Symbol], p, m int, R arr[Symbol], o, n int) bool = m == n && (forall i int :: {at(Q, p, i)} {at(R, o, i)} 0 <= i < n ==> symStr(at(Q, p, i)) == symStr(at(R, o, i)))
framed sameNames symsStr
define sameSyms(a, b []Symbol) bool = sameNames(row(a), off(a), len(a), row(b), off(b), len(b))
lemma namesStr: forall Q arr[Symbol], p, n int, R arr[Symbol], o int :: {symsStr(Q, p, n), symsStr(R, o, n)} (forall i int :: {at(Q, p, i)} {at(R, o, i)} 0 <= i < n ==> symStr(at(Q, p, i)) == symStr(at(R, o, i))) ==> symsStr(Q, p, n) == symsStr(R, o, n)
  induction n
lemma namesKey: forall Q arr[Symbol], p, m int, R arr[Symbol], o, n int :: {sameNames(Q, p, m, R, o, n)} sameNames(Q, p, m, R, o, n) ==> symsStr(Q, p, m) == symsStr(R, o, n)
  reveal sameNames

func (NT).String(nt) (res)
  requires ntIs(nt)
  ensures res == ntToString[nt]

func (T).String(t) (res)
  requires 0 <= t < len(tToString)
  ensures res == tToString[t]

func (NT).IsNonTerminal(nt) (res)
  ensures res

func (T).IsNonTerminal(t) (res)
  ensures !res

func (Symbols).Equal(ss, ss1) (res)
  requires symsIs(ss) && symsIs(ss1)
  reveal sameNames
  ensures res <==> sameSyms(ss, ss1)
  loop 1
    invariant forall i int :: {ss[i]} {ss1[i]} 0 <= i < $i ==> symStr(ss[i]) == symStr(ss1[i])

func (Symbols).String(ss) (res)
  requires symsIs(ss)
  ensures res == symsStr(row(ss), off(ss), len(ss))
  loop 1
    invariant fresh(w)
    invariant buf(w) == symsStr(row(ss), off(ss), $i)

func (Symbols).Strings(ss) (res)
  requires symsIs(ss)
  ensures len(res) == len(ss) && (forall i int :: {res[i]} 0 <= i < len(ss) ==> res[i] == symStr(ss[i]))
  loop 1
    invariant len(strs) == len(ss) && (forall i int :: {strs[i]} 0 <= i < $i ==> strs[i] == symStr(ss[i]))

func IsNT(sym) (res)
  ensures res <==> sym in stringNT

func ToNT(sym) (res)
  aborts !(sym in stringNT)
  ensures sym in stringNT && res == stringNT[sym]
