package $GEN/parser/bsr

// ---- subtrees of nonterminals ----
define bOK(b BSR) bool = labelOK(b.Label)
define fits(b BSR, k ntSlot) bool = slot.slots[b.Label].NT == k.nt && b.leftExtent == k.leftExtent && b.rightExtent == k.rightExtent
// b is one of n subtrees; they are pairwise different
opaque listed(R arr[BSR], o, n int, b BSR) bool = exists i int :: {at(R, o, i)} 0 <= i < n && at(R, o, i) == b
opaque onceB(R arr[BSR], o, n int) bool = forall i, j int :: {at(R, o, i), at(R, o, j)} 0 <= i < j < n ==> at(R, o, i) != at(R, o, j)
define inList(s []BSR, b BSR) bool = listed(row(s), off(s), len(s), b)
define once(s []BSR) bool = onceB(row(s), off(s), len(s))
lemma listedIn: forall R arr[BSR], o, n, i int :: {listed(R, o, n, at(R, o, i))} 0 <= i < n ==> listed(R, o, n, at(R, o, i))
  reveal listed

define entriesOK(s *Set) bool = forall b BSR :: {b in s.slotEntries} b in s.slotEntries ==> s.slotEntries[b] && bOK(b) && b.set == s
// the list of k holds the subtrees that fit k, each once
define listedAt(s *Set, k ntSlot, b BSR) bool = inList(s.ntSlotEntries[k], b)
opaque listsIn(s *Set) bool = forall k ntSlot, b BSR :: {listedAt(s, k, b)} {b in s.slotEntries, s.ntSlotEntries[k]} listedAt(s, k, b) <==> b in s.slotEntries && fits(b, k)
opaque listsOnce(s *Set) bool = forall k ntSlot :: {s.ntSlotEntries[k]} once(s.ntSlotEntries[k])
opaque listsApart(s *Set) bool = forall k, l ntSlot :: {k in s.ntSlotEntries, l in s.ntSlotEntries} k in s.ntSlotEntries && l in s.ntSlotEntries && k != l ==> arr(s.ntSlotEntries[k]) != arr(s.ntSlotEntries[l])
framed listsIn listsOnce listsApart sinOK sOnce sApart strIn
define ntsOK(s *Set) bool = s != nil && s.slotEntries != nil && s.ntSlotEntries != nil && entriesOK(s) && listsIn(s) && listsOnce(s) && listsApart(s)

func (*Set).Contain(s, nt, left, right) (res)
  requires ntsOK(s)
  ensures res <==> (exists b BSR :: {b in s.slotEntries} b in s.slotEntries && slot.slots[b.Label].NT == nt && b.leftExtent == left && b.rightExtent == right)
  loop 1
    invariant forall b BSR :: {b in $seen} b in $seen ==> !(slot.slots[b.Label].NT == nt && b.leftExtent == left && b.rightExtent == right)
    
func (*Set).GetAll(s) (res)
  reveal listed, onceB
  requires s != nil
  ensures forall b BSR :: {b in s.slotEntries} {inList(res, b)} b in s.slotEntries <==> inList(res, b)
  ensures once(res)
  ensures len(res) > 0 ==> fresh(arr(res))
  loop 1
    invariant len(bsrs) > 0 ==> fresh(arr(bsrs))
    invariant forall b BSR :: {b in $seen} {inList(bsrs, b)} b in $seen <==> inList(bsrs, b)
    invariant once(bsrs)

define rootOf(s *Set, b BSR) bool = b in s.slotEntries && slot.slots[b.Label].NT == s.startSym && b.leftExtent == 0 && b.rightExtent == s.rightExtent
func (*Set).GetRoots(s) (res)
  reveal listed, onceB
  requires ntsOK(s)
  ensures forall b BSR :: {b in s.slotEntries} {inList(res, b)} rootOf(s, b) <==> inList(res, b)
  ensures forall i int :: {res[i]} 0 <= i < len(res) ==> rootOf(s, res[i])
  ensures once(res)
  loop 1
    invariant len(roots) > 0 ==> fresh(arr(roots))
    invariant forall b BSR :: {b in $seen} {inList(roots, b)} b in $seen && rootOf(s, b) <==> inList(roots, b)
    invariant forall i int :: {roots[i]} 0 <= i < len(roots) ==> rootOf(s, roots[i])
    invariant once(roots)

func (*Set).GetRoot(s) (res)
  reveal listed, onceB
  requires ntsOK(s)
  requires ntIs(s.startSym)
  aborts !(exists b BSR :: {b in s.slotEntries} rootOf(s, b)) || (exists b, c BSR :: {b in s.slotEntries, c in s.slotEntries} rootOf(s, b) && rootOf(s, c) && b != c)
  ensures rootOf(s, res)

// ---- subtrees of the prefixes of rules ----
define keyOf(R arr[symbols.Symbol], o, n, i, j int) stringKey = sprintf("%s,%d,%d", symsStr(R, o, n), i, j)
// a decimal number holds no comma
spec keyS(s string) string
spec keyL(s string) int
spec keyR(s string) int
axiom keyParts: forall s string, i, j int :: {sprintf("%s,%d,%d", s, i, j)} keyS(sprintf("%s,%d,%d", s, i, j)) == s && keyL(sprintf("%s,%d,%d", s, i, j)) == i && keyR(sprintf("%s,%d,%d", s, i, j)) == j
define strKey(e *stringBSR) stringKey = keyOf(row(e.Symbols), off(e.Symbols), len(e.Symbols), e.leftExtent, e.rightExtent)
opaque sinOK(s *Set) bool = forall k stringKey, i int :: {s.stringEntries[k][i]} k in s.stringEntries && 0 <= i < len(s.stringEntries[k]) ==> s.stringEntries[k][i] != nil && symsIs(s.stringEntries[k][i].Symbols) && strKey(s.stringEntries[k][i]) == k && s.stringEntries[k][i].set == s
// entries of one list differ in their pivot or their symbols
opaque sOnce(s *Set) bool = forall k stringKey, i, j int :: {s.stringEntries[k][i], s.stringEntries[k][j]} k in s.stringEntries && 0 <= i < j < len(s.stringEntries[k]) ==> !(s.stringEntries[k][i].pivot == s.stringEntries[k][j].pivot && sameSyms(s.stringEntries[k][i].Symbols, s.stringEntries[k][j].Symbols))
opaque sApart(s *Set) bool = forall k, l stringKey :: {k in s.stringEntries, l in s.stringEntries} k in s.stringEntries && l in s.stringEntries && k != l ==> arr(s.stringEntries[k]) != arr(s.stringEntries[l])
define strsOK(s *Set) bool = s.stringEntries != nil && sinOK(s) && sOnce(s) && sApart(s)
// the set holds n symbols over i..j with pivot k
opaque strIn(s *Set, R arr[symbols.Symbol], o, n, i, k, j int) bool = exists x int :: {s.stringEntries[keyOf(R, o, n, i, j)][x]} 0 <= x < len(s.stringEntries[keyOf(R, o, n, i, j)]) && s.stringEntries[keyOf(R, o, n, i, j)][x].pivot == k && sameNames(row(s.stringEntries[keyOf(R, o, n, i, j)][x].Symbols), off(s.stringEntries[keyOf(R, o, n, i, j)][x].Symbols), len(s.stringEntries[keyOf(R, o, n, i, j)][x].Symbols), R, o, n)

opaque anyStr(s *Set, R arr[symbols.Symbol], o, n, i, j int) bool = exists k int :: {strIn(s, R, o, n, i, k, j)} strIn(s, R, o, n, i, k, j)
framed anyStr

func (*stringBSR).key(s) (res)
  requires s != nil && symsIs(s.Symbols)
  ensures res == strKey(s)

func getStringKey(symbols, lext, rext) (res)
  requires symsIs(symbols)
  ensures res == keyOf(row(symbols), off(symbols), len(symbols), lext, rext)

func (*Set).insert(s, bsr)
  reveal listed, onceB, listsIn, listsOnce, listsApart, sinOK, sOnce, sApart, strIn, sameNames
  requires ntsOK(s) && strsOK(s)
  requires typeis(bsr, BSR) || typeis(bsr, *stringBSR)
  requires typeis(bsr, BSR) ==> bOK(as(bsr, BSR)) && as(bsr, BSR).set == s
  requires typeis(bsr, *stringBSR) ==> as(bsr, *stringBSR) != nil && symsIs(as(bsr, *stringBSR).Symbols) && as(bsr, *stringBSR).set == s
  modifies s.rightExtent, mapof(s.slotEntries), mapof(s.ntSlotEntries), mapof(s.stringEntries), anyelems("BSR"), anyelems("*stringBSR")
  exit grown: forall k ntSlot, b BSR :: {listedAt(s, k, b)} listedAt(s, k, b) <==> old(listedAt(s, k, b)) || typeis(bsr, BSR) && b == as(bsr, BSR) && fits(b, k)
  ensures ntsOK(s) && strsOK(s)
  ensures typeis(bsr, BSR) ==> (forall b BSR :: {b in s.slotEntries} b in s.slotEntries <==> old(b in s.slotEntries) || b == as(bsr, BSR))
  ensures typeis(bsr, *stringBSR) ==> (forall b BSR :: {b in s.slotEntries} b in s.slotEntries <==> old(b in s.slotEntries))
  ensures forall R arr[symbols.Symbol], o, n, i, k, j int :: {strIn(s, R, o, n, i, k, j)} strIn(s, R, o, n, i, k, j) <==> old(strIn(s, R, o, n, i, k, j)) || typeis(bsr, *stringBSR) && as(bsr, *stringBSR).leftExtent == i && as(bsr, *stringBSR).pivot == k && as(bsr, *stringBSR).rightExtent == j && sameNames(row(as(bsr, *stringBSR).Symbols), off(as(bsr, *stringBSR).Symbols), len(as(bsr, *stringBSR).Symbols), R, o, n)
  ensures s.rightExtent >= old(s.rightExtent) && (typeis(bsr, BSR) ==> s.rightExtent == ite(as(bsr, BSR).rightExtent > old(s.rightExtent), as(bsr, BSR).rightExtent, old(s.rightExtent))) && (typeis(bsr, *stringBSR) ==> s.rightExtent == ite(as(bsr, *stringBSR).rightExtent > old(s.rightExtent), as(bsr, *stringBSR).rightExtent, old(s.rightExtent)))
  loop 1
    invariant forall x int :: {$coll[x]} 0 <= x < $i ==> !($coll[x].pivot == b.pivot && sameSyms($coll[x].Symbols, b.Symbols))

// symbols of the rule of label l, and how far the slot l is in it
define syms(l slot.Label) []symbols.Symbol = slot.slots[l].Symbols
define setOK(s *Set) bool = ntsOK(s) && strsOK(s)
define endOfRule(l slot.Label) bool = slot.slots[l].Pos >= len(syms(l))

func (*Set).Add(s, l, i, k, j)
  reveal sinOK, sOnce, strIn
  requires setOK(s) && labelOK(l)
  modifies s.rightExtent, mapof(s.slotEntries), mapof(s.ntSlotEntries), mapof(s.stringEntries), anyelems("BSR"), anyelems("*stringBSR")
  ensures setOK(s)
  ensures forall b BSR :: {b in s.slotEntries} b in s.slotEntries <==> old(b in s.slotEntries) || endOfRule(l) && b.Label == l && b.leftExtent == i && b.pivot == k && b.rightExtent == j && b.set == s
  ensures forall R arr[symbols.Symbol], o, n, a, p, c int :: {strIn(s, R, o, n, a, p, c)} strIn(s, R, o, n, a, p, c) <==> old(strIn(s, R, o, n, a, p, c)) || !endOfRule(l) && slot.slots[l].Pos > 1 && a == i && p == k && c == j && sameNames(row(syms(l)), off(syms(l)), slot.slots[l].Pos, R, o, n)
  ensures s.rightExtent == ite((endOfRule(l) || slot.slots[l].Pos > 1) && j > old(s.rightExtent), j, old(s.rightExtent))

func (*Set).AddEmpty(s, l, i)
  requires setOK(s) && labelOK(l)
  modifies s.rightExtent, mapof(s.slotEntries), mapof(s.ntSlotEntries), mapof(s.stringEntries), anyelems("BSR"), anyelems("*stringBSR")
  ensures setOK(s)
  ensures forall b BSR :: {b in s.slotEntries} b in s.slotEntries <==> old(b in s.slotEntries) || b.Label == l && b.leftExtent == i && b.pivot == i && b.rightExtent == i && b.set == s
  ensures forall R arr[symbols.Symbol], o, n, a, p, c int :: {strIn(s, R, o, n, a, p, c)} strIn(s, R, o, n, a, p, c) <==> old(strIn(s, R, o, n, a, p, c))
  ensures s.rightExtent == ite(i > old(s.rightExtent), i, old(s.rightExtent))

func New(startSymbol, l) (res)
  reveal listed, onceB, listsIn, listsOnce, listsApart, sinOK, sOnce, sApart, strIn, sameNames
  ensures fresh(res) && setOK(res) && res.startSym == startSymbol && res.lex == l && res.rightExtent == 0
  ensures forall b BSR :: {b in res.slotEntries} !(b in res.slotEntries)
  ensures forall R arr[symbols.Symbol], o, n, i, k, j int :: {strIn(res, R, o, n, i, k, j)} !strIn(res, R, o, n, i, k, j)

func (*Set).getNTSlot(s, sym, leftExtent, rightExtent) (res)
  reveal listsIn, listsOnce
  requires setOK(s) && typeis(sym, symbols.NT)
  ensures forall b BSR :: {b in s.slotEntries} {inList(res, b)} inList(res, b) <==> b in s.slotEntries && slot.slots[b.Label].NT == as(sym, symbols.NT) && b.leftExtent == leftExtent && b.rightExtent == rightExtent
  ensures forall x int :: {res[x]} 0 <= x < len(res) ==> inList(res, res[x])
  ensures once(res)

// e is one of n prefix subtrees
opaque hasStr(R arr[*stringBSR], o, n int, e *stringBSR) bool = exists i int :: {at(R, o, i)} 0 <= i < n && at(R, o, i) == e
define strList(l []*stringBSR, e *stringBSR) bool = hasStr(row(l), off(l), len(l), e)
lemma hasStrStep: forall R arr[*stringBSR], o, n int, e *stringBSR :: {hasStr(R, o, n + 1, e)} n >= 0 ==> (hasStr(R, o, n + 1, e) <==> hasStr(R, o, n, e) || at(R, o, n) == e)
  reveal hasStr
lemma hasStrNone: forall R arr[*stringBSR], o int, e *stringBSR :: {hasStr(R, o, 0, e)} !hasStr(R, o, 0, e)
  reveal hasStr
// the set holds the entry e
opaque entry(s *Set, e *stringBSR) bool = hasStr(row(s.stringEntries[strKey(e)]), off(s.stringEntries[strKey(e)]), len(s.stringEntries[strKey(e)]), e)

// ---- navigation ----
// one of n prefix subtrees has pivot k and right extent e
opaque pairIn(R arr[*stringBSR], o, n, k, e int) bool = exists x int :: {at(R, o, x)} 0 <= x < n && at(R, o, x).pivot == k && at(R, o, x).rightExtent == e
opaque oncePair(R arr[*stringBSR], o, n int) bool = forall x, y int :: {at(R, o, x), at(R, o, y)} 0 <= x < y < n ==> !(at(R, o, x).pivot == at(R, o, y).pivot && at(R, o, x).rightExtent == at(R, o, y).rightExtent)
opaque strsNew(R arr[*stringBSR], o, n int) bool = forall x int :: {at(R, o, x)} 0 <= x < n ==> at(R, o, x) != nil
define pairs(l []*stringBSR, k, e int) bool = pairIn(row(l), off(l), len(l), k, e)
define goodStrs(l []*stringBSR) bool = strsNew(row(l), off(l), len(l)) && oncePair(row(l), off(l), len(l))
opaque intIn(R arr[int], o, n, k int) bool = exists x int :: {at(R, o, x)} 0 <= x < n && at(R, o, x) == k
opaque onceI(R arr[int], o, n int) bool = forall x, y int :: {at(R, o, x), at(R, o, y)} 0 <= x < y < n ==> at(R, o, x) != at(R, o, y)
define ints(l []int, k int) bool = intIn(row(l), off(l), len(l), k)
lemma sameSame: forall P arr[symbols.Symbol], q, l int, Q arr[symbols.Symbol], p, m int, R arr[symbols.Symbol], o, n int :: {sameNames(P, q, l, Q, p, m), sameNames(R, o, n, Q, p, m)} sameNames(P, q, l, Q, p, m) && sameNames(R, o, n, Q, p, m) ==> sameNames(P, q, l, R, o, n)
  reveal sameNames

func (*Set).GetAllStrings(s, str, lext, rext) (res)
  reveal hasStr, entry, sinOK, sOnce, pairIn, oncePair, strsNew, strIn, anyStr
  requires setOK(s) && symsIs(str)
  exit forall e *stringBSR :: {strList(res, e)} {entry(s, e)} strList(res, e) <==> entry(s, e) && e != nil && sameSyms(e.Symbols, str) && e.leftExtent == lext && e.rightExtent == rext
  exit forall x int :: {res[x]} 0 <= x < len(res) ==> strIn(s, row(str), off(str), len(str), lext, res[x].pivot, rext)
  exit len(res) > 0 ==> strIn(s, row(str), off(str), len(str), lext, res[0].pivot, rext)
  exit forall x int :: {s.stringEntries[keyOf(row(str), off(str), len(str), lext, rext)][x]} 0 <= x < len(s.stringEntries[keyOf(row(str), off(str), len(str), lext, rext)]) && sameSyms(s.stringEntries[keyOf(row(str), off(str), len(str), lext, rext)][x].Symbols, str) ==> strList(res, s.stringEntries[keyOf(row(str), off(str), len(str), lext, rext)][x])
  exit forall e *stringBSR :: {strList(res, e)} strList(res, e) ==> pairs(res, e.pivot, rext)
  ensures goodStrs(res)
  ensures forall x int :: {res[x]} 0 <= x < len(res) ==> res[x].leftExtent == lext && res[x].rightExtent == rext && sameSyms(res[x].Symbols, str) && strIn(s, row(str), off(str), len(str), lext, res[x].pivot, rext)
  ensures forall k, e int :: {pairs(res, k, e)} pairs(res, k, e) <==> e == rext && strIn(s, row(str), off(str), len(str), lext, k, rext)
  ensures forall k int :: {strIn(s, row(str), off(str), len(str), lext, k, rext)} strIn(s, row(str), off(str), len(str), lext, k, rext) ==> pairs(res, k, rext)
  ensures len(res) > 0 ==> fresh(arr(res))
  ensures len(res) > 0 <==> anyStr(s, row(str), off(str), len(str), lext, rext)
  loop 1
    invariant len(strs) > 0 ==> fresh(arr(strs))
    invariant forall x int :: {strs[x]} 0 <= x < len(strs) ==> strList(strs, strs[x])
    invariant forall e *stringBSR :: {strList(strs, e)} strList(strs, e) <==> hasStr(row($coll), off($coll), $i, e) && sameSyms(e.Symbols, str)
    invariant oncePair(row(strs), off(strs), len(strs))
    end forall e *stringBSR :: {hasStr(row($coll), off($coll), $i + 1, e)} hasStr(row($coll), off($coll), $i + 1, e) <==> start(hasStr(row($coll), off($coll), $i, e)) || e == $coll[$i]
    end forall e *stringBSR :: {strList(strs, e)} strList(strs, e) <==> start(strList(strs, e)) || e == $coll[$i] && sameSyms(e.Symbols, str)

func (*Set).getStrings(s, symbols, leftExtent, rightExtent) (res)
  requires setOK(s) && symsIs(symbols)
  aborts !anyStr(s, row(symbols), off(symbols), len(symbols), leftExtent, rightExtent)
  ensures goodStrs(res)
  ensures forall x int :: {res[x]} 0 <= x < len(res) ==> res[x].leftExtent == leftExtent && res[x].rightExtent == rightExtent && sameSyms(res[x].Symbols, symbols) && strIn(s, row(symbols), off(symbols), len(symbols), leftExtent, res[x].pivot, rightExtent)
  ensures forall k int :: {strIn(s, row(symbols), off(symbols), len(symbols), leftExtent, k, rightExtent)} strIn(s, row(symbols), off(symbols), len(symbols), leftExtent, k, rightExtent) ==> pairs(res, k, rightExtent)
  ensures forall k, e int :: {pairs(res, k, e)} pairs(res, k, e) <==> e == rightExtent && strIn(s, row(symbols), off(symbols), len(symbols), leftExtent, k, rightExtent)
  ensures fresh(arr(res)) && len(res) > 0

func pivots(strs) (res)
  reveal pairIn, intIn, onceI, strsNew
  requires goodStrs(strs)
  ensures forall k int :: {ints(res, k)} ints(res, k) <==> (exists e int :: {pairs(strs, k, e)} pairs(strs, k, e))
  ensures forall k, e int :: {pairs(strs, k, e)} pairs(strs, k, e) ==> ints(res, k)
  ensures onceI(row(res), off(res), len(res))
  loop 1
    invariant len(pivots) > 0 ==> fresh(arr(pivots))
    invariant forall k int :: {k in done} k in done ==> done[k]
    invariant forall k int :: {k in done} {ints(pivots, k)} k in done <==> ints(pivots, k)
    invariant forall k int :: {ints(pivots, k)} ints(pivots, k) <==> (exists e int :: {pairIn(row($coll), off($coll), $i, k, e)} pairIn(row($coll), off($coll), $i, k, e))
    invariant onceI(row(pivots), off(pivots), len(pivots))
    end forall k, e int :: {pairIn(row($coll), off($coll), $i, k, e)} {pairIn(row($coll), off($coll), $i + 1, k, e)} pairIn(row($coll), off($coll), $i + 1, k, e) <==> pairIn(row($coll), off($coll), $i, k, e) || $coll[$i].pivot == k && $coll[$i].rightExtent == e
    end pairIn(row($coll), off($coll), $i + 1, $coll[$i].pivot, $coll[$i].rightExtent)

// e can be the right end of the first n of m symbols that span left to top
spec cut(s *Set, R arr[symbols.Symbol], o, m, left, top, n, e int) bool
  reads strIn(s, R, 0, 0, 0, 0, 0)
// the same, where the definition does not unfold again
spec cutHere(s *Set, R arr[symbols.Symbol], o, m, left, top, n, e int) bool
  reads strIn(s, R, 0, 0, 0, 0, 0)
framed cut cutHere
axiom cutSame: forall s *Set, R arr[symbols.Symbol], o, m, left, top, n, e int :: {cut(s, R, o, m, left, top, n, e)} cut(s, R, o, m, left, top, n, e) <==> cutHere(s, R, o, m, left, top, n, e)
axiom cutIs: forall s *Set, R arr[symbols.Symbol], o, m, left, top, n, e int :: {cut(s, R, o, m, left, top, n, e)} cut(s, R, o, m, left, top, n, e) <==> ite(n >= m, n == m && e == top, exists f int :: {cutHere(s, R, o, m, left, top, n + 1, f)} {strIn(s, R, o, n + 1, left, e, f)} cutHere(s, R, o, m, left, top, n + 1, f) && strIn(s, R, o, n + 1, left, e, f))
define bcut(b BSR, n, e int) bool = cut(b.set, row(syms(b.Label)), off(syms(b.Label)), len(syms(b.Label)) - 1, b.leftExtent, b.pivot, n, e)
define bstr(b BSR, n, k, e int) bool = strIn(b.set, row(syms(b.Label)), off(syms(b.Label)), n, b.leftExtent, k, e)
// every prefix the subtree needs is in the set
define scut(s *Set, l slot.Label, left, pivot, n, e int) bool = cut(s, row(syms(l)), off(syms(l)), len(syms(l)) - 1, left, pivot, n, e)
define sstr(s *Set, l slot.Label, left, n, e int) bool = anyStr(s, row(syms(l)), off(syms(l)), n, left, e)
opaque wholeAt(s *Set, l slot.Label, left, pivot int) bool = (len(syms(l)) > 2 ==> sstr(s, l, left, len(syms(l)) - 1, pivot)) && (forall n, e int :: {scut(s, l, left, pivot, n, e)} 2 <= n < len(syms(l)) && scut(s, l, left, pivot, n, e) ==> sstr(s, l, left, n, e))
define whole(b BSR) bool = wholeAt(b.set, b.Label, b.leftExtent, b.pivot)
// symbol i of b can span x to y
opaque spans(b BSR, i, x, y int) bool = ite(i == len(syms(b.Label)) - 1, x == b.pivot && y == b.rightExtent, bcut(b, i + 1, y) && ite(i == 0, x == b.leftExtent, bstr(b, i + 1, x, y)))
framed spans wholeAt tokensOK allPlaced allWhole
define subtreeOK(b BSR) bool = b.set != nil && setOK(b.set) && bOK(b) && endOfRule(b.Label) && whole(b)

// subtree c is a child of b for symbol i
define childOf(b BSR, i int, c BSR) bool = c in b.set.slotEntries && slot.slots[c.Label].NT == as(syms(b.Label)[i], symbols.NT) && spans(b, i, c.leftExtent, c.rightExtent)

// exactly one subtree of b is a child for symbol i
opaque oneChild(b BSR, i int) bool = (exists c BSR :: {c in b.set.slotEntries} childOf(b, i, c)) && (forall c, d BSR :: {c in b.set.slotEntries, d in b.set.slotEntries} childOf(b, i, c) && childOf(b, i, d) ==> c == d)
framed oneChild

func (BSR).GetNTChildrenI(b, i) (res)
  reveal spans, wholeAt, listed, pairIn, oncePair, intIn, strsNew, onceI, onceB, oneChild
  requires subtreeOK(b) && 0 <= i < len(syms(b.Label)) && typeis(syms(b.Label)[i], symbols.NT)
  ensures forall c BSR :: {c in b.set.slotEntries} {inList(res, c)} inList(res, c) <==> c in b.set.slotEntries && slot.slots[c.Label].NT == as(syms(b.Label)[i], symbols.NT) && spans(b, i, c.leftExtent, c.rightExtent)
  ensures once(res)
  ensures forall x int :: {res[x]} 0 <= x < len(res) ==> inList(res, res[x])
  ensures len(res) > 0 ==> childOf(b, i, res[0])
  ensures len(res) > 1 ==> childOf(b, i, res[1]) && res[0] != res[1]
  ensures len(res) == 1 <==> oneChild(b, i)
  loop 1
    invariant row(symbols) == row(syms(b.Label)) && off(symbols) == off(syms(b.Label))
    invariant i + 1 <= len(symbols) && 2 <= len(symbols) < len(syms(b.Label))
    invariant goodStrs(strs)
    invariant forall k, e int :: {pairs(strs, k, e)} pairs(strs, k, e) <==> bcut(b, len(symbols), e) && bstr(b, len(symbols), k, e)
    invariant forall k, e int :: {bstr(b, len(symbols), k, e)} bcut(b, len(symbols), e) && bstr(b, len(symbols), k, e) ==> pairs(strs, k, e)
    decreases len(symbols)
  loop 2
    invariant forall e int :: {ints($coll, e)} {bcut(b, len(symbols), e)} ints($coll, e) <==> bcut(b, len(symbols), e)
    invariant forall x int :: {$coll[x]} 0 <= x < len($coll) ==> ints($coll, $coll[x])
    invariant forall x int :: {$coll[x]} 0 <= x < len($coll) ==> sstr(b.set, b.Label, b.leftExtent, len(symbols), $coll[x])
    invariant fresh(arr(prefixes))
    invariant forall x int :: {prefixes[x]} 0 <= x < len(prefixes) ==> intIn(row($coll), off($coll), $i, prefixes[x].rightExtent)
    invariant goodStrs(prefixes)
    invariant forall k, e int :: {pairs(prefixes, k, e)} pairs(prefixes, k, e) <==> intIn(row($coll), off($coll), $i, e) && bstr(b, len(symbols), k, e)
    end forall e int :: {intIn(row($coll), off($coll), $i + 1, e)} intIn(row($coll), off($coll), $i + 1, e) <==> intIn(row($coll), off($coll), $i, e) || e == $coll[$i]
    end !intIn(row($coll), off($coll), $i, $coll[$i])
    end forall x int :: {prefixes[x]} start(len(prefixes)) <= x < len(prefixes) ==> prefixes[x].rightExtent == $coll[$i] && bstr(b, len(symbols), prefixes[x].pivot, $coll[$i])
    end forall k, e int :: {pairs(prefixes, k, e)} pairs(prefixes, k, e) <==> start(pairs(prefixes, k, e)) || e == $coll[$i] && bstr(b, len(symbols), k, e)
  loop 3
    invariant forall e int :: {ints($coll, e)} {bcut(b, 1, e)} ints($coll, e) <==> bcut(b, 1, e)
    invariant fresh(arr(bsrs))
    invariant once(bsrs)
    invariant forall x int :: {bsrs[x]} 0 <= x < len(bsrs) ==> inList(bsrs, bsrs[x])
    invariant forall c BSR :: {inList(bsrs, c)} inList(bsrs, c) <==> c in b.set.slotEntries && slot.slots[c.Label].NT == as(syms(b.Label)[i], symbols.NT) && c.leftExtent == b.leftExtent && intIn(row($coll), off($coll), $i, c.rightExtent)
    end forall e int :: {intIn(row($coll), off($coll), $i + 1, e)} intIn(row($coll), off($coll), $i + 1, e) <==> intIn(row($coll), off($coll), $i, e) || e == $coll[$i]
    end forall c BSR :: {inList(bsrs, c)} inList(bsrs, c) <==> start(inList(bsrs, c)) || c in b.set.slotEntries && slot.slots[c.Label].NT == as(syms(b.Label)[i], symbols.NT) && c.leftExtent == b.leftExtent && c.rightExtent == $coll[$i]
  loop 4
    invariant fresh(arr(bsrs))
    invariant once(bsrs)
    invariant forall x int :: {bsrs[x]} 0 <= x < len(bsrs) ==> inList(bsrs, bsrs[x])
    invariant forall c BSR :: {inList(bsrs, c)} inList(bsrs, c) <==> c in b.set.slotEntries && slot.slots[c.Label].NT == as(syms(b.Label)[i], symbols.NT) && pairIn(row($coll), off($coll), $i, c.leftExtent, c.rightExtent)

// the tokens lie in the input, in order
opaque tokensOK(l *lexer.Lexer) bool = (forall i int :: {l.Tokens[i]} 0 <= i < len(l.Tokens) ==> l.Tokens[i] != nil && 0 <= l.Tokens[i].lext <= l.Tokens[i].rext && l.Tokens[i].rext <= len(l.I)) && (forall i, j int :: {l.Tokens[i], l.Tokens[j]} 0 <= i < j < len(l.Tokens) ==> l.Tokens[i].rext <= l.Tokens[j].lext)
define placed(b BSR) bool = b.set != nil && b.set.lex != nil && tokensOK(b.set.lex) && 0 <= b.leftExtent <= b.rightExtent && b.rightExtent < len(b.set.lex.Tokens)
opaque allPlaced(s *Set) bool = forall b BSR :: {b in s.slotEntries} b in s.slotEntries ==> 0 <= b.leftExtent <= b.rightExtent && b.rightExtent < len(s.lex.Tokens)
opaque allWhole(s *Set) bool = forall b BSR :: {b in s.slotEntries} b in s.slotEntries ==> endOfRule(b.Label) && wholeAt(s, b.Label, b.leftExtent, b.pivot)
define treesOK(s *Set) bool = s != nil && setOK(s) && s.lex != nil && tokensOK(s.lex) && allPlaced(s) && allWhole(s)
define nodeOK(b BSR) bool = b.set != nil && treesOK(b.set) && b in b.set.slotEntries

func (*Set).getLineColumn(s, cI) (line, col)
  reveal tokensOK
  requires s != nil && s.lex != nil && tokensOK(s.lex) && 0 <= cI < len(s.lex.Tokens)

func (*Set).fail(s, b, format, a)
  requires s != nil && b.set == s && placed(b)
  aborts true
  ensures false

func failf(format, args)
  aborts true
  ensures false

func (BSR).String(b) (res)
  reveal tokensOK
  requires placed(b) && labelOK(b.Label)

func (BSR).GetNTChildI(b, i) (res)
  requires nodeOK(b) && 0 <= i < len(syms(b.Label)) && typeis(syms(b.Label)[i], symbols.NT)
  reveal allPlaced, allWhole
  aborts !oneChild(b, i)
  ensures childOf(b, i, res) && oneChild(b, i)

// the number of occurrences of nt among n symbols
rec occurs(R arr[symbols.Symbol], o, n int, nt symbols.NT) int = ite(n <= 0, 0, occurs(R, o, n-1, nt) + ite(typeis(at(R, o, n-1), symbols.NT) && as(at(R, o, n-1), symbols.NT) == nt, 1, 0))
lemma occursMono: forall R arr[symbols.Symbol], o, n, m int, nt symbols.NT :: {occurs(R, o, n, nt), occurs(R, o, m, nt)} m <= n ==> occurs(R, o, m, nt) <= occurs(R, o, n, nt)
  induction n
// symbol number p is occurrence i of nt: there is at most one
lemma theOne: forall R arr[symbols.Symbol], o, p, q int, nt symbols.NT :: {occurs(R, o, p, nt), occurs(R, o, q, nt)} 0 <= p < q && typeis(at(R, o, p), symbols.NT) && as(at(R, o, p), symbols.NT) == nt ==> occurs(R, o, p + 1, nt) == occurs(R, o, p, nt) + 1 && occurs(R, o, p + 1, nt) <= occurs(R, o, q, nt)
define occursIn(b BSR, n int, nt symbols.NT) int = occurs(row(syms(b.Label)), off(syms(b.Label)), n, nt)
define isThe(b BSR, p int, nt symbols.NT, i int) bool = 0 <= p < len(syms(b.Label)) && typeis(syms(b.Label)[p], symbols.NT) && as(syms(b.Label)[p], symbols.NT) == nt && occursIn(b, p, nt) == i

func (BSR).GetNTChildren(b, nt, i) (res)
  reveal allPlaced, allWhole
  requires nodeOK(b) && 0 <= i
  aborts occursIn(b, len(syms(b.Label)), nt) <= i
  ensures exists p int :: {syms(b.Label)[p]} isThe(b, p, nt, i) && (forall c BSR :: {c in b.set.slotEntries} {inList(res, c)} inList(res, c) <==> childOf(b, p, c)) && (len(res) > 0 ==> childOf(b, p, res[0])) && (len(res) == 1 <==> oneChild(b, p))
  ensures once(res)
  ensures forall x int :: {res[x]} 0 <= x < len(res) ==> inList(res, res[x])
  loop 1
    invariant len(positions) == occurs(row($coll), off($coll), $i, nt) && fresh(arr(positions))
    invariant forall k int :: {positions[k]} 0 <= k < len(positions) ==> isThe(b, positions[k], nt, k)

func (BSR).GetNTChild(b, nt, i) (res)
  reveal allPlaced, allWhole
  requires nodeOK(b) && 0 <= i < occursIn(b, len(syms(b.Label)), nt)
  aborts exists p int :: {syms(b.Label)[p]} isThe(b, p, nt, i) && !oneChild(b, p)
  ensures exists p int :: {syms(b.Label)[p]} isThe(b, p, nt, i) && childOf(b, p, res) && oneChild(b, p)

define isNTSym(b BSR, i int) bool = 0 <= i < len(syms(b.Label)) && typeis(syms(b.Label)[i], symbols.NT)
// the number of nonterminals among n symbols
rec nts(R arr[symbols.Symbol], o, n int) int = ite(n <= 0, 0, nts(R, o, n-1) + ite(typeis(at(R, o, n-1), symbols.NT), 1, 0))
define ntsIn(b BSR, n int) int = nts(row(syms(b.Label)), off(syms(b.Label)), n)

func (BSR).GetAllNTChildren(b) (res)
  reveal allPlaced, allWhole
  requires nodeOK(b)
  ensures len(res) == ntsIn(b, len(syms(b.Label)))
  ensures forall p int :: {syms(b.Label)[p]} isNTSym(b, p) ==> 0 <= ntsIn(b, p) < len(res)
  ensures forall p int, c BSR :: {syms(b.Label)[p], c in b.set.slotEntries} isNTSym(b, p) ==> (inList(res[ntsIn(b, p)], c) <==> childOf(b, p, c))
  loop 1
    invariant fresh(arr(children))
    invariant len(children) == nts(row($coll), off($coll), $i)
    invariant forall p int :: {$coll[p]} 0 <= p < $i && isNTSym(b, p) ==> 0 <= ntsIn(b, p) < len(children)
    invariant forall p int, c BSR :: {$coll[p], c in b.set.slotEntries} 0 <= p < $i && isNTSym(b, p) ==> (inList(children[ntsIn(b, p)], c) <==> childOf(b, p, c))

// b, or a subtree below it, has a nonterminal without exactly one subtree: the least solution
spec amb(b BSR) bool
  reads oneChild(b, 0)
framed amb
axiom ambDef: forall b BSR :: {amb(b)} amb(b) <==> (exists i int :: {syms(b.Label)[i]} isNTSym(b, i) && (!oneChild(b, i) || (exists c BSR :: {c in b.set.slotEntries} childOf(b, i, c) && amb(c))))

func isAmbiguous(b) (res)
  noterm
  reveal listed, allWhole
  requires nodeOK(b)
  ensures res <==> amb(b)
  loop 1
    invariant forall p int :: {$coll[p]} 0 <= p < $i && isNTSym(b, p) ==> oneChild(b, p)
    invariant forall p int, c BSR :: {$coll[p], c in b.set.slotEntries} 0 <= p < $i && isNTSym(b, p) && childOf(b, p, c) ==> !amb(c)
  loop 2
    invariant forall c BSR :: {c in b.set.slotEntries} childOf(b, i, c) ==> inList($coll, c)
    invariant forall x int :: {$coll[x]} 0 <= x < len($coll) ==> childOf(b, i, $coll[x]) && $coll[x].set == b.set
    invariant forall x int :: {$coll[x]} 0 <= x < $i ==> !amb($coll[x])

func (*Set).IsAmbiguous(s) (res)
  reveal listed, onceB, allPlaced, allWhole
  requires treesOK(s) && ntIs(s.startSym)
  ensures res <==> !(exists b BSR :: {b in s.slotEntries} rootOf(s, b)) || (exists b, c BSR :: {b in s.slotEntries, c in s.slotEntries} rootOf(s, b) && rootOf(s, c) && b != c) || (exists b BSR :: {b in s.slotEntries} rootOf(s, b) && amb(b))

// the number of tokens under symbol j of b, where it has one subtree
spec width(b BSR, j int) int
  reads oneChild(b, 0)
axiom widthIs: forall b BSR, j int, c BSR :: {width(b, j), c in b.set.slotEntries} isNTSym(b, j) && oneChild(b, j) && childOf(b, j, c) ==> width(b, j) == c.rightExtent - c.leftExtent
// where symbol j of b begins
rec tokAt(b BSR, j int) int = ite(j <= 0, b.leftExtent, tokAt(b, j-1) + ite(typeis(syms(b.Label)[j-1], symbols.NT), width(b, j-1), 1))
framed width tokAt

func (BSR).GetTChildI(b, i) (res)
  reveal allPlaced, allWhole
  requires nodeOK(b) && 0 <= i
  requires forall k int :: {syms(b.Label)[k]} 0 <= k < len(syms(b.Label)) && !typeis(syms(b.Label)[k], symbols.NT) ==> typeis(syms(b.Label)[k], symbols.T)
  aborts i >= len(syms(b.Label)) || typeis(syms(b.Label)[i], symbols.NT)
  aborts exists k int :: {syms(b.Label)[k]} 0 <= k < i && isNTSym(b, k) && !oneChild(b, k)
  aborts !(0 <= tokAt(b, i) < len(b.set.lex.Tokens))
  ensures res == b.set.lex.Tokens[tokAt(b, i)]
  loop 1
    invariant 0 <= j <= i && lext == tokAt(b, j)
    invariant forall k int :: {syms(b.Label)[k]} 0 <= k < j && isNTSym(b, k) ==> oneChild(b, k)
    decreases i - j

func (BSR).Alternate(b) (res)
  requires labelOK(b.Label)
  ensures res == slot.slots[b.Label].Alt

func (BSR).LeftExtent(b) (res)
  ensures res == b.leftExtent

func (BSR).RightExtent(b) (res)
  ensures res == b.rightExtent

func (BSR).Pivot(b) (res)
  ensures res == b.pivot

func (*Set).GetRightExtent(s) (res)
  requires s != nil
  ensures res == s.rightExtent
