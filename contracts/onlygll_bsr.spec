package $GEN/parser/bsr

// ---- the shared packed parse forest ----
define snIs(n *sppf.SymbolNode, s string, i, j int) bool = n != nil && n.Symbol == s && n.Lext == i && n.Rext == j
define snIn(bld *bldSPPF, n *sppf.SymbolNode) bool = snLabel(n) in bld.sNodes && bld.sNodes[snLabel(n)] == n
define pnIn(bld *bldSPPF, n *sppf.PackedNode) bool = pnLabel(n) in bld.pNodes && bld.pNodes[pnLabel(n)] == n
// the right child is the last symbol before the dot
define lastSym(pn *sppf.PackedNode) string = symStr(pn.Body[pn.Pos - 1])
define rightOK(pn *sppf.PackedNode) bool = ite(len(pn.Body) == 0, snIs(pn.RightChild, "ϵ", pn.Lext, pn.Lext), snIs(pn.RightChild, lastSym(pn), pn.Pivot, pn.Rext))
define inIs(n *sppf.IntermediateNode, nt symbols.NT, body []symbols.Symbol, pos, i, j int) bool = n != nil && n.NT == nt && n.Body == body && n.Pos == pos && n.Lext == i && n.Rext == j
// the left child is what comes before it: nothing, one symbol, or an intermediate node
define leftOK(pn *sppf.PackedNode) bool = ite(len(pn.Body) == 0 || pn.Pos < 2, pn.LeftChild == nil, ite(pn.Pos == 2, typeis(pn.LeftChild, *sppf.SymbolNode) && snIs(as(pn.LeftChild, *sppf.SymbolNode), symStr(pn.Body[0]), pn.Lext, pn.Pivot), typeis(pn.LeftChild, *sppf.IntermediateNode) && inIs(as(pn.LeftChild, *sppf.IntermediateNode), pn.NT, pn.Body, pn.Pos - 1, pn.Lext, pn.Pivot)))
define bodyAt(nt symbols.NT, body []symbols.Symbol, pos int) bool = ntIs(nt) && symsIs(body) && 0 <= pos <= len(body) && (len(body) > 0 ==> pos > 0)
opaque pnOK(pn *sppf.PackedNode) bool = pn != nil && bodyAt(pn.NT, pn.Body, pn.Pos) && rightOK(pn) && leftOK(pn)
framed pnOK
// children that are symbol nodes are the nodes of the table
opaque linked(bld *bldSPPF, pn *sppf.PackedNode) bool = snIn(bld, pn.RightChild) && (typeis(pn.LeftChild, *sppf.SymbolNode) ==> snIn(bld, as(pn.LeftChild, *sppf.SymbolNode)))
opaque sTab(bld *bldSPPF) bool = bld.sNodes != nil && (forall k string :: {k in bld.sNodes} k in bld.sNodes ==> bld.sNodes[k] != nil && snLabel(bld.sNodes[k]) == k)
opaque pTab(bld *bldSPPF) bool = bld.pNodes != nil && (forall k string :: {k in bld.pNodes} k in bld.pNodes ==> bld.pNodes[k] != nil && pnLabel(bld.pNodes[k]) == k && pnOK(bld.pNodes[k]) && linked(bld, bld.pNodes[k]))
framed linked sTab pTab
define bldOK(bld *bldSPPF) bool = bld != nil && sTab(bld) && pTab(bld) && bld.sNodes != bld.pNodes

func (*bldSPPF).mkIN(bld, nt, body, pos, lext, rext) (res)
  requires bld != nil && cap(bld.extLeafNodes) >= 0
  modifies bld.extLeafNodes, elems(bld.extLeafNodes)
  ensures fresh(res) && inIs(res, nt, body, pos, lext, rext) && len(res.Children) == 0 && arr(res.Children) == 0
  ensures len(bld.extLeafNodes) == old(len(bld.extLeafNodes)) + 1 && typeis(bld.extLeafNodes[old(len(bld.extLeafNodes))], *sppf.IntermediateNode) && as(bld.extLeafNodes[old(len(bld.extLeafNodes))], *sppf.IntermediateNode) == res
  ensures forall x int :: {bld.extLeafNodes[x]} {old(bld.extLeafNodes[x])} 0 <= x < old(len(bld.extLeafNodes)) ==> bld.extLeafNodes[x] == old(bld.extLeafNodes[x])
  ensures arr(bld.extLeafNodes) == old(arr(bld.extLeafNodes)) || fresh(arr(bld.extLeafNodes))

func (*bldSPPF).mkSN(bld, symbol, lext, rext) (res)
  reveal sTab, pTab, linked
  requires bld != nil && sTab(bld)
  modifies bld.extLeafNodes, elems(bld.extLeafNodes), mapof(bld.sNodes)
  ensures sTab(bld)
  ensures snIs(res, symbol, lext, rext) && snIn(bld, res)
  ensures forall k string :: {k in bld.sNodes} {old(k in bld.sNodes)} k in bld.sNodes <==> old(k in bld.sNodes) || k == snKey(symbol, lext, rext)
  ensures forall k string :: {bld.sNodes[k]} old(k in bld.sNodes) ==> bld.sNodes[k] == old(bld.sNodes[k])
  ensures old(snKey(symbol, lext, rext) in bld.sNodes) || fresh(res) && len(res.Children) == 0 && arr(res.Children) == 0
  ensures len(bld.extLeafNodes) == old(len(bld.extLeafNodes)) + ite(old(snKey(symbol, lext, rext) in bld.sNodes) || !(symbol in symbols.stringNT), 0, 1)
  ensures len(bld.extLeafNodes) > old(len(bld.extLeafNodes)) ==> typeis(bld.extLeafNodes[old(len(bld.extLeafNodes))], *sppf.SymbolNode) && as(bld.extLeafNodes[old(len(bld.extLeafNodes))], *sppf.SymbolNode) == res
  ensures forall x int :: {bld.extLeafNodes[x]} {old(bld.extLeafNodes[x])} 0 <= x < old(len(bld.extLeafNodes)) ==> bld.extLeafNodes[x] == old(bld.extLeafNodes[x])
  ensures arr(bld.extLeafNodes) == old(arr(bld.extLeafNodes)) || fresh(arr(bld.extLeafNodes))

// one of n nodes is the symbol node sn; the intermediate node in
opaque pendS(R arr[sppf.Node], o, n int, sn *sppf.SymbolNode) bool = exists x int :: {at(R, o, x)} 0 <= x < n && typeis(at(R, o, x), *sppf.SymbolNode) && as(at(R, o, x), *sppf.SymbolNode) == sn
opaque pendI(R arr[sppf.Node], o, n int, m *sppf.IntermediateNode) bool = exists x int :: {at(R, o, x)} 0 <= x < n && typeis(at(R, o, x), *sppf.IntermediateNode) && as(at(R, o, x), *sppf.IntermediateNode) == m
define todoS(bld *bldSPPF, sn *sppf.SymbolNode) bool = pendS(row(bld.extLeafNodes), off(bld.extLeafNodes), len(bld.extLeafNodes), sn)
define todoI(bld *bldSPPF, m *sppf.IntermediateNode) bool = pendI(row(bld.extLeafNodes), off(bld.extLeafNodes), len(bld.extLeafNodes), m)
lemma pendStepS: forall R arr[sppf.Node], o, n, m int, sn *sppf.SymbolNode :: {pendS(R, o, n, sn), at(R, o, m)} 0 <= m && n == m + 1 ==> (pendS(R, o, n, sn) <==> pendS(R, o, m, sn) || typeis(at(R, o, m), *sppf.SymbolNode) && as(at(R, o, m), *sppf.SymbolNode) == sn)
  reveal pendS
lemma pendStepI: forall R arr[sppf.Node], o, n, m int, in *sppf.IntermediateNode :: {pendI(R, o, n, in), at(R, o, m)} 0 <= m && n == m + 1 ==> (pendI(R, o, n, in) <==> pendI(R, o, m, in) || typeis(at(R, o, m), *sppf.IntermediateNode) && as(at(R, o, m), *sppf.IntermediateNode) == in)
  reveal pendI
// the new nodes of the worklist
define leafS(bld *bldSPPF, n sppf.Node) bool = typeis(n, *sppf.SymbolNode) && as(n, *sppf.SymbolNode) != nil && snIn(bld, as(n, *sppf.SymbolNode)) && as(n, *sppf.SymbolNode).Symbol in symbols.stringNT && arr(as(n, *sppf.SymbolNode).Children) == 0 && len(as(n, *sppf.SymbolNode).Children) == 0
define leafI(n sppf.Node) bool = typeis(n, *sppf.IntermediateNode) && as(n, *sppf.IntermediateNode) != nil && bodyAt(as(n, *sppf.IntermediateNode).NT, as(n, *sppf.IntermediateNode).Body, as(n, *sppf.IntermediateNode).Pos) && as(n, *sppf.IntermediateNode).Pos > 1 && arr(as(n, *sppf.IntermediateNode).Children) == 0 && len(as(n, *sppf.IntermediateNode).Children) == 0
define leaf(bld *bldSPPF, n sppf.Node) bool = leafS(bld, n) || leafI(n)
opaque kidsIn(bld *bldSPPF, R arr[*sppf.PackedNode], o, n int) bool = forall x int :: {at(R, o, x)} 0 <= x < n ==> at(R, o, x) != nil && pnIn(bld, at(R, o, x))

lemma kidsNone: forall bld *bldSPPF, R arr[*sppf.PackedNode], o, n int :: {kidsIn(bld, R, o, n)} n <= 0 ==> kidsIn(bld, R, o, n)
  reveal kidsIn
lemma kidsMore: forall bld *bldSPPF, R arr[*sppf.PackedNode], o, n int, Q arr[*sppf.PackedNode], p, m int :: {kidsIn(bld, R, o, n), kidsIn(bld, Q, p, m)} kidsIn(bld, Q, p, m) && 0 <= m && n == m + 1 && (forall x int :: {at(R, o, x)} {at(Q, p, x)} 0 <= x < m ==> at(R, o, x) == at(Q, p, x)) && at(R, o, m) != nil && pnIn(bld, at(R, o, m)) ==> kidsIn(bld, R, o, n)
  reveal kidsIn

func (*bldSPPF).mkPN(bld, nt, body, pos, lext, pivot, rext) (res)
  reveal sTab, pTab, linked, pnOK, pendS, pendI, kidsIn
  requires bldOK(bld) && bodyAt(nt, body, pos)
  modifies bld.extLeafNodes, elems(bld.extLeafNodes), mapof(bld.sNodes), mapof(bld.pNodes)
  ensures bldOK(bld)
  ensures res != nil && pnIn(bld, res) && pnLabel(res) == pnKey(nt, row(body), off(body), len(body), pos, lext, pivot, rext)
  ensures forall k string :: {k in bld.pNodes} {old(k in bld.pNodes)} k in bld.pNodes <==> old(k in bld.pNodes) || k == pnKey(nt, row(body), off(body), len(body), pos, lext, pivot, rext)
  ensures forall k string :: {bld.pNodes[k]} old(k in bld.pNodes) ==> bld.pNodes[k] == old(bld.pNodes[k])
  ensures forall k string :: {k in bld.pNodes} k in bld.pNodes && !old(k in bld.pNodes) && typeis(bld.pNodes[k].LeftChild, *sppf.IntermediateNode) ==> todoI(bld, as(bld.pNodes[k].LeftChild, *sppf.IntermediateNode))
  ensures forall k string :: {old(k in bld.sNodes)} old(k in bld.sNodes) ==> k in bld.sNodes
  ensures forall k string :: {bld.sNodes[k]} old(k in bld.sNodes) ==> bld.sNodes[k] == old(bld.sNodes[k])
  ensures forall k string :: {k in bld.sNodes} k in bld.sNodes && !old(k in bld.sNodes) ==> fresh(bld.sNodes[k]) && arr(bld.sNodes[k].Children) == 0 && len(bld.sNodes[k].Children) == 0 && (bld.sNodes[k].Symbol in symbols.stringNT ==> todoS(bld, bld.sNodes[k]))
  ensures len(bld.extLeafNodes) >= old(len(bld.extLeafNodes))
  ensures forall x int :: {bld.extLeafNodes[x]} {old(bld.extLeafNodes[x])} 0 <= x < old(len(bld.extLeafNodes)) ==> bld.extLeafNodes[x] == old(bld.extLeafNodes[x])
  ensures forall x int :: {bld.extLeafNodes[x]} old(len(bld.extLeafNodes)) <= x < len(bld.extLeafNodes) ==> leaf(bld, bld.extLeafNodes[x]) && (typeis(bld.extLeafNodes[x], *sppf.SymbolNode) ==> fresh(as(bld.extLeafNodes[x], *sppf.SymbolNode))) && (typeis(bld.extLeafNodes[x], *sppf.IntermediateNode) ==> fresh(as(bld.extLeafNodes[x], *sppf.IntermediateNode)))
  ensures forall x, y int :: {bld.extLeafNodes[x], bld.extLeafNodes[y]} old(len(bld.extLeafNodes)) <= x < y && y < len(bld.extLeafNodes) ==> bld.extLeafNodes[x] != bld.extLeafNodes[y]
  ensures arr(bld.extLeafNodes) == old(arr(bld.extLeafNodes)) || fresh(arr(bld.extLeafNodes))
  ensures forall R arr[*sppf.PackedNode], o, n int :: {kidsIn(bld, R, o, n)} old(kidsIn(bld, R, o, n)) ==> kidsIn(bld, R, o, n)

// ---- the forest ----
define bKey(b BSR) string = pnKey(slot.slots[b.Label].NT, row(syms(b.Label)), off(syms(b.Label)), len(syms(b.Label)), slot.slots[b.Label].Pos, b.leftExtent, b.pivot, b.rightExtent)
define derives(pf *Set, nt symbols.NT, i, j int, b BSR) bool = b in pf.slotEntries && slot.slots[b.Label].NT == nt && b.leftExtent == i && b.rightExtent == j
// key is the label of a packed node for a derivation of nt over i..j
opaque derS(pf *Set, nt symbols.NT, i, j int, key string) bool = exists b BSR :: {b in pf.slotEntries} derives(pf, nt, i, j, b) && key == bKey(b)
// the same for the first pos symbols of a rule
opaque derI(pf *Set, nt symbols.NT, R arr[symbols.Symbol], o, n, pos, i, j int, key string) bool = exists k int :: {strIn(pf, R, o, pos, i, k, j)} strIn(pf, R, o, pos, i, k, j) && key == pnKey(nt, R, o, n, pos, i, k, j)
opaque hasKid(R arr[*sppf.PackedNode], o, n int, key string) bool = exists x int :: {at(R, o, x)} 0 <= x < n && pnLabel(at(R, o, x)) == key
framed derS derI hasKid
opaque kidsS(pf *Set, nt symbols.NT, i, j int, R arr[*sppf.PackedNode], o, n int) bool = (forall b BSR :: {b in pf.slotEntries} derives(pf, nt, i, j, b) ==> hasKid(R, o, n, bKey(b))) && (forall x int :: {at(R, o, x)} 0 <= x < n ==> derS(pf, nt, i, j, pnLabel(at(R, o, x))))
opaque kidsI(pf *Set, nt symbols.NT, S arr[symbols.Symbol], p, m, pos, i, j int, R arr[*sppf.PackedNode], o, n int) bool = (forall k int :: {strIn(pf, S, p, pos, i, k, j)} strIn(pf, S, p, pos, i, k, j) ==> hasKid(R, o, n, pnKey(nt, S, p, m, pos, i, k, j))) && (forall x int :: {at(R, o, x)} 0 <= x < n ==> derI(pf, nt, S, p, m, pos, i, j, pnLabel(at(R, o, x))))
framed kidsS kidsI
// all the derivations of the node, and nothing else, are below it
define doneS(bld *bldSPPF, pf *Set, sn *sppf.SymbolNode) bool = kidsS(pf, symbols.stringNT[sn.Symbol], sn.Lext, sn.Rext, row(sn.Children), off(sn.Children), len(sn.Children)) && kidsIn(bld, row(sn.Children), off(sn.Children), len(sn.Children))
define doneI(bld *bldSPPF, pf *Set, m *sppf.IntermediateNode) bool = kidsI(pf, m.NT, row(m.Body), off(m.Body), len(m.Body), m.Pos, m.Lext, m.Rext, row(m.Children), off(m.Children), len(m.Children)) && kidsIn(bld, row(m.Children), off(m.Children), len(m.Children))
define inOf(pn *sppf.PackedNode) *sppf.IntermediateNode = as(pn.LeftChild, *sppf.IntermediateNode)
define hasIN(pn *sppf.PackedNode) bool = typeis(pn.LeftChild, *sppf.IntermediateNode)
define isNTName(s string) bool = s in symbols.stringNT
define namesOK() bool = (forall s string :: {s in symbols.stringNT} s in symbols.stringNT ==> ntIs(symbols.stringNT[s]))
define leaves(bld *bldSPPF) bool = (forall x int :: {bld.extLeafNodes[x]} 0 <= x < len(bld.extLeafNodes) ==> leaf(bld, bld.extLeafNodes[x])) && (forall x, y int :: {bld.extLeafNodes[x], bld.extLeafNodes[y]} 0 <= x < y && y < len(bld.extLeafNodes) ==> bld.extLeafNodes[x] != bld.extLeafNodes[y])
opaque allEnd(pf *Set) bool = forall b BSR :: {b in pf.slotEntries} b in pf.slotEntries ==> endOfRule(b.Label)

define freshLeaf(n sppf.Node) bool = (typeis(n, *sppf.SymbolNode) ==> fresh(as(n, *sppf.SymbolNode))) && (typeis(n, *sppf.IntermediateNode) ==> fresh(as(n, *sppf.IntermediateNode)))
func (*Set).ToSPPF(pf) (res)
  noterm
  reveal sTab, pTab, pnOK, listed, kidsS, kidsI, hasKid, derS, derI, pairIn, strsNew, allEnd, pendS, pendI
  requires setOK(pf) && allEnd(pf) && namesOK() && ntIs(pf.startSym)
  aborts !(exists b BSR :: {b in pf.slotEntries} rootOf(pf, b))
  exit snIn(bld, res)
  exit forall k string :: {k in bld.sNodes} k in bld.sNodes ==> ite(isNTName(bld.sNodes[k].Symbol), doneS(bld, pf, bld.sNodes[k]), len(bld.sNodes[k].Children) == 0)
  exit forall k string :: {k in bld.pNodes} k in bld.pNodes && hasIN(bld.pNodes[k]) ==> doneI(bld, pf, inOf(bld.pNodes[k]))
  ensures snIs(res, ntStr(pf.startSym), 0, pf.rightExtent)
  loop 1
    invariant bldOK(bld) && leaves(bld) && fresh(bld)
    invariant snIn(bld, bld.root) && snIs(bld.root, ntStr(pf.startSym), 0, pf.rightExtent)
    invariant fresh(bld.sNodes) && fresh(bld.pNodes)
    invariant arr(bld.extLeafNodes) == 0 || fresh(arr(bld.extLeafNodes))
    invariant forall x int :: {bld.extLeafNodes[x]} 0 <= x < len(bld.extLeafNodes) ==> freshLeaf(bld.extLeafNodes[x])
    invariant forall k string :: {k in bld.sNodes} k in bld.sNodes ==> fresh(bld.sNodes[k]) && ite(isNTName(bld.sNodes[k].Symbol), todoS(bld, bld.sNodes[k]) || doneS(bld, pf, bld.sNodes[k]), len(bld.sNodes[k].Children) == 0)
    invariant forall k string :: {k in bld.pNodes} k in bld.pNodes && hasIN(bld.pNodes[k]) ==> fresh(inOf(bld.pNodes[k])) && (todoI(bld, inOf(bld.pNodes[k])) || doneI(bld, pf, inOf(bld.pNodes[k])))
  loop 2
    invariant bldOK(bld) && leaves(bld)
    invariant arr(bld.extLeafNodes) == 0 || fresh(arr(bld.extLeafNodes))
    invariant nt != nil && fresh(nt) && snIn(bld, nt) && isNTName(nt.Symbol)
    invariant forall x int :: {bld.extLeafNodes[x]} 0 <= x < len(bld.extLeafNodes) ==> freshLeaf(bld.extLeafNodes[x]) && !(typeis(bld.extLeafNodes[x], *sppf.SymbolNode) && as(bld.extLeafNodes[x], *sppf.SymbolNode) == nt)
    invariant arr(nt.Children) == 0 || newer(nt.Children)
    invariant kidsIn(bld, row(nt.Children), off(nt.Children), len(nt.Children))
    invariant forall n *sppf.SymbolNode :: {n.Children} before(isalloc(n)) && n != nt ==> n.Children == before(n.Children) && row(n.Children) == before(row(n.Children))
    invariant forall n *sppf.IntermediateNode :: {n.Children} before(isalloc(n)) ==> n.Children == before(n.Children) && row(n.Children) == before(row(n.Children))
    invariant forall n *sppf.IntermediateNode :: {n.NT} before(isalloc(n)) ==> n.NT == before(n.NT)
    invariant forall n *sppf.IntermediateNode :: {n.Body} before(isalloc(n)) ==> n.Body == before(n.Body)
    invariant forall n *sppf.IntermediateNode :: {n.Pos} before(isalloc(n)) ==> n.Pos == before(n.Pos)
    invariant forall n *sppf.IntermediateNode :: {n.Lext} before(isalloc(n)) ==> n.Lext == before(n.Lext)
    invariant forall n *sppf.IntermediateNode :: {n.Rext} before(isalloc(n)) ==> n.Rext == before(n.Rext)
    invariant forall k string :: {k in bld.pNodes} {before(k in bld.pNodes)} before(k in bld.pNodes) ==> bld.pNodes[k].LeftChild == before(bld.pNodes[k].LeftChild)
    invariant forall R arr[*sppf.PackedNode], o, n int :: {kidsIn(bld, R, o, n)} before(kidsIn(bld, R, o, n)) ==> kidsIn(bld, R, o, n)
    invariant len(bld.extLeafNodes) >= before(len(bld.extLeafNodes))
    invariant forall x int :: {bld.extLeafNodes[x]} 0 <= x < before(len(bld.extLeafNodes)) ==> bld.extLeafNodes[x] == before(bld.extLeafNodes[x])
    invariant forall n *sppf.SymbolNode :: {todoS(bld, n)} {before(todoS(bld, n))} before(todoS(bld, n)) ==> todoS(bld, n)
    invariant forall n *sppf.IntermediateNode :: {todoI(bld, n)} {before(todoI(bld, n))} before(todoI(bld, n)) ==> todoI(bld, n)
    invariant forall k string :: {k in bld.sNodes} {before(k in bld.sNodes)} before(k in bld.sNodes) ==> k in bld.sNodes && bld.sNodes[k] == before(bld.sNodes[k])
    invariant forall k string :: {k in bld.pNodes} {before(k in bld.pNodes)} before(k in bld.pNodes) ==> k in bld.pNodes && bld.pNodes[k] == before(bld.pNodes[k])
    invariant forall k string :: {k in bld.sNodes} k in bld.sNodes && !before(k in bld.sNodes) ==> fresh(bld.sNodes[k]) && len(bld.sNodes[k].Children) == 0 && (isNTName(bld.sNodes[k].Symbol) ==> todoS(bld, bld.sNodes[k]))
    invariant forall k string :: {k in bld.pNodes} k in bld.pNodes && !before(k in bld.pNodes) && hasIN(bld.pNodes[k]) ==> fresh(inOf(bld.pNodes[k])) && todoI(bld, inOf(bld.pNodes[k]))
    invariant forall x int :: {nt.Children[x]} 0 <= x < len(nt.Children) ==> derS(pf, symbols.stringNT[nt.Symbol], nt.Lext, nt.Rext, pnLabel(nt.Children[x]))
    invariant forall i int :: {$coll[i]} 0 <= i < $i ==> hasKid(row(nt.Children), off(nt.Children), len(nt.Children), bKey($coll[i]))
    end derives(pf, symbols.stringNT[nt.Symbol], nt.Lext, nt.Rext, $coll[$i]) && pnLabel(nt.Children[len(nt.Children) - 1]) == bKey($coll[$i])
    end kidsIn(bld, start(row(nt.Children)), start(off(nt.Children)), start(len(nt.Children))) && len(nt.Children) == start(len(nt.Children)) + 1 && pnIn(bld, nt.Children[len(nt.Children) - 1])
    end forall key string :: {hasKid(row(nt.Children), off(nt.Children), len(nt.Children), key)} hasKid(row(nt.Children), off(nt.Children), len(nt.Children), key) <==> start(hasKid(row(nt.Children), off(nt.Children), len(nt.Children), key)) || key == bKey($coll[$i])
  loop 3
    invariant bldOK(bld) && leaves(bld)
    invariant arr(bld.extLeafNodes) == 0 || fresh(arr(bld.extLeafNodes))
    invariant in != nil && fresh(in) && bodyAt(in.NT, in.Body, in.Pos) && in.Pos > 1
    invariant forall x int :: {bld.extLeafNodes[x]} 0 <= x < len(bld.extLeafNodes) ==> freshLeaf(bld.extLeafNodes[x]) && !(typeis(bld.extLeafNodes[x], *sppf.IntermediateNode) && as(bld.extLeafNodes[x], *sppf.IntermediateNode) == in)
    invariant arr(in.Children) == 0 || newer(in.Children)
    invariant kidsIn(bld, row(in.Children), off(in.Children), len(in.Children))
    invariant forall n *sppf.SymbolNode :: {n.Children} before(isalloc(n)) ==> n.Children == before(n.Children) && row(n.Children) == before(row(n.Children))
    invariant forall n *sppf.IntermediateNode :: {n.Children} before(isalloc(n)) && n != in ==> n.Children == before(n.Children) && row(n.Children) == before(row(n.Children))
    invariant forall n *sppf.IntermediateNode :: {n.NT} before(isalloc(n)) ==> n.NT == before(n.NT)
    invariant forall n *sppf.IntermediateNode :: {n.Body} before(isalloc(n)) ==> n.Body == before(n.Body)
    invariant forall n *sppf.IntermediateNode :: {n.Pos} before(isalloc(n)) ==> n.Pos == before(n.Pos)
    invariant forall n *sppf.IntermediateNode :: {n.Lext} before(isalloc(n)) ==> n.Lext == before(n.Lext)
    invariant forall n *sppf.IntermediateNode :: {n.Rext} before(isalloc(n)) ==> n.Rext == before(n.Rext)
    invariant forall k string :: {k in bld.pNodes} {before(k in bld.pNodes)} before(k in bld.pNodes) ==> bld.pNodes[k].LeftChild == before(bld.pNodes[k].LeftChild)
    invariant forall R arr[*sppf.PackedNode], o, n int :: {kidsIn(bld, R, o, n)} before(kidsIn(bld, R, o, n)) ==> kidsIn(bld, R, o, n)
    invariant len(bld.extLeafNodes) >= before(len(bld.extLeafNodes))
    invariant forall x int :: {bld.extLeafNodes[x]} 0 <= x < before(len(bld.extLeafNodes)) ==> bld.extLeafNodes[x] == before(bld.extLeafNodes[x])
    invariant forall n *sppf.SymbolNode :: {todoS(bld, n)} {before(todoS(bld, n))} before(todoS(bld, n)) ==> todoS(bld, n)
    invariant forall n *sppf.IntermediateNode :: {todoI(bld, n)} {before(todoI(bld, n))} before(todoI(bld, n)) ==> todoI(bld, n)
    invariant forall k string :: {k in bld.sNodes} {before(k in bld.sNodes)} before(k in bld.sNodes) ==> k in bld.sNodes && bld.sNodes[k] == before(bld.sNodes[k])
    invariant forall k string :: {k in bld.pNodes} {before(k in bld.pNodes)} before(k in bld.pNodes) ==> k in bld.pNodes && bld.pNodes[k] == before(bld.pNodes[k])
    invariant forall k string :: {k in bld.sNodes} k in bld.sNodes && !before(k in bld.sNodes) ==> fresh(bld.sNodes[k]) && len(bld.sNodes[k].Children) == 0 && (isNTName(bld.sNodes[k].Symbol) ==> todoS(bld, bld.sNodes[k]))
    invariant forall k string :: {k in bld.pNodes} k in bld.pNodes && !before(k in bld.pNodes) && hasIN(bld.pNodes[k]) ==> fresh(inOf(bld.pNodes[k])) && todoI(bld, inOf(bld.pNodes[k]))
    invariant in.NT == before(in.NT) && in.Body == before(in.Body) && in.Pos == before(in.Pos) && in.Lext == before(in.Lext) && in.Rext == before(in.Rext)
    invariant forall x int :: {$coll[x]} 0 <= x < len($coll) ==> $coll[x] != nil && $coll[x].leftExtent == in.Lext && $coll[x].rightExtent == in.Rext && strIn(pf, row(in.Body), off(in.Body), in.Pos, in.Lext, $coll[x].pivot, in.Rext)
    invariant forall k int :: {strIn(pf, row(in.Body), off(in.Body), in.Pos, in.Lext, k, in.Rext)} strIn(pf, row(in.Body), off(in.Body), in.Pos, in.Lext, k, in.Rext) ==> pairs($coll, k, in.Rext)
    invariant forall x int :: {in.Children[x]} 0 <= x < len(in.Children) ==> derI(pf, in.NT, row(in.Body), off(in.Body), len(in.Body), in.Pos, in.Lext, in.Rext, pnLabel(in.Children[x]))
    invariant forall i int :: {$coll[i]} 0 <= i < $i ==> hasKid(row(in.Children), off(in.Children), len(in.Children), pnKey(in.NT, row(in.Body), off(in.Body), len(in.Body), in.Pos, in.Lext, $coll[i].pivot, in.Rext))
    end strIn(pf, row(in.Body), off(in.Body), in.Pos, in.Lext, $coll[$i].pivot, in.Rext) && pnLabel(in.Children[len(in.Children) - 1]) == pnKey(in.NT, row(in.Body), off(in.Body), len(in.Body), in.Pos, in.Lext, $coll[$i].pivot, in.Rext)
    end kidsIn(bld, start(row(in.Children)), start(off(in.Children)), start(len(in.Children))) && len(in.Children) == start(len(in.Children)) + 1 && pnIn(bld, in.Children[len(in.Children) - 1])
    end forall key string :: {hasKid(row(in.Children), off(in.Children), len(in.Children), key)} hasKid(row(in.Children), off(in.Children), len(in.Children), key) <==> start(hasKid(row(in.Children), off(in.Children), len(in.Children), key)) || key == pnKey(in.NT, row(in.Body), off(in.Body), len(in.Body), in.Pos, in.Lext, $coll[$i].pivot, in.Rext)
