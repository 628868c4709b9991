package $GEN/parser

// ---- descriptors ----
opaque dAt(R arr[*descriptor], o, n int, L slot.Label, k, i int) bool = exists x int :: {at(R, o, x)} 0 <= x < n && at(R, o, x).L == L && at(R, o, x).k == k && at(R, o, x).i == i
opaque dNew(R arr[*descriptor], o, n int) bool = forall x int :: {at(R, o, x)} 0 <= x < n ==> at(R, o, x) != nil
opaque dOnce(R arr[*descriptor], o, n int) bool = forall x, y int :: {at(R, o, x), at(R, o, y)} 0 <= x < y < n ==> !(at(R, o, x).L == at(R, o, y).L && at(R, o, x).k == at(R, o, y).k && at(R, o, x).i == at(R, o, y).i)
framed dAt dNew dOnce eAt cNew cCanon cApart
define dIn(d *descriptors, L slot.Label, k, i int) bool = dAt(row(d.set), off(d.set), len(d.set), L, k, i)
define dsOK(d *descriptors) bool = d != nil && dNew(row(d.set), off(d.set), len(d.set)) && dOnce(row(d.set), off(d.set), len(d.set))
// every descriptor still to do is among the known ones
define todoOK(p *parser) bool = dsOK(p.R) && dsOK(p.U) && p.R != p.U && (cap(p.R.set) > 0 && cap(p.U.set) > 0 ==> arr(p.R.set) != arr(p.U.set)) && (forall L slot.Label, k, i int :: {dIn(p.R, L, k, i)} dIn(p.R, L, k, i) ==> dIn(p.U, L, k, i))

func (*descriptors).contain(ds, d) (res)
  reveal dAt, dNew, dOnce
  requires dsOK(ds) && d != nil
  ensures res <==> dIn(ds, d.L, d.k, d.i)
  loop 1
    invariant !dAt(row($coll), off($coll), $i, d.L, d.k, d.i)

func (*descriptors).empty(ds) (res)
  requires ds != nil
  ensures res <==> len(ds.set) == 0

func (*descriptors).remove(ds) (L, k, i)
  reveal dAt, dNew, dOnce
  requires dsOK(ds) && len(ds.set) > 0
  modifies ds.set
  ensures dsOK(ds) && len(ds.set) == old(len(ds.set)) - 1
  ensures arr(ds.set) == old(arr(ds.set)) && cap(ds.set) == old(cap(ds.set))
  ensures old(dIn(ds, L, k, i)) && !dIn(ds, L, k, i)
  ensures forall M slot.Label, a, b int :: {dIn(ds, M, a, b)} {old(dIn(ds, M, a, b))} dIn(ds, M, a, b) <==> old(dIn(ds, M, a, b)) && !(M == L && a == k && b == i)

func (*parser).dscAdd(p, L, k, i)
  reveal dAt, dNew, dOnce
  requires p != nil && todoOK(p)
  modifies p.R.set, p.U.set, anyelems("*descriptor")
  exit forall x int :: {p.R.set[x]} 0 <= x < old(len(p.R.set)) ==> p.R.set[x] == old(p.R.set[x])
  exit !old(dIn(p.U, L, k, i)) ==> !old(dIn(p.R, L, k, i))
  exit dOnce(row(p.R.set), off(p.R.set), len(p.R.set))
  exit forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} {old(dIn(p.U, M, a, b))} dIn(p.U, M, a, b) <==> old(dIn(p.U, M, a, b)) || M == L && a == k && b == i
  exit forall M slot.Label, a, b int :: {dIn(p.R, M, a, b)} {old(dIn(p.R, M, a, b))} dIn(p.R, M, a, b) <==> old(dIn(p.R, M, a, b)) || M == L && a == k && b == i && !old(dIn(p.U, L, k, i))
  ensures todoOK(p)
  ensures dIn(p.U, L, k, i)
  ensures forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} {old(dIn(p.U, M, a, b))} dIn(p.U, M, a, b) <==> old(dIn(p.U, M, a, b)) || M == L && a == k && b == i
  ensures forall M slot.Label, a, b int :: {dIn(p.R, M, a, b)} {old(dIn(p.R, M, a, b))} dIn(p.R, M, a, b) <==> old(dIn(p.R, M, a, b)) || M == L && a == k && b == i && !old(dIn(p.U, L, k, i))

// ---- tables and input ----
// the type of token i
define tok(p *parser, i int) int = p.lex.Tokens[i].typ
define inputOK(p *parser) bool = p.lex != nil && len(p.lex.Tokens) > 0 && (forall x int :: {p.lex.Tokens[x]} 0 <= x < len(p.lex.Tokens) ==> p.lex.Tokens[x] != nil && 0 <= p.lex.Tokens[x].lext <= len(p.lex.I))
define inToks(p *parser, i int) bool = 0 <= i < len(p.lex.Tokens)
define selTabOK() bool = forall L slot.Label :: {slot.slots[L]} labelOK(L) ==> 0 <= L < len(first) && 0 <= slot.slots[L].NT < len(followSets)
// token i may come where the dot of L is
define sel(p *parser, L slot.Label, i int) bool = tok(p, i) in first[L]
define fol(p *parser, X symbols.NT, i int) bool = tok(p, i) in followSets[X]

func (*parser).follow(p, nt) (res)
  requires p != nil && inputOK(p) && inToks(p, p.cI) && 0 <= nt < len(followSets)
  ensures res <==> fol(p, nt, p.cI)

func (*parser).testSelect(p, l) (res)
  requires p != nil && inputOK(p) && inToks(p, p.cI) && 0 <= l < len(first)
  ensures res <==> sel(p, l, p.cI)

// ---- errors ----
define errAt(p *parser, x int) *Error = p.parseErrors[x]
// the error names a token of the input, which is not among the expected ones
define errOK(p *parser, e *Error) bool = e != nil && inToks(p, e.cI) && e.Token == p.lex.Tokens[e.cI] && !(tok(p, e.cI) in e.Expected) && labelOK(e.Slot)
define errsOK(p *parser) bool = forall x int :: {p.parseErrors[x]} 0 <= x < len(p.parseErrors) ==> errOK(p, p.parseErrors[x])

func (*parser).parseError(p, l, i, expected)
  requires p != nil && inputOK(p) && inToks(p, i) && labelOK(l) && !(tok(p, i) in expected) && errsOK(p)
  modifies p.parseErrors, anyelems("*Error")
  ensures errsOK(p) && len(p.parseErrors) == old(len(p.parseErrors)) + 1
  ensures forall x int :: {p.parseErrors[x]} 0 <= x < old(len(p.parseErrors)) ==> p.parseErrors[x] == old(p.parseErrors[x])
  ensures p.parseErrors[old(len(p.parseErrors))].cI == i && p.parseErrors[old(len(p.parseErrors))].Slot == l && p.parseErrors[old(len(p.parseErrors))].Expected == expected

func (*parser).sortParseErrors(p)
  requires p != nil && inputOK(p) && errsOK(p)
  modifies elems(p.parseErrors), anyfield("Error.Line"), anyfield("Error.Column")
  ensures errsOK(p) && len(p.parseErrors) == old(len(p.parseErrors))
  ensures forall x, y int :: {p.parseErrors[x], p.parseErrors[y]} 0 <= x < y < len(p.parseErrors) ==> p.parseErrors[x].Token.lext >= p.parseErrors[y].Token.lext
  ensures forall x int :: {p.parseErrors[x]} 0 <= x < len(p.parseErrors) ==> p.parseErrors[x].Line == lcLine(row(p.lex.I), off(p.lex.I), p.parseErrors[x].Token.lext) && p.parseErrors[x].Column == lcCol(row(p.lex.I), off(p.lex.I), p.parseErrors[x].Token.lext)
  loop 1
    invariant forall x int :: {p.parseErrors[x]} 0 <= x < $i ==> p.parseErrors[x].Line == lcLine(row(p.lex.I), off(p.lex.I), p.parseErrors[x].Token.lext) && p.parseErrors[x].Column == lcCol(row(p.lex.I), off(p.lex.I), p.parseErrors[x].Token.lext)

func (*parser).ntAdd(p, nt, j)
  requires p != nil && todoOK(p) && inputOK(p) && inToks(p, p.cI) && j == p.cI && selTabOK() && altsOK() && errsOK(p) && ntIs(nt) && nt in slot.alternates
  modifies p.R.set, p.U.set, anyelems("*descriptor"), p.parseErrors, anyelems("*Error")
  ensures todoOK(p) && errsOK(p)
  ensures forall x int :: {slot.alternates[nt][x]} 0 <= x < len(slot.alternates[nt]) && sel(p, slot.alternates[nt][x], j) ==> dIn(p.U, slot.alternates[nt][x], j, j)
  ensures forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} {old(dIn(p.U, M, a, b))} old(dIn(p.U, M, a, b)) ==> dIn(p.U, M, a, b)
  ensures forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} dIn(p.U, M, a, b) ==> old(dIn(p.U, M, a, b)) || a == j && b == j && altOf(M, nt) && sel(p, M, j)
  ensures forall M slot.Label, a, b int :: {dIn(p.R, M, a, b)} {old(dIn(p.R, M, a, b))} dIn(p.R, M, a, b) <==> old(dIn(p.R, M, a, b)) || dIn(p.U, M, a, b) && !old(dIn(p.U, M, a, b))
  ensures forall x int :: {p.parseErrors[x]} 0 <= x < old(len(p.parseErrors)) ==> p.parseErrors[x] == old(p.parseErrors[x])
  ensures len(p.parseErrors) >= old(len(p.parseErrors)) && (len(slot.alternates[nt]) > 0 && !(exists x int :: {slot.alternates[nt][x]} 0 <= x < len(slot.alternates[nt]) && sel(p, slot.alternates[nt][x], j)) ==> len(p.parseErrors) > old(len(p.parseErrors)))
  loop 1
    invariant todoOK(p)
    invariant failed <==> (forall x int :: {$coll[x]} 0 <= x < $i ==> !sel(p, $coll[x], j))
    invariant failed ==> !(tok(p, j) in expected)
    invariant forall x int :: {$coll[x]} 0 <= x < $i && sel(p, $coll[x], j) ==> dIn(p.U, $coll[x], j, j)
    invariant forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} {old(dIn(p.U, M, a, b))} old(dIn(p.U, M, a, b)) ==> dIn(p.U, M, a, b)
    invariant forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} dIn(p.U, M, a, b) ==> old(dIn(p.U, M, a, b)) || a == j && b == j && altOf(M, nt) && sel(p, M, j)
    invariant forall M slot.Label, a, b int :: {dIn(p.R, M, a, b)} {old(dIn(p.R, M, a, b))} dIn(p.R, M, a, b) <==> old(dIn(p.R, M, a, b)) || dIn(p.U, M, a, b) && !old(dIn(p.U, M, a, b))
  loop 2
    invariant !(tok(p, j) in first[l]) && before(!(tok(p, j) in expected)) ==> !(tok(p, j) in expected)
  loop 3
    invariant errsOK(p) && len(p.parseErrors) == old(len(p.parseErrors)) + $i
    invariant forall x int :: {p.parseErrors[x]} 0 <= x < old(len(p.parseErrors)) ==> p.parseErrors[x] == old(p.parseErrors[x])
    invariant !(tok(p, j) in expected)

// ---- the call graph ----
opaque eAt(R arr[*crfNode], o, n int, u *crfNode) bool = exists x int :: {at(R, o, x)} 0 <= x < n && at(R, o, x) == u
define eIn(l []*crfNode, u *crfNode) bool = eAt(row(l), off(l), len(l), u)

func existEdge(nds, nd) (res)
  reveal eAt
  ensures res <==> eIn(nds, nd)
  loop 1
    invariant !eAt(row($coll), off($coll), $i, nd)

// there is one node for a label and an extent
opaque cCanon(p *parser) bool = forall n crfNode :: {n in p.crfNodes} n in p.crfNodes ==> p.crfNodes[n] != nil && val(p.crfNodes[n]) == n && labelOK(n.L)
opaque cNew(p *parser) bool = forall c clusterNode, x int :: {p.crf[c][x]} 0 <= x < len(p.crf[c]) ==> p.crf[c][x] != nil && val(p.crf[c][x]) in p.crfNodes && p.crfNodes[val(p.crf[c][x])] == p.crf[c][x]
opaque cApart(p *parser) bool = forall c, d clusterNode :: {c in p.crf, d in p.crf} c in p.crf && d in p.crf && c != d && cap(p.crf[c]) > 0 && cap(p.crf[d]) > 0 ==> arr(p.crf[c]) != arr(p.crf[d])
define crfOK(p *parser) bool = p.crf != nil && p.crfNodes != nil && p.popped != nil && cCanon(p) && cNew(p) && cApart(p)
// what is found for cluster c is returned to node n
opaque edge(p *parser, c clusterNode, n crfNode) bool = n in p.crfNodes && eIn(p.crf[c], p.crfNodes[n])

// ---- what a parse means ----
// the symbol before the dot of L
define symBefore(L slot.Label) symbols.Symbol = slot.slots[L].Symbols[slot.slots[L].Pos - 1]
// sp: the first n symbols of alternate a of X derive the tokens k..i; der: X derives the tokens k..j.
// Any two relations that are closed under the rules of the grammar.
spec sp(p *parser, X symbols.NT, a, n, k, i int) bool
  reads labelOK(0) && slot.slots[0].Alt == 0 && slot.slots[0].NT == 0 && typeis(symBefore(0), symbols.NT) && tok(p, 0) == 0 && token.TypeToID[0] == "" && symbols.tToString[0] == ""
spec der(p *parser, X symbols.NT, k, j int) bool
  reads labelOK(0) && slot.slots[0].Alt == 0 && slot.slots[0].NT == 0 && typeis(symBefore(0), symbols.NT) && tok(p, 0) == 0 && token.TypeToID[0] == "" && symbols.tToString[0] == ""
framed sp der edge
// symbol s derives the tokens i..j
define symDer(p *parser, s symbols.Symbol, i, j int) bool = ite(typeis(s, symbols.NT), der(p, as(s, symbols.NT), i, j), typeis(s, symbols.T) && j == i + 1 && token.TypeToID[tok(p, i)] == symbols.tToString[as(s, symbols.T)])
define upTo(p *parser, L slot.Label, k, i int) bool = sp(p, slot.slots[L].NT, slot.slots[L].Alt, slot.slots[L].Pos, k, i)
define upToPrev(p *parser, L slot.Label, k, i int) bool = sp(p, slot.slots[L].NT, slot.slots[L].Alt, slot.slots[L].Pos - 1, k, i)
axiom spNone: forall p *parser, X symbols.NT, a, k int :: {sp(p, X, a, 0, k, k)} sp(p, X, a, 0, k, k)
axiom spMore: forall p *parser, L slot.Label, k, i, j int :: {upToPrev(p, L, k, i), sp(p, slot.slots[L].NT, slot.slots[L].Alt, slot.slots[L].Pos, k, j)} labelOK(L) && slot.slots[L].Pos > 0 && upToPrev(p, L, k, i) && symDer(p, symBefore(L), i, j) ==> upTo(p, L, k, j)
axiom derIs: forall p *parser, L slot.Label, k, j int :: {upTo(p, L, k, j), der(p, slot.slots[L].NT, k, j)} labelOK(L) && slot.slots[L].Pos == len(slot.slots[L].Symbols) && upTo(p, L, k, j) ==> der(p, slot.slots[L].NT, k, j)

define spanOK(p *parser, k, i int) bool = 0 <= k <= i && i < len(p.lex.Tokens)
// the step to slot L over k..j, of a prefix over i..k, is a step of a derivation
define stepOK(p *parser, L slot.Label, i, k, j int) bool = labelOK(L) && spanOK(p, i, k) && spanOK(p, k, j) && ite(slot.slots[L].Pos == 0, len(slot.slots[L].Symbols) == 0 && i == k && k == j, upToPrev(p, L, i, k) && symDer(p, symBefore(L), k, j))
opaque prefixOK(p *parser, R arr[symbols.Symbol], o, n, i, k, j int) bool = exists L slot.Label :: {slot.slots[L]} stepOK(p, L, i, k, j) && slot.slots[L].Pos == n && sameNames(row(syms(L)), off(syms(L)), n, R, o, n)
framed prefixOK
lemma prefixIs: forall p *parser, L slot.Label, R arr[symbols.Symbol], o, n, i, k, j int :: {prefixOK(p, R, o, n, i, k, j), sameNames(row(syms(L)), off(syms(L)), slot.slots[L].Pos, R, o, n)} stepOK(p, L, i, k, j) && slot.slots[L].Pos == n && sameNames(row(syms(L)), off(syms(L)), n, R, o, n) ==> prefixOK(p, R, o, n, i, k, j)
  reveal prefixOK
lemma sameSelf: forall R arr[symbols.Symbol], o, n int :: {sameNames(R, o, n, R, o, n)} sameNames(R, o, n, R, o, n)
  reveal sameNames
lemma sameLen: forall Q arr[symbols.Symbol], p, m int, R arr[symbols.Symbol], o, n int :: {sameNames(Q, p, m, R, o, n)} sameNames(Q, p, m, R, o, n) ==> m == n
  reveal sameNames
define soundOK(p *parser) bool = (forall L slot.Label, k, i int :: {dIn(p.U, L, k, i)} dIn(p.U, L, k, i) ==> labelOK(L) && spanOK(p, k, i) && upTo(p, L, k, i) && (slot.slots[L].Pos == 0 ==> i == k && sel(p, L, k)) && mk(clusterNode, slot.slots[L].NT, k) in p.crf) && (forall q poppedNode :: {q in p.popped} q in p.popped ==> spanOK(p, q.k, q.j) && der(p, q.X, q.k, q.j) && mk(clusterNode, q.X, q.k) in p.crf) && (forall c clusterNode, n crfNode :: {edge(p, c, n)} edge(p, c, n) ==> labelOK(n.L) && slot.slots[n.L].Pos > 0 && typeis(symBefore(n.L), symbols.NT) && as(symBefore(n.L), symbols.NT) == c.X && upToPrev(p, n.L, n.i, c.k) && spanOK(p, n.i, c.k) && mk(clusterNode, slot.slots[n.L].NT, n.i) in p.crf && c in p.crf) && (forall b bsr.BSR :: {b in p.bsrSet.slotEntries} b in p.bsrSet.slotEntries ==> stepOK(p, b.Label, b.leftExtent, b.pivot, b.rightExtent)) && (forall R arr[symbols.Symbol], o, n, i, k, j int :: {strIn(p.bsrSet, R, o, n, i, k, j)} strIn(p.bsrSet, R, o, n, i, k, j) ==> prefixOK(p, R, o, n, i, k, j))

// the set holds the step to slot L
define gp_has(p *parser, L slot.Label, i, k, j int) bool = ite(endOfRule(L), mk(bsr.BSR, L, i, k, j, p.bsrSet) in p.bsrSet.slotEntries, slot.slots[L].Pos > 1 ==> strIn(p.bsrSet, row(syms(L)), off(syms(L)), slot.slots[L].Pos, i, k, j))
// whatever was found for a cluster was returned to all its nodes
define returned(p *parser, c clusterNode, n crfNode, q poppedNode) bool = dIn(p.U, n.L, n.i, q.j) && gp_has(p, n.L, n.i, q.k, q.j)
define retsOK(p *parser) bool = forall c clusterNode, n crfNode, q poppedNode :: {edge(p, c, n), q in p.popped} edge(p, c, n) && q in p.popped && q.X == c.X && q.k == c.k ==> returned(p, c, n, q)
// every alternate of a called nonterminal that can come is known
define callsOK(p *parser) bool = forall c clusterNode, x int :: {c in p.crf, slot.alternates[c.X][x]} c in p.crf && 0 <= x < len(slot.alternates[c.X]) && sel(p, slot.alternates[c.X][x], c.k) ==> dIn(p.U, slot.alternates[c.X][x], c.k, c.k)
define stateOK(p *parser) bool = p != nil && todoOK(p) && crfOK(p) && p.bsrSet != nil && setOK(p.bsrSet) && errsOK(p) && inputOK(p) && selTabOK() && altsOK() && soundOK(p)

func (*parser).rtn(p, X, k, j)
  reveal eAt, edge, cNew, cCanon
  requires stateOK(p) && retsOK(p) && spanOK(p, k, j) && der(p, X, k, j) && mk(clusterNode, X, k) in p.crf
  modifies p.R.set, p.U.set, anyelems("*descriptor"), mapof(p.popped), p.bsrSet.rightExtent, mapof(p.bsrSet.slotEntries), mapof(p.bsrSet.ntSlotEntries), mapof(p.bsrSet.stringEntries), anyelems("bsr.BSR"), anyelems("*bsr.stringBSR")
  ensures stateOK(p) && retsOK(p)
  ensures mk(poppedNode, X, k, j) in p.popped
  ensures forall q poppedNode :: {q in p.popped} q in p.popped <==> old(q in p.popped) || q == mk(poppedNode, X, k, j)
  ensures forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} {old(dIn(p.U, M, a, b))} old(dIn(p.U, M, a, b)) ==> dIn(p.U, M, a, b)
  ensures forall M slot.Label, a, b int :: {dIn(p.R, M, a, b)} {old(dIn(p.R, M, a, b))} dIn(p.R, M, a, b) <==> old(dIn(p.R, M, a, b)) || dIn(p.U, M, a, b) && !old(dIn(p.U, M, a, b))
  ensures forall b bsr.BSR :: {b in p.bsrSet.slotEntries} {old(b in p.bsrSet.slotEntries)} old(b in p.bsrSet.slotEntries) ==> b in p.bsrSet.slotEntries
  ensures forall R arr[symbols.Symbol], o, n, a, b, c int :: {strIn(p.bsrSet, R, o, n, a, b, c)} {old(strIn(p.bsrSet, R, o, n, a, b, c))} old(strIn(p.bsrSet, R, o, n, a, b, c)) ==> strIn(p.bsrSet, R, o, n, a, b, c)
  loop 1
    modifies p.R.set, p.U.set, anyelems("*descriptor"), p.bsrSet.rightExtent, mapof(p.bsrSet.slotEntries), mapof(p.bsrSet.ntSlotEntries), mapof(p.bsrSet.stringEntries), anyelems("bsr.BSR"), anyelems("*bsr.stringBSR")
    invariant forall x int :: {$coll[x]} 0 <= x < len($coll) ==> $coll[x] != nil && labelOK($coll[x].L) && edge(p, mk(clusterNode, X, k), val($coll[x]))
    invariant stateOK(p)
    invariant forall x int :: {$coll[x]} 0 <= x < $i ==> dIn(p.U, $coll[x].L, $coll[x].i, j) && gp_has(p, $coll[x].L, $coll[x].i, k, j)
    invariant forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} {old(dIn(p.U, M, a, b))} old(dIn(p.U, M, a, b)) ==> dIn(p.U, M, a, b)
    invariant forall M slot.Label, a, b int :: {dIn(p.R, M, a, b)} {old(dIn(p.R, M, a, b))} dIn(p.R, M, a, b) <==> old(dIn(p.R, M, a, b)) || dIn(p.U, M, a, b) && !old(dIn(p.U, M, a, b))
    invariant forall b bsr.BSR :: {b in p.bsrSet.slotEntries} {old(b in p.bsrSet.slotEntries)} old(b in p.bsrSet.slotEntries) ==> b in p.bsrSet.slotEntries
    invariant forall R arr[symbols.Symbol], o, n, a, b, c int :: {strIn(p.bsrSet, R, o, n, a, b, c)} {old(strIn(p.bsrSet, R, o, n, a, b, c))} old(strIn(p.bsrSet, R, o, n, a, b, c)) ==> strIn(p.bsrSet, R, o, n, a, b, c)

func (*parser).call(p, L, i, j)
  reveal eAt, edge, cNew, cCanon, cApart
  requires stateOK(p) && retsOK(p) && callsOK(p) && spanOK(p, i, j) && j == p.cI && labelOK(L) && slot.slots[L].Pos > 0 && typeis(symBefore(L), symbols.NT) && upToPrev(p, L, i, j) && mk(clusterNode, slot.slots[L].NT, i) in p.crf
  requires as(symBefore(L), symbols.NT) in slot.alternates
  modifies p.R.set, p.U.set, anyelems("*descriptor"), p.parseErrors, anyelems("*Error"), mapof(p.crf), mapof(p.crfNodes), anyelems("*crfNode"), p.bsrSet.rightExtent, mapof(p.bsrSet.slotEntries), mapof(p.bsrSet.ntSlotEntries), mapof(p.bsrSet.stringEntries), anyelems("bsr.BSR"), anyelems("*bsr.stringBSR")
  exit forall c clusterNode, n crfNode :: {edge(p, c, n)} {old(edge(p, c, n))} edge(p, c, n) <==> old(edge(p, c, n)) || c == mk(clusterNode, as(symBefore(L), symbols.NT), j) && n == mk(crfNode, L, i)
  ensures stateOK(p)
  ensures retsOK(p)
  ensures callsOK(p)
  ensures edge(p, mk(clusterNode, as(symBefore(L), symbols.NT), j), mk(crfNode, L, i)) && mk(clusterNode, as(symBefore(L), symbols.NT), j) in p.crf
  ensures forall c clusterNode, n crfNode :: {edge(p, c, n)} {old(edge(p, c, n))} edge(p, c, n) <==> old(edge(p, c, n)) || c == mk(clusterNode, as(symBefore(L), symbols.NT), j) && n == mk(crfNode, L, i)
  ensures forall c clusterNode :: {c in p.crf} {old(c in p.crf)} c in p.crf <==> old(c in p.crf) || c == mk(clusterNode, as(symBefore(L), symbols.NT), j)
  ensures forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} {old(dIn(p.U, M, a, b))} old(dIn(p.U, M, a, b)) ==> dIn(p.U, M, a, b)
  ensures forall M slot.Label, a, b int :: {dIn(p.R, M, a, b)} {old(dIn(p.R, M, a, b))} dIn(p.R, M, a, b) <==> old(dIn(p.R, M, a, b)) || dIn(p.U, M, a, b) && !old(dIn(p.U, M, a, b))
  ensures forall b bsr.BSR :: {b in p.bsrSet.slotEntries} {old(b in p.bsrSet.slotEntries)} old(b in p.bsrSet.slotEntries) ==> b in p.bsrSet.slotEntries
  ensures forall R arr[symbols.Symbol], o, n, a, b, c int :: {strIn(p.bsrSet, R, o, n, a, b, c)} {old(strIn(p.bsrSet, R, o, n, a, b, c))} old(strIn(p.bsrSet, R, o, n, a, b, c)) ==> strIn(p.bsrSet, R, o, n, a, b, c)
  ensures len(p.parseErrors) >= old(len(p.parseErrors))
  loop 1
    modifies p.R.set, p.U.set, anyelems("*descriptor"), p.bsrSet.rightExtent, mapof(p.bsrSet.slotEntries), mapof(p.bsrSet.ntSlotEntries), mapof(p.bsrSet.stringEntries), anyelems("bsr.BSR"), anyelems("*bsr.stringBSR")
    invariant forall c clusterNode, n crfNode :: {edge(p, c, n)} {old(edge(p, c, n))} edge(p, c, n) <==> old(edge(p, c, n)) || c == mk(clusterNode, as(symBefore(L), symbols.NT), j) && n == mk(crfNode, L, i)
    invariant stateOK(p)
    invariant forall q poppedNode :: {q in $seen} q in $seen ==> q in p.popped
    invariant forall q poppedNode :: {q in $seen} q in $seen && q.X == X && q.k == j ==> dIn(p.U, L, i, q.j) && gp_has(p, L, i, j, q.j)
    invariant forall M slot.Label, a, b int :: {dIn(p.U, M, a, b)} {old(dIn(p.U, M, a, b))} old(dIn(p.U, M, a, b)) ==> dIn(p.U, M, a, b)
    invariant forall M slot.Label, a, b int :: {dIn(p.R, M, a, b)} {old(dIn(p.R, M, a, b))} dIn(p.R, M, a, b) <==> old(dIn(p.R, M, a, b)) || dIn(p.U, M, a, b) && !old(dIn(p.U, M, a, b))
    invariant forall b bsr.BSR :: {b in p.bsrSet.slotEntries} {old(b in p.bsrSet.slotEntries)} old(b in p.bsrSet.slotEntries) ==> b in p.bsrSet.slotEntries
    invariant forall R arr[symbols.Symbol], o, n, a, b, c int :: {strIn(p.bsrSet, R, o, n, a, b, c)} {old(strIn(p.bsrSet, R, o, n, a, b, c))} old(strIn(p.bsrSet, R, o, n, a, b, c)) ==> strIn(p.bsrSet, R, o, n, a, b, c)

func (*parser).startErrors(p)
  reveal listed
  requires stateOK(p) && ntIs(p.bsrSet.startSym) && 0 <= p.bsrSet.startSym < len(followSets)
  modifies p.parseErrors, anyelems("*Error")
  ensures errsOK(p) && len(p.parseErrors) >= old(len(p.parseErrors))
  ensures forall x int :: {p.parseErrors[x]} 0 <= x < old(len(p.parseErrors)) ==> p.parseErrors[x] == old(p.parseErrors[x])
  loop 1
    modifies p.parseErrors, anyelems("*Error")
    invariant errsOK(p) && len(p.parseErrors) >= old(len(p.parseErrors))
    invariant forall x int :: {$coll[x]} 0 <= x < len($coll) ==> $coll[x] in p.bsrSet.slotEntries
    invariant forall x int :: {p.parseErrors[x]} 0 <= x < old(len(p.parseErrors)) ==> p.parseErrors[x] == old(p.parseErrors[x])
