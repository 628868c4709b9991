package $GEN/sppf

// ---- labels ----
// the text of a slot: the dot stands before symbol number pos
rec dotBody(h string, R arr[symbols.Symbol], o, n, pos int) string = ite(n <= 0, h, ite(n - 1 == pos, dotBody(h, R, o, n-1, pos) + " " + "•", dotBody(h, R, o, n-1, pos) + " ") + symStr(at(R, o, n-1)))
define dotN(nt symbols.NT, R arr[symbols.Symbol], o, n, pos int) string = dotBody(sprintf("%s:", ntStr(nt)), R, o, n, pos)
define dotText(nt symbols.NT, R arr[symbols.Symbol], o, n, pos int) string = ite(n == pos, dotN(nt, R, o, n, pos) + "•", dotN(nt, R, o, n, pos))

framed dotBody
func slotString(nt, body, pos) (res)
  requires symsIs(body) && ntIs(nt)
  ensures res == dotText(nt, row(body), off(body), len(body), pos)
  loop 1
    invariant fresh(w)
    invariant buf(w) == dotN(nt, row(body), off(body), $i, pos)

define snKey(s string, i, j int) string = sprintf("\"%s,%d,%d\"", s, i, j)
define pnKey(nt symbols.NT, R arr[symbols.Symbol], o, n, pos, i, k, j int) string = sprintf("\"%s,%d,%d,%d\"", dotText(nt, R, o, n, pos), i, k, j)
define inKey(nt symbols.NT, R arr[symbols.Symbol], o, n, pos, i, j int) string = sprintf("\"%s:,%d,%d\"", dotText(nt, R, o, n, pos), i, j)
define snLabel(n *SymbolNode) string = snKey(n.Symbol, n.Lext, n.Rext)
define pnLabel(n *PackedNode) string = pnKey(n.NT, row(n.Body), off(n.Body), len(n.Body), n.Pos, n.Lext, n.Pivot, n.Rext)
define inLabel(n *IntermediateNode) string = inKey(n.NT, row(n.Body), off(n.Body), len(n.Body), n.Pos, n.Lext, n.Rext)
// a decimal number holds no comma
spec snS(s string) string
spec snI(s string) int
spec snJ(s string) int
axiom snParts: forall s string, i, j int :: {sprintf("\"%s,%d,%d\"", s, i, j)} snS(sprintf("\"%s,%d,%d\"", s, i, j)) == s && snI(sprintf("\"%s,%d,%d\"", s, i, j)) == i && snJ(sprintf("\"%s,%d,%d\"", s, i, j)) == j

func (*SymbolNode).Label(n) (res)
  requires n != nil
  ensures res == snLabel(n)

func (*PackedNode).Label(n) (res)
  requires n != nil && symsIs(n.Body) && ntIs(n.NT)
  ensures res == pnLabel(n)

func (*IntermediateNode).Label(n) (res)
  requires n != nil && symsIs(n.Body) && ntIs(n.NT)
  ensures res == inLabel(n)
