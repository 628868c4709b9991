package $GEN/parser/slot

// the label l is in the tables, which give it its slot
define labelOK(l Label) bool = l in slots && slots[l] != nil && slots[l].Label == l && 0 <= slots[l].Pos <= len(slots[l].Symbols) && symsIs(slots[l].Symbols) && ntIs(slots[l].NT)
define tablesOK() bool = (forall l Label :: {slots[l]} l in slots ==> labelOK(l)) && (forall i Index :: {slotIndex[i]} i in slotIndex ==> labelOK(slotIndex[i]) && slots[slotIndex[i]].NT == i.NT && slots[slotIndex[i]].Alt == i.Alt && slots[slotIndex[i]].Pos == i.Pos)
define altsOK() bool = forall nt symbols.NT, k int :: {alternates[nt][k]} nt in alternates && 0 <= k < len(alternates[nt]) ==> labelOK(alternates[nt][k]) && slots[alternates[nt][k]].NT == nt && slots[alternates[nt][k]].Alt == k && slots[alternates[nt][k]].Pos == 0

define altOf(l Label, nt symbols.NT) bool = labelOK(l) && slots[l].NT == nt && slots[l].Pos == 0

func (Label).Slot(l) (res)
  aborts !(l in slots)
  ensures l in slots && res == slots[l]

func (*Slot).EoR(s) (res)
  requires s != nil
  ensures res <==> s.Pos >= len(s.Symbols)

func (Label).EoR(l) (res)
  requires labelOK(l)
  ensures res <==> slots[l].Pos >= len(slots[l].Symbols)

func (Label).Head(l) (res)
  requires labelOK(l)
  ensures res == slots[l].NT

func (Label).Index(l) (res)
  requires labelOK(l)
  ensures res.NT == slots[l].NT && res.Alt == slots[l].Alt && res.Pos == slots[l].Pos

func (Label).Alternate(l) (res)
  requires labelOK(l)
  ensures res == slots[l].Alt

func (Label).Pos(l) (res)
  requires labelOK(l)
  ensures res == slots[l].Pos

func (Label).Symbols(l) (res)
  requires labelOK(l)
  ensures res == slots[l].Symbols

// the text of a slot: the dot stands before symbol number pos
rec bodyStr(h string, R arr[symbols.Symbol], o, n, pos int) string = ite(n <= 0, h, ite(n - 1 == pos, bodyStr(h, R, o, n-1, pos) + "∙", bodyStr(h, R, o, n-1, pos)) + sprintf("%s ", symStr(at(R, o, n-1))))
define slotText(s *Slot, n int) string = bodyStr(sprintf("%s : ", ntStr(s.NT)), row(s.Symbols), off(s.Symbols), n, s.Pos)

func (*Slot).String(s) (res)
  requires s != nil && symsIs(s.Symbols) && ntIs(s.NT)
  ensures res == ite(s.Pos >= len(s.Symbols), slotText(s, len(s.Symbols)) + "∙", slotText(s, len(s.Symbols)))
  loop 1
    invariant fresh(buf)
    invariant buf(buf) == slotText(s, $i)

func (Label).String(l) (res)
  requires labelOK(l)
  ensures res == ite(slots[l].Pos >= len(slots[l].Symbols), slotText(slots[l], len(slots[l].Symbols)) + "∙", slotText(slots[l], len(slots[l].Symbols)))

func GetAlternates(nt) (res)
  aborts !(nt in alternates)
  requires ntIs(nt)
  ensures nt in alternates && res == alternates[nt]

func GetLabel(nt, alt, pos) (res)
  requires tablesOK() && ntIs(nt)
  aborts !(exists i Index :: {slotIndex[i]} i in slotIndex && i.NT == nt && i.Alt == alt && i.Pos == pos)
  ensures labelOK(res) && slots[res].NT == nt && slots[res].Alt == alt && slots[res].Pos == pos
