package $GEN/parser

// slot number Pos(L) + d of the rule of L
define slotAt(L slot.Label, d int) slot.Label = slot.slotIndex[mk(slot.Index, slot.slots[L].NT, slot.slots[L].Alt, slot.slots[L].Pos + d)]
define isTerm(L slot.Label) bool = slot.slots[L].Pos < len(slot.slots[L].Symbols) && typeis(slot.slots[L].Symbols[slot.slots[L].Pos], symbols.T)
// from slot L at token i the rule can pass d terminals: each slot on the way lets its token through
rec passes(p *parser, L slot.Label, d, i int) bool = d <= 0 || passes(p, L, d - 1, i) && isTerm(slotAt(L, d - 1)) && sel(p, slotAt(L, d - 1), i + d - 1)
define sameRule(L, M slot.Label) bool = labelOK(L) && labelOK(M) && slot.slots[L].NT == slot.slots[M].NT && slot.slots[L].Alt == slot.slots[M].Alt && slot.slots[L].Pos <= slot.slots[M].Pos
// slot M is reached from slot L at token i through terminals only
opaque reaches(p *parser, L, M slot.Label, i int) bool = sameRule(L, M) && passes(p, L, slot.slots[M].Pos - slot.slots[L].Pos, i)
framed passes reaches
define nextSym(L slot.Label) symbols.Symbol = slot.slots[L].Symbols[slot.slots[L].Pos]
// what the parser does at slot M, with the rule begun at k, at token m
define actsAt(p *parser, M slot.Label, k, m int) bool = ite(endOfRule(M), fol(p, slot.slots[M].NT, m) ==> mk(poppedNode, slot.slots[M].NT, k, m) in p.popped, sel(p, M, m) && typeis(nextSym(M), symbols.NT) ==> mk(clusterNode, as(nextSym(M), symbols.NT), m) in p.crf && edge(p, mk(clusterNode, as(nextSym(M), symbols.NT), m), mk(crfNode, slotAt(M, 1), k)))
define actedFrom(p *parser, L, M slot.Label, k, i int) bool = ite(slot.slots[M].Pos > slot.slots[L].Pos, gp_has(p, M, k, i + slot.slots[M].Pos - slot.slots[L].Pos - 1, i + slot.slots[M].Pos - slot.slots[L].Pos), slot.slots[L].Pos == 0 && endOfRule(L) ==> mk(bsr.BSR, L, k, k, k, p.bsrSet) in p.bsrSet.slotEntries) && actsAt(p, M, k, i + slot.slots[M].Pos - slot.slots[L].Pos)
// the descriptors that are no longer to do have been acted on
define doneOK(p *parser) bool = forall L, M slot.Label, k, i int :: {dIn(p.U, L, k, i), reaches(p, L, M, i)} dIn(p.U, L, k, i) && !dIn(p.R, L, k, i) && reaches(p, L, M, i) ==> actedFrom(p, L, M, k, i)

// the parser before it starts: only the start symbol is called, at token 0
define startOK(p *parser) bool = stateOK(p) && len(p.R.set) == 0 && len(p.U.set) == 0 && len(p.parseErrors) == 0 && (forall c clusterNode :: {c in p.crf} c in p.crf <==> c == mk(clusterNode, symbols.NT_S, 0)) && (forall c clusterNode, n crfNode :: {edge(p, c, n)} !edge(p, c, n)) && (forall q poppedNode :: {q in p.popped} !(q in p.popped)) && p.bsrSet.startSym == symbols.NT_S && tok(p, len(p.lex.Tokens) - 1) == token.EOF

func (*parser).parse(p) (res, errs)
  initial slot.slots, slot.slotIndex, slot.alternates, first, followSets, token.TypeToID, symbols.ntToString, symbols.tToString
  reveal reaches, dAt
  requires startOK(p)
  modifies p.cI, p.R.set, p.U.set, anyelems("*descriptor"), p.parseErrors, anyelems("*Error"), anyfield("Error.Line"), anyfield("Error.Column"), mapof(p.popped), mapof(p.crf), mapof(p.crfNodes), anyelems("*crfNode"), p.bsrSet.rightExtent, mapof(p.bsrSet.slotEntries), mapof(p.bsrSet.ntSlotEntries), mapof(p.bsrSet.stringEntries), anyelems("bsr.BSR"), anyelems("*bsr.stringBSR")
  noterm
  ensures res != nil ==> res == p.bsrSet && len(errs) == 0 && der(p, symbols.NT_S, 0, len(p.lex.Tokens) - 1)
  ensures stateOK(p) && retsOK(p) && callsOK(p)
  ensures len(p.R.set) == 0 && doneOK(p)
  loop 1
    invariant stateOK(p)
    invariant retsOK(p)
    invariant callsOK(p)
    invariant doneOK(p)
    invariant mk(clusterNode, symbols.NT_S, 0) in p.crf
