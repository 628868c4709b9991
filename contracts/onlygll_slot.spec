package $GEN/parser/slot

func tables:slots()
  initial slots, slotIndex, alternates, symbols.ntToString, symbols.tToString
  ensures tablesOK()
  ensures altsOK()
