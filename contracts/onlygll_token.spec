package $GEN/token

// the terminals of contracts/grammar.md, in order; only the comments are suppressed
func tables:grammar()
  initial TypeToString, TypeToID, Suppress
  ensures len(TypeToID) == 13
  ensures TypeToID[1] == "$" && TypeToID[2] == "(" && TypeToID[3] == ")" && TypeToID[4] == "+" && TypeToID[5] == ";" && TypeToID[6] == "=" && TypeToID[7] == "comment" && TypeToID[8] == "id" && TypeToID[9] == "num" && TypeToID[10] == "print" && TypeToID[11] == "str" && TypeToID[12] == "uni"
  ensures TypeToString[2] == "T_0" && TypeToString[3] == "T_1" && TypeToString[4] == "T_2" && TypeToString[5] == "T_3" && TypeToString[6] == "T_4" && TypeToString[7] == "T_5" && TypeToString[8] == "T_6" && TypeToString[9] == "T_7" && TypeToString[10] == "T_8" && TypeToString[11] == "T_9" && TypeToString[12] == "T_10"
  ensures forall i int :: {Suppress[i]} 0 <= i < len(Suppress) ==> (Suppress[i] <==> i == 7)
